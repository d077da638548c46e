"""Solving the defining equation for one coordinate."""
from vlib import *
FORM = [int, np.int64, lambda i: jnp.arange(9)[i], np.array]  # integers as users have them
LAYS = {1: ((), ()), 2: ((3,), ()), 3: ((3,), (3,)), 4: ((), (3,)), 5: ((2, 3), (3,))}


def run(scn, rec):
    for s in scn:
        X = variety(s['v'])
        sz, sp = LAYS[s['lay']]
        zl, za = take([gvec(z) for z in s['zs']], sz)
        pl, pa = take([gvec(z) for z in s['pars']], sp)
        if s['v']['np'] == 0:
            pa, sp, pl = None, (), [[]]
        else:
            pa = jnp.asarray(pa)
        za, f = jnp.asarray(za), FORM[s['form']]
        if s['p'] == -1:
            out = attempt(lambda: X.solve_defining(za, pa, f(s['d'])))
        else:
            out = attempt(lambda: X.solve_defining(za, pa, f(s['d']), f(s['p'])))
        rec.trace([dict(op='solve', fn='hom' if s['p'] == -1 else 'affine', v=rec_v(s['v']), p=s['p'], d=s['d'], bshape=list(bc(sz, sp)), zs=[encv(z) for z in zl],
                        pars=[encv(z) for z in pl], out=out)], s)
