"""Kaehler potential, metric and eta of the algebraic ansatz."""
from alib import *


def run(scn, rec):
    for s in scn:
        one(s, rec)


def one(s, rec):
    v = s['v']
    X = variety(v)
    sec = basis(v, s['k'], s['red'], gvec(s['pars'][0]) if v['np'] else None)
    M = D.AlgebraicMetric(X, sec)
    _, (sz, sp, sq, sd) = LAY[s['lay']]
    sh = HL[s['hl']]
    hs = [flipped(h) if s['indef'] else hmat(h) for h in s['hs']]
    hl, ha = take(hs, sh)
    zl, za = take([gvec(z) for z in s['zs']], sz)
    pl, pa = take([gvec(z) for z in s['pars']], sp)
    ql, qa = take(s['ps'], sq)
    dl, da = take(s['ds'], sd)
    if v['np'] == 0:
        pa, sp, pl = None, (), [[]]
    else:
        pa = jnp.asarray(pa)
    xl, xa = take([homog(gvec(z), p, g(c)) for z, p, c in zip(s['zs'], s['ps'], s['sc'])], sz)
    ha, za, xa = jnp.asarray(ha), jnp.asarray(za), jnp.asarray(xa)
    qa = jnp.asarray(qa) if sq else int(qa)
    da = jnp.asarray(da) if sd else int(da)
    base = dict(op='call', indef=s['indef'], v=rec_v(v), k=s['k'], pm=rows(sec), pars=[encv(z) for z in pl], hs=[encm(h) for h in hl],
                ds=[int(x) for x in dl])
    jit = s['lay'] in (1, 6)
    evs = []

    def call(fn, aff, dep, grad=False, compiled=False):
        x, xs = (za, zl) if aff else (xa, xl)
        b = bcm(sz, sp, sh, *([sq] if aff else []), *([sd] if dep else []))
        kw = {}
        if aff:
            kw['patch'] = qa
        if dep:
            kw['dependent'] = da
        if grad:
            kw['grad_def'] = X.grad_defining(za, pa, qa)

        def do(name):
            f = getattr(M, name)
            if compiled:
                return jax.jit(lambda h, x, p, kw: f(h, x, p, **kw))(ha, x, pa, kw)
            return f(ha, x, pa, **kw)
        e = dict(base, fn=fn, aff=aff, dep=dep, b=list(b), xs=[encv(t) for t in xs], ps=[int(t) for t in ql])
        try:
            K = np.asarray(do('kahler_potential'))
            e['expk'] = arr(np.exp(K * np.pi * s['k']))
            e['imk'] = arr(K.imag)
        except Exception as ex:
            e['expk'] = e['imk'] = err(f'{type(ex).__name__}: {ex}')
        try:
            gm, patch, deps = do('metric')
            e['g'], e['patch'], e['deps'] = arr(gm), iarr(patch), iarr(deps)
        except Exception as ex:
            e['g'] = e['patch'] = e['deps'] = err(f'{type(ex).__name__}: {ex}')
        e['eta'] = attempt(lambda: do('eta'))
        evs.append(e)
    call('affine', True, True, compiled=jit)
    call('affine, dependent chosen', True, False)
    call('homogeneous', False, False, compiled=jit)
    if s['lay'] in (0, 2, 5, 7):
        call('affine, gradient given', True, True, grad=True)
    if s['lay'] in (2, 3, 7):
        call('homogeneous, dependent given', False, True)
    rec.trace(evs, s)
