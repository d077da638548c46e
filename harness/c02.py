"""Fubini-Study potential/metric and the mixed Hessian operator."""
from lib import *
jax, jnp = jnp64()
import cyjax


def run(scn, rec):
    for s in scn:
        (fs if s['op'] == 'fs' else hess)(s, rec)


def fs(s, rec):
    n, sh = s['n'], tuple(s['shape'])
    m = int(np.prod(sh)) if sh else 1
    zs = np.stack([gvec(z) for z in s['zs'][:m]])
    if s['conj'] == 'independent':
        zc = np.stack([gvec(z) for z in s['zc'][:m]])
    else:
        zc = zs.conj()
    single = s['prec'] == 'single'
    dt = np.complex64 if single else np.complex128
    a, c = zs.reshape(sh + (n,)).astype(dt), zc.reshape(sh + (n,)).astype(dt)
    if s['conj'] == 'implied' and not single and not np.any(a.imag):
        a = a.real  # real input is allowed
    if sh == () and n == 1 and s['conj'] == 'implied':
        a = a[0]  # scalar input is a 1-dimensional point
    a, c = jnp.asarray(a), jnp.asarray(c)
    args = (a,) if s['conj'] == 'implied' else (a, c)
    ex = lambda x: np.exp(np.asarray(x).astype(complex))
    rec.trace([dict(op='fs', fn=s['conj'], n=n, bshape=list(sh), zs=[encv(z) for z in zs], zc=[encv(z) for z in zc],
                    prec=s['prec'], metric=attempt(cyjax.fs_metric, *args),
                    exppot=attempt(lambda: ex(cyjax.fs_potential(*args))),
                    homexppot=attempt(lambda: ex(cyjax.fs_potential(*args, hom=True))))], s)


def hess(s, rec):
    n = s['n']
    z, zc = jnp.asarray(gvec(s['z'])), jnp.asarray(gvec(s['zc']))
    if s['which'] == 'fs':
        if not s['ind']:
            zc = z.conj()
        out = attempt(cyjax.complex_hessian(cyjax.fs_potential), z, zc)
        terms = []
    else:
        cs = [g(t['c']) for t in s['terms']]
        As = [np.array(t['a']) for t in s['terms']]
        Bs = [np.array(t['b']) for t in s['terms']]
        zi, ci = s['zi'], s['ci']
        others = [i for i in range(4) if i not in (zi, ci)]

        def ipow(v, a):
            r = 1
            for i, k in enumerate(a):
                for _ in range(int(k)):
                    r = r * v[i]
            return r

        def f(*a):
            val = sum(c * ipow(a[zi], A) * ipow(a[ci], B) for c, A, B in zip(cs, As, Bs))
            return val * a[others[0]] * jnp.sum(a[others[1]])
        args = [None] * 4
        args[zi], args[ci] = z, zc
        args[others[0]], args[others[1]] = float(s['t']), jnp.array([0.25, 0.75])
        kw = dict(z_index=zi, z_c_index=ci)
        out = attempt(cyjax.complex_hessian(f, **kw), *args)
        terms = [dict(c=enc(c), a=[int(x) for x in A], b=[int(x) for x in B]) for c, A, B in zip(cs, As, Bs)]
    rec.trace([dict(op='hess', fn=s['which'], n=n, which=s['which'], terms=terms, z=encv(z), zc=encv(zc), t=s['t'], out=out)], s)
