"""Derivatives obtained by differentiating through the library."""
from alib import *

NONE = dict(err='none', shape=[], kind='', data=[])


def run(scn, rec):
    for s in scn:
        globals()['do_' + s['op']](s, rec)


def forward(f, x, dx):
    return jax.jvp(f, x, dx)[1]


def reverse(f, x, dx):
    """The derivative in direction dx assembled from the gradients of all real and imaginary parts."""
    y, pull = jax.vjp(f, *x)
    n = int(np.prod(y.shape))
    e = np.eye(n).reshape((n,) + y.shape)

    def rate(c):
        gr = jax.vmap(pull)(jnp.asarray(c, y.dtype))
        return sum(jnp.sum((a * b).real.reshape(n, -1), -1) for a, b in zip(gr, dx))
    r = rate(e)
    if jnp.iscomplexobj(y):
        r = r + 1j * rate(-1j * e)
    return jnp.reshape(r, y.shape)


def functions(X, B, M, ps, qs, ds):
    return dict(
        poly=lambda z, h, a, H: X.defining(h, a),
        polyaff=lambda z, h, a, H: X.defining(z, a, ps),
        grad=lambda z, h, a, H: X.grad_defining(z, a, ps),
        chart=lambda z, h, a, H: cyjax.hom_to_affine(h, ps),
        hom=lambda z, h, a, H: cyjax.affine_to_hom(z, ps),
        rechart=lambda z, h, a, H: cyjax.change_chart(z, ps, qs),
        pot=lambda z, h, a, H: cyjax.fs_potential(z),
        fs=lambda z, h, a, H: cyjax.fs_metric(z),
        jac=lambda z, h, a, H: X.jacobian_embed(z, a, ps, ds),
        indfs=lambda z, h, a, H: X.induced_fs(z, a, ps, dependent=ds),
        weight=lambda z, h, a, H: X.sample_intersect_weights(z, a, ps, ds),
        sections=lambda z, h, a, H: B(z, ps),
        kpot=lambda z, h, a, H: M.kahler_potential(H, z, a, ps, ds),
        metric=lambda z, h, a, H: M.metric(H, z, a, ps, ds)[0],
        eta=lambda z, h, a, H: M.eta(H, z, a, ps, ds))


_c = {}


def compiled(v, k, batch, fn, X, B, M):
    key = json.dumps([v, k, batch, fn], sort_keys=True)
    if key not in _c:
        def both(how):
            def run(t, dt, ps, qs, ds):
                F = functions(X, B, M, ps, qs, ds)[fn]
                return how(lambda *q: F(**dict(dict(a=None), **dict(zip(t, q)))), tuple(t.values()), tuple(dt.values()))
            return jax.jit(run)
        _c[key] = both(forward), both(reverse)
    return _c[key]


def do_along(s, rec):
    v, k, m = s['v'], s['k'], 2 if s['batch'] else 1
    X = variety(v)
    B = basis(v, k, False)
    M = D.AlgebraicMetric(X, B)

    def arrs(key):
        a = np.stack([gvec(z) for z in s[key][:m]])
        return jnp.asarray(a if s['batch'] else a[0])

    def ints(key):
        return jnp.asarray(s[key][:m]) if s['batch'] else int(s[key][0])
    ps, qs, ds = ints('ps'), ints('qs'), ints('ds')
    H, dH = hmat(s['H']), hmat(s['dH'])
    x = dict(z=arrs('zs'), h=arrs('hs'), a=arrs('pars') if v['np'] else None, H=jnp.asarray(H))
    dx = dict(z=arrs('dzs'), h=arrs('dhs'), a=arrs('dpars') if v['np'] else None, H=jnp.asarray(dH))
    mv = [i for i in 'zhaH' if i in s['mv'] and x[i] is not None]
    z0 = lambda key, on: [encv(gvec(t) if on else 0 * gvec(t)) for t in s[key][:m]]  # noqa
    base = dict(op='along', v=rec_v(v), k=k, pm=rows(B), ps=s['ps'][:m], qs=s['qs'][:m], ds=s['ds'][:m], batch=s['batch'],
                zs=z0('zs', 1), hs=z0('hs', 1), pars=z0('pars', 1) if v['np'] else [[]] * m,
                dzs=z0('dzs', 'z' in mv), dhs=z0('dhs', 'h' in mv), dpars=z0('dpars', 'a' in mv) if v['np'] else [[]] * m,
                H=encm(H), dH=encm(dH if 'H' in mv else 0 * dH))
    evs = []
    for fn in s['fns']:
        if s['jit']:  # compiled once; arguments at rest have direction zero
            fwd, rev = compiled(v, k, s['batch'], fn, X, B, M)
            t = {i: x[i] for i in 'zhaH' if x[i] is not None}
            dt = {i: dx[i] if i in mv else 0 * dx[i] for i in t}
            ix = [jnp.asarray(i) for i in (ps, qs, ds)]
            evs.append(dict(base, fn=fn, fwd=attempt(fwd, t, dt, *ix), rev=attempt(rev, t, dt, *ix)))
        else:
            F = functions(X, B, M, ps, qs, ds)[fn]
            f = lambda *t: F(**dict(x, **dict(zip(mv, t))))  # noqa
            t, dt = tuple(x[i] for i in mv), tuple(dx[i] for i in mv)
            evs.append(dict(base, fn=fn, fwd=attempt(forward, f, t, dt), rev=attempt(reverse, f, t, dt)))
    rec.trace(evs, s)


def do_solve(s, rec):
    v, d, p = s['v'], s['d'], s['p']
    X = variety(v)
    z, dz = jnp.asarray(gvec(s['z'])), jnp.asarray(gvec(s['dz']))
    par = (jnp.asarray(gvec(s['par'])),) if v['np'] else ()
    dpar = (jnp.asarray(gvec(s['dpar'])),) if v['np'] else ()
    f = lambda z, *a: X.solve_defining(z, a[0] if a else None, d, p)  # noqa
    rec.trace([dict(op='solve', fn='roots', v=rec_v(v), p=p, d=d, z=encv(gvec(s['z'])), dz=encv(gvec(s['dz'])), par=encv(gvec(s['par'])),
                    dpar=encv(gvec(s['dpar'])), out=attempt(f, z, *par), fwd=attempt(forward, f, (z, *par), (dz, *dpar)),
                    rev=attempt(reverse, f, (z, *par), (dz, *dpar)))], s)


def do_sample(s, rec):
    v = s['v']
    X = variety(v)
    par, dpar = jnp.asarray(gvec(s['par'])), jnp.asarray(gvec(s['dpar']))
    f = lambda a: X.sample_intersect(jax.random.PRNGKey(s['key']), a, s['count'])  # noqa
    f = jax.jit(f) if s['jit'] else f
    rec.trace([dict(op='sample', fn='points', v=rec_v(v), count=s['count'], par=encv(gvec(s['par'])), dpar=encv(gvec(s['dpar'])),
                    out=attempt(f, par), fwd=attempt(forward, f, (par,), (dpar,)))], s)


def do_hessian(s, rec):
    """Metric and curvature of the written-out potential by repeated mixed derivatives."""
    v, k, p, d = s['v'], s['k'], s['p'], s['d']
    X, B = variety(v), basis(v, k, False)
    z, par, H = jnp.asarray(gvec(s['z'])), jnp.asarray(gvec(s['par'])) if v['np'] else None, jnp.asarray(hmat(s['H']))

    def potential(z, zc, a):
        return jnp.log(jnp.einsum('i,ij,j', B(z, p), H, B(zc, p))) / (jnp.pi * k)

    def metric(z, zc, a):
        return X.induced_metric(cyjax.complex_hessian(potential)(z, zc, a), z, a, p, zc, d)

    def logdet(z, zc, a):
        return jnp.log(jnp.linalg.det(metric(z, zc, a)))

    def curv(z, zc, a):
        return X.induced_metric(-cyjax.complex_hessian(logdet)(z, zc, a), z, a, p, zc, d)
    w = jax.jit if s['jit'] else (lambda f: f)
    rec.trace([dict(op='hessian', fn='jit' if s['jit'] else 'plain', v=rec_v(v), k=k, pm=rows(B), H=encm(hmat(s['H'])), p=p, d=d, z=encv(gvec(s['z'])),
                    par=encv(gvec(s['par'])), loc=attempt(w(metric), z, z.conj(), par), ricci=attempt(w(curv), z, z.conj(), par))], s)
