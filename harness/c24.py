"""Number formats, containers, precision mode and program transformations."""
from alib import *
NONE = dict(err='none', shape=[], kind='', data=[])
_o = {}


def objects(v, k, x64):
    """Objects made in the precision mode they are used in."""
    key = json.dumps([v, k, x64], sort_keys=True)
    if key not in _o:
        import vlib
        vlib._cache.clear()
        X = variety(v)
        B = D.MonomialBasisFull(v['n'] - 1, k)
        _o[key] = X, B, D.AlgebraicMetric(X, B)
        vlib._cache.clear()
    return _o[key]


def run(scn, rec):
    for s in scn:
        jax.config.update('jax_enable_x64', s['x64'])
        try:
            one(s, rec)
        finally:
            jax.config.update('jax_enable_x64', True)


def one(s, rec):
    v, k = s['v'], s['k']
    X, B, M = objects(v, k, s['x64'])
    off = 1.0 if s['single'] else 1 + 1 / 30000  # use the full precision of the format
    zl = [gvec(z) * off for z in s['zs']]
    hl = [homog(z, p, g(c)) for z, p, c in zip(zl, s['ps'], s['sc'])]
    pl = [gvec(x) * (off if s['par'] == 'complex' else 1) for x in s['pars']]
    H0 = hmat(s['H']) * (1.0 if s['single'] else 1 / 3)
    double = s['pt'] in ('jax128', 'np128')
    jx = s['pt'].startswith('jax')

    def pts(a):
        a = np.asarray(a, np.complex128 if double else np.complex64)
        return jnp.asarray(a) if jx else a

    def params(a):
        a = np.asarray(a)
        kind = dict(complex=[np.complex64, np.complex128], real=[np.float32, np.float64], int=[np.int32, np.int64])[s['par']][double]
        a = (a if s['par'] == 'complex' else a.real).astype(kind)
        return a if s['npar'] else jnp.asarray(a)

    def ints(a):
        a = np.asarray(a)
        return a if s['int'] == 'np' else jnp.asarray(a, jnp.int32 if s['int'] == 'i32' or not s['x64'] else jnp.int64)
    zs, hs, H = pts(zl), pts(hl), pts(H0)
    par = params(pl) if v['np'] else None
    ps, ds = ints(s['ps']), ints(s['ds'])
    F = dict(
        chart=lambda z, h, a, p, d: cyjax.hom_to_affine(h, p),
        auto=lambda z, h, a, p, d: cyjax.hom_to_affine(h),
        rechart=lambda z, h, a, p, d: cyjax.change_chart(z, p, (p + 1) % v['n']),
        hom=lambda z, h, a, p, d: cyjax.affine_to_hom(z, p),
        fs=lambda z, h, a, p, d: cyjax.fs_metric(z),
        pot=lambda z, h, a, p, d: jnp.exp(cyjax.fs_potential(z)),
        poly=lambda z, h, a, p, d: X.defining(h, a),
        polyaff=lambda z, h, a, p, d: X.defining(z, a, p),
        grad=lambda z, h, a, p, d: X.grad_defining(z, a, p),
        best=lambda z, h, a, p, d: X.best_dependent(z, a, p),
        jac=lambda z, h, a, p, d: X.jacobian_embed(z, a, p, d),
        indfs=lambda z, h, a, p, d: X.induced_fs(z, a, p, dependent=d),
        weight=lambda z, h, a, p, d: X.sample_intersect_weights(z, a, p, d),
        sections=lambda z, h, a, p, d: B(z, p),
        expk=lambda z, h, a, p, d: jnp.exp(M.kahler_potential(H, z, a, p, d) * np.pi * k),
        metric=lambda z, h, a, p, d: M.metric(H, z, a, p, d)[0],
        eta=lambda z, h, a, p, d: M.eta(H, z, a, p, d),
        ricci=lambda z, h, a, p, d: M.ricci_scalar(H, z, a, p, d))
    keys = jnp.stack([jax.random.PRNGKey(i) for i in s['keys']])
    ax = (0, 0, None if par is None else 0, 0, 0)

    def sample():
        f = lambda key, a: X.sample_intersect(key, a, 4)  # noqa
        if s['tr'] in ('vmap', 'jitvmap'):
            m = jax.vmap(f, (0, ax[2]))
            return (jax.jit(m) if s['tr'] == 'jitvmap' else m)(keys, par)
        if s['tr'] == 'map':
            return jax.lax.map(lambda x: f(*x), (keys, par))
        m = jax.jit(f) if s['tr'] == 'jit' else f
        return np.stack([np.asarray(m(keys[t], None if par is None else par[t])) for t in range(3)])

    def solve():
        d, p = s['ds'][0], s['ps'][0]
        rest = pts([np.delete(z, d) for z in zl])
        f = lambda z, a: X.solve_defining(z, a, d, p)  # noqa
        if s['tr'] in ('plain', 'jit'):
            return f(rest, par)
        if s['tr'] != 'item':
            return jax.vmap(f, (0, ax[2]))(rest, par)
        return np.stack([np.asarray(f(rest[t], None if par is None else par[t])) for t in range(3)])

    def chol():
        a = np.array([[h[0].real, h[0].imag, h[1].real, h[1].imag] for h in hl], np.float64 if double else np.float32)
        a = jnp.asarray(a) if jx else a
        f = cyjax.ml.cholesky_from_param
        if s['tr'] in ('vmap', 'jitvmap'):
            return (jax.jit(jax.vmap(f)) if s['tr'] == 'jitvmap' else jax.vmap(f))(a)
        if s['tr'] == 'map':
            return jax.lax.map(f, a)
        f = jax.jit(f) if s['tr'] == 'jit' else f
        return np.stack([np.asarray(f(x)) for x in a])

    def loss():
        w = np.array([abs(g(c)) ** 2 for c in s['sc']], np.float64 if double else np.float32)
        f = lambda H, a, z, p, w: cyjax.ml.variance_eta_loss(H, (a, z, p, w), M)  # noqa
        f = jax.jit(f) if s['tr'] in ('jit', 'jitvmap', 'map') else f
        return f(H, None if par is None else par[0], zs, ps, jnp.asarray(w) if jx else w)

    def tr(f):
        if s['tr'] == 'plain':
            return f(zs, hs, par, ps, ds)
        if s['tr'] == 'jit':
            return jax.jit(f)(zs, hs, par, ps, ds)
        if s['tr'] == 'vmap':
            return jax.vmap(f, ax)(zs, hs, par, ps, ds)
        if s['tr'] == 'jitvmap':
            return jax.jit(jax.vmap(f, ax))(zs, hs, par, ps, ds)
        if s['tr'] == 'map':
            return jax.lax.map(lambda x: f(*x), (zs, hs, par, ps, ds))
        r = [f(zs[t], hs[t], None if par is None else par[t], int(s['ps'][t]) if s['int'] != 'np' else ps[t], ds[t]) for t in range(3)]
        return jax.tree_util.tree_map(lambda *a: np.stack([np.asarray(x) for x in a]), *r)
    base = dict(op='form', v=rec_v(v), k=k, pm=rows(B), H=encm(H0), zs=[encv(z) for z in zl], hs=[encv(h) for h in hl],
                pars=[encv(list(x)) for x in pl], ps=s['ps'], ds=s['ds'], single=s['single'], sc=[encv([g(c)])[0] for c in s['sc']],
                form=' '.join(['x64' if s['x64'] else 'x32', s['pt'], s['par'], 'np' if s['npar'] else 'jax', s['tr'], s['int']]))
    own = dict(sample=sample, solve=solve, chol=chol, loss=loss)
    evs = []
    for fn in s['fns']:
        e = dict(base, fn=fn, out=NONE, int=NONE)
        try:
            r = own[fn]() if fn in own else tr(F[fn])
            if fn == 'auto':
                e['out'], e['int'] = arr(r[0]), iarr(r[1])
            elif fn == 'best':
                e['int'] = iarr(r)
            else:
                e['out'] = arr(r)
        except Exception as ex:
            e['out'] = e['int'] = err(f'{type(ex).__name__}: {ex}')
        evs.append(e)
    rec.trace(evs, s)
