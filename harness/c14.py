"""Independence of coordinates, of the form of the input and of earlier reads."""
from alib import *


def run(scn, rec):
    for s in scn:
        views(s, rec) if s['op'] == 'views' else reads(s, rec)


def views(s, rec):
    v, k = s['v'], s['k']
    X, sec = variety(v), basis(v, k, False)
    M = D.AlgebraicMetric(X, sec)
    H = jnp.asarray(hmat(s['H']))
    h = gvec(s['h'])
    par = np.array([dec(x) for x in s['par']])
    pj = jnp.asarray(par)
    ps = np.array([x[0] for x in s['vw']])
    ds = np.array([x[1] for x in s['vw']])
    zs = jnp.asarray(np.stack([np.delete(h, p) / h[p] for p in ps]))
    out = []

    def add(how, x, **kw):
        K = np.asarray(M.kahler_potential(H, x, pj, **kw))
        gm, p1, d1 = M.metric(H, x, pj, **kw)
        eta = np.asarray(M.eta(H, x, pj, **kw))
        r, p2, d2 = M.ricci(H, x, pj, **kw)
        sc = np.asarray(M.ricci_scalar(H, x, pj, **kw))
        gm, r = np.asarray(gm), np.asarray(r)
        one = x.ndim == 1
        if one:
            K, gm, eta, r, sc, p1, d1, p2, d2 = (np.asarray(a)[None] for a in (K, gm, eta, r, sc, p1, d1, p2, d2))
        p1, d1, p2, d2 = (np.asarray(a) for a in (p1, d1, p2, d2))
        if not (np.array_equal(p1, p2) and np.array_equal(d1, d2)):
            raise ValueError('metric and ricci report different coordinates')
        gp, gd = (np.broadcast_to(kw.get(a, -1), (len(K),)) for a in ('patch', 'dependent'))
        for i in range(len(K)):
            out.append(dict(how=how, gp=int(gp[i]), gd=int(gd[i]), p=int(p1[i]), d=int(d1[i]), expk=enc(np.exp(K[i] * np.pi * k)), g=encv(gm[i]), eta=enc(eta[i]),
                            r=encv(r[i]), scalar=enc(sc[i])))
    e = dict(op='views', v=rec_v(v), deg=v['deg'], k=k, h=encv(h), par=encv(par), err='')
    try:
        add('affine', zs, patch=jnp.asarray(ps), dependent=jnp.asarray(ds))
        xs = np.stack([h * g(c) for c in s['sc']])
        pa, da = jnp.asarray(ps), jnp.asarray(ds)
        more = [lambda: add('homogeneous', jnp.asarray(xs)),
                lambda: add('affine, dependent chosen', zs, patch=pa),
                lambda: add('affine, gradient given', zs, patch=pa, grad_def=X.grad_defining(zs, pj, pa)),
                lambda: add('affine, both given', zs, patch=pa, grad_def=X.grad_defining(zs, pj, pa), dependent=da),
                lambda: add('single', zs[0], patch=int(ps[0]), dependent=int(ds[0])),
                lambda: add('single homogeneous', jnp.asarray(xs[1]))]
        for i in range(6 if THOROUGH else 2):
            more[(s['r'] * 2 + i) % 6]()
    except Exception as ex:
        e['err'] = err(f'{type(ex).__name__}: {ex}')['err']
    e['views'] = out
    rec.trace([e], s)


def reads(s, rec):
    v, k, mode = s['v'], s['k'], s['mode']
    X, sec = variety(v), basis(v, k, False)
    z, p = gvec(s['z']), s['p']
    par = jnp.asarray(gvec(s['par']))
    H = jnp.asarray(hmat(s['H']))
    hom = mode == 'homogeneous'
    x = jnp.asarray(homog(z, p, g(s['sc'])) if hom else z)

    def make():
        return D.GeometricObjects(H, x, par, X, sec, None if hom else p,
                                  X.grad_defining(jnp.asarray(z), par, p) if mode in ('gradient', 'both') else None,
                                  s['d'] if mode in ('dependent', 'both') else None)
    names = sorted(set(s['reads']))
    evs = [dict(op='fresh', gd=s['d'] if mode in ('dependent', 'both') else -1, vals=[dict(a=a, o=attempt(lambda: getattr(make(), a))) for a in names])]
    o = make()
    for a in s['reads']:
        evs.append(dict(op='read', a=a, out=attempt(lambda: getattr(o, a))))
    rec.trace(evs, s)
