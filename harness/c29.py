"""The algebraic ansatz with user-defined sections."""
from slib import *


class Mixed(D.LBSections):
    """Linear combinations of monomials; another set of combinations on request."""
    def __init__(self, base, a, b):
        super().__init__(base.degree)
        self.base, self.a, self.b = base, jnp.asarray(a), jnp.asarray(b)

    @property
    def size(self):
        return len(self.a)

    def __call__(self, zs, patch, conj=False, other=False):
        m = self.b if other else self.a
        return jnp.einsum('ab,...b->...a', m.conj() if conj else m, self.base(zs, patch))


def run(scn, rec):
    for s in scn:
        globals()['do_' + s['op']](s, rec)


def mat(a):
    return np.array([gvec(r) for r in a])


def do_geo(s, rec):
    v, k, m = s['v'], s['k'], 2 if s['batch'] else 1
    X, base = variety(v), basis(v, k, False)
    A, B, H = mat(s['A']), mat(s['B']), jnp.asarray(hmat(s['H']))
    sec = Mixed(base, A, B)
    M = D.AlgebraicMetric(X, sec)
    zs = np.stack([gvec(z) for z in s['zs'][:m]])
    pars = np.stack([gvec(z) for z in s['pars'][:m]]) if v['np'] else None
    ps, ds = s['ps'][:m], s['ds'][:m]
    one = (lambda x: x) if s['batch'] else (lambda x: None if x is None else x[0])
    a = (H, jnp.asarray(one(zs)), None if pars is None else jnp.asarray(one(pars)), jnp.asarray(ps) if s['batch'] else ps[0],
         jnp.asarray(ds) if s['batch'] else ds[0])
    ev = dict(op='geo', v=rec_v(v), k=k, pm=rows(base), A=encm(A), B=encm(B), H=encm(np.asarray(H)), ps=ps, ds=ds,
              zs=[encv(z) for z in zs], pars=[encv(p) for p in pars] if v['np'] else [[]] * m)
    w = (lambda f: jax.jit(f)) if s['jit'] else (lambda f: f)
    evs = [dict(ev, fn='metric', batch=s['batch'], other=False,
                expk=attempt(lambda: jnp.exp(w(M.kahler_potential)(*a) * np.pi * k)), metric=attempt(lambda: w(M.metric)(*a)[0]),
                eta=attempt(w(M.eta), *a), ricci=attempt(lambda: w(M.ricci)(*a)[0]), scalar=attempt(w(M.ricci_scalar), *a))]
    o = None

    def get(name):
        nonlocal o
        o = o or D.GeometricObjects(H, jnp.asarray(zs[0]), None if pars is None else jnp.asarray(pars[0]), X, sec, ps[0], None, ds[0], other=True)
        return getattr(o, name)
    ev.update(ps=ps[:1], ds=ds[:1], zs=ev['zs'][:1], pars=ev['pars'][:1])
    evs.append(dict(ev, fn='object', batch=False, other=True, expk=attempt(get, 'psi'), metric=attempt(get, 'g_loc'), eta=attempt(get, 'eta'),
                    ricci=attempt(get, 'ricci_loc'), scalar=attempt(get, 'ricci_scalar')))
    rec.trace(evs, s)


def do_step(s, rec):
    v = s['v']
    X, base = recording(v), basis(v, s['k'], False)
    X.inject = None
    X.take_log()
    A, H, vol = mat(s['A']), hmat(s['H']), g(s['vol']).real
    M = D.AlgebraicMetric(X, Mixed(base, A, A))
    pj = jnp.asarray(gvec(s['par'])) if v['np'] else None
    f = lambda key, h: M.donaldson_step(key, h, pj, vol, s['batches'], s['size'])  # noqa
    if s['jit']:
        f = jax.jit(f)
    out = attempt(f, jax.random.PRNGKey(s['key']), jnp.asarray(H))
    rec.trace([dict(op='step', fn='donaldson', A=encm(A), H=encm(H), vol=enc(vol), pm=rows(base), nb=s['batches'], size=s['size'],
                    batches=[rec_batch(b) for b in X.take_log()], out=out)], s)
