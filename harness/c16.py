"""Sigma accuracy and training loss."""
from slib import *
from cyjax import ml

# shapes of (parameters, matrices)
SH = {0: ((), ()), 1: ((3,), ()), 2: ((), (3,)), 3: ((3,), (3,))}


def run(scn, rec):
    for s in scn:
        sigma(s, rec) if s['op'] == 'sigma' else loss(s, rec)


def sigma(s, rec):
    v = s['v']
    X = recording(v)
    X.inject = None
    X.take_log()
    sec = basis(v, s['k'], False)
    M = D.AlgebraicMetric(X, sec)
    sp, sh = SH[s['lay']]
    pl, pa = take([gvec(p) for p in s['pars']], sp)
    hl, ha = take([flipped(h) if s['indef'] else hmat(h) for h in s['hs']], sh)
    if v['np'] == 0:
        pl, pa, sp = [[]], None, ()
    key = jax.random.PRNGKey(s['key'])
    f = lambda k, p, h: M.sigma_accuracy(k, p, h, s['count'])  # noqa
    if s['jit']:
        f = jax.jit(f)
    pj = None if pa is None else jnp.asarray(pa)
    out = attempt(lambda: f(key, pj, jnp.asarray(ha)))
    log = X.take_log()
    evs = [dict(op='sigma', v=rec_v(v), k=s['k'], pm=rows(sec), b=list(bc(sp, sh)), count=s['count'], pars=[encv(list(p)) for p in pl],
                hs=[encm(h) for h in hl], samples=[dict(par=encv(list(e[1])), pts=rec_batch(e)) for e in log], out=out)]
    c = g(s['scale']).real
    evs.append(dict(op='scaled', out=attempt(lambda: f(key, pj, c * jnp.asarray(ha)))))
    X.take_log()
    rec.trace(evs, s)


def loss(s, rec):
    v = s['v']
    X = variety(v)
    sec = basis(v, s['k'], False)
    M = D.AlgebraicMetric(X, sec)
    items, rec_items = [], []
    for x in s['items']:
        h, d = flipped(x['h']) if s['indef'] else hmat(x['h']), hmat(x['dir'])
        par = gvec(x['par'])
        zs, ps, ws = np.stack([gvec(z) for z in x['zs']]), np.array(x['ps']), gvec(x['ws']).real
        items.append((h, d, par, zs, ps, ws * 2.0 ** s['wexp']))
        rec_items.append(dict(h=encm(h), dir=encm(d), par=encv(list(par)), zs=[encv(z) for z in zs], ps=[int(p) for p in ps], ws=encv(ws)))
    base = dict(op='loss', v=rec_v(v), k=s['k'], pm=rows(sec), wsc=enc(2.0 ** s['wexp']))

    def pars(p):
        return jnp.asarray(p) if v['np'] else None
    evs = []

    def add(fn, f, its, args, tang):
        e = dict(base, fn=fn, items=its)
        try:
            val, tan = jax.jvp(f, args, tang)
            one = np.ndim(val) == 0
            e['out'], e['tan'] = arr(np.asarray(val)[None] if one else val), arr(np.asarray(tan)[None] if one else tan)
        except Exception as ex:
            e['out'] = e['tan'] = err(f'{type(ex).__name__}: {ex}')
        evs.append(e)
    h, d, par, zs, ps, ws = items[0]
    smp = (pars(par), jnp.asarray(zs), jnp.asarray(ps), jnp.asarray(ws))
    f = lambda h: ml.variance_eta_loss(h, smp, M)  # noqa
    add('single', jax.jit(f) if s['jit'] else f, rec_items[:1], (jnp.asarray(h),), (jnp.asarray(d),))
    if v['np']:
        H, Dd, P_, Z, Q, W = (jnp.asarray(np.stack(a)) for a in zip(*items))
        add('batched', lambda h: jax.vmap(ml.variance_eta_loss, (0, 0, None))(h, (P_, Z, Q, W), M), rec_items, (H,), (Dd,))
    rec.trace(evs, s)
