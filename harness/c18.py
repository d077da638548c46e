"""Buffered sample streams."""
from vlib import *
from cyjax import ml, util


def run(scn, rec):
    for s in scn:
        stream(s, rec) if s['op'] == 'stream' else keys(s, rec)


def stream(s, rec):
    v = s['v']
    X = variety(v)
    draws = []

    def store(asked, vals):
        d = dict(asked=int(asked), vals=arr(vals)['data'])
        if d not in draws:
            draws.append(d)

    def psampler(key, count):
        k1, k2 = jax.random.split(key)
        if s['psampler'] == 'constant':
            p = jnp.full((count, v['np']), 0.5 - 0.25j)
        else:
            p = jax.random.uniform(k1, (count, v['np'])) + 1j * jax.random.uniform(k2, (count, v['np']))
            if s['psampler'] == 'grid':
                p = jnp.round(p * 8) / 8
        jax.debug.callback(store, count, p)
        return p

    def make(seed, B, kind):
        seed = seed if kind == 'int' else jax.random.PRNGKey(seed)
        return ml.BatchSampler(seed, X, psampler, batch_size_params=s['sets'], batch_size=s['points'], buffer_size=B)

    def event(op, k, f):
        e = dict(op=op, sampler=k, v=rec_v(v), sets=s['sets'], points=s['points'], uniq=s['psampler'] == 'uniform')
        try:
            par, zs, patch, w = f()
            e.update(params=arr(par), zs=arr(zs), patch=iarr(patch), w=arr(w))
        except Exception as ex:
            e.update(params=err(f'{type(ex).__name__}: {ex}'))
        jax.effects_barrier()
        e['draws'] = list(draws)
        return e
    evs, samplers = [], {}
    for k in s['sched']:
        c = s['samplers'][k - 1]

        def step():
            if k not in samplers:
                samplers[k] = make(s['seed'], c['B'], c['kind'])
            if k == 3:  # as an iterator
                for x in samplers[k]:
                    return x
            return next(samplers[k])
        evs.append(event('next', k, step))
    o = None

    def step2():
        nonlocal o
        o = o or make(s['other'], 1, 'int')
        return next(o)
    evs.append(event('other', 4, step2))
    # keep only the draws an element can come from
    for e in evs:
        e['draws'] = [d for d in e['draws'] if d['vals'] == e['params'].get('data')] or e['draws'][:2]
    rec.trace(evs, s)


def keys(s, rec):
    def take_keys(seed, start, same):
        e = dict(op='keys', count=s['count'], same=same, start=[int(x) for x in jax.random.PRNGKey(start)], err='', keys=[])
        try:
            r = util.PRNGSequence(seed)
            e['keys'] = [[int(x) for x in np.asarray(next(r))] for _ in range(s['count'])]
        except Exception as ex:
            e['err'] = f'{type(ex).__name__}: {ex}'
        return e
    rec.trace([take_keys(s['seed'], s['seed'], True), take_keys(s['seed'], s['seed'], True),
               take_keys(jax.random.PRNGKey(s['seed']), s['seed'], True), take_keys(s['other'], s['other'], False)], s)
