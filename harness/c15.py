"""Steps of Donaldson's algorithm."""
from slib import *


def run(scn, rec):
    for s in scn:
        one(s, rec)


def one(s, rec):
    v, N = s['v'], s['N']
    X = recording(v)
    X.inject = None if s['inject'] == 'none' else s['inject']
    X.take_log()
    par = gvec(s['par'])
    sec = basis(v, s['k'], s['red'], par if v['np'] else None)
    M = D.AlgebraicMetric(X, sec)
    pj = jnp.asarray(par) if v['np'] else None
    H = hmat(s['H'])
    sk = gvec(s['skew'])
    A = 1j * (sk[:, None] + sk.conj()[None, :])
    A = (A - A.conj().T) / 2
    if s['mode'] == 'real':
        H = H.real
    elif s['mode'] == 'identity':
        H = np.eye(N)
    elif s['mode'] == 'skew':
        H = H + A
    f = lambda k, h, vol: M.donaldson_step(k, h, pj, vol, s['batches'], s['size'])  # noqa
    if s['jit']:
        f = jax.jit(f)
    evs = []
    for st in s['steps']:
        key, vol = jax.random.PRNGKey(st['key']), g(st['vol']).real
        out, log, val = None, [], None
        try:
            val = np.asarray(f(key, jnp.asarray(H), vol))
            out = arr(val)
            log = X.take_log()
        except Exception as ex:
            out = err(f'{type(ex).__name__}: {ex}')
        evs.append(dict(op='step', pm=rows(sec), H=encm(np.asarray(H, complex)), vol=enc(vol), nb=s['batches'], size=s['size'],
                        batches=[rec_batch(b) for b in log], out=out))
        if out['err'] or not np.all(np.isfinite(val)) or sum(np.isfinite(w).sum() for *_, w in log) < N:
            break
        evs.append(dict(op='again', fn='repeated', out=attempt(lambda: f(key, jnp.asarray(H), vol))))
        evs.append(dict(op='again', fn='other skew part', out=attempt(lambda: f(key, jnp.asarray(H + A), vol))))
        X.take_log()
        H = val
    rec.trace(evs, s)
