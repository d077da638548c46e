"""Monte Carlo integration with samplers that record what they hand out."""
from slib import *
from cyjax import util

FN = dict(one=lambda z: 1, lin=lambda z: z[:, 0].real, sq=lambda z: jnp.sum(jnp.abs(z) ** 2, -1), cplx=lambda z: z[:, 0] ** 2,
          vec=lambda z: z.real - z.imag, cvec=lambda z: z, mat=lambda z: jnp.einsum('ni,nj->nij', z, z.conj()).real)


def run(scn, rec):
    for s in scn:
        vol(s, rec) if s['op'] == 'vol' else mc(s, rec)


def both(f, jit, take):
    """Result without and with variance, with the recorded calls of each."""
    out = {}
    plain = attempt(lambda: (jax.jit(lambda: f(False)) if jit else lambda: f(False))())
    calls = take()
    try:
        val, var = (jax.jit(lambda: f(True)) if jit else lambda: f(True))()
        out = dict(plain=plain, val=arr(val), var=arr(var))
    except Exception as ex:
        e = err(f'{type(ex).__name__}: {ex}')
        out = dict(plain=plain, val=e, var=e)
    return dict(out, calls=calls, calls2=take())


def mc(s, rec):
    log = []

    def store(key, asked, z, w):
        log.append(dict(key=[int(k) for k in np.asarray(key)], asked=int(asked),
                        pts=[dict(z=encv(a), w=enc(b)) for a, b in zip(np.asarray(z), np.asarray(w))]))

    def sample(key, count):
        k1, k2, k3 = jax.random.split(key, 3)
        z = jnp.round(jax.random.uniform(k1, (count, s['m']), minval=-2, maxval=2) * 64) / 64
        z = z + 1j * jnp.round(jax.random.uniform(k2, (count, s['m']), minval=-2, maxval=2) * 64) / 64
        lo = 0.1 if s['wt'] == 'pos' else -3
        w = jnp.round(jax.random.uniform(k3, (count,), minval=lo, maxval=4) * 64) / 64
        jax.debug.callback(store, key, count, z, w)
        return ((z, jnp.zeros(count, int)), w) if s['pts'] == 'tuple' else (z, w)

    def take_calls():
        jax.effects_barrier()
        out = sorted(log, key=lambda c: c['key'])
        log.clear()
        return out
    fn = FN[s['fn']]
    if s['pts'] == 'tuple':
        fn0 = fn
        fn = lambda p: fn0(p[0])  # noqa
    key = jax.random.PRNGKey(s['key'])
    if s['op'] == 'one':
        f = lambda var: util.mc_integrate(key, s['count'], fn, sample, var)  # noqa
    else:
        f = lambda var: util.mc_integrate_batched(key, s['batches'], s['count'], fn, sample, var)  # noqa
    e = dict(op=s['op'], fn=s['fn'], m=s['m'], count=s['count'], batches=s.get('batches', 1))
    rec.trace([dict(e, **both(f, s['jit'], take_calls))], s)


def vol(s, rec):
    v = s['v']
    X = recording(v)
    X.inject = None
    X.take_log()
    par = gvec(s['par'])
    pj = jnp.asarray(par) if v['np'] else None
    key = jax.random.PRNGKey(s['key'])

    def take_calls():
        return [dict(key=[int(k) for k in e[0]], asked=len(e[2]), par=encv(list(e[1])), pts=rec_batch(e)) for e in X.take_log()]
    f = lambda var: X.compute_vol(key, pj, batches=s['batches'], batch_size=s['count'], var=var)  # noqa
    e = dict(op='vol', v=rec_v(v), par=encv(list(par)), count=s['count'], batches=s['batches'])
    r = both(f, s['jit'], take_calls)
    r.pop('calls2')
    rec.trace([dict(e, **r)], s)
