"""Monte Carlo weights."""
from vlib import *


def run(scn, rec):
    for s in scn:
        (batch if s['op'] == 'batch' else inv)(s, rec)


def two(fn):
    try:
        a, b = fn()
        return arr(a), arr(b)
    except Exception as e:
        x = err(f'{type(e).__name__}: {e}')
        return x, x


def batch(s, rec):
    X = variety(s['v'])
    bs, (sz, sp, sq, sd) = LAY[s['lay']]
    zl, za = take([gvec(z) for z in s['zs']], sz)
    pl, pa = take([gvec(z) for z in s['pars']], sp)
    ql, qa = take(s['ps'], sq)
    dl, da = take(s['ds'], sd)
    za = jnp.asarray(za)
    if s['v']['np'] == 0:
        pa, sp, pl = None, (), [[]]
    else:
        pa = jnp.asarray(pa)
    qa = jnp.asarray(qa) if sq else int(qa)
    da = jnp.asarray(da) if sd else int(da)
    bs3 = bc(bc(sz, sp), sq)
    bs = bc(bs3, sd)
    kw, vol = {}, enc(1)
    if s['vol'] == 'none':
        kw, vol = dict(vol=None), []
    elif s['vol'] == 'value':
        kw = dict(vol=g(s['volv']).real)
        vol = enc(kw['vol'])
    f = X.sample_intersect_weights
    dv, df = two(lambda: f(za, pa, qa, da, separate=True, **kw))
    dv0, df0 = two(lambda: f(za, pa, qa, separate=True, **kw))
    rec.trace([dict(op='batch', fn=s['vol'], v=rec_v(s['v']), bshape=list(bs), bs3=list(bs3), zs=[encv(z) for z in zl],
                    pars=[encv(z) for z in pl], ps=[int(x) for x in ql], ds=[int(x) for x in dl], vol=vol,
                    w=attempt(f, za, pa, qa, da, **kw), w0=attempt(f, za, pa, qa, **kw), dv=dv, df=df, dv0=dv0, df0=df0)], s)


def inv(s, rec):
    X = variety(s['v'])
    n = s['v']['n']
    h = gvec(s['h'])
    par = np.array([dec(x) for x in s['par']])
    f = X.sample_intersect_weights
    obs, e = [], ''
    try:
        for p in range(n):
            z = np.delete(h, p) / h[p]
            G = np.abs(np.asarray(X.grad_defining(jnp.asarray(z), jnp.asarray(par), p)))
            for d in range(n - 1):
                if G[d] > 0.05 * G.max():
                    w = f(jnp.asarray(z), jnp.asarray(par), p, d)
                    obs.append(dict(z=encv(z), p=p, d=d, w=enc(float(w))))
            w = f(jnp.asarray(z), jnp.asarray(par), p)
            obs.append(dict(z=encv(z), p=p, d=int(np.argmax(G)), w=enc(float(w))))
    except Exception as x:
        e = err(f'{type(x).__name__}: {x}')['err']
    rec.trace([dict(op='inv', v=rec_v(s['v']), par=encv(par), obs=obs, err=e)], s)
