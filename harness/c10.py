"""Gradient of the defining equation, embedding Jacobian, induced metrics."""
from vlib import *


def run(scn, rec):
    for s in scn:
        one(s, rec)


def pair(fn):
    try:
        a, d = fn()
        return arr(a), iarr(d)
    except Exception as e:
        x = err(f'{type(e).__name__}: {e}')
        return x, x


def one(s, rec):
    X = variety(s['v'])
    bs, (sz, sp, sq, sd) = LAY[s['lay']]
    zl, za = take([gvec(z) for z in s['zs']], sz)
    cl, ca = take([gvec(z) for z in s['zc']], sz)
    pl, pa = take([gvec(z) for z in s['pars']], sp)
    ql, qa = take(s['ps'], sq)
    dl, da = take(s['ds'], sd)
    gl, ga = take([np.stack([gvec(r) for r in m]) for m in s['g']], sz)
    za, ca, ga = jnp.asarray(za), jnp.asarray(ca), jnp.asarray(ga)
    np_ = s['v']['np']
    if np_ == 0:
        pa, sp = None, ()
        pl = [[]]
    else:
        pa = jnp.asarray(pa)
    qa = jnp.asarray(qa) if sq else int(qa)
    da = jnp.asarray(da) if sd else int(da)
    bs3 = bc(bc(sz, sp), sq)
    bs = bc(bs3, sd)
    bsh = bc(sz, sp)
    ha = jnp.concatenate([za, ca[..., :1]], -1)  # any homogeneous point
    hl = [np.concatenate([a, b[:1]]) for a, b in zip(zl, cl)]
    jac0, jacd = pair(lambda: X.jacobian_embed(za, pa, qa))
    ind0, indd = pair(lambda: X.induced_metric(ga, za, pa, qa))
    fs0, fsd = pair(lambda: X.induced_fs(za, pa, qa))
    grad = attempt(X.grad_defining, za, pa, qa)

    def G():
        return X.grad_defining(za, pa, qa)

    def Gc():
        return jnp.conj(X.grad_defining(jnp.conj(ca), pa, qa))
    ev = dict(op='geo', v=rec_v(s['v']), bshape=list(bs), bs3=list(bs3), bsh=list(bsh),
              zs=[encv(z) for z in zl], zc=[encv(z) for z in cl], hs=[encv(h) for h in hl], pars=[encv(z) for z in pl],
              ps=[int(x) for x in ql], ds=[int(x) for x in dl], g=[encm(x) for x in gl],
              grad=grad, gradh=attempt(X.grad_defining, ha, pa),
              best=attempt(X.best_dependent, za, pa, qa, rec=iarr),
              jac=attempt(X.jacobian_embed, za, pa, qa, da), jac0=jac0, jacd=jacd,
              fjac=attempt(lambda: cyjax.jacobian_embed(G(), da)),
              ind=attempt(lambda: X.induced_metric(ga, za, pa, qa, dependent=da)),
              indc=attempt(lambda: X.induced_metric(ga, za, pa, qa, ca, da)), ind0=ind0, indd=indd,
              find=attempt(lambda: cyjax.induced_metric(ga, G(), da)),
              findc=attempt(lambda: cyjax.induced_metric(ga, G(), da, Gc())),
              fs=attempt(lambda: X.induced_fs(za, pa, qa, dependent=da)),
              fsc=attempt(lambda: X.induced_fs(za, pa, qa, ca, da)), fs0=fs0, fsd=fsd)
    rec.trace([ev], s)
