"""Section bases."""
from vlib import *
from cyjax import donaldson as D


def run(scn, rec):
    for s in scn:
        one(s, rec)


def rows(fn):
    try:
        a = np.asarray(fn())
        if a.ndim != 2 or a.dtype.kind not in 'iu':
            return dict(err=f'not a matrix of integers {a.shape} {a.dtype}', rows=[])
        return dict(err='', rows=[[int(i) for i in r] for r in a])
    except Exception as e:
        return dict(err=err(f'{type(e).__name__}: {e}')['err'], rows=[])


def val(fn):
    try:
        return int(fn())
    except Exception:
        return -1


def one(s, rec):
    evs = []
    if s['op'] == 'full':
        dim, d = s['dim'], s['d']
        try:
            b = cyjax.donaldson.MonomialBasisFull(dim, d)
            pm = rows(lambda: b.power_matrix)
        except Exception as e:
            b, pm = None, dict(err=err(f'{type(e).__name__}: {e}')['err'], rows=[])
        evs.append(dict(op='full', dim=dim, d=d, pm=pm, size=val(lambda: b.size), announced=val(lambda: D.monomial_basis_size(dim, d)),
                        redsize=val(lambda: D.monomial_basis_size(dim, d, True)), fun=rows(lambda: D.monomial_basis(dim, d)),
                        ind=rows(lambda: D.monomial_basis_indices(dim, d)) if d else dict(err='', rows=[])))
    else:
        v, d = s['v'], s['d']
        X = variety(v)
        par = gvec(s['par'])
        try:
            b = D.MonomialBasisReduced(X, d, par if v['np'] else (None if d % 2 else []))
            pm = rows(lambda: b.power_matrix)
        except Exception as e:
            b, pm = None, dict(err=err(f'{type(e).__name__}: {e}')['err'], rows=[])
        evs.append(dict(op='reduced', v=rec_v(v), deg=v['deg'], d=d, cy=s['cy'], par=encv(list(par)), pm=pm, size=val(lambda: b.size),
                        announced=val(lambda: D.monomial_basis_size(v['n'] - 1, d, True))))
    if pm['err']:
        return rec.trace(evs, s)
    _, sh = LAY[s['lay']]
    hs = [gvec(h) for h in s['hs']]
    zs = [h[1:] for h in hs]
    zsh, qsh = sh[0], sh[2]
    hl, ha = take(hs, zsh)
    zl, za = take(zs, zsh)
    ql, qa = take(s['ps'], qsh)
    ha, za = jnp.asarray(ha), jnp.asarray(za)
    qa = jnp.asarray(qa) if qsh else int(qa)
    for mode in (True, False):
        kw = {} if mode and s['lay'] % 2 else dict(precompute=mode)
        nm = 'stored powers' if mode else 'logarithmic'
        evs.append(dict(op='eval', fn='homogeneous, ' + nm, rows=pm['rows'], bshape=list(zsh), zs=[encv(h) for h in hl], ps=[],
                        out=attempt(lambda: b(ha, None, **kw))))
        evs.append(dict(op='eval', fn='affine, ' + nm, rows=pm['rows'], bshape=list(bc(zsh, qsh)), zs=[encv(h) for h in zl],
                        ps=[int(q) for q in ql], out=attempt(lambda: b(za, qa, **kw))))
    # zero coordinates
    z0 = [np.where(np.arange(len(z)) == k % len(z), 0, z) for k, z in enumerate(zl)]
    za0 = jnp.asarray(np.stack(z0).reshape(za.shape))
    evs.append(dict(op='eval', fn='zero coordinate', rows=pm['rows'], bshape=list(bc(zsh, qsh)), zs=[encv(h) for h in z0],
                    ps=[int(q) for q in ql], out=attempt(lambda: b(za0, qa))))
    rec.trace(evs, s)
