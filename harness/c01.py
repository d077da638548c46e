"""Charts: chains of conversions, batch layouts, index translations."""
import numpy as np
from lib import *
jax, jnp = jnp64()
import cyjax


def patch_as(p, style):
    return [int(p), np.int64(p), jnp.asarray(p)][style]


def run(scn, rec):
    for s in scn:
        if s['op'] == 'walk':
            walk(s, rec)
        elif s['op'] == 'batch':
            batch(s, rec)
        else:
            index(s, rec)


def walk(s, rec):
    cur = jnp.asarray(gvec(s['pt']))
    ev = [dict(op='start', pt=encv(cur))]
    rep = -1
    hom = np.asarray(cur)
    for st in s['steps']:
        op, q = st['op'], st['q']
        try:
            if op == 'to_affine':
                new = cyjax.hom_to_affine(cur, patch_as(q, s['style']))
                rep = q
            elif op == 'auto':
                new, p = cyjax.hom_to_affine(cur)
                rep = int(p)
                ev.append(dict(op='auto', q=-1, out=arr(new), patch=rep))
                cur = new
                continue
            elif op == 'to_hom':
                q = rep
                new = cyjax.affine_to_hom(cur, patch_as(rep, s['style']))
                rep = -1
            else:
                new = cyjax.change_chart(cur, patch_as(rep, s['style']), patch_as(q, s['style']))
                rep = q
            ev.append(dict(op=op, q=q, out=arr(new)))
            cur = new
        except Exception as e:
            ev.append(dict(op=op, q=q, out=err(f'{type(e).__name__}: {e}'), patch=0))
            break
    rec.trace(ev, s)


def batch(s, rec):
    bs, (sp, sa, sb) = bshape(s['lay'])
    hom = [gvec(p) for p in s['pts']]
    fn = s['fn']
    pl, pa = take(s['ps'], sa)
    ql, qa = take(s['qs'], sb)
    if fn in ('to_hom', 'change'):
        hom = [h[:-1] for h in hom]  # n affine coordinates, all nonzero
    if fn == 'auto':
        bs = sp
    if fn in ('to_affine', 'to_hom'):
        bs = sp if len(sp) >= len(sa) else sa
    hl, ha = take(hom, sp)
    ha = jnp.asarray(ha)
    pa = pa if s['lay'] % 2 else jnp.asarray(pa)
    patch = err('unused')
    if fn == 'to_affine':
        out = attempt(cyjax.hom_to_affine, ha, pa if pa.ndim else int(pa))
    elif fn == 'auto':
        try:
            a, p = cyjax.hom_to_affine(ha)
            out, patch = arr(a), iarr(p)
        except Exception as e:
            out = patch = err(e)
    elif fn == 'to_hom':
        out = attempt(cyjax.affine_to_hom, ha, pa)
    else:
        out = attempt(cyjax.change_chart, ha, pa, jnp.asarray(qa))
    rec.trace([dict(op='batch', fn=fn, n=s['n'], bshape=list(bs), pts=[encv(h) for h in hl],
                    ps=[int(x) for x in pl], qs=[int(x) for x in ql], out=out, patch=patch)], s)


def index(s, rec):
    n = s['n']
    ev = []
    for p in range(n + 1):
        hs = [h for h in range(n + 1) if h != p]
        if s['style'] == 0:
            i2h = attempt(lambda: np.array([int(cyjax.index_affine_to_hom(p, i)) for i in range(n)]), rec=iarr)
            h2i = attempt(lambda: np.array([int(cyjax.index_hom_to_affine(p, h)) for h in hs]), rec=iarr)
        elif s['style'] == 1:
            i2h = attempt(lambda: cyjax.index_affine_to_hom(jnp.asarray(p), jnp.arange(n)), rec=iarr)
            h2i = attempt(lambda: cyjax.index_hom_to_affine(jnp.asarray(p), jnp.asarray(hs)), rec=iarr)
        else:
            i2h = attempt(lambda: cyjax.index_affine_to_hom(np.full(n, p), np.arange(n)), rec=iarr)
            h2i = attempt(lambda: cyjax.index_hom_to_affine(np.full(n, p), np.array(hs)), rec=iarr)
        ev.append(dict(op='index', n=n, p=p, i2h=i2h, h2i=h2i))
    rec.trace(ev, s)
