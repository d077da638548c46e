"""Homogeneous polynomials in affine patches."""
from plib import *


def run(scn, rec):
    for s in scn:
        one(s, rec)


def build(s):
    if s['fam'] == 'fermat':
        return P.FermatPoly(s['n'])
    if s['fam'] == 'dwork':
        f = s['f']
        if f == [-5, 0, 1]:
            return P.DworkPoly(s['n'])
        if f == [1, 0, 1]:
            return P.DworkPoly(s['n'], False)
        c = g(f)
        return P.DworkPoly(s['n'], c if f[1] else int(c.real) if f[2] == 1 else c.real)
    gr = s['g']
    return P.HomPoly.from_sympy(texpr(s['T']), [v['name'] for v in gr['vs']], gr['ps'],
                                variable_indices=[v['idx'] for v in gr['vs']])


def one(s, rec):
    gr, RT = s['g'], rec_terms(s['T'])
    h = build(s)
    vals = {tuple(v['s']): [g(x) for x in v['v']] for v in s['vals']}
    H = lambda b: [np.array([vals[x][b] for x in vsyms(v)]) for v in gr['vs']]
    Y = lambda b: np.array([vals[(q, -1)][b] for q in gr['ps']], dtype=complex)
    A = lambda b: [x[1:] for x in H(b)]  # affine coordinates
    one_ = len(gr['vs']) == 1
    evs = []

    def ev(fn, call, x, y, patch):
        evs.append(dict(op='eval', fn=fn, g=gr, T=RT, bshape=[], args=[[encv(list(q))] for q in x], pars=[encv(list(y))],
                        patch=[[int(q)] for q in patch], out=attempt(call)))
    for k, r in enumerate(s['reqs']):
        b = k % 6
        p, how, y = tuple(r['patch']), r['how'], Y(b)
        x = H(b) if how == 'hom' else A(b)
        kw = dict(params=y) if len(y) else {}
        if s['fam'] != 'gen' and not len(y):
            kw = {}
        if how == 'hom':
            ev(how, lambda: h(*x, **kw), x, y, [])
        elif how == 'direct':
            ev(how, lambda: h(*x, patch=p[0] if one_ else list(p), **kw), x, y, p)
        elif how == 'tuple':
            ev(how, lambda: h(*x, y, patch=p), x, y, p)
        elif how == 'numpy':
            ev(how, lambda: h(*x, y, patch=[np.int64, np.array][k % 2](p[0]) if one_ else np.array(p)), x, y, p)
        elif how == 'jax':
            ev(how, lambda: h(*[jnp.asarray(q) for q in x], jnp.asarray(y), patch=jnp.arange(16)[p[0]] if one_ else [tuple(np.int64(q) for q in p), jnp.array(p)][k % 2]), x, y, p)
        elif how == 'object':
            try:
                a = h.affine_poly(p[0] if one_ and k % 2 else p)
                m = grouping(a)
            except Exception as e:
                m = bad_group(e)
            evs.append(dict(op='affobj', fn=how, g=gr, p=list(p), m=m))
            if not m['err']:
                ev(how, lambda: a(*x, y), x, y, p)
        else:
            sy = [np.array([sympy.Symbol(f'w{i}_{j}') for j in range(len(q))]) for i, q in enumerate(x)]
            sp = np.array([sympy.Symbol(f'q{j}') for j in range(len(y))])
            at = {t: sympy.sympify(complex(c)) for u, q in zip(sy, x) for t, c in zip(u, q)}
            at.update({t: sympy.sympify(complex(c)) for t, c in zip(sp, y)})
            ev(how, lambda: num(sympy.sympify(h(*sy, sp, patch=p)).subs(at)), x, y, p)
    evs.append(dict(op='index', fn='all', g=gr, all=s['all'], out=attempt(
        lambda: np.array([int(h.unique_patch_index(tuple(p))) for p in s['all']]), rec=iarr)))
    if one_:
        evs.append(dict(op='index', fn='single', g=gr, all=s['all'], out=attempt(
            lambda: np.array([int(h.unique_patch_index(p[0])) for p in s['all']]), rec=iarr)))
    # compiled, batched
    _, sh = LAY[s['lay']]
    xs = [sh[0], sh[3], sh[0]]
    bs = ()
    items, arrs, hitems, harrs = [], [], [], []
    for k in range(len(gr['vs'])):
        l, q = take([A(b)[k] for b in range(6)], xs[k])
        items.append([encv(list(i)) for i in l])
        arrs.append(jnp.asarray(q))
        l, q = take([H(b)[k] for b in range(6)], xs[k])
        hitems.append([encv(list(i)) for i in l])
        harrs.append(jnp.asarray(q))
        bs = bc(bs, xs[k])
    psh = sh[1] if len(gr['ps']) else ()
    pl, pa = take([Y(b) for b in range(6)], psh)
    pars = [encv(list(i)) for i in pl]
    bs = bc(bs, psh)
    hbs = bs
    pt, pp = [], []
    for k in range(len(gr['vs'])):
        q = sh[2] if k != 1 else sh[1]
        l, t = take([p[k] for p in s['bat']], q)
        pp.append([int(i) for i in l])
        pt.append(jnp.asarray(t))
        bs = bc(bs, q)
    pa = jnp.asarray(pa)
    f = h.transform_eval()

    def te(fn, call, bsh, it, patch):
        evs.append(dict(op='eval', fn=fn, g=gr, T=RT, bshape=list(bsh), args=it, pars=pars, patch=patch, out=attempt(call)))
    te('compiled', lambda: f(*arrs, pa, patch=pt[0] if one_ else tuple(pt)), bs, items, pp)
    te('compiled homogeneous', lambda: f(*harrs, params=pa), hbs, hitems, [])
    p = tuple(s['bat'][0])
    te('compiled, one patch', lambda: f(*arrs, params=pa, patch=p[0] if one_ else p), hbs, items, [[q] for q in p])
    if s['lay'] % 2:
        te('compiled, fixed patch', lambda: h.transform_eval(patch=p[0] if one_ else p)(*arrs, pa), hbs, items, [[q] for q in p])
    rec.trace(evs, s)
