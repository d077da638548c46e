"""Evaluation of polynomial objects."""
from plib import *


def build(s):
    g, T, opt, ctor = s['g'], s['T'], s['opt'], s['ctor']
    kw = {}
    if opt in ('names', 'np', 'npd', 'npi', 'nd', 'ni'):
        kw['variable_names'] = [v['name'] for v in g['vs']]
    if opt in ('pars', 'np', 'npd', 'npi', 'symp'):
        kw['parameters'] = [p if i % 2 else sympy.Symbol(p) for i, p in enumerate(g['ps'])]
    if opt in ('npd', 'nd'):
        kw['variable_dim'] = [len(v['idx']) for v in g['vs']]
    if opt in ('npi', 'ni'):
        kw['variable_indices'] = [None if v['sc'] else list(v['idx']) for v in g['vs']]
    if opt in ('sym', 'symp'):
        kw['variable_names'] = [np.array(sym(vsyms(v)[0])) if v['sc'] else np.array([sym(x) for x in vsyms(v)])
                                for v in g['vs']]
    if ctor == 'str':
        return P.Poly.from_sympy((nested if s['nest'] else tstring)(T), **kw)
    if ctor == 'strsub':
        return P.Poly.from_sympy((nested if s['nest'] else tstring)(T, True), **kw)
    if ctor == 'expr':
        names = {symname(x): sym(x) for v in g['vs'] for x in vsyms(v)}
        names.update({p: sympy.Symbol(p) for p in g['ps']})
        return P.Poly.from_sympy(sympy.parse_expr(nested(T), local_dict=names) if s['nest'] else texpr(T), **kw)
    if ctor == 'poly':
        gens = [sym(x) for v in g['vs'] for x in vsyms(v)]
        ps = [sympy.Symbol(p) for p in g['ps']]
        return P.Poly.from_sympy(sympy.Poly(texpr(T), *gens, domain=sympy.CC[ps] if ps else sympy.CC), **kw)
    # coefficient and power arrays
    co = [g_(t['c']) for t in T]
    if all(c.imag == 0 for c in co):
        co = [c.real for c in co]
    cp = [[q if j % 2 else sympy.Symbol(q) for j, (q, k) in enumerate((n, k) for n, i, k in t['m'] if n in g['ps']) for _ in range(k)]
          for t in T]
    ex = [{(n, i): k for n, i, k in t['m']} for t in T]
    pw = [[[ex[j].get(x, 0) for x in vsyms(v)] for j in range(len(T))] for v in g['vs']]
    kw.pop('variable_dim', None)
    if 'variable_indices' not in kw and any(v['idx'] != list(range(len(v['idx']))) for v in g['vs']):
        raise AssertionError('scenario')
    return P.Poly.from_coeffs_and_powers(co, pw, cp, **kw)


g_ = g


def run(scn, rec):
    for s in scn:
        one(s, rec)


def one(s, rec):
    T = rec_terms(s['T'])
    base = dict(g=s['g'], T=T, opt=s['opt'], ctor=s['ctor'])
    try:
        p = build(s)
        m = grouping(p)
    except Exception as e:
        m = bad_group(e)
    abc = sorted({(n, i) for t in s['T'] for n, i, k in t['m'] if k}, key=lambda x: str(sym(x)))
    evs = [dict(op='meta', fn=s['ctor'], m=m, abc=[list(x) for x in abc], **base)]
    if m['err']:
        return rec.trace(evs, s)
    vals = {tuple(v['s']): [g_(x) for x in v['v']] for v in s['vals']}
    val = lambda x, b: vals.get(tuple(x), [complex(np.nan)] * 6)[b]
    vs, ps = m['vs'], [(q, -1) for q in m['ps']]
    real = s['lay'] % 3 == 1

    def v_(x, b):
        z = val(x, b)
        return z.real + (1 if z.real == 0 else 0) if real else z
    X = lambda b: [np.array([v_(x, b) for x in vsyms(v)]) for v in vs]
    A = lambda b: [x[0] if v['sc'] else x for v, x in zip(vs, X(b))]
    Y = lambda b: np.array([v_(x, b) for x in ps])
    NP = len(ps)
    S = [np.array(sym(vsyms(v)[0])) if v['sc'] else np.array([sym(x) for x in vsyms(v)]) for v in vs]
    SP = np.array([sym(x) for x in ps])
    at = {sym(x): sympy.sympify(v_(x, 0)) for v in vs for x in vsyms(v)}
    at.update({sym(x): sympy.sympify(v_(x, 0)) for x in ps})

    def ev(fn, out, x=None, y=None):
        evs.append(dict(op='eval', fn=fn, m=m, **base, bshape=[], args=[[encv(list(q))] for q in (x or X(0))],
                        pars=[encv(list(Y(0) if y is None else y))], out=out))
    a, y = A(0), Y(0)
    kw = {v['name']: q for v, q in zip(vs, a)}
    ev('positional', attempt(lambda: p(*a, y)))
    ev('parameters by name', attempt(lambda: p(*a, params=jnp.asarray(y))))
    ev('all by name', attempt(lambda: p(**kw, params=list(y))))
    back = dict(reversed(kw.items()))  # the order of the call does not matter
    ev('all by name, reversed', attempt(lambda: p(params=jnp.asarray(y), **back)))
    if NP == 0:
        ev('without parameters', attempt(lambda: p(*a)))
        ev('without parameters by name', attempt(lambda: p(**kw)))
    if len(vs) > 1:
        first, rest = a[0], {v['name']: q for v, q in zip(vs[1:], a[1:])}
        ev('mixed', attempt(lambda: p(first, params=y, **rest)))
        ev('mixed, reversed', attempt(lambda: p(first, **dict(reversed(rest.items())), params=y)))
    ev('lists', attempt(lambda: p(*[q.tolist() if np.ndim(q) else complex(q) for q in a], y.tolist())))
    ev('jax arrays', attempt(lambda: p(*[jnp.asarray(q) for q in a], jnp.asarray(y))))
    ev('compiled', attempt(lambda: jax.jit(lambda aa, yy: jnp.asarray(p(*aa, yy)))(a, y)))
    # symbolic
    N = lambda e: num(sympy.sympify(e).subs(at, simultaneous=True))
    ev('expression', attempt(lambda: N(p())))
    ev('symbolic', attempt(lambda: N(p(*S, SP))))
    SS = [q if v['sc'] else q[::-1] for v, q in zip(vs, S)]
    XS = [q[::-1] for q in X(0)]
    sc = [k for k, v in enumerate(vs) if v['sc']]
    if len(sc) > 1:  # exchange the scalars as well
        SS[sc[0]], SS[sc[1]] = SS[sc[1]], SS[sc[0]]
        XS[sc[0]], XS[sc[1]] = XS[sc[1]], XS[sc[0]]
    ev('symbolic, exchanged', attempt(lambda: N(p(*SS, SP[::-1]))), XS, y[::-1])
    ev('symbolic variables', attempt(lambda: N(p(*S, params=y))))
    if NP:
        ev('symbolic parameters', attempt(lambda: N(p(*[np.asarray(q) for q in a], params=SP))))
    if NP and all(v['sc'] for v in vs):
        pass
    mixed = []
    for v, q, t in zip(vs, X(0), S):
        if v['sc']:
            mixed.append(t)
        else:
            o = np.array(t, dtype=object)
            o[0] = sympy.sympify(q[0])
            mixed.append(o)
    ev('partly symbolic', attempt(lambda: N(p(*mixed, params=y))))
    half = [np.asarray(q) if k % 2 == 0 else t for k, (q, t) in enumerate(zip(a, S))]
    if len(vs) > 1:
        ev('some variables symbolic', attempt(lambda: N(p(*half, params=SP if s['lay'] % 2 else y))))
    # compiled and batched
    _, sh = LAY[s['lay']]
    shp, bs = [], ()
    for k in range(len(vs)):
        shp.append(sh[[0, 2, 3][k % 3]])
        bs = bc(bs, shp[-1])
    psh = sh[1] if NP else ()
    bs = bc(bs, psh)
    items, arrs = [], []
    for k, v in enumerate(vs):
        l, q = take([X(b)[k] for b in range(6)], shp[k])
        items.append([encv(list(i)) for i in l])
        arrs.append(jnp.asarray(q[..., 0] if v['sc'] else q))
    pl, pa = take([Y(b) for b in range(6)], psh)

    def te(fn, call):
        evs.append(dict(op='eval', fn=fn, m=m, **base, bshape=list(bs), args=items, pars=[encv(list(i)) for i in pl],
                        out=attempt(call)))
    ka = {v['name']: q for v, q in zip(vs, arrs)}
    k = (s['lay'] + len(s['T'])) % 3
    if k == 0:
        te('batched', lambda: p.transform_eval()(*arrs, jnp.asarray(pa)))
    elif k == 1:
        te('batched by name', lambda: p.transform_eval()(params=jnp.asarray(pa), **dict(reversed(ka.items()))))
    else:
        te('batched, parameters fixed', lambda: p.transform_eval(params=jnp.asarray(pa))(*arrs))
    rec.trace(evs, s)
