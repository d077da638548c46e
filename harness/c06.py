"""Decompositions of polynomials."""
from plib import *
from c05 import record


def run(scn, rec):
    for s in scn:
        one(s, rec)


def rec_pw(powers):
    return [dict(none=p is None, rows=[] if p is None else [[int(i) for i in r] for r in p]) for p in powers]


def msg(e):
    return err(f'{type(e).__name__}: {e}')['err']


def one(s, rec):
    gr, T = s['g'], s['T']
    names = [v['name'] for v in gr['vs']]
    idx = [None if v['sc'] else v['idx'] for v in gr['vs']]
    vals = {tuple(v['s']): g(v['v'][0]) for v in s['vals']}
    RT = rec_terms(T)
    allvec = not any(v['sc'] for v in gr['vs'])
    cls = P.HomPoly if allvec and s['k'] % 2 else P.Poly
    p = cls.from_sympy(texpr(T), names, gr['ps'], variable_indices=idx)
    evs = []
    base = dict(g=gr, T=RT)
    # coefficients, parameter factors and powers
    try:
        co, cp, pw = p.to_coeffs_and_powers()
        evs.append(dict(op='split', fn='terms', err='', co=encv([complex(c) for c in co]), cp=[[str(q) for q in l] for l in cp], pw=rec_pw(pw), **base))
    except Exception as e:
        evs.append(dict(op='split', fn='terms', err=msg(e), co=[], cp=[], pw=[], **base))
        return rec.trace(evs, s)

    def rebuild(fn, call, g2=None, T2=None):
        try:
            r = call()
        except Exception as e:
            r = e
        v = dict(vals)
        if g2:
            for a, b in zip(gr['vs'], g2['vs']):
                for x, y in zip(vsyms(a), vsyms(b)):
                    v[y] = vals[x]
        evs.append(dict(op='rebuild', fn=fn, g=g2 or gr, T=T2 or RT, out=record(r, v)))
    rebuild('from parts', lambda: P.Poly.from_coeffs_and_powers(co, pw, cp, names, idx, p.parameters))
    rebuild('from parts, symbols as strings', lambda: P.Poly.from_coeffs_and_powers(
        np.array(co), pw, [[str(q) for q in l] for l in cp], names, idx, [str(q) for q in p.parameters]))
    # directly from the description, names left out
    ex = [{(n, i): k for n, i, k in t['m']} for t in T]
    full = [[[ex[j].get(x, 0) for x in vsyms(v)] for j in range(len(T))] for v in gr['vs']]
    if T and allvec and not set(gr['ps']) & set('abc') and not any('_' in q for q in gr['ps']):
        new = 'abc'
        g2 = dict(vs=[dict(name=new[k], sc=False, idx=list(range(len(v['idx'])))) for k, v in enumerate(gr['vs'])], ps=gr['ps'])
        ren = {x: y for a, b in zip(gr['vs'], g2['vs']) for x, y in zip(vsyms(a), vsyms(b))}
        T2 = [dict(c=t['c'], m=[[*ren.get((n, i), (n, i)), k] for n, i, k in t['m']]) for t in RT]
        cps = [[q for n, i, k in t['m'] if n in gr['ps'] for q in [n] * k] for t in T]
        rebuild('default names', lambda: P.Poly.from_coeffs_and_powers(
            [g(t['c']) for t in T], full, cps, parameters=gr['ps']), g2, T2)
    # in one variable
    for k, x in enumerate(x for v in gr['vs'] for x in vsyms(v)):
        n = symname(x, s['sub'])
        arg = [n, sympy.Symbol(n), np.array(sympy.Symbol(n))][(k + s['k']) % 3]
        ev = dict(op='uni', fn=type(arg).__name__, s=list(x), err='', list=[], **base)
        try:
            for c in P.univariate_coefficients(p, arg):
                if isinstance(c, P.Poly):
                    ev['list'].append(dict(num=False, **record(c, vals)))
                else:
                    ev['list'].append(dict(num=True, err='', g=dict(vs=[], ps=[]), T=[dict(c=enc(complex(c)), m=[])], x=[], y=[],
                                           val=arr(complex(c))))
        except Exception as e:
            ev['err'] = msg(e)
        evs.append(ev)
    # monomials
    if T:
        co = np.array([g(t['c']) for t in T])
        none = [all(i == 0 for r in q for i in r) and s['k'] % 2 == 0 for q in full]
        pws = [None if n else q for n, q in zip(none, full)]
        X = [np.array([vals[x] for x in vsyms(v)]) for v in gr['vs']]
        A = [q[0] if v['sc'] else q for v, q in zip(gr['vs'], X)]
        if s['k'] % 4 == 0:
            A = [None if n else a for n, a in zip(none, A)]

        def mono(fn, x=X, **kw):
            a = [None if q is None else jnp.asarray(q) for q in A] if x is X else x
            evs.append(dict(op='mono', fn=fn, co=encv(list(co)), pw=rec_pw(pws), x=[encv(list(q)) for q in X],
                            out=attempt(lambda: P.compute_monomials(a, jnp.asarray(co), pws, **kw))))
        if not s['zero']:
            mono('log')
            mono('log, not opt', opt=False)
            mono('log, compiled', log=True)
        mono('plain', log=False)
        mono('plain, not opt', log=False, opt=False)
        xs = [None if a is None else np.array(sym(vsyms(v)[0])) if v['sc'] else np.array([sym(x) for x in vsyms(v)])
              for v, a in zip(gr['vs'], A)]
        at = {sym(x): sympy.sympify(vals[x]) for v in gr['vs'] for x in vsyms(v)}
        evs.append(dict(op='mono', fn='symbolic', co=encv(list(co)), pw=rec_pw(pws), x=[encv(list(q)) for q in X],
                        out=attempt(lambda: np.array([complex(sympy.N(sympy.sympify(e).subs(at, simultaneous=True), 30)) for e in
                                                      P.compute_monomials(xs, co, pws, symbolic=True)]))))
    rec.trace(evs, s)
