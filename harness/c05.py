"""Arithmetic on polynomial objects."""
from plib import *


def run(scn, rec):
    for s in scn:
        one(s, rec)


def base(d):
    if d['kind'] == 'dwork':
        return P.DworkPoly(3)
    if d['kind'] == 'fermat':
        return P.FermatPoly(4)
    cls = P.HomPoly if d['kind'] == 'hom' else P.Poly
    return cls.from_sympy(texpr(d['T']), [v['name'] for v in d['g']['vs']], d['g']['ps'],
                          variable_indices=[None if v['sc'] else v['idx'] for v in d['g']['vs']])


def number(n, k):
    """The same number as Python, numpy or jax object."""
    c = g(n)
    if n[1] == 0:
        c = c.real
        if n[2] == 1 and k % 2 == 0:
            c = int(c)
    return [c, np.array(c), jnp.asarray(c), c][k % 4]


def record(p, vals):
    if isinstance(p, BaseException):
        return dict(err=err(f'{type(p).__name__}: {p}')['err'], g=dict(vs=[], ps=[]), T=[], x=[], y=[], val=err('none'))
    m = grouping(p)
    if m['err']:
        return dict(err=m['err'], g=dict(vs=[], ps=[]), T=[], x=[], y=[], val=err('none'))
    known = [x for v in m['vs'] for x in vsyms(v)]
    x = [np.array([vals.get(q, 0.5) for q in vsyms(v)]) for v in m['vs']]
    y = np.array([vals.get((q, -1), 0.5) for q in m['ps']], dtype=complex)
    try:
        T = terms_of(p.sympy_poly.as_expr(), known)
    except Exception as e:
        return dict(err=err(f'{type(e).__name__}: {e}')['err'], g=dict(vs=[], ps=[]), T=[], x=[], y=[], val=err('none'))
    a = [q[0] if v['sc'] else q for v, q in zip(m['vs'], x)]
    return dict(err='', g=dict(vs=m['vs'], ps=m['ps']), T=T, x=[encv(list(q)) for q in x], y=encv(list(y)),
                val=attempt(lambda: p(*a, y)))


def one(s, rec):
    vals = {tuple(v['s']): g(v['v'][0]) for v in s['vals']}
    objs, evs = [], []
    for d in s['base']:
        try:
            o = base(d)
        except Exception as e:
            o = e
        objs.append(o)
        evs.append(dict(op='base', fn=d['kind'], g=d['g'], T=rec_terms(d['T']), out=record(o, vals)))
    for k, h in enumerate(s['hist']):
        a = objs[h['i'] - 1]
        what = dict(k=h['k'], o=h['o'], i=h['i'], j=h['j'], s=h['s'], n=enc(gf(h['n'])))
        try:
            if h['o'] == 'var':
                v = symname(h['s'], s['sub'][k])
                r = a.diff(v if k % 2 else sympy.Symbol(v))
            else:
                b = objs[h['j'] - 1] if h['o'] == 'poly' else sympy.Symbol(symname(h['s'], s['sub'][k])) if h['o'] == 'sym' else \
                    number(h['n'], k + len(s['hist']) + h['i'])
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[h['k']]()
        except Exception as e:
            r = e
        objs.append(r)
        evs.append(dict(op='combine', fn=h['k'] + ' ' + h['o'], what=what, out=record(r, vals), left=record(a, vals),
                        right=record(objs[h['j'] - 1] if h['o'] == 'poly' else a, vals)))
        if isinstance(r, Exception):
            break
    rec.trace(evs, s)
