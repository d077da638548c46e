"""What polynomial and variety objects say about themselves."""
import inspect, re
from plib import *


def run(scn, rec):
    for s in scn:
        dict(poly=poly, variety=vari, subscript=subscript)[s['op']](s, rec)


# ------------------------------------------------------------ reading printed polynomials
TOKEN = re.compile(r'\s*(?:(?P<num>\d+\.?\d*(?:e[+-]?\d+)?)|(?P<name>@\d+@)|(?P<i>i(?![a-z]))|(?P<pow>\^)|(?P<op>[-+*()])|(?P<l>\\left\()|'
                   r'(?P<r>\\right\))|(?P<dot>\\cdot)|(?P<ob>\{)|(?P<cb>\}))')


def read_tex(t, names):
    """Polynomial in the typeset form used by sympy, given the typeset names of the symbols."""
    for k, n in sorted(enumerate(names), key=lambda x: -len(x[1])):
        t = re.sub(r'(?<![A-Za-z\\@])' + re.escape(n) + r'(?![A-Za-z_])', f'@{k}@', t)
    out, pos, operand = '', 0, False
    t = t.strip()
    while pos < len(t):
        m = TOKEN.match(t, pos)
        if not m:
            raise ValueError('cannot read ' + t[pos:pos + 20])
        pos = m.end()
        k, x = m.lastgroup, m.group(m.lastgroup)
        if k in ('num', 'name', 'i', 'l') or (k == 'op' and x == '('):
            if operand:
                out += '*'
            out += dict(num=x, name=f'S{x[1:-1]}', i='I', l='(', op='(')[k]
            operand = k in ('num', 'name', 'i')
        elif k == 'r' or (k == 'op' and x == ')'):
            out += ')'
            operand = True
        elif k == 'pow':
            out += '**'
            operand = False
        elif k == 'ob':
            out += '('
            operand = False
        elif k == 'cb':
            out += ')'
            operand = True
        elif k == 'dot':
            out += '*'
            operand = False
        else:
            out += x
            operand = False
    return out


def parse(text, table):
    return sympy.parse_expr(text, local_dict=table, global_dict={'Integer': sympy.Integer, 'Float': sympy.Float, 'I': sympy.I,
                                                                   'Symbol': sympy.Symbol, 'Rational': sympy.Rational})


def symlist(a):
    return dict(sc=np.ndim(a) == 0, names=[str(x) for x in np.asarray(a).reshape(-1).tolist()])


def describe(p, gr, T, fn):
    known = [x for v in gr['vs'] for x in vsyms(v)]
    names = [symname(x) for x in known] + gr['ps']
    tex = [[n, sympy.latex(sympy.Symbol(n))] for n in [v['name'] for v in gr['vs']] + gr['ps']]
    e = dict(op='poly', fn=fn, g=gr, T=T, type=type(p).__name__, tex=tex, err='')
    try:
        sg = inspect.signature(p).parameters
        e['sig'] = [n for n, q in sg.items() if q.kind == q.POSITIONAL_OR_KEYWORD]
        e['vpos'] = [[str(a), int(b)] for a, b in p.variable_position.items()]
        e['ppos'] = [[str(a), int(b)] for a, b in p.parameter_position.items()]
        e['grouped'] = [symlist(a) for a in p.all_symbols(True, False)]
        e['groupedp'] = [symlist(a) for a in p.all_symbols()]
        e['flat'] = [str(a) for a in p.all_symbols(False, False)]
        e['flatp'] = [str(a) for a in p.all_symbols(False)]
        e['domain'] = [str(q) for q in getattr(p.domain, 'symbols', ())]
        head, text = repr(p).split(' = ', 1)
        e['head'] = head
        e['text'] = terms_of(parse(text, {n: sympy.Symbol(n) for n in names}), known)
        e['dots'] = len([x for x in re.findall(r'(?<![\w.])\d+\.\d*(?:e[+-]?\d+)?', text) if float(x).is_integer()])
        t = p._repr_latex_()
        if not (t.startswith(r'$\displaystyle ') and t.endswith('$')):
            raise ValueError('typeset form is not a displayed formula')
        head, text = t[len(r'$\displaystyle '):-1].split(' = ', 1)
        e['texhead'] = head
        tn = [sympy.latex(sympy.Symbol(n)) for n in names]
        e['textext'] = terms_of(parse(read_tex(text, tn), {f'S{i}': sympy.Symbol(n) for i, n in enumerate(names)}), known)
    except Exception as ex:
        e['err'] = err(f'{type(ex).__name__}: {ex}')['err']
    return e


def make(cls, gr, T, ctor='expr'):
    names, idx = [v['name'] for v in gr['vs']], [None if v['sc'] else list(v['idx']) for v in gr['vs']]
    if ctor == 'arrays' and T:
        cp = [[sympy.Symbol(n) for n, i, k in t['m'] if n in gr['ps'] for _ in range(k)] for t in T]
        ex = [{(n, i): k for n, i, k in t['m']} for t in T]
        pw = [[[ex[j].get(x, 0) for x in vsyms(v)] for j in range(len(T))] for v in gr['vs']]
        return cls.from_coeffs_and_powers([g(t['c']) for t in T], pw, cp, names, idx, gr['ps'])
    return cls.from_sympy(tstring(T) if ctor == 'str' else texpr(T), names, gr['ps'], variable_indices=idx)


def poly(s, rec):
    how, gr = s['how'], s['g']
    p = make(P.HomPoly if how in ('homogeneous', 'affine') else P.Poly, gr, s['T'], s['ctor'])
    if how in ('made', 'homogeneous'):
        return rec.trace([describe(p, gr, rec_terms(s['T']), how)], s)
    if how == 'sum':
        r = p + make(P.Poly, s['other'], s['U'])
    elif how == 'product':
        r = p * make(P.Poly, s['other'], s['U'])
    elif how == 'derivative':
        syms = [x for v in gr['vs'] for x in vsyms(v)]
        r = p.diff(sym(syms[s['sym'] % len(syms)]))
    elif how == 'scaled':
        r = p * g(s['c'])
    else:
        pt = tuple(s['patch'] % len(v['idx']) for v in gr['vs'])
        r = p.affine_poly(pt if len(pt) > 1 else pt[0])
    # grouping and terms of results are judged elsewhere; here the description has to agree with them
    m = grouping(r)
    known = [x for v in m['vs'] for x in vsyms(v)]
    evs = [describe(r, dict(vs=m['vs'], ps=m['ps']), terms_of(r.sympy_poly.as_expr(), known), how),
           describe(p, gr, rec_terms(s['T']), 'operand of ' + how)]
    rec.trace(evs, s)


def vari(s, rec):
    v, ps = s['v'], PNAMES[:s['v']['np']]
    if s['how'] == 'text':
        X = cyjax.VarietySingle.from_sympy(str(expr(v)), 'z', v['n'], PNAMES[:v['np']])
    elif s['how'] == 'default':  # nothing chosen: the threefolds
        X = cyjax.Fermat() if v['kind'] == 'fermat' else cyjax.Dwork()
    elif s['how'] == 'default text':
        X = cyjax.VarietySingle.from_sympy(str(expr(v)))
    else:
        X = variety(v)
    e = dict(op='variety', fn=s['how'], n=v['n'], ps=ps, err='')
    try:
        e.update(type=type(X).__name__, pars=[str(q) for q in X.parameters],
                 dims=dict(complex=int(X.dim_complex), projective=int(X.dim_projective), variety=int(X.dim_variety), dim=int(X.dim),
                           par=int(X.par_count), defining=int(X.num_defining)),
                 text=repr(X), tex=X._repr_latex_().strip('$'), poly=repr(X.defining_poly), polytex=X.defining_poly._repr_latex_().strip('$'))
    except Exception as ex:
        e['err'] = err(f'{type(ex).__name__}: {ex}')['err']
    var, idx = 'z', list(range(v['n']))
    if s['how'] == 'object' and v['kind'] == 'poly':
        var, idx = SYMS.get((v['n'], v['np'], v['deg']), (var, idx))
    gr = dict(vs=[dict(name=var, sc=False, idx=idx)], ps=ps)
    d = describe(X.defining_poly, gr, terms_of(expr(v, var, idx=idx), vsyms(gr['vs'][0])), 'defining')
    rec.trace([e, d], s)


def subscript(s, rec):
    n, k = s['name'], s['sub']
    e = dict(op='subscript', fn='subscript', name=n, sub=k, err='', back=[])
    try:
        for x in (P.merge_subscript(n, k), f'{n}{k}', f'{n}_{k}', sympy.Symbol(f'{n}_{k}')):
            a, b = P.split_subscript(x)
            e['back'].append([str(a), int(b)])
    except Exception as ex:
        e['err'] = err(f'{type(ex).__name__}: {ex}')['err']
    rec.trace([e], s)
