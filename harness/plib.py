"""Polynomial objects from scenario descriptions."""
from vlib import *


def symname(s, sub=False):
    return s[0] if s[1] == -1 else f'{s[0]}_{s[1]}' if sub else f'{s[0]}{s[1]}'


def sym(s, sub=False):
    return sympy.Symbol(symname(s, sub))


def texpr(T, sub=False):
    e = sympy.Integer(0)
    for t in T:
        m = coeff_sym(t['c'])
        for n, i, k in t['m']:
            m = m * sym((n, i), sub) ** k
        e = e + m
    return e


def tstring(T, sub=False):
    out = []
    for t in T:
        re, im, den = t['c']
        f = [f'({re} + {im}*I)/{den}']
        f += [f'{symname((n, i), sub)}**{k}' if k > 1 else symname((n, i), sub) for n, i, k in t['m']]
        out.append('*'.join(f))
    return ' + '.join(out) or '0'


def nested(T, sub=False):
    """Spelling with brackets and decimal numbers: the first symbol that appears more than once is taken out."""
    syms = [(n, i) for t in T for n, i, k in t['m'] if k]
    x = next((s for s in syms if syms.count(s) > 1), None)
    if x is None:
        out = []
        for t in T:
            re, im, den = t['c']
            c = f'({re / den!r} + {im / den!r}*I)' if im else f'({re / den!r})'
            out.append('*'.join([f'{symname((n, i), sub)}**{k}' for n, i, k in reversed(t['m']) if k] + [c]))
        return ' + '.join(out) or '0'
    down = [dict(t, m=[[n, i, k - ((n, i) == x)] for n, i, k in t['m']]) for t in T if any((n, i) == x and k for n, i, k in t['m'])]
    rest = [t for t in T if not any((n, i) == x and k for n, i, k in t['m'])]
    return f'{symname(x, sub)}*({nested(down, sub)})' + (f' + ({nested(rest, sub)})' if rest else '')


def vsyms(v):
    return [(v['name'], -1)] if v['sc'] else [(v['name'], i) for i in v['idx']]


def rec_terms(T):
    return [dict(c=enc(gf(t['c'])), m=t['m']) for t in T]


def grouping(p):
    """What the object reports about its inputs."""
    try:
        vs = []
        for n, ix in zip(p.variable_names, p.variable_indices):
            vs.append(dict(name=str(n), sc=ix is None, idx=[] if ix is None else [int(i) for i in ix]))
        if len(p.variable_names) != len(p.variable_indices):
            raise ValueError('names and indices differ in length')
        return dict(err='', vs=vs, ps=[str(q) for q in p.parameters])
    except Exception as e:
        return dict(err=err(f'{type(e).__name__}: {e}')['err'], vs=[], ps=[])


def bad_group(e):
    return dict(err=err(f'{type(e).__name__}: {e}')['err'], vs=[], ps=[])


def num(x):
    """Numeric value of a symbolic result."""
    return np.asarray(complex(sympy.N(x, 30)))


def terms_of(e, known=()):
    """Terms of a sympy expression: name, subscript (of known vector variables), exponent."""
    e = sympy.expand(sympy.sympify(e))
    syms = sorted(e.free_symbols, key=str)
    known = {symname(s): s for s in known}
    lab = [known.get(str(s), (str(s), -1)) for s in syms]
    if not syms:
        return [dict(c=enc(complex(e)), m=[])]
    return [dict(c=enc(complex(c)), m=[[l[0], l[1], int(k)] for l, k in zip(lab, a) if k])
            for a, c in sympy.Poly(e, *syms).terms()]
