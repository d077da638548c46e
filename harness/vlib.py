"""Varieties and polynomials from scenario descriptions."""
from lib import *
jax, jnp = jnp64()
import sympy
import cyjax
from cyjax import polynomial as P

PNAMES = ['psi', 'alpha', 'rho', 'tau']


def coeff_sym(c):
    return sympy.Rational(c[0], c[2]) + sympy.I * sympy.Rational(c[1], c[2])


# name and subscripts of the homogeneous coordinates, for some varieties (n, np, deg) other than z0, z1, ...
SYMS = {(4, 2, 2): ('z', [1, 2, 3, 4]), (3, 2, 3): ('z', [2, 3, 7]), (4, 1, 1): ('w', [0, 1, 3, 10]), (4, 1, 4): ('x', [0, 1, 2, 3])}


def expr(v, var='z', pnames=PNAMES, idx=None):
    idx = idx or range(v['n'])
    e = sympy.Integer(0)
    for t in v['T']:
        m = coeff_sym(t['c'])
        for i, k in enumerate(t['a']):
            m = m * sympy.Symbol(f'{var}{idx[i]}') ** k
        for i, k in enumerate(t['b']):
            m = m * sympy.Symbol(pnames[i]) ** k
        e = e + m
    return e


_cache = {}


def variety(v):
    key = json.dumps(v, sort_keys=True)
    if key not in _cache:
        if v['kind'] == 'fermat':
            o = cyjax.Fermat(v['n'] - 2)
        elif v['kind'] == 'dwork':
            o = cyjax.Dwork(v['n'] - 2)
        elif v['kind'] == 'dwork1':
            o = cyjax.Dwork(v['n'] - 2, False)
        else:
            var, idx = SYMS.get((v['n'], v['np'], v['deg']), ('z', list(range(v['n']))))
            h = P.HomPoly.from_sympy(expr(v, var, idx=idx), [var], PNAMES[:v['np']], variable_indices=[idx])
            o = cyjax.VarietySingle(h)
        _cache[key] = o
    return _cache[key]


def rec_v(v):
    return dict(n=v['n'], T=[dict(c=enc(gf(t['c'])), a=t['a'], b=t['b']) for t in v['T']])


# batch layouts: result batch, then shapes of (points, parameters, patches, dependents)
LAY = {
    0: ((), [(), (), (), ()]),
    1: ((3,), [(3,), (), (), ()]),
    2: ((3,), [(3,), (3,), (3,), (3,)]),
    3: ((2, 3), [(2, 3), (3,), (), (2, 3)]),
    4: ((3,), [(), (3,), (), ()]),
    5: ((2, 3), [(3,), (), (2, 3), ()]),
    6: ((2, 3), [(2, 3), (2, 3), (2, 3), (3,)]),
    7: ((3,), [(), (), (), (3,)]),
}


def bc(a, b):
    return a if len(a) >= len(b) else b
