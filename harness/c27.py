"""Declarations and calls that fit or do not fit."""
from plib import *
from cyjax import donaldson as D, ml, util


def run(scn, rec):
    for s in scn:
        e = dict(s, fn=s.get('fn', ''), ok=True, err='')
        if s['op'] in ('kind', 'other'):
            e['good'] = s['ok']
        try:
            r = OPS[s['op']](s)
            if s['op'] == 'declare':
                gr = grouping(r)
                if gr['err']:
                    raise ValueError(gr['err'])
                e.update(vs=gr['vs'], ps=gr['ps'])
        except Exception as ex:
            e['ok'] = False
            e['err'] = err(f'{type(ex).__name__}: {ex}')['err']
        rec.trace([e], s)


def declare(s):
    S = sorted(tuple(x) for x in s['syms'])
    t = ' + '.join(f'{i + 2}*{symname(x)}**{i + 1}' for i, x in enumerate(S)) + ' + 1'
    if s['form'] == 'expr':
        t = sum([(i + 2) * sym(x) ** (i + 1) for i, x in enumerate(S)], sympy.Integer(1))
    kw = {}
    if s['names']['given']:
        kw['variable_names'] = list(s['names']['v'])
    if s['pars']['given']:
        kw['parameters'] = list(s['pars']['v'])
    if s['idx']['given']:
        if s['form'] == 'dims':
            kw['variable_dim'] = [len(i) for i in s['idx']['v']]
        else:
            kw['variable_indices'] = [list(i) or None for i in s['idx']['v']]
    return P.Poly.from_sympy(t, **kw)


def call(s):
    names = ['x', 'z'][:s['nv']]
    pn = ['a', 'b'][:s['np']]
    ex = ' + '.join(['x'] + ['z0*x + z1'] * (s['nv'] > 1) + [f'{p}*x' for p in pn])
    p = P.Poly.from_sympy(ex, names, pn)
    vals = [jnp.asarray(1.5 + 1j), jnp.asarray([1. + 2j, 3.])]
    if s['mode'] == 'symbolic':
        vals = [sympy.Symbol('u'), np.array([sympy.Symbol('v'), sympy.Symbol('w')])]
    vals = vals[:s['nv']]
    args = vals[:s['pos']]
    rest = list(zip(names, vals))[s['pos']:]
    kw = dict(rest[s['miss']:])
    par = jnp.arange(1., s['count'] + 1)
    if s['par'] == 'pos':
        args.append(par)
    elif s['par'] == 'kw':
        kw['params'] = par
    if s['extra']:
        args.append(par)
    return (p.transform_eval() if s['mode'] == 'compiled' else p)(*args, **kw)


def kind(s):
    i = 1 if s['ok'] else 1.
    z = jnp.asarray([1., 2j, 3.])
    return {'hom_to_affine': lambda: cyjax.hom_to_affine(z, i), 'affine_to_hom': lambda: cyjax.affine_to_hom(z, i),
            'change_chart old': lambda: cyjax.change_chart(z, i, 0), 'change_chart new': lambda: cyjax.change_chart(z, 0, i),
            'pop': lambda: util.pop(z, i)}[s['fn']]()


def ones(r):
    return jnp.ones((2,) * r)


def insert_1d(s):
    return util.insert_1d(ones(s['a']), ones(s['b']), 1)


def insert_col(s):
    return util.insert_col(ones(s['a']), ones(s['b']), 1)


def conjugates(s):
    a, b = jnp.ones(s['sa']) + 0j, jnp.ones(s['sb']) + 0j
    if s['fn'] == 'flatten_coord':
        return util.flatten_coord(a, b, True)
    return getattr(cyjax, s['fn'])(a, b)


_am = []


def metric():
    if not _am:
        _am.append(D.AlgebraicMetric(cyjax.Dwork(1), D.MonomialBasisFull(2, 2)))
    return _am[0]


def coords(s):
    z = jnp.asarray([1. + 0.5j, 0.25, -0.5j, 1., 2., 0.5][:s['len']]) + 0j
    kw = dict(patch=1) if s['patch'] else {}
    one_ = jnp.asarray([0.5 + 0j])
    if s['fn'] == 'dwork':
        return P.DworkPoly(s['n'])(z, one_, **kw)
    if s['fn'] == 'fermat':
        return P.FermatPoly(s['n'])(z, **kw)
    return getattr(metric(), s['fn'])(jnp.eye(6) + 0j, z, one_, **kw)


def mix(s):
    mk = lambda sc: P.Poly.from_sympy('x*y + a' if sc else 'x0*y + x1*a', ['x', 'y'], ['a'])  # noqa
    p = mk(s['sa'])
    f = s['fn'].split()
    o = mk(s['sb']) if len(f) == 1 else sympy.Symbol('x' if s['sb'] else 'x1')
    return p + o if f[0] == 'add' else p - o if f[0] == 'sub' else p * o


def other(s):
    x, z0, a = sympy.symbols('x z0 a')
    p = P.Poly.from_sympy('a*x*z0 + z1**2', ['x', 'z'], ['a'])
    net = lambda shape: ml.HNetMLP(3, [4]).init(jax.random.PRNGKey(0), jnp.ones(shape) + 0j, deterministic=True)  # noqa
    return {
        'factor by a variable': lambda: P.univariate_coefficients(p, 'x'),
        'factor by a component': lambda: P.univariate_coefficients(p, z0),
        'factor by a parameter': lambda: P.univariate_coefficients(p, 'a'),
        'differentiate by a component': lambda: p.diff(z0),
        'differentiate by an unknown symbol': lambda: p.diff('q'),
        'one-element array as factor': lambda: p * np.ones(1),
        'array as factor': lambda: p * np.ones(2),
        'variety of one variable': lambda: cyjax.VarietySingle(P.HomPoly.from_sympy('z0**2 + z1*z2', ['z'])),
        'variety of two variables': lambda: cyjax.VarietySingle(P.HomPoly.from_sympy('z0*x0 + z1*x1', ['z', 'x'])),
        'homogeneous of vectors': lambda: P.HomPoly.from_sympy('x0*z0', ['x', 'z']),
        'homogeneous of a scalar': lambda: P.HomPoly.from_sympy('x*z0', ['x', 'z']),
        'names as text': lambda: P.Poly.from_sympy('x*z0', ['x', 'z']),
        'names as symbols': lambda: P.Poly.from_sympy('x*z0', [np.array(x), np.array([z0])]),
        'names mixed': lambda: P.Poly.from_sympy('x*z0', ['x', np.array([z0])]),
        'sine': lambda: P.Poly.from_sympy('sin(z0)', ['z']),
        'inverse': lambda: P.Poly.from_sympy('x + 1/z0', ['x', 'z']),
        'symbolic power': lambda: P.Poly.from_sympy('z0**a', ['z']),
        'root': lambda: P.Poly.from_sympy('x*sqrt(z0)', ['x', 'z']),
        'inverse of a parameter': lambda: P.Poly.from_sympy('z0/a', ['z']),
        'missing value with powers': lambda: P.compute_monomials([None], np.ones(1), [[[1]]]),
        'missing value without powers': lambda: P.compute_monomials([jnp.ones(1) + 0j, None], np.ones(1), [[[1]], None]),
        'missing value with powers, symbolic': lambda: P.compute_monomials([None], np.ones(1), [[[1]]], symbolic=True),
        'two subscripts': lambda: P.split_subscript('z_1_2'),
        'subscript not a number': lambda: P.split_subscript('z_a'),
        'no subscript': lambda: P.split_subscript('z'),
        'Fermat of an expression': lambda: cyjax.Fermat.from_sympy('z0**5'),
        'Dwork of an expression': lambda: cyjax.Dwork.from_sympy('z0**5'),
        'network on a number': lambda: net(()), 'network on a vector': lambda: net((2,)), 'network on a batch': lambda: net((3, 2)),
        'network on three dimensions': lambda: net((2, 3, 2)),
        'coefficient matrix of another size': lambda: metric().metric(jnp.eye(5) + 0j, jnp.ones(2) + 0j, jnp.ones(1), 0),
        'coefficient matrix of the right size': lambda: metric().metric(jnp.eye(6) + 0j, jnp.ones(2) + 0j, jnp.ones(1), 0)}[s['fn']]()


OPS = dict(declare=declare, call=call, kind=kind, insert_1d=insert_1d, insert_col=insert_col, conjugates=conjugates, coords=coords, mix=mix, other=other)
