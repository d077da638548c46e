"""Sampling points on varieties."""
from vlib import *
NAMES = [PNAMES, ['t', 'p', 'q'], ['p', 'q', 't'], ['q_0', 'p_1', 't']]
NONE = dict(err='none', shape=[], kind='', data=[])
_c = {}


def named(v, i):
    key = json.dumps([v, i], sort_keys=True)
    if key not in _c:
        h = P.HomPoly.from_sympy(expr(v, pnames=NAMES[i]), ['z'], NAMES[i][:v['np']], [v['n']])
        _c[key] = cyjax.VarietySingle(h)
    return _c[key]


def run(scn, rec):
    for s in scn:
        sample(s, rec) if s['op'] == 'sample' else moments(s, rec)


def split(r, aff, w):
    pts, ws = r if w else (r, None)
    z, p = pts if aff else (pts, None)
    return arr(z), iarr(p) if aff else NONE, arr(ws) if w else NONE


def sample(s, rec):
    v = s['v']
    X = named(v, s['names']) if v['kind'] == 'poly' and s['names'] else variety(v)
    par = gvec(s['par'])
    pj = jnp.asarray(par) if v['np'] else None
    evs = []

    def call(fn, key, aff, w, same=True, other=False, jit=False):
        e = dict(op='sample', fn=fn, v=rec_v(v), par=encv(list(par)), count=s['count'], aff=aff, same=same, other=other)
        try:
            k = jax.random.PRNGKey(key)
            kw = {**({'affine': True} if aff else {}), **({'weights': True} if w else {})}
            f = lambda k, p: X.sample_intersect(k, p, s['count'], **kw)  # noqa
            e['out'], e['patch'], e['w'] = split((jax.jit(f) if jit else f)(k, pj), aff, w)
        except Exception as ex:
            e['out'] = err(f'{type(ex).__name__}: {ex}')
            e['patch'] = e['w'] = NONE
        evs.append(e)
    call('homogeneous', s['key'], False, False)
    call('affine', s['key'], True, False)
    call('homogeneous, weights', s['key'], False, True)
    call('affine, weights', s['key'], True, True)
    call('repeated', s['key'], False, False)
    call('other key', s['key2'], False, True, same=False, other=True)
    if s['jit']:
        call('compiled', s['key'], True, True, same=False)
    rec.trace(evs, s)


def moments(s, rec):
    v = s['v']
    X = variety(v)
    par = gvec(s['par'])
    out = attempt(lambda: X.sample_intersect(jax.random.PRNGKey(s['key']), jnp.asarray(par) if v['np'] else None, s['count']))
    rec.trace([dict(op='moments', v=rec_v(v), deg=v['deg'], par=encv(list(par)), count=s['count'], us=[encv(gvec(u)) for u in s['us']],
                    out=out)], s)
