"""Derivatives and curvature of the algebraic metric."""
from alib import *

ATTRS = ['s', 's_c', 's_1', 's_1_c', 's_2', 's_2_c', 'psi', 'psi_h', 'psi_a', 'psi_ha', 'psi_hh', 'psi_aa', 'psi_hha',
         'psi_hhaa', 'g_proj', 'g_proj_h', 'g_proj_a', 'g_proj_ha', 'grad_def', 'jac', 'jac_c', 'jac_h', 'g_loc', 'g_loc_h',
         'g_loc_a', 'g_loc_ha', 'g_loc_inv', 'ricci_proj', 'ricci_loc', 'ricci_scalar', 'eta']


def run(scn, rec):
    for s in scn:
        obj(s, rec) if s['op'] == 'object' else ricci(s, rec)


def obj(s, rec):
    v, k, mode = s['v'], s['k'], s['mode']
    X, sec = variety(v), basis(v, k, False)
    z, p = gvec(s['z']), s['p']
    par = jnp.asarray(gvec(s['par'])) if v['np'] else None
    h = hmat(s['h'])
    diag = mode == 'diagonal'
    if diag:
        h = np.diag(h).real.copy()
    hom = mode == 'homogeneous'
    x = homog(z, p, g(s['sc'])) if hom else z
    kw = dict(precompute=False) if mode == 'log' else {}
    given = mode not in ('homogeneous', 'chosen')

    def make(h, x):
        return D.GeometricObjects(h, x, par, X, sec, None if hom else p, None, s['d'] if given else None, **kw)
    at = {}
    e = dict(op='object', fn=mode, v=rec_v(v), k=k, pm=rows(sec), h=encv(h) if diag else encm(h), diag=diag, hom=hom, x=encv(x),
             par=encv(list(gvec(s['par']))), p=p, d=s['d'] if given else -1, at=at)
    try:
        if mode == 'jit':
            names = ATTRS + ['patch', 'dependent']
            vals = jax.jit(lambda h, x: {a: jnp.asarray(getattr(make(h, x), a)) for a in names})(jnp.asarray(h), jnp.asarray(x))
            get = vals.__getitem__
        else:
            o = make(jnp.asarray(h), jnp.asarray(x))
            get = lambda a: getattr(o, a)  # noqa
    except Exception as ex:
        x_ = err(f'{type(ex).__name__}: {ex}')
        get = None
        e['patch'] = e['dep'] = x_
    if get:
        e['patch'] = attempt(lambda: get('patch'), rec=iarr)
        e['dep'] = attempt(lambda: get('dependent'), rec=iarr)
        for a in ATTRS:
            at[a] = attempt(lambda: get(a))
    rec.trace([e], s)


def ricci(s, rec):
    v = s['v']
    X, sec = variety(v), basis(v, s['k'], False)
    M = D.AlgebraicMetric(X, sec)
    _, (sz, sp, sq, sd) = LAY[s['lay']]
    sh = HL[s['hl']]
    hl, ha = take([hmat(h) for h in s['hs']], sh)
    zl, za = take([gvec(z) for z in s['zs']], sz)
    pl, pa = take([gvec(z) for z in s['pars']], sp)
    ql, qa = take(s['ps'], sq)
    dl, da = take(s['ds'], sd)
    if v['np'] == 0:
        pa, sp, pl = None, (), [[]]
    else:
        pa = jnp.asarray(pa)
    xl, xa = take([homog(gvec(z), p, g(c)) for z, p, c in zip(s['zs'], s['ps'], s['sc'])], sz)
    ha, za, xa = jnp.asarray(ha), jnp.asarray(za), jnp.asarray(xa)
    qa = jnp.asarray(qa) if sq else int(qa)
    da = jnp.asarray(da) if sd else int(da)
    base = dict(op='ricci', v=rec_v(v), k=s['k'], pm=rows(sec), pars=[encv(z) for z in pl], hs=[encm(h) for h in hl],
                ds=[int(x) for x in dl], ps=[int(x) for x in ql])
    evs = []

    def call(fn, aff, given):
        x, xs = (za, zl) if aff else (xa, xl)
        kw = dict(patch=qa) if aff else {}
        if given:
            kw['dependent'] = da
        b = bcm(sz, sp, sh, *([sq] if aff else []), *([sd] if given else []))
        e = dict(base, fn=fn, aff=aff, given=given, b=list(b), xs=[encv(t) for t in xs])

        def do(name):
            f = getattr(M, name)
            if s['jit']:
                return jax.jit(lambda h, x, p, kw: f(h, x, p, **kw))(ha, x, pa, kw)
            return f(ha, x, pa, **kw)
        try:
            r, patch, dep = do('ricci')
            e['r'], e['patch'], e['dep'] = arr(r), iarr(patch), iarr(dep)
        except Exception as ex:
            e['r'] = e['patch'] = e['dep'] = err(f'{type(ex).__name__}: {ex}')
        e['scalar'] = attempt(lambda: do('ricci_scalar'))
        evs.append(e)
    call('affine', True, True)
    if s['lay'] % 2:
        call('homogeneous', False, False)
    else:
        call('affine, dependent chosen', True, False)
    rec.trace(evs, s)
