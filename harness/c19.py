"""Cholesky parametrisation of Hermitian matrices."""
from lib import *
jax, jnp = jnp64()
from cyjax import ml
FL = {-1: None, 0: 0.0, 1: 1e-3, 2: 0.05, 3: 0.125}


def run(scn, rec):
    for s in scn:
        globals()['do_' + s['op']](s, rec)


def do_decode(s, rec):
    d, u = gvec(s['diag']).real, gvec(s['upper'])
    par = np.concatenate([d, u.real, u.imag])
    ua = u.real if s['real'] and s['style'] == 0 else u
    if s['style'] == 0:
        a = (d, ua)
        pa = par
    else:
        a = (jnp.asarray(d), jnp.asarray(ua))
        pa = jnp.asarray(par)
    f, fp = ml.cholesky_decode, ml.cholesky_from_param
    if s['style'] == 2:
        f, fp = jax.jit(lambda x, y: ml.cholesky_decode(x, y)), jax.jit(lambda x: ml.cholesky_from_param(x))
    rec.trace([dict(op='decode', n=s['n'], diag=encv(d), upper=encv(u), par=encv(par), out=attempt(f, *a), outp=attempt(fp, pa))], s)


def do_batch(s, rec):
    d = np.stack([gvec(x).real for x in s['diag']])
    u = np.stack([gvec(x) for x in s['upper']])
    par = np.concatenate([d, u.real, u.imag], axis=1)
    if s['b'] == 0:
        out = attempt(jax.vmap(ml.cholesky_decode), jnp.asarray(d), jnp.asarray(u))
    elif s['b'] == 1:
        out = attempt(jax.vmap(ml.cholesky_from_param), jnp.asarray(par))
    else:
        out = attempt(lambda p: jax.lax.map(ml.cholesky_from_param, p), jnp.asarray(par))
    rec.trace([dict(op='batch', n=s['n'], diag=[encv(x) for x in d], upper=[encv(x) for x in u], out=out)], s)


def do_tangent(s, rec):
    d, u, dd, du = gvec(s['diag']).real, gvec(s['upper']), gvec(s['ddiag']).real, gvec(s['dupper'])
    par, dpar = np.concatenate([d, u.real, u.imag]), np.concatenate([dd, du.real, du.imag])
    if s['b'] == 0:
        out = attempt(lambda: jax.jvp(ml.cholesky_from_param, (jnp.asarray(par),), (jnp.asarray(dpar),))[1])
    else:
        # contracted entry by entry with the direction
        def f():
            re = jax.jacrev(lambda p: ml.cholesky_from_param(p).real)(jnp.asarray(par))
            im = jax.jacrev(lambda p: ml.cholesky_from_param(p).imag)(jnp.asarray(par))
            return (re + 1j * im) @ dpar
        out = attempt(f)
    rec.trace([dict(op='tangent', fn='reverse' if s['b'] else 'forward', n=s['n'], par=encv(par), dir=encv(dpar), out=out)], s)


def do_spread(s, rec):
    fl = FL[s['fl']]
    out = attempt(lambda: ml.hermitian_param_init(jax.random.PRNGKey(s['key']), s['n'], fl)[:s['n']])
    rec.trace([dict(op='spread', n=s['n'], fl=enc(fl), out=out)], s)


def do_init(s, rec):
    k = jax.random.PRNGKey(s['key'])
    fl = FL[s['fl']]
    dt = [{}, dict(dtype=jnp.float32), dict(dtype=jnp.float64)][s['dt']]
    call = lambda: ml.hermitian_param_init(k, s['n'], fl, **dt) if fl is not None else ml.hermitian_param_init(k, s['n'], **dt)
    size = attempt(lambda: np.array(call().dtype.itemsize))
    par, again = attempt(call), attempt(call)
    dec = attempt(lambda: ml.cholesky_from_param(call()))
    rec.trace([dict(op='init', n=s['n'], fl=enc(fl or 0), par=par, again=again, dec=dec, want=4 if s['dt'] == 1 else 8, size=size)], s)
