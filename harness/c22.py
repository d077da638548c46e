"""Array utilities and key sequences."""
from lib import *
jax, jnp = jnp64()
import cyjax
from cyjax import util


def data(shape, kind, off=0):
    n = int(np.prod(shape)) if len(shape) else 1
    a = np.arange(n) * 3 + 10 + off
    if kind == 'f':
        a = a + 0.5
    elif kind == 'c':
        a = a + 1j * (a % 7 - 3)
    return a.reshape(tuple(shape))


def ix(i, style):
    return [int(i), np.int64(i), jnp.asarray(i)][style]


def run(scn, rec):
    for s in scn:
        globals()['do_' + s['op']](s, rec)


def pair(fn, rec1=arr, rec2=arr):
    try:
        a, b = fn()
        return rec1(a), rec2(b)
    except Exception as e:
        return err(f'{type(e).__name__}: {e}'), err('')


def do_pop(s, rec):
    sh = (s['n'],) + ((s['w'],) if s['w'] else ())
    a = data(sh, s['kind'])
    a0 = a.copy()
    f = jax.jit(util.pop) if s['style'] == 2 else util.pop
    v, r = pair(lambda: f(a if s['style'] == 0 else jnp.asarray(a), ix(s['i'], s['style'])))
    rec.trace([dict(op='pop', n=s['n'], w=s['w'], i=s['i'], a=encv(a0), val=v, rest=r, kept=bool(np.array_equal(a, a0)))], s)


def do_insert(s, rec):
    a = data((s['n'],), s['kind'])
    v = data((s['m'],) if s['m'] else (), s['kind'], 100)
    a0 = a.copy()
    if s['style'] == 0:
        args = (a, v if s['m'] else v[()], int(s['i']))
    else:
        args = (jnp.asarray(a), jnp.asarray(v), ix(s['i'], s['style']))
    out = attempt(util.insert_1d, *args)
    rec.trace([dict(op='insert', n=s['n'], i=s['i'], a=encv(a0), v=encv(v), out=out, kept=bool(np.array_equal(a, a0)))], s)


def do_inscol(s, rec):
    a = data((s['r'], s['n']), s['kind'])
    v = data((s['r'], s['m']) if s['m'] else (s['r'],), s['kind'], 500)
    a0 = a.copy()
    out = attempt(util.insert_col, a if s['style'] == 0 else jnp.asarray(a), v if s['style'] == 0 else jnp.asarray(v), ix(s['i'], s['style']))
    rec.trace([dict(op='inscol', r=s['r'], n=s['n'], m=s['m'], i=s['i'], a=encv(a0), v=encv(v), out=out,
                    kept=bool(np.array_equal(a, a0)))], s)


def do_flat(s, rec):
    sh = tuple(s['shape'])
    a = data(sh + ((s['d'],) if s['d'] else ()), 'c')
    zc = data(a.shape, 'c', 1000)
    a0 = a.copy()
    x = jnp.asarray(a)
    flatc = err('unused')
    old = None
    try:
        if s['c'] == 'no':
            flat, old = util.flatten_coord(x)
        elif s['c'] == 'implied':
            (flat, fc), old = util.flatten_coord(x, need_c=True)
        else:
            (flat, fc), old = util.flatten_coord(x, jnp.asarray(zc), need_c=True)
        if s['c'] != 'no':
            flatc = arr(fc)
        back = attempt(util.unflatten_coord, flat, old)
        backs = attempt(util.unflatten_coord, flat[:, 0], old)
        t = attempt(lambda: util.unflatten_coord((flat, flat[:, :, None]), old)[1])
        flat = arr(flat)
        oldr = dict(err='', shape=[len(old)], kind='i', data=[int(k) for k in old])
    except Exception as e:
        flat = back = backs = t = oldr = err(f'{type(e).__name__}: {e}')
    rec.trace([dict(op='flat', shape=list(sh), d=s['d'], c=s['c'], a=encv(a0), zc=encv(zc), flat=flat, flatc=flatc, old=oldr,
                    back=back, backs=backs, backt=t, kept=bool(np.array_equal(a, a0)))], s)


def do_shuffle(s, rec):
    a = data(s['shape'], 'i')
    a0 = a.copy()
    x = jnp.asarray(a)
    k = jax.random.PRNGKey(s['key'])
    out = attempt(util.shuffle_axis, k, x, s['ax'])
    again = attempt(util.shuffle_axis, k, x, s['ax'])
    other = attempt(util.shuffle_axis, jax.random.PRNGKey(s['key'] + 1), x, s['ax'])
    rec.trace([dict(op='shuffle', shape=s['shape'], ax=s['ax'], a=encv(a0), out=out, again=again, other=other,
                    kept=bool(np.array_equal(np.asarray(x), a0)))], s)


def do_binom(s, rec):
    n = s['n']
    try:
        v = [util.binomial(n, k) for k in range(n + 1)]
        out = dict(err='', shape=[n + 1], kind='i', data=[enc(int(x)) for x in v]) if all(isinstance(x, (int, np.integer)) for x in v) \
            else err('not an integer')
    except Exception as e:
        out = err(e)
    rec.trace([dict(op='binom', n=n, out=out)], s)


def do_prod(s, rec):
    sh = tuple(s['shape'])
    m = int(np.prod(sh)) if sh else 1
    fs = [np.array(gvec(v)[:m]).reshape(sh) for v in s['vals']]
    keep = [f.copy() for f in fs]
    st = s['style']
    if st == 0:
        arg = fs
    elif st == 1:
        arg = (f for f in fs)
    elif st == 2:
        arg = [jnp.asarray(f) for f in fs]
    else:
        arg = np.stack(fs) if fs else np.zeros((0,) + sh)
    out = attempt(util.prod, arg)
    kept = all(np.array_equal(a, b) for a, b in zip(fs, keep))
    if st == 3 and fs:
        kept = kept and np.array_equal(arg, np.stack(keep))
    rec.trace([dict(op='prod', n=s['n'], shape=list(sh), vals=[encv(k) for k in keep], out=out, kept=bool(kept))], s)


def do_keys(s, rec):
    ev, seqs = [], []
    for q in range(3):
        sd = s['seeds'][q]
        seqs.append(util.PRNGSequence(jax.random.PRNGKey(sd) if s['how'][q] else sd))
        ev.append(dict(op='newseq', q=q + 1, **{'from': [sd]}))
    for w in s['walk']:
        ev.append(dict(op='nextkey', q=w, out=attempt(lambda: next(seqs[w - 1]), rec=lambda a: arr(jax.random.key_data(a) if hasattr(jax.random, 'key_data') and jax.dtypes.issubdtype(a.dtype, jax.dtypes.prng_key) else a))))
    rec.trace(ev, s)
