"""The moduli network."""
from lib import *
jax, jnp = jnp64()
from cyjax import ml
from flax.core import unfreeze, freeze


def run(scn, rec):
    for s in scn:
        globals()['do_' + s['op']](s, rec)


def moduli(s):
    w = np.stack([gvec(r) for r in s['ws']])
    return w, w * w


def pw(hp):
    return [h // 2 if h % 2 == 0 else h / 2 for h in hp]


def replace_leaves(params, fn):
    """New parameter tree with fn(path, leaf)."""
    flat = jax.tree_util.tree_flatten_with_path(params)
    leaves = [fn(''.join(str(p) for p in path), np.asarray(x)) for path, x in flat[0]]
    return jax.tree_util.tree_unflatten(flat[1], leaves)


def feature_rows(psi, hp, **sw):
    """The features, read off through a linear network with unit weights."""
    net0 = ml.HNetMLP(1, [], powers=pw(hp), sig_suppress=False, **sw)
    p0 = net0.init(jax.random.PRNGKey(0), jnp.asarray(psi))
    nf = max(np.shape(x)[0] for x in jax.tree_util.tree_leaves(p0) if np.ndim(x) == 2)
    bs = int(math.ceil(math.sqrt(nf)))
    net = ml.HNetMLP(bs, [], powers=pw(hp), sig_suppress=False, **sw)
    p = net.init(jax.random.PRNGKey(0), jnp.asarray(psi))

    def unit(path, x):
        if x.ndim == 2:
            k = np.zeros(x.shape, x.dtype)
            k[:nf, :nf] = np.eye(nf)
            return jnp.asarray(k)
        return jnp.zeros_like(x)
    return np.asarray(net.apply(replace_leaves(p, unit), jnp.asarray(psi)))[..., :nf]


def do_features(s, rec):
    w, psi = moduli(s)
    if s['form'] == 'single':
        w, psi = w[1:2], psi[1:2]
    x = psi[0] if s['form'] == 'single' else psi
    off = dict(feature_angle=False, feature_abs=False, feature_parts=False)
    ang = attempt(feature_rows, x, s['hp'], **dict(off, feature_angle=True))
    phase = attempt(lambda: np.exp(1j * feature_rows(x, s['hp'], **dict(off, feature_angle=True))))
    ab = attempt(feature_rows, x, s['hp'], **dict(off, feature_abs=True))
    par = attempt(feature_rows, x, s['hp'], **dict(off, feature_parts=True))
    al = attempt(feature_rows, x, s['hp'])
    rec.trace([dict(op='features', fn=s['form'], m=s['m'], hp=s['hp'], ws=[encv(r) for r in w], ang=phase, rawang=ang, abs=ab, par=par, all=al)], s)


DEFAULTS = dict(sig_suppress=True, init_fluctuation=1e-3, feature_angle=True, feature_abs=True, feature_parts=True)
FL = [0.0, 1e-3, 0.05]


def do_init(s, rec):
    w, psi = moduli(s)
    sw = s['sw']
    kw = dict(sig_suppress=s['sig'], init_fluctuation=FL[s['fl']], feature_angle=bool(sw & 1),
              feature_abs=bool(sw & 2), feature_parts=bool(sw & 4))
    if s['def']:  # only what differs from the documented defaults
        kw = {k: v for k, v in kw.items() if v != DEFAULTS[k]}
    net = ml.HNetMLP(s['bs'], s['layers'], **kw)
    single = err('')
    try:
        p = net.init(jax.random.PRNGKey(s['key']), jnp.asarray(psi))
        out = attempt(net.apply, p, jnp.asarray(psi))
        single = attempt(net.apply, p, jnp.asarray(psi[1]))
    except Exception as e:
        out = err(f'{type(e).__name__}: {e}')
    rec.trace([dict(op='init', fn='sig' if s['sig'] else 'plain', bs=s['bs'], fl=enc(FL[s['fl']]), ws=[encv(r) for r in w], out=out, single=single)], s)


def do_maps(s, rec):
    w, psi = moduli(s)
    x = jnp.asarray(psi)
    kw = {}
    if s['drop'] and s['layers']:
        kw['dropout_rates'] = ([0.5, None] if s['key'] % 2 else [None, 0.25])[:len(s['layers'])]
    net = ml.HNetMLP(s['bs'], s['layers'], sig_suppress=s['sig'], **kw)
    o = {k: err('') for k in ('s1', 's2', 's3', 'rev', 'sc', 'again')}
    try:
        p = net.init({'params': jax.random.PRNGKey(s['key']), 'dropout': jax.random.PRNGKey(1)}, x)
        rng = np.random.default_rng(s['key'])
        p = replace_leaves(p, lambda path, l: jnp.asarray(rng.normal(size=l.shape).astype(l.dtype)))
        f = (lambda v: net.apply(p, v, deterministic=True)) if s['drop'] else (lambda v: net.apply(p, v))
        out = attempt(f, x)
        o = dict(s1=attempt(f, x[0]), s2=attempt(jax.jit(f), x[1]), s3=attempt(f, x[2:3]), rev=attempt(f, x[::-1]),
                 sc=attempt(f, x[0, 0]), again=attempt(f, x))
    except Exception as e:
        out = err(f'{type(e).__name__}: {e}')
    rec.trace([dict(op='maps', fn='drop' if s['drop'] else 'plain', m=s['m'], bs=s['bs'], ws=[encv(r) for r in w], out=out, **o)], s)


ACT = dict(square=lambda x: x * x + 1, ratio=lambda x: x / (1 + x * x), half=jax.nn.relu)


def by_shape(p):
    ls = [np.asarray(x) for x in jax.tree_util.tree_leaves(p)]
    return {x.shape: x for x in ls}


def do_layers(s, rec):
    w, psi = moduli(s)
    sw = dict(feature_angle=s['angle'])
    e = dict(op='layers', fn='default' if s['def'] else s['act'], sig=s['sig'], act=s['act'], err='', feats=[], Ks=[], bs=[], dKs=[], dbs=[], out=err(''), fwd=err(''), rev=err(''))
    try:
        feats = feature_rows(psi, s['hp'], **sw)
        kw = {} if s['act'] == 'sigmoid' else dict(activation=ACT[s['act']])
        net = ml.HNetMLP(2, s['layers']) if s['def'] else ml.HNetMLP(2, s['layers'], powers=pw(s['hp']), sig_suppress=s['sig'], **sw, **kw)
        p = net.init(jax.random.PRNGKey(1), jnp.asarray(psi))
        n = iter(range(10 ** 6))

        def fill(path, x):
            q = [s['num'][next(n) % len(s['num'])] / 8 for _ in range(x.size)]
            return jnp.asarray(np.array(q, x.dtype).reshape(x.shape))
        p = replace_leaves(p, fill)
        # sizes are all different: a leaf is known by its shape
        d = by_shape(p)
        sizes = [feats.shape[-1], *s['layers'], 8 if s['sig'] else 4]
        Ks = [d[i, j] for i, j in zip(sizes, sizes[1:])]
        bs = [d[i,] for i in sizes[1:]]
        out = attempt(net.apply, p, jnp.asarray(psi))
        # along a direction of all weights
        turn = replace_leaves(p, lambda path, x: jnp.asarray(np.roll(np.asarray(x).reshape(-1)[::-1], 1).reshape(x.shape) + .25))
        d = by_shape(turn)
        dKs, dbs = [d[i, j] for i, j in zip(sizes, sizes[1:])], [d[i,] for i in sizes[1:]]
        move = lambda t: net.apply(jax.tree_util.tree_map(lambda x, y: x + t * y, p, turn), jnp.asarray(psi))  # noqa
        e.update(feats=encm(feats), Ks=[encm(k) for k in Ks], bs=[encv(b) for b in bs], out=out,
                 dKs=[encm(k) for k in dKs], dbs=[encv(b) for b in dbs],
                 fwd=attempt(lambda: jax.jvp(move, (0.,), (1.,))[1]), rev=attempt(lambda: jax.jacrev(move)(0.)))
    except Exception as ex:
        e['err'] = f'{type(ex).__name__}: {ex}'
    rec.trace([e], s)


def do_dropout(s, rec):
    w, psi = moduli(s)
    psi = jnp.asarray(psi)
    rates = [None if r == 0 else 1 / r for r in s['rates']]
    e = dict(op='dropout', fn='on' if any(rates) else 'off', rates=[[] if r is None else [enc(r)] for r in rates], act=s['act'])
    off = err('')
    try:
        feats = feature_rows(psi, [2, 4, 6], feature_angle=False)
        net = ml.HNetMLP(3, s['layers'], dropout_rates=rates, sig_suppress=False, activation=ACT[s['act']], feature_angle=False)
        p = net.init({'params': jax.random.PRNGKey(0), 'dropout': jax.random.PRNGKey(1)}, psi)
        p = replace_leaves(p, lambda path, x: jnp.asarray(np.eye(*x.shape) if x.ndim == 2 else np.zeros(x.shape)).astype(x.dtype))
        f = lambda k, **kw: net.apply(p, psi, rngs={'dropout': jax.random.PRNGKey(s['key'] + k)}, **kw)  # noqa
        outs = [attempt(f, k) if k % 2 else attempt(jax.jit(f), k) for k in range(s['keys'])]
        e.update(feats=encm(feats), outs=outs, again=attempt(f, 0, deterministic=False), det=attempt(net.apply, p, psi, deterministic=True))
    except Exception as ex:
        o = err(f'{type(ex).__name__}: {ex}')
        e.update(feats=encm(np.zeros((3, 9))), outs=[o], again=off, det=off)
    rec.trace([e], s)
