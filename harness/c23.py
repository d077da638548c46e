"""Runs of the training script in scratch directories."""
from alib import *
import pickle, shutil, subprocess, tempfile
import flax.serialization
from cyjax import ml

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NONE = dict(err='none', shape=[], kind='', data=[])


def run(scn, rec):
    for s in scn:
        train(s, rec)


def overrides(s):
    v = s['v']
    fl = [t[0] / t[2] for t in s['bounds']]
    o = []
    if v['kind'] == 'dwork':
        o += ['--config-name', 'dwork', f'variety.dim_variety={v["n"] - 2}']
    else:
        o += [f'variety.poly="{expr(v)}"', f'variety.poly_degree={v["deg"]}', f'variety.params=[{",".join(PNAMES[:v["np"]])}]']
    return o + ['hydra.run.dir=.', 'algebraic_metric._target_=trainlib.metric', f'algebraic_metric.sections.degree={s["k"]}',
                'network._target_=trainlib.net', f'network.layer_sizes={s["layers"]}'.replace(' ', ''), f'network.powers={s["powers"]}'.replace(' ', ''),
                f'network.sig_suppress={"true" if s["sig"] else "false"}',
                'network.dropout_rates=' + (str([0.25] * len(s['layers'])).replace(' ', '') if s['dropout'] else 'null'),
                f'sampling.sizes.batch_size_params={s["sets"]}', f'sampling.sizes.batch_size={s["points"]}', f'sampling.sizes.buffer_size={s["buffer"]}',
                f'sampling.param_bounds={fl}'.replace(' ', ''), 'training.opt._target_=trainlib.opt', 'training.opt.learning_rate.init_value=0.05',
                f'training.train_minutes={s["minutes"]}', f'training.log_every={s["every"]}', f'evaluation.validation_count={s["vcount"]}',
                f'evaluation.sample_size={s["sample"]}', f'evaluation.grid_points={s["g"]}', f'evaluation.batch_size={s["eb"]}',
                f'evaluation.run={"true" if s["eval"] else "false"}', f'random_seed={"null" if s["noseed"] else s["seed"]}']


def execute(s):
    base = tempfile.mkdtemp(prefix='train-', dir=os.environ.get('VERIF_WORK'))
    d = os.path.join(base, 'run')
    os.mkdir(d)
    env = dict(os.environ, PYTHONPATH=f'{REPO}:{HERE}', JAX_ENABLE_X64='1', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', HOME=base)
    out = os.path.join(base, 'out.pkl')
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'trainlib.py'), os.path.join(REPO, 'scripts', 'train.py'), out] + overrides(s), cwd=d,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        if not os.path.exists(out):
            return dict(log=[], err='ended with ' + str(r.returncode) + ': ' + r.stdout.decode(errors='replace').strip()[-120:]), {}, False
        res = pickle.load(open(out, 'rb'))
        if res['err'].startswith('exit'):
            text = [x for x in r.stdout.decode(errors='replace').splitlines() if 'Error' in x]
            res['err'] += ' ' + ' / '.join(text[-2:])[:140]
        files = {}
        for f in os.listdir(d):
            if f.endswith(('.npy', '.npz')):
                a = np.load(os.path.join(d, f))
                files[f] = dict(a) if f.endswith('.npz') else a
            elif f == 'final.params':
                files[f] = open(os.path.join(d, f), 'rb').read()
        pdf = all(os.path.exists(os.path.join(d, f'final-{x}.pdf')) for x in ('min', 'max', 'mean'))
        return res, files, pdf
    finally:
        shutil.rmtree(base, ignore_errors=True)


def flat(tree):
    return np.concatenate([np.asarray(x).reshape(-1) for x in jax.tree_util.tree_leaves(tree)])


def train(s, rec):
    v = s['v']
    res, files, pdf = execute(s)
    log = res['log']
    of = lambda k: [x for x in log if x['kind'] == k]  # noqa
    bounds = encv([t[0] / t[2] for t in s['bounds']])
    e0 = dict(op='run', err=err(res['err'])['err'] if res['err'] else '', steps=len(of('update')), every=s['every'], vcount=s['vcount'], bounds=bounds)
    ini = of('init')
    if e0['err'] or len(ini) != 1 or not of('update'):
        e0['err'] = e0['err'] or 'optimiser not used as configured'
        rec.trace([e0], s)
        return
    # parameters after every step
    traj = [ini[0]['params']]
    for u in of('update'):
        traj.append(jax.tree_util.tree_map(lambda a, b: (a + b).astype(a.dtype), traj[-1], u['u']))
    trajf = [flat(p) for p in traj]

    def params_of(raw):
        return flat(flax.serialization.from_bytes(traj[0], raw))

    def index_of(raw):
        if raw is None:
            return -1
        p = params_of(raw)
        hit = [i for i, q in enumerate(trajf) if q.shape == p.shape and np.allclose(p, q, rtol=1e-4, atol=1e-6)]
        return max(hit) if hit else -1
    get = lambda f: arr(files[f]) if f in files else NONE  # noqa
    e0.update(losses=get('losses.npy'), validation=get('validation.npy'), vparams=get('validation_params.npy'),
              params=attempt(lambda: params_of(files['final.params'])), trained=arr(trajf[-1]))
    evs = [e0]
    N = of('metric')[0]['size']
    k = of('metric')[0]['degree']
    sec = D.MonomialBasisFull(v['n'] - 1, k)
    pm = rows(sec)
    model = ml.HNetMLP(N, s['layers'], powers=s['powers'], sig_suppress=s['sig'], dropout_rates=[0.25] * len(s['layers']) if s['dropout'] else None)

    @jax.jit
    def hpar(p, moduli):
        return model.apply(p, moduli, deterministic=True)

    @jax.jit
    def hdir(p, d, moduli):
        return jax.jvp(lambda q: model.apply(q, moduli, deterministic=True), (p,), (d,))[1]
    # training steps
    losses = np.asarray(files.get('losses.npy', []))
    np_ = v['np']
    for t, x in enumerate(of('sample')[:len(losses)]):
        par, zs, ps, ws = x['s']
        h = np.asarray(hpar(traj[t], jnp.asarray(par)))
        items = [dict(par=encv(list(par[b])), hpar=encv(list(h[b])), zs=[encv(list(z)) for z in zs[b]], ps=[int(q) for q in ps[b]], ws=encv(list(ws[b].real)))
                 for b in range(len(par))]
        evs.append(dict(op='step', fn='random' if s['dropout'] else 'loss', v=rec_v(v), pm=pm, k=k, N=N, bounds=bounds, sets=s['sets'], points=s['points'],
                        items=items, loss=arr(losses[t:t + 1])))
        # the gradient the optimiser was given, and how the network changes along it
        if t in (0, 1, len(losses) - 1) and not s['dropout']:
            grads = of('update')[t]['g']
            n = float(np.linalg.norm(flat(grads).astype(float)))
            e = dict(op='grad', v=rec_v(v), pm=pm, k=k, N=N, size=enc(n), items=items, dirs=[])
            if np.isfinite(n) and n > 0:
                dh = np.asarray(hdir(traj[t], jax.tree_util.tree_map(lambda a: jnp.asarray(a / n, a.dtype), grads), jnp.asarray(par)))
                e['dirs'] = [encv(list(q)) for q in dh]
            evs.append(e)
    if s['dropout']:
        evs.append(dict(op='keys', distinct=len({tuple(np.ravel(x['key']).tolist()) for x in of('key')}), steps=len(of('update'))))
    # accuracy evaluations
    calls = []
    for c in of('sigma'):
        o = c['out'].reshape(-1)
        P_ = np.broadcast_to(c['par'], c['out'].shape + (np_,)).reshape(-1, np_)
        H = np.broadcast_to(c['h'], c['out'].shape + (N, N)).reshape(-1, N, N)
        calls += [dict(par=P_[i], h=H[i], out=o[i], count=c['count'], files=c['files']) for i in range(len(o))]

    def near(m):
        return [c for c in calls if np.allclose(c['par'], m, rtol=1e-6, atol=1e-6)]

    def pub(cs):
        return [dict(par=encv(list(c['par'])), h=encm(c['h']), out=enc(float(np.real(c['out']))), count=c['count']) for c in cs]
    val, vp = files.get('validation.npy'), files.get('validation_params.npy')
    if val is not None and vp is not None and val.ndim == 2 and val.shape[1] == len(vp):
        for r in range(len(val)):
            t = r * s['every'] + 1
            if t >= len(traj):
                break
            row = [[c for c in near(vp[i]) if c['out'] == val[r, i]] for i in range(len(vp))]
            disk = dict(losses=[], rows=[], params=-1)
            for cs in row[:1]:
                for c in cs[:1]:
                    f = c['files']
                    disk = dict(losses=encv(list(f.get('losses.npy', []))), rows=[encv(list(q)) for q in f.get('validation.npy', [])],
                                params=index_of(f.get('final.params')))
            evs.append(dict(op='log', r=r + 1, every=s['every'], row=arr(val[r]), calls=[pub(cs) for cs in row], vpar=[encv(list(p)) for p in vp],
                            hpar=[encv(list(q)) for q in np.asarray(hpar(traj[t], jnp.asarray(vp)))], N=N, count=s['sample'], disk=disk,
                            losses=encv(list(losses)), rows=[encv(list(q)) for q in val]))
    # grid
    fin = files.get('sigma_final.npz')
    if not s['eval']:
        evs.append(dict(op='nogrid', present=fin is not None or pdf))
    else:
        e = dict(op='grid', bounds=bounds, g=s['g'], N=N, count=s['sample'], grid=NONE, sigmas=NONE, calls=[], hpar=[], plots=pdf)
        if fin is not None:
            gr = fin['moduli_grid']
            e.update(grid=arr(gr), sigmas=arr(fin['sigmas']))
            ax = [np.linspace(-t[0] / t[2], t[0] / t[2], s['g']) for t in s['bounds'] for _ in range(2)]
            m = np.stack([a.reshape(-1) for a in np.meshgrid(*ax, indexing='ij')], -1)
            m = m[:, 0::2] + 1j * m[:, 1::2]
            h = np.asarray(hpar(traj[-1], jnp.asarray(m)))
            sg = np.asarray(fin['sigmas']).reshape(-1)
            e.update(calls=[pub([c for c in near(q) if i < len(sg) and c['out'] == sg[i]]) for i, q in enumerate(m)], hpar=[encv(list(q)) for q in h])
        evs.append(e)
        if fin is not None:
            sg = np.asarray(fin['sigmas'])
            for how in ('min', 'max', 'mean'):
                fig = [x for x in of('figure') if x['name'] == f'final-{how}.pdf']
                evs.append(dict(op='plot', fn=how, how=how, shape=list(sg.shape), A=encv([float(x) for x in sg.reshape(-1)]), ranges=bounds, lim=0, lo=enc(0.0),
                                hi=enc(0.0), tex=[sympy.latex(sympy.Symbol(n)) for n in PNAMES[:np_]], cells=fig[-1]['cells'] if fig else [], err='',
                                flat=bool(sg.min() == sg.max())))
    if s['again']:
        art = ('losses.npy', 'validation.npy', 'validation_params.npy')
        for fn, other in (('other', s),) if s['noseed'] else (('same', s), ('other', dict(s, seed=s['seed'] + 1))):
            r2, f2, _ = execute(other)
            evs.append(dict(op='again', fn=fn, err=err(r2['err'])['err'] if r2['err'] else '', first=[get(f) for f in art],
                            second=[arr(f2[f]) if f in f2 else NONE for f in art]))
    rec.trace(evs, s)
