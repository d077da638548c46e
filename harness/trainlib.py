"""Pieces given to the training script through its configuration; they record what the script does with them.

usage: trainlib.py SCRIPT OUT.pkl [arguments of the script]   (in the directory that shall hold the run)
"""
import os, pickle, runpy, sys, time
import numpy as np

LOG = []          # what happened, in order
MAX_STEPS = 60
STATE = dict(steps=0, model=None)


def note(kind, **k):
    LOG.append(dict(kind=kind, **k))


def snapshot():
    """The artefacts as they are on disk now."""
    out = {}
    for f in ('losses.npy', 'validation.npy', 'validation_params.npy'):
        if os.path.exists(f):
            out[f] = np.load(f)
    if os.path.exists('final.params'):
        out['final.params'] = open('final.params', 'rb').read()
    return out


def net(**k):
    import jax
    from cyjax import ml

    class Net(ml.HNetMLP):
        def __call__(self, moduli_params, deterministic=False):
            if not deterministic and self.has_rng('dropout'):
                jax.debug.callback(lambda key: note('key', key=np.asarray(key).tolist()), self.make_rng('dropout'))
            return super().__call__(moduli_params, deterministic)
    STATE['model'] = Net(**k)
    note('net', basis_size=int(STATE['model'].basis_size))
    return STATE['model']


def metric(**k):
    import jax
    from cyjax import donaldson

    class Metric(donaldson.AlgebraicMetric):
        def sigma_accuracy(self, key, params, h, count):
            r = super().sigma_accuracy(key, params, h, count)

            def store(p, h, r):
                note('sigma', par=np.asarray(p), h=np.asarray(h), out=np.asarray(r), count=int(count), files=snapshot())
            jax.debug.callback(store, params, h, r)
            return r
    m = Metric(**k)
    note('metric', degree=int(m.sections.degree), size=int(m.sections.size))
    STATE['metric'] = m
    return m


def opt(**k):
    import jax, optax
    inner = optax.adam(**k)

    def init(params):
        note('init', params=jax.tree_util.tree_map(np.asarray, params))
        return inner.init(params)

    def update(grads, state, params=None):
        u, state = inner.update(grads, state, params)
        jax.debug.callback(lambda u, g: note('update', u=jax.tree_util.tree_map(np.asarray, u), g=jax.tree_util.tree_map(np.asarray, g)), u, grads)
        return u, state
    return optax.GradientTransformation(init, update)


def main():
    script, out = sys.argv[1:3]
    sys.argv = [script] + sys.argv[3:]
    import trainlib as T  # the instance the configuration refers to
    T.LOG = LOG
    T.STATE = STATE
    import jax
    from cyjax import ml

    class Sampler(ml.BatchSampler):
        def __next__(self):
            if STATE['steps'] >= MAX_STEPS:
                raise RuntimeError('training does not end')
            s = super().__next__()
            STATE['steps'] += 1
            note('sample', s=tuple(np.asarray(a) for a in s))
            return s
    ml.BatchSampler = Sampler
    # every training step takes a minute
    base = {f: getattr(time, f)() for f in ('time', 'monotonic', 'perf_counter')}
    for f in base:
        setattr(time, f, lambda b=base[f]: b + 60.0 * STATE['steps'])
        setattr(time, f + '_ns', lambda b=base[f]: int((b + 60.0 * STATE['steps']) * 10 ** 9))
    from matplotlib.figure import Figure
    save = Figure.savefig

    def savefig(self, fname, *a, **k):
        from figlib import cells
        note('figure', name=os.path.basename(str(fname)), cells=cells(self))
        return save(self, fname, *a, **k)
    Figure.savefig = savefig
    err = ''
    try:
        runpy.run_path(script, run_name='__main__')
    except SystemExit as e:
        err = '' if not e.code else f'exit {e.code}'
    except Exception as e:
        err = f'{type(e).__name__}: {e}'
    jax.effects_barrier()
    pickle.dump(dict(log=LOG, err=err), open(out, 'wb'))


if __name__ == '__main__':
    main()
