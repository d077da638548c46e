"""Plots of the training script."""
from figlib import *
import importlib.util
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

_script = []


def script():
    if not _script:
        f = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'scripts', 'train.py')
        sp = importlib.util.spec_from_file_location('train_script', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        _script.append(m)
    return _script[0]


def run(scn, rec):
    for s in scn:
        A = np.array([g(x).real for x in s['A']]).reshape(s['shape'])
        r = [g(x).real for x in s['ranges']]
        names = [sympy.Symbol(n) for n in s['names']]
        e = dict(op='plot', fn=s['how'], how=s['how'], shape=s['shape'], A=encv([float(x) for x in A.reshape(-1)]), ranges=encv(r), lim=s['lim'],
                 lo=enc(g(s['lo']).real), hi=enc(g(s['hi']).real), tex=[sympy.latex(n) for n in names], cells=[], err='', same=True, spill=0, flat=bool(A.min() == A.max()))
        kw = {}
        if s['how'] != 'default':
            kw['marg2d'] = getattr(np, s['how'])
        if s['lim'] in (1, 3):
            kw['vmin'] = g(s['lo']).real
        if s['lim'] in (2, 3):
            kw['vmax'] = g(s['hi']).real
        plt.close('all')
        try:
            other = None
            if s['fig']:
                kw['fig'] = plt.figure(figsize=(6, 6))
            if s['fig'] == 2:
                other = plt.figure(figsize=(3, 3))
            fig = script().plot_accuracies(A, r, names, **kw)
            e['same'] = kw.get('fig', fig) is fig
            e['spill'] = 0 if other is None else len(other.axes)
            e['cells'] = cells(fig)
        except Exception as ex:
            e['err'] = err(f'{type(ex).__name__}: {ex}')['err']
        plt.close('all')
        rec.trace([e], s)
