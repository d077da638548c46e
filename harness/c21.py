"""Random samplers: forms, regions, reproducibility, moments."""
from lib import *
jax, jnp = jnp64()
import cyjax
from cyjax import random as R


def run(scn, rec):
    for s in scn:
        globals()['do_' + s['op']](s, rec)


def key(k):
    return jax.random.PRNGKey(k)


def three(fn, k):
    return dict(out=attempt(fn, key(k)), again=attempt(fn, key(k)), other=attempt(fn, key(k + 1)))


def do_range(s, rec):
    sh = tuple(s['shape'])
    lo, hi = s['lo'] / 4, s['hi'] / 4
    fn = {'components': lambda k: R.uniform_components(k, sh), 'unit': lambda k: R.uniform_angle_unit(k, sh),
          'disk': lambda k: R.uniform_angle(k, sh), 'annulus': lambda k: R.uniform_angle(k, sh, lo, hi),
          'rsphere': lambda k: R.real_sphere(k, sh), 'csphere': lambda k: R.complex_sphere(k, sh)}[s['fn']]
    n = sh[-1] if sh else 1
    fixed = (s['fn'] == 'rsphere' and n == 1) or (s['fn'] in ('rsphere', 'csphere') and not sh)
    rec.trace([dict(op='range', fn=s['fn'], shape=list(sh), lo=s['lo'], hi=s['hi'], fixed=fixed, **three(fn, s['key']))], s)


def do_projective(s, rec):
    c, d = s['count'], s['dim']
    t = three(lambda k: R.uniform_projective(k, c, d, affine=False), s['key'])
    try:
        a, p = R.uniform_projective(key(s['key']), c, d)
        aff, patch = arr(a), iarr(p)
    except Exception as e:
        aff = patch = err(f'{type(e).__name__}: {e}')
    rec.trace([dict(op='projective', count=c, dim=d, fixed=False, aff=aff, patch=patch, **t)], s)


def do_overlap(s, rec):
    c, d = s['count'], s['dim']
    t = three(lambda k: R.projective_overlap(k, c, d, s['p'], s['q'], s['size'] / 8), s['key'])
    rec.trace([dict(op='overlap', count=c, dim=d, p=s['p'], q=s['q'], size=s['size'], fixed=False, **t)], s)


def stats(s):
    N, k, fn = s['N'], key(s['key']), s['fn']
    m = lambda x: math.fsum(np.asarray(x, float).reshape(-1).tolist()) / np.size(x)
    if fn == 'components':
        z = np.asarray(R.uniform_components(k, (N, 2)))
        w, z = z[:, 1], z[:, 0]
        nx = np.roll(z, 1)
        return dict(re=m(z.real), im=m(z.imag), re2=m(z.real ** 2), im2=m(z.imag ** 2), reim=m(z.real * z.imag), re4=m(z.real ** 4),
                    lag=m(z.real * nx.real), lagx=m(z.imag * nx.real), col=m(z.real * w.real))
    if fn in ('annulus', 'unit'):
        z = np.asarray(R.uniform_angle(k, (N, 2), s['a'] / 4, s['b'] / 4) if fn == 'annulus' else R.uniform_angle_unit(k, (N, 2)))
        w, z = z[:, 1], z[:, 0]
        nx = np.roll(z, 1).conj()
        u = abs(z) ** 2
        return dict(u=m(u), u2=m(u ** 2), re=m(z.real), im=m(z.imag), dd=m(z.real ** 2 - z.imag ** 2), reim=m(z.real * z.imag),
                    ure=m(u * z.real), lag=m((z * nx).real), lagi=m((z * nx).imag), col=m((z * w.conj()).real))
    if fn == 'rsphere':
        x = np.asarray(R.real_sphere(k, (N, s['n'])))
        a = x[:, 0]
        d = dict(x=m(a), x2=m(a ** 2), x4=m(a ** 4), xl2=m(x[:, -1] ** 2), lag=m(np.sum(x * np.roll(x, 1, 0), 1)))
        if s['n'] > 1:
            b = x[:, -1]
            d.update(xy=m(a * b), x3y=m(a ** 3 * b))
        return d
    if fn == 'csphere':
        z = np.asarray(R.complex_sphere(k, (N, s['n'])))
    elif fn == 'projhom':
        z = np.asarray(R.uniform_projective(k, N, s['n'], affine=False))
    elif fn == 'projaff':
        a, p = R.uniform_projective(k, N, s['n'])
        a, p = np.asarray(a), np.asarray(p)
        z = np.stack([np.insert(x, i, 1) for x, i in zip(a, p)])
    if fn != 'overlap':
        z = z / np.linalg.norm(z, axis=1, keepdims=True)
        a, b = z[:, 0], z[:, -1]
        d = dict(u=m(abs(a) ** 2), ul=m(abs(b) ** 2), u2=m(abs(a) ** 4), lag=m(abs(np.sum(z * np.roll(z, 1, 0).conj(), 1)) ** 2))
        if z.shape[1] > 1:
            d.update(zwc=m((a * b.conj()).real), zwci=m((a * b.conj()).imag), uv=m(abs(a * b) ** 2))
        if fn == 'csphere':
            d.update(re=m(a.real), im=m(a.imag), zz=m((a * a).real), zzi=m((a * a).imag))
            if z.shape[1] > 1:
                d.update(zw=m((a * b).real))
        return d
    n, p, q, P = s['n'], s['p'], s['q'], s['a'] / 8
    z = np.asarray(R.projective_overlap(k, N, n, p, q, P))
    if s['key'] % 2:  # judge the same statistics in the other chart
        h = np.insert(z, p, 1, axis=1)
        z = np.delete(h / h[:, q:q + 1], q, axis=1)
        p, q = q, p
    o = q - 1 if q > p else q
    r = abs(z[:, o])
    l = np.log(r)
    ph = z[:, o] / r
    d = dict(l=m(l), l2=m(l ** 2), cph=m(ph.real), lag=m((ph * np.roll(ph, 1).conj()).real))
    if n > 1:
        rest = np.delete(z, o, axis=1)
        rm = P * np.minimum(1, r)
        x, y = rest[:, 0], rest[:, -1]
        qx, qy = abs(x) ** 2 / rm ** 2, abs(y) ** 2 / rm ** 2
        t = x / abs(x)
        d.update(q=m(qx), q2=m(qx ** 2), ql=m(qy), lq=m(l * (qx - .5)), cth=m(t.real), sth=m(t.imag), cdf=m((t * ph.conj()).real))
        if n > 2:
            d.update(qq=m((qx - .5) * (qy - .5)))
    return d


def do_stat(s, rec):
    try:
        d, e = stats(s), ''
    except Exception as x:
        d, e = {}, err(x)['err']
    rec.trace([dict(op='stat', fn=s['fn'], a=s['a'], b=s['b'], n=s['n'], N=s['N'], names=list(d), vals=[enc(v) for v in d.values()], err=e)], s)
