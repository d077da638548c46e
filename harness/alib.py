"""Inputs and calls for the algebraic metric checks."""
from vlib import *
from cyjax import donaldson as D

_b = {}


def basis(v, k, red, par=None):
    key = json.dumps([v, k, red, repr(par)], sort_keys=True)
    if key not in _b:
        _b[key] = D.MonomialBasisReduced(variety(v), k, par) if red else D.MonomialBasisFull(v['n'] - 1, k)
    return _b[key]


def rows(b):
    return [[int(i) for i in r] for r in np.asarray(b.power_matrix)]


def hmat(h):
    d, u, w = gvec(h['d']), gvec(h['u']), gvec(h['w'])
    return np.diag(d) + np.outer(u, u.conj()) + np.outer(w, w.conj())


def flipped(x):
    """Matrix with every other diagonal part made negative."""
    h = hmat(x)
    i = np.arange(len(h))[::2]
    h[i, i] -= 2 * gvec(x['d'])[i]
    return h


HL = {0: (), 1: (3,), 2: (2, 3)}


def bcm(*shapes):
    r = ()
    for s in shapes:
        r = bc(r, s)
    return r


def homog(z, p, c):
    return np.insert(z, p, 1) * c
