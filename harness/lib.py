"""Common part of the conformance harness: executes scenarios on the public API and records traces."""
import json, math, os, sys
from fractions import Fraction
import numpy as np

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
THOROUGH = TIER == 'thorough'


# ---------------------------------------------------------------- numbers
def limbs(n):
    if n == 0:
        return [0]
    s, n = (1, n) if n > 0 else (-1, -n)
    out = [s]
    while n:
        out.append(n & 0x7fff)
        n >>= 15
    return out


def enc(x):
    """Exact encoding of a finite number; [] if not finite."""
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return [limbs(int(x)), [0], [1, 1]]
    if isinstance(x, Fraction):
        return [limbs(x.numerator), [0], limbs(x.denominator)]
    if isinstance(x, tuple):  # exact (Fraction, Fraction)
        re, im = x
        d = math.lcm(re.denominator, im.denominator)
        return [limbs(re.numerator * (d // re.denominator)),
                limbs(im.numerator * (d // im.denominator)), limbs(d)]
    x = complex(x)
    if not (math.isfinite(x.real) and math.isfinite(x.imag)):
        return []
    if x.real == 0 and x.imag == 0:
        return [[0], [0], [1, 1]]
    a, da = x.real.as_integer_ratio()
    b, db = x.imag.as_integer_ratio()
    d = max(da, db)
    return [limbs(a * (d // da)), limbs(b * (d // db)), limbs(d)]


def encv(xs):
    return [enc(x) for x in np.asarray(xs).reshape(-1).tolist()] if not isinstance(xs, list) else [enc(x) for x in xs]


def encm(m):
    return [encv(np.asarray(r)) for r in np.asarray(m)]


def g(t):
    """Scenario Gaussian rational [re, im, den] -> complex (exact for dyadic dens)."""
    s = 2.0 ** t[3] if len(t) > 3 else 1.0
    return complex(t[0] / t[2] * s, t[1] / t[2] * s)


def dec(x):
    """Exact number of the specification (limbs) -> complex."""
    def i(t):
        return t[0] * sum(l << (15 * k) for k, l in enumerate(t[1:]))
    d = i(x[2])
    return complex(Fraction(i(x[0]), d), Fraction(i(x[1]), d))


def gf(t):
    return (Fraction(t[0], t[2]), Fraction(t[1], t[2]))


def gvec(v):
    return np.array([g(t) for t in v], dtype=complex)


# ---------------------------------------------------------------- recording
def arr(a):
    """Record an array (numbers exact)."""
    a = np.asarray(a)
    return dict(err='', shape=[int(s) for s in a.shape], kind=a.dtype.kind,
                data=[enc(x) for x in a.reshape(-1).tolist()])


def iarr(a):
    """Record an array of machine integers (plain JSON integers)."""
    a = np.asarray(a)
    if a.dtype.kind not in 'iub':
        return err('not an integer array')
    return dict(err='', shape=[int(s) for s in a.shape], kind=a.dtype.kind,
                data=[int(x) for x in a.reshape(-1).tolist()])


def err(msg):
    msg = str(msg).strip().splitlines()
    msg = msg[0][:150] if msg else ''
    msg = ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '?' for c in msg)
    return dict(err=msg or 'error', shape=[], kind='', data=[])


def attempt(fn, *a, rec=arr, **k):
    """Call and record; an exception is a recorded outcome, not a harness error."""
    try:
        return rec(fn(*a, **k))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa
        return err(f'{type(e).__name__}: {e}')


class Recorder:
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0
        self.events = 0
        self.ops = {}
        self.src = open(path + '.src', 'w')  # the scenario of each trace

    def trace(self, events, scenario=None):
        self.n += 1
        self.events += len(events)
        for e in events:
            k = e['op'] + ('/' + str(e['fn']) if 'fn' in e else '')
            self.ops[k] = self.ops.get(k, 0) + 1
        self.f.write(json.dumps(dict(id=self.n, ev=events)) + '\n')
        self.f.flush()
        self.src.write(json.dumps(scenario) + '\n')
        self.src.flush()

    def close(self):
        self.f.close()
        self.src.close()


def jnp64():
    import jax
    jax.config.update('jax_enable_x64', True)
    import jax.numpy as jnp
    return jax, jnp


def bshape(lay):
    """Batch layouts used for two or three arguments: (result batch, shapes per argument)."""
    return {
        1: ((3,), [(3,), (), ()]),
        2: ((3,), [(), (3,), (3,)]),
        3: ((3,), [(3,), (3,), (3,)]),
        4: ((2, 3), [(2, 3), (2, 3), (2, 3)]),
        5: ((2, 3), [(2, 3), (), (3,)]),
        6: ((2, 3), [(2, 3), (3,), ()]),
        7: ((2, 3), [(3,), (2, 3), (3,)]),
    }[lay]


def take(items, shape):
    """First prod(shape) items as list and the array of that batch shape."""
    n = int(np.prod(shape)) if shape else 1
    items = items[:n]
    a = np.stack([np.asarray(i) for i in items])
    return items, a.reshape(tuple(shape) + a.shape[1:])
