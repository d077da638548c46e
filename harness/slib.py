"""Varieties that record every sample drawn from them."""
from alib import *

_k = {}


def recording(v):
    """A variety like variety(v) whose samples are recorded in .log; .inject makes some weights non-finite."""
    key = json.dumps(v, sort_keys=True)
    if key in _k:
        return _k[key]
    base = variety(v)

    class Recording(type(base)):
        log = []
        inject = None

        def sample_intersect_weights(self, zs, *a, **k):
            w = super().sample_intersect_weights(zs, *a, **k)
            return w if k.get('separate') else self._spoil(zs, w)

        def _spoil(self, zs, w):
            if not self.inject:
                return w
            bad = dict(nan=jnp.nan, inf=jnp.inf, neginf=-jnp.inf)[self.inject]
            return jnp.where(zs[..., 0].real > 0.25, bad, w)

        def sample_intersect(self, key, params, count, affine=False, weights=False):
            r = super().sample_intersect(key, params, count, affine, weights)
            pts, w = r if weights else (r, None)
            if affine:
                zs, p = pts
            else:
                zs, p = cyjax.hom_to_affine(pts)
            if w is None:
                w = self.sample_intersect_weights(zs, params, p)
            else:  # also if the weights were not computed by the method above
                w = self._spoil(zs, w)
                r = (pts, w)
            par = jnp.zeros(0) if params is None else params
            jax.debug.callback(self._store, key, par, zs, p, w)
            return r

        def _store(self, key, par, zs, p, w):
            self.log.append(tuple(np.asarray(a) for a in (key, par, zs, p, w)))

        def take_log(self):
            jax.effects_barrier()
            out = list(self.log)
            self.log.clear()
            return out
    o = Recording.__new__(Recording)
    o.__dict__.update(base.__dict__)
    Recording.log = []
    _k[key] = o
    return o


def rec_batch(entry):
    _, _, zs, p, w = entry
    return [dict(z=encv(z), p=int(q), w=enc(x)) for z, q, x in zip(zs, p, w)]
