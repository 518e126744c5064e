"""Ownership of the random source: a scripted jax random key type.

`install()` replaces the drawing functions of `jax.random` with versions that
are unchanged for ordinary keys, but that for keys of the "tape" type defined
here take the answer of each elementary draw from a script carried by the key.

A tape key holds an identifier (a pure function of the path of splits that made
it) and the script: pairs (draw identifier, answer). Everything is ordinary
traceable jax code, so scripted runs can be compiled, vmapped over scripts, and
go through scans, without the code under test knowing.

Answers:
- uniform: position v in [0, 1) of the draw in its interval;
- randint: idem, the integer is low + floor(v * (high - low));
- normal: the value itself;
- gamma: t >= 0 means "return t", t < 0 means "return -t times the shape".
Draws not mentioned in the script get a default answer which is a hash of the
draw identifier.
"""

import functools

import numpy as np
import jax
from jax import numpy as jnp
from jax.extend import random as xrandom
import jax.random as jr

LONG = 100 # length of a script from which it is sorted

VMAX = float(np.float32(1) - np.float32(2) ** -23)  # largest float32 uniform jax can return

U = jnp.uint32


def _fin(x):
    x = x ^ (x >> 16)
    x = x * np.uint32(0x7feb352d)
    x = x ^ (x >> 15)
    x = x * np.uint32(0x846ca68b)
    return x ^ (x >> 16)


def mix(a, b):
    """ hash of an id with an integer, works with numpy and jax """
    if not isinstance(a, jax.Array) and not isinstance(b, jax.Array):
        with np.errstate(over='ignore'):
            a = np.asarray(a, np.uint32)
            b = np.asarray(b, np.uint32)
            return _fin(_fin(a + np.uint32(0x9e3779b9)) ^ (b * np.uint32(0x85ebca6b) + np.uint32(0xc2b2ae35)))
    a = jnp.asarray(a).astype(jnp.uint32)
    b = jnp.asarray(b).astype(jnp.uint32)
    return _fin(_fin(a + np.uint32(0x9e3779b9)) ^ (b * np.uint32(0x85ebca6b) + np.uint32(0xc2b2ae35)))


class Recorder:
    """ log of key derivations and draws """

    def __init__(self):
        self.events = []
        self.site = 0

    def add(self, op, kind, site, *arrays):
        self.events.append((op, kind, site) + tuple(np.array(a) for a in arrays))


REC = None


def _record(op, kind, *arrays):
    rec = REC
    if rec is None:
        return
    site = rec.site
    rec.site += 1
    jax.debug.callback(functools.partial(rec.add, op, kind, site), *arrays)


class record:
    """ context manager recording events; functions must be traced inside """

    def __enter__(self):
        global REC
        self.old = REC
        REC = Recorder()
        self.rec = REC
        return self.rec

    def __exit__(self, *exc):
        global REC
        REC = self.old
        jax.effects_barrier()


@functools.lru_cache(None)
def _impl(k):
    """ the tape key type with room for a script of length k """

    def seed(s):
        i = mix(jnp.asarray(s).astype(jnp.uint32), 0x5eed)
        return jnp.concatenate([i[None], jnp.zeros(2 * k, jnp.uint32)])

    def split(data, shape):
        _record('split', 'split', data[0])
        n = int(np.prod(shape, dtype=int))
        ids = mix(data[0], jnp.arange(1, n + 1, dtype=jnp.uint32))
        out = jnp.concatenate([ids[:, None], jnp.broadcast_to(data[1:], (n, 2 * k))], axis=1)
        return out.reshape(tuple(shape) + (1 + 2 * k,))

    def fold_in(data, x):
        _record('fold_in', 'fold_in', data[0], jnp.asarray(x))
        i = mix(data[0] ^ np.uint32(0xf01d), jnp.asarray(x).astype(jnp.uint32))
        return jnp.concatenate([i[None], data[1:]])

    def random_bits(data, width, shape):
        n = int(np.prod(shape, dtype=int))
        _record('draw', 'bits', data[0])
        ids = mix(data[0] ^ np.uint32(0xb175), jnp.arange(n, dtype=jnp.uint32))
        if width == 64:
            hi = mix(ids, 7).astype(jnp.uint64)
            return (hi << 32 | ids.astype(jnp.uint64)).reshape(shape)
        return (ids >> (32 - width)).astype(f'uint{width}').reshape(shape)

    return xrandom.define_prng_impl(key_shape=(1 + 2 * k,), seed=seed, split=split,
        random_bits=random_bits, fold_in=fold_in, name=f'tape{k}', tag='tape')


def make_key(root, slots=(), values=()):
    """ root: integer; slots: (k,) uint32; values: (k,) float32 """
    slots = jnp.asarray(slots, jnp.uint32).reshape(-1)
    values = jnp.asarray(values, jnp.float32).reshape(-1)
    if slots.size > LONG:
        order = jnp.argsort(slots)
        slots, values = slots[order], values[order]
    data = jnp.concatenate([
        mix(jnp.asarray(root).astype(jnp.uint32), 0x5eed)[None], slots,
        jax.lax.bitcast_convert_type(values, jnp.uint32),
    ])
    return jr.wrap_key_data(data, impl=_impl(slots.size))


def is_tape(key):
    try:
        if not jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
            return False
        return 'tape' in str(key.dtype)
    except (AttributeError, TypeError):
        return False


def _answers(key, kind, shape, default, *info):
    """ answers for all the elements of a draw """
    data = orig['key_data'](key)
    k = (data.shape[-1] - 1) // 2
    n = int(np.prod(shape, dtype=int))
    ids = mix(data[0] ^ np.uint32(0xd4a3), jnp.arange(n, dtype=jnp.uint32))
    _record('draw', kind, data[0], ids, *info)
    out = default(ids)
    if k:
        slots = data[1:1 + k]
        values = jax.lax.bitcast_convert_type(data[1 + k:], jnp.float32)
        if k > LONG: # sorted, see make_key
            i = jnp.minimum(jnp.searchsorted(slots, ids), k - 1)
            out = jnp.where(slots[i] == ids, values[i], out)
        else:
            match = ids[:, None] == slots
            val = jnp.sum(jnp.where(match, values, 0), axis=1)
            out = jnp.where(jnp.any(match, axis=1), val, out)
    return out.reshape(shape)


def _unit(ids):
    return (ids >> 9).astype(jnp.float32) * np.float32(2 ** -23)


def _default_normal(ids):
    return 3 * (_unit(mix(ids, 11)) - np.float32(0.5))


def _default_gamma(ids):
    return -(np.float32(0.5) + _unit(mix(ids, 12)))


orig = {}


def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0):
    if not is_tape(key):
        return orig['uniform'](key, shape, dtype, minval, maxval)
    dtype = jax.dtypes.canonicalize_dtype(dtype)
    lo = jnp.asarray(minval, dtype)
    hi = jnp.asarray(maxval, dtype)
    v = _answers(key, 'uniform', tuple(shape), _unit, lo, hi).astype(dtype)
    return jnp.maximum(lo, lo + v * (hi - lo))


def randint(key, shape, minval, maxval, dtype=int):
    if not is_tape(key):
        return orig['randint'](key, shape, minval, maxval, dtype)
    dtype = jax.dtypes.canonicalize_dtype(dtype)
    lo = jnp.asarray(minval)
    hi = jnp.asarray(maxval)
    v = _answers(key, 'randint', tuple(shape), _unit, lo, hi)
    lo = lo.astype(dtype)
    hi = hi.astype(dtype)
    span = hi - lo
    off = jnp.floor(v * span.astype(jnp.float32)).astype(dtype)
    off = jnp.clip(off, 0, jnp.maximum(span - 1, 0))
    return lo + off


def normal(key, shape=(), dtype=float):
    if not is_tape(key):
        return orig['normal'](key, shape, dtype)
    dtype = jax.dtypes.canonicalize_dtype(dtype)
    return _answers(key, 'normal', tuple(shape), _default_normal).astype(dtype)


def gamma(key, a, shape=None, dtype=float):
    if not is_tape(key):
        return orig['gamma'](key, a, shape, dtype)
    dtype = jax.dtypes.canonicalize_dtype(dtype)
    a = jnp.asarray(a, dtype)
    if shape is None:
        shape = a.shape
    t = _answers(key, 'gamma', tuple(shape), _default_gamma, a)
    return jnp.where(t >= 0, t, -t * a).astype(dtype)


def loggamma(key, a, shape=None, dtype=float):
    if not is_tape(key):
        return orig['loggamma'](key, a, shape, dtype)
    return jnp.log(gamma(key, a, shape, dtype))


def chisquare(key, df, shape=None, dtype=float):
    if not is_tape(key):
        return orig['chisquare'](key, df, shape, dtype)
    return 2 * gamma(key, jnp.asarray(df) / 2, shape, dtype)


def bernoulli(key, p=0.5, shape=None):
    if not is_tape(key):
        return orig['bernoulli'](key, p, shape)
    if shape is None:
        shape = jnp.shape(p)
    return uniform(key, shape) < p


def exponential(key, shape=(), dtype=float):
    if not is_tape(key):
        return orig['exponential'](key, shape, dtype)
    return -jnp.log1p(-uniform(key, shape, dtype))


def gumbel(key, shape=(), dtype=float, **kw):
    if not is_tape(key):
        return orig['gumbel'](key, shape, dtype, **kw)
    return -jnp.log(-jnp.log(jnp.maximum(uniform(key, shape, dtype), 1e-30)))


def _discrete(key, shape, p):
    """ indices with probability proportional to p, along the last axis """
    ecdf = jnp.cumsum(p, axis=-1)
    u = uniform(key, shape) * ecdf[..., -1]
    index = jnp.sum(ecdf <= u[..., None], axis=-1)
    return jnp.minimum(index, p.shape[-1] - 1)


def categorical(key, logits, axis=-1, shape=None, **kw):
    if not is_tape(key):
        return orig['categorical'](key, logits, axis, shape, **kw)
    logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
    top = jnp.max(logits, axis=-1, keepdims=True)
    p = jnp.exp(logits - jnp.where(jnp.isfinite(top), top, 0))
    return _discrete(key, logits.shape[:-1] if shape is None else tuple(shape), p)


def choice(key, a, shape=(), replace=True, p=None, axis=0, **kw):
    if not is_tape(key) or not replace and np.prod(shape, dtype=int) > 1:
        return orig['choice'](key, a, shape, replace, p, axis, **kw)
    n = a if jnp.ndim(a) == 0 else jnp.shape(a)[axis]
    i = randint(key, shape, 0, n) if p is None else _discrete(key, shape, jnp.asarray(p))
    return i if jnp.ndim(a) == 0 else jnp.take(a, i, axis)


def install():
    """ patch jax.random; call before importing the code under test """
    if orig:
        return
    orig['key_data'] = jr.key_data
    for f in (uniform, randint, normal, gamma, loggamma, chisquare, bernoulli, exponential, gumbel, categorical, choice):
        orig[f.__name__] = getattr(jr, f.__name__)
        setattr(jr, f.__name__, functools.wraps(orig[f.__name__])(f))
