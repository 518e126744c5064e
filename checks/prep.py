"""Data processing and generic helpers (C16, C17, C18, C23, C24, C30, C32), by enumeration of small inputs."""

import functools
import itertools
import math
import warnings

import numpy as np

from mc.harness import Result, THOROUGH


def lib():
    import jax
    from jax import numpy as jnp
    from bartz import jaxext, prepcovars, mcmcstep
    return jax, jnp, jaxext, prepcovars, mcmcstep


class budget:
    """ lower the memory budget of automatic batching inside the library """

    def __init__(self, nbytes):
        self.nbytes = nbytes

    def __enter__(self):
        jaxext = lib()[2]
        if self.nbytes is None:
            return
        self.orig = ab = jaxext.autobatch

        @functools.wraps(ab)
        def autobatch(func, max_io_nbytes, *args, **kw):
            return ab(func, self.nbytes, *args, **kw)
        jaxext.autobatch = autobatch
        lib()[0].clear_caches()
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('ignore')

    def __exit__(self, *a):
        if self.nbytes is not None:
            lib()[2].autobatch = self.orig
            lib()[0].clear_caches()
            self.w.__exit__(*a)


ALPH = {
    'uint8': (0, 1, 254, 255),
    'int8': (-128, -1, 0, 127),
    'int32': (-2 ** 31, -3, 4, 2 ** 31 - 1),
    'uint32': (0, 7, 2 ** 31, 2 ** 32 - 1),
    'uint16': (0, 3, 32768, 65535),
    'float32': (-3e38, -1.5, 0.25, 3.2e38),
    'float16': (-60000., 0., 1., 60000.),
}


E32 = 2. ** -23
CLOSE = {
    # values close to each other, or tiny
    'adjacent': (1., 1 + E32, 1 + 2 * E32, 1 + 2. ** -20),
    'spaced': (1., 1 + 8 * E32, 1 + 16 * E32, 1 + 2. ** -13),
    'tiny': (-1e-7, 0., 1e-30, 1e-12),
    'large': (1e6, 1e6 + 1, 1e6 + 2, 3e7),
}


def rows(alphabet, n):
    return np.array(list(itertools.product(alphabet, repeat=n))).reshape(len(alphabet) ** n, n)


def huge(dtype):
    return np.inf if 'float' in dtype else np.iinfo(dtype).max


def f64(a):
    a = np.asarray(a)
    return a.astype(np.float64)


# ------------------------------------------------------------------------- C24

def unique(dtype, n, close=None):
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    alph = CLOSE[close] if close else ALPH[dtype]
    if dtype == 'float32' and not close:
        alph = (-np.inf, -1.5, 3., np.inf)
    X = f64(np.asarray(rows(alph, n), dtype)) if close else rows(alph, n)
    uniq = [np.unique(x) for x in X]
    fills = (huge(dtype), alph[1], 5)
    for size in range(0, n + 3):
        for fill in fills if n in (2, 3) else fills[:1]:
            fill = np.asarray(fill, dtype)
            f = jax.jit(jax.vmap(lambda x: jaxext.unique(x, size, fill)))
            out, length = f(jnp.asarray(X, dtype))
            out, length = np.asarray(out), np.asarray(length)
            if not res.check(out.shape == (len(X), size) and out.dtype == dtype, f'unique returns {out.dtype}{out.shape[1:]} for size {size}'):
                continue
            for x, u, o, l in zip(X, uniq, out, length):
                m = min(len(u), size)
                want = np.concatenate([u[:m], np.full(size - m, fill)])
                if l != m or not np.array_equal(f64(o), f64(want.astype(dtype))):
                    res.violation(f'unique({x}, {size}, {fill}) gives {o}, {l} instead of {want}, {m}', dtype=dtype)
                    break
            res.count('transitions', len(X))
            # plain call and as in the documentation
            k = len(X) // 2
            o, l = jaxext.unique(jnp.asarray(X[k], dtype), size, fill)
            m = min(len(uniq[k]), size)
            res.check(int(l) == m and np.array_equal(np.asarray(o), out[k]) and o.dtype == dtype, f'plain call of unique differs for {X[k]} size {size}', got=o, length=l)
    res.count('states', len(X))
    res.count('traces_validated_against_impl', res.counts['transitions'])
    res.sample(dict(dtype=dtype, length=n, vectors=len(X), last=X[-1]))
    return res


def unique_long(n, nu):
    """ long vectors """
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    for dtype in ('float32', 'uint16', 'int32'):
        x = (np.arange(n) * 7919 % nu).astype(dtype)
        u = np.unique(x)
        for size in sorted({1, 2, len(u) - 1, len(u), len(u) + 1, n, n + 3}):
            o, l = jaxext.unique(jnp.asarray(x), size, huge(dtype))
            m = min(len(u), size)
            want = np.concatenate([u[:m], np.full(size - m, huge(dtype))])
            res.check(int(l) == m and np.array_equal(f64(o), f64(want)), f'unique wrong for {n} values, {nu} distinct, size {size}, {dtype}', length=l)
            res.count('transitions')
        res.count('states')
    res.count('traces_validated_against_impl', res.counts['transitions'])
    return res


def jobs_c24():
    j = [(unique, (d, n)) for d in ALPH for n in range(0, 6 if THOROUGH or d in ('uint8', 'float32') else 5)]
    j += [(unique, ('float32', n, c)) for c in CLOSE for n in (2, 4)]
    j += [(unique_long, a) for a in ((255, 255), (256, 256), (257, 257), (300, 20), (1000, 400))]
    if THOROUGH:
        j += [(unique_long, (70000, 66000))] + [(unique, (d, 6)) for d in ('uint8', 'int8', 'float32')]
    return j


# ------------------------------------------------------------------------- C16

def mid_ok(dtype, a, b, s):
    """ is s halfway between a and b in this type """
    if 'float' in dtype:
        m = (a + b) / 2
        ulp = float(np.spacing(np.asarray(abs(m), dtype)))
        return abs(s - m) <= ulp and a < s < b
    a, b, s = int(a), int(b), int(s)
    return s == a + (b - a) // 2


def check_quantiles(res, X, bins, splits, max_split, dtype):
    p, n = X.shape
    m = max(0, min(bins, n) - 1)
    S, M = np.asarray(splits), np.asarray(max_split)
    if not res.check(S.shape == (p, m) and M.shape == (p,), f'shapes {S.shape}, {M.shape} for {p} predictors, {n} observations, {bins} bins'):
        return
    if 'float' in dtype:
        res.check(S.dtype == dtype, f'cutpoints of type {S.dtype} for predictors of type {dtype}')
    res.check(M.dtype.kind == 'u' and np.iinfo(M.dtype).max >= m, f'type {M.dtype} for up to {m} cutpoints')
    S = S.astype(object) if S.dtype.kind in 'iu' else f64(S)
    hv = huge(dtype)
    for i in range(p):
        x = X[i].astype(np.float64) if 'float' in dtype else X[i].astype(object)
        u = sorted(set(x.tolist()))
        U = len(u)
        k = int(M[i])
        info = dict(x=X[i], bins=bins, splits=S[i].tolist(), max_split=k, dtype=dtype)
        want = max(0, min(U - 1, m))
        if not res.check(k == want, f'{k} cutpoints for {U} distinct values, {n} observations and {bins} bins', **info):
            return
        used = S[i][:k].tolist()
        ok = all(a < b for a, b in zip(used, used[1:]))
        if not res.check(ok, f'cutpoints {used} are not strictly increasing', **info):
            return
        if not res.check(all(s == hv for s in S[i][k:].tolist()), f'the unused cutpoints are {S[i][k:]}', **info):
            return
        pos = []
        for s in used:
            # number of distinct values at or below the cutpoint
            q = sum(1 for v in u if v <= s)
            if not (0 < q < U and mid_ok(dtype, u[q - 1], u[q], s)):
                res.violation(f'cutpoint {s} is not halfway between consecutive values of {u}', **info)
                return
            pos.append(q)
        sizes = np.diff([0] + pos + [U]) if U else []
        ideal = U / (k + 1)
        if not res.check(all(abs(z - ideal) < 1 + 1e-3 for z in sizes) and all(abs(q - (j + 1) * ideal) < 1 + 1e-3 for j, q in enumerate(pos)),
                         f'bins with {list(sizes)} distinct values', **info):
            return
    res.count('transitions', p)


def quantiles(dtype, n, close=None):
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    X = rows(CLOSE[close] if close else ALPH[dtype], n)
    for bins in range(1, n + 3):
        s, m = prepcovars.quantilized_splits_from_matrix(jnp.asarray(X, dtype), bins)
        check_quantiles(res, np.asarray(jnp.asarray(X, dtype)), bins, s, m, dtype)
        if len(res.violations):
            return res
    res.count('states', len(X))
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    res.sample(dict(dtype=dtype, n=n, rows=len(X), last=X[-1]))
    return res


def quantiles_many(n, dtype, binss):
    """ more observations; sizes at which types change width; decimation """
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    i = np.arange(n)
    R = [i, i[::-1] * 3, i // 2, i % 2, np.zeros(n, int), np.minimum(i, 3), i * 7919 % max(n, 1) // 3]
    X = np.array(R)
    if dtype in ('uint8', 'int8'):
        X = X % 120
    if 'float' in dtype:
        X = X * 0.5 - 20
    X = np.asarray(jnp.asarray(X, dtype))
    for bins in binss:
        s, m = prepcovars.quantilized_splits_from_matrix(jnp.asarray(X), bins)
        check_quantiles(res, X, bins, s, m, dtype)
        res.count('states', len(X))
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    return res


def quantiles_batched():
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    X = jnp.asarray(rows((0., 1., 2., 7.), 4)[:60])
    with budget(200):
        for p in (0, 1, 2, 7, 12, 60):
            s, m = prepcovars.quantilized_splits_from_matrix(X[:p], 3)
            check_quantiles(res, np.asarray(X[:p]), 3, s, m, 'float32')
            res.count('states', p)
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    return res


def jobs_c16():
    j = [(quantiles, (d, n)) for d in ALPH for n in (range(0, 6) if d in ('uint8', 'float32') or THOROUGH else range(0, 5))]
    j += [(quantiles, ('float32', n, c)) for c in CLOSE if c != 'adjacent' for n in (2, 4)]
    j += [(quantiles_many, (n, d, tuple(range(2, n + 3)))) for n, d in ((8, 'float32'), (13, 'int32'), (30, 'float32'))]
    j += [(quantiles_many, (n, 'float32', (2, 3, 100, 254, 255, 256, 257, 258, 300, 1000))) for n in (254, 255, 256, 257, 258, 300, 600)]
    j += [(quantiles_many, (n, 'int32', (2, 255, 256, 257, 258))) for n in (257, 300)]
    j += [(quantiles_many, (200, 'uint8', (2, 50, 255, 256, 257))), (quantiles_batched, ())]
    if THOROUGH:
        j += [(quantiles_many, (n, 'float32', (256, 65535, 65536, 65537))) for n in (65535, 65536, 65537, 70000)]
        j += [(quantiles_many, (n, 'float32', tuple(range(2, n + 2)))) for n in (61, 97)]
        j += [(quantiles, (d, 6)) for d in ('uint8', 'float32')]
    return j


# ------------------------------------------------------------------------- C17

def uniform(dtype, n, alph):
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    X = rows(alph, n)
    Xj = jnp.asarray(X, dtype)
    Xf = f64(Xj)
    for bins in (1, 2, 3, 4, 5, 7, 8, 10, 100, 255, 256, 257, 258, 300):
        if bins > 10 and n > 2:
            continue
        s, m = prepcovars.uniform_splits_from_matrix(Xj, bins)
        S, M = f64(s), np.asarray(m)
        p = len(X)
        if not res.check(S.shape == (p, bins - 1) and M.shape == (p,), f'shapes {S.shape}, {M.shape} for {bins} bins and {p} predictors'):
            continue
        res.check(np.all(M.astype(int) == bins - 1) and M.dtype.kind == 'u', f'reports {M} ({M.dtype}) cutpoints for {bins} bins')
        lo = Xf.min(1) if n else np.zeros(p)
        hi = Xf.max(1) if n else np.zeros(p)
        k = np.arange(1, bins)
        want = lo[:, None] * (1 - k / bins) + hi[:, None] * (k / bins)
        eps = float(np.finfo(s.dtype).eps)
        tol = 4 * eps * np.maximum(np.abs(lo), np.abs(hi))[:, None]
        err = np.abs(S - want)
        bad = np.argwhere(~(err <= tol))
        res.count('transitions', p)
        if len(bad):
            i, c = bad[0]
            res.violation(f'cutpoint {c + 1} of {bins} bins is {S[i, c]} instead of {want[i, c]}', x=X[i], dtype=dtype)
            continue
        wide = ((hi - lo) > 100 * bins * tol[:, 0]) if bins > 1 else np.zeros(p, bool)
        if wide.any():
            Sw = np.concatenate([lo[wide, None], S[wide], hi[wide, None]], 1)
            res.check(np.all(np.diff(Sw, axis=1) > 0), f'grid of {bins} bins not strictly between the observed values')
    res.count('states', len(X))
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    res.sample(dict(dtype=dtype, n=n, rows=len(X)))
    return res


def jobs_c17():
    A = {'float32': (-3e38, -1.5, 0.25, 1e38), 'int32': (-1000, -3, 4, 100000), 'uint8': (0, 1, 200, 255), 'int8': (-128, -1, 0, 127), 'uint16': (0, 3, 40000, 65535), 'uint32': (0, 1, 2 ** 31, 2 ** 32 - 1), 'float16': (-6e4, 0., 1., 6e4)}
    j = [(uniform, (d, n, a)) for d, a in A.items() for n in (0, 1, 2, 3, 4) if n < 4 or d in ('float32', 'uint8') or THOROUGH]
    j += [(uniform, ('float32', 3, (-.75, .125, 1e-3, 1e3, 17.)))]
    if THOROUGH:
        j += [(uniform, ('float32', 5, (-2., 1., 9., 100.))), (uniform_wide, ())]
    return j


def uniform_wide():
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    for bins in (65535, 65536, 65537, 70000):
        s, m = prepcovars.uniform_splits_from_matrix(jnp.asarray([[0., 1.], [-4., 12.]]), bins)
        res.check(np.all(np.asarray(m).astype(int) == bins - 1) and s.shape == (2, bins - 1), f'{bins} bins')
        k = np.arange(1, bins) / bins
        res.check(np.allclose(f64(s), np.stack([k, 16 * k - 4]), atol=1e-5), f'{bins} bins: wrong grid')
        res.count('states')
        res.count('transitions')
        res.count('traces_validated_against_impl')
    return res


# ------------------------------------------------------------------------- C18

def np_bins(X, S):
    """ number of cutpoints strictly below each value """
    return np.sum(S[:, None, :] < X[:, :, None], axis=2)


def binning(dtype, m, method, nbytes, sdtype=None):
    """ every increasing row of cutpoints with padding, every value """
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    sdtype = sdtype or dtype
    if 'float' in dtype:
        cuts = (-1e30, -1., 0.5, 2., 3e4 if dtype == 'float16' else 1e30)
        vals = (-np.inf, -1e30, -1.0001, -1., -.9, 0., 0.5, 0.6, 2., 2.5, 1e30, np.inf)
        if dtype == 'float16':
            cuts = (-3e4,) + cuts[1:]
            vals = tuple(np.clip(v, -3e4, 3e4) if np.isfinite(v) else v for v in vals)
    else:
        i = np.iinfo(dtype)
        cuts = (i.min, i.min + 1, 0 if i.min < 0 else 5, i.max - 1, i.max - 2)
        vals = tuple(sorted({c + d for c in cuts for d in (-1, 0, 1) if i.min <= c + d <= i.max} | {i.max, i.min}))
        if sdtype != dtype:
            cuts = tuple(c + .5 if c < i.max else c for c in cuts) + (0.25,)
    pad = huge(sdtype)
    R = []
    for k in range(0, m + 1):
        for c in itertools.combinations(sorted(set(cuts)), k):
            R.append(list(c) + [pad] * (m - k))
    S = np.array(R, object).reshape(len(R), m)
    K = np.array([sum(c != pad for c in r) for r in R])
    Sj = jnp.asarray(S.astype(sdtype))
    Xj = jnp.asarray(np.tile(np.array(vals).astype(dtype), (len(R), 1)))
    kw = {} if method is None else dict(method=method)
    with budget(nbytes):
        got = prepcovars.bin_predictors(Xj, Sj, **kw)
        empty = prepcovars.bin_predictors(Xj[:, :0], Sj, **kw)
    Xo = np.asarray(Xj).astype(np.float64) if 'float' in sdtype else np.asarray(Xj).astype(object)
    So = np.asarray(Sj).astype(np.float64) if 'float' in sdtype else np.asarray(Sj).astype(object)
    want = np_bins(Xo, So).astype(int)
    G = np.asarray(got)
    res.check(empty.shape == (len(R), 0), f'shape {empty.shape} for no observations')
    if res.check(G.shape == want.shape and G.dtype.kind == 'u', f'bins are {G.dtype}{G.shape}'):
        bad = np.argwhere(G.astype(int) != want)
        res.count('transitions', G.size)
        if len(bad):
            a, b = bad[0]
            res.violation(f'value {vals[b]} with cutpoints {R[a]} is put in bin {G[a, b]} instead of {want[a, b]}', dtype=dtype, method=str(method), budget=nbytes)
        if 'float' not in dtype and sdtype == dtype:
            pass
        over = G.astype(int) > K[:, None]
        res.check(not over.any(), 'bin beyond the number of cutpoints in use', where=np.argwhere(over)[:3])
    res.count('states', len(R))
    res.count('traces_validated_against_impl', G.size)
    res.sample(dict(dtype=dtype, m=m, rows=len(R), values=vals, method=str(method)))
    return res


def binning_wide(m):
    """ many cutpoints """
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    S = np.stack([np.arange(m), np.arange(m) * 2.0])
    vals = np.concatenate([np.arange(m) - .5, np.arange(m), [m, m - .5, 2 * m, -1, np.inf, -np.inf]])
    X = np.stack([vals, vals])
    for method in (None, 'sort', 'compare_all') if m < 1000 else (None,):
        kw = {} if method is None else dict(method=method)
        G = np.asarray(prepcovars.bin_predictors(jnp.asarray(X, 'float32'), jnp.asarray(S, 'float32'), **kw))
        want = np.stack([np.searchsorted(s, v) for s, v in zip(S, X)])
        res.check(np.array_equal(G.astype(int), want), f'wrong bins with {m} cutpoints', dtype=str(G.dtype))
        res.check(np.iinfo(G.dtype).max >= m, f'type {G.dtype} for {m} cutpoints')
        res.count('transitions', G.size)
    res.count('states')
    res.count('traces_validated_against_impl')
    return res


def binning_quantile_roundtrip(dtype, n):
    """ with quantile cutpoints, distinct values end up in distinct bins, in order """
    jax, jnp, _, prepcovars, _ = lib()
    res = Result()
    alph = ALPH[dtype]
    X = rows(alph, n)
    Xj = jnp.asarray(X, dtype)
    Xn = np.asarray(Xj)
    for bins in (n, n + 5):
        s, m = prepcovars.quantilized_splits_from_matrix(Xj, bins)
        G = np.asarray(prepcovars.bin_predictors(Xj, s)).astype(int)
        for i in range(len(X)):
            u, inv = np.unique(Xn[i], return_inverse=True)
            if not np.array_equal(G[i], inv):
                res.violation(f'values {X[i]} are binned as {G[i]}', splits=np.asarray(s)[i])
                break
        res.check(np.all(G <= np.asarray(m)[:, None]), 'bin beyond the number of cutpoints')
        res.count('transitions', len(X))
    res.count('states', len(X))
    res.count('traces_validated_against_impl', len(X))
    return res


def jobs_c18():
    j = []
    for d in ALPH:
        for m in (0, 1, 2, 3, 4):
            for meth in (None, 'sort', 'compare_all', 'scan_unrolled') if d in ('uint8', 'float32') else (None, 'scan'):
                j.append((binning, (d, m, meth, None)))
    j += [(binning, (d, 3, None, b)) for d in ('uint8', 'float32') for b in (1, 40, 300)]
    j += [(binning, (d, 3, None, None, 'float32')) for d in ('uint8', 'int8')]
    j += [(binning_wide, (m,)) for m in (127, 128, 254, 255, 256, 257, 300)]
    j += [(binning_quantile_roundtrip, (d, n)) for d in ALPH for n in (1, 2, 3, 4)]
    if THOROUGH:
        j += [(binning_wide, (m,)) for m in (65534, 65535, 65536, 65537)]
        j += [(binning, (d, 5, None, b)) for d in ALPH for b in (None, 100)]
        j += [(binning_quantile_roundtrip, (d, 6)) for d in ('uint8', 'float32')]
    return j


# ------------------------------------------------------------------------- C23

def layouts():
    """ name -> (function, list of (shape builder, dtype, axis), in_axes, out_axes, per-element bytes of outputs builder) """
    from jax import numpy as jnp
    L = {}

    def add(name, f, shapes, in_axes, out_axes):
        L[name] = (f, shapes, in_axes, out_axes)

    # shapes: function of the batched size, returning the tuple of arguments as (shape, dtype) leaves
    add('1d', lambda x: x * 2 + 1, lambda n: (((n,), 'float32'),), 0, 0)
    add('axis1', lambda x: x.astype('int32') + 1, lambda n: (((3, n), 'uint8'),), 1, 1)
    add('neg', lambda x: x[::-1] * 3, lambda n: (((2, n), 'float32'),), -1, -1)
    add('transposing', lambda x: jnp.swapaxes(x, 0, 1) * 2., lambda n: (((n, 3), 'float32'),), 0, 1)
    add('reduce', lambda x: x.sum(1), lambda n: (((n, 4), 'float32'),), 0, 0)
    add('outer', lambda x, y: x[:, None] * y, lambda n: (((n,), 'float32'), ((5,), 'float32')), (0, None), 0)
    add('unbatched-first', lambda y, x: x * y.sum(), lambda n: (((4,), 'float32'), ((2, n), 'float32')), (None, 1), 1)
    add('two', lambda x, y: (x + 1, (y * 2, x.sum(0))), lambda n: (((2, n), 'float32'), ((n, 3), 'int32')), (1, 0), (1, (0, 0)))
    add('dict', lambda d: dict(a=d['x'] + d['y'][0], b=d['x'].astype('uint8')), lambda n: (dict(x=((n,), 'float32'), y=((2, n), 'float32')),), (dict(x=0, y=1),), dict(a=0, b=0))
    add('nested-none', lambda d, z: d[0] * d[1].sum() + z, lambda n: ((((n, 2), 'float32'), ((3,), 'float32')), ((n, 2), 'float32')), ((0, None), 0), 0)
    add('empty-other', lambda x: x + 1, lambda n: (((n, 0), 'float32'),), 0, 0)
    add('deep', lambda x: jnp.moveaxis(x, 2, 0) + 0, lambda n: (((2, 2, n), 'float32'),), 2, 0)
    return L


def isleaf(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], str)


def axis_leaves(axes, tree, jax):
    flat = jax.tree_util.tree_leaves(tree, is_leaf=lambda x: x is None)
    if isinstance(axes, int):
        return [axes] * len(flat)
    return jax.tree_util.tree_leaves(axes, is_leaf=lambda x: x is None)


def batching(name, sizes):
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    f, shapes, in_axes, out_axes = layouts()[name]
    for n in sizes:
        spec = shapes(n)
        count = [0]

        def make(s):
            shape, dt = s
            count[0] += 13
            a = (np.arange(int(np.prod(shape))) * 7 + count[0]) % 101
            return jnp.asarray(a.reshape(shape), dt)
        args = jax.tree_util.tree_map(make, spec, is_leaf=isleaf)
        want = f(*args)
        leaves = jax.tree_util.tree_leaves(args)
        ax = axis_leaves(in_axes, args, jax)
        batched = [(x, a) for x, a in zip(leaves, ax) if a is not None]
        outl = jax.tree_util.tree_leaves(want)
        total = sum(x.size * x.dtype.itemsize for x, _ in batched) + sum(x.size * x.dtype.itemsize for x in outl)
        per = total // n if n else 0
        budgets = sorted({1, max(1, per - 1), max(1, per), per + 1, 2 * per + 1, max(1, 3 * per), max(1, total // 2), max(1, total // 2 - 1), max(1, total - 1), max(1, total), total + 1, 10 ** 9})
        if THOROUGH:
            budgets = sorted(set(budgets) | {max(1, per * k) for k in range(1, n + 1)} | {max(1, per * k - 1) for k in range(1, n + 1)})
        for b in budgets:
            for ret in (False, True):
                if ret and not THOROUGH and (b + n) % 2:
                    continue
                seen = []

                def g(*a):
                    seen.append([x.shape for x in jax.tree_util.tree_leaves(a)])
                    return f(*a)
                info = dict(layout=name, size=n, budget=b, total=total)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    kw = dict(return_nbatches=True) if ret else {}
                    try:
                        out = jaxext.autobatch(g, b, in_axes, out_axes, **kw)(*args)
                    except Exception as e:
                        res.violation(f'autobatch fails: {type(e).__name__} {str(e)[:200]}', **info)
                        continue
                res.count('transitions')
                nb = None
                if ret:
                    out, nb = out
                    nb = int(nb)
                st = jax.tree_util.tree_structure
                if not res.check(st(out) == st(want), 'autobatch changes the structure of the result', **info):
                    continue
                for o, x in zip(jax.tree_util.tree_leaves(out), outl):
                    res.check(o.shape == x.shape and o.dtype == x.dtype, f'autobatch returns {o.dtype}{o.shape} instead of {x.dtype}{x.shape}', **info)
                    if o.shape == x.shape:
                        res.check(np.array_equal(np.asarray(o), np.asarray(x)), 'autobatch changes the values', got=o, want=x, **info)
                # batches actually used: the smallest extent along the batched axis seen by the function
                k = ax.index(next(a for a in ax if a is not None))
                ext = [s[k][ax[k]] for s in seen]
                bs = ext[-1]
                if n:
                    if not res.check(bs > 0 and n % bs == 0, f'function evaluated on {bs} of {n} elements', **info):
                        continue
                    size_ok = per * bs <= b
                    warned = len(w) > 0
                    if size_ok:
                        res.check(not warned, 'warns although the batches fit the budget', **info)
                    else:
                        res.check(bs == 1, f'batches of {bs} elements take {per * bs} bytes', **info)
                        res.check(warned, 'no warning although a single element exceeds the budget', **info)
                    if ret:
                        res.check(nb == n // bs, f'{nb} batches reported, {n // bs} used', **info)
                elif ret:
                    res.check(nb is not None and nb >= 0, 'number of batches', **info)
                # unbatched arguments are passed whole
                for i, a in enumerate(ax):
                    if a is None:
                        res.check(seen[-1][i] == leaves[i].shape, 'unbatched argument modified', **info)
        res.count('states', len(budgets))
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    res.sample(dict(layout=name, sizes=sizes))
    return res


def bad_layouts():
    """ inconsistent sizes along the batched axes are refused """
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    f = lambda x, y: x.sum() + y
    for a, b in itertools.product(range(4), repeat=2):
        try:
            out = jaxext.autobatch(lambda x, y: x * 1. + y.sum(), 1000, (0, 0), 0)(jnp.zeros(a), jnp.zeros(b))
            ok = a == b
        except Exception:
            ok = a != b
        res.check(ok, f'batched sizes {a} and {b}')
        res.count('transitions')
    res.count('states', 16)
    res.count('traces_validated_against_impl', 16)
    return res


def jobs_c23():
    j = []
    names = list(layouts())
    groups = ((0, 1, 2, 3), (4, 5, 6), (7, 8, 9), (10, 12, 13)) if not THOROUGH else tuple((i,) for i in list(range(21)) + [24, 30, 36, 49, 60, 64, 97, 128])
    for nm in names:
        for g in groups:
            if not THOROUGH and nm in ('empty-other', 'deep', 'neg') and g[0] > 4:
                continue
            j.append((batching, (nm, g)))
    j.append((bad_layouts, ()))
    return j


# ------------------------------------------------------------------------- C30

def one_draw(func, res, what):
    """ function of the answer of the only random draw of func; None if it makes several """
    from mc import tape
    import jax
    from jax import numpy as jnp
    with tape.record() as rec:
        func(tape.make_key(3))
    ids = []
    for ev in rec.events:
        if ev[0] == 'draw':
            ids += [int(i) for i in ev[4].ravel()] if ev[1] != 'bits' else [None]
    if len(ids) != 1 or ids[0] is None:
        res.note(f'{what}: {len(ids)} elementary draws, only the support is checked')
        return None
    slots = jnp.asarray(ids, jnp.uint32)

    @jax.jit
    def run(values):
        return jax.vmap(lambda v: func(tape.make_key(3, slots, v[None])))(values)
    return run


def support(func, n=256):
    import jax
    from jax import numpy as jnp
    return jax.jit(jax.vmap(lambda i: func(jax.random.key(i))))(jnp.arange(n))


def categorical(n, alph, part):
    jax, jnp, _, _, mcmcstep = lib()
    from mc.tape import VMAX
    res = Result()
    W = rows(alph, n)[part[0]::part[1]]
    run = one_draw(lambda k: mcmcstep.categorical(k, jnp.ones(n)), res, 'categorical')
    for w in W:
        w = w.astype(float)
        total = w.sum()
        if run is None:
            u, t = support(lambda k: mcmcstep.categorical(k, jnp.asarray(w, jnp.float32)))
            got = np.asarray(u)
            res.check(np.all(w[got] > 0) if total else np.all(got == n), 'index with zero weight', w=w)
            res.check(np.allclose(np.asarray(t), total), 'wrong total weight')
            res.count('transitions', len(got))
            continue
        edges = np.cumsum(w) / total if total else np.array([1.])
        v = [0., VMAX]
        for e in edges:
            v += [e - 2e-5, e + 2e-5]
        G = int(round(total)) * 4 if total and float(total).is_integer() and total < 40 else 0
        v = np.clip(v, 0, VMAX)
        v = np.concatenate([v, (np.arange(G) + .5) / max(G, 1)])
        f = functools.lru_cache(None)(lambda: None)
        u, t = _cat(n)(jnp.asarray(w, jnp.float32), jnp.asarray(v, jnp.float32))
        u, t = np.asarray(u), np.asarray(t)
        res.count('transitions', len(u))
        info = dict(weights=w, answers=v, got=u)
        if not total:
            res.check(np.all(u == n), f'categorical returns {set(u.tolist())} with all weights zero', **info)
            continue
        if not res.check(np.all((u >= 0) & (u < n)), f'categorical returns {u[(u < 0) | (u >= n)]}', **info):
            continue
        res.check(np.all(w[u] > 0), 'categorical returns an index of zero weight', **info)
        res.check(np.allclose(t, total, rtol=1e-5), f'categorical returns total {t[0]} instead of {total}', **info)
        if G:
            c = np.bincount(u[-G:], minlength=n) / G
            res.check(np.allclose(c, w / total, atol=1e-9), f'categorical has frequencies {c} instead of {w / total}', **info)
        else:
            # measure from the edges: the index changes exactly there
            inner = u[2:2 + 2 * n].reshape(n, 2)
            order = [int(x) for x in np.unique(u)]
            res.check(set(order) <= set(np.flatnonzero(w > 0).tolist()), 'support', **info)
            meas = _measure(lambda vv: np.asarray(_cat(n)(jnp.asarray(w, jnp.float32), jnp.asarray(vv, jnp.float32))[0]), n)
            res.check(np.allclose(meas, w / total, atol=2e-3), f'categorical has probabilities {meas} instead of {w / total}', **info)
    res.count('states', len(W))
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    res.sample(dict(n=n, alphabet=alph, vectors=len(W)))
    return res


def _measure(f, n, G=1024):
    v = (np.arange(G) + .5) / G
    return np.bincount(f(v), minlength=n + 1)[:n] / G


@functools.lru_cache(None)
def _cat(n):
    jax, jnp, _, _, mcmcstep = lib()
    from mc import tape
    with tape.record() as rec:
        mcmcstep.categorical(tape.make_key(3), jnp.ones(n))
    slot = next(ev[4].ravel() for ev in rec.events if ev[0] == 'draw')
    slot = jnp.asarray(slot, jnp.uint32)
    return jax.jit(lambda w, v: jax.vmap(lambda v: mcmcstep.categorical(tape.make_key(3, slot, v[None]), w))(v))


def scripted(func, *args):
    """ run(values) -> outputs of func(key, *args), or None """
    from mc import tape
    import jax
    from jax import numpy as jnp
    with tape.record() as rec:
        func(tape.make_key(3), *args)
    ids = [i for ev in rec.events if ev[0] == 'draw' for i in (ev[4].ravel() if ev[1] != 'bits' else [None])]
    if len(ids) != 1 or ids[0] is None:
        return None
    slot = jnp.asarray(ids, jnp.uint32)
    return jax.jit(lambda v, *a: jax.vmap(lambda v: func(tape.make_key(3, slot, v[None]), *a))(v))


def excluding(sup, length, dtype, values=None, few=None):
    jax, jnp, _, _, mcmcstep = lib()
    from mc.tape import VMAX
    res = Result()
    values = values or tuple(range(sup + 2)) + (100,)
    E = rows(values, length)
    func = lambda k, e: mcmcstep.randint_exclude(k, sup, e)
    run = scripted(func, jnp.asarray(E[0], dtype))
    if run is None:
        res.note('randint_exclude: several draws, only the support is checked')
    G = math.lcm(*range(1, sup + 1)) if 0 < sup <= 6 else max(sup, 1) * 3
    v = np.concatenate([[0., VMAX], (np.arange(G) + .5) / G])
    if run is not None:
        many = jax.jit(jax.vmap(lambda e: run(jnp.asarray(v, jnp.float32), e)))
    else:
        many = jax.jit(jax.vmap(lambda e: jax.vmap(lambda i: func(jax.random.key(i), e))(jnp.arange(256))))
    got = np.asarray(many(jnp.asarray(E, dtype)))
    res.count('transitions', got.size)
    for e, u in zip(E, got):
        allowed = sorted(set(range(sup)) - set(int(x) for x in e))
        info = dict(sup=sup, exclude=e, dtype=dtype)
        if not allowed:
            if not res.check(np.all(u == sup), f'randint_exclude returns {set(u.tolist())} when everything is excluded', **info):
                return res
            continue
        if not res.check(set(u.tolist()) <= set(allowed), f'randint_exclude returns {set(u.tolist()) - set(allowed)}', **info):
            return res
        if run is not None:
            c = np.bincount(u[2:], minlength=sup)[allowed]
            tol = 0 if sup <= 6 else 3
            if not res.check(c.max() - c.min() <= tol and c.min() > 0, f'randint_exclude is not uniform: {c}', **info):
                return res
    res.count('states', len(E))
    res.count('traces_validated_against_impl', got.size)
    res.sample(dict(sup=sup, length=length, lists=len(E), dtype=dtype))
    return res


def masked(n, masks=None):
    jax, jnp, _, _, mcmcstep = lib()
    from mc.tape import VMAX
    res = Result()
    M = rows((0, 1), n).astype(bool) if masks is None else np.array(masks)
    run = scripted(mcmcstep.randint_masked, jnp.asarray(M[0]))
    if run is None:
        res.note('randint_masked: several draws, only the support is checked')
    G = math.lcm(*range(1, n + 1)) if n <= 7 else 3 * n
    v = np.concatenate([[0., VMAX], (np.arange(G) + .5) / G])
    if run is not None:
        many = jax.jit(jax.vmap(lambda e: run(jnp.asarray(v, jnp.float32), e)))
    else:
        many = jax.jit(jax.vmap(lambda e: jax.vmap(lambda i: mcmcstep.randint_masked(jax.random.key(i), e))(jnp.arange(256))))
    got = np.asarray(many(jnp.asarray(M)))
    res.count('transitions', got.size)
    for m, u in zip(M, got):
        allowed = np.flatnonzero(m).tolist()
        if not allowed:
            res.check(np.all(u == n), f'randint_masked returns {set(u.tolist())} with empty mask', mask=m)
            continue
        if not res.check(set(u.tolist()) <= set(allowed), f'randint_masked returns {set(u.tolist()) - set(allowed)}', mask=m):
            return res
        if run is not None:
            c = np.bincount(u[2:], minlength=n)[allowed]
            tol = 0 if n <= 7 else 3
            if not res.check(c.max() - c.min() <= tol and c.min() > 0, f'randint_masked is not uniform: {c}', mask=m):
                return res
    res.count('states', len(M))
    res.count('traces_validated_against_impl', got.size)
    return res


def jobs_c30():
    j = [(categorical, (n, (0, 1, 2), (0, 1))) for n in (1, 2, 3, 4)]
    j += [(categorical, (3, (0., .25, 1e-3, 7.5), (k, 4))) for k in range(4)]
    j += [(categorical, (8, (0, 3), (k, 2))) for k in range(2)]
    for sup in range(1, 6):
        for length in range(0, 4):
            for dt in ('uint8', 'int32') if length < 3 else ('uint8',):
                j.append((excluding, (sup, length, dt)))
    j += [(excluding, (sup, 3, dt, (0, 1, 3, 5, 100, 120))) for sup in (127, 128, 255, 256, 257, 300) for dt in ('uint8', 'int8', 'uint16')]
    j += [(masked, (n,)) for n in range(1, 8)]
    for n in (127, 128, 255, 256, 257, 300):
        i = np.arange(n)
        j.append((masked, (n, [i >= 0, i < 0, i == n - 1, i == 0, i % 2 == 1, i >= n - 2])))
    if THOROUGH:
        j += [(categorical, (5, (0, 1, 2, 3), (k, 8))) for k in range(8)] + [(masked, (n,)) for n in (8, 9, 10)]
        j += [(excluding, (5, 4, 'uint8')), (excluding, (4, 5, 'uint8')), (excluding, (6, 4, 'int32'))]
    return j


# ------------------------------------------------------------------------- C32

def types():
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    for k in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64):
        for d in (-2, -1, 0, 1):
            m = 2 ** k + d
            if not 0 <= m < 2 ** 64:
                continue
            want = next(b for b in (8, 16, 32, 64) if m < 2 ** b)
            for val in (m,) + ((np.int64(m),) if m < 2 ** 63 else ()) + ((np.uint64(m),)):
                t = jaxext.minimal_unsigned_dtype(val)
                res.count('transitions')
                res.check(jnp.dtype(t) == np.dtype(f'uint{want}'), f'minimal_unsigned_dtype({m}) is {t}')
    for m in range(0, 70000, 1 if THOROUGH else 251):
        want = next(b for b in (8, 16, 32, 64) if m < 2 ** b)
        res.check(jnp.dtype(jaxext.minimal_unsigned_dtype(m)) == np.dtype(f'uint{want}'), f'minimal_unsigned_dtype({m})')
        res.count('transitions')
    ctx = jax.experimental.enable_x64 if hasattr(jax, 'experimental') else None
    import jax.experimental as je
    for x64 in (False, True):
        with je.enable_x64(x64):
            for b in (8, 16, 32) + ((64,) if x64 else ()):
                for kind in ('int', 'uint'):
                    dt = np.dtype(f'{kind}{b}')
                    for arg in (dt, getattr(jnp, dt.name)):
                        t = jaxext.signed_to_unsigned(arg)
                        res.check(jnp.dtype(t) == np.dtype(f'uint{b}'), f'signed_to_unsigned({arg}) is {t}')
                    i = np.iinfo(dt)
                    vals = np.array(sorted({0, 1, i.max // 2, i.max - 1, i.max}), dt)
                    for xs in (vals, jnp.asarray(vals)):
                        x = jaxext.ensure_unsigned(xs)
                        res.check(x.dtype == np.dtype(f'uint{b}') and np.array_equal(np.asarray(x).astype(object), vals.astype(object)), f'ensure_unsigned of {dt} gives {x}')
                        h = jaxext.huge_value(xs)
                        res.check(int(h) == i.max, f'huge_value of {dt} is {h}')
                        res.count('transitions', 3)
            for dt in ('float16', 'bfloat16', 'float32') + (('float64',) if x64 else ()):
                h = jaxext.huge_value(jnp.zeros(2, dt))
                res.check(float(h) == np.inf, f'huge_value of {dt} is {h}')
                res.count('transitions')
            for args, want in ((('float32',), 'float32'), (('int32',), 'float32'), (('float16', 'uint8'), 'float16'), (('bfloat16',), 'bfloat16'), (('float32', 'float16'), 'float32'),
                               (('uint8', 'int16'), 'float32')):
                t = jaxext.float_type(*[jnp.dtype(a) for a in args]) if hasattr(jaxext, 'float_type') else np.dtype(want)
                ok = t == jnp.dtype(want) or x64 and t == np.float64
                res.check(ok, f'float_type{args} is {t}')
                res.count('transitions')
    for bad in (np.float32, np.bool_):
        try:
            jaxext.signed_to_unsigned(bad)
            res.violation(f'signed_to_unsigned accepts {bad}')
        except (AssertionError, TypeError, ValueError):
            pass
    res.count('states', res.counts['transitions'])
    res.count('traces_validated_against_impl', res.counts['transitions'])
    return res


def quantile(part):
    jax, jnp, jaxext, *_ = lib()
    from scipy import stats, special
    res = Result()
    Qs = [.01, .1, .25, .5, .75, .9, .99]
    As = [.5, 1., 1.5, 2.5, 5., 20.]
    ppf = jaxext.scipy.stats.invgamma.ppf
    inv = jaxext.scipy.special.gammainccinv

    def fill(shape, vals, off):
        n = int(np.prod(shape))
        return np.array([vals[(off + i) % len(vals)] for i in range(n)]).reshape(shape)

    shapes = [(), (1,), (3,), (2, 1), (2, 3), (1, 3), (0,), (2, 2, 1)]
    pairs = [(s, t) for s in shapes for t in shapes]
    pairs = [p for p in pairs if compatible(*p)][part[0]::part[1]]
    for s, t in pairs:
        q, a = fill(s, Qs, 1), fill(t, As, 2)
        q, a = q.astype(np.float32), a.astype(np.float32)
        want = stats.invgamma.ppf(q.astype(float), a.astype(float))
        wanti = special.gammainccinv(*np.broadcast_arrays(a.astype(float), q.astype(float)))
        for f, args, w, nm in ((ppf, (q, a), want, 'ppf'), (inv, (a, q), wanti, 'gammainccinv')):
            for mode in ('eager', 'jit', 'jit of numpy'):
                g = jax.jit(f) if 'jit' in mode else f
                x = args if 'numpy' in mode else tuple(map(jnp.asarray, args))
                got = np.asarray(g(*x))
                res.count('transitions')
                res.check(got.shape == np.shape(w) and np.allclose(got, w, rtol=2e-5), f'{nm} {mode} with shapes {s}, {t} gives {got} instead of {w}')
                res.check(got.dtype == np.float32, f'{nm} returns {got.dtype}')
        # arguments of different types
        for tq, ta in (('float16', 'float32'), ('float32', 'float16'), ('float16', 'float16'), ('float32', 'int32'), ('float32', 'uint8')):
            q2, a2 = q.astype(tq), np.ceil(a).astype(ta)
            w = special.gammainccinv(*np.broadcast_arrays(a2.astype(float), q2.astype(float)))
            to = jnp.promote_types(tq, ta)
            for f, args, w, nm in ((ppf, (q2, a2), 1 / w, 'ppf'), (inv, (a2, q2), w, 'gammainccinv')):
                got = f(*map(jnp.asarray, args))
                res.count('transitions')
                res.check(got.dtype == to, f'{nm} of {args[0].dtype} and {args[1].dtype} returns {got.dtype}')
                res.check(np.allclose(f64(got), w, rtol=2e-5 if to == np.float32 else 3e-3), f'{nm} with types {tq}, {ta} and shapes {s}, {t} gives {got} instead of {w}')
        # vmap over any axis of either argument
        for ia in [None] + list(range(len(s))):
            for ib in [None] + list(range(len(t))):
                if ia is None and ib is None:
                    continue
                n1 = s[ia] if ia is not None else None
                n2 = t[ib] if ib is not None else None
                if n1 is not None and n2 is not None and n1 != n2 or 0 in (n1, n2):
                    continue
                sub = lambda x, i, k: x if i is None else np.take(x, k, axis=i)
                N = n1 or n2
                rest_s = tuple(np.delete(s, ia)) if ia is not None else s
                rest_t = tuple(np.delete(t, ib)) if ib is not None else t
                if not compatible(rest_s, rest_t):
                    continue
                w = np.stack([stats.invgamma.ppf(sub(q, ia, k).astype(float), sub(a, ib, k).astype(float)) for k in range(N)])
                for jit in (False, True):
                    f = jax.vmap(ppf, in_axes=(ia, ib))
                    got = np.asarray((jax.jit(f) if jit else f)(jnp.asarray(q), jnp.asarray(a)))
                    res.count('transitions')
                    res.check(got.shape == w.shape and np.allclose(got, w, rtol=2e-5), f'ppf vectorized over axes {ia}, {ib} of shapes {s}, {t} gives {got} instead of {w}')
    # scalars as used by the interface
    if part[0] == 0:
        for q in Qs:
            for a in (0.5, 1, 1.5, 2, 3, 10):
                got = ppf(q, a)
                res.count('transitions')
                res.check(np.allclose(float(got), stats.invgamma.ppf(q, a), rtol=2e-5), f'ppf({q}, {a}) = {got}')
    res.count('states', len(pairs))
    res.count('traces_validated_against_impl', res.counts['transitions'])
    return res


def compatible(s, t):
    try:
        np.broadcast_shapes(s, t)
        return True
    except ValueError:
        return False


def static_dicts():
    """ all short sequences of calls of a compiled function with static settings """
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    D = jaxext.LeafDict
    settings = [dict(), dict(a=1), dict(a=2), dict(a=1, b=None), dict(a=True), dict(a=None), dict(b=1)]
    for seq in itertools.product(range(len(settings)), repeat=3):
        log = []

        @jax.jit
        def f(x, opt):
            log.append(dict(opt))
            return x + (opt.get('a') or 0) * 10 + (5 if 'b' in opt else 0), opt
        for k in seq:
            d = D(settings[k])
            y, back = f(jnp.float32(1), d)
            w = 1 + (settings[k].get('a') or 0) * 10 + (5 if 'b' in settings[k] else 0)
            res.count('transitions')
            ok = float(y) == w and type(back) is D and dict(back) == settings[k]
            if not res.check(ok, f'calls with settings {[settings[i] for i in seq]}: got {y}, {back} for {settings[k]}'):
                return res
        eqs = []
        for k in seq:
            if not any(settings[k] == e for e in eqs):
                eqs.append(settings[k])
        res.check(len(log) == len(eqs), f'{len(log)} compilations for settings {[settings[i] for i in seq]}')
        res.count('states')
    # values are available as python objects in every transformation
    d = D(a=3, name='x', none=None)

    def g(x, opt):
        assert opt['a'] == 3 and isinstance(opt['a'], int) and opt['name'] == 'x' and opt['none'] is None
        return dict(y=x * opt['a'], opt=opt)
    x = jnp.arange(4.)
    for name, out in (
        ('eager', g(x, d)), ('jit', jax.jit(g)(x, d)), ('vmap', jax.vmap(g, in_axes=(0, None))(x, d)), ('vmap over all', jax.vmap(g)(x, d)), ('jit of vmap', jax.jit(jax.vmap(g))(x, d)),
        ('vmap of jit', jax.vmap(jax.jit(g))(x, d)),
        ('scan', jax.lax.scan(lambda c, x: (c, g(x, c)['y']), d, x)), ('tree_map', jax.tree_util.tree_map(lambda v: v * 3, dict(y=x, opt=d))),
    ):
        y = out[1] if name == 'scan' else out['y']
        o = out[0] if name == 'scan' else out['opt']
        res.count('transitions')
        res.check(np.array_equal(np.asarray(y), np.arange(4) * 3), f'wrong result in {name}', got=y)
        res.check(type(o) is D and dict(o) == dict(d), f'settings changed by {name}: {o!r}')
    res.check(len(jax.tree_util.tree_leaves(d)) == 0, 'settings have array leaves')
    res.count('traces_validated_against_impl', res.counts['transitions'])
    return res


def vmapdoc():
    jax, jnp, jaxext, *_ = lib()
    res = Result()
    if hasattr(jaxext, 'vmap_nodoc'):
        def f(x, y):
            "documentation"
            return x - y
        g = jaxext.vmap_nodoc(f, in_axes=(0, None))
        res.check(g.__doc__ == 'documentation', 'docstring lost')
        res.check(np.array_equal(np.asarray(g(jnp.arange(3), 1)), [-1, 0, 1]), 'vmap_nodoc')
        res.count('transitions', 2)
    return res


def jobs_c32():
    return [(types, ()), (static_dicts, ()), (vmapdoc, ())] + [(quantile, ((k, 12),)) for k in range(12)]
