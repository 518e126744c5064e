"""The high-level interface gbart (C19, C20, C21, C22, C29).

The MCMC is the environment of the interface code: most of the space is explored
replacing the answer of `run_mcmc` with traces that enumerate all the legal
trees, so that the interface is checked for every forest a chain could produce
rather than for the few a given chain visits. The rest is complete fits.
"""

import functools
import importlib
import inspect
import itertools
import math
import warnings

import numpy as np

from mc import ref
from mc.harness import Result, THOROUGH, digest

F = np.float32


def lib():
    import jax
    from jax import numpy as jnp
    cap = capture()
    from bartz import BART
    return jax, jnp, BART.gbart, cap


class Capture:
    """ what the interface passes to the MCMC functions """

    def __init__(self):
        self.fake = False
        self.edit = None
        self.on = False
        self.reset()

    def reset(self):
        self.inits = []
        self.runs = []


_CAP = []


def capture():
    """ wrap the public MCMC functions, then (re)load the interface on top of them """
    if _CAP:
        return _CAP[0]
    cap = Capture()
    import bartz
    from bartz import mcmcstep, mcmcloop, BART
    init0, run0 = mcmcstep.init, mcmcloop.run_mcmc
    sig_run = inspect.signature(run0)

    @functools.wraps(init0)
    def init(*a, **k):
        out = init0(*a, **k)
        if cap.on:
            cap.inits.append(dict(out))
        return out

    @functools.wraps(run0)
    def run_mcmc(*a, **k):
        if not cap.on:
            return run0(*a, **k)
        b = sig_run.bind(*a, **k).arguments
        names = list(sig_run.parameters)
        call = dict(zip(('bart', 'n_burn', 'n_save', 'n_skip', 'callback', 'key'), (b[n] for n in names[:6])))
        out = fake_run(**call) if cap.fake else run0(*a, **k)
        if cap.edit is not None:
            out = cap.edit(*out)
        cap.runs.append((call, out))
        return out
    mcmcstep.init = init
    mcmcloop.run_mcmc = run_mcmc
    importlib.reload(BART)
    _CAP.append(cap)
    return cap


class session:
    """ record the calls made by the fits inside the context """

    def __init__(self, fake, edit=None):
        self.fake = fake
        self.edit = edit

    def __enter__(self):
        cap = capture()
        cap.reset()
        cap.on, cap.fake, cap.edit = True, self.fake, self.edit
        return cap

    def __exit__(self, *exc):
        cap = capture()
        cap.on = cap.fake = False
        cap.edit = None


@functools.lru_cache(None)
def tree_table(max_split, H):
    """ all legal trees, with few cutpoints per predictor if there are many """
    sub = []
    for m in max_split:
        c = sorted({1, m, m // 2 + 1, 2 if m >= 2 else 1} & set(range(1, m + 1)))
        sub.append(c if len(max_split) < 3 else c[:2])
    small = tuple(len(c) for c in sub)
    trees = list(ref.all_trees(small, min(H, 4)))
    if len(trees) > 4000:
        trees = trees[::len(trees) // 4000 + 1]
    V = np.zeros((len(trees), H), int)
    S = np.zeros((len(trees), H), int)
    for i, t in enumerate(trees):
        v, s = t.arrays()
        for node in range(1, len(s)):
            if s[node]:
                V[i, node] = v[node]
                S[i, node] = sub[v[node]][s[node] - 1]
    return V, S


def fake_run(bart, n_burn, n_save, n_skip, callback, key):
    """ traces with all the trees in turn, in the documented format """
    from jax import numpy as jnp
    st = {k: v for k, v in bart.items()}
    nt, H = bart['split_trees'].shape
    ms = tuple(int(m) for m in np.asarray(bart['max_split']))
    V, S = tree_table(ms, H) if H > 1 else (np.zeros((1, H), int), np.zeros((1, H), int))
    i = (np.arange(n_save)[:, None] * nt + np.arange(nt)) % len(S)
    var, split = V[i], S[i]
    size = bart['leaf_trees'].shape[-1]
    leaf = ((np.arange(n_save)[:, None, None] * 7 + np.arange(nt)[:, None] * 13 + np.arange(size) * 5) % 33 - 16) / 32 + i[:, :, None] % 3
    leaf[..., 0] = 0

    def trace(n, fields):
        out = {}
        for f in fields:
            x = np.asarray(bart[f])
            out[f] = np.repeat(x[None], n, 0)
        out['sigma2'] = ((1 + np.arange(n)) / 4).astype(np.asarray(bart['sigma2']).dtype)
        return out
    counters = ['grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count']
    burn = trace(n_burn, counters)
    main = trace(n_save, counters)
    main['leaf_trees'] = leaf.astype(np.asarray(bart['leaf_trees']).dtype)
    main['var_trees'] = var.astype(np.asarray(bart['var_trees']).dtype)
    main['split_trees'] = split.astype(np.asarray(bart['split_trees']).dtype)
    burn['sigma2'] = burn['sigma2'] * 4 + 1
    for k in ('leaf_trees', 'var_trees', 'split_trees'):
        if n_save:
            st[k] = jnp.asarray(main[k][-1])
    conv = lambda d: {k: jnp.asarray(v) for k, v in d.items()}
    return st, conv(burn), conv(main)


# ------------------------------------------------------------------ data and reference

def data(n, p, kind='f', seed=0):
    """ dyadic predictors and responses """
    rng = np.random.default_rng(seed + 100 * p + n)
    X = rng.integers(0, 48, (p, n)) / 8
    if n >= 2:
        X[:, 0] = 0
        X[:, 1] = 6
        X[:, 0] += np.arange(p) / 4
        X[:, 1] += np.arange(p) / 2
    y = rng.integers(-40, 40, n) / 8
    if n >= 2:
        y[0], y[1] = -5, 5
    if kind == 'i':
        X = np.round(X * 2).astype(int)
    elif kind == 'even':
        X = 2 * np.round(X * 2).astype(int)
    elif kind == 'big':
        X = 2 ** 26 + np.round(X * 8).astype(int)
    elif kind == 'few':
        X = np.round(X / 3) * 3
    elif kind == 'dup' and p >= 2:
        X[-1] = X[0]
    elif kind == 'const' and p >= 2:
        X[-1] = 1.5
    return X if kind in ('i', 'even', 'big') else X.astype(F), y.astype(F)


def ref_splits(X, usequants, numcut):
    """ list of cutpoints of each predictor, float64 """
    X = np.asarray(X, float)
    out = []
    for x in X:
        u = np.unique(x)
        if not usequants:
            if not len(u):
                out.append(None)
            else:
                out.append(u[0] + (u[-1] - u[0]) * np.arange(1, numcut + 1) / (numcut + 1))
        else:
            mid = (u[1:] + u[:-1]) / 2
            if len(mid) <= numcut:
                out.append(mid)
            else:
                out.append(None)  # decided by C16
    return out


def ref_bins(X, splits):
    X = np.asarray(X, float)
    return np.stack([np.searchsorted(s, x, 'left') for x, s in zip(X, splits)])


def near(X, splits):
    """ points too close to a cutpoint to be decided with floating point """
    X = np.asarray(X, float)
    bad = np.zeros(X.shape[1], bool)
    for x, s in zip(X, splits):
        if len(s):
            d = np.abs(x[:, None] - s)
            bad |= np.any((d > 0) & (d < 1e-5 * (1 + np.abs(x[:, None]))), axis=1)
    return bad


def is_exact(splits):
    """ whether all cutpoints are short dyadic numbers, computed exactly by any sane formula """
    return all(np.all(s * 4096 == np.round(s * 4096)) for s in splits)


def near_any(X, splits):
    X = np.asarray(X, float)
    if is_exact(splits):
        return np.zeros(X.shape[1], bool)
    bad = np.zeros(X.shape[1], bool)
    for x, s in zip(X, splits):
        if len(s):
            bad |= np.any(np.abs(x[:, None] - s) < 1e-5 * (1 + np.abs(x[:, None])), axis=1)
    return bad


def ref_predict(trace, B, offset, scale):
    """ (iterations, points) """
    leaf = np.asarray(trace['leaf_trees'], float)
    var = np.asarray(trace['var_trees']).astype(int)
    split = np.asarray(trace['split_trees']).astype(int)
    ns = len(leaf)
    out = np.zeros((ns, B.shape[1]))
    if ns == 0:
        return out
    flat = lambda a: a.reshape((-1,) + a.shape[2:])
    out = ref.evaluate_trees(B, flat(leaf), flat(var), flat(split)).reshape(ns, leaf.shape[1], B.shape[1]).sum(1)
    return float(offset) + float(scale) * out


def test_points(X, splits):
    """ corners, exact cutpoints, out of range """
    X = np.asarray(X, float)
    p = len(X)
    cols = []
    for v, s in enumerate(splits):
        pts = [X[v].min() - 100, X[v].max() + 100, X[v].min(), X[v].max()] if X.shape[1] else [-1., 1.]
        pts += list(s[:3]) + list(s[-2:])
        pts += list(s[:2] + 1 / 256) + list(s[:2] - 1 / 256)
        cols.append(pts)
    m = max(map(len, cols))
    base = np.stack([np.resize(c, m) for c in cols])
    rolled = np.stack([np.roll(np.resize(c, m), 3 * v + 1) for v, c in enumerate(cols)])
    return np.concatenate([base, rolled], axis=1).astype(F)


def close(a, b, rtol=1e-4, atol=1e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


BASE = dict(ntree=2, ndpost=3, nskip=2, printevery=10 ** 6, maxdepth=3, numcut=7)


def traces_of(m, cap):
    """ (burn-in trace, main trace), None if the code does not go through the public loop """
    if cap.runs:
        return cap.runs[-1][1][1:]
    return None


# ------------------------------------------------------------------------- C19

def check_fit(res, m, cap, X, y, kw, xt=None, **info):
    tr = traces_of(m, cap)
    if tr is None:
        res.note('the interface does not use run_mcmc')
        return
    burn, main = tr
    nd = kw['ndpost']
    splits = ref_splits(X, kw.get('usequants', False), kw['numcut'])
    if any(s is None for s in splits):
        splits = None
    scale, offset = float(m.scale), float(m.offset)
    n = X.shape[1]
    res.count('states', nd)
    yt = np.asarray(m.yhat_train)
    res.check(yt.shape == (nd, n), f'yhat_train has shape {yt.shape}', **info)
    ok = lambda a, b: close(a, b, 1e-4, 1e-4 * (1 + abs(offset) + 3 * scale))
    if splits is not None:
        B = ref_bins(X, splits)
        good = ~near_any(X, splits)
        want = ref_predict(main, B, offset, scale)
        if yt.shape == want.shape:
            res.check(ok(yt[:, good], want[:, good]), 'yhat_train is not offset + scale * sum of trees', got=yt[:1], want=want[:1], **info)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res.check(ok(m.yhat_train_mean, yt.mean(0)), 'yhat_train_mean is not the mean of yhat_train', **info)
    res.check(np.array_equal(np.asarray(m.predict(X)), yt) or ok(m.predict(X), yt), 'predicting at the training points gives something else than yhat_train', **info)
    s2 = np.asarray(main['sigma2'], float)
    res.check(close(m.sigma, scale * np.sqrt(s2), 1e-5, 1e-6), 'sigma is not that of the chain times the scale', got=m.sigma, want=scale * np.sqrt(s2), **info)
    s2 = np.asarray(burn['sigma2'], float)
    res.check(close(m.first_sigma, scale * np.sqrt(s2), 1e-5, 1e-6), 'first_sigma is not that of the burn-in times the scale', got=m.first_sigma, want=scale * np.sqrt(s2), **info)
    res.check(np.shape(m.sigma) == (nd,) and np.shape(m.first_sigma) == (kw['nskip'],), f'{np.shape(m.first_sigma)} burn-in and {np.shape(m.sigma)} saved error standard deviations', **info)
    res.count('transitions')
    if xt is not None:
        pt = np.asarray(m.predict(xt))
        res.check(np.array_equal(np.asarray(m.yhat_test), pt), 'yhat_test differs from predicting later', **info)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res.check(ok(m.yhat_test_mean, pt.mean(0)), 'yhat_test_mean is not the mean of yhat_test', **info)
        if splits is not None:
            B = ref_bins(xt, splits)
            good = ~near_any(xt, splits)
            want = ref_predict(main, B, offset, scale)
            if res.check(pt.shape == want.shape, f'predictions have shape {pt.shape}', **info):
                res.check(ok(pt[:, good], want[:, good]), 'predictions are not offset + scale * sum of trees in the bins of training', got=pt[:1], want=want[:1], xt=xt, **info)
            res.count('points', good.sum())
        # one point at a time, and none
        for sl in (slice(0, 1), slice(2, 3), slice(0, 0)):
            one = np.asarray(m.predict(xt[:, sl]))
            res.check(ok(one, pt[:, sl]), 'prediction at a point depends on the other points', **info)
    res.count('traces_validated_against_impl')


def predict_fake(part):
    jax, jnp, gbart, _ = lib()
    res = Result()
    space = []
    for (n, p, kind), uq, numcut, md, nt in itertools.product(
            [(1, 1, 'f'), (2, 1, 'f'), (9, 1, 'few'), (16, 2, 'f'), (5, 2, 'i'), (6, 2, 'even'), (16, 2, 'const'), (33, 3, 'f')], (False, True), (1, 2, 3, 7, 255, 256, 300), (1, 2, 3, 4), (1, 2, 5)):
        i = len(space)
        space.append((n, p, kind, uq, numcut, md, nt))
    if not THOROUGH:
        space = [s for i, s in enumerate(space) if (s[4] in (3, 255) and s[5] in (3, 2) and s[6] == 2) or i % 5 == 0 and s[6] != 1]
    # same shapes in the same worker
    space = sorted(space, key=lambda s: (s[0], s[1], s[5], s[6]))
    chunk = -(-len(space) // part[1])
    for n, p, kind, uq, numcut, md, nt in space[part[0] * chunk:(part[0] + 1) * chunk]:
        X, y = data(n, p, kind)
        kw = dict(BASE, usequants=uq, numcut=numcut, maxdepth=md, ntree=nt, ndpost=40)
        if n % 2:
            kw.update(offset=1.25, lamda=0.5)
        splits = ref_splits(X, uq, numcut)
        if any(s is None for s in splits):
            xt = X[:, ::-1] + F(0.0625)
        else:
            xt = test_points(X, splits)
        if kind == 'i':
            xt = np.round(xt)
        with session(True) as cap:
            m = gbart(X, y, x_test=xt, **kw)
            info = dict(n=n, p=p, kind=kind, usequants=uq, numcut=numcut, maxdepth=md, ntree=nt)
            check_fit(res, m, cap, X, y, kw, xt, **info)
            res.distinct('forests', *(digest(a, b) for a, b in zip(*[np.asarray(traces_of(m, cap)[1][k]) for k in ('var_trees', 'split_trees')])) if traces_of(m, cap) else ())
        if not cap.runs:
            break
        if len(res.violations) > 5:
            break
    res.sample(info)
    return res


def all_forests(md, p, numcut, usequants):
    """ every legal single tree, every pair of small ones """
    jax, jnp, gbart, _ = lib()
    res = Result()
    X, y = data(24, p)
    V, S = tree_table((numcut,) * p, 2 ** (md - 1))
    kw = dict(BASE, numcut=numcut, maxdepth=md, ntree=1, ndpost=len(S), usequants=usequants)
    splits = ref_splits(X, usequants, numcut)
    xt = X[:, ::-1] + F(0.0625) if any(s is None for s in splits) else test_points(X, splits)
    with session(True) as cap:
        m = gbart(X, y, x_test=xt, **kw)
        check_fit(res, m, cap, X, y, kw, xt, p=p, numcut=numcut, maxdepth=md)
    res.sample(dict(trees=len(S), numcut=numcut, p=p))
    return res


REAL = {
    'base': (dict(), 24, 2, 'f'),
    'thin': (dict(keepevery=3, nskip=3, ndpost=4), 24, 2, 'f'),
    'noburn': (dict(nskip=0, ndpost=2, usequants=True, numcut=255), 20, 1, 'f'),
    'nosave': (dict(nskip=3, ndpost=0), 20, 1, 'f'),
    'half': (dict(initkw=dict(small_float='float16', save_ratios=True)), 20, 2, 'f'),
    'deep': (dict(maxdepth=5, ntree=4, numcut=300, initkw=dict(min_points_per_leaf=1)), 40, 2, 'f'),
    'stump': (dict(maxdepth=2, ntree=3, initkw=dict(min_points_per_leaf=None)), 16, 3, 'i'),
    'tiny': (dict(ntree=1), 1, 1, 'f'),
}


def predict_real(name):
    jax, jnp, gbart, _ = lib()
    res = Result()
    over, n, p, kind = REAL[name]
    X, y = data(n, p, kind)
    kw = {**BASE, **over}
    splits = ref_splits(X, kw.get('usequants', False), kw['numcut'])
    for seed in range(3 if not THOROUGH else 12):
        with session(False) as cap:
            xt = test_points(X, splits)
            if kind == 'i':
                xt = np.round(xt)
            m = gbart(X, y, x_test=xt, seed=seed, **kw)
            check_fit(res, m, cap, X, y, kw, xt, case=name, seed=seed)
    res.sample(dict(case=name, settings=kw))
    return res


def jobs_c19():
    j = [(predict_real, (nm,)) for nm in REAL]
    j += [(predict_fake, ((k, 8),)) for k in range(8)]
    j += [(all_forests, (3, 2, 3, False)), (all_forests, (3, 1, 7, True)), (all_forests, (3, 2, 1, False)), (all_forests, (2, 2, 255, True))]
    return j


# ------------------------------------------------------------------------- C20

def ref_noise(X, y, sigest, sigdf, sigquant, lamda, offset):
    """ lamda, sigest """
    from scipy import stats
    X, y = np.asarray(X, float), np.asarray(y, float)
    if lamda is not None:
        return float(lamda), None
    n, p = y.size, X.shape[0]
    if sigest is not None:
        s2 = float(sigest) ** 2
    elif n < 2:
        s2 = 1.
    elif n <= p:
        s2 = np.var(y)
    else:
        A = (X.T - X.mean(1))
        b = y - y.mean()
        coef, _, rank, _ = np.linalg.lstsq(A, b, rcond=1e-6)
        s2 = np.sum((b - A @ coef) ** 2) / (n - rank)
    # scaled inverse chi squared, P(sigma^2 < sigest^2) = sigquant
    q = sigdf / stats.chi2.ppf(1 - sigquant, sigdf)
    return s2 / q, math.sqrt(s2)


def settings_space():
    out = []
    dims = dict(
        shape=[(20, 2, 'f'), (0, 2, 'f'), (1, 1, 'f'), (1, 3, 'f'), (2, 1, 'f'), (2, 2, 'f'), (2, 4, 'f'), (3, 2, 'f'), (4, 4, 'f'), (5, 4, 'f'), (6, 4, 'f'), (17, 3, 'i'), (30, 1, 'f'), (20, 3, 'dup'), (20, 3, 'const'), (12, 2, 'few')],
        sigest=[None, 0.7, 3, 1e-2, 0],
        lamda=[None, 0.3, 2],
        sigdf=[3, 1, 10, 2.5],
        sigquant=[0.9, 0.1, 0.5, 0.99],
        k=[2, 0.5, 3],
        offset=[None, 0, 1.5, -2],
        base=[0.95, 0.5, 0.01],
        power=[2, 0, 0.5, 3, 20],
        maxdepth=[6, 1, 2, 3, 9],
        ntree=[200, 1, 7],
        numcut=[255, 1, 5, 100, 256],
        usequants=[False, True],
        iters=[(1000, 100, 1), (5, 0, 1), (0, 3, 2), (2, 7, 3)],
        initkw=[None, dict(min_points_per_leaf=None), dict(min_points_per_leaf=1), dict(min_points_per_leaf=9, save_ratios=True), dict(sigma2_alpha=4., num_trees=3), dict(resid_batch_size=None, count_batch_size=3)],
        seed=[0, 17],
    )
    names = list(dims)
    first = {k: v[0] for k, v in dims.items()}
    out.append(first)
    for k in names:
        for v in dims[k][1:]:
            out.append({**first, k: v})
    hot = ['shape', 'sigest', 'lamda', 'sigdf', 'sigquant', 'k', 'offset', 'usequants', 'initkw']
    for a, b in itertools.combinations(names if THOROUGH else hot, 2):
        for va, vb in itertools.product(dims[a][1:], dims[b][1:]):
            out.append({**first, 'iters': (2, 1, 1), 'ntree': 3, 'maxdepth': 4, 'numcut': 15, a: va, b: vb})
    for va, vb in itertools.product(dims['power'], dims['base']):
        for md in dims['maxdepth']:
            out.append({**first, 'iters': (2, 1, 1), 'ntree': 3, 'power': va, 'base': vb, 'maxdepth': md})
    uniq, seen = [], set()
    for s in out:
        r = repr(s)
        if r not in seen:
            seen.add(r)
            uniq.append(s)
    return uniq


def priors(part):
    jax, jnp, gbart, _ = lib()
    res = Result()
    space = sorted(settings_space(), key=lambda s: (repr(s['shape']), s['numcut'], s['maxdepth'], s['ntree']))
    chunk = -(-len(space) // part[1])
    for s in space[part[0] * chunk:(part[0] + 1) * chunk]:
        n, p, kind = s['shape']
        X, y = data(n, p, kind, seed=3)
        nd, nb, nk = s['iters']
        kw = {k: v for k, v in s.items() if k not in ('shape', 'iters', 'initkw')}
        kw.update(ndpost=nd, nskip=nb, keepevery=nk, printevery=10 ** 6)
        if s['initkw'] is not None:
            kw['initkw'] = dict(s['initkw'])
        if n == 0 and s['usequants']:
            pass
        info = dict(settings=s)
        with session(True) as cap:
            try:
                m = gbart(X, y, **kw)
            except Exception as e:
                res.violation(f'fit fails: {type(e).__name__}: {str(e)[:200]}', **info)
                continue
        ck = lambda c, msg: res.check(c, msg, **info)
        off = s['offset'] if s['offset'] is not None else float(np.mean(y)) if n else 0.
        scale = (float(y.max()) - float(y.min())) / (2 * s['k']) if n >= 2 else 1.
        lamda, sigest = ref_noise(X, y, s['sigest'], s['sigdf'], s['sigquant'], s['lamda'], off)
        ck(close(m.offset, off, 1e-5, 1e-5), f'offset is {m.offset} instead of {off}')
        ck(close(m.scale, scale, 1e-5, 1e-6), f'scale is {m.scale} instead of {scale}')
        tol = 2e-3
        small = sigest is not None and n and sigest < 1e-2 * np.std(y) and s['sigest'] is None
        if small:  # exact interpolation by the regression
            ck(float(m.sigest) < 3e-2 * np.std(y), f'sigest is {m.sigest} instead of almost zero')
        else:
            ck(close(m.lamda, lamda, tol, 1e-9), f'lamda is {m.lamda} instead of {lamda}')
            ck(m.sigest is None if sigest is None else m.sigest is not None and close(m.sigest, sigest, tol, 1e-9), f'sigest is {m.sigest} instead of {sigest}')
        ck(m.ntree == s['ntree'] and m.maxdepth == s['maxdepth'], 'ntree or maxdepth attributes')
        res.count('states')
        if not cap.runs or not cap.inits:
            res.note('the interface does not use init or run_mcmc')
            break
        call, _ = cap.runs[-1]
        b = {k: np.asarray(v) if v is not None else None for k, v in call['bart'].items() if k not in ('opt', 'ratios')}
        over = s['initkw'] or {}
        ck((call['n_burn'], call['n_save'], call['n_skip']) == (nb, nd, nk), f'the chain is run for {call["n_burn"]} + {call["n_save"]} * {call["n_skip"]} iterations')
        ck(np.array_equal(jax.random.key_data(call['key']), jax.random.key_data(jax.random.key(s['seed']))), 'the chain is not run with the key made from the seed')
        nt = over.get('num_trees', s['ntree'])
        ck(b['leaf_trees'].shape == (nt, 2 ** s['maxdepth']) and b['split_trees'].shape == (nt, 2 ** (s['maxdepth'] - 1)), f'the forest has shape {b["leaf_trees"].shape}')
        pn = s['base'] / (1. + np.arange(s['maxdepth'] - 1)) ** s['power']
        ck(close(b['p_nonterminal'], np.append(pn, 0), 1e-5, 1e-7), f'nonterminal probabilities {b["p_nonterminal"]} instead of {pn}')
        alpha = s['sigdf'] / 2
        ck(close(b['sigma2_alpha'], over.get('sigma2_alpha', alpha), 1e-5), f'shape of the error prior {b["sigma2_alpha"]}')
        if not small:
            ck(close(b['sigma2_beta'], lamda / scale ** 2 * alpha, tol, 1e-9), f'scale of the error prior {b["sigma2_beta"]} instead of {lamda / scale ** 2 * alpha}')
        ck(close(b['y'], (np.asarray(y, float) - off) / scale, 1e-4, 1e-5), 'standardized responses')
        mp = over.get('min_points_per_leaf', 5)
        ck(b['min_points_per_leaf'] is None if mp is None else b['min_points_per_leaf'] is not None and b['min_points_per_leaf'] == mp, f'minimum points per leaf {b["min_points_per_leaf"]}')
        opt = call['bart']['opt']
        for o in ('resid_batch_size', 'count_batch_size'):
            if o in over:
                ck(opt[o] == over[o], f'option {o} is {opt[o]}')
        ck(('ratios' in call['bart']) == bool(over.get('save_ratios')), 'saved ratios')
        if s['usequants']:
            nu = np.array([len(np.unique(x)) for x in X])
            want = np.minimum(s['numcut'], np.maximum(nu - 1, 0))
        else:
            want = np.full(p, s['numcut'])
        ck(np.array_equal(b['max_split'].astype(int), want), f'number of cutpoints {b["max_split"]} instead of {want}')
        ck(b['X'].shape == X.shape, f'predictors of shape {b["X"].shape}')
        splits = ref_splits(X, s['usequants'], s['numcut'])
        if n and all(q is not None for q in splits):
            good = ~near_any(X, splits)
            ck(np.array_equal(b['X'][:, good].astype(int), ref_bins(X, splits)[:, good]), 'binned predictors')
        res.count('transitions')
        if len(res.violations) > 8:
            break
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    res.sample(s)
    return res


def jobs_c20():
    return [(priors, ((k, 16),)) for k in range(16)]


# ------------------------------------------------------------------------- C21

YT = [(1, 0), (8, 0), (0.125, 0), (1, 16), (1, -128), (4, -32), (1 / 1024, 0.5), (2. ** 20, 0), (1, 2048), (2. ** -20, 0), (2. ** -30, 0), (2. ** 30, 0)]
YT_INEXACT = [(3, 0), (0.1, 0.3), (7, -21), (100, 1), (1, 2. ** 14), (2, -2. ** 16)]


def with_y(kw, a, b):
    kw = dict(kw)
    if kw.get('sigest') is not None:
        kw['sigest'] = kw['sigest'] * a
    if kw.get('lamda') is not None:
        kw['lamda'] = kw['lamda'] * a * a
    if kw.get('offset') is not None:
        kw['offset'] = kw['offset'] * a + b
    return kw


def fit(X, y, xt, fake, **kw):
    jax, jnp, gbart, _ = lib()
    with session(fake) as cap:
        m = gbart(X, y, x_test=xt, **{**BASE, **kw})
        state = cap.runs[-1][0]['bart'] if cap.runs else None
    m.yhat_train
    return m, state


def compare_scaled(res, m0, m1, a, b, info, tol=1e-5):
    e = tol * (abs(a) * (3 * float(m0.scale) + abs(float(m0.offset))) + abs(b))
    for f in ('yhat_train', 'yhat_test', 'yhat_train_mean', 'yhat_test_mean', 'offset'):
        x, y = np.asarray(getattr(m0, f), float), np.asarray(getattr(m1, f), float)
        res.check(close(y, a * x + b, 10 * tol, e), f'{f} does not transform with the units of the response', got=y, want=a * x + b, **info)
    for f in ('sigma', 'first_sigma', 'scale', 'sigest'):
        x, y = getattr(m0, f), getattr(m1, f)
        if x is None:
            res.check(y is None, f'{f} set', **info)
            continue
        t = 1e-3 if f == 'sigest' else tol
        res.check(close(y, a * np.asarray(x, float), 10 * t, abs(a) * t * float(m0.scale)), f'{f} does not transform with the units of the response', got=y, want=a * np.asarray(x, float), **info)
    res.check(close(m1.lamda, a * a * float(m0.lamda), 1e-3, 1e-3 * a * a * float(m0.scale) ** 2), 'lamda does not transform with the units of the response', **info)


def units_y(which, over, fake):
    res = Result()
    X, y = data(32, 2, seed=which)
    xt = X[:, ::3] + F(1 / 16)
    m0, s0 = fit(X, y, xt, fake, **over)
    for a, b in YT + (YT_INEXACT if fake else []):
        y1 = (np.asarray(y, float) * a + b).astype(F)
        info = dict(a=a, b=b, settings=over)
        m1, s1 = fit(X, y1, xt, fake, **with_y(over, a, b))
        compare_scaled(res, m0, m1, a, b, info)
        if s0 is not None:
            for f in ('X', 'y', 'max_split', 'p_nonterminal', 'sigma2_alpha', 'sigma2_beta'):
                res.check(close(s0[f], s1[f], 1e-3 if f == 'sigma2_beta' else 1e-4, 1e-4), f'{f} of the chain changes with the units of the response', **info)
        res.count('transitions')
        res.count('traces_validated_against_impl')
    res.count('states', len(m0.sigma))
    res.sample(info)
    return res


XT = [(8, 0), (0.125, 0), (1, 16), (1, -64), (4, 8), (2. ** -12, 0), (2. ** 20, 0), (2, 100), (2. ** -30, 0), (2. ** 30, 0)]
XT_INEXACT = [(3, 0), (0.1, 0.3), (7, -21), (1000, 1)]


def units_x(which, over, fake):
    res = Result()
    X, y = data(32, 2, seed=which)
    xt = np.concatenate([X[:, ::3] + F(1 / 16), X[:, :2] - 50, X[:, :2] + 50], axis=1)
    m0, s0 = fit(X, y, xt, fake, **over)
    cutp = ref_splits(X, over.get('usequants', False), over.get('numcut', BASE['numcut']))
    for a, b in XT + (XT_INEXACT if fake else []):
        exact = (a, b) not in XT_INEXACT
        for cols in ((0,), (1,), (0, 1)):
            X1, xt1 = np.asarray(X, float), np.asarray(xt, float)
            for c in cols:
                X1[c] = X1[c] * a + b
                xt1[c] = xt1[c] * a + b
            info = dict(a=a, b=b, columns=cols, settings=over)
            m1, s1 = fit(X1.astype(F), y, xt1.astype(F), fake, **over)
            sel = np.ones(X.shape[1], bool)
            selt = np.ones(xt.shape[1], bool)
            if not exact:
                if any(q is None for q in cutp):
                    continue
                tiny = lambda Z: np.any([np.any(np.abs(z[:, None] - q) < 1e-4 * (1 + abs(z[:, None])), axis=1) for z, q in zip(Z, cutp)], axis=0)
                sel, selt = ~tiny(np.asarray(X, float)), ~tiny(np.asarray(xt, float))
            if fake:
                res.check(close(m0.yhat_train[:, sel], m1.yhat_train[:, sel]), 'training predictions change with the units of the predictors', **info)
                res.check(close(m0.yhat_test[:, selt], m1.yhat_test[:, selt]), 'test predictions change with the units of the predictors', **info)
                res.check(close(m0.sigest or 0, m1.sigest or 0, 1e-3), f'sigest changes from {m0.sigest} to {m1.sigest} with the units of the predictors', **info)
                if s0 is not None:
                    res.check(np.array_equal(np.asarray(s0['X'])[:, sel], np.asarray(s1['X'])[:, sel]), 'bins change with the units of the predictors', **info)
                    res.check(np.array_equal(s0['max_split'], s1['max_split']), 'number of cutpoints changes with the units of the predictors', **info)
            else:
                for f in ('yhat_train', 'yhat_test', 'sigma', 'first_sigma', 'offset', 'scale'):
                    res.check(close(getattr(m0, f), getattr(m1, f)), f'{f} changes with the units of the predictors', **info)
            res.count('transitions')
            res.count('traces_validated_against_impl')
    res.count('states', len(m0.sigma))
    res.sample(info)
    return res


def jobs_c21():
    j = []
    j += [(units_y, (0, dict(), False)), (units_y, (1, dict(lamda=0.5, offset=1.5, ntree=3), False)), (units_y, (2, dict(sigest=0.5, usequants=True, numcut=255), False))]
    j += [(units_x, (0, dict(lamda=0.5), False)), (units_x, (1, dict(sigest=0.5, usequants=True, numcut=255), False))]
    for w, over in enumerate([dict(), dict(lamda=.5), dict(sigest=2.), dict(offset=3.), dict(offset=0., k=1, sigdf=5, sigquant=.5), dict(usequants=True), dict(usequants=True, numcut=255), dict(numcut=15), dict(numcut=10)]):
        over = dict(over, ndpost=30)
        j += [(units_y, (w, over, True)), (units_x, (w, over, True))]
    return j


# ------------------------------------------------------------------------- C22

def containers():
    """ name -> functions from numpy (p, n), (n,) """
    from jax import numpy as jnp
    import pandas as pd
    import polars as pl
    names = lambda p: [f'c{i}' for i in range(p)]
    xs = {
        'numpy': lambda X: X,
        'numpy-f': lambda X: np.asfortranarray(X),
        'numpy64': lambda X: X.astype(np.float64),
        'strided': lambda X: np.repeat(X, 2, axis=1)[:, ::2],
        'jax': lambda X: jnp.asarray(X),
        'pandas': lambda X: pd.DataFrame({k: x for k, x in zip(names(len(X)), X)}),
        'pandas-index': lambda X: pd.DataFrame({k: x for k, x in zip(names(len(X)), X)}, index=np.arange(X.shape[1])[::-1] * 3),
        'pandas-64': lambda X: pd.DataFrame({k: x.astype(float) for k, x in zip(names(len(X)), X)}),
        'polars': lambda X: pl.DataFrame({k: x for k, x in zip(names(len(X)), X)}),
        'pandas-intnames': lambda X: pd.DataFrame(X.T),
        'pandas-mixed': lambda X: pd.DataFrame({k: x if i % 2 else x.astype(float) for i, (k, x) in enumerate(zip(names(len(X)), X))}),
        'pandas-multi': lambda X: pd.DataFrame(X.T, columns=pd.MultiIndex.from_tuples([('a', i) for i in range(len(X))])),
    }
    ys = {
        'numpy': lambda y: y,
        'numpy64': lambda y: y.astype(float),
        'jax': lambda y: jnp.asarray(y),
        'pandas': lambda y: pd.Series(y),
        'pandas-named': lambda y: pd.Series(y, name='resp', index=np.arange(len(y))[::-1]),
        'polars': lambda y: pl.Series('y', y),
    }
    return xs, ys


OUTS = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest')


def same_fit(res, m0, m1, info, exact=True):
    for f in OUTS:
        a, b = np.asarray(getattr(m0, f)), np.asarray(getattr(m1, f))
        res.check(a.dtype == b.dtype and (np.array_equal(a, b) if exact else close(a, b, 1e-6, 1e-6)), f'{f} depends on the container', got=b, want=a, **info)


def same_state(res, s0, s1, info):
    if s0 is None or s1 is None:
        return
    for f in ('X', 'y', 'max_split', 'sigma2_beta', 'p_nonterminal'):
        res.check(np.array_equal(s0[f], s1[f]), f'{f} of the chain depends on the container', **info)


def container_fits(p, kind, fake, over):
    res = Result()
    X, y = data(24, p, kind)
    xt = X[:, ::2][:, :9]
    xs, ys = containers()
    if kind == 'big': # only the containers that keep the integers
        xs = {k: f for k, f in xs.items() if '64' not in k and k != 'pandas-mixed'}
    m0, s0 = fit(X, y, xt, fake, **over)
    res.count('states')
    combos = list(itertools.product(xs, ys)) if fake else [(a, 'pandas') for a in xs] + [('polars', b) for b in ys]
    for cx, cy in combos:
        info = dict(x=cx, y=cy, p=p, kind=kind)
        m1, s1 = fit(xs[cx](X), ys[cy](y), xs[cx](xt), fake, **over)
        same_fit(res, m0, m1, info)
        same_state(res, s0, s1, info)
        pr = np.asarray(m1.predict(xs[cx](xt)))
        res.check(np.array_equal(pr, np.asarray(m0.yhat_test)), 'prediction depends on the container', **info)
        res.count('transitions')
        res.count('traces_validated_against_impl')
        # equivalent containers for prediction: same kind and columns
        groups = [{'numpy', 'numpy-f', 'numpy64', 'strided', 'jax'}, {'pandas', 'pandas-index', 'pandas-64', 'polars', 'pandas-mixed'}]
        for g in groups:
            if cx in g and cy == 'numpy' or cx in g and not fake:
                for other in sorted(g & set(xs)):
                    try:
                        pr = np.asarray(m1.predict(xs[other](xt)))
                    except Exception as e:
                        res.violation(f'predicting with {other} after training with {cx} fails: {type(e).__name__}', **info)
                        continue
                    res.check(np.array_equal(pr, np.asarray(m0.yhat_test)), f'prediction with {other} differs', **info)
                    res.count('transitions')
    res.sample(info)
    return res


def refusals(train, fake=True):
    """ every mismatched input, at construction and at prediction """
    import pandas as pd
    import polars as pl
    jax, jnp, gbart, _ = lib()
    res = Result()
    xs, ys = containers()
    p = 3
    X, y = data(12, p)
    good = xs[train](X)
    kw = {**BASE, 'ndpost': 4}

    def refused(what, f):
        res.count('transitions')
        res.count('traces_validated_against_impl')
        with session(fake):
            try:
                f()
            except Exception:
                return
        res.violation(f'{what} is not refused, training with {train}', train=train, what=what)
    # training
    if train in ('numpy', 'jax', 'pandas', 'polars'):
        for cy in ys:
            for k in (0, 1, 2, 11, 13, 24, 3):
                yy = np.resize(y, k).astype(F)
                refused(f'response of length {k} ({cy}) with 12 datapoints', lambda: gbart(good, ys[cy](yy), **kw))
        for what, yy in [('a matrix', y[:, None]), ('a row matrix', y[None, :]), ('a scalar', y[0]), ('a 3d array', y[:, None, None]), ('a data frame', pd.DataFrame(dict(y=y))), ('a polars data frame', pl.DataFrame(dict(y=y))), ('a transposed pair', np.stack([y, y]))]:
            refused(f'{what} as response', lambda: gbart(good, yy, **kw))
    for what, xx in [('vector', X[0]), ('scalar', X[0, 0]), ('3d array', X[None]), ('3d array', X[:, :, None]), ('transposed matrix', X.T)]:
        refused(f'{what} as predictors', lambda: gbart(xx, y, **kw))
        refused(f'jax {what} as predictors', lambda: gbart(jnp.asarray(xx), y, **kw))
    # test
    with session(fake):
        m = gbart(good, y, **kw)
    frame = hasattr(good, 'columns')
    tests = []
    xt = X[:, :5]
    if frame:
        cols = list(good.columns)
        D = {c: xt[i] for i, c in enumerate(cols)} if train != 'pandas-multi' else None
        tests += [('array', xt), ('jax array', jnp.asarray(xt)), ('transposed array', xt.T)]
        if D is not None:
            for mod, make in (('pandas', lambda d: pd.DataFrame(d)), ('polars', lambda d: pl.DataFrame({str(k): v for k, v in d.items()}))):
                if train == 'pandas-intnames' and mod == 'polars':
                    continue
                for perm in itertools.permutations(range(p)):
                    if perm != tuple(range(p)):
                        tests.append((f'{mod} columns in order {perm}', make({cols[i]: D[cols[i]] for i in perm})))
                for r in range(1, p):
                    for sub in itertools.combinations(range(p), r):
                        tests.append((f'{mod} with only columns {sub}', make({cols[i]: D[cols[i]] for i in sub})))
                for i in range(p):
                    tests.append((f'{mod} with column {i} renamed', make({(c if k != i else 'other'): D[c] for k, c in enumerate(cols)})))
                tests.append((f'{mod} with an extra column', make({**D, 'extra': xt[0]})))
                tests.append((f'{mod} with an extra first column', make({'extra': xt[0], **D})))
            tests.append(('duplicated column', pd.DataFrame(xt.T, columns=[cols[0]] * p)))
            tests.append(('other column names', pd.DataFrame(xt.T, columns=[f'd{i}' for i in range(p)])))
        else:
            tests.append(('flat columns', pd.DataFrame(xt.T)))
    else:
        tests += [('pandas frame', pd.DataFrame(xt.T)), ('polars frame', pl.DataFrame({f'c{i}': x for i, x in enumerate(xt)}))]
        for r in (0, 1, 2, 4, 5, 6):
            tests.append((f'{r} predictors', np.resize(xt, (r, 5)).astype(F)))
            tests.append((f'{r} predictors (jax)', jnp.asarray(np.resize(xt, (r, 5)).astype(F))))
        tests += [('vector', xt[:, 0]), ('3d array', xt[:, :, None]), ('3d array', xt[None]), ('transposed array', xt.T), ('jax vector', jnp.asarray(xt[:, 0]))]
    for what, t in tests:
        refused(f'predicting with {what}', lambda: m.predict(t))
        refused(f'x_test={what}', lambda: gbart(good, y, x_test=t, **kw))
    res.count('states', len(tests))
    # good ones still accepted
    with session(fake):
        res.check(np.shape(m.predict(xs[train](xt))) == (4, 5), 'legitimate test predictors refused')
    res.sample(dict(train=train, refused=[t[0] for t in tests][:20]))
    return res


def jobs_c22():
    j = [(container_fits, (2, 'f', False, dict())), (container_fits, (3, 'f', False, dict(usequants=True, ntree=1, maxdepth=2)))]
    for p, kind in ((1, 'f'), (2, 'f'), (3, 'i'), (4, 'few'), (24, 'f'), (30, 'f')):
        j.append((container_fits, (p, kind, True, dict(ndpost=20))))
        j.append((container_fits, (p, kind, True, dict(ndpost=5, usequants=True, numcut=255))))
    j += [(container_fits, (2, 'big', True, dict(ndpost=5, usequants=True, numcut=255, lamda=1.)))]
    j += [(refusals, (t,)) for t in ('numpy', 'jax', 'pandas', 'polars', 'pandas-intnames', 'pandas-multi', 'pandas-mixed', 'numpy64')]
    return j


# ------------------------------------------------------------------------- C29

R29 = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda')


def results(m):
    return {k: np.array(getattr(m, k)) for k in R29}


def frozen(x):
    import copy
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.tobytes(), x.shape, str(x.dtype)
    if hasattr(x, 'to_numpy'):
        return frozen(x.to_numpy()), list(getattr(x, 'columns', [])), repr(getattr(x, 'index', None))
    return repr(x)


KW29 = {
    'base': (dict(ndpost=4, nskip=3), 24, 2),
    'thin': (dict(ndpost=3, nskip=0, keepevery=3, usequants=True, numcut=255, initkw=dict(save_ratios=True)), 20, 2),
    'opts': (dict(ntree=3, maxdepth=4, lamda=.5, offset=.5, initkw=dict(min_points_per_leaf=2, save_ratios=True)), 32, 2),
}


def repeat(name):
    jax, jnp, gbart, _ = lib()
    res = Result()
    over, n, p = KW29[name]
    X, y = data(n, p)
    xt = X[:, ::3] + F(1 / 16)
    kw = {**BASE, **over}
    ref0 = {}
    args = dict(X=X, y=y, xt=xt, kw=kw)

    def do(seed, **more):
        before = frozen(args)
        m = gbart(X, y, x_test=xt, seed=seed, **{**kw, **more})
        r = results(m)
        res.check(frozen(args) == before, 'fitting modifies the data or settings passed in', case=name)
        res.count('transitions')
        return r

    def same(a, b, what, **info):
        for f in R29:
            if not res.check(a[f].dtype == b[f].dtype and np.array_equal(a[f], b[f], equal_nan=True), f'{what}: {f} differs', case=name, **info):
                break
        res.count('traces_validated_against_impl')
    seeds = (0, 1, 2, 3, 12345)
    for s in seeds:
        ref0[s] = do(s)
    for order in ([0, 1, 2, 3, 12345], [12345, 3, 2, 1, 0], [0, 0, 3, 0, 3, 3]):
        for s in order:
            same(ref0[s], do(s), 'repeated fit', seed=s)
    for s in seeds:
        for v in (np.int32(s), np.array(s), jnp.array(s), jax.random.key(s)):
            same(ref0[s], do(v), f'seed given as {type(v).__name__}', seed=s)
    for a, b in itertools.combinations(seeds, 2):
        res.check(not np.array_equal(ref0[a]['sigma'], ref0[b]['sigma']) and not np.array_equal(ref0[a]['yhat_train'], ref0[b]['yhat_train']), f'seeds {a} and {b} give the same chain', case=name)
    # seeds that differ in some of the bits only
    big = (256, 65536, 65537, 1 + 2 ** 20, 2 ** 31 - 1, 2 ** 31 - 2, 1 + 2 ** 24, -1, -2, -12345, -2 ** 31)
    more = {s: do(s) for s in big}
    for s in big:
        same(more[s], do(jax.random.key(s)), 'seed given as key', seed=s)
    every = {**ref0, **more}
    for a, b in itertools.combinations(every, 2):
        res.check(not np.array_equal(every[a]['sigma'], every[b]['sigma']), f'seeds {a} and {b} give the same chain', case=name)
    res.count('states', len(every))
    # default seed
    m = gbart(X, y, x_test=xt, **kw)
    same(ref0[0], results(m), 'default seed')
    # other fits in between, with other settings, do not matter
    other = dict(initkw=dict(min_points_per_leaf=1), k=3, sigdf=5)
    if 'initkw' in kw:
        other['initkw'] = dict(kw['initkw'], min_points_per_leaf=1)
    do(5, **other)
    with session(True):
        gbart(X, y, **{**kw, 'initkw': dict(num_trees=1, min_points_per_leaf=None, save_ratios=True)})
        gbart(X[:, ::2], y[::2], **{**kw, 'maxdepth': 2, 'usequants': True})
    same(ref0[0], do(0), 'fit after other fits')
    same(ref0[3], do(3), 'fit after other fits')
    # reading the results in any order, more than once
    m = gbart(X, y, x_test=xt, seed=1, **kw)
    a = [np.array(m.predict(xt)), np.array(m.yhat_train_mean), np.array(m.predict(X)), np.array(m.yhat_train), np.array(m.predict(xt)), np.array(m.yhat_train)]
    res.check(np.array_equal(a[0], a[4]) and np.array_equal(a[0], ref0[1]['yhat_test']) and np.array_equal(a[3], a[5]) and np.array_equal(a[3], ref0[1]['yhat_train']), 'results depend on the order in which they are asked for', case=name)
    # a new process
    jax.clear_caches()
    same(ref0[2], do(2), 'fit after recompilation')
    # inputs changed later do not matter, and are not written to
    X2, y2, xt2 = X.copy(), y.copy(), xt.copy()
    for arr in (X2, y2, xt2):
        arr.flags.writeable = False
    m = gbart(X2, y2, x_test=xt2, seed=1, **kw)
    same(ref0[1], results(m), 'read-only data')
    X3, y3 = X.copy(), y.copy()
    m = gbart(X3, y3, x_test=xt, seed=1, **kw)
    jax.block_until_ready(m.sigma)
    res.sample(dict(case=name, seeds=seeds))
    return res


def related(X, y):
    """ datasets that share shape and some of the content """
    X1 = X.copy()
    X1[:, 1:] = X[:, 1:] * F(1.5) - F(.25)
    X2 = X.copy()
    X2[:, ::2] += F(.5)
    X2[:, 0] = X[:, 0]
    X3 = X[:, ::-1].copy()
    y1 = y.copy()
    y1[1:] = F(2) * y[1:] + F(1)
    return [(X, y), (X1, y), (X2, y1), (X3, y), (X, y1), (X1[::-1].copy(), y1)]


def history(over, length):
    """ every sequence of fits on related datasets: each is that of its own data, and stays so """
    jax, jnp, gbart, _ = lib()
    res = Result()
    X, y = data(12, 2)
    D = related(X, y)
    xt = X[:, ::3] + F(1 / 16)
    kw = {**BASE, 'ndpost': 12, **over}
    with session(True) as cap:
        first = {}
        for seq in itertools.product(range(len(D)), repeat=length):
            models = []
            for i in seq:
                Xi, yi = D[i]
                m = gbart(Xi, yi, x_test=xt, **kw)
                if not cap.runs:
                    res.note('the interface does not use run_mcmc')
                    return res
                if i not in first:
                    check_fit(res, m, cap, Xi, yi, kw, xt, dataset=i, sequence=seq, settings=over)
                    first[i] = results(m)
                got = results(m)
                res.count('transitions')
                for f in R29:
                    res.check(np.array_equal(got[f], first[i][f], equal_nan=True), f'{f} depends on the fits made before', dataset=i, sequence=seq, settings=over)
                models.append((i, m))
            for i, m in models:
                p = np.asarray(m.predict(xt))
                res.check(np.array_equal(p, first[i]['yhat_test']), 'predictions change after other fits', dataset=i, sequence=seq, settings=over)
            res.count('states')
            if len(res.violations) > 3:
                return res
    res.count('traces_validated_against_impl', res.counts['transitions'])
    res.sample(dict(settings=over, sequences=res.counts['states']))
    return res


def inside(name, how):
    """ fits inside jit or vmap """
    jax, jnp, gbart, _ = lib()
    res = Result()
    over, n, p = KW29[name]
    X, y = data(n, p)
    xt = X[:, ::3] + F(1 / 16)
    kw = {**BASE, **over}

    def task(X, y, xt, key):
        m = gbart(X, y, x_test=xt, seed=key, **kw)
        return {k: jnp.asarray(getattr(m, k)) for k in R29}

    seeds = (0, 1, 2)
    plain = [results(gbart(X, y, x_test=xt, seed=s, **kw)) for s in seeds]
    keys = jax.random.split(jax.random.key(9), 3)
    plaink = [results(gbart(X, y, x_test=xt, seed=k, **kw)) for k in keys]
    info = dict(case=name, how=how)

    def same(got, want, **more):
        got = {k: np.asarray(v) for k, v in got.items()}
        for f in R29:
            res.check(got[f].shape == want[f].shape and close(got[f], want[f], 1e-3, 1e-3 * (1 + abs(float(want['scale'])))), f'fit inside {how}: {f} differs', got=got[f], want=want[f], **info, **more)
        res.count('transitions')
        res.count('traces_validated_against_impl')
    if how == 'jit':
        f = jax.jit(task)
        for i, k in enumerate(keys):
            same(f(X, y, xt, k), plaink[i], key=i)
        for i, s in enumerate(seeds):
            same(f(X, y, xt, jax.random.key(s)), plain[i], seed=s)
        g = jax.jit(lambda s: task(X, y, xt, s))
        same(g(1), plain[1], seed='traced integer')
    elif how == 'vmap':
        out = jax.vmap(lambda k: task(X, y, xt, k))(keys)
        for i in range(3):
            same({k: v[i] for k, v in out.items()}, plaink[i], key=i)
        out = jax.vmap(lambda s: task(X, y, xt, s))(jnp.array(seeds))
        for i in range(3):
            same({k: v[i] for k, v in out.items()}, plain[i], seed=i)
    elif how == 'jit of vmap':
        out = jax.jit(jax.vmap(lambda k: task(X, y, xt, k)))(keys)
        for i in range(3):
            same({k: v[i] for k, v in out.items()}, plaink[i], key=i)
    elif how == 'vmap over responses':
        Y = np.stack([y, y[::-1], 2 * y])
        out = jax.vmap(lambda y: task(X, y, xt, jax.random.key(4)))(jnp.asarray(Y))
        for i in range(3):
            same({k: v[i] for k, v in out.items()}, results(gbart(X, Y[i], x_test=xt, seed=4, **kw)), response=i)
    res.count('states', 3)
    res.sample(info)
    return res


def jobs_c29():
    j = [(repeat, (nm,)) for nm in KW29]
    j += [(history, (o, 3 if THOROUGH else 2)) for o in (dict(usequants=True), dict(), dict(usequants=True, numcut=255, maxdepth=2), dict(lamda=.5, offset=1., numcut=3))]
    j += [(inside, (nm, how)) for nm in (KW29 if THOROUGH else ('base', 'opts')) for how in ('jit', 'vmap', 'jit of vmap', 'vmap over responses')]
    return j


# ------------------------------------------------------------------------- C33

def method(res, m, name):
    """ a diagnostic method, None if it does not exist """
    f = getattr(m, name, None)
    if f is None:
        res.note(f'{name} not available')
    return f


def shown(func, *a, **k):
    import contextlib
    import io
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        func(*a, **k)
    return buf.getvalue()


def ref_diagnostics(main, X):
    """ depth and occupancy counts of each iteration, from the reference traversal """
    var = np.asarray(main['var_trees']).astype(int)
    split = np.asarray(main['split_trees']).astype(int)
    T, m, H = split.shape
    d = H.bit_length()
    depth = np.zeros((T, d), int)
    occ = np.zeros((T, X.shape[1] + 1), int)
    pos = ref.traverse(X, var.reshape(T * m, H), split.reshape(T * m, H)).reshape(T, m, -1)
    _, leaf = ref.reachable(split)
    for t in range(T):
        for j in range(m):
            nodes = np.flatnonzero(leaf[t, j])
            depth[t, max(ref.depth(int(i)) for i in nodes)] += 1
            for i in nodes:
                occ[t, np.count_nonzero(pos[t, j] == i)] += 1
    return depth, occ


def diagnostics(name, over, n, p, kind, fake):
    jax, jnp, gbart, _ = lib()
    from bartz import debug
    res = Result()
    X, y = data(n, p, kind)
    kw = {**BASE, **over}
    with session(fake) as cap:
        m = gbart(X, y, **kw)
    if not cap.runs:
        res.note('the interface does not use run_mcmc')
        return res
    state, burn, main = cap.runs[-1][1]
    scale, offset = float(m.scale), float(m.offset)
    B = np.asarray(state['X']).astype(int)
    info = dict(case=name, settings=kw)
    T, nt = np.asarray(main['split_trees']).shape[:2]
    depth, occ = ref_diagnostics(main, B)

    def check(f, want, *a, tol=1e-4):
        got = f(*a)
        res.count('transitions')
        got, want = np.asarray(got, float), np.asarray(want, float)
        res.check(got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True), f'{f.__name__}{a} gives something else', got=got, want=want, **info)

    if (f := method(res, m, '_depth_distr')):
        check(f, depth)
    if (f := method(res, m, '_points_per_leaf_distr')):
        check(f, occ)
    if (f := method(res, m, '_check_trees')):
        check(f, np.zeros((T, nt)))
    if (f := method(res, m, '_tree_goes_bad')):
        check(f, np.zeros((T, nt)))
    a0, b0 = float(state['sigma2_alpha']), float(state['sigma2_beta'])
    if (f := method(res, m, '_sigma_harmonic_mean')):
        check(f, scale * math.sqrt(b0 / a0), True)
        check(f, math.sqrt(float(m.lamda)), True)
        r = np.asarray(state['resid'], float)
        check(f, scale * math.sqrt((b0 + (r * r).sum() / 2) / (a0 + n / 2)))
    if (f := method(res, m, '_compare_resid')):
        flat = {k: np.asarray(state[k]).astype(float if k == 'leaf_trees' else int) for k in ('leaf_trees', 'var_trees', 'split_trees')}
        yh = ref.evaluate_trees(B, flat['leaf_trees'], flat['var_trees'], flat['split_trees']).sum(0)
        ys = (np.asarray(y, float) - offset) / scale
        check(f, np.stack([np.asarray(state['resid'], float), ys - yh]), tol=1e-3)
    if not fake:
        cnt = {k: np.asarray(main[k], float).sum() for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')}
        gp, ga, pp, pa = cnt.values()
        if gp and pp:
            for nm, w in (('_avg_acc', (ga / gp, pa / pp)), ('_avg_prop', (gp / (gp + pp), pp / (gp + pp))), ('_avg_move', (ga / (gp + pp), pa / (gp + pp)))):
                if (f := method(res, m, nm)):
                    check(f, w)
    if (f := method(res, m, '_show_tree')):
        for t, j in itertools.product(sorted({0, 1, T // 2, T - 1}), range(nt)):
            for all_ in (False, True):
                want = shown(debug.print_tree, *(main[k][t, j] for k in ('leaf_trees', 'var_trees', 'split_trees')), all_)
                got = shown(f, t, j, all_)
                res.count('transitions')
                res.check(got == want, f'_show_tree({t}, {j}, {all_}) shows something else', got=got, want=want, **info)
    res.count('states', T)
    res.count('traces_validated_against_impl')
    res.sample(dict(case=name, depth=depth[-1], iterations=T))
    return res


def corrupted(T, nt, fault):
    """ every pattern of ill-formed trees over a few iterations """
    jax, jnp, gbart, _ = lib()
    res = Result()
    X, y = data(12, 2)
    kw = dict(BASE, ndpost=T, ntree=nt)
    bits = {'slot': 2, 'nan': 3, 'stray': 4}[fault]
    for pat in itertools.product((0, 1), repeat=T * nt):
        bad = np.array(pat).reshape(T, nt)

        def edit(state, burn, main):
            main = {k: np.array(v) for k, v in main.items()}
            if fault == 'nan':
                main['leaf_trees'][bad == 1, 1] = np.nan
            elif fault == 'slot':
                main['split_trees'][bad == 1, 0] = 1
            else:
                main['split_trees'][bad == 1] = 0
                main['split_trees'][bad == 1, 3] = 1
            return state, burn, {k: jnp.asarray(v) for k, v in main.items()}
        with session(True, edit) as cap:
            m = gbart(X, y, **kw)
        if not cap.runs:
            res.note('the interface does not use run_mcmc')
            return res
        info = dict(pattern=bad, fault=fault)
        if (f := method(res, m, '_check_trees')):
            got = np.asarray(f()).astype(int)
            res.check(np.array_equal(got != 0, bad == 1), 'ill-formed trees not reported where they are', got=got, **info)
            res.check(np.all((got == 0) | (got == 1 << bits)), f'wrong defect reported for trees with {fault}', got=got, **info)
        if (f := method(res, m, '_tree_goes_bad')):
            before = np.concatenate([np.zeros((1, nt), int), bad[:-1]])
            res.check(np.array_equal(np.asarray(f()).astype(bool), (bad == 1) & (before == 0)), 'onsets of ill-formed trees reported elsewhere', got=f(), **info)
        res.count('transitions', 2)
        res.count('states')
        res.count('traces_validated_against_impl')
    res.sample(dict(patterns=2 ** (T * nt), fault=fault))
    return res


def jobs_c33():
    j = []
    for nm, (over, n, p, kind) in REAL.items():
        if over.get('ndpost', 3):
            j.append((diagnostics, (nm, over, n, p, kind, False)))
    for i, (md, nt, numcut, n, p) in enumerate([(3, 2, 7, 24, 2), (2, 3, 2, 5, 1), (1, 2, 3, 4, 2), (4, 1, 3, 16, 2), (3, 3, 255, 300, 1), (5, 2, 4, 33, 3)]):
        j.append((diagnostics, (f'fake{i}', dict(maxdepth=md, ntree=nt, numcut=numcut, ndpost=60), n, p, 'f', True)))
    j += [(corrupted, a) for a in ((3, 2, 'stray'), (3, 1, 'nan'), (2, 2, 'slot'), (4, 1, 'stray'))]
    if THOROUGH:
        j += [(corrupted, a) for a in ((4, 2, 'stray'), (3, 3, 'nan'), (4, 2, 'slot'))]
    return j


# ------------------------------------------------------------------------- C34

def many_fits(X, Y, xt, seed=0, **kw):
    """ fits on a batch of datasets of the same size, X (B, p, n), Y (B, n), xt (p, m) """
    jax, jnp, gbart, _ = lib()
    kw = {**BASE, **kw}

    def task(X, y):
        m = gbart(X, y, x_test=xt, seed=seed, **kw)
        return {k: jnp.asarray(getattr(m, k)) for k in R34}
    out = jax.jit(jax.vmap(task))(jnp.asarray(X), jnp.asarray(Y))
    return {k: np.asarray(v) for k, v in out.items()}


R34 = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda')


def permutations(n):
    if n <= 5:
        return np.array(list(itertools.permutations(range(n))))
    out = [np.arange(n), np.arange(n)[::-1]]
    for i in range(0, n - 1, 1 + n // 40 * 8):
        p = np.arange(n)
        p[i], p[i + 1] = i + 1, i
        out.append(p)
    for k in (1, 2, 7, n // 2, n - 1):
        out.append(np.roll(np.arange(n), k))
    for k in (3, 5, 7, 11):
        if math.gcd(n, k) == 1:
            out.append(np.arange(n) * k % n)
    return np.array(out)


def orders(n, p, kind, over):
    """ all permutations of the training data """
    res = Result()
    X, y = data(n, p, kind)
    X, y = np.asarray(X), np.asarray(y)
    xt = np.concatenate([X[:, ::2], X[:, :3] + F(1 / 16)], axis=1)
    P = permutations(n)
    got = many_fits(X[:, P].swapaxes(0, 1), y[P], xt, **over)
    want = {k: v[0] for k, v in got.items()}
    tol = 1e-3 * (1 + abs(float(want['scale'])))
    for b, perm in enumerate(P):
        info = dict(n=n, p=p, kind=kind, settings=over, permutation=perm)
        for f in R34:
            w = want[f][..., perm] if f.startswith('yhat_train') else want[f]
            res.check(close(got[f][b], w, 1e-3, tol), f'{f} changes with the order of the datapoints', got=got[f][b], want=w, **info)
        res.count('transitions')
        res.count('traces_validated_against_impl')
    res.distinct('distinct_training_predictions', *[digest(np.round(a, 3)) for a in want['yhat_train']])
    res.count('states', len(want['yhat_train']) * len(P))
    res.sample(dict(settings=over, n=n, yhat_train=want['yhat_train'][-1]))
    return res


def company(nm, over, n, p, kind):
    """ predictions at a set of points against predictions at all its subsets, and at repeated and reordered points """
    res = Result()
    jax, jnp, gbart, _ = lib()
    X, y = data(n, p, kind)
    xt = np.asarray(X)[:, np.array([0, 1, 2, 0, 3, 4]) % n].copy()
    xt[:, 1] += 1
    xt[:, 2] -= 100
    xt[0, 4] += 1000
    kw = {**BASE, **over}
    m = gbart(X, y, x_test=xt, **kw)
    full = np.asarray(m.predict(xt))
    tol = 1e-5 * (1 + abs(float(m.scale)))
    res.check(close(m.yhat_test, full, 1e-5, tol), 'test predictions at construction differ from later ones', case=nm)
    sel = [list(s) for k in range(7) for s in itertools.combinations(range(6), k)]
    sel += [list(s) for s in itertools.permutations(range(6))][:: 1 if THOROUGH else 7]
    sel += [[i] * 5 for i in range(6)] + [list(range(6)) * 50, [3] * 257]
    for s in sel:
        got = np.asarray(m.predict(xt[:, s]))
        res.check(got.shape == (len(full), len(s)) and close(got, full[:, s], 1e-5, tol), 'the prediction at a point depends on the other points', points=s, got=got, want=full[:, s], case=nm)
        res.count('transitions')
        res.count('traces_validated_against_impl')
    for s in sel[6:60:9]:
        m2 = gbart(X, y, x_test=xt[:, s], **kw)
        res.check(close(m2.yhat_test, full[:, s], 1e-3, 100 * tol) and close(m2.yhat_train, m.yhat_train, 1e-3, 100 * tol), 'the fit depends on the test points', points=s, case=nm)
        res.count('transitions')
        res.count('traces_validated_against_impl')
    res.count('states', len(full))
    res.sample(dict(case=nm, prediction=full[-1:]))
    return res


MONOTONE = [
    lambda x: x, lambda x: x ** 3, np.exp, lambda x: np.arctan(x) * 1000, lambda x: np.where(x > 0, x * 1e6, x * 1e-3),
    lambda x: np.sign(x) * np.abs(x) ** .25, lambda x: np.unique(x, return_inverse=True)[1].reshape(x.shape) * 1., lambda x: -np.exp(-x) - 5,
    lambda x: 2. ** np.unique(x, return_inverse=True)[1].reshape(x.shape) - 2. ** 10,
]


def ranks(n, p, kind, over):
    """ strictly increasing transformations of the predictors, with quantile cutpoints """
    res = Result()
    X, y = data(n, p, kind)
    X = np.asarray(X, float)
    batch, which = [], []
    for combo in itertools.product(range(len(MONOTONE)), repeat=p):
        Z = np.stack([MONOTONE[t](x) for t, x in zip(combo, X)]).astype(F)
        same = all(np.array_equal(np.unique(z, return_inverse=True)[1], np.unique(x, return_inverse=True)[1]) for z, x in zip(Z, X))
        if same:
            batch.append(Z)
            which.append(combo)
    over = dict(dict(lamda=.4, usequants=True), **over)
    got = many_fits(np.stack(batch), np.broadcast_to(y, (len(batch), n)), batch[0][:, :0], **over)
    want = {k: v[0] for k, v in got.items()}
    for b, combo in enumerate(which):
        for f in ('yhat_train', 'sigma', 'first_sigma'):
            res.check(close(got[f][b], want[f], 1e-3, 1e-3 * (1 + abs(float(want['scale'])))), f'with quantile cutpoints {f} changes under strictly increasing transformations of the predictors', transformations=combo, got=got[f][b], want=want[f], settings=over)
        res.count('transitions')
        res.count('traces_validated_against_impl')
    res.count('states', len(which) * len(want['sigma']))
    res.sample(dict(settings=over, n=n, sigma=want['sigma']))
    return res


def jobs_c34():
    one = dict(initkw=dict(min_points_per_leaf=1), ndpost=8, nskip=2)
    j = [(orders, (5, 2, 'f', one)), (orders, (4, 1, 'f', dict(one, ntree=1, lamda=.1, usequants=True, numcut=255))),
         (orders, (5, 1, 'f', dict(one, sigest=.3, ntree=3, initkw=dict(min_points_per_leaf=None, resid_batch_size=2, count_batch_size=3)))),
         (orders, (24, 2, 'f', dict(ndpost=8, nskip=2, initkw=dict(min_points_per_leaf=2)))),
         (orders, (5, 6, 'f', one)), (orders, (4, 4, 'i', dict(one, usequants=True, numcut=255))),
         (orders, (33, 3, 'i', dict(ndpost=8, nskip=2, usequants=True, numcut=3, initkw=dict(min_points_per_leaf=3, resid_batch_size=5)))),
         (orders, (70, 2, 'f', dict(ndpost=4, nskip=1, initkw=dict(min_points_per_leaf=3)))), (orders, (130, 1, 'f', dict(ndpost=4, nskip=1, usequants=True, numcut=100))), (orders, (300, 3, 'f', dict(ndpost=3, nskip=0))),
         (orders, (24, 2, 'few', dict(ndpost=8, nskip=2, keepevery=2, maxdepth=4)))]
    j += [(ranks, (20, 2, 'f', dict(ndpost=8, nskip=2, numcut=255, initkw=dict(min_points_per_leaf=2)))), (ranks, (24, 2, 'f', dict(ndpost=8, nskip=2, numcut=4))),
          (ranks, (12, 1, 'f', dict(ndpost=12, numcut=6, ntree=1, initkw=dict(min_points_per_leaf=1))))]
    for nm, (over, n, p, kind) in REAL.items():
        if over.get('ndpost', 3):
            j.append((company, (nm, over, n, p, kind)))
    return j


# ------------------------------------------------------------------------- C35

def letters(k, m):
    """ all arrays of m values out of k letters """
    return np.array(list(itertools.product(range(k), repeat=m)), F).reshape(k ** m, m)


def sane(res, got, X, Y, xt, **info):
    """ what must hold of the fits on a batch of datasets """
    n = Y.shape[1]
    reported = False
    for b in range(len(Y)):
        x, y = X[b], Y[b]
        info.update(x_train=x, y_train=y)
        constant = n >= 2 and np.all(y == y[:1])
        if constant:
            ok = all(np.all(np.isfinite(got[f][b])) for f in R34)
            if not ok:
                if not reported:
                    res.violation('constant response: the results are not finite', **info)
                reported = True
                continue
        elif not got['lamda'][b] > 0:
            # the response is a linear function of the predictors, so the prior of the error variance collapses
            res.check(got['lamda'][b] == 0, 'the scale of the error variance is not finite and non-negative', lamda=got['lamda'][b], **info)
            xc = (x - x.mean(1, keepdims=True)).T.astype(float)
            yc = y - y.mean()
            rest = yc - xc @ np.linalg.lstsq(xc, yc, rcond=1e-5)[0]
            res.check(n >= 2, 'the scale of the error variance is 0 without data to estimate it', **info)
            res.check(np.linalg.norm(rest) <= 1e-4 * np.linalg.norm(yc), 'the scale of the error variance is 0 with a response which is not a linear function of the predictors', **info)
            res.distinct('linear_responses', digest(x, y))
            continue
        for f in R34:
            res.check(np.all(np.isfinite(got[f][b])), f'{f} is not finite', got=got[f][b], **info)
        for f in ('sigma', 'first_sigma'):
            res.check(not np.any(got[f][b] < 0), f'{f} is negative', got=got[f][b], **info)
        res.check(n < 2 or got['scale'][b] > 0, 'the scale of the response is not positive', got=got['scale'][b], **info)
        # equal predictors, equal predictions
        for part, z in (('yhat_train', x), ('yhat_test', xt)):
            first = np.unique(z.T, axis=0, return_index=True, return_inverse=True)[1:] if z.shape[1] else (np.arange(0),) * 2
            same = got[part][b][:, first[0]][:, np.reshape(first[1], -1)]
            res.check(close(got[part][b], same, 1e-5, 1e-5 * (1 + abs(float(got['scale'][b])))), f'{part} differs between points with the same predictors', got=got[part][b], **info)
    res.count('transitions', len(Y))
    res.count('traces_validated_against_impl', len(Y))


def lattice(n, p, kx, ky, over):
    """ all datasets of n points with p predictors, with small sets of values for predictors and responses """
    res = Result()
    XX, YY = letters(kx, n * p).reshape(kx ** (n * p), p, n), letters(ky, n)
    pairs = list(itertools.product(XX, YY))
    xt = np.concatenate([letters(2, p).T, np.full((p, 1), -1e6, F), np.full((p, 1), 1e6, F)], axis=1)
    X, Y = (np.stack(a) for a in zip(*pairs))
    got = many_fits(X, Y, xt, **over)
    sane(res, got, X, Y, xt, over=over)
    T = {**BASE, **over}['ndpost']
    shapes = dict(yhat_train=(T, n), yhat_train_mean=(n,), yhat_test=(T, xt.shape[1]), yhat_test_mean=(xt.shape[1],), sigma=(T,))
    for f, s in shapes.items():
        res.check(got[f].shape[1:] == s, f'wrong shape of {f}', got=got[f].shape, n=n, p=p, over=over)
    res.count('states', len(pairs) * T)
    res.sample(dict(n=n, p=p, settings=over, datasets=len(pairs), sigma=got['sigma'][-1]))
    return res


def odd(n, p):
    """ predictors and responses in unusual configurations """
    r = np.random.default_rng(n * 100 + p)
    z = r.normal(size=(p, n))
    i = np.arange(n)
    Xs = dict(
        plain=z, const=np.full((p, n), 3.7), zero=np.zeros((p, n)), dup=np.repeat(z[:1], p, 0), opposite=z[:1] * (-1.) ** np.arange(p)[:, None],
        binary=np.sign(z), ties=np.round(z), ramp=np.tile(i * 1., (p, 1)), outlier=np.where(i == 0, 1e6, z), huge=z * 1e6, tiny=z * 1e-6,
        shifted=z + 1e4, mixed=z * 10. ** (3 * np.arange(p)[:, None] - 3), firstconst=np.where(np.arange(p)[:, None] == 0, .1, z), lastonly=np.where(np.arange(p)[:, None] == p - 1, z, .3),
    )
    e = r.normal(size=n)
    Ys = dict(
        noise=e, constant=np.full(n, 3.), zero=np.zeros(n), binary=1. * (e > 0), single=1. * (i == 0), near=3 + 1e-3 * e, big=1e6 * e,
        small=1e-6 * e, shifted=1000 + e, outlier=np.where(i == n - 1, 1e4, e), step=1. * (i >= n // 2), counts=np.round(3 * e),
    )
    return Xs, Ys


def oddities(n, p, over):
    """ all combinations of unusual predictors and responses """
    res = Result()
    Xs, Ys = odd(n, p)
    names = list(itertools.product(Xs, Ys))
    X = np.stack([Xs[a] for a, _ in names]).astype(F)
    Y = np.stack([Ys[b] for _, b in names]).astype(F)
    xt = np.concatenate([np.zeros((p, 2)), np.full((p, 1), 1e9), np.full((p, 1), -1e9)], axis=1).astype(F)
    got = many_fits(X, Y, xt, **over)
    sane(res, got, X, Y, xt, over=over)
    res.count('states', len(names) * {**BASE, **over}['ndpost'])
    res.sample(dict(n=n, p=p, settings=over, sigma=got['sigma'][0]))
    return res


def jobs_c35():
    one = dict(initkw=dict(min_points_per_leaf=1), ndpost=4, nskip=1)
    free = dict(initkw=dict(min_points_per_leaf=None), ndpost=4, nskip=0)
    j = [(lattice, a) for a in (
        (0, 1, 2, 2, one), (0, 3, 2, 2, dict(free, usequants=True)), (1, 1, 2, 2, one), (1, 2, 2, 2, dict(free, usequants=True)), (2, 1, 3, 3, one), (2, 1, 3, 3, dict(one, usequants=True, numcut=1)),
        (3, 1, 3, 3, one), (3, 1, 3, 3, dict(free, usequants=True, numcut=255)), (4, 1, 3, 2, dict(one, ntree=1)), (2, 2, 2, 3, free), (3, 2, 2, 2, one), (3, 2, 2, 2, dict(one, usequants=True)),
        (2, 3, 2, 2, dict(one, keepevery=2)), (5, 1, 2, 2, dict(free, ntree=4)),
    )]
    j += [(oddities, a) for a in (
        (6, 3, dict(one, ndpost=8)), (12, 2, dict(free, ndpost=8, usequants=True)), (20, 1, dict(ndpost=8, numcut=255, ntree=10)), (4, 6, one), (3, 3, dict(free, usequants=True, numcut=3)),
        (12, 2, dict(one, lamda=.3, offset=.5)), (12, 2, dict(one, sigest=2., k=5., sigdf=10, sigquant=.5)), (33, 2, dict(one, maxdepth=1)), (33, 3, dict(one, maxdepth=6, ndpost=12, base=.999, power=.1)),
        (2, 1, one), (40, 12, dict(ndpost=6)),
    )]
    if THOROUGH:
        j += [(lattice, a) for a in ((4, 1, 4, 3, one), (4, 2, 2, 2, one), (6, 1, 2, 2, one), (3, 3, 2, 2, free), (4, 1, 3, 3, dict(one, usequants=True)))]
        j += [(oddities, (n, p, dict(s, ndpost=20))) for n in (2, 5, 9, 65) for p in (1, 4) for s in (one, dict(free, usequants=True))]
    return j
