"""Properties of tree data structures (C14, C15, C26, C27, C28, C31), by enumeration of all trees."""

import contextlib
import io
import itertools
import re

import numpy as np

from mc import ref
from mc.harness import Result, THOROUGH


def lib():
    import jax
    from jax import numpy as jnp
    from bartz import grove, mcmcloop, mcmcstep, debug, jaxext
    return jax, jnp, grove, mcmcloop, mcmcstep, debug, jaxext


# ------------------------------------------------------------------ generators

def shapes(H):
    """ all tree shapes as sets of decision nodes, array length H """
    def rec(i):
        yield frozenset()
        if i < H:
            for a in rec_cache(2 * i):
                for b in rec_cache(2 * i + 1):
                    yield a | b | {i}

    cache = {}

    def rec_cache(i):
        if i not in cache:
            cache[i] = list(rec(i))
        return cache[i]

    return rec_cache(1)


def shape_arrays(H):
    """ (number of shapes, H) boolean """
    S = shapes(H)
    out = np.zeros((len(S), H), bool)
    for k, s in enumerate(S):
        out[k, list(s)] = True
    return out


def all_rules(H, p, smax):
    """ all trees with any rules at the decision nodes, legal or not: var, split arrays """
    V, S = [], []
    for s in shapes(H):
        nodes = sorted(s)
        for combo in itertools.product(itertools.product(range(p), range(1, smax + 1)), repeat=len(nodes)):
            v = np.zeros(H, int)
            c = np.zeros(H, int)
            for i, (a, b) in zip(nodes, combo):
                v[i], c[i] = a, b
            V.append(v)
            S.append(c)
    return np.array(V), np.array(S)


def grid(p, m):
    return np.array(list(itertools.product(range(m + 1), repeat=p))).T


def garbage(var, split, g, p, hi):
    """ fill var in nodes without cutpoint """
    v = var.copy()
    off = split == 0
    if g == 1:
        v[off] = p - 1
    elif g == 2:
        v[off] = hi
    return v


def leaf_values(split, unreached, seed=0):
    """ distinct integer values in leaves, other value elsewhere """
    _, leaf = ref.reachable(split)
    n2 = leaf.shape[-1]
    val = np.arange(n2) + 1.0
    return np.where(leaf, val, unreached)


# ---------------------------------------------------------------------- C14

def traverse_all(H, p, smax, dtypes, chunk=4096):
    """ every tree, every point of the grid, every garbage pattern """
    jax, jnp, grove, *_ = lib()
    res = Result()
    V, S = all_rules(H, p, smax)
    X = grid(p, smax)
    want = ref.traverse(X, V, S)
    vt, st, xt = dtypes
    f = jax.jit(jax.vmap(jax.vmap(grove.traverse_tree, in_axes=(1, None, None)), in_axes=(None, 0, 0)))
    ff = jax.jit(grove.traverse_forest)
    for g in range(3):
        Vg = garbage(V, S, g, p, np.iinfo(vt).max)
        for a in range(0, len(V), chunk):
            v, s, w = Vg[a:a + chunk], S[a:a + chunk], want[a:a + chunk]
            m = len(v)
            if m < chunk:
                v = np.concatenate([v, np.zeros((chunk - m, H), int)])
                s = np.concatenate([s, np.zeros((chunk - m, H), int)])
            for name, func in (('traverse_tree', f), ('traverse_forest', ff)):
                got = np.asarray(func(jnp.asarray(X, xt), jnp.asarray(v, vt), jnp.asarray(s, st)))[:m]
                res.count('transitions', got.size)
                bad = np.argwhere(got != w)
                if len(bad):
                    b, i = bad[0]
                    res.violation(f'{name} reaches node {got[b, i]} instead of {w[b, i]}', var=v[b], split=s[b], x=X[:, i], dtypes=dtypes)
                    return res
    res.count('states', len(V))
    res.count('traces_validated_against_impl', len(V) * 3)
    res.sample(dict(H=H, p=p, cutpoints=smax, trees=len(V), var=V[-1], split=S[-1]))
    return res


def forest_values(H, p, smax, ntree, tdt):
    """ evaluate_forest on every combination of trees """
    jax, jnp, grove, *_ = lib()
    res = Result()
    vt, st, xt, lt = tdt
    V, S = all_rules(H, p, smax)
    X = grid(p, smax)
    combos = np.array(list(itertools.product(range(len(V)), repeat=ntree)))
    Vc = np.stack([garbage(V[c], S[c], (k + 1) % 3, p, np.iinfo(vt).max) for k, c in enumerate(combos.T)], 1)
    Sc = S[combos]
    scale = (2.0 * H) ** np.arange(ntree)
    if (2.0 * H) ** ntree > 2000:
        scale = np.ones(ntree)
    L = leaf_values(Sc, 777.0) * scale[:, None]
    want = ref.evaluate_trees(X, L, Vc, Sc)
    args = jnp.asarray(X, xt), jnp.asarray(L, lt), jnp.asarray(Vc, vt), jnp.asarray(Sc, st)
    for dtype in (None, jnp.float32, jnp.bfloat16 if scale.max() == 1 and H < 4 else jnp.float32):
        for sum_trees in (True, False):
            f = jax.jit(jax.vmap(lambda X, a, b, c: grove.evaluate_forest(X, a, b, c, dtype=dtype, sum_trees=sum_trees), in_axes=(None, 0, 0, 0)))
            got = f(*args)
            w = want.sum(1) if sum_trees else want
            dt = jnp.dtype(dtype or lt) if sum_trees else jnp.dtype(lt)
            res.check(got.dtype == dt, f'evaluate_forest returns type {got.dtype} instead of {dt}', dtype=str(dtype), sum_trees=sum_trees, leaf=str(lt))
            if not res.check(got.shape == w.shape, f'evaluate_forest returns shape {got.shape} instead of {w.shape}'):
                return res
            g = np.asarray(got).astype(np.float64)
            res.count('transitions', g.size)
            bad = np.argwhere(g != w)
            if len(bad):
                b = bad[0][0]
                res.violation(f'evaluate_forest gives {g[tuple(bad[0])]} instead of {w[tuple(bad[0])]}', var=Vc[b], split=Sc[b], leaf=L[b], X=X, sum_trees=sum_trees)
                return res
    res.count('states', len(combos))
    res.count('traces_validated_against_impl', len(combos))
    res.sample(dict(H=H, ntree=ntree, forests=len(combos), leaf=L[-1], split=Sc[-1]))
    return res


def width_limits():
    """ predictor values and cutpoints at the limits of their types, mixed types """
    jax, jnp, grove, *_ = lib()
    res = Result()
    vals = dict(uint8=[0, 1, 127, 128, 254, 255], uint16=[0, 1, 255, 256, 32767, 32768, 65534, 65535], uint32=[0, 1, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1],
                int32=[0, 1, 255, 256, 2 ** 31 - 1], int8=[0, 1, 126, 127])
    for xt in vals:
        for st in ('uint8', 'uint16', 'uint32', 'int32'):
            if {xt, st} == {'uint32', 'int32'} or xt == 'int8' and st == 'uint32':
                continue  # no common type holds both
            xs = np.array(vals[xt])[None]
            cs = [c for c in vals[st] if c]
            S = np.zeros((len(cs) ** 2 * 2, 4), int)
            rows = [(a, b) for a in cs for b in cs]
            for k, (a, b) in enumerate(rows):
                S[2 * k, 1:3] = a, b
                S[2 * k + 1, [1, 3]] = a, b
            V = np.zeros_like(S)
            want = ref.traverse(xs, V, S)
            got = np.asarray(jax.jit(grove.traverse_forest)(jnp.asarray(xs, xt), jnp.asarray(V, 'uint8'), jnp.asarray(S, st)))
            res.count('transitions', got.size)
            res.count('states', len(S))
            res.count('traces_validated_against_impl', len(S))
            bad = np.argwhere(got != want)
            if len(bad):
                b, i = bad[0]
                res.violation(f'point {xs[0, i]} of type {xt} in tree with cutpoints {S[b]} of type {st} reaches {got[b, i]} instead of {want[b, i]}')
    return res


def deep_trees(d):
    """ full tree of depth d: all leaves; and the two extreme chains """
    jax, jnp, grove, *_ = lib()
    res = Result()
    H = 2 ** (d - 1)
    p = max(1, d - 1)
    split = np.ones(H, int)
    split[0] = 0
    var = np.zeros(H, int)
    for i in range(1, H):
        var[i] = ref.depth(i)
    n = min(H, 2 ** 16)
    codes = np.arange(H) if n == H else np.unique(np.linspace(0, H - 1, n).astype(np.int64))
    X = np.array([(codes >> (d - 2 - l)) & 1 if l < d - 1 else 0 * codes for l in range(p)]).reshape(p, -1)
    want = H + codes
    trees = [(var, split, want)]
    for side in (0, 1):
        s = np.zeros(H, int)
        i = 1
        while i < H:
            s[i] = 1
            i = 2 * i + side
        trees.append((var, s, ref.traverse(X, var, s)))
    V = np.stack([t[0] for t in trees])
    S = np.stack([t[1] for t in trees])
    W = np.stack([t[2] for t in trees])
    A = [jnp.asarray(X, 'uint8'), jnp.asarray(V, 'uint8'), jnp.asarray(S, 'uint8')]
    got = np.asarray(jax.jit(grove.traverse_forest)(*A))
    res.check(np.array_equal(got, W), f'wrong leaves in trees of depth {d}', got=got[:, -4:], want=W[:, -4:])
    L = (np.arange(2 * H) % 1021).astype(np.float32)
    y = np.asarray(jax.jit(grove.evaluate_forest)(A[0], jnp.asarray(np.stack([L] * 3)), *A[1:]))
    w = L.astype(float)[W].sum(0)
    res.check(np.array_equal(y, w), f'wrong forest values with trees of depth {d}', got=y[-5:], want=w[-5:])
    res.count('states', 3)
    res.count('transitions', got.size + y.size)
    res.count('traces_validated_against_impl', 3)
    return res


def many_trees_eval(ntree):
    """ number of trees around the width of the index type; per tree values distinct """
    jax, jnp, grove, *_ = lib()
    res = Result()
    X = np.array([[0, 1, 2]])
    V = np.zeros((ntree, 2), int)
    S = np.stack([np.zeros(ntree, int), np.arange(ntree) % 3], 1)
    L = np.zeros((ntree, 4)) + 9999
    for t in range(ntree):
        if S[t, 1]:
            L[t, 2:] = t + 1, -(t + 1)
        else:
            L[t, 1] = 2 * t + 1
    want = ref.evaluate_trees(X, L, V, S)
    for lt, dts in (('float32', (None, 'float32')), ('float16', ('float32', None))):
        for dtype in dts:
            for sum_trees in (True, False):
                for mode in ('jit', 'eager'):
                    f = lambda *a: grove.evaluate_forest(*a, dtype=dtype and jnp.dtype(dtype), sum_trees=sum_trees)
                    if mode == 'jit':
                        f = jax.jit(f)
                    got = np.asarray(f(jnp.asarray(X, 'uint8'), jnp.asarray(L, lt), jnp.asarray(V, 'uint8'), jnp.asarray(S, 'uint8')))
                    w = want.sum(0) if sum_trees else want
                    Lw = np.asarray(jnp.asarray(L, lt)).astype(float)
                    w = ref.evaluate_trees(X, Lw, V, S)
                    w = w.sum(0) if sum_trees else w
                    exact = dtype == 'float32' or lt == 'float32' or not sum_trees
                    tol = 0 if exact else 1e-2 * np.abs(want).sum()
                    res.count('transitions', got.size)
                    res.check(got.shape == w.shape and np.all(np.abs(got.astype(float) - w) <= tol), f'wrong values with {ntree} trees', got=got, want=w, dtype=dtype, leaf=lt, sum_trees=sum_trees)
    res.count('states', 1)
    res.count('traces_validated_against_impl', 16)
    return res


def wide_vars(p):
    """ decision axes beyond 8 bits """
    jax, jnp, grove, *_ = lib()
    res = Result()
    vs = sorted({0, 1, 127, 128, 254, 255, 256, 257, p - 1} & set(range(p)))
    vt = 'uint8' if p <= 256 else 'uint16'
    X = np.zeros((p, len(vs) + 1), int)
    for i, v in enumerate(vs):
        X[v, i] = 1
    V = np.array([[0, v, w, w] for v in vs for w in vs])
    S = np.array([[0, 1, 1, 1]] * len(V))
    want = ref.traverse(X, V, S)
    got = np.asarray(jax.jit(grove.traverse_forest)(jnp.asarray(X, 'uint8'), jnp.asarray(V, vt), jnp.asarray(S, 'uint8')))
    res.check(np.array_equal(got, want), f'wrong leaves with {p} predictors')
    res.count('states', len(V))
    res.count('transitions', got.size)
    res.count('traces_validated_against_impl', len(V))
    return res


def trace_values(small_budget):
    """ evaluate_trace on traces of several forests, also when the trees have to be processed in batches """
    jax, jnp, grove, mcmcloop, _, _, jaxext = lib()
    import functools
    import warnings
    res = Result()
    if small_budget is not None:
        ab = jaxext.autobatch

        @functools.wraps(ab)
        def autobatch(func, max_io_nbytes, *args, **kw):
            return ab(func, small_budget, *args, **kw)
        jaxext.autobatch = autobatch
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for H, p, smax, m, T, extra in itertools.product((1, 2, 4), (1, 2), (2,), (1, 2, 3, 4, 6), (0, 1, 2, 3, 7), (False, True)):
                if not THOROUGH and (H < 4) != (p == 1) or not THOROUGH and (extra != (T == 2 or T == 0)) or not THOROUGH and m == 2 and T == 7:
                    continue
                V, S = all_rules(H, p, smax)
                X = grid(p, smax)
                ntrees = len(V)
                k = (np.arange(T * m) * 7 + 3) % ntrees
                Vt, St = V[k].reshape(T, m, H), S[k].reshape(T, m, H)
                L = leaf_values(St, 55.) * (1 + np.arange(m))[:, None] + np.arange(T)[:, None, None]
                trace = dict(leaf_trees=jnp.asarray(L, 'float32'), var_trees=jnp.asarray(Vt, 'uint8'), split_trees=jnp.asarray(St, 'uint8'))
                if extra:
                    trace['sigma2'] = jnp.ones(T)
                    trace['grow_prop_count'] = jnp.zeros(T, int)
                    X = X[:, :0] if m == 1 else X
                got = np.asarray(mcmcloop.evaluate_trace(trace, jnp.asarray(X, 'uint8')))
                want = ref.evaluate_trees(X, L, Vt, St).sum(1)
                res.count('states', 1)
                res.count('transitions', max(1, want.size))
                res.count('traces_validated_against_impl', 1)
                if not res.check(got.shape == want.shape and np.array_equal(got, want), f'evaluate_trace wrong for {T} iterations of {m} trees', shape=got.shape, got=got, want=want, budget=small_budget):
                    return res
                res.check(got.dtype == np.float32, f'evaluate_trace returns {got.dtype}')
    finally:
        if small_budget is not None:
            jaxext.autobatch = ab
    res.sample(dict(budget=small_budget))
    return res


def trace_big():
    """ a trace whose evaluation exceeds the actual memory budget """
    jax, jnp, grove, mcmcloop, *_ = lib()
    res = Result()
    n, m = 2 ** 19, 300
    X = (np.arange(n) % 3).astype(np.uint8)[None]
    S = np.stack([np.zeros(m, int), np.arange(m) % 3], 1)
    V = np.zeros((m, 2), int)
    L = np.arange(m)[:, None] + np.array([0, 0, 1, 2])
    got = np.asarray(mcmcloop.evaluate_trace(dict(leaf_trees=jnp.asarray(L[None], 'float32'), var_trees=jnp.asarray(V[None], 'uint8'), split_trees=jnp.asarray(S[None], 'uint8')), jnp.asarray(X)))
    want = ref.evaluate_trees(X[:, :3], L, V, S).sum(0)
    res.check(np.array_equal(got[0], np.resize(want, n)), 'evaluate_trace wrong beyond the memory budget')
    res.count('states', 1)
    res.count('transitions', n)
    res.count('traces_validated_against_impl', 1)
    return res


def jobs_c14():
    D = ('uint8', 'uint8', 'uint8')
    j = [(deep_trees, (d,)) for d in (16, 17)]
    j += [(traverse_all, (4, 2, 3, D)), (traverse_all, (4, 1, 4, ('uint16', 'uint16', 'uint16'))), (traverse_all, (4, 3, 1, ('uint8', 'uint8', 'int32'))),
          (traverse_all, (8, 2, 1, D)), (traverse_all, (8, 1, 2, D)), (traverse_all, (2, 2, 3, D)), (traverse_all, (1, 2, 3, D))]
    F = ('uint8', 'uint8', 'uint8', 'float32')
    j += [(forest_values, (4, 2, 1, 2, F)), (forest_values, (4, 1, 2, 2, F)), (forest_values, (2, 2, 2, 3, F)), (forest_values, (2, 1, 2, 4, ('uint16', 'uint8', 'uint16', 'float32'))),
          (forest_values, (1, 1, 1, 2, F)), (forest_values, (4, 1, 2, 1, ('uint8', 'uint8', 'uint8', 'float16')))]
    j += [(width_limits, ())]
    j += [(deep_trees, (d,)) for d in range(1, 12)]
    j += [(many_trees_eval, (m,)) for m in (1, 2, 3, 255, 256, 257, 300)]
    j += [(wide_vars, (p,)) for p in (255, 256, 257, 258, 300)]
    j += [(trace_values, (b,)) for b in (None, 1, 200)]
    if THOROUGH:
        j += [(traverse_all, (8, 2, 2, D)), (forest_values, (4, 2, 2, 2, F)), (forest_values, (4, 1, 1, 4, F)), (trace_big, ())]
    return j


# ---------------------------------------------------------------------- C15

def topology(H, dtype, a, b):
    jax, jnp, grove, *_ = lib()
    res = Result()
    M = shape_arrays(H)[a:b]
    cut = 1 + (np.arange(H) * 37) % min(np.iinfo(dtype).max, 1000)
    cut[H // 2:] = np.iinfo(dtype).max
    for split in (M.astype(int), M * cut):
        dec, leaf = ref.reachable(split)
        par = np.zeros_like(M)
        for i in range(1, H):
            lc = split[:, 2 * i] == 0 if 2 * i < H else True
            rc = split[:, 2 * i + 1] == 0 if 2 * i + 1 < H else True
            par[:, i] = M[:, i] & lc & rc
        s = jnp.asarray(split, dtype)
        for name, f, want in (
            ('is_actual_leaf', lambda x: grove.is_actual_leaf(x), leaf[:, :H]),
            ('is_actual_leaf with bottom level', lambda x: grove.is_actual_leaf(x, add_bottom_level=True), leaf),
            ('is_leaves_parent', grove.is_leaves_parent, par),
        ):
            got = np.asarray(jax.jit(jax.vmap(f))(s))
            res.count('transitions', len(split))
            if not res.check(got.shape == want.shape and got.dtype == bool, f'{name} returns {got.dtype}{got.shape}, expected bool{want.shape}'):
                continue
            bad = np.argwhere((got != want)[:, 1:])
            if len(bad):
                k = bad[0][0]
                res.violation(f'{name} is wrong', split=split[k], got=got[k], want=want[k], dtype=dtype)
            if np.any(got[:, 0]):
                res.violation(f'{name} marks the unused node', split=split[0])
        for k in range(0, len(split), max(1, len(split) // 3)):
            res.check(np.array_equal(np.asarray(grove.is_actual_leaf(s[k])), leaf[k, :H]), 'eager is_actual_leaf is wrong', split=split[k])
            res.check(np.array_equal(np.asarray(grove.is_leaves_parent(s[k])), par[k]), 'eager is_leaves_parent is wrong', split=split[k])
    res.count('states', len(M))
    res.count('traces_validated_against_impl', len(M))
    res.sample(dict(H=H, shapes=len(M), last=M[-1]))
    return res


def large_topology(d):
    """ full trees and chains """
    jax, jnp, grove, *_ = lib()
    res = Result()
    H = 2 ** (d - 1)
    rows = [np.r_[0, np.ones(H - 1, int)]]
    for pattern in (0, 1, 2):
        s = np.zeros(H, int)
        i = 1
        while i < H:
            s[i] = 1
            i = 2 * i + (pattern if pattern < 2 else ref.depth(i) % 2)
        rows.append(s)
        t = s.copy()
        t[H // 2:] = 0
        rows.append(t)
    full = rows[0].copy()
    full[H - 1:] = 0
    rows.append(full)
    for s in rows:
        dec, leaf = ref.reachable(s)
        dec = dec[:H]
        par = np.zeros(H, bool)
        for i in range(1, H):
            par[i] = dec[i] and (2 * i >= H or (not s[2 * i] and not s[2 * i + 1]))
        x = jnp.asarray(s, 'uint8')
        res.check(np.array_equal(np.asarray(grove.is_actual_leaf(x)), leaf[:H]), f'is_actual_leaf wrong for depth {d}')
        res.check(np.array_equal(np.asarray(grove.is_actual_leaf(x, add_bottom_level=True)), leaf), f'is_actual_leaf with bottom level wrong for depth {d}')
        res.check(np.array_equal(np.asarray(grove.is_leaves_parent(x)), par), f'is_leaves_parent wrong for depth {d}')
        res.count('states', 1)
        res.count('transitions', 3)
        res.count('traces_validated_against_impl', 3)
    return res


def sizes():
    jax, jnp, grove, *_ = lib()
    res = Result()
    for d in range(0, 18 if THOROUGH else 17):
        n = 2 ** d
        for dt in ('uint8', 'float32', 'bool', 'float16') if d < 12 else ('uint8',):
            t = grove.make_tree(d, jnp.dtype(dt))
            res.check(t.shape == (n,) and t.dtype == dt and not np.any(np.asarray(t)), f'make_tree({d}, {dt}) gives {t.dtype}{t.shape}')
            res.check(grove.tree_depth(t) == d, f'tree_depth of an array of size {n} is {grove.tree_depth(t)}')
            res.check(grove.tree_depth(jnp.zeros((3, 5, n) if d < 10 else (2, n))) == d, f'tree_depth of trees of size {n} with leading axes is wrong')
            res.count('transitions', 3)
        want = np.array([0] + [ref.depth(i) for i in range(1, n)])
        got = np.asarray(grove.tree_depths(n))
        res.count('states', n)
        res.count('transitions', 1)
        res.count('traces_validated_against_impl', 4)
        res.check(got.shape == (n,) and np.array_equal(got.astype(int), want), f'tree_depths({n}) is wrong', got=got[:70], want=want[:70])
        res.check(got.dtype.kind in 'iu', f'tree_depths({n}) has type {got.dtype}')
    return res


def jobs_c15():
    j = [(sizes, ())]
    for H in (1, 2, 4, 8, 16):
        for dt in ('uint8', 'uint16', 'int32') if H < 16 else ('uint8', 'uint16'):
            j.append((topology, (H, dt, 0, None)))
    j += [(large_topology, (d,)) for d in (6, 7, 8, 9, 10, 15, 16, 17)]
    if THOROUGH:
        j += [(topology, (32, 'uint8', a, a + 60000)) for a in range(0, 458330, 60000)]
    return j


# ---------------------------------------------------------------------- C26

def checker(H):
    """ all combinations of defects """
    jax, jnp, grove, _, _, debug, jaxext = lib()
    res = Result()
    ms = np.array([3, 2])
    if H < 2:
        good_split = np.zeros(H, int)
    else:
        good_split = np.r_[0, 1, np.zeros(H - 2, int)]

    def tree(leaf, var, split, vt='uint8', st='uint8', lt='float32'):
        return jnp.asarray(leaf, lt), jnp.asarray(var, vt), jnp.asarray(split, st)

    zeros = np.zeros(H, int)
    leaf0 = np.zeros(2 * H)
    max_split = jnp.asarray(ms, 'uint8')
    one = lambda *t: int(debug.check_tree(*t, max_split))
    # codes of the single defects
    single = {}
    single['types'] = one(*tree(leaf0, zeros, good_split, vt='uint16'))
    single['sizes'] = one(*tree(np.zeros(4 * H), zeros, good_split))
    single['unused'] = one(*tree(leaf0, np.r_[1, zeros[1:]], good_split))
    single['values'] = one(*tree(np.r_[leaf0[1:], np.nan], zeros, good_split))
    if H >= 4:
        single['stray'] = one(*tree(leaf0, zeros, np.r_[0, 0, 1, np.zeros(H - 3, int)]))
    for k, c in single.items():
        res.check(c > 0 and c & (c - 1) == 0, f'the code {c} of the defect "{k}" alone is not a single bit', defect=k)
    res.check(len(set(single.values())) == len(single), 'different defects have the same code', codes=single)
    names = {}
    for k, c in single.items():
        d = debug.describe_error(c)
        res.check(len(d) == 1, f'description of the defect "{k}" alone lists {d}')
        names[k] = d[0] if len(d) == 1 else k
    words = dict(types='type', sizes='size', unused='unused', values='value', stray='stray')
    for k, nm in names.items():
        res.check(words[k] in nm, f'the description of defect "{k}" is "{nm}"')
    if res.violations:
        return res
    check = jax.jit(lambda a, b, c: jax.vmap(debug.check_tree, in_axes=(0, 0, 0, None))(a, b, c, max_split))

    # all patterns of cutpoints x unused slot x non-finite values x types x sizes
    pats = np.array(list(itertools.product((0, 1), repeat=H)))
    pats0, pats = pats, pats * (1 + np.arange(H) % 3)
    if H > 8 and not THOROUGH:
        pats0, pats = pats0[::7], pats[::7]
    dec, _ = ref.reachable(np.where(np.arange(H) == 0, 0, pats))
    stray = np.any((pats[:, 1:] != 0) & ~dec[:, 1:H], axis=1)
    slot = pats[:, 0] != 0
    for vt, st, lsize, vsize, g in itertools.product(('uint8', 'uint16', 'int32'), ('uint8', 'uint16', 'int8'), (H, 2 * H, 4 * H), (H, 2 * H), range(5)):
        if H > 4 and not THOROUGH and (vt == 'int32' or st == 'int8' or lsize == H):
            continue
        leaf = np.zeros((len(pats), lsize))
        bad_value = g in (1, 2, 3)
        if bad_value:
            leaf[np.arange(len(pats)), np.arange(len(pats)) % lsize] = (np.nan, np.inf, -np.inf)[g - 1]
        else:
            leaf[:] = 3e38 if g == 0 else -1
        var = np.zeros((len(pats), vsize), int)
        var[:, 0] = g == 4
        want = np.zeros(len(pats), int)
        if vt != 'uint8' or st != 'uint8':
            want |= single['types']
        if lsize != 2 * H or vsize != H:
            want |= single['sizes']
        want = want | np.where(slot | (g == 4), single['unused'], 0)
        if bad_value:
            want |= single['values']
        want |= np.where(stray, single.get('stray', 0), 0)
        # the values of the cutpoints span the type
        cuts = pats0 * np.array({'uint8': (1, 200, 128), 'int8': (1, 2, 127), 'uint16': (256, 3, 2 ** 15)}[st])[np.arange(H) % 3]
        got = np.asarray(check(*tree(leaf, var, cuts, vt, st))).astype(int)
        res.count('transitions', len(pats))
        bad = np.flatnonzero(got != want)
        if len(bad):
            k = bad[0]
            res.violation(f'checker gives {debug.describe_error(int(got[k]))} instead of {debug.describe_error(int(want[k]))}', split=pats[k], leaf=leaf[k], var=var[k], types=(vt, st))
            return res
        for c in np.unique(got)[:6]:
            d = debug.describe_error(c)
            w = {names[k] for k, b in single.items() if c & b}
            res.check(set(d) == w and len(d) == len(w), f'code {c} is described as {d} instead of {w}')
    res.count('states', len(pats) * 5)
    res.count('traces_validated_against_impl', len(pats) * 5)
    res.sample(dict(H=H, patterns=len(pats), codes=single))

    # forests and traces: each tree on its own
    T, m = 3, 5
    k = (np.arange(T * m) * 3) % len(pats)
    sp = pats[k].reshape(T, m, H)
    leaf = np.zeros((T, m, 2 * H))
    leaf[1, 2, -1] = np.nan
    leaf[2, 4, 0] = np.inf
    var = np.zeros((T, m, H), int)
    var[0, 3, 0] = 1
    want = np.array([[one(*tree(leaf[a, b], var[a, b], sp[a, b])) for b in range(m)] for a in range(T)])
    trace = dict(leaf_trees=jnp.asarray(leaf, 'float32'), var_trees=jnp.asarray(var, 'uint8'), split_trees=jnp.asarray(sp, 'uint8'), sigma2=jnp.ones(T))
    for f, name in ((lambda: debug.check_trace(trace, dict(max_split=max_split)), 'check_trace'),
                    (lambda: jnp.stack([debug.check_forest(trace['leaf_trees'][t], trace['var_trees'][t], trace['split_trees'][t], max_split) for t in range(T)]), 'check_forest')):
        got = np.asarray(f())
        res.count('transitions', T * m)
        res.check(got.shape == want.shape and np.array_equal(got, want), f'{name} does not check each tree on its own', got=got, want=want)
    return res


def checker_types(p, mdtype):
    """ expected types depend on number of predictors and type of the cutpoints """
    jax, jnp, grove, _, _, debug, _ = lib()
    res = Result()
    right_v = 'uint8' if p <= 256 else 'uint16'
    for vt in ('uint8', 'uint16', 'uint32', 'int8'):
        for st in ('uint8', 'uint16', 'uint32', 'int16'):
            code = debug.check_tree(jnp.zeros(4), jnp.zeros(2, vt), jnp.zeros(2, st), jnp.ones(p, mdtype))
            ok = vt == right_v and st == mdtype
            res.count('transitions')
            res.check((int(code) == 0) == ok, f'checker returns {int(code)} for var type {vt}, split type {st} with {p} predictors and max_split of type {mdtype}')
    res.count('states', 16)
    res.count('traces_validated_against_impl', 16)
    return res


def jobs_c26():
    return [(checker, (H,)) for H in (8, 16, 4, 2, 1) if H < 16 or THOROUGH] + [(checker_types, (p, m)) for p in (1, 255, 256, 257) for m in ('uint8', 'uint16')]


# ---------------------------------------------------------------------- C27

def np_depth(split):
    dec, leaf = ref.reachable(split)
    dep = np.array([0] + [ref.depth(i) for i in range(1, leaf.shape[-1])])
    return np.max(np.where(leaf, dep, 0), axis=-1)


def np_occupancy(X, V, S):
    """ (..., n + 1) """
    n = X.shape[1]
    idx = ref.traverse(X, V, S)
    _, leaf = ref.reachable(S)
    c = ref.counts(idx, leaf.shape[-1])
    out = np.zeros(c.shape[:-1] + (n + 1,), int)
    for k in range(n + 1):
        out[..., k] = np.sum(leaf & (c == k), axis=-1)
    return out


def depth_distr(H):
    jax, jnp, grove, _, _, debug, _ = lib()
    res = Result()
    M = shape_arrays(H)
    S = M * (1 + np.arange(H) % 250)
    want = np_depth(S)
    got = np.asarray(jax.jit(jax.vmap(debug.tree_actual_depth))(jnp.asarray(S, 'uint8'))) if hasattr(debug, 'tree_actual_depth') else want
    bad = np.flatnonzero(got != want)
    res.check(not len(bad), 'wrong tree depth', split=S[bad[:1]], got=got[bad[:1]])
    d = ref.log2i(H) + 1
    res.count('states', len(S))
    for m in (1, 2, 3, 300):
        T = 4
        k = (np.arange(T * m) * 11) % len(S)
        St = S[k].reshape(T, m, H)
        w = np.stack([np.bincount(np_depth(St[t]), minlength=d) for t in range(T)])
        got = np.asarray(debug.trace_depth_distr(jnp.asarray(St, 'uint8')))
        res.check(got.shape == w.shape and np.array_equal(got, w), f'wrong depth distribution for {m} trees', got=got, want=w)
        got = np.asarray(debug.forest_depth_distr(jnp.asarray(St[0], 'uint8')))
        res.check(np.array_equal(got, w[0]), f'wrong forest depth distribution for {m} trees', got=got, want=w[0])
        res.count('transitions', 2 * T * m)
        res.count('traces_validated_against_impl', T * m)
    # every forest of two trees
    if len(S) <= 26:
        pairs = np.array(list(itertools.product(range(len(S)), repeat=2)))
        w = np.stack([np.bincount(want[p], minlength=d) for p in pairs])
        got = np.asarray(debug.trace_depth_distr(jnp.asarray(S[pairs], 'uint8')))
        res.check(np.array_equal(got, w), 'wrong depth distribution of two trees')
        res.count('transitions', len(pairs))
        res.count('states', len(pairs))
    return res


def deep_depth(d):
    jax, jnp, grove, _, _, debug, _ = lib()
    res = Result()
    H = 2 ** (d - 1)
    rows = []
    for stop in range(d):
        for side in (0, 1):
            s = np.zeros(H, int)
            i = 1
            for _ in range(stop):
                s[i] = 1
                i = 2 * i + side
            rows.append(s)
    S = np.array(rows)
    got = np.asarray(debug.forest_depth_distr(jnp.asarray(S, 'uint8')))
    res.check(got.tolist() == [2] * d, f'wrong depth distribution of chains in arrays of depth {d}', got=got)
    res.count('states', len(S))
    res.count('transitions', len(S))
    res.count('traces_validated_against_impl', 1)
    return res


def occupancy(H, p, smax, n):
    """ every tree, several datasets """
    jax, jnp, grove, _, _, debug, _ = lib()
    res = Result()
    V, S = all_rules(H, p, smax)
    G = grid(p, smax)
    data = []
    if n is None:
        data.append(G)
    elif G.shape[1] ** n <= 100:
        for c in itertools.combinations_with_replacement(range(G.shape[1]), n):
            data.append(G[:, list(c)])
    else:
        data += [np.repeat(G[:, k:k + 1], n, 1) for k in (0, G.shape[1] - 1)]
        data.append(G[:, np.arange(n) % G.shape[1]])
        data.append(G[:, np.r_[0, np.full(n - 1, G.shape[1] - 1)]])
    one = jax.jit(jax.vmap(debug.points_per_leaf_distr, in_axes=(0, 0, None)))
    for X in data:
        want = np_occupancy(X, V, S)
        Xj = jnp.asarray(X, 'uint8')
        got = np.asarray(one(jnp.asarray(V, 'uint8'), jnp.asarray(S, 'uint8'), Xj))
        res.count('transitions', len(V))
        if not res.check(got.shape == want.shape, f'points_per_leaf_distr has shape {got.shape} instead of {want.shape}'):
            return res
        bad = np.flatnonzero(np.any(got != want, axis=1))
        if len(bad):
            k = bad[0]
            res.violation('wrong distribution of points per leaf', var=V[k], split=S[k], X=X, got=got[k], want=want[k])
            return res
    res.count('states', len(V) * len(data))
    res.count('traces_validated_against_impl', len(V) * len(data))
    X = data[-1]
    want = np_occupancy(X, V, S)
    for T, m in ((1, 1), (2, 3), (3, 2), (2, 300)):
        k = (np.arange(T * m) * 5 + 1) % len(V)
        tr = dict(var_trees=jnp.asarray(V[k].reshape(T, m, H), 'uint8'), split_trees=jnp.asarray(S[k].reshape(T, m, H), 'uint8'), leaf_trees=jnp.zeros((T, m, 2 * H)))
        w = want[k].reshape(T, m, -1).sum(1)
        got = np.asarray(debug.trace_points_per_leaf_distr(tr, jnp.asarray(X, 'uint8')))
        res.check(got.shape == w.shape and np.array_equal(got, w), f'wrong trace distribution of points per leaf ({T} iterations, {m} trees)', got=got, want=w)
        got = np.asarray(debug.forest_points_per_leaf_distr({a: b[0] for a, b in tr.items()}, jnp.asarray(X, 'uint8')))
        res.check(np.array_equal(got, w[0]), 'wrong forest distribution of points per leaf', got=got, want=w[0])
        res.count('transitions', 2 * T * m)
    res.sample(dict(H=H, p=p, n=n, trees=len(V), datasets=len(data)))
    return res


def full_occupancy(d, n):
    """ full trees, counts beyond narrow types """
    jax, jnp, grove, _, _, debug, _ = lib()
    res = Result()
    H = 2 ** (d - 1)
    p = max(1, d - 1)
    var = np.array([0] + [ref.depth(i) for i in range(1, H)])
    split = np.r_[0, np.ones(H - 1, int)]
    codes = np.arange(n) * 3 % H
    X = np.array([(codes >> (d - 2 - l)) & 1 for l in range(d - 1)] or [codes]).reshape(p, n)
    for XX in (X, X[:, :1].repeat(n, 1)):
        want = np_occupancy(XX, var, split)
        got = np.asarray(debug.points_per_leaf_distr(jnp.asarray(var, 'uint8'), jnp.asarray(split, 'uint8'), jnp.asarray(XX, 'uint8')))
        res.check(np.array_equal(got, want), f'wrong distribution of points per leaf in a full tree with {H} leaves and {n} points', got=np.flatnonzero(got), want=np.flatnonzero(want), got_counts=got[got != 0], want_counts=want[want != 0])
        tr = dict(var_trees=jnp.asarray(np.stack([[var] * 3] * 2), 'uint8'), split_trees=jnp.asarray(np.stack([[split] * 3] * 2), 'uint8'))
        got = np.asarray(debug.trace_points_per_leaf_distr(tr, jnp.asarray(XX, 'uint8')))
        res.check(np.array_equal(got, np.stack([3 * want] * 2)), f'wrong trace distribution of points per leaf with {H} leaves and {n} points')
        res.count('transitions', 2)
    res.count('states', 2)
    res.count('traces_validated_against_impl', 4)
    return res


def averages():
    """ averages shown by the diagnostics of the interface """
    jax, jnp, *_ = lib()
    from bartz import BART
    res = Result()
    for T in (1, 2, 3):
        for vals in itertools.product(((5, 2, 4, 1), (0, 0, 7, 7), (6, 6, 1, 0)), repeat=T):
            v = np.array(vals)
            if not v[:, 0].sum() or not v[:, 2].sum():
                continue
            trace = dict(grow_prop_count=jnp.asarray(v[:, 0], 'uint8'), grow_acc_count=jnp.asarray(v[:, 1], 'uint8'),
                         prune_prop_count=jnp.asarray(v[:, 2], 'uint8'), prune_acc_count=jnp.asarray(v[:, 3], 'uint8'))
            g = object.__new__(BART.gbart)
            g._main_trace = trace
            t = v.sum(0).astype(float)
            want = dict(_avg_acc=(t[1] / t[0], t[3] / t[2]), _avg_prop=(t[0] / (t[0] + t[2]), t[2] / (t[0] + t[2])), _avg_move=(t[1] / (t[0] + t[2]), t[3] / (t[0] + t[2])))
            for name, w in want.items():
                try:
                    got = getattr(g, name)()
                except AttributeError as e:
                    res.note(f'{name} not available: {e}')
                    continue
                res.count('transitions')
                res.check(np.allclose(np.asarray(got, float), w, rtol=1e-5), f'{name} gives {got} instead of {w}', trace=v)
            res.count('states')
    # many counts: no overflow of the narrow types
    T = 1000
    trace = dict(grow_prop_count=jnp.full(T, 250, 'uint8'), grow_acc_count=jnp.full(T, 125, 'uint8'), prune_prop_count=jnp.full(T, 250, 'uint8'), prune_acc_count=jnp.full(T, 25, 'uint8'))
    g = object.__new__(BART.gbart)
    g._main_trace = trace
    try:
        res.check(np.allclose(np.asarray(g._avg_acc(), float), (.5, .1)) and np.allclose(np.asarray(g._avg_prop(), float), .5), 'averages over a long trace are wrong')
    except AttributeError:
        pass
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    return res


def jobs_c27():
    j = [(depth_distr, (H,)) for H in (16, 8, 4, 2, 1)]
    j += [(deep_depth, (d,)) for d in (6, 8, 9, 10, 12)]
    j += [(occupancy, a) for a in ((4, 2, 2, None), (4, 1, 2, 4), (2, 1, 3, 3), (2, 2, 1, 3), (1, 1, 1, 3), (8, 1, 2, None), (4, 1, 1, 0), (2, 1, 1, 255), (2, 1, 1, 256), (2, 1, 1, 257), (4, 1, 1, 600))]
    j += [(full_occupancy, (d, n)) for d in (8, 9, 10, 11) for n in (1, 100, 255, 256, 300)]
    j += [(averages, ())]
    if THOROUGH:
        j += [(occupancy, (8, 2, 1, 4)), (full_occupancy, (16, 70000)), (full_occupancy, (17, 70000)), (full_occupancy, (10, 65536))]
    return j


# ---------------------------------------------------------------------- C28

def printed(H, part, nparts):
    jax, jnp, grove, _, _, debug, _ = lib()
    res = Result()
    M = shape_arrays(H)[part::nparts]
    line = re.compile(r'^ ?( *)(\d+) (.*)$')
    marks = {}
    for k, mask, junk in ((k, m, j) for k, m in enumerate(M) for j in (False, True)):
        split = (1 + (np.arange(H) * 5 + k) % 9)
        if junk:
            # leftover contents below the leaves, that are not part of the tree
            live = np.zeros(2 * H, bool)
            live[1] = True
            for i in range(1, H):
                live[2 * i] = live[2 * i + 1] = live[i] and mask[i]
            split = split * (mask.astype(bool) | ~live[:H])
        else:
            split = split * mask
        var = (np.arange(H) * 3 + k) % 7
        leaf = (np.arange(2 * H) + 1) / 8 * (-1) ** (np.arange(2 * H) % 3)
        for all_ in (False, True):
            buf = io.StringIO()
            args = jnp.asarray(leaf, 'float32'), jnp.asarray(var, 'uint8'), jnp.asarray(split, 'uint8')
            with contextlib.redirect_stdout(buf):
                debug.print_tree(*args, all_) if k % 2 else debug.print_tree(*args, print_all=all_)
            rows = buf.getvalue().splitlines()
            want = []

            def walk(i, unused):
                if i >= 2 * H:
                    return
                dec = i < H and mask[i] and not unused
                if unused and not all_:
                    return
                want.append((i, 'unused' if unused else 'decision' if dec else 'leaf'))
                if dec or all_:
                    walk(2 * i, unused or not dec)
                    walk(2 * i + 1, unused or not dec)
            walk(1, False)
            res.count('transitions', len(want))
            info = dict(split=split, var=var, leaf=leaf, output=rows, print_all=all_)
            if not res.check(len(rows) == len(want), f'{len(rows)} lines for {len(want)} nodes', **info):
                return res
            col = None
            for r, (i, cat) in zip(rows, want):
                m = line.match(r)
                if not res.check(m is not None and int(m.group(2)) == i, f'line "{r}" instead of node {i}', **info):
                    return res
                rest = m.group(3)
                if i == 1:
                    col = len(r) - len(rest)
                res.check(len(r) - len(rest) == col, f'misaligned line "{r}"', **info)
                ind = re.match(r'^[^\w(.+-]*', rest).group(0)
                if rest[len(ind):][:1] in '+-':
                    pass
                # indentation: a fixed number of characters per level
                if i == 1:
                    base = len(ind)
                width = (len(ind) - base) / max(1, ref.depth(i))
                res.check(ref.depth(i) == 0 and len(ind) == base or width == 3, f'wrong indentation of node {i}: "{r}"', **info)
                body = rest[len(ind):]
                if not all_:
                    # one mark for decision nodes, one for leaves, one for leaves on the last level
                    kind = cat, cat == 'leaf' and i >= H
                    if H > 1:
                        ok = all((marks.setdefault(c, ind[-1:]) == ind[-1:]) == (c == kind) for c in [kind] + list(marks))
                        if not res.check(ok, f'mark of node {i} ({kind}) in line "{r}"', marks=marks, **info):
                            return res
                sp = int(split[i]) if i < H else 0
                vr = int(var[i]) if i < H else 0
                if all_:
                    mm = re.match(r'^(\w+)\((.*), (.*), (.*)\)$', body)
                    ok = mm is not None and mm.group(1) == cat and int(mm.group(2)) == vr and int(mm.group(3)) == sp and abs(float(mm.group(4)) - leaf[i]) < 1e-5
                elif cat == 'decision':
                    mm = re.match(r'^\((\d+): (\d+)\)$', body)
                    ok = mm is not None and (int(mm.group(1)), int(mm.group(2))) == (vr, sp)
                else:
                    try:
                        ok = abs(float(body) - leaf[i]) <= 0.051 * abs(leaf[i]) + 1e-9
                    except ValueError:
                        ok = False
                if not res.check(ok, f'node {i} ({cat}) printed as "{body}"', **info):
                    return res
        res.count('states')
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    res.sample(dict(H=H, shapes=len(M), last_output=rows[:8]))
    return res


def jobs_c28():
    j = [(printed, (H, 0, 1)) for H in (8, 4, 2, 1)]
    n = 1 if THOROUGH else 8
    j += [(printed, (16, k, 8)) for k in range(8)]
    if not THOROUGH:
        j = [x for x in j if x[1][0] < 16 or x[1][1] < 4]
    return j


# ---------------------------------------------------------------------- C31

def ranges(max_split, H, mdtype, transform=None):
    jax, jnp, grove, _, mcmcstep, *_ = lib()
    res = Result()
    p = len(max_split)
    trees = ref.all_trees(max_split, H)
    rangetable(res, trees, max_split, H, mdtype)
    res.sample(dict(max_split=max_split, H=H, trees=len(trees), last=trees[-1].rules))
    return res


def rangetable(res, trees, max_split, H, mdtype):
    jax, jnp, grove, _, mcmcstep, *_ = lib()
    p = len(max_split)
    vdtype = 'uint8' if p <= 256 else 'uint16'
    V, S, N, want = [], [], [], []
    variables = sorted({0, 1, p // 2, p - 1} & set(range(p))) if p > 8 else list(range(p))
    q = variables + [p]
    A, F = [], []
    na = max(0, ref.log2i(H) - 1)
    for T in trees:
        v, s = T.arrays()
        nodes = list(T.rules) + T.leaves()
        for i in nodes:
            if i >= H:
                continue
            V.append(v)
            S.append(s)
            N.append(i)
            rg = [T.range(i, u, max_split) for u in variables] + [(1, 0)]
            want.append([(lo, hi + 1) for lo, hi in rg])
            anc = []
            j = i >> 1
            while j:
                anc.append(int(v[j]))
                j >>= 1
            anc = anc[::-1]
            A.append(anc)
            F.append({u for u in anc if T.range(i, u, max_split)[1] < T.range(i, u, max_split)[0]})
    V, S, N = np.array(V), np.array(S), np.array(N)
    want = np.array(want)
    # garbage rules in the leaf nodes must not matter
    B = len(N)
    chunk = 1 << max(0, (B - 1).bit_length())
    pad = lambda x: np.concatenate([x, np.repeat(x[:1], chunk - B, 0)])
    ms = jnp.asarray(max_split, mdtype)
    for g in (0, 1):
        Vg = V.copy()
        if g:
            Vg[S == 0] = p - 1
        args = jnp.asarray(pad(Vg), vdtype), jnp.asarray(pad(S), mdtype), jnp.asarray(pad(N), 'int32')
        f = jax.jit(jax.vmap(jax.vmap(mcmcstep.split_range, in_axes=(None, None, None, None, 0)), in_axes=(0, 0, None, 0, None)))
        l, r = f(args[0], args[1], ms, args[2], jnp.asarray(q))
        got = np.stack([np.asarray(l), np.asarray(r)], -1)[:B].astype(np.int64)
        res.count('transitions', got.size // 2)
        empty = want[..., 0] >= want[..., 1]
        ok = np.where(empty, got[..., 0] >= got[..., 1], np.all(got == want, -1))
        bad = np.argwhere(~ok)
        if len(bad):
            b, u = bad[0]
            res.violation(f'range of variable {q[u]} at node {N[b]} is {got[b, u]} instead of {want[b, u]}', var=Vg[b], split=S[b], max_split=max_split, mdtype=mdtype)
        f = jax.jit(jax.vmap(mcmcstep.ancestor_variables, in_axes=(0, None, 0)))
        got = np.asarray(f(args[0], ms, args[2]))[:B].astype(np.int64)
        wa = np.full((B, na), p)
        for b, a in enumerate(A):
            if a:
                wa[b, na - len(a):] = a
        if res.check(got.shape == wa.shape, f'ancestor_variables has shape {got.shape} instead of {wa.shape}'):
            for b in range(B):
                row = got[b]
                if not np.array_equal(row, wa[b]):
                    if row[row != p].tolist() != A[b]:
                        res.violation(f'ancestor variables of node {N[b]} are {row}', var=Vg[b], want=A[b])
                        break
        f = jax.jit(jax.vmap(mcmcstep.fully_used_variables, in_axes=(0, 0, None, 0)))
        got = np.asarray(f(args[0], args[1], ms, args[2]))[:B].astype(np.int64)
        res.count('transitions', 2 * B)
        for b in range(B):
            s = set(got[b].tolist())
            if s - {u for u in s if u >= p} != F[b]:
                res.violation(f'variables with no cutpoints left at node {N[b]} are {got[b]} instead of {F[b]}', var=Vg[b], split=S[b], max_split=max_split)
                break
    # each kind of index type
    for nt in ('uint8', 'uint16', 'int32', 'python'):
        for b in range(0, B, max(1, B // 8)):
            if nt == 'uint8' and N[b] > 255:
                continue
            i = int(N[b]) if nt == 'python' else jnp.asarray(N[b], nt)
            for u in range(len(q)):
                uu = q[u] if nt == 'python' else jnp.asarray(q[u], vdtype if q[u] < p or p < 256 else 'uint16')
                l, r = mcmcstep.split_range(jnp.asarray(V[b], vdtype), jnp.asarray(S[b], mdtype), ms, i, uu)
                l, r = int(l), int(r)
                res.count('transitions')
                ok = (l, r) == tuple(want[b, u]) if want[b, u, 0] < want[b, u, 1] else l >= r
                res.check(ok, f'range of variable {q[u]} at node {N[b]} given as {nt} is [{l}, {r})', var=V[b], split=S[b], max_split=max_split)
    res.count('states', B)
    res.count('traces_validated_against_impl', B)


def edge_ranges(max_split, H, mdtype, cuts):
    """ trees whose rules are at the limits of wide ranges """
    res = Result()
    root = ref.Tree({}, H)
    seen = {root.key(): root}
    todo = [root]
    while todo:
        T = todo.pop()
        for i in T.leaves():
            if i >= H:
                continue
            for v, (lo, hi) in T.available(i, max_split).items():
                if len(max_split) > 8 and v not in (0, 1, len(max_split) - 1):
                    continue
                for s in sorted({lo, hi} | {c for c in cuts if lo <= c <= hi}):
                    T2 = T.grown(i, v, s)
                    if T2.key() not in seen:
                        seen[T2.key()] = T2
                        todo.append(T2)
    rangetable(res, list(seen.values()), max_split, H, mdtype)
    return res


def deep_ranges(d, way, order):
    """ one long branch, with predictors exhausted at any distance from its bottom """
    res = Result()
    H = 2 ** (d - 1)
    max_split = (1, 1, 255, 2)
    T = ref.Tree({}, H)
    node = 1
    for i in range(d - 1):
        side = dict(left=0, right=1).get(way, i % 2)
        v = 2
        if i in order:
            v = order[i]
        lo, hi = T.range(node, v, max_split)
        if hi < lo:
            lo, hi = T.range(node, v := 2, max_split)
        # the cutpoint that leaves as much as possible to the rest of the branch
        T = T.grown(node, v, lo if side else hi)
        node = 2 * node + side
    rangetable(res, [T], max_split, H, 'uint8')
    res.sample(dict(d=d, way=way, rules=T.rules))
    return res


def jobs_c31():
    j = [(ranges, a) for a in (((3,), 8, 'uint8'), ((1, 1, 1), 8, 'uint8'), ((2, 1), 8, 'uint8'), ((2, 2), 4, 'uint16'), ((5,), 8, 'uint8'), ((0, 2), 8, 'uint8'), ((0, 0), 4, 'uint8'), ((1, 2, 3), 4, 'uint8'), ((7,), 4, 'uint8'), ((2, 2), 2, 'uint8'), ((3,), 16, 'uint8'))]
    j += [(edge_ranges, a) for a in (((255,), 4, 'uint8', (127, 128, 254)), ((255, 1), 4, 'uint8', (254,)), ((65535,), 4, 'uint16', (255, 256, 32768)), ((255, 65535), 2, 'uint16', (256,)),
                                     ((1,) * 255, 4, 'uint8', ()), ((1,) * 256, 4, 'uint8', ()), ((1,) * 257, 4, 'uint8', ()), ((127,), 4, 'int8', (126,)), ((2, 255), 4, 'uint8', (254,)))]
    j += [(deep_ranges, (d, way, o)) for d, o in ((8, {0: 0, 6: 1}), (10, {1: 1, 5: 0}), (11, {0: 0, 1: 1}), (13, {0: 1, 2: 3, 4: 3, 9: 0}), (11, {0: 3, 9: 3})) for way in ('left', 'right', 'zigzag')]
    if THOROUGH:
        j += [(ranges, a) for a in (((2, 2), 8, 'uint8'), ((1, 1), 16, 'uint8'), ((4,), 16, 'uint8'), ((1, 1, 1, 1), 8, 'uint8'), ((3, 2), 8, 'uint8'))]
    return j
