"""Options, layout, initialization, loop, callbacks and random keys (C08, C09, C11, C12, C13, C25)."""

import contextlib
import functools
import io
import itertools
import math
import re

import numpy as np

from mc import ref
from mc.harness import Result, THOROUGH, digest


def lib():
    import jax
    from jax import numpy as jnp
    from mc import kernel, tape
    from bartz import mcmcstep, mcmcloop
    return jax, jnp, kernel, tape, mcmcstep, mcmcloop


# ------------------------------------------------------------------------- C08

def corners(kern, m, salt):
    """ m scripts well spread over the answers of the discrete draws """
    sc = np.tile(kern.base, (m, 1))
    for s, kind in enumerate(kern.slots.kinds):
        if kind in ('uniform', 'randint'):
            g = 0.5 ** (1 / (1 + s % 7)) + 0.1 * (s // 7)
            sc[:, s] = np.clip(np.modf((np.arange(m) + 1 + salt) * g + 0.37 * s)[0], 0.003, 0.997)
        elif kind == 'normal':
            sc[:, s] *= 1 + 0.3 * np.sin(np.arange(m) + s)
    return sc


def grow_states(kern, rounds=4, m=48, keep=48):
    states = kern.initial()
    pool = [states]
    idx = np.zeros(m, int)
    for r in range(rounds):
        states = kern.run(states, idx, corners(kern, m, 100 * r))
        idx = np.arange(m)
        pool.append(states)
    jax = lib()[0]
    cat = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *pool)
    keys = kern.tree_keys(cat).reshape(len(cat['split_trees']), -1)
    _, first = np.unique(keys, axis=0, return_index=True)
    first = np.sort(first)[:keep]
    return jax.tree_util.tree_map(lambda x: np.asarray(x)[first], cat)


CASES8 = {
    # name: (max_split, config)
    'n1': ((1, 2), dict(n=1, ntree=2)),
    'n2': ((2,), dict(n=2, ntree=2, minpts=1)),
    'n5': ((2, 1), dict(n=5, ntree=2)),
    'n7': ((3, 2), dict(n=7, ntree=2, minpts=1)),
    'n8': ((2, 2), dict(n=8, ntree=3)),
    'n13': ((3,), dict(n=13, ntree=2, minpts=2, p_nonterminal=(.8, .6, .4))),
    'n48': ((4, 3), dict(n=48, ntree=2, minpts=3, p_nonterminal=(.8, .6, .4))),
    # more points in a batch and in a leaf than a narrow counter holds
    'n512': ((1, 1), dict(X=np.stack([np.arange(512) % 2, np.arange(512) % 4 == 0]).astype(int), y=np.random.default_rng(5).normal(0, .6, 512).astype('f'), minpts=15, p_nonterminal=(.8, .5))),
    'n600': ((1,), dict(X=np.repeat([0, 1, 0], [280, 20, 300])[None, :], y=np.random.default_rng(4).normal(0, .6, 600).astype('f'), minpts=15, p_nonterminal=(.8,))),
}


def variants(n):
    out = [dict(rbatch='auto', cbatch='auto'), dict(rbatch=1, cbatch=1), dict(rbatch=2, cbatch=3), dict(rbatch=3, cbatch=2, ratios=True),
           dict(rbatch=n, cbatch=n), dict(rbatch=n + 1, cbatch=16), dict(rbatch=max(1, n - 1), cbatch=n + 1), dict(rbatch=16, cbatch=max(1, n - 1), ratios=True),
           dict(rbatch=None, cbatch=None, ratios=True)]
    if n > 256:
        out += [dict(rbatch=a, cbatch=b) for a, b in ((256, 256), (255, 257), (257, 255), (300, 512), (512, 300), (128, 64), (64, 128))]
    if THOROUGH:
        out += [dict(rbatch=a, cbatch=b, ratios=bool((a + b) % 2)) for a in range(1, n + 3) for b in range(1, n + 3) if n < 6] + [dict(rbatch=a, cbatch=a + 1) for a in range(3, min(n, 12))]
    uniq = []
    for v in out:
        if v not in uniq:
            uniq.append(v)
    return uniq


def options(name, which):
    jax, jnp, kernel, tape, mcmcstep, _ = lib()
    res = Result()
    ms, kw = CASES8[name]
    cfg = kernel.Config(name, ms, rbatch=None, cbatch=None, **kw)
    base = kernel.Kernel(cfg, chunk=256)
    S = grow_states(base)
    ns = len(S['split_trees'])
    m = 16
    idx = np.repeat(np.arange(ns), m)
    sc = np.concatenate([corners(base, m, 7 * i) for i in range(ns)])
    out0 = base.run(S, idx, sc)
    k0 = base.tree_keys(out0)
    res.count('states', ns)
    order = {int(i): j for j, i in enumerate(base.slots.ids)}
    for v in variants(cfg.n)[which::3]:
        vcfg = kernel.Config(name, ms, **{**kw, **v})
        kv = kernel.Kernel(vcfg, chunk=256)
        info = dict(case=name, variant=v)
        if not res.check(sorted(order) == sorted(int(i) for i in kv.slots.ids), 'the options change which random numbers are drawn', **info):
            continue
        perm = [order[int(i)] for i in kv.slots.ids]
        st = dict(S)
        if 'ratios' in kv.dynkeys:
            st['ratios'] = jax.tree_util.tree_map(lambda x: np.repeat(np.asarray(x)[None], ns, 0), kv.bart0['ratios'])
        out = kv.run(st, idx, sc[:, perm])
        res.count('transitions', len(idx))
        res.count('traces_validated_against_impl', len(idx))
        k = kv.tree_keys(out)
        bad = np.flatnonzero(np.any(k != k0, axis=(1, 2)))
        real = []
        for b in bad:
            # a decision within rounding of its threshold: see if tiny changes of the answers produce it
            alt = np.tile(sc[b], (2 * base.K, 1))
            for s in range(base.K):
                alt[2 * s, s] -= 2e-4
                alt[2 * s + 1, s] += 2e-4
            ko = base.tree_keys(base.run(S, np.full(len(alt), idx[b]), np.clip(alt, None, tape.VMAX)))
            if not np.any(np.all(ko == k[b], axis=(1, 2))):
                real.append(b)
        if real:
            b = real[0]
            res.violation('the options change the sampled trees', before=S['split_trees'][idx[b]], expected=out0['split_trees'][b], got=out['split_trees'][b], script=sc[b], **info)
            continue
        good = np.setdiff1d(np.arange(len(idx)), bad)
        for f in ('leaf_trees', 'resid', 'sigma2', 'leaf_indices', 'affluence_trees', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
            if f not in out0:
                continue
            a, c = np.asarray(out0[f])[good], np.asarray(out[f])[good]
            if f == 'leaf_trees':
                _, leaf = ref.reachable(out0['split_trees'][good])
                a, c = np.where(leaf, a, 0), np.where(leaf, c, 0)
            if f == 'affluence_trees':
                _, leaf = ref.reachable(out0['split_trees'][good])
                leaf = leaf[..., :a.shape[-1]]
                a, c = a & leaf, c & leaf
            ok = np.array_equal(a, c) if a.dtype.kind in 'biu' else np.allclose(a, c, rtol=1e-3, atol=1e-4)
            if not ok:
                d = np.argwhere(~np.isclose(a.astype(float), c.astype(float), rtol=1e-3, atol=1e-4))[0]
                b = good[d[0]]
                res.violation(f'the options change {f}', before=S['split_trees'][idx[b]], expected=out0[f][b], got=out[f][b], **info)
    res.sample(dict(case=name, variants=variants(cfg.n)[which::3], states=ns))
    return res


def modes(name, seeds):
    """ eager, compiled and vectorized execution with ordinary keys """
    jax, jnp, kernel, tape, mcmcstep, _ = lib()
    res = Result()
    ms, kw = CASES8[name]
    cfg = kernel.Config(name, ms, rbatch=3, cbatch=None, ratios=True, **kw)
    bart = cfg.init()
    step = jax.jit(mcmcstep.step)
    nchain = len(seeds)
    chains = [bart] * nchain
    dyn = [k for k in bart if k in kernel.DYN and bart[k] is not None]
    static = {k: v for k, v in bart.items() if k not in dyn}
    vstep = jax.jit(jax.vmap(lambda d, k: {f: mcmcstep.step({**static, **d}, k)[f] for f in dyn}))
    for it in range(6):
        keys = [jax.random.fold_in(jax.random.key(s), it) for s in seeds]
        new = [step(c, k) for c, k in zip(chains, keys)]
        stacked = {f: jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[c[f] for c in chains]) for f in dyn}
        vec = vstep(stacked, jnp.stack(keys))
        which = it % nchain
        with jax.disable_jit():
            eager_list = [(which, mcmcstep.step(chains[which], keys[which]))] if it in (0, 2, 4) else []
        eager_list += [((which + 1) % nchain, mcmcstep.step(chains[(which + 1) % nchain], keys[(which + 1) % nchain]))] if it % 2 else []
        for c in range(nchain):
            others = [('vectorized', {f: jax.tree_util.tree_map(lambda x: x[c], vec[f]) for f in dyn})]
            others += [('eager', e) for i, e in eager_list if i == c]
            for mode, o in others:
                res.count('transitions')
                info = dict(case=name, seed=seeds[c], iteration=it, mode=mode)
                t1 = base_keys(new[c])
                t2 = base_keys(o)
                if not res.check(np.array_equal(t1, t2), f'{mode} execution gives different trees', compiled=new[c]['split_trees'], other=o['split_trees'], **info):
                    return res
                for f in ('resid', 'sigma2', 'grow_prop_count', 'prune_prop_count', 'grow_acc_count', 'prune_acc_count', 'leaf_indices'):
                    res.check(np.allclose(np.asarray(new[c][f], float), np.asarray(o[f], float), rtol=1e-3, atol=1e-4), f'{mode} execution gives a different {f}', **info)
        chains = new
        res.count('states', nchain)
    res.count('traces_validated_against_impl', res.counts['transitions'])
    return res


def base_keys(bart):
    s = np.asarray(bart['split_trees']).astype(int)
    v = np.asarray(bart['var_trees']).astype(int)
    dec, _ = ref.reachable(s)
    dec = dec[..., :s.shape[-1]]
    return np.concatenate([np.where(dec, v, 0), np.where(dec, s, 0)], -1)


def auto_sizes():
    """ the automatic batch sizes are usable for all sizes, on all platforms """
    jax, jnp, kernel, tape, mcmcstep, _ = lib()
    res = Result()
    f = getattr(mcmcstep, '_choose_suffstat_batch_size', None)
    if f is None:
        res.note('_choose_suffstat_batch_size not available')
        return res

    class Dev:
        def __init__(self, p):
            self.platform = p

    class Y:
        def __init__(self, n, p):
            self.size, self.p, self.shape = n, p, (n,)

        def devices(self):
            return {Dev(self.p)}
    for p in ('cpu', 'gpu'):
        for n in list(range(0, 300)) + [1000, 4095, 4096, 10 ** 5, 10 ** 6]:
            for fs in (2, 64 * 200, 2 ** 20):
                for a, b in itertools.product(('auto', None, 5), repeat=2):
                    try:
                        r, c = f(a, b, Y(n, p), fs)
                    except TypeError as e:
                        res.note(f'signature changed: {e}')
                        return res
                    res.count('transitions')
                    for given, got in ((a, r), (b, c)):
                        ok = got == given if given != 'auto' else got is None or isinstance(got, int) and got >= 1
                        if not res.check(ok, f'batch size {given} becomes {got} for {n} datapoints on {p}'):
                            return res
        res.count('states', 300)
    return res


def jobs_c08():
    j = [(options, (nm, w)) for nm in ('n600', 'n512', 'n48', 'n13', 'n8', 'n7', 'n5', 'n2', 'n1') for w in range(3)]
    j = [(modes, ('n7', (0, 1))), (modes, ('n13', (2, 3)))] + j + [(auto_sizes, ())]
    return j


# ------------------------------------------------------------------------- C09

SETTINGS = ('X', 'y', 'max_split', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta', 'min_points_per_leaf', 'opt')


def snapshot(d):
    """ identities of all the entries, nested """
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = (id(v), snapshot(v))
        else:
            out[k] = v
    return out


def same_snapshot(a, b):
    if a.keys() != b.keys():
        return f'entries {sorted(set(a) ^ set(b))} added or removed'
    for k in a:
        if isinstance(a[k], tuple):
            if not isinstance(b[k], tuple):
                return f'entry {k} replaced'
            if a[k][0] != b[k][0]:
                return f'entry {k} replaced'
            r = same_snapshot(a[k][1], b[k][1])
            if r:
                return f'{k}: {r}'
        elif a[k] is not b[k]:
            return f'entry {k} replaced'
    return None


def describe_layout(jax, d):
    flat, _ = jax.tree_util.tree_flatten_with_path(d)
    return {jax.tree_util.keystr(p): (tuple(x.shape), str(x.dtype)) for p, x in flat}


def layout(part, x64):
    jax, jnp, kernel, tape, mcmcstep, _ = lib()
    import jax.experimental as je
    res = Result()
    dts = [('float32', 'float32'), ('float16', 'float32'), ('bfloat16', 'float32')] if not x64 else [('float32', 'float32'), ('float32', 'float64'), ('float64', 'float64'), ('float16', 'float64')]
    depths = (1, 2, 3, 9) if not x64 else (1, 3)
    pn = [(1, 5), (2, 0), (257, 1), (2, 300)] if not x64 else [(2, 5), (257, 1)]
    cases = list(itertools.product(dts, depths, pn, (1, 3), (False, True), (None, 2), (None, 'auto', 3)))
    if not THOROUGH:
        cases = [c for i, c in enumerate(cases) if (i * 7 // 3) % 3 == 0 or c[0] != ('float32', 'float32') and c[1] == 3]
    with je.enable_x64(x64):
        for (small, large), d, (p, n), ntree, ratios, minpts, batch in cases[part[0]::part[1]]:
            info = dict(small=small, large=large, d=d, p=p, n=n, ntree=ntree, ratios=ratios, minpts=minpts, batch=batch, x64=x64)
            cfg = kernel.Config('l', (3,) * p, n=n, ntree=ntree, p_nonterminal=(.75, .5, .4, .3, .3, .2, .2, .2)[:d - 1], minpts=minpts, ratios=ratios, small=small, large=large, rbatch=batch, cbatch=batch)
            bart = cfg.init()
            key = jax.random.key(0)
            calls = [('step', mcmcstep.step)]
            for nm in ('sample_trees', 'sample_sigma'):
                if hasattr(mcmcstep, nm):
                    calls.append((nm, getattr(mcmcstep, nm)))
            if hasattr(mcmcstep, 'sample_moves') and hasattr(mcmcstep, 'accept_moves_and_sample_leaves'):
                def both(b, k):
                    moves = mcmcstep.sample_moves(b, k)
                    s = snapshot(moves)
                    out = mcmcstep.accept_moves_and_sample_leaves(b, moves, k)
                    r = same_snapshot(s, snapshot(moves))
                    res.check(r is None, f'the proposed moves passed to accept_moves_and_sample_leaves are modified: {r}', **info)
                    return out
                calls.append(('sample_moves and accept_moves_and_sample_leaves', both))
            stages = [getattr(mcmcstep, f'accept_moves_{s}_stage', None) for s in ('parallel', 'sequential', 'final')]
            if hasattr(mcmcstep, 'sample_moves') and all(stages):
                def staged(b, k):
                    start = b
                    try:
                        moves, rest = mcmcstep.sample_moves(b, k), ()
                        for f, args in zip(stages, (lambda: (b, moves, k), lambda: (b, rest[0], moves, *rest[1:]), lambda: (b, moves))):
                            args = args()
                            snaps = [snapshot(x) if isinstance(x, dict) else None for x in args]
                            out = f(*args)
                            for x, w in zip(args, snaps):
                                r = same_snapshot(w, snapshot(x)) if w is not None else None
                                res.check(r is None, f'{f.__name__} modifies its arguments: {r}', **info)
                            if f is stages[2]:
                                return out
                            b, moves, *rest = out
                    except Exception as e:
                        # organized otherwise: only the step as a whole is checked
                        res.note(f'the stages of the acceptance can not be called one by one: {type(e).__name__}')
                        return start
                calls.append(('staged acceptance', staged))
            for nm, f in calls:
                arg = dict(bart)
                if ratios:
                    arg['ratios'] = dict(bart['ratios'])
                before = snapshot(arg)
                try:
                    out = jax.eval_shape(lambda k: f(arg, k), key)
                except Exception as e:
                    res.violation(f'{nm} fails: {type(e).__name__}: {str(e)[:200]}', **info)
                    continue
                res.count('transitions')
                r = same_snapshot(before, snapshot(arg))
                res.check(r is None, f'{nm} modifies its argument: {r}', **info)
                a, b = describe_layout(jax, bart), describe_layout(jax, out)
                diff = {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
                res.check(not diff, f'{nm} changes the layout of the state: {diff}', **info)
                res.check(set(out) == set(bart), f'{nm} changes the entries of the state: {set(out) ^ set(bart)}', **info)
                res.check(out.get('opt') == bart['opt'], f'{nm} changes the options', **info)
            res.count('states')
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    return res


def purity(small, d, ratios, minpts, x64=False):
    """ actual executions: buffers of the input and settings keep their values, several steps """
    jax, jnp, kernel, tape, mcmcstep, _ = lib()
    import jax.experimental as je
    res = Result()
    with je.enable_x64(x64):
        cfg = kernel.Config('p', (3, 2), n=9, ntree=2, p_nonterminal=(.75, .5, .4, .3)[:d - 1], minpts=minpts, ratios=ratios, small=small, rbatch=2, cbatch=2, large='float64' if x64 else 'float32')
        bart = cfg.init()
        f = jax.jit(lambda b, k: mcmcstep.step(b, k))
        info = dict(small=small, d=d, ratios=ratios, minpts=minpts, x64=x64)
        for it in range(5):
            values = jax.tree_util.tree_map(lambda x: np.array(x), bart)
            key = jax.random.key(it)
            new = mcmcstep.step(bart, key) if it == 0 else f(bart, key)
            res.count('transitions')
            after = jax.tree_util.tree_map(lambda x: np.array(x), bart)
            for (p, a), (_, b) in zip(jax.tree_util.tree_flatten_with_path(values)[0], jax.tree_util.tree_flatten_with_path(after)[0]):
                res.check(a.tobytes() == b.tobytes(), f'step changes the values of the argument {jax.tree_util.keystr(p)}', **info)
            for k in SETTINGS:
                if k == 'opt':
                    res.check(new[k] == bart[k] and type(new[k]) is type(bart[k]), 'step changes the options', **info)
                elif bart[k] is None:
                    res.check(new[k] is None, f'step changes {k}', **info)
                else:
                    res.check(np.array_equal(np.asarray(new[k]), np.asarray(bart[k])), f'step changes the setting {k}', before=bart[k], after=new[k], **info)
            bart = new
            res.count('states')
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    return res


def jobs_c09():
    j = [(purity, (s, d, r, m)) for s, d, r, m in (('float32', 3, True, 2), ('float16', 3, False, None), ('float32', 1, True, None), ('float32', 2, False, 1), ('bfloat16', 4, True, 2))]
    j += [(purity, ('float32', 3, True, 2, True))]
    j += [(layout, ((k, 6), False)) for k in range(6)] + [(layout, ((k, 2), True)) for k in range(2)]
    return j


# ------------------------------------------------------------------------- C11

def initial(part):
    jax, jnp, kernel, tape, mcmcstep, _ = lib()
    res = Result()
    full = list(itertools.product((1, 2, 3, 6), (1, 2, 255, 256, 257), (0, 1, 5, 300), (1, 2, 7), (None, 0, 1, 2, 3, 150), ((1.5, 1.), (0., 1.), (1., 0.), (2., 7.)), (False, True)))
    cases = [c for i, c in enumerate(full) if i * 13 % (1 if THOROUGH else 5) == 0]
    cases += [(d, 2, 5, 2, 1, (1.5, 1.), True) for d in range(1, 13)]
    for d, p, n, ntree, minpts, (alpha, beta), ratios in cases[part[0]::part[1]]:
        pnt = np.array([.95 / (1 + k) ** 2 for k in range(d - 1)], np.float32)
        mdt = ('uint8', 'uint16')[(d + p) % 2]
        small = ('float32', 'float16')[(n + ntree) % 2]
        rng = np.random.default_rng(d + p)
        X = rng.integers(0, 4, (p, n))
        y = rng.normal(size=n).astype(small)
        ms = np.full(p, 3)
        if (d + n) % 3 == 0:
            ms[:-1] = 0 # only the last predictor can be used
        kw = dict(resid_batch_size=None) if ntree == 2 else {}
        if ratios:
            kw['save_ratios'] = True
        b = mcmcstep.init(X=jnp.asarray(X, mdt), y=jnp.asarray(y), max_split=jnp.asarray(ms, mdt), num_trees=ntree, p_nonterminal=jnp.asarray(pnt), sigma2_alpha=alpha, sigma2_beta=beta,
                          small_float=jnp.dtype(small), min_points_per_leaf=minpts, **kw)
        info = dict(d=d, p=p, n=n, ntree=ntree, minpts=minpts, alpha=alpha, beta=beta, ratios=ratios, mdt=mdt, small=small)
        ck = lambda ok, msg: res.check(ok, msg, **info)
        H = 2 ** (d - 1)
        N = {k: np.asarray(v) for k, v in b.items() if v is not None and k not in ('opt', 'ratios')}
        zero = lambda k, shape: ck(N[k].shape == shape and not np.any(N[k]), f'{k} is not zero or has shape {N[k].shape}')
        zero('leaf_trees', (ntree, 2 * H))
        zero('var_trees', (ntree, H))
        zero('split_trees', (ntree, H))
        ck(N['leaf_trees'].dtype == small, 'type of leaf_trees')
        ck(N['split_trees'].dtype.kind == 'u' and np.iinfo(N['split_trees'].dtype).max >= 3, 'type of split_trees')
        ck(N['var_trees'].dtype.kind == 'u' and np.iinfo(N['var_trees'].dtype).max >= p - 1, f'type of var_trees {N["var_trees"].dtype}')
        ck(N['leaf_indices'].shape == (ntree, n) and np.all(N['leaf_indices'] == 1), 'leaf_indices')
        ck(N['leaf_indices'].dtype.kind == 'u' and np.iinfo(N['leaf_indices'].dtype).max >= 2 * H - 1, f'type of leaf_indices {N["leaf_indices"].dtype}')
        ck(np.array_equal(N['resid'].astype(float), y.astype(float)) and N['resid'].dtype == np.float32, 'residuals')
        ck(np.array_equal(N['y'].astype(float), y.astype(float)) and N['y'].dtype == small, 'response')
        ck(np.array_equal(N['X'], X) and np.array_equal(N['max_split'], ms), 'predictors')
        with np.errstate(all='ignore'):
            s2 = np.float64(beta) / np.float64(alpha)
        if not (np.isfinite(s2) and s2 > 0):
            s2 = 1
        ck(N['sigma2'].shape == () and abs(N['sigma2'] - s2) < 1e-6 * s2 and N['sigma2'].dtype == np.float32, f'error variance {N["sigma2"]} instead of {s2}')
        ck(N['sigma2_alpha'] == alpha and N['sigma2_beta'] == beta, 'prior parameters')
        for k in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
            ck(N[k].shape == () and N[k] == 0 and np.iinfo(N[k].dtype).max >= ntree, k)
        ck(N['p_nonterminal'].shape == (d,) and np.array_equal(N['p_nonterminal'], np.append(pnt, np.float32(0))), 'nonterminal probabilities')
        w = np.array([np.append(pnt, 0)[ref.depth(i)] if i else np.append(pnt, 0)[0] for i in range(H)], np.float32)
        ck(N['p_propose_grow'].shape == (H,) and np.array_equal(N['p_propose_grow'][1:], w[1:]), 'growth preferences')
        if minpts is None:
            ck(b['min_points_per_leaf'] is None and b['affluence_trees'] is None, 'minimum leaf size')
        else:
            ck(N['min_points_per_leaf'] == minpts, 'minimum leaf size')
            a = N['affluence_trees']
            if ck(a.shape == (ntree, H) and a.dtype == bool, 'shape of affluence_trees') and H > 1:
                ck(np.all(a[:, 1] == (n >= 2 * minpts)) and not np.any(a[:, 2:]) and not np.any(a[:, 0]), f'growth flag {a[:, 1]} of the root with {n} points and minimum {minpts}')
        ck(('ratios' in b) == ratios, 'saved ratios')
        if ratios:
            ck(set(b['ratios']) == {'log_trans_prior', 'log_likelihood'} and all(v.shape == (ntree,) and v.dtype == jnp.float32 for v in b['ratios'].values()), 'layout of saved ratios')
        o = b['opt']
        ck(o['small_float'] == small and o['large_float'] == 'float32' and o['require_min_points'] == (minpts is not None), 'options')
        ck(o['resid_batch_size'] is None if ntree == 2 else o['resid_batch_size'] is None or o['resid_batch_size'] >= 1, 'batch size')
        res.count('states')
        res.count('transitions')
        if len(res.violations) > 5:
            break
    res.count('traces_validated_against_impl', res.counts.get('transitions', 0))
    return res


def jobs_c11():
    return [(initial, ((k, 8),)) for k in range(8)]


# ------------------------------------------------------------------------- C12, C13

FIELDS_B = {'sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'}
FIELDS_M = FIELDS_B | {'leaf_trees', 'var_trees', 'split_trees'}
WATCH = ('sigma2', 'leaf_trees', 'var_trees', 'split_trees', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count', 'resid')


def problem(which=0):
    jax, jnp, kernel, *_ = lib()
    which = which % 10
    if which == 0:
        return kernel.Config('loop', (3, 2), n=12, ntree=2, p_nonterminal=(.8, .5), seed=5, kind='signal')
    return kernel.Config('loop1', (2,), n=7, ntree=3, p_nonterminal=(.8,), seed=6, minpts=1, ratios=True)


def make_callback(log, bare=False):
    import jax

    def record(state, burnin, i_total, i_skip, n_burn, n_save, n_skip):
        log.append(dict(state={k: np.array(v) for k, v in state.items()}, burnin=bool(burnin), i_total=int(i_total), i_skip=int(i_skip), settings=(int(n_burn), int(n_save), int(n_skip))))

    def callback(*, bart, burnin, i_total, i_skip, n_burn, n_save, n_skip):
        jax.debug.callback(record, {k: bart[k] for k in WATCH}, burnin, i_total, i_skip, n_burn, n_save, n_skip)
    return callback


class fake_step:
    """
    Replace the step with a cheap one that moves all the entries of the state
    as a function of the key and of the previous state. The loop is then
    explored over many more schedules than with the compilation of the step.
    """

    def __enter__(self):
        import importlib
        jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
        self.old = mcmcstep.step

        def step(bart, key):
            k = jax.random.split(key, 5)
            bart = dict(bart)
            u = jax.random.uniform(k[0])
            nt = bart['leaf_trees'].shape[0]
            bart['sigma2'] = 0.5 * bart['sigma2'] + u
            bart['resid'] = bart['resid'] * 0.5 + u
            bart['leaf_trees'] = bart['leaf_trees'] * 0.5 + jax.random.uniform(k[1], (nt, 1))
            for f in ('var_trees', 'split_trees'):
                bart[f] = (bart[f] + jax.random.randint(k[2], bart[f].shape, 0, 9).astype(bart[f].dtype)).astype(bart[f].dtype)
            g = jax.random.randint(k[3], (), 0, nt + 1)
            bart['grow_prop_count'] = g
            # some trees may propose nothing
            m = jnp.where(jax.random.bernoulli(k[4]), nt - g, (nt - g + 1) // 2)
            bart['prune_prop_count'] = m
            bart['grow_acc_count'] = g - jnp.minimum(g, 1)
            bart['prune_acc_count'] = (m + 1) // 2
            return bart
        mcmcstep.step = functools.wraps(self.old)(step)
        importlib.reload(mcmcloop)

    def __exit__(self, *exc):
        import importlib
        mcmcstep, mcmcloop = lib()[4:]
        mcmcstep.step = self.old
        importlib.reload(mcmcloop)


def reference_chain(cfg, length, seed):
    """ the states after each of the first iterations, through the callback """
    jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
    log = []
    out = mcmcloop.run_mcmc(cfg.init(), length, 0, 1, make_callback(log), jax.random.key(seed))
    jax.block_until_ready(out)
    jax.effects_barrier()
    log.sort(key=lambda e: e['i_total'])
    return [e['state'] for e in log], out


def same_state(a, b, keys=None):
    for k in keys or a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return f'{k} has shape {x.shape} instead of {y.shape}'
        if x.dtype.kind in 'biu':
            if not np.array_equal(x, y):
                return k
        elif not np.allclose(x, y, rtol=1e-4, atol=1e-5, equal_nan=True):
            return k
    return None


def schedule(which, triples, total, seed):
    if which >= 10:
        with fake_step():
            return schedule_(which, triples, total, seed)
    return schedule_(which, triples, total, seed)


def schedule_(which, triples, total, seed):
    jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
    res12, res13 = Result(), Result()
    cfg = problem(which)
    chain, _ = reference_chain(cfg, total, seed)
    res12.check(len(chain) == total, f'{len(chain)} iterations seen instead of {total}')
    # one step per iteration: structure changes are those counted
    prev = base_keys({k: np.asarray(v) for k, v in cfg.init().items() if k in ('split_trees', 'var_trees')})
    distinct = set()
    for i, s in enumerate(chain):
        k = base_keys(s)
        H = k.shape[-1] // 2
        changed = np.any(k != prev, axis=-1)
        size = np.count_nonzero(k[:, H:], axis=-1) - np.count_nonzero(prev[:, H:], axis=-1)
        ok = which >= 10 or np.count_nonzero(size > 0) == s['grow_acc_count'] and np.count_nonzero(size < 0) == s['prune_acc_count'] and np.all(np.abs(size) <= 1)
        res12.check(ok, f'iteration {i} is not one step from the previous one', changes=size)
        prev = k
        distinct.add(digest(k, s['sigma2']))
    res12.check(len(distinct) == len(chain), 'the chain repeats itself')
    for nb, ns, nk in triples:
        log = []
        info = dict(n_burn=nb, n_save=ns, n_skip=nk, problem=which)
        try:
            final, bt, mt = jax.block_until_ready(mcmcloop.run_mcmc(cfg.init(), nb, ns, nk, make_callback(log), jax.random.key(seed)))
        except Exception as e:
            for r in (res12, res13):
                r.violation(f'run_mcmc fails: {type(e).__name__}: {str(e)[:300]}', **info)
            continue
        jax.effects_barrier()
        n = nb + ns * nk
        extra = {'ratios'} if cfg.ratios else set()
        # ---- traces
        r = res12
        r.count('states', n)
        r.count('transitions')
        r.count('traces_validated_against_impl')
        r.check(set(bt) - extra == FIELDS_B, f'burn-in trace has fields {sorted(bt)}', **info)
        r.check(set(mt) - extra == FIELDS_M, f'main trace has fields {sorted(mt)}', **info)
        for nm, tr, fields, where in (('burn-in', bt, FIELDS_B, list(range(nb))), ('main', mt, FIELDS_M, [nb + (k + 1) * nk - 1 for k in range(ns)])):
            for f in fields & set(tr):
                x = np.asarray(tr[f])
                init = np.asarray(cfg_init(cfg)[f])
                if not r.check(x.shape == (len(where),) + init.shape and x.dtype == init.dtype, f'{nm} trace: {f} is {x.dtype}{x.shape}', **info):
                    continue
                for k, i in enumerate(where):
                    d = same_state({f: x[k]}, {f: chain[i][f]})
                    if not r.check(d is None, f'entry {k} of the {nm} trace is not the state after iteration {i + 1}: {f} differs', got=x[k], want=chain[i][f], **info):
                        break
            for f in extra & set(tr):
                for leaf in jax.tree_util.tree_leaves(tr[f]):
                    r.check(leaf.shape[0] == len(where), f'{nm} trace: length of {f}', **info)
        want = chain[n - 1] if n else {k: np.asarray(v) for k, v in cfg.init().items() if k in WATCH}
        d = same_state({k: final[k] for k in WATCH}, want)
        r.check(d is None, f'the final state is not the last one of the chain: {d} differs', **info)
        a, b = describe_layout(jax, final), describe_layout(jax, cfg.init())
        r.check(a == b, f'the final state has different entries: {set(a.items()) ^ set(b.items())}', **info)
        # ---- callbacks
        r = res13
        r.count('states', n)
        r.count('transitions')
        r.count('traces_validated_against_impl')
        log.sort(key=lambda e: e['i_total'])
        if not r.check([e['i_total'] for e in log] == list(range(n)), f'callback invoked with iterations {[e["i_total"] for e in log]}', **info):
            continue
        for i, e in enumerate(log):
            ok = r.check(e['burnin'] == (i < nb), f'burn-in flag {e["burnin"]} at iteration {i}', **info)
            ok &= r.check(e['i_skip'] == (i if i < nb else (i - nb) % nk), f'position {e["i_skip"]} since the last saved iteration at iteration {i}', **info)
            ok &= r.check(e['settings'] == (nb, ns, nk), f'callback gets settings {e["settings"]}', **info)
            d = same_state(e['state'], chain[i])
            ok &= r.check(d is None, f'callback at iteration {i} gets another state ({d} differs)', **info)
            if not ok:
                break
        for q in (res12, res13):
            q.sample(info)
    return res12, res13


_INIT = {}


def cfg_init(cfg):
    if cfg.name not in _INIT:
        _INIT[cfg.name] = cfg.init()
    return _INIT[cfg.name]


def traces(*a):
    return schedule(*a)[0]


def callbacks(*a):
    return schedule(*a)[1]


LINE = re.compile(r'^Iteration\s+(\d+)/(\d+)\s+P_grow=(\S+)\s+P_prune=(\S+)\s+A_grow=(\S+)\s+A_prune=(\S+?)(\s+\(burnin\))?\s*$')


def printer(which, triples, periods, total, seed):
    if which >= 10:
        with fake_step():
            return printer_(which, triples, periods, total, seed)
    return printer_(which, triples, periods, total, seed)


def printer_(which, triples, periods, total, seed):
    jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
    res = Result()
    cfg = problem(which)
    chain, _ = reference_chain(cfg, total, seed)
    nt = cfg.ntree

    def frac(a, b):
        return float(a) / float(b) if b else math.nan

    def close(s, x):
        v = float(s)
        return math.isnan(v) and math.isnan(x) or abs(v - x) <= 0.0051
    for (nb, ns, nk), every in itertools.product(triples, periods):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            out = mcmcloop.run_mcmc(cfg.init(), nb, ns, nk, mcmcloop.make_simple_print_callback(every), jax.random.key(seed))
            jax.block_until_ready(out)
            jax.effects_barrier()
        lines = [l for l in buf.getvalue().splitlines() if l.strip()]
        n = nb + ns * nk
        info = dict(n_burn=nb, n_save=ns, n_skip=nk, printevery=every, output=lines)
        want = [i for i in range(n) if (i + 1) % every == 0]
        res.count('states', n)
        res.count('transitions')
        res.count('traces_validated_against_impl')
        if not res.check(len(lines) == len(want), f'{len(lines)} lines printed instead of {len(want)}', **info):
            continue
        for l, i in zip(lines, want):
            m = LINE.match(l)
            if not res.check(m is not None, f'unexpected line "{l}"', **info):
                break
            s = chain[i]
            ok = int(m.group(1)) == i + 1 and int(m.group(2)) == n and bool(m.group(7)) == (i < nb)
            res.check(ok, f'line "{l}" for iteration {i + 1} of {n}', **info)
            g, p = int(s['grow_prop_count']), int(s['prune_prop_count'])
            vals = frac(g, nt), frac(p, nt), frac(s['grow_acc_count'], g), frac(s['prune_acc_count'], p)
            ok = all(close(a, b) for a, b in zip(m.groups()[2:6], vals))
            res.check(ok, f'line "{l}" reports wrong fractions, expected {vals}', **info)
        res.sample(info)
    # same period, same function: the loop is not recompiled
    f = mcmcloop.make_simple_print_callback
    res.check(f(7) is f(7), 'the printer for the same period is not the same object')
    return res


def all_triples(B, S, K):
    return [(b, s, k) for b in range(B + 1) for s in range(S + 1) for k in range(1, K + 1)]


def loop_triples():
    T = all_triples(5, 5, 4) if not THOROUGH else all_triples(9, 9, 6)
    return T + [(1, 12, 1), (12, 1, 2), (0, 2, 11), (20, 0, 1), (0, 1, 20)]


LONG = [(300, 3, 1), (0, 300, 1), (2, 3, 100), (0, 2, 150), (257, 2, 2), (256, 0, 1)]     # counters wider than a byte


def real_triples():
    if THOROUGH:
        return all_triples(3, 3, 3)
    return [(0, 1, 1), (0, 2, 2), (1, 0, 1), (2, 3, 1), (3, 2, 3), (1, 1, 2), (0, 0, 1), (2, 2, 2)]


def split_jobs(T, n):
    return [T[k::n] for k in range(n)]


def total_of(T):
    return max(b + s * k for b, s, k in T)


def jobs_c12():
    R, T = real_triples(), loop_triples()
    return [(traces, (0, t, 12, 11)) for t in split_jobs(R, 8)] + [(traces, (1, [(1, 2, 2)], 5, 12))] + [(traces, (10 + k % 2, t, total_of(T), 15)) for k, t in enumerate(split_jobs(T, 8))] + [(traces, (10, [t], total_of(LONG), 18)) for t in LONG]


def jobs_c13():
    R, T = real_triples(), loop_triples()
    j = [(callbacks, (0, t, 12, 13)) for t in split_jobs(R, 8)]
    P = all_triples(3, 3, 3) if THOROUGH else [(2, 2, 2), (3, 1, 3)]
    T = T if THOROUGH else [t for t in T if max(t) < 4 or t[1] > 9 or t[2] > 9]
    j += [(printer, (0, t, (1, 2, 3, 100) if THOROUGH else (1, 3), 12, 14)) for t in split_jobs(P, len(P) if len(P) < 8 else 8)]
    j += [(callbacks, (10 + k % 2, t, total_of(T), 16)) for k, t in enumerate(split_jobs(T, 8))]
    j += [(callbacks, (10, [t], total_of(LONG), 19)) for t in LONG] + [(printer, (10, [t], (100, 1, 128) if t == (300, 3, 1) else (100, 7), total_of(LONG), 20)) for t in LONG[:5]]
    P = [t for t in all_triples(2, 2, 3) + [(3, 3, 1), (0, 3, 2), (3, 0, 1), (4, 3, 1)] if t[1] or t[2] == 1] if not THOROUGH else all_triples(5, 5, 5)
    j += [(printer, (10 + k % 2, t, (1, 2, 3, 5, 100) if THOROUGH else (1, 2, 3), total_of(P), 17)) for k, t in enumerate(split_jobs(P, 8))]
    return j


# ------------------------------------------------------------------------- C25

def collect(cfg, nb, ns, nk, root):
    jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
    jax.clear_caches()
    with tape.record() as rec:
        out = mcmcloop.run_mcmc(cfg.init(), nb, ns, nk, lambda **kw: None, tape.make_key(root))
        jax.block_until_ready(out)
        jax.effects_barrier()
    return rec.events


def uses(events):
    """ key id -> list of uses """
    U = {}
    draws = {}
    for ev in events:
        kid = int(ev[3])
        if ev[0] == 'fold_in':
            U.setdefault(kid, []).append(('fold_in', int(ev[4])))
        else:
            U.setdefault(kid, []).append((ev[0], ev[1], ev[2]))
        if ev[0] == 'draw' and ev[1] != 'bits':
            for i in ev[4].ravel():
                draws[int(i)] = draws.get(int(i), 0) + 1
    return U, draws


def reused(U):
    out = set()
    for kid, l in U.items():
        if len(l) > 1:
            if all(x[0] == 'fold_in' for x in l) and len({x[1] for x in l}) == len(l):
                continue
            out.add(kid)
    return out


def fresh_keys(kw, nb, ns, nk):
    jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
    res = Result()
    cfg = kernel.Config('keys', **kw)
    ids = []
    bad_all = []
    info = dict(config=kw, n_burn=nb, n_save=ns, n_skip=nk)
    for root in (1, 2, 3):
        ev = collect(cfg, nb, ns, nk, root)
        U, draws = uses(ev)
        bad = reused(U)
        bad_all.append(bad)
        if root == 1:
            nd = sum(1 for e in ev if e[0] == 'draw')
            iters = nb + ns * nk
            res.check(nd >= 4 * iters, f'only {nd} draws recorded in {iters} iterations', **info)
            res.count('states', len(U))
            res.count('transitions', len(ev))
            res.count('draws', nd)
            res.count('traces_validated_against_impl')
        ids.append(set(U))
    # identifiers are hashes: a real reuse happens whatever the root key
    if all(bad_all):
        kid = sorted(bad_all[-1])[0]
        res.violation(f'{len(bad_all[-1])} random keys used more than once, e.g. for {[u[:2] for u in U[kid]][:4]}', uses=[list(map(str, u)) for u in U[kid]], **info)
    if ids[0] & ids[1] and ids[0] & ids[2] and ids[1] & ids[2]:
        res.violation('different seeds share random keys', **info)
    res.sample(info)
    return res


def footprints(kw, total):
    """ which decisions of the proposals of all trees depend on each elementary draw """
    jax, jnp, kernel, tape, mcmcstep, mcmcloop = lib()
    res = Result()
    if not hasattr(mcmcstep, 'sample_moves'):
        return res
    cfg = kernel.Config('draws', **kw)
    kern = kernel.Kernel(cfg)
    states = grow_states(kern, rounds=5, m=24, keep=total)
    n = len(states['split_trees'])
    static = {k: v for k, v in kern.bart0.items() if k not in kern.dynkeys}
    choices = ('allowed', 'grow', 'node', 'grow_var', 'grow_split')
    with tape.record() as rec:
        moves = jax.jit(lambda: mcmcstep.sample_moves(kern.bart0, tape.make_key(0)))()
        jax.block_until_ready(moves)
    if 'logu' not in moves or not set(choices) <= set(moves) or any(np.shape(moves[k]) != (cfg.ntree,) for k in choices + ('logu',)):
        return res
    ids = []
    for ev in rec.events:
        if ev[0] == 'draw':
            if ev[1] == 'bits':
                return res # not an elementary draw
            ids += [int(i) for i in ev[4].ravel()]
    ids = np.array(list(dict.fromkeys(ids)), np.uint32)
    K = len(ids)
    jids = jnp.asarray(ids)

    @jax.jit
    def many(dyn, values):
        def one(values):
            m = mcmcstep.sample_moves({**static, **dyn}, tape.make_key(0, jids, values))
            c = jnp.stack([jnp.asarray(m[k]).astype(jnp.int32) for k in choices])
            # only the choices which matter
            grow = m['grow'].astype(bool)
            used = jnp.stack([jnp.ones_like(grow), jnp.ones_like(grow), m['allowed'].astype(bool)] + 2 * [grow & m['allowed'].astype(bool)])
            return jnp.where(used, c, -1), m['logu']
        return jax.vmap(one)(values)

    levels = np.array([0, .12, .3, .49, .51, .7, .88, tape.VMAX], np.float32)
    nb = 4
    chosen = np.zeros((K, cfg.ntree), bool)
    decided = np.zeros((K, cfg.ntree), bool)
    for i in range(n):
        dyn = jax.tree_util.tree_map(lambda x: jnp.asarray(np.asarray(x)[i]), {k: states[k] for k in kern.dynkeys})
        for b in range(nb):
            base = np.modf((np.arange(K) + 1) * 0.618 + 0.29 * b + 0.137 * i)[0].astype(np.float32) * 0.98 + 0.01
            sc = np.tile(base, (K, len(levels), 1))
            for k in range(K):
                sc[k, :, k] = levels
            c, u = many(dyn, sc.reshape(-1, K))
            c = np.asarray(c).reshape(K, len(levels), len(choices), cfg.ntree)
            u = np.asarray(u).reshape(K, len(levels), cfg.ntree)
            chosen |= np.any(c != c[:, :1], axis=(1, 2))
            decided |= np.any(u != u[:, :1], axis=1)
            res.count('transitions', K * len(levels))
    info = dict(config=kw)
    for k in range(K):
        a, b = np.flatnonzero(chosen[k]), np.flatnonzero(decided[k])
        res.check(len(a) <= 1, f'the same random number decides the moves of the trees {a.tolist()}', **info)
        res.check(len(b) <= 1, f'the same random number decides the acceptance of the moves of the trees {b.tolist()}', **info)
        res.check(not (len(a) and len(b)), f'the same random number decides the move of tree {a.tolist()} and the acceptance of that of tree {b.tolist()}', **info)
    res.check(np.all(np.any(decided, axis=0)), 'the acceptance of the move of a tree does not depend on any random number', **info)
    res.count('states', n)
    res.count('footprints', K)
    res.sample(info)
    return res


def jobs_c25():
    j = []
    base = dict(max_split=(2, 1), n=6)
    for t in ((0, 1, 1), (1, 0, 1), (2, 2, 1), (0, 2, 3), (3, 2, 2), (1, 4, 1)):
        j.append((fresh_keys, (dict(base, ntree=2), *t)))
    for kw in (dict(base, ntree=1), dict(base, ntree=5, minpts=1, ratios=True), dict(base, ntree=3, p_nonterminal=(.9, .8, .7), rbatch=2, cbatch=2), dict(max_split=(0,), n=3, ntree=2), dict(base, ntree=1, p_nonterminal=()),
               dict(base, ntree=12)):
        j.append((fresh_keys, (kw, 2, 2, 2)))
    for kw in (dict(base, ntree=2), dict(base, ntree=1), dict(base, ntree=5, minpts=1), dict(base, ntree=4, p_nonterminal=(.9, .8, .7)), dict(max_split=(3, 1, 2, 4), n=12, ntree=3, p_nonterminal=(.95, .9, .9, .8))):
        j.append((footprints, (kw, 14 if not THOROUGH else 100)))
    if THOROUGH:
        for t in all_triples(3, 3, 3):
            j.append((fresh_keys, (dict(base, ntree=2), *t)))
        j.append((fresh_keys, (dict(base, ntree=20), 10, 10, 2)))
    return j
