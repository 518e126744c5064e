"""Properties of the MCMC step (C01-C07, C10), decided on the explored transition graph."""

import itertools
import math

import numpy as np

from mc.harness import Result, THOROUGH, digest
from mc import ref


def K():
    from mc import kernel
    return kernel


# ----------------------------------------------------------------- configurations

def ydata(n, seed):
    return np.random.default_rng(seed).normal(0, .6, n).astype('f')


def configs():
    """ name -> (constructor kwargs, graph kwargs) """
    C = {}

    def add(name, max_split, g=(), **kw):
        C[name] = (max_split, kw, dict(g))

    a, b = 'abcdefgh', None
    add('p2', (2, 1), n=7, alpha=2., beta=.7)
    add('d4', (3,), dict(Gu=12, Gi=6), p_nonterminal=(.75, .5, .25), n=9, kind='signal')
    add('dead', (1, 0, 2), dict(Gi=2), minpts=2, n=13)
    add('two', (2,), minpts=1, ntree=2, n=6, ratios=True, kind='signal')
    add('three', (2,), p_nonterminal=(.6,), ntree=3, n=5, seed=3)
    add('deep-min', (1, 2), dict(Gu=12, Gi=2), p_nonterminal=(.8, .5, .25), minpts=2, n=16, seed=2)
    add('shallow', (3, 1), dict(Gi=6), p_nonterminal=(.4,), n=6, minpts=1)
    add('norules', (0, 0), n=5)
    add('sparse-min', (3, 2), dict(Gi=6), minpts=3, n=13, kind='signal', seed=4)
    add('two-min', (1, 1), minpts=2, ntree=2, n=9, ratios=True, seed=1)
    add('binary3', (1, 1, 1), dict(Gi=6), n=6, seed=5)
    add('batched', (2, 1), n=11, rbatch=3, cbatch=4, minpts=2, ratios=True)
    add('auto', (2, 1), n=10, rbatch='auto', cbatch='auto', minpts=1, seed=7)
    add('uneven', (2,), dict(Gu=30, Gi=2), p_nonterminal=(.9, .6, .3), n=8, seed=8, ratios=True)
    # leaves with exactly once or twice the minimum number of datapoints
    add('exact2', (2,), minpts=2, X=np.array([[0, 0, 1, 1, 2, 2]]), y=ydata(6, 1), ratios=True)
    add('exact1', (3,), dict(Gu=12, Gi=6), minpts=1, X=np.array([[0, 1, 2, 3]]), y=ydata(4, 2), p_nonterminal=(.75, .5, .25))
    add('exact3', (2, 1), minpts=3, X=np.array([[0] * 4 + [1] * 2 + [2] * 6, [0, 1] * 6]), y=ydata(12, 3))
    add('nodata', (2, 1), n=0)
    add('smallnoise', (2, 1), n=7, beta=1e-3, alpha=20., y=.1 * ydata(7, 5), seed=6)
    add('bignoise', (2,), n=8, beta=300., ntree=2, y=20 * ydata(8, 6), seed=7, p_nonterminal=(.6,))
    add('onepoint', (1, 2), n=1, seed=9)
    add('zeros', (2, 1), n=7, y=np.zeros(7, 'f'), seed=10, ratios=True)
    add('smallshape', (2, 1), n=0, alpha=.2, beta=.5)
    add('smallshape1', (2,), n=1, alpha=.3)
    add('tinynoise', (2, 1), n=12, alpha=20., beta=2e-5, y=.003 * ydata(12, 7))
    if THOROUGH:
        for s in range(6):
            add(f'big{s}', (2, 1), dict(Gu=12, Gi=2), p_nonterminal=(.75, .5, .25), n=10 + s, seed=20 + s, minpts=s % 3 or None, ratios=bool(s % 2))
        add('binary3d4', (1, 1, 1), dict(Gu=12, Gi=6), p_nonterminal=(.75, .5, .25), n=8, seed=30)
        add('wide2', (2, 2), dict(Gu=12, Gi=2), p_nonterminal=(.75, .5, .25), n=8, seed=31)
        add('d5', (4,), dict(Gu=12, Gi=12), p_nonterminal=(.8, .5, .5, .25), n=9, seed=32)
        add('range5', (5,), dict(Gu=12, Gi=60), p_nonterminal=(.75, .5, .25), n=9, seed=33)
        add('two-p2', (1, 2), dict(Gi=2), ntree=2, n=8, seed=34)
        add('three-d3', (1,), ntree=3, p_nonterminal=(.7, .5), n=6, seed=35, minpts=1)
        add('four', (1,), ntree=4, p_nonterminal=(.7,), n=6, seed=36)
        add('three-2', (2, 1), ntree=3, p_nonterminal=(.7,), n=6, seed=37, minpts=1)
        add('n300', (2, 1), n=300, seed=38, minpts=60)
        add('seventy', (3, 3), dict(Gi=6), n=40, seed=39, minpts=5, kind='signal')
    return C


def extremes(k, j, s):
    """ alphabet for configurations too wide for a full product """
    K_ = K()
    if s == k.move[j]:
        return (0.25, 0.75)
    return (0.0, 0.37, K_.VMAX)


def wide_configs():
    """ index types at the limit of their width: limited alphabets and exploration depth """
    C = {}

    def add(name, max_split, g=(), **kw):
        C[name] = (max_split, kw, dict(dict(alph='extremes'), **dict(g)))

    rng = np.random.default_rng(0)
    X = np.concatenate([[0, 255, 254, 1], rng.integers(0, 256, 20)])[None, :]
    add('u8-255', (255,), dict(max_states=40), X=X, y=rng.normal(0, .5, 24).astype('f'), p_nonterminal=(.75, .5, .25))
    X = np.concatenate([[0, 255, 256, 65535, 65534], rng.integers(0, 65536, 11)])[None, :]
    add('u16-65535', (65535,), dict(max_states=20), X=X, y=rng.normal(0, .5, 16).astype('f'), mdtype='uint16')
    for p in (255, 256, 257):
        add(f'p{p}', (1,) * p, dict(max_states=16), n=6)
    X = rng.integers(0, 256, (1, 24))
    add('d9', (255,), dict(max_states=24, path=True), X=X, y=rng.normal(0, .5, 24).astype('f'), p_nonterminal=(.9,) * 8)
    add('d8', (255,), dict(max_states=24, path=True), X=X, y=rng.normal(0, .5, 24).astype('f'), p_nonterminal=(.9,) * 7, minpts=1)
    for n in (255, 256, 257, 300):
        add(f'n{n}', (1,), n=n, minpts=n // 4 if n != 256 else None)
    add('heavy', (2,), X=np.repeat([0, 1, 2], [300, 10, 12])[None, :], y=ydata(322, 4), ratios=True)
    add('heavy-min', (2, 1), X=np.stack([np.repeat([2, 1, 0], [300, 10, 12]), np.arange(322) % 2]), y=ydata(322, 5), minpts=5)
    add('heavy-dead', (0,), X=np.zeros((1, 300), int), y=ydata(300, 6))
    add('heavy-few', (1,), X=np.repeat([0, 1], [300, 3])[None, :], y=ydata(303, 8), minpts=5)
    add('min150', (2,), X=np.repeat([0, 1, 2], [150, 150, 310])[None, :], y=ydata(610, 11), minpts=150, p_nonterminal=(.75, .5, .25))
    add('few-heavy', (2,), X=np.repeat([0, 1, 2], [3, 300, 20])[None, :], y=ydata(323, 9), minpts=5)
    add('mass', (1,), dict(max_states=6, chunk=16), X=np.repeat([0, 1], [65800, 200])[None, :], y=ydata(66000, 10), minpts=100)
    return C


def deep_configs():
    """ one branch grown to the bottom of a deep tree, then pruned back to the root """
    C = {}
    X = np.arange(256)[None, :]
    for d in (9, 10, 11) if not THOROUGH else (9, 10, 11, 12, 17):
        for way in ('left', 'right', 'zigzag'):
            C[f'{way}{d}'] = ((255,), dict(X=X, y=ydata(256, d), p_nonterminal=tuple(.95 / 1.6 ** (d - 2 - i) for i in range(d - 1)), minpts=1 if way == 'zigzag' else None, ratios=way == 'left'),
                              dict(alph='dense', label=Branch(way, d)))
    return C


class Branch:
    """ label of a state: its branch if it lies along a given path and whether the bottom has been reached before """

    def __init__(self, way, d):
        self.nodes = [1]
        for i in range(d - 2):
            self.nodes.append(2 * self.nodes[-1] + (dict(left=0, right=1).get(way, i % 2)))
        self.next = dict(left=0, right=1).get(way, d % 2)

    def __call__(self, before, keys):
        H = keys.shape[-1] // 2
        cuts = keys[0, H:]
        have = np.flatnonzero(cuts)
        m = len(have)
        if have.tolist() != sorted(self.nodes[:m]):
            return None
        # only cutpoints that leave as much as possible to the rest of the branch
        l, r = 1, 256
        for a, b in zip(self.nodes[:m], self.nodes[1:m + 1] + [2 * self.nodes[-1] + self.next]):
            l, r = (l, int(cuts[a])) if b == 2 * a else (int(cuts[a]) + 1, r)
        if r - l < 255 - m:
            return None
        if before is None:
            return ('down', 0)
        way, m0 = before
        if way == 'down':
            if m == m0 + 1:
                return ('down', m)
            if m0 == len(self.nodes) and m == m0 - 1:
                return ('up', m)
        elif m == m0 - 1:
            return ('up', m)
        return None


def dense(k, j, s):
    K_ = K()
    if s == k.move[j]:
        return (0.25, 0.75)
    return (0.0, 0.42, 0.6, K_.VMAX)


def every():
    return {**configs(), **wide_configs(), **deep_configs()}


def build(name, refined=False, **over):
    k = K()
    allc = every()
    max_split, kw, g = allc[name]
    kw = dict(kw, **over)
    cfg = k.Config(name, max_split, **kw)
    g = dict(g)
    if refined and 'alph' not in g:
        g['Gu'] = g['Gi'] = math.lcm(g.get('Gu', 2), g.get('Gi', 2), len(max_split))
    g.pop('path', None)
    g.pop('chunk', None)
    if 'alph' in g:
        g['alph'] = dict(extremes=extremes, dense=dense)[g['alph']]
    return cfg, g


class Collector:
    """ stores the batches of an exploration """

    def __init__(self):
        self.joint = []
        self.all = []

    def __call__(self, kind, src, idx, sc, out, **kw):
        if kind == 'joint':
            self.joint.append((src, idx, sc, out, kw['meta']))
        self.all.append((kind, src, idx, sc, out))


def explore(name, res, roles=True, **over):
    """ returns kernel, graph, collector; graph is None if the draws have no clear roles and roles=False """
    k = K()
    cfg, g = build(name, **over)
    kern = k.Kernel(cfg, chunk=128 if name in deep_configs() else graph_kw(name).get('chunk', 1024))
    col = Collector()
    trivial = not any(cfg.max_split) or cfg.d == 1
    try:
        if trivial:
            raise k.Unclassified('no legal move in this configuration')
        kern.classify()
        graph = k.Graph(kern, **g).explore(keep=col)
        nstates = len(graph.index)
    except k.Unclassified as e:
        if roles and not trivial:
            raise
        graph = None
        nstates = generic(kern, col, g.get('max_states', 300))
        res.note(f'{name}: {e}: generic product of all draws used')
    if name not in configs() or graph is None or not graph.complete:
        res.note(f'{name}: exploration bounded at {nstates} states, depth {max(graph.depth) if graph else "-"}')
    res.count('states', nstates)
    res.count('transitions', sum(len(b[2]) for b in col.all))
    res.count('traces_validated_against_impl', sum(len(b[2]) for b in col.all))
    return kern, graph, col


def generic(kern, col, max_states):
    """ breadth first search with a product alphabet on all the discrete draws """
    k = K()
    disc = [j for j, kd in enumerate(kern.slots.kinds) if kd in ('uniform', 'randint')]
    values = (0.0, 0.34, 0.67, k.VMAX)
    while len(values) ** len(disc) > 20000:
        values = values[1:]
        if len(values) == 1:
            values = (0.3, 0.97)
            disc = disc[:14]
    scripts = kern.product(disc, [values] * len(disc))
    states = kern.initial()
    seen = {kern.tree_keys(states).tobytes()}
    while True:
        m = len(states['split_trees'])
        idx = np.repeat(np.arange(m), len(scripts))
        sc = np.tile(scripts, (m, 1))
        out = kern.run(states, idx, sc)
        col('generic', states, idx, sc, out)
        new = []
        for b, key in enumerate(kern.tree_keys(out)):
            kb = key.tobytes()
            if kb not in seen and len(seen) < max_states:
                seen.add(kb)
                new.append(b)
        if not new:
            return len(seen)
        states = k.take(out, np.array(new))
        if len(new) * len(scripts) > 10 ** 6:
            return len(seen)


def describe(src, i, sc, out, b, cfg, kern):
    """ replay information for one transition """
    pick = lambda s, j: {k: np.asarray(s[k])[j] for k in ('var_trees', 'split_trees', 'leaf_trees', 'sigma2', 'resid')}
    return dict(config={k: v for k, v in cfg.items()}, before=pick(src, i), after=pick(out, b),
                script=dict(ids=kern.slots.ids, kinds=kern.slots.kinds, values=sc[b]))


def partial_resid(cfg, src, i, out, b, j):
    """ residuals seen by tree j: earlier trees updated, later trees not """
    X, y = cfg.X, np.asarray(cfg.y, np.float64)
    r = y.copy()
    for t in range(cfg.ntree):
        s, c = (out, b) if t < j else (src, i)
        if t != j:
            r -= ref.evaluate_trees(X, s['leaf_trees'][c, t], s['var_trees'][c, t], s['split_trees'][c, t])
    return r


# -------------------------------------------------------------------------- C01

def acceptance(name):
    """ every proposal is accepted up to the exact Metropolis-Hastings ratio and no further """
    res = _acceptance(name)
    if any('not stationary' in m for m, _ in res.violations) and 'alph' not in graph_kw(name):
        # the probabilities may not be multiples of the grid for that kind of draw
        res2 = _acceptance(name, refined=True)
        if not res2.violations:
            res2.note(f'{name}: grid of answers refined')
            return res2
    return res


def _acceptance(name, **over):
    res = Result()
    kern, graph, col = explore(name, res, **over)
    if graph is None:
        return res
    cfg = kern.cfg
    k = K()
    model = cfg.model()
    nt = cfg.ntree
    assert cfg.large == 'float32'
    for src, idx, sc, out, meta in col.joint:
        probes = []   # (row, tree, value, expected, a)
        okeys = kern.tree_keys(out)
        skeys = kern.tree_keys(src)
        for b in range(len(idx)):
            state, combo, pat = meta[b]
            for j in range(nt):
                o = combo[j]
                if o[0] == 'other':
                    res.violation(f'{name}: the step changed a tree in a way that is neither a grow nor a prune: {o}', **describe(src, idx[b], sc, out, b, cfg, kern))
                    continue
                T = kern.tree(src, idx[b], j)
                if o[0] == 'none':
                    if pat[j] and not np.array_equal(okeys[b, j], skeys[idx[b], j]):
                        res.violation(f'{name}: same draws for tree {j} give different trees depending on the other trees', **describe(src, idx[b], sc, out, b, cfg, kern))
                    continue
                R = partial_resid(cfg, src, idx[b], out, b, j)
                s2 = float(src['sigma2'][idx[b]])
                try:
                    lr = model.logratio(T, o, R, s2)
                except KeyError:
                    lr = -math.inf
                if lr == -math.inf:
                    res.violation(f'{name}: forbidden move {o} accepted on tree {j}', **describe(src, idx[b], sc, out, b, cfg, kern))
                    continue
                res.distinct('distinct_ratios', round(lr, 5))
                a = math.exp(min(lr, 0.0))
                accv = kern.accept[j]
                def pos(u):
                    # position of the draw such that the probability of a smaller "u" is u
                    return (1 - u) if accv > 0.5 else u
                hi = a * (1 + 2e-3) + 6e-7
                lo = a * (1 - 2e-3) - 6e-7
                if hi < 1:
                    probes.append((b, j, pos(hi), False, lr))
                elif lr > 2e-3:
                    probes.append((b, j, kern.reject[j], True, lr))
                if lo > 0:
                    probes.append((b, j, pos(lo), True, lr))
        # without the acceptance forced, per pattern
        accd = [[True] * nt for _ in range(len(idx))]
        if not probes:
            continue
        rows = np.array([p[0] for p in probes])
        s2 = sc[rows].copy()
        for r, (b, j, v, _, _) in enumerate(probes):
            s2[r, kern.acc[j]] = min(max(v, 0.0), k.VMAX)
        out2 = kern.run(src, idx[rows], s2)
        keys2 = kern.tree_keys(out2)
        res.count('transitions', len(rows))
        res.count('traces_validated_against_impl', len(rows))
        for r, (b, j, v, expect, lr) in enumerate(probes):
            old, new = skeys[idx[b], j], keys2[r, j]
            want = graph.outcome(old, new) == meta[b][1][j]
            got_none = np.array_equal(old, new)
            ok = want if expect else got_none
            if not ok:
                res.violation(
                    f'{name}: move {meta[b][1][j]} of tree {j} with log ratio {lr:.4f} '
                    f'{"rejected" if got_none else "accepted" if want else "altered"} at acceptance draw {v!r}',
                    log_ratio=lr, **describe(src, idx[rows[r]], s2, out2, r, cfg, kern))
        # the forced patterns themselves
        for b in range(len(idx)):
            for j in range(nt):
                o, acc = meta[b][1][j], meta[b][2][j]
                if o[0] in ('none', 'other'):
                    continue
                got = graph.outcome(skeys[idx[b], j], okeys[b, j])
                if acc and got == ('none',):
                    lr = model.logratio(kern.tree(src, idx[b], j), o, partial_resid(cfg, src, idx[b], out, b, j), float(src['sigma2'][idx[b]]))
                    if lr < math.log(1e-4):
                        continue    # the draw that accepts is not enough
                if acc and got != o:
                    res.violation(f'{name}: forced acceptance of {o} of tree {j} gave {got}', **describe(src, idx[b], sc, out, b, cfg, kern))
    # proposals that must be visible
    R0 = None
    for state in range(len(graph.props)):
        for j in range(nt):
            T = kern.tree(graph.states, state, j)
            R = partial_resid(cfg, graph.states, state, graph.states, state, j)
            s2 = float(graph.states['sigma2'][state])
            exp = {o: model.logratio(T, o, R, s2) for o in model.proposals(T)} if 'alph' not in graph_kw(name) else {}
            for o, lr in exp.items():
                if lr > math.log(1e-4) and o not in graph.props[state][j]:
                    res.violation(f'{name}: legal move {o} with log ratio {lr:.3f} is never made from tree {T.key()}', tree=T.key(), proposals=list(graph.props[state][j]))
    if nt == 1 and graph.complete and 'alph' not in graph_kw(name):
        detailed_balance(name, res, kern, graph, model)
    res.sample(dict(config=name, states=len(graph.index), tree=kern.tree(graph.states, len(graph.index) - 1, 0).key()))
    return res


def graph_kw(name):
    return every()[name][2]


def detailed_balance(name, res, kern, graph, model):
    """ with the proposal probabilities measured on the code and the ratio it uses, the posterior is reversible """
    cfg = kern.cfg
    rng = np.random.default_rng(3)
    resid = np.asarray(cfg.y, np.float64)
    s2 = 0.7
    logpi = {}
    trees = []
    for s in range(len(graph.props)):
        T = kern.tree(graph.states, s, 0)
        trees.append(T)
        logpi[T.key()] = model.logprior(T) + model.loglik(T, resid, s2)
    meas = {T.key(): graph.props[s][0] for s, T in enumerate(trees)}
    for T in trees:
        for o, (_, q) in meas[T.key()].items():
            if o[0] in ('none', 'other'):
                continue
            T2 = model.result(T, o)
            back = meas.get(T2.key(), {}).get(model.reverse(T, o))
            if back is None:
                res.violation(f'{name}: move {o} from {T.key()} cannot be undone')
                continue
            lr = model.logratio(T, o, resid, s2)
            flow = logpi[T.key()] + math.log(q) + min(0, lr)
            flow2 = logpi[T2.key()] + math.log(back[1]) + min(0, -lr)
            res.count('balance_pairs')
            if abs(flow - flow2) > 1e-3:
                res.violation(f'{name}: the posterior is not stationary: probability flow between {T.key()} and {T2.key()} is exp({flow:.4f}) one way and exp({flow2:.4f}) the other')


# -------------------------------------------------------------------------- C02

def proposals(name):
    res = _proposals(name)
    if res.violations and 'alph' not in graph_kw(name):
        # the probabilities may not be multiples of the grid for that kind of draw
        res2 = _proposals(name, refined=True)
        if not res2.violations:
            res2.note(f'{name}: grid of answers refined')
            return res2
    return res


def _proposals(name, **over):
    res = Result()
    kern, graph, col = explore(name, res, **over)
    cfg = kern.cfg
    model = cfg.model()
    if graph is None:
        for _, src, idx, sc, out in col.all:
            if not np.array_equal(kern.tree_keys(out), kern.tree_keys(src)[idx]):
                res.violation(f'{name}: a tree changed although no move is possible')
        return res
    kw = graph_kw(name)
    for state in range(len(graph.props)):
        for j in range(cfg.ntree):
            T = kern.tree(graph.states, state, j)
            R = partial_resid(cfg, graph.states, state, graph.states, state, j)
            s2 = float(graph.states['sigma2'][state])
            meas = graph.props[state][j]
            probs = model.proposals(T)
            where = f'{name}: tree {T.key()}'
            for o in meas:
                if o[0] != 'none' and o not in probs:
                    res.violation(f'{where}: move {o} proposed, which is not among the documented ones', tree=T.key(), config=dict(cfg))
            if 'alph' in kw:
                wide_measure(res, where, T, meas, probs, model)
                continue
            hidden = 0.0
            uncertain = False
            for o, q in probs.items():
                lr = model.logratio(T, o, R, s2)
                res.count('proposal_probabilities')
                if o in meas:
                    if abs(meas[o][1] - q) > 1e-6:
                        res.violation(f'{where}: move {o} proposed with probability {meas[o][1]:.6f} instead of {q:.6f}', tree=T.key(), measured={str(a): b[1] for a, b in meas.items()}, documented={str(a): b for a, b in probs.items()}, config=dict(cfg))
                elif lr > math.log(1e-4):
                    res.violation(f'{where}: move {o} is never proposed', tree=T.key(), config=dict(cfg))
                else:
                    hidden += q
            none = meas.get(('none',), (None, 0.0))[1]
            if abs(none - hidden) > 1e-6:
                res.violation(f'{where}: no move with probability {none:.6f} instead of {hidden:.6f}', tree=T.key(), config=dict(cfg))
    res.sample(dict(config=name, tree=T.key(), measured={str(a): b[1] for a, b in meas.items()}))
    return res


def wide_measure(res, where, T, meas, probs, model):
    """ with limited alphabets: only the extremes of the ranges are known """
    grows = [o for o in meas if o[0] == 'grow']
    legal = [o for o in probs if o[0] == 'grow' and o[2] is not None]
    res.count('proposal_probabilities', len(grows))
    if not legal or not grows:
        return
    bynode = {}
    for o in legal:
        if model.size_ok(model.result(T, o)):
            bynode.setdefault(o[1], []).append(o)
    for node in {o[1] for o in grows} & set(bynode):
        # first and last variable, first and last cutpoint of each must show up
        if model.minpts is None:
            allv = sorted({o[2] for o in legal if o[1] == node})
            for v in (allv[0], allv[-1]):
                ss = sorted({o[3] for o in legal if o[1] == node and o[2] == v})
                for s in (ss[0], ss[-1]):
                    if ('grow', node, v, s) not in meas:
                        res.violation(f'{where}: rule {(node, v, s)} at the limit of the legal range is never proposed', tree=T.key(), proposed=grows)
    nodes = sorted({o[1] for o in grows})
    allnodes = sorted({o[1] for o in probs if o[0] == 'grow'})
    live = {o[1] for o in legal}
    for got, node in ((nodes[0], allnodes[0]), (nodes[-1], allnodes[-1])):
        if model.minpts is None and node in live and got != node:
            res.violation(f'{where}: leaf {node} is never proposed for growth', tree=T.key(), proposed=grows)


# -------------------------------------------------------------------------- C03

def wellformed(name):
    res = Result()
    kern, graph, col = explore(name, res, roles=False)
    cfg = kern.cfg
    for kind, src, idx, sc, out in col.all:
        leg = ref.legality(out['var_trees'], out['split_trees'], cfg.max_split)
        fin = np.isfinite(np.asarray(out['leaf_trees']).astype(float)).all(-1)
        bad = {
            'a decision node below a leaf': leg['stray'], 'a rule on a nonexistent predictor': leg['bad_var'],
            'an illegal cutpoint': leg['bad_range'], 'a nonzero unused slot': leg['slot0'] | (np.asarray(out['var_trees'])[..., 0] != 0),
            'a non-finite leaf': ~fin,
        }
        for what, mask in bad.items():
            if mask.any():
                b, j = np.argwhere(mask)[0]
                res.violation(f'{name}: tree {j} has {what} after a step', **describe(src, idx[b], sc, out, b, cfg, kern))
        res.count('trees_checked', mask.size)
    res.sample(dict(config=name, split_trees=col.all[-1][4]['split_trees'][-1][..., :16], var_trees=col.all[-1][4]['var_trees'][-1][..., :16]))
    return res


# -------------------------------------------------------------------------- C04

def coherence(name, **over):
    res = Result()
    kern, graph, col = explore(name, res, roles=False, **over)
    cfg = kern.cfg
    X, y = cfg.X, np.asarray(kern.bart0['y']).astype(np.float64)
    tag = name + (str(over) if over else '')
    for kind, src, idx, sc, out in col.all:
        coherent(res, tag, cfg, out, lambda b: describe(src, idx[b], sc, out, b, cfg, kern), y)
    res.sample(dict(config=tag, resid=col.all[-1][4]['resid'][-1][:8], leaf_indices=col.all[-1][4]['leaf_indices'][-1][..., :8]))
    return res


def coherence_small(name, dtype):
    return coherence(name, small=dtype)


def coherent(res, tag, cfg, out, info, y):
    X = cfg.X
    B = len(out['resid'])
    for a in range(0, B, 20000):
        sl = slice(a, a + 20000)
        var, split, leaf = (np.asarray(out[f])[sl] for f in ('var_trees', 'split_trees', 'leaf_trees'))
        idx = ref.traverse(X, var, split)
        stored = np.asarray(out['leaf_indices'])[sl].astype(np.int64)
        bad = np.any(stored != idx, axis=(1, 2))
        if bad.any():
            b = int(np.flatnonzero(bad)[0])
            res.violation(f'{tag}: stored leaf indices do not match the trees', stored=stored[b], expected=idx[b], **info(a + b))
        leaf64 = leaf.astype(np.float64)
        f = np.take_along_axis(leaf64, idx, -1).sum(1) if idx.shape[-1] else np.zeros((len(leaf), 0))
        err = np.abs(y - f - np.asarray(out['resid'])[sl].astype(np.float64))
        if err.size and np.nanmax(err) > 2e-5 * (1 + np.abs(y).max() + np.abs(leaf64).max()) or np.isnan(err).any():
            b = int(np.argmax(np.where(np.isnan(err), np.inf, err).max(1)))
            res.violation(f'{tag}: stored residuals differ from response minus forest by {err[b].max():.3g}', error=err[b], **info(a + b))
        if 'affluence_trees' in out:
            aff = np.asarray(out['affluence_trees'])[sl]
            H = split.shape[-1]
            cnt = ref.counts(idx, 2 * H)[..., :H]
            _, leafmask = ref.reachable(split)
            leafmask = leafmask[..., :H]
            mp = int(cfg.minpts)
            bad = np.any(leafmask & (aff != (cnt >= 2 * mp)), axis=(1, 2))
            if bad.any():
                b = int(np.flatnonzero(bad)[0])
                res.violation(f'{tag}: the flag of leaves with enough points is wrong', flags=aff[b], counts=cnt[b], **info(a + b))
        res.count('states_recomputed', len(var))


# -------------------------------------------------------------------------- C05

def min_points(name):
    res = Result()
    kern, graph, col = explore(name, res, roles=False)
    cfg = kern.cfg
    if cfg.minpts is None:
        return res
    assert cfg.n >= cfg.minpts
    for kind, src, idx, sc, out in col.all:
        pos = ref.traverse(cfg.X, out['var_trees'], out['split_trees'])
        _, leafmask = ref.reachable(out['split_trees'])
        cnt = ref.counts(pos, leafmask.shape[-1])
        bad = np.any(leafmask & (cnt < cfg.minpts), axis=(1, 2))
        res.count('leaves_checked', np.count_nonzero(leafmask))
        if bad.any():
            b = int(np.flatnonzero(bad)[0])
            res.violation(f'{name}: a leaf has {cnt[b][leafmask[b]].min()} < {cfg.minpts} datapoints', counts=cnt[b], **describe(src, idx[b], sc, out, b, cfg, kern))
    if graph is not None and graph.complete:
        # the constraint does not block more than needed
        trees = {T.key() for T in ref.all_trees(cfg.max_split, cfg.H, cfg.X, cfg.minpts)}
        for j in range(cfg.ntree):
            got = {kern.tree(graph.states, s, j).key() for s in range(len(graph.index))}
            res.count('legal_trees', len(trees))
            missing = trees - got
            if missing:
                res.violation(f'{name}: {len(missing)} legal trees satisfying the minimum leaf size are never reached, e.g. {min(missing)}', config=dict(cfg))
        n1, n2 = len(graph.index), len(trees) ** cfg.ntree
        if n1 != n2:
            res.violation(f'{name}: {n1} forests reached instead of {n2}', config=dict(cfg))
    res.sample(dict(config=name, n=cfg.n, minpts=cfg.minpts, states=len(graph.index) if graph else None))
    return res


# -------------------------------------------------------------------------- C06

def leaves(name, **over):
    """ new leaf values as a function of the normal draws """
    res = Result()
    kern, graph, col = explore(name, res, roles=False, **over)
    name += str(over or '')
    cfg = kern.cfg
    model = cfg.model()
    norm = kern.slots.of('normal')
    nt = cfg.ntree
    if len(norm) < nt:
        res.violation(f'{name}: only {len(norm)} normal draws in a step with {nt} trees')
        return res
    batches = [(s, i, c) for s, i, c, _, _ in col.joint] or [(s, i, c) for _, s, i, c, _ in col.all]
    total = 0
    meanonly = len(norm) > 300      # too many draws to move each one
    if meanonly:
        res.note(f'{name}: covariance of the leaves not measured')
    budget = (3000000 if THOROUGH else 250000) // (2 if meanonly else 1 + len(norm)) // nt
    for src, idx, sc in batches:
        B = len(idx)
        if not B:
            continue
        sel = np.arange(B)
        if B > budget:
            sel = np.unique(np.linspace(0, B - 1, budget).astype(int))
            res.note(f'{name}: {len(sel)} of {B} transitions of a level used')
        P = 2 + (0 if meanonly else len(norm))
        for a in range(0, len(sel), 2000):
            s_ = sel[a:a + 2000]
            base = sc[s_].copy()
            runs = np.repeat(base, P, axis=0).reshape(len(s_), P, -1)
            pats = np.zeros((P, len(norm)), np.float32)
            pats[1] = base[0, norm]
            pats[2:] = np.eye(len(norm))[:P - 2]
            runs[:, :, norm] = pats
            out = kern.run(src, np.repeat(idx[s_], P), runs.reshape(-1, kern.K))
            res.count('transitions', len(s_) * P)
            res.count('traces_validated_against_impl', len(s_) * P)
            leaf_law(res, name, cfg, model, kern, src, idx[s_], pats, out, P, runs)
        res.sample(dict(config=name, leaf_trees=out['leaf_trees'][0]))
    return res


def leaves_small(name, dtype):
    return leaves(name, small=dtype)


def sigma_small(name, dtype):
    return sigma(name, small=dtype)


def leaf_law(res, name, cfg, model, kern, src, idx, pats, out, P, runs):
    """ vectorized comparison with the conditional posterior """
    loose = 1 if cfg.small == 'float32' else 8
    nt, H = cfg.ntree, cfg.H
    Bs = len(idx)
    X = cfg.X
    y = np.asarray(kern.bart0["y"]).astype(np.float64)
    shape = (Bs, P)
    var = out['var_trees'].reshape(shape + (nt, H))
    split = out['split_trees'].reshape(shape + (nt, H))
    leaf = out['leaf_trees'].astype(np.float64).reshape(shape + (nt, 2 * H))
    sigma2 = src['sigma2'][idx].astype(np.float64)[:, None]
    old = ref.evaluate_trees(X, src['leaf_trees'], src['var_trees'], src['split_trees'])[idx]  # (Bs, nt, n)
    pos = ref.traverse(X, var, split)                                                       # (Bs, P, nt, n)
    newv = np.take_along_axis(leaf, pos, -1) if pos.shape[-1] else np.zeros(pos.shape)
    _, leafmask = ref.reachable(split)
    devs, variances, masks = [], [], []
    r = y - old.sum(1)[:, None, :] + np.zeros((Bs, P, 1))
    for j in range(nt):
        r = r + old[:, None, j]           # residuals without tree j
        cnt = ref.counts(pos[:, :, j], 2 * H)
        S = np.zeros((Bs, P, 2 * H))
        if pos.shape[-1]:
            bi, pi, _ = np.indices(pos[:, :, j].shape)
            np.add.at(S, (bi, pi, pos[:, :, j]), r)
        prec = cnt / sigma2[..., None] + cfg.ntree
        mean = S / sigma2[..., None] / prec
        devs.append(leaf[:, :, j] - mean)
        variances.append(1 / prec)
        masks.append(leafmask[:, :, j])
        r = r - newv[:, :, j]
    dev = np.concatenate(devs, -1)
    variance = np.concatenate(variances, -1)
    mask = np.concatenate(masks, -1)
    # structure must be the same in the P runs, else acceptance depends on leaf noise of earlier trees: compare only equal ones
    same = np.all(split == split[:, :1], axis=(2, 3)) & np.all(np.where(split != 0, var == var[:, :1], True), axis=(2, 3))
    # zero noise -> mean
    tol = 3e-4 * loose
    info = lambda b, p: describe(src, idx[b], runs.reshape(-1, kern.K), out, b * P + p, cfg, kern)
    bad = np.any(mask[:, 0] & (np.abs(dev[:, 0]) > tol * (1 + np.abs(leaf[:, 0].reshape(Bs, -1)))), axis=-1)
    res.count('leaves_checked', mask[:, 0].sum())
    if bad.any():
        b = int(np.flatnonzero(bad)[0])
        res.violation(f'{name}: a leaf is not centered on its conditional mean, deviations {np.round(dev[b, 0][mask[b, 0]], 4)}', **info(b, 0))
    if P == 2:
        return
    # one-hot noise -> loading matrix
    L = np.where(mask[:, :1], dev, 0)[:, 2:]            # (Bs, Nnorm, nodes)
    ok = same[:, 2:].all(1)
    G = np.einsum('bsi,bsk->bik', L, L)
    want = np.where(mask[:, 0], variance[:, 0], 0)[:, :, None] * np.eye(L.shape[-1])
    err = np.abs(G - want).max((1, 2))
    bad = ok & (err > loose * 2e-3 * variance[:, 0].max(-1))
    res.count('covariances_checked', ok.sum())
    if bad.any():
        b = int(np.argmax(np.where(bad, err, 0)))
        m = mask[b, 0]
        res.violation(f'{name}: the covariance of the leaves is not the conditional one: {np.round(G[b][m][:, m], 4).tolist()} instead of {np.round(want[b][m][:, m], 4).tolist()}', **info(b, 2))
    # linearity
    lin = np.einsum('s,bsi->bi', pats[1], L)
    bad = same[:, 1] & ok & np.any(mask[:, 0] & (np.abs(dev[:, 1] - lin) > loose * 1e-3), axis=-1)
    if bad.any():
        b = int(np.flatnonzero(bad)[0])
        res.violation(f'{name}: leaf values are not affine in the normal draws', **info(b, 1))


# -------------------------------------------------------------------------- C07

def sigma(name, **over):
    res = Result()
    kern, graph, col = explore(name, res, roles=False, **over)
    cfg = kern.cfg
    tag = name + (str(over) if over else '')
    gam = kern.slots.of('gamma')
    if len(gam) != 1:
        res.violation(f'{tag}: {len(gam)} gamma draws per step')
        return res
    batches = [(s, i, c) for s, i, c, _, _ in col.joint] or [(s, i, c) for _, s, i, c, _ in col.all]
    ts = np.array([0.5, 1.0, 3.25, 40.0, -0.5, -1.0, -2.0], np.float32)
    shape = cfg.alpha + cfg.n / 2
    for src, idx, sc in batches:
        sel = np.arange(len(idx))
        if len(sel) > 20000:
            sel = np.unique(np.linspace(0, len(sel) - 1, 20000).astype(int))
            res.note(f'{tag}: {len(sel)} of {len(idx)} transitions of a level used')
        P = len(ts)
        runs = np.repeat(sc[sel], P, axis=0)
        runs[:, gam[0]] = np.tile(ts, len(sel))
        out = kern.run(src, np.repeat(idx[sel], P), runs)
        res.count('transitions', len(runs))
        res.count('traces_validated_against_impl', len(runs))
        f = ref.evaluate_trees(cfg.X, out['leaf_trees'], out['var_trees'], out['split_trees']).sum(1)
        r = np.asarray(kern.bart0["y"]).astype(np.float64) - f
        scale = cfg.beta + (r * r).sum(1) / 2
        t = runs[:, gam[0]].astype(np.float64)
        g = np.where(t >= 0, t, -t * shape)
        with np.errstate(all='ignore'):
            want = scale / g
            got = out['sigma2'].astype(np.float64)
            bad = ~((np.abs(got - want) <= 1e-4 * np.abs(want) + 1e-30) | (np.isnan(want)))
        res.count('variances_checked', len(runs))
        if bad.any():
            b = int(np.flatnonzero(bad)[0])
            res.violation(f'{tag}: error variance {got[b]:.6g} instead of {want[b]:.6g} for gamma draw {"x shape " if t[b] < 0 else ""}{abs(t[b])}', **describe(src, np.repeat(idx[sel], P)[b], runs, out, b, cfg, kern))
    res.sample(dict(config=tag, sigma2=got[:7], draws=ts))
    return res


# -------------------------------------------------------------------------- C10

def counters(name):
    res = Result()
    kern, graph, col = explore(name, res, roles=False)
    cfg = kern.cfg
    model = cfg.model()
    nt = cfg.ntree
    for kind, src, idx, sc, out in col.all:
        d = kern.keys_size(kern.tree_keys(out)) - kern.keys_size(kern.tree_keys(src))[idx]
        for f, c in (('grow_acc_count', (d > 0).sum(1)), ('prune_acc_count', (d < 0).sum(1))):
            bad = np.asarray(out[f]) != c
            res.count('counters_checked', len(c))
            if bad.any():
                b = int(np.flatnonzero(bad)[0])
                res.violation(f'{name}: {f} is {out[f][b]} but {c[b]} trees changed that way', **describe(src, idx[b], sc, out, b, cfg, kern))
    memo = {}
    for src, idx, sc, out, meta in col.joint:
        for b in range(len(idx)):
            state, combo, pat = meta[b]
            glo = ghi = plo = phi = 0
            for j in range(nt):
                o = combo[j]
                if o[0] == 'grow':
                    glo, ghi = glo + 1, ghi + 1
                elif o[0] == 'prune':
                    plo, phi = plo + 1, phi + 1
                elif o[0] == 'none':
                    key = kern.tree_keys(src)[idx[b], j].tobytes() if (state, j) not in memo else None
                    if (state, j) not in memo:
                        T = kern.tree(src, idx[b], j)
                        hid = [q for q in model.proposals(T) if q not in graph.props[state][j] and q[0] != 'none']
                        kinds = {('dead' if q[0] == 'grow' and q[2] is None else q[0]) for q in hid}
                        memo[state, j] = kinds
                    kinds = memo[state, j]
                    glo += kinds == {'grow'}
                    ghi += bool(kinds & {'grow', 'dead'})
                    plo += kinds == {'prune'}
                    phi += 'prune' in kinds
            g, p = int(out['grow_prop_count'][b]), int(out['prune_prop_count'][b])
            res.count('counters_checked', 2)
            if not (glo <= g <= ghi and plo <= p <= phi):
                res.violation(f'{name}: {g} grow and {p} prune proposals counted, the moves proposed were {combo}', **describe(src, idx[b], sc, out, b, cfg, kern))
            if cfg.ratios:
                for j in range(nt):
                    o = combo[j]
                    if o[0] not in ('grow', 'prune'):
                        continue
                    T = kern.tree(src, idx[b], j)
                    T2 = model.result(T, o)
                    R = partial_resid(cfg, src, idx[b], out, b, j)
                    s2 = float(src['sigma2'][idx[b]])
                    sign = 1 if o[0] == 'grow' else -1
                    tp = sign * model.log_trans_prior(T, o)
                    lk = sign * (model.loglik(T2, R, s2) - model.loglik(T, R, s2))
                    gtp = float(out['ratios']['log_trans_prior'][b, j])
                    glk = float(out['ratios']['log_likelihood'][b, j])
                    res.count('ratios_checked', 2)
                    if not (abs(gtp - tp) < 2e-3 and abs(glk - lk) < 2e-3 * (1 + abs(lk))):
                        res.violation(f'{name}: saved log ratios {gtp:.5f}, {glk:.5f} instead of {tp:.5f}, {lk:.5f} for {o} of tree {j}', **describe(src, idx[b], sc, out, b, cfg, kern))
    res.sample(dict(config=name, counts=[int(out[f][-1]) for f in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')]))
    return res


def immobile(name, max_split, kw):
    """ no move is possible: nothing is proposed, counted or changed, whatever the draws """
    res = Result()
    k = K()
    cfg = k.Config(name, max_split, **kw)
    kern = k.Kernel(cfg)
    col = Collector()
    n = generic(kern, col, 300)
    for _, src, idx, sc, out in col.all:
        for f in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
            bad = np.asarray(out[f]) != 0
            res.count('counters_checked', len(bad))
            if bad.any():
                b = int(np.flatnonzero(bad)[0])
                res.violation(f'{name}: {f} is {out[f][b]} although no tree can be changed', **describe(src, idx[b], sc, out, b, cfg, kern))
        bad = np.any(kern.tree_keys(out) != kern.tree_keys(src)[idx], axis=(1, 2))
        if bad.any():
            b = int(np.flatnonzero(bad)[0])
            res.violation(f'{name}: a tree changed although no move is possible', **describe(src, idx[b], sc, out, b, cfg, kern))
        res.count('transitions', len(idx))
        res.count('traces_validated_against_impl', len(idx))
    res.count('states', n)
    return res


IMMOBILE = [
    ('few-points', (2, 1), dict(n=5, minpts=3)),
    ('few-points2', (2,), dict(n=3, minpts=2, ntree=2, ratios=True)),
    ('one-level', (2,), dict(n=5, p_nonterminal=())),
    ('one-level-min', (2,), dict(n=5, p_nonterminal=(), minpts=1, ntree=3)),
]


def many_trees(nt):
    """ counters with more trees than fit a narrow integer """
    res = Result()
    k = K()
    cfg = k.Config(f'trees{nt}', (1,), ntree=nt, n=4, p_nonterminal=(.5,))
    kern = k.Kernel(cfg, chunk=8)
    cur = kern.initial()
    disc = [j for j, kd in enumerate(kern.slots.kinds) if kd in ('uniform', 'randint')]
    for t in range(4):
        B = 8
        sc = np.tile(kern.base, (B, 1))
        for i, v in enumerate((0.0, 0.2, 0.5, 0.7, 0.9, 0.99, 0.9999, k.VMAX)):
            sc[i, disc] = v
        idx = np.zeros(B, int) if t == 0 else np.arange(B)
        out = kern.run(cur, idx, sc)
        d = kern.keys_size(kern.tree_keys(out)) - kern.keys_size(kern.tree_keys(cur))[idx]
        was = kern.keys_size(kern.tree_keys(cur))[idx] > 0
        for b in range(B):
            exp = dict(grow_acc_count=(d[b] > 0).sum(), prune_acc_count=(d[b] < 0).sum(), grow_prop_count=(~was[b]).sum(), prune_prop_count=was[b].sum())
            for f, c in exp.items():
                res.check(int(out[f][b]) == c, f'{nt} trees: {f} is {out[f][b]} instead of {c}')
            res.count('counters_checked', 4)
        res.count('states', B)
        res.count('transitions', B)
        res.count('traces_validated_against_impl', B)
        cur = out
    return res


def forest_of(nt, visit, draws=(0.0, 0.2, 0.7, 0.9999)):
    """ a few steps of a large forest under fixed answers; visit(cfg, kern, states, idx, scripts) """
    k = K()
    cfg = k.Config(f'trees{nt}', (2, 1), ntree=nt, n=9, p_nonterminal=(.6, .3), seed=nt, beta=.4)
    kern = k.Kernel(cfg, chunk=8)
    cur = kern.initial()
    disc = [j for j, kd in enumerate(kern.slots.kinds) if kd in ('uniform', 'randint')]
    rng = np.random.default_rng(nt)
    for t in range(3):
        B = len(draws)
        sc = np.tile(kern.base, (B, 1))
        for i, v in enumerate(draws):
            # the same answer for all trees, then a pattern of different ones
            sc[i, disc] = v if t == 0 else rng.integers(0, 16, len(disc)) / 16
        idx = np.zeros(B, int) if t == 0 else np.arange(B)
        out = kern.run(cur, idx, sc)
        visit(cfg, kern, cur, idx, sc, out)
        cur = out


def many_leaves(nt):
    """ centers of the leaves of a large forest """
    res = Result()

    def visit(cfg, kern, src, idx, sc, out):
        norm = kern.slots.of('normal')
        P = 2
        runs = np.repeat(sc, P, axis=0).reshape(len(idx), P, -1)
        pats = np.zeros((P, len(norm)), np.float32)
        pats[1] = np.random.default_rng(1).normal(0, 1, len(norm))
        runs[:, :, norm] = pats
        out = kern.run(src, np.repeat(idx, P), runs.reshape(-1, kern.K))
        leaf_law(res, cfg.name, cfg, cfg.model(), kern, src, idx, pats, out, P, runs)
        for f in ('states', 'transitions', 'traces_validated_against_impl'):
            res.count(f, len(idx) * P)

    forest_of(nt, visit)
    return res


def many_coherent(nt):
    """ caches of a large forest """
    res = Result()

    def visit(cfg, kern, src, idx, sc, out):
        coherent(res, cfg.name, cfg, out, lambda b: describe(src, idx[b], sc, out, b, cfg, kern), np.asarray(cfg.y, np.float64))
        for f in ('states', 'transitions', 'traces_validated_against_impl'):
            res.count(f, len(idx))

    forest_of(nt, visit)
    return res
