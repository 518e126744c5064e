"""Exhaustive exploration of the real MCMC step under a scripted random source.

The step of the implementation is compiled once per configuration as a batched
function of (state, script), where the script answers every random draw. The
roles of the draws are determined by their observable effect, not by the order
in which the code makes them.
"""

import functools
import itertools

import numpy as np
import jax
from jax import numpy as jnp

from . import tape, ref
from .tape import VMAX

tape.install()
from bartz import mcmcstep  # noqa: E402

DYN = ('leaf_trees', 'var_trees', 'split_trees', 'resid', 'sigma2', 'leaf_indices', 'affluence_trees',
       'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count', 'ratios',
       'min_points_per_leaf', 'p_nonterminal')
V0 = 0.0


class Unclassified(Exception):
    """ the draws of the step do not have the expected roles """


class RawBits(Unclassified):
    """ the code under test draws with a function whose answers can not be scripted """


class NewOwner(Exception):
    """ a draw turns out to have a role """


def make_data(n, p, max_split, seed=0, kind='noise'):
    """ deterministic integer predictors covering all bins, and responses """
    rng = np.random.default_rng(seed)
    X = np.stack([rng.integers(0, m + 1, n) for m in max_split]) if p else np.zeros((0, n), int)
    if kind == 'noise':
        y = rng.normal(0, 0.6, n)
    else:
        y = X.sum(0) - X.sum(0).mean() + rng.normal(0, 0.3, n)
    return X, y.astype(np.float32)


class Config(dict):
    """ parameters of an MCMC, with defaults """

    defaults = dict(ntree=1, p_nonterminal=(.75, .5), minpts=None, alpha=1.5, beta=1.0, rbatch=None, cbatch=None,
                    ratios=False, xdtype=None, mdtype='uint8', small='float32', large='float32', n=8, seed=0, kind='noise', sigma2=None)

    def __init__(self, name, max_split, **kw):
        super().__init__(self.defaults)
        assert set(kw) <= set(self.defaults) | {'X', 'y'}, kw
        self.update(kw)
        self['name'] = name
        self['max_split'] = tuple(max_split)
        X, y = make_data(self['n'], len(max_split), max_split, self['seed'], self['kind'])
        self.setdefault('X', X)
        self.setdefault('y', y)
        self['n'] = len(self['y'])

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return f'Config({self["name"]})'

    def __reduce__(self):
        return _rebuild, (dict(self),)

    @property
    def d(self):
        return len(self['p_nonterminal']) + 1

    @property
    def H(self):
        return 2 ** (self.d - 1)

    def init(self, **over):
        kw = dict(
            X=jnp.asarray(self.X, self.xdtype or self.mdtype), y=jnp.asarray(self.y, jnp.float32),
            max_split=jnp.asarray(self.max_split, self.mdtype), num_trees=self.ntree,
            p_nonterminal=np.asarray(self.p_nonterminal, np.float32), sigma2_alpha=self.alpha, sigma2_beta=self.beta,
            small_float=jnp.dtype(self.small), large_float=jnp.dtype(self.large),
            min_points_per_leaf=self.minpts, resid_batch_size=self.rbatch, count_batch_size=self.cbatch,
            save_ratios=self.ratios,
        )
        kw.update(over)
        bart = mcmcstep.init(**kw)
        if self.sigma2 is not None:
            bart['sigma2'] = jnp.asarray(self.sigma2, bart['sigma2'].dtype)
        return bart

    def model(self):
        return ref.Model(self.X, self.max_split, np.asarray(self.p_nonterminal, np.float32), self.minpts, self.ntree)


def _rebuild(d):
    c = Config.__new__(Config)
    dict.update(c, d)
    return c


class Slots:
    """ the elementary draws of one step """

    def __init__(self, bart, root=0):
        with tape.record() as rec:
            static = {k: v for k, v in bart.items() if k not in DYN}
            dyn = {k: v for k, v in bart.items() if k in DYN}
            jax.jit(lambda dyn: mcmcstep.step({**static, **dyn}, tape.make_key(root)))(dyn)
        self.events = rec.events
        ids, kinds = [], []
        seen = set()
        for ev in rec.events:
            if ev[0] != 'draw':
                continue
            if ev[1] == 'bits':
                raise RawBits('draw of raw bits')
            for i in ev[4].ravel():
                i = int(i)
                if i not in seen:
                    seen.add(i)
                    ids.append(i)
                    kinds.append(ev[1])
        self.ids = np.array(ids, np.uint32)
        self.kinds = kinds

    def of(self, kind):
        return [j for j, k in enumerate(self.kinds) if k == kind]


class Kernel:

    def __init__(self, cfg, chunk=1024, **over):
        self.cap = 256
        self.cfg = cfg
        self.bart0 = cfg.init(**over)
        self.slots = Slots(self.bart0)
        self.K = len(self.slots.ids)
        self.dynkeys = [k for k in DYN if k in self.bart0 and self.bart0[k] is not None]
        self.chunk = chunk
        ids = jnp.asarray(self.slots.ids)
        static = {k: v for k, v in self.bart0.items() if k not in self.dynkeys}

        def one(dyn, values):
            out = mcmcstep.step({**static, **dyn}, tape.make_key(0, ids, values))
            return {k: out[k] for k in self.dynkeys}

        def many(states, index, values):
            dyn = jax.tree_util.tree_map(lambda x: x[index], states)
            return jax.vmap(one)(dyn, values)

        self._many = jax.jit(many)
        self.base = self.default_script()
        self.steps = 0

    def default_script(self):
        """ moderate answers for the continuous draws, positions for the others """
        v = np.zeros(self.K, np.float32)
        for j, kind in enumerate(self.slots.kinds):
            h = (int(tape.mix(self.slots.ids[j], 77)) % 1000) / 1000
            if kind == 'normal':
                v[j] = 1.2 * h - 0.6
            elif kind == 'gamma':
                v[j] = -(0.8 + 0.4 * h)
            else:
                v[j] = h * 0.98 + 0.01
        return v

    def initial(self):
        """ stacked dynamic state, batch of 1 """
        return {k: jax.tree_util.tree_map(lambda x: np.asarray(x)[None], self.bart0[k]) for k in self.dynkeys}

    def calibration(self):
        """ initial state where all moves are legal and no acceptance is certain """
        s = dict(self.initial())
        if 'min_points_per_leaf' in s:
            s['min_points_per_leaf'] = np.zeros_like(s['min_points_per_leaf'])
            s['affluence_trees'] = s['affluence_trees'].copy()
            s['affluence_trees'][..., 1:2] = True
        s['p_nonterminal'] = np.where(s['p_nonterminal'] > 0, 0.05, 0).astype(s['p_nonterminal'].dtype)
        s['sigma2'] = np.full_like(s['sigma2'], 1e6 if s['sigma2'].dtype.itemsize > 2 else 1e4)
        return s

    def run(self, states, index, values):
        """ states: stacked dict of numpy; index (B,), values (B, K) -> stacked results """
        index = np.asarray(index, np.int32)
        values = np.asarray(values, np.float32)
        B = len(index)
        assert values.shape == (B, self.K)
        nstates = len(states['split_trees'])
        cap = self.cap
        while cap < nstates:
            cap *= 4
        self.cap = cap
        pad = lambda x: np.concatenate([x, np.broadcast_to(x[:1], (cap - len(x),) + x.shape[1:])]) if cap > len(x) else x
        st = jax.tree_util.tree_map(lambda x: jnp.asarray(pad(np.asarray(x))), states)
        outs = []
        for a in range(0, B, self.chunk):
            i = index[a:a + self.chunk]
            v = values[a:a + self.chunk]
            m = len(i)
            if m < self.chunk:
                c = self.chunk
                i = np.concatenate([i, np.zeros(c - m, np.int32)])
                v = np.concatenate([v, np.zeros((c - m, self.K), np.float32)])
            out = self._many(st, i, v)
            outs.append(jax.tree_util.tree_map(lambda x: np.asarray(x)[:m], out))
        self.steps += B
        return jax.tree_util.tree_map(lambda *x: np.concatenate(x), *outs) if len(outs) > 1 else outs[0]

    # ------------------------------------------------------------ keys of states

    def tree_keys(self, states):
        """ canonical discrete content, (B, ntree, 2H) int array """
        split = np.asarray(states['split_trees']).astype(np.int64)
        var = np.asarray(states['var_trees']).astype(np.int64)
        dec, _ = ref.reachable(split)
        dec = dec[..., :split.shape[-1]]
        return np.concatenate([np.where(dec, var, 0), np.where(dec, split, 0)], -1)

    def tree(self, states, b, j):
        return ref.Tree.from_arrays(np.asarray(states['var_trees'])[b, j], np.asarray(states['split_trees'])[b, j])

    # ----------------------------------------------------------- classification

    def classify(self):
        """
        Find the role of each discrete draw, by effect.

        Sets self.roles[j] = dict(acc=, move=, other=[slots]), the value of the
        acceptance draw that accepts / rejects (self.accept[j], self.reject[j]).
        """
        disc = [j for j, k in enumerate(self.slots.kinds) if k in ('uniform', 'randint')]
        nt = self.cfg.ntree
        s0 = self.calibration()
        nb = 24
        rng = np.random.default_rng(5)
        bases = np.tile(self.base, (nb, 1))
        bases[:, disc] = rng.uniform(0.02, 0.98, (nb, len(disc)))
        grown = lambda out: np.asarray(out['split_trees'])[:, :, 1] != 0

        # acceptance draws: at the root state, the draw that by itself decides
        vals = [V0, VMAX]
        rows, meta = [], []
        for s in disc:
            for v in vals:
                r = bases.copy()
                r[:, s] = v
                rows.append(r)
        g = grown(self.run(s0, np.zeros(len(disc) * 2 * nb, int), np.concatenate(rows)))
        g = g.reshape(len(disc), 2, nb, nt)
        self.acc = [None] * nt
        self.accept = [None] * nt
        self.reject = [None] * nt
        for j in range(nt):
            for a, s in enumerate(disc):
                lo, hi = g[a, 0, :, j], g[a, 1, :, j]
                if hi.all() and not lo.any():
                    cand = s, VMAX, V0
                elif lo.all() and not hi.any():
                    cand = s, V0, VMAX
                else:
                    continue
                if self.acc[j] is not None:
                    raise Unclassified(f'two draws decide acceptance of tree {j}')
                self.acc[j], self.accept[j], self.reject[j] = cand
            if self.acc[j] is None:
                raise Unclassified(f'no single draw decides the acceptance of the move of tree {j}')
        if len(set(self.acc)) < nt:
            raise Unclassified('trees share the acceptance draw')
        self.rest = [s for s in disc if s not in self.acc]

        # owner of the other draws: the tree whose proposal they influence
        pool, _ = self.grow_pool(bases)
        m = len(pool['split_trees'])
        k0 = self.accept_all(bases[:6])
        B = 6 * m
        index = np.repeat(np.arange(m), 6)
        script = np.tile(k0, (m, 1))
        ref_out = self.tree_keys(self.run(pool, index, script))
        grid = [0.001, 0.26, 0.51, 0.76, VMAX]
        eff = np.zeros((len(self.rest), nt), bool)
        for a, s in enumerate(self.rest):
            for v in grid:
                sc = script.copy()
                sc[:, s] = v
                out = self.tree_keys(self.run(pool, index, sc))
                eff[a] |= np.any(out != ref_out, axis=(0, 2))
        self.owned = [[] for _ in range(nt)]
        for a, s in enumerate(self.rest):
            who = np.flatnonzero(eff[a])
            if len(who) > 1:
                raise Unclassified(f'a draw influences the proposals of trees {who}')
            for j in who:
                self.owned[j].append(s)
        self.idle = [s for a, s in enumerate(self.rest) if not eff[a].any()]
        self.find_move_draws(pool)

    def find_move_draws(self, pool):
        """ the draw that alone chooses between grow and prune when both are possible """
        cfg = self.cfg
        model = ref.Model(cfg.X, cfg.max_split, cfg.p_nonterminal, None, cfg.ntree)
        self.move = [None] * cfg.ntree
        self.grow_value = [None] * cfg.ntree
        m = len(pool['split_trees'])
        k0 = self.keys_size(self.tree_keys(pool))
        rng = np.random.default_rng(9)
        nb = 8
        for j in range(cfg.ntree):
            both = [b for b in range(m) if all(model.move_probs(self.tree(pool, b, j)))][:12]
            if not both:
                continue
            index = np.repeat(both, nb)
            sc = np.tile(self.base, (len(index), 1))
            sc[:, self.rest] = rng.uniform(0.02, 0.98, (len(index), len(self.rest)))
            sc = self.accept_all(sc)
            for s in self.owned[j]:
                res = []
                for v in (V0, VMAX):
                    x = sc.copy()
                    x[:, s] = v
                    size = self.keys_size(self.tree_keys(self.run(pool, index, x)))[:, j]
                    res.append(size - k0[index, j])
                if np.all(res[0] >= 0) and np.all(res[1] <= 0) and np.any(res[0] > 0) and np.any(res[1] < 0):
                    cand = s, V0
                elif np.all(res[0] <= 0) and np.all(res[1] >= 0) and np.any(res[0] < 0) and np.any(res[1] > 0):
                    cand = s, VMAX
                else:
                    continue
                self.move[j], self.grow_value[j] = cand
                break

    def find_owners(self, states, limit=300000):
        """ look for effects of the draws without a known role, in states found later """
        grid = [0.001, 0.26, 0.51, 0.76, VMAX]
        m = len(states['split_trees'])
        if not self.idle:
            return
        rng = np.random.default_rng(11)
        nb = 12
        sel = np.arange(m)
        most = max(1, limit // (nb * (1 + len(self.idle) * len(grid))))
        if m > most:
            sel = np.unique(np.linspace(0, m - 1, most).astype(int))
        bases = self.accept_all(np.tile(self.base, (nb, 1)))
        bases[:, self.rest] = rng.uniform(0.02, 0.98, (nb, len(self.rest)))
        for j, s in enumerate(self.move):
            if s is not None:
                bases[:, s] = np.where((np.arange(nb) >> (j % 3)) % 2, self.grow_value[j], VMAX if self.grow_value[j] == V0 else V0)
        index = np.repeat(sel, nb)
        script = np.tile(bases, (len(sel), 1))
        ref_out = self.tree_keys(self.run(states, index, script))
        found = False
        for s in list(self.idle):
            eff = np.zeros(self.cfg.ntree, bool)
            for v in grid:
                sc = script.copy()
                sc[:, s] = v
                eff |= np.any(self.tree_keys(self.run(states, index, sc)) != ref_out, axis=(0, 2))
            who = np.flatnonzero(eff)
            if len(who) > 1:
                raise Unclassified(f'a draw influences the proposals of trees {who}')
            for j in who:
                self.owned[j].append(s)
                self.idle.remove(s)
                found = True
        if found:
            raise NewOwner

    def keys_size(self, keys):
        """ number of decision nodes, (B, ntree) """
        H = keys.shape[-1] // 2
        return np.count_nonzero(keys[..., H:], axis=-1)

    def accept_all(self, scripts):
        scripts = np.array(scripts)
        for j in range(self.cfg.ntree):
            scripts[:, self.acc[j]] = self.accept[j]
        return scripts

    def grow_pool(self, bases):
        """ some varied states, by a few accepted random moves """
        st = self.calibration()
        pool = [st]
        cur = st
        idx = np.zeros(len(bases), int)
        for _ in range(4):
            sc = self.accept_all(bases)
            disc = self.rest
            rng = np.random.default_rng(100 + _)
            sc[:, disc] = rng.uniform(0.02, 0.98, (len(sc), len(disc)))
            cur = self.run(cur, idx, sc)
            idx = np.arange(len(bases))
            pool.append(cur)
        cat = jax.tree_util.tree_map(lambda *x: np.concatenate(x), *pool)
        keys = self.tree_keys(cat).reshape(len(cat['split_trees']), -1)
        _, first = np.unique(keys, axis=0, return_index=True)
        first = np.sort(first)[:64]
        return jax.tree_util.tree_map(lambda x: np.asarray(x)[first], cat), keys[first]

    # ------------------------------------------------------------- enumeration

    def product(self, slots, alphabets, base=None):
        """ scripts for the cartesian product of alphabets on the slots """
        base = self.base if base is None else base
        combos = np.array(list(itertools.product(*alphabets)), np.float32).reshape(-1, len(slots))
        out = np.tile(base, (len(combos), 1)).astype(np.float32)
        out[:, slots] = combos
        return out


class Graph:
    """ everything explored from the initial state of a configuration """

    def __init__(self, kernel, Gu=2, Gi=2, max_states=10 ** 6, max_depth=10 ** 6, alph=None, label=None):
        self.args = dict(Gu=Gu, Gi=Gi, max_states=max_states, max_depth=max_depth, alph=alph, label=label)
        self.label = label
        self.k = kernel
        self.cfg = kernel.cfg
        self.Gu, self.Gi = Gu, Gi
        self.alph = alph
        self.max_states = max_states
        self.max_depth = max_depth
        self.states = None        # stacked dynamic states
        self.index = {}           # canonical key bytes -> state number
        self.depth = []
        self.props = []           # per state, per tree: {outcome: (script values of owned slots, measure)}
        self.complete = True
        self.batches = []         # (kind, index of source states, scripts, outputs)

    def alphabets(self, j):
        k = self.k
        out = []
        for s in k.owned[j]:
            if self.alph is not None:
                out.append(self.alph(k, j, s))
            elif s == k.move[j]:
                out.append(edges(2))
            elif k.slots.kinds[s] == 'uniform':
                out.append(edges(self.Gu))
            else:
                out.append(strata(self.Gi))
        return out

    def keybytes(self, keys):
        keys = np.ascontiguousarray(keys.reshape(len(keys), -1))
        return [r.tobytes() for r in keys]

    def explore(self, keep=None):
        """ keep: function called on each batch (kind, src_states, index, scripts, outputs) """
        while True:
            log = []
            record = None if keep is None else lambda *a, **kw: log.append((a, kw))
            try:
                self._explore(record)
            except NewOwner:
                # the role of a draw was not visible in the states used to find it: restart
                self.__init__(self.k, **self.args)
                continue
            for a, kw in log:
                keep(*a, **kw)
            return self

    def _explore(self, keep):
        k = self.k
        nt = self.cfg.ntree
        init = k.initial()
        self.states = init
        first = self.keybytes(k.tree_keys(init))[0]
        self.labels = [None]
        if self.label is not None:
            self.labels = [self.label(None, k.tree_keys(init)[0])]
            first = self.labels[0]
        self.index = {first: 0}
        self.depth = [0]
        frontier = [0]
        level = 0
        while frontier:
            src = take(self.states, frontier)
            F = len(frontier)
            k.find_owners(src)
            srckeys = k.tree_keys(src)
            newprops = [[{} for _ in range(nt)] for _ in range(F)]
            for j in range(nt):
                base = k.base.copy()
                for i in range(nt):
                    base[k.acc[i]] = k.reject[i] if i != j else k.accept[i]
                scripts = k.product(k.owned[j], self.alphabets(j), base)
                P = len(scripts)
                for f0 in range(0, F, max(1, 200000 // P)):
                    f1 = min(F, f0 + max(1, 200000 // P))
                    idx = np.repeat(np.arange(f0, f1), P)
                    sc = np.tile(scripts, (f1 - f0, 1))
                    out = k.run(src, idx, sc)
                    if keep is not None:
                        keep('proposal', src, idx, sc, out, tree=j)
                    outk = k.tree_keys(out)
                    rows = np.ascontiguousarray(outk[:, j])
                    for b in range(len(idx)):
                        f = idx[b]
                        kb = rows[b].tobytes()
                        d = newprops[f][j]
                        if kb in d:
                            d[kb][1] += 1 / P
                        else:
                            d[kb] = [sc[b, k.owned[j]], 1 / P, rows[b]]
            for f in range(F):
                self.props.append([
                    {self.outcome(srckeys[f, j], row): (vals, q) for vals, q, row in newprops[f][j].values()}
                    for j in range(nt)
                ])
            # joint transitions
            idx, sc, meta = [], [], []
            for f in range(F):
                lists = [list(self.props[frontier[f]][j].items()) for j in range(nt)]
                for combo in itertools.product(*lists):
                    for pat in itertools.product((True, False), repeat=nt):
                        v = k.base.copy()
                        for j in range(nt):
                            v[k.owned[j]] = combo[j][1][0]
                            v[k.acc[j]] = k.accept[j] if pat[j] else k.reject[j]
                        idx.append(f)
                        sc.append(v)
                        meta.append((frontier[f], tuple(c[0] for c in combo), pat))
            idx = np.array(idx)
            sc = np.array(sc)
            out = k.run(src, idx, sc)
            if keep is not None:
                keep('joint', src, idx, sc, out, meta=meta)
                self.again(keep, src, srckeys, idx, sc, out, meta)
            new = []
            outk = k.tree_keys(out)
            for b, kb in enumerate(self.keybytes(outk)):
                if self.label is not None:
                    # only some states are continued
                    kb = self.label(self.labels[frontier[idx[b]]], outk[b])
                    if kb is None:
                        self.complete = False
                        continue
                if kb not in self.index:
                    if len(self.index) >= self.max_states or level + 1 > self.max_depth:
                        self.complete = False
                        continue
                    self.index[kb] = len(self.index)
                    self.labels.append(kb)
                    self.depth.append(level + 1)
                    new.append(b)
            first = len(self.depth) - len(new)
            if new:
                self.states = concat(self.states, take(out, np.array(new)))
            frontier = list(range(first, first + len(new)))
            level += 1

    def again(self, keep, src, srckeys, idx, sc, out, meta, limit=1500):
        """ the same transitions from the same trees with other leaf values: those left by a step without moves """
        k = self.k
        stay = np.flatnonzero(np.all(k.tree_keys(out) == srckeys[idx], axis=(1, 2)))
        _, first = np.unique(idx[stay], return_index=True)
        rows = stay[first]                      # one per source state
        where = {int(idx[b]): i for i, b in enumerate(rows)}
        sel = np.array([b for b in range(len(idx)) if int(idx[b]) in where], int)
        if len(sel) > limit:
            # whole states, from the first
            last = idx[sel[limit]]
            sel = sel[(idx[sel] < last) | (idx[sel] == idx[0])]
        if not len(sel):
            return
        src2 = take(out, rows)
        idx2 = np.array([where[int(idx[b])] for b in sel])
        out2 = k.run(src2, idx2, sc[sel])
        keep('joint', src2, idx2, sc[sel], out2, meta=[meta[b] for b in sel])

    def outcome(self, old, new):
        """ the move between two canonical keys of a tree """
        H = len(old) // 2
        dold = {i: (int(old[i]), int(old[H + i])) for i in range(H) if old[H + i]}
        dnew = {i: (int(new[i]), int(new[H + i])) for i in range(H) if new[H + i]}
        if dold == dnew:
            return ('none',)
        extra = set(dnew) - set(dold)
        missing = set(dold) - set(dnew)
        common = all(dold[i] == dnew[i] for i in set(dold) & set(dnew))
        if common and len(extra) == 1 and not missing:
            i, = extra
            return ('grow', i) + dnew[i]
        if common and len(missing) == 1 and not extra:
            i, = missing
            return ('prune', i)
        return ('other', tuple(sorted(dnew.items())))


def strata(G):
    """ middle positions of G equal strata """
    return tuple((i + 0.5) / G for i in range(G))


def edges(G, eps=1e-4):
    """ positions just inside both ends of G equal strata """
    return tuple(x for i in range(G) for x in ((i / G + eps) if i else 0.0, ((i + 1) / G - eps) if i < G - 1 else VMAX))


def take(states, index):
    return jax.tree_util.tree_map(lambda x: np.asarray(x)[index], states)


def concat(*states):
    return jax.tree_util.tree_map(lambda *x: np.concatenate(x), *states)
