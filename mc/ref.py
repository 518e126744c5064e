"""Reference semantics of BART trees, in plain numpy, independent of the code under test.

A tree is a pair of arrays (var, split) of length H = 2^(d-1), heap order, root
at 1, a node is a decision node iff it is reachable and split != 0.
"""

import functools
import math

import numpy as np


def log2i(n):
    return int(n).bit_length() - 1


# ------------------------------------------------------------- vectorized part

def traverse(X, var, split):
    """ X (p, n); var, split (..., H) -> node index (..., n) """
    X = np.asarray(X).astype(np.int64)
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    H = split.shape[-1]
    p, n = X.shape
    batch = split.shape[:-1]
    var = var.reshape(-1, H)
    split = split.reshape(-1, H)
    idx = np.ones((len(var), n), np.int64)
    col = np.arange(n)
    for _ in range(log2i(H)):
        s = np.take_along_axis(split, idx, 1)
        v = np.take_along_axis(var, idx, 1)
        v = np.clip(v, 0, max(p - 1, 0))
        x = X[v, col] if p else np.zeros_like(s)
        idx = np.where(s == 0, idx, 2 * idx + (x >= s))
    return idx.reshape(batch + (n,))


def evaluate_trees(X, leaf, var, split):
    """ values of each tree, (..., n), double precision """
    idx = traverse(X, var, split)
    leaf = np.asarray(leaf).astype(np.float64)
    if not idx.shape[-1]:
        return np.zeros(idx.shape)
    return np.take_along_axis(leaf, idx, -1)


def reachable(split):
    """ masks (..., 2H): decision nodes, actual leaves """
    split = np.asarray(split)
    H = split.shape[-1]
    nz = split != 0
    dec = np.zeros(split.shape[:-1] + (2 * H,), bool)
    leaf = np.zeros_like(dec)
    above = np.ones(split.shape[:-1] + (1,), bool)
    a = 1
    while a < 2 * H:
        # nodes a...2a - 1: a level
        here = nz[..., a:2 * a] if a < H else np.zeros_like(above)
        dec[..., a:2 * a] = above & here
        leaf[..., a:2 * a] = above & ~here
        above = np.repeat(dec[..., a:2 * a], 2, axis=-1)
        a *= 2
    return dec, leaf


def counts(idx, size):
    """ datapoints per node: idx (..., n) -> (..., size) """
    batch = idx.shape[:-1]
    if not idx.size:
        return np.zeros(batch + (size,), np.int64)
    idx = idx.reshape(-1, idx.shape[-1])
    out = np.zeros((len(idx), size), np.int64)
    rows = np.repeat(np.arange(len(idx)), idx.shape[1])
    np.add.at(out, (rows, idx.ravel()), 1)
    return out.reshape(batch + (size,))


def legality(var, split, max_split):
    """ well-formedness and legality of every tree of a batch; (...,) bool masks """
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    max_split = np.asarray(max_split).astype(np.int64)
    p = len(max_split)
    H = split.shape[-1]
    dec, _ = reachable(split)
    stray = np.any((split != 0) & ~dec[..., :H], axis=-1)
    bad_var = np.zeros(split.shape[:-1], bool)
    bad_range = np.zeros(split.shape[:-1], bool)
    for i in range(1, H):
        v, s, on = var[..., i], split[..., i], dec[..., i]
        if not on.any():
            continue
        bv = on & ((v < 0) | (v >= p))
        bad_var |= bv
        m = max_split[np.clip(v, 0, p - 1)] if p else np.zeros_like(v)
        lo = np.ones_like(s)
        hi = m.copy()
        j = i
        while j > 1:
            par = j >> 1
            same = var[..., par] == v
            if j & 1:
                lo = np.where(same, np.maximum(lo, split[..., par] + 1), lo)
            else:
                hi = np.where(same, np.minimum(hi, split[..., par] - 1), hi)
            j = par
        bad_range |= on & ~bv & ((s < lo) | (s > hi))
    return dict(stray=stray, bad_var=bad_var, bad_range=bad_range, slot0=split[..., 0] != 0)


# ---------------------------------------------------------------- single trees

class Tree:
    """ one tree, as a mapping node -> (variable, cutpoint) """

    def __init__(self, rules, H):
        self.rules = dict(rules)
        self.H = H

    @classmethod
    def from_arrays(cls, var, split):
        H = len(split)
        dec, _ = reachable(split)
        return cls({i: (int(var[i]), int(split[i])) for i in np.flatnonzero(dec[:H]).tolist()}, H)

    def key(self):
        return tuple(sorted(self.rules.items()))

    def arrays(self):
        var = np.zeros(self.H, int)
        split = np.zeros(self.H, int)
        for i, (v, s) in self.rules.items():
            var[i], split[i] = v, s
        return var, split

    def leaves(self):
        out = []
        def rec(i):
            if i in self.rules:
                rec(2 * i)
                rec(2 * i + 1)
            else:
                out.append(i)
        rec(1)
        return out

    def assign(self, X):
        v, s = self.arrays()
        return traverse(X, v, s)

    def prunable(self):
        return [i for i in self.rules if 2 * i not in self.rules and 2 * i + 1 not in self.rules]

    def range(self, node, v, max_split):
        """ inclusive range of legal cutpoints """
        lo, hi = 1, int(max_split[v])
        j = node
        while j > 1:
            par = j >> 1
            pv, ps = self.rules[par]
            if pv == v:
                if j & 1:
                    lo = max(lo, ps + 1)
                else:
                    hi = min(hi, ps - 1)
            j = par
        return lo, hi

    def available(self, node, max_split):
        out = {}
        for v in range(len(max_split)):
            lo, hi = self.range(node, v, max_split)
            if lo <= hi:
                out[v] = (lo, hi)
        return out

    def grown(self, node, v, s):
        return Tree({**self.rules, node: (v, s)}, self.H)

    def pruned(self, node):
        r = dict(self.rules)
        del r[node]
        return Tree(r, self.H)

    def size_ok(self, X, minpts):
        if minpts is None:
            return True
        c = counts(self.assign(X), 2 * self.H)
        return all(c[i] >= minpts for i in self.leaves())


def depth(node):
    return int(node).bit_length() - 1


class Model:
    """ prior, proposal and likelihood for one tree """

    def __init__(self, X, max_split, p_nonterminal, minpts, ntree):
        self.X = np.asarray(X).astype(int)
        self.max_split = [int(m) for m in np.asarray(max_split)]
        self.pnt = [float(q) for q in p_nonterminal] + [0.0]  # bottom level
        self.minpts = minpts
        self.tau = 1 / ntree
        self._assign = {}

    def assign(self, T):
        k = T.key()
        if k not in self._assign:
            self._assign[k] = T.assign(self.X)
        return self._assign[k]

    def growable(self, T):
        idx = self.assign(T)
        out = []
        for i in T.leaves():
            if i >= T.H:
                continue
            if self.minpts is not None and np.count_nonzero(idx == i) < 2 * self.minpts:
                continue
            out.append(i)
        return out

    def size_ok(self, T):
        if self.minpts is None:
            return True
        idx = self.assign(T)
        return all(np.count_nonzero(idx == i) >= self.minpts for i in T.leaves())

    def logprior(self, T):
        out = 0.0
        for i in T.leaves():
            out += math.log1p(-self.pnt[depth(i)])
        for i, (v, s) in T.rules.items():
            av = T.available(i, self.max_split)
            if v not in av or not av[v][0] <= s <= av[v][1]:
                return -math.inf
            out += math.log(self.pnt[depth(i)]) - math.log(len(av)) - math.log(av[v][1] - av[v][0] + 1)
        return out

    def loglik(self, T, resid, sigma2):
        """ marginal likelihood of the residuals, leaves integrated out """
        idx = self.assign(T)
        out = 0.0
        for i in T.leaves():
            r = resid[idx == i]
            n = len(r)
            S = r.sum()
            out += -n / 2 * math.log(2 * math.pi * sigma2) - 0.5 * math.log1p(n * self.tau / sigma2)
            out += -0.5 / sigma2 * (np.dot(r, r) - self.tau * S * S / (sigma2 + n * self.tau))
        return out

    def move_probs(self, T):
        g = bool(self.growable(T))
        q = bool(T.rules)
        if g and q:
            return 0.5, 0.5
        return (1.0 if g else 0.0), (1.0 if q else 0.0)

    def proposals(self, T):
        """
        dict outcome -> probability; outcomes are ('grow', node, var, split),
        ('grow', node, None, None) for leaves without available rules,
        ('prune', node), ('none',).
        """
        out = {}
        pg, pp = self.move_probs(T)
        grow = self.growable(T)
        W = sum(self.pnt[depth(i)] for i in grow)
        if pg:
            for i in grow:
                q = pg * self.pnt[depth(i)] / W
                av = T.available(i, self.max_split)
                if not av:
                    out['grow', i, None, None] = q
                for v, (lo, hi) in av.items():
                    for s in range(lo, hi + 1):
                        out['grow', i, v, s] = q / len(av) / (hi - lo + 1)
        if pp:
            pr = T.prunable()
            for i in pr:
                out['prune', i] = pp / len(pr)
        if not pg and not pp:
            out['none',] = 1.0
        return out

    def result(self, T, prop):
        if prop[0] == 'grow' and prop[2] is not None:
            return T.grown(*prop[1:])
        if prop[0] == 'prune':
            return T.pruned(prop[1])
        return T

    def reverse(self, T, prop):
        if prop[0] == 'grow':
            return ('prune', prop[1])
        v, s = T.rules[prop[1]]
        return ('grow', prop[1], v, s)

    def log_trans_prior(self, T, prop):
        """ log of prior ratio times q(T'->T)/q(T->T') """
        T2 = self.result(T, prop)
        q = self.proposals(T)[prop]
        q2 = self.proposals(T2).get(self.reverse(T, prop), 0.0)
        if q2 == 0:
            return -math.inf
        return self.logprior(T2) - self.logprior(T) + math.log(q2) - math.log(q)

    def logratio(self, T, prop, resid, sigma2):
        """ log Metropolis-Hastings ratio; -inf if the move is forbidden """
        if prop[0] == 'none' or (prop[0] == 'grow' and prop[2] is None):
            return -math.inf
        T2 = self.result(T, prop)
        if not self.size_ok(T2):
            return -math.inf
        return self.log_trans_prior(T, prop) + self.loglik(T2, resid, sigma2) - self.loglik(T, resid, sigma2)

    def leaf_posterior(self, T, resid, sigma2):
        """ node -> (mean, variance) """
        idx = self.assign(T)
        out = {}
        for i in T.leaves():
            r = resid[idx == i]
            prec = len(r) / sigma2 + 1 / self.tau
            out[i] = (r.sum() / sigma2 / prec, 1 / prec)
        return out


def all_trees(max_split, H, X=None, minpts=None, limit=10 ** 6):
    """ all legal trees, by closure under growth """
    model = Model(np.zeros((len(max_split), 0), int) if X is None else X, max_split, [.5] * log2i(H), minpts, 1)
    root = Tree({}, H)
    seen = {root.key(): root}
    todo = [root]
    while todo:
        T = todo.pop()
        for i in T.leaves():
            if i >= H:
                continue
            for v, (lo, hi) in T.available(i, max_split).items():
                for s in range(lo, hi + 1):
                    T2 = T.grown(i, v, s)
                    if T2.key() not in seen and (minpts is None or model.size_ok(T2)):
                        seen[T2.key()] = T2
                        todo.append(T2)
                        assert len(seen) < limit
    return list(seen.values())
