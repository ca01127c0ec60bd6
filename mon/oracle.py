"""Independent reference: definitions written with plain numpy, pair by pair.
Nothing here imports the code under test."""
import numpy as np
from math import log, log1p, exp, expm1

LAW = {"FitnessModel": "fit", "ScaleInvariantModel": "inv", "MultiFitnessModel": "fit",
       "MultiInvariantModel": "inv", "RandomDiGraph": "rnd", "ConditionalInvariantModel": "inv"}


def pfun(law, t):
    """probability from t = d*x*y"""
    t = np.asarray(t, dtype=np.float64)
    with np.errstate(all="ignore"):
        if law == "fit":
            r = np.where(np.isinf(t), 1.0, t / (1.0 + t))
        else:
            r = -np.expm1(-t)
    return r


def tmat(d, x, y):
    """d*x*y with 0 whenever a factor is 0 (also if the others are infinite)"""
    with np.errstate(all="ignore"):
        t = d * x[:, None] * y[None, :]
    z = (x[:, None] == 0) | (y[None, :] == 0) | (d == 0)
    return np.where(z, 0.0, t)


def prob(law, d, x, y, selfloops):
    P = pfun(law, tmat(d, x, y))
    if not selfloops:
        np.fill_diagonal(P, 0.0)
    return P


def prob_random(p, n, selfloops):
    P = np.full((n, n), float(p))
    if not selfloops:
        np.fill_diagonal(P, 0.0)
    return P


def prob_layers(law, d, X, Y, selfloops):
    return np.stack([prob(law, d[k], X[:, k], Y[:, k], selfloops) for k in range(X.shape[1])])


def project(PL):
    return -np.expm1(np.sum(np.log1p(-np.minimum(PL, 1.0)), axis=0)) if not np.any(PL >= 1) else 1 - np.prod(1 - PL, axis=0)


def exp_degrees(P):
    """undirected, out, in"""
    Q = P + P.T - P * P.T
    Q = Q.copy()
    np.fill_diagonal(Q, np.diag(P))
    return Q.sum(axis=1), P.sum(axis=1), P.sum(axis=0)


def und(P):
    Q = P + P.T - P * P.T
    np.fill_diagonal(Q, np.diag(P))
    return Q


def av_nn(P, prop, ndir):
    W = P if ndir == "out" else P.T if ndir == "in" else und(P)
    d = W.sum(axis=1)
    s = W @ prop
    out = np.zeros(s.shape)
    nz = d != 0
    out[nz] = s[nz] / (d[nz] if s.ndim == 1 else d[nz][:, None])
    return out


def loglik(P, T, law, A, selfloops):
    """T = d*x*y (for accuracy); A bool. P only used for the random law."""
    n = A.shape[0]
    tot = 0.0
    for i in range(n):
        for j in range(n):
            if i == j and not selfloops:
                if A[i, j]:
                    return -np.inf
                continue
            if law == "rnd":
                p = P[i, j]
                lp = log(p) if p > 0 else -np.inf
                lq = log1p(-p) if p < 1 else -np.inf
            else:
                t = T[i, j]
                lp, lq = logs(law, t)
            v = lp if A[i, j] else lq
            if v == -np.inf:
                return -np.inf
            tot += v
    return tot


def logs(law, t):
    if t == 0:
        return -np.inf, 0.0
    if np.isinf(t):
        return 0.0, -np.inf
    if law == "fit":
        return -log1p(1.0 / t), -log1p(t)
    return log(-expm1(-t)), -t


def loglik_proj(law, d, X, Y, A, selfloops):
    """binary likelihood of the projection"""
    n, L = X.shape
    tot = 0.0
    for i in range(n):
        for j in range(n):
            if i == j and not selfloops:
                if A[i, j]:
                    return -np.inf
                continue
            lq = 0.0
            for k in range(L):
                if d[k] == 0 or X[i, k] == 0 or Y[j, k] == 0:
                    continue
                lq += logs(law, d[k] * X[i, k] * Y[j, k])[1]
            if A[i, j]:
                if lq == 0:
                    return -np.inf
                v = log(-expm1(lq)) if lq > -np.inf else 0.0
            else:
                v = lq
            if v == -np.inf:
                return v
            tot += v
    return tot


# ----------------------------------------------------------------- graphs
class RefGraph:
    """Reference semantics of a vertex table plus an edge list.

    ids: list of vertex ids (any hashable, sortable); edges: list of
    (src, dst, label or None, weight or None)."""

    def __init__(self, ids, edges, groups=None, directed=True, multi=False, weighted=True,
                 pos=None, lpos=None, gpos=None):
        """pos, lpos, gpos: the numbering chosen by the graph under test
        (bijections checked by the caller); sorted order by default."""
        self.ids = sorted(ids) if pos is None else sorted(ids, key=lambda v: pos[v])
        self.pos = {v: i for i, v in enumerate(self.ids)}
        n = len(self.ids)
        self.n = n
        self.multi, self.directed, self.weighted = multi, directed, weighted
        self.labels = sorted({e[2] for e in edges}, key=None if lpos is None else lambda l: lpos[l]) if multi else [None]
        lpos = {l: k for k, l in enumerate(self.labels)}
        L = max(len(self.labels), 1)
        W = np.zeros((L, n, n))
        C = np.zeros((L, n, n), dtype=bool)
        for s, t, l, w in edges:
            k = lpos[l] if multi else 0
            i, j = self.pos[s], self.pos[t]
            C[k, i, j] = True
            W[k, i, j] += w if weighted else 0.0
        if not weighted:
            W = C.astype(float)
        self.W, self.C = W, C
        self.groups_of = groups  # dict id -> group
        if groups is not None:
            self.gids = sorted(set(groups.values()), key=None if gpos is None else lambda g: gpos[g])
            gp = {g: i for i, g in enumerate(self.gids)}
            self.garr = np.array([gp[groups[v]] for v in self.ids])

    # layer tensors
    def layer_bin(self, directed):
        return self.C if directed else self.C | self.C.transpose(0, 2, 1)

    def layer_w(self, directed):
        if directed:
            return self.W
        if not self.weighted:
            return self.layer_bin(False).astype(float)
        S = self.W + self.W.transpose(0, 2, 1)
        for k in range(S.shape[0]):
            np.fill_diagonal(S[k], np.diag(self.W[k]))
        return S

    # projections
    def bin(self, directed):
        return self.layer_bin(directed).any(axis=0)

    def w(self, directed):
        if not self.weighted:
            return self.bin(directed).astype(float)
        return self.layer_w(directed).sum(axis=0)

    def by_group(self, M):
        out = np.zeros((self.n, len(self.gids)))
        for g in range(len(self.gids)):
            out[:, g] = M[:, self.garr == g].sum(axis=1)
        return out

    def edges_und(self, M):
        return (M.sum() + np.trace(M)) / 2

    def av_nn(self, prop, ndir, selfloops):
        A = self.bin(True) if ndir in ("out", "in") else self.bin(False)
        if ndir == "in":
            A = A.T
        A = A.copy()
        if not selfloops:
            np.fill_diagonal(A, False)
        d = A.sum(axis=1)
        s = A.astype(float) @ prop
        out = np.zeros(s.shape)
        nz = d > 0
        out[nz] = s[nz] / (d[nz] if s.ndim == 1 else d[nz][:, None])
        return out
