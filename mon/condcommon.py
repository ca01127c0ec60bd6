"""Conditional scale-invariant models: generated partitions and observed
coarse-grained graphs, and the conditioned law by exhaustive enumeration."""
import itertools

import numpy as np

from . import backends as bk
from .mcommon import as_format


class CSpec:
    def __init__(self, n, groups, A, x, y, d, selfloops, kind=""):
        self.n, self.groups, self.A, self.x, self.y, self.d, self.selfloops, self.kind = n, groups, A, x, y, float(d), selfloops, kind
        self.M = A.shape[0]
        self.multi, self.L = False, 1

    def info(self):
        return dict(n=self.n, groups=self.groups, macro=self.A, x=self.x, y=self.y, param=self.d, selfloops=self.selfloops, kind=self.kind)

    def T(self, sl=None):
        sl = self.selfloops if sl is None else sl
        T = np.outer(self.x, self.y).astype(float)
        if not sl:
            np.fill_diagonal(T, 0.0)
        return T

    def blocks(self, T):
        """Sum of T over every pair of groups."""
        G = np.zeros((self.M, self.n))
        G[self.groups, np.arange(self.n)] = 1
        return G @ T @ G.T

    def cond(self, t, D, link):
        """Probability of an event of rate t inside a macro link of rate D,
        given that the link is realised."""
        with np.errstate(all="ignore"):
            if self.d == 0:
                r = t / D
            else:
                r = np.where(np.isinf(self.d * t), 1.0, -np.expm1(-self.d * t)) / np.where(np.isinf(self.d * D), 1.0, -np.expm1(-self.d * D))
        return np.where((t > 0) & (D > 0) & link, r, 0.0)

    def P(self, sl=None):
        T = self.T(sl)
        D = self.blocks(T)
        gi = np.ix_(self.groups, self.groups)
        return self.cond(T, D[gi], self.A[gi] > 0)

    def U(self, sl=None):
        """Probability that i and j are linked in at least one direction."""
        P = self.P(sl)
        U = P + P.T - P * P.T
        T = self.T(sl)
        D = self.blocks(T)
        gi = np.ix_(self.groups, self.groups)
        same = self.groups[:, None] == self.groups[None, :]
        S = self.cond(T + T.T, D[gi], self.A[gi] > 0)
        U = np.where(same, S, U)
        np.fill_diagonal(U, np.diag(P))
        return U

    def kappa(self, sl=None):
        """Condition number of the within-group totals when self-loops are off."""
        sl = self.selfloops if sl is None else sl
        if sl:
            return 1.0
        F, D = np.diag(self.blocks(self.T(True))), np.diag(self.blocks(self.T(False)))
        ok = (D > 0) & (np.diag(self.A) > 0)
        return float((F[ok] / D[ok]).max()) if ok.any() else 1.0

    def build(self, fmt=None, gdtype=np.int64, **over):
        A = self.A.copy() if fmt is None else as_format(self.A, fmt)
        kw = dict(num_vertices=self.n, prop_out=self.x.copy(), prop_in=self.y.copy(), groups=self.groups.astype(gdtype), adj=A,
                  param=self.d, selfloops=self.selfloops)
        kw.update(over)
        kw = {k: v for k, v in kw.items() if v is not None}
        return bk.SPARSE.ConditionalInvariantModel(**kw)


def cspec(rng, n=None, selfloops=None, scale=None, dens=None, spread=1.0):
    n = n if n is not None else int(rng.choice([1, 2, 3, 4, 5, 8, 13, 20]))
    sl = bool(rng.integers(2)) if selfloops is None else selfloops
    M = int(rng.integers(1, min(n, 5) + 1))
    groups = np.concatenate([np.arange(M), rng.integers(0, M, n - M)])
    groups = groups[rng.permutation(n)]
    if M > 2 and rng.random() < .1:  # a group without vertices
        groups[groups == 1] = M - 1
    x, y = np.exp(rng.normal(size=n) * spread), np.exp(rng.normal(size=n) * spread)
    kind = str(rng.choice(["positive", "zeros", "int", "wide"]))
    if kind == "zeros":
        x[rng.random(n) < .3] = 0
        y[rng.random(n) < .3] = 0
    elif kind == "int":
        x, y = rng.integers(0, 6, n).astype(float), rng.integers(0, 6, n).astype(float)
    elif kind == "wide":  # small and large groups side by side
        f = 10.0 ** rng.uniform(-5, 5, M)
        x, y = x * f[groups], y * f[groups][::1]
    S = CSpec(n, groups, np.zeros((M, M)), x, y, 0.0, sl, kind)
    D = S.blocks(S.T())
    A = np.where((D > 0) & (rng.random((M, M)) < (dens or rng.choice([.3, .7, 1.0]))), np.round(10 ** rng.uniform(-1, 3, (M, M)), 3), 0.0)
    # within-group totals are only known up to cancellation: keep them well conditioned
    if not sl:
        F = np.diag(S.blocks(S.T(True)))
        for a in range(M):
            if A[a, a] > 0 and D[a, a] < 1e-5 * F[a]:
                A[a, a] = 0.0
    S.A = A
    pos = D[(A > 0)]
    med = np.median(pos) if len(pos) else 1.0
    mode = scale or str(rng.choice(["zero", "tiny", "small", "mid", "high", "inf"], p=[.08, .12, .2, .4, .15, .05]))
    e = {"tiny": (-17, -9), "small": (-6, -1), "mid": (-1, 1), "high": (1, 4)}.get(mode)
    S.d = 0.0 if mode == "zero" else np.inf if mode == "inf" else float(10.0 ** rng.uniform(*e) / med)
    S.kind += " " + mode
    return S


def enumerate_law(S):
    """All graphs on the admissible pairs and their conditional probability
    (positive finite parameter). Returns configs (K, n, n) bool, probabilities."""
    T = S.T()
    pairs = np.argwhere(np.ones((S.n, S.n)) if S.selfloops else ~np.eye(S.n, dtype=bool))
    k = len(pairs)
    bits = np.array(list(itertools.product([False, True], repeat=k)))
    C = np.zeros((len(bits), S.n, S.n), dtype=bool)
    C[:, pairs[:, 0], pairs[:, 1]] = bits
    p = -np.expm1(-S.d * T)
    q = np.exp(-S.d * T)
    w = np.prod(np.where(C, p, q).reshape(len(C), -1), axis=1)
    G = np.zeros((S.M, S.n))
    G[S.groups, np.arange(S.n)] = 1
    macro = np.einsum("ai,kij,bj->kab", G, C.astype(float), G) > 0
    ok = (macro == (S.A > 0)).all(axis=(1, 2))
    w = np.where(ok, w, 0.0)
    return C, (w / w.sum() if w.sum() > 0 else w), ok
