"""Model specifications shared by the model monitors: generated data, the
reference probabilities, and construction on each backend."""
import numpy as np
import scipy.sparse as sp

from . import backends as bk
from . import gen, oracle
from .core import todense

SIMPLE = ("FitnessModel", "ScaleInvariantModel")
MULTI = ("MultiFitnessModel", "MultiInvariantModel")
ALL = ("RandomDiGraph",) + SIMPLE + MULTI


class Spec:
    """One model: class, data, and its reference law."""

    def __init__(self, cls, n, selfloops, param, x=None, y=None, L=1, kind=None):
        self.cls, self.n, self.selfloops, self.param = cls, n, selfloops, np.atleast_1d(np.asarray(param, float))
        self.x, self.y, self.L, self.kind = x, y, L, kind
        self.law = oracle.LAW[cls]
        self.multi = cls in MULTI

    def info(self):
        return dict(cls=self.cls, n=self.n, L=self.L, selfloops=self.selfloops, param=self.param, kind=self.kind,
                    x=self.x, y=self.y)

    # ---- reference
    def d(self):
        return np.broadcast_to(self.param, (self.L,)) if self.multi else self.param

    def PL(self, selfloops=None):
        sl = self.selfloops if selfloops is None else selfloops
        return oracle.prob_layers(self.law, self.d(), self.x.astype(float), self.y.astype(float), sl)

    def P(self, selfloops=None):
        sl = self.selfloops if selfloops is None else selfloops
        if self.cls == "RandomDiGraph":
            return oracle.prob_random(self.param[0], self.n, sl)
        if self.multi:
            return oracle.project(self.PL(sl))
        return oracle.prob(self.law, self.param[0], self.x.astype(float), self.y.astype(float), sl)

    # ---- construction
    def build(self, backend, rng=None, fmt=None, p_blocks=None, sc_=None, **over):
        kw = dict(num_vertices=self.n, selfloops=self.selfloops)
        if self.cls == "RandomDiGraph":
            kw["param"] = np.array([self.param[0], 0.0]) if len(self.param) == 1 else self.param.copy()
        elif self.multi:
            kw.update(num_labels=self.L, param=self.param.copy(),
                      prop_out=as_format(self.x, fmt, rng), prop_in=as_format(self.y, fmt, rng))
        else:
            kw.update(param=self.param.copy(), prop_out=self.x.copy(), prop_in=self.y.copy())
        # a parameterised model may also carry a target it was not fitted to:
        # answers follow the parameters
        if rng is not None and not {"param", "num_edges", "num_edges_label", "per_label"} & set(over) and rng.random() < .5:
            if self.multi and rng.random() < .5:
                kw["num_edges_label"] = rng.uniform(.1, self.n + 1, self.L)
            else:
                kw["num_edges"] = float(rng.uniform(.1, self.n * (self.n + 1)))
            if self.cls == "RandomDiGraph" and "total_weight" not in over:
                kw["total_weight"] = kw["num_edges"] * float(rng.uniform(1.5, 9))
        if p_blocks is None and rng is not None and backend == "spark" and bk.LOCAL:
            p_blocks = int(rng.choice([1, 2, 3, self.n // 2 + 1, self.n + 3]))
        kw.update(over)
        kw = {k: v for k, v in kw.items() if v is not None}
        return bk.model(backend, self.cls, p_blocks=p_blocks, sc_=sc_, **kw)


def as_format(X, fmt, rng=None):
    if fmt in (None, "ndarray"):
        return X.copy()
    if fmt == "csr":
        return sp.csr_array(X)
    if fmt == "csc":
        return sp.csc_array(X)
    if fmt == "coo":
        return sp.coo_array(X)
    if fmt == "csr_matrix":
        return sp.csr_matrix(X)
    if fmt == "unsorted":  # valid CSR, column indices in descending order
        A = sp.csr_array(X)
        for i in range(A.shape[0]):
            s = slice(A.indptr[i], A.indptr[i + 1])
            A.indices[s] = A.indices[s][::-1].copy()
            A.data[s] = A.data[s][::-1].copy()
        A.has_sorted_indices = False
        return A
    if fmt == "zeros":  # explicit zeros stored
        A = sp.csr_array(np.where(X == 0, -1.0, X))
        A.data[A.data == -1.0] = 0.0
        return A
    raise ValueError(fmt)


FORMATS = ("ndarray", "csr", "csc", "coo", "csr_matrix", "unsorted", "zeros")


def param_for(rng, x, y, mode=None):
    """A parameter placing the typical d*x*y from sparse to saturated."""
    nz = (x.astype(float)[:, None] * y.astype(float)[None, :]).ravel()
    nz = nz[nz > 0]
    m = np.median(nz) if len(nz) else 1.0
    mode = mode or str(rng.choice(["sparse", "mid", "dense", "sat", "zero"], p=[.25, .35, .2, .15, .05]))
    if mode == "zero":
        return 0.0, mode
    e = {"sparse": (-6, -1.5), "mid": (-1.5, 0.5), "dense": (0.5, 2), "sat": (2, 12)}[mode]
    return float(10.0 ** rng.uniform(*e) / m), mode


def spec(rng, cls, n=None, selfloops=None, mode=None, L=None, kind=None, per_label=None):
    n = n if n is not None else int(rng.choice([1, 2, 3, 4, 5, 8, 13, 21, 30] if not bk.LOCAL else [1, 2, 5, 12, 21, 30, 41, 64]))
    sl = bool(rng.integers(2)) if selfloops is None else selfloops
    if cls == "RandomDiGraph":
        p = float(rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.random() * 1e-3]))
        if mode == "mid":
            p = 0.15 + 0.7 * float(rng.random())
        return Spec(cls, n, sl, [p], kind="p=%g" % p)
    if cls in MULTI:
        L = L or int(rng.choice([1, 2, 3, 4, 6]))
        X, Y, kk = gen.fitness_layers(rng, n, L, kind)
        per = bool(rng.integers(2)) if per_label is None else per_label
        if per:
            ps = [param_for(rng, X[:, k], Y[:, k], mode) for k in range(L)]
            pr, m = [p[0] for p in ps], "/".join(p[1] for p in ps)
            if L > 1 and rng.random() < .12:
                pr[int(rng.integers(L))] = 0.0
        else:
            p, m = param_for(rng, X.ravel(), Y.ravel(), mode)
            pr = [p]
        return Spec(cls, n, sl, pr, X, Y, L, kk + " " + m)
    x, y, kk = gen.fitness(rng, n, kind)
    p, m = param_for(rng, x, y, mode)
    return Spec(cls, n, sl, [p], x, y, 1, kk + " " + m)


def specs(ctx, classes=ALL, count=10, tag="", **kw):
    """Iterate (case_id, rng, Spec)."""
    for i in range(count):
        for cls in classes:
            cid = "%s%s-%d" % (tag, cls, i)
            if not owns(ctx, cls) or not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            yield cid, rng, spec(rng, cls, **kw)


def backend_of(ctx):
    return ctx.job.split("#")[0].split(":")[0]


def local(ctx):
    """Distributed models on the in-process context: cheap calls."""
    return ":local" in ctx.job


def slow(ctx):
    """Distributed models on Spark itself: every query is a job."""
    return backend_of(ctx) == "spark" and not local(ctx)


def owns(ctx, cls):
    """The in-process workers take one class each (its kernels are compiled once)."""
    return not local(ctx) or ALL.index(cls) % 5 == int(ctx.job.split("#")[1]) % 5


def scale(ctx, quick, thorough, spark_quick=None, spark_thorough=None):
    """Number of cases for this worker."""
    if local(ctx):
        return quick if ctx.quick else thorough
    if backend_of(ctx) == "spark":
        return (spark_quick if ctx.quick else spark_thorough) or max(1, (quick if ctx.quick else thorough) // 20)
    return quick if ctx.quick else thorough
