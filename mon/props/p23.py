"""Dyadic properties and user-defined laws."""
import numpy as np
from math import log, log1p
from numba import njit

from .. import backends as bk
from .. import oracle, stats
from ..core import quiet
from ..mcommon import Spec, backend_of, local, owns, slow
from .p06 import expectations
from .p07 import DIRS, compare, ratio
from .p10 import forms, likely
from .p11 import draw
from .p12 import check_exponential
from .p12 import draw as wdraw
from .p12 import strengths


# dyadic properties: asymmetric, sparse and distance-like
def z_asym(i, j):
    return (1.0 + (3 * i + 5 * j) % 7) / 4.0


def z_zero(i, j):
    return 0.0 if (i + 2 * j) % 3 == 0 else 0.5 + 1.0 / (1.0 + i)


def z_dist(i, j):
    return 1.0 / (1.0 + abs(i - 1.5 * j))


# a law of its own, not symmetric in the properties
def law(d, x, y, z):
    return d[0] * z / (1.0 + z) * x / (1.3 + x) * (0.25 + 0.75 * y / (1.0 + y))


ZS = dict(asym=njit(z_asym), zero=njit(z_zero), dist=njit(z_dist))
PY = dict(asym=z_asym, zero=z_zero, dist=z_dist)
LAW = njit(law)


@njit
def LOGP(d, x, y, z):
    p = LAW(d, x, y, z)
    return -np.inf if p == 0.0 else log(p)


@njit
def LOG1MP(d, x, y, z):
    return log1p(-LAW(d, x, y, z))


def zmat(name, n):
    return np.array([[PY[name](i, j) for j in range(n)] for i in range(n)])


class Dyadic(Spec):
    """Reference with a dyadic property (built-in or custom law)."""

    def __init__(self, cls, n, selfloops, param, x, y, zname, custom):
        super().__init__(cls, n, selfloops, param, x, y, 1, "z=%s%s" % (zname, " custom law" if custom else ""))
        self.Z, self.zname, self.custom = zmat(zname, n), zname, custom

    def t(self):
        return oracle.tmat(self.param[0], self.x, self.y) * self.Z

    def P(self, selfloops=None):
        sl = self.selfloops if selfloops is None else selfloops
        if self.custom:
            P = law(self.param, self.x[:, None], self.y[None, :], self.Z)
        else:
            P = oracle.pfun(self.law, self.t())
        if not sl:
            np.fill_diagonal(P, 0.0)
        return P

    def loglik(self, A, sl):
        if not self.custom:
            return oracle.loglik(None, self.t(), self.law, A, sl)
        P = self.P(True)
        n = self.n
        tot = 0.0
        for i in range(n):
            for j in range(n):
                if i == j and not sl:
                    if A[i, j]:
                        return -np.inf
                    continue
                if A[i, j] and P[i, j] == 0:
                    return -np.inf
                tot += log(P[i, j]) if A[i, j] else log1p(-P[i, j])
        return tot


def setup(m, S, how):
    """Install the dyadic property (and the law) on a model."""
    over = dict(prop_dyad=ZS[S.zname])
    if S.custom:
        over.update(p_ij=LAW, logp=LOGP, log1mp=LOG1MP)
    if how == "subclass":
        C = type(m)
        m.__class__ = type("User" + C.__name__, (C,), {k: staticmethod(v) for k, v in over.items()})
    else:
        for k, v in over.items():
            setattr(m, k, v)


def run(ctx):
    backend = backend_of(ctx)
    spark = slow(ctx)
    shard = int(ctx.job.split("#")[1])
    # one configuration per shard: every new function is a fresh compilation
    conf = {"sparse": [("FitnessModel", False), ("ScaleInvariantModel", False), ("FitnessModel", True), ("ScaleInvariantModel", True)],
            "dense": [("FitnessModel", True), ("ScaleInvariantModel", True)],
            "spark": [("FitnessModel", True), ("ScaleInvariantModel", True)]}[backend]
    cls, custom = conf[shard % len(conf)]
    names = list(ZS) if not (spark and ctx.quick) else [list(ZS)[(shard + ctx.seed) % 3]]
    key = cls + (":custom" if custom else ":dyadic")
    reps = (3 if ctx.quick else 40) if not spark else (2 if ctx.quick else 8)
    for r in range(reps):
        for zn in names:
            cid = "%s-%s-%d-%d" % (cls, zn, custom, r)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            n = int(rng.choice([23, 31, 41])) if spark else int(rng.choice([1, 2, 5, 23, 31])) if backend == "spark" else int(rng.choice([1, 2, 3, 5, 9, 16]))
            x, y = 10 ** rng.uniform(-1, 1, n), 10 ** rng.uniform(-1, 1, n)
            x[rng.random(n) < .15] = 0
            y[rng.random(n) < .15] = 0
            sl = bool(rng.integers(2))
            par = [float(rng.uniform(.2, .95))] if custom else [float(10 ** rng.uniform(-2, 1.5))]
            S = Dyadic(cls, n, sl, par, x, y, zn, custom)
            with ctx.case(cid, S.info(), nontrivial=n > 1):
                m = ctx.call(key + ":build", S.build, backend, p_blocks=int(rng.integers(1, 4)) if backend == "spark" else None)
                setup(m, S, str(rng.choice(["subclass", "attribute"])))
                one(ctx, m, S, rng, key, backend)


def one(ctx, m, S, rng, key, backend):
    spark = backend == "spark"
    n = S.n
    expectations(ctx, m, S, key, order=rng)
    prop = rng.normal(size=n)
    for nd in DIRS:
        for sl in (True, False):
            if slow(ctx) and rng.random() < .6:
                continue
            r = ctx.trycall(key + ":av_nn", m.expected_av_nn_property, prop, ndir=nd, selfloops=sl)
            if r is not None:
                exp, tol, d = ratio(S.P(sl), prop, nd, 1)
                compare(ctx, r, exp, tol, d, "%s:av_nn:%s:%s" % (key, nd, "self" if sl else "noself"), 1)
    for imp in (False, True):
        P = S.P()
        A = likely(P, rng, imp)
        F = forms(backend, A, rng)
        for f in [list(F)[k] for k in rng.permutation(len(F))[:2]]:
            G = F[f]() if callable(F[f]) else F[f]
            v = ctx.trycall(key + ":log_likelihood", m.log_likelihood, G)
            if v is not None:
                ctx.close(v, S.loglik(A, S.selfloops), key + ":log_likelihood", rtol=1e-9, atol=1e-9, form=f)
    if spark:
        A = likely(S.P(), rng)
        th = np.sort(rng.random(4))
        r = ctx.trycall(key + ":confusion", m.confusion_matrix, A, th)
        if r is not None:
            from .p22 import counts
            ctx.close(np.stack([np.asarray(c) for c in r]), counts(S.P(), A, th, S.selfloops)[0], key + ":confusion", rtol=0, atol=0)
    # samples
    if n > 2:
        count = (20 if ctx.quick else 60) if slow(ctx) else 150 if local(ctx) else (600 if ctx.quick else 3000)
        B = draw(ctx, m, S, key, count)
        if B is not None:
            stats.check_law(ctx, B, S.P(), key)
        so, si = strengths(rng, S)
        W, B = wdraw(ctx, m, S, key + ":cremb", count, weights="cremb", out_strength=so, in_strength=si)
        if W is not None:
            stats.check_law(ctx, B, S.P(), key + ":cremb")
            P = S.P()
            with np.errstate(all="ignore"):
                check_exponential(ctx, W, B, np.where(P > 0, np.outer(so, si) / so.sum() / P, 0.0), key + ":cremb")
    # fits of the built-in laws reach the target
    if backend == "sparse" and not S.custom and n > 1:
        top = float((S.P() > 0).sum())
        if top > 0:
            T = top * float(rng.uniform(.02, .9))
            m = ctx.call(key + ":build", S.build, backend, param=None, num_edges=T)
            setup(m, S, "attribute")
            with quiet():
                ctx.call(key + ":fit", m.fit)
            F = Dyadic(S.cls, n, S.selfloops, np.atleast_1d(m.param), S.x, S.y, S.zname, False)
            ctx.close(F.P().sum(), T, key + ":fit_target", rtol=1e-7)
            ctx.close(ctx.call(key + ":exp_edges", m.expected_num_edges), T, key + ":fit_edges", rtol=1e-7)
            ctx.check(bool(m.solver_output.converged), key + ":fit_converged")
