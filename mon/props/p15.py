"""Expectations and likelihood of the conditional model."""
import numpy as np
import scipy.sparse as sp

from .. import backends as bk
from ..condcommon import cspec, enumerate_law
from ..core import todense

DIRS = ("out", "in", "out-in")
FMT = (None, "csr", "csc", "coo", "csr_matrix", "unsorted", "zeros")


def loglik_ref(S, A):
    """Sum over macro links, in terms of rates (positive finite parameter)."""
    T = S.T()
    D = S.blocks(T)
    G = np.zeros((S.M, S.n))
    G[S.groups, np.arange(S.n)] = 1
    if ((G @ A @ G.T > 0) != (S.A > 0)).any() or (not S.selfloops and np.diag(A).any()):
        return -np.inf
    if np.any(A & (T == 0)):
        return -np.inf
    link = S.A[np.ix_(S.groups, S.groups)] > 0
    v = np.log(-np.expm1(-S.d * T[A])).sum() - S.d * T[link & ~A].sum()
    return v - np.log(-np.expm1(-S.d * D[S.A > 0])).sum()


def graph_of(A, weights=None):
    import pandas as pd
    n = A.shape[0]
    i, j = np.nonzero(A)
    w = np.ones(len(i)) if weights is None else weights
    v = pd.DataFrame({"id": np.arange(n)})
    e = pd.DataFrame({"s": i, "d": j, "w": w})
    return bk.SPARSE.DiGraph(v, e, v_id="id", src="s", dst="d", weight="w")


def expectations(ctx, m, S, key, rng):
    tol = dict(rtol=1e-9 + 4e-15 * S.kappa(), atol=1e-13)
    P, U = S.P(), S.U()
    q = [("num_edges", m.expected_num_edges, P.sum()), ("out_degree", m.expected_out_degree, P.sum(axis=1)),
         ("in_degree", m.expected_in_degree, P.sum(axis=0)), ("degree", m.expected_degree, U.sum(axis=1))]
    got = {}
    for k in rng.permutation(len(q)):
        name, f, e = q[k]
        r = ctx.trycall(key + ":expected_" + name, f)
        if r is not None:
            got[name] = np.asarray(r, float)
            ctx.close(got[name], e, key + ":expected_" + name, **tol)
    if len(got) == 4:
        for a in ("out_degree", "in_degree"):
            ctx.close(got[a].sum(), got["num_edges"], key + ":sum_" + a, rtol=1e-9 + 4e-15 * S.kappa(), atol=1e-13)
    return P, U


def nn(ctx, m, S, key, rng, k=6):
    asks = [(w, a, b, s) for w in ("prop", "vec", "deg") for a in DIRS for b in DIRS for s in (True, False)]
    for t in rng.permutation(len(asks))[:k]:
        what, dd, nd, sl = asks[t]
        kap = S.kappa(sl)
        if kap > 1e6:
            continue
        P, U = S.P(sl), S.U(sl)
        W = {"out": P, "in": P.T, "out-in": U}[nd]
        if what == "deg":
            prop = {"out": P.sum(axis=1), "in": P.sum(axis=0), "out-in": U.sum(axis=1)}[dd]
            r = ctx.trycall(key + ":nn_degree", m.expected_av_nn_degree, ddir=dd, ndir=nd, selfloops=sl)
            kk = key + ":nn_degree"
        else:
            prop = rng.normal(size=S.n if what == "prop" else (S.n, 2))
            r = ctx.trycall(key + ":nn_property", m.expected_av_nn_property, prop, ndir=nd, selfloops=sl)
            kk = key + ":nn_property"
        if r is None:
            continue
        d = W.sum(axis=1)
        s = W @ prop
        e = np.zeros(s.shape)
        nz = d > 0
        e[nz] = s[nz] / (d[nz] if s.ndim == 1 else d[nz][:, None])
        ctx.close(r, e, kk, rtol=1e-8 + 1e-14 * kap, atol=1e-8, ndir=nd, ddir=dd, selfloops=sl)


def run(ctx):
    shard = int(ctx.job.split("#")[1])
    key = "Conditional"
    for i in range(60 if ctx.quick else 700):
        cid = "expectations-%d" % i
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        S = cspec(rng)
        fmt = FMT[int(rng.integers(len(FMT)))]
        gd = [np.int64, np.int32, np.uint8, np.uint16][int(rng.integers(4))]
        with ctx.case(cid, dict(S.info(), fmt=fmt), nontrivial=S.n > 1 and S.A.any()):
            m = ctx.call(key + ":build", S.build, fmt, gd)
            P, U = expectations(ctx, m, S, key, rng)
            nn(ctx, m, S, key, rng)
            # a graph of the law and neighbours of it, scored
            if 0 < S.d < np.inf and S.A.any() and S.d * S.blocks(S.T())[S.A > 0].min() > 1e-200:
                for t in range(4):
                    A = rng.random((S.n, S.n)) < np.maximum(P, .3 * (P > 0))
                    for a, b in np.argwhere(S.A > 0):  # repair missing links
                        blk = np.argwhere((S.groups[:, None] == a) & (S.groups[None, :] == b) & (P > 0))
                        if not A[blk[:, 0], blk[:, 1]].any():
                            q = blk[int(rng.integers(len(blk)))]
                            A[q[0], q[1]] = True
                    if t == 1 and A.any():      # drop one edge (may break a macro link)
                        q = np.argwhere(A)[int(rng.integers(A.sum()))]
                        A[q[0], q[1]] = False
                    if t == 2:                  # flip any pair (may be impossible)
                        q = rng.integers(0, S.n, 2)
                        A[q[0], q[1]] ^= True
                    if t == 3:
                        q = int(rng.integers(S.n))
                        A[q, q] = True
                    e = loglik_ref(S, A)
                    forms = [A.astype(int), sp.csr_array(A.astype(float)), sp.csc_array(A * 2.5), A]
                    if A.any():
                        forms.append(graph_of(A, rng.random(int(A.sum())) + .1))
                    f = forms[int(rng.integers(len(forms)))]
                    r = ctx.trycall(key + ":loglik", m.log_likelihood, f)
                    if r is None:
                        continue
                    sc = S.d * S.T().sum()
                    ctx.close(float(r), e, key + ":loglik", rtol=1e-9, atol=1e-9 + 1e-14 * sc * S.n + 4e-15 * S.kappa() * (1 + sc), form=str(type(f)))
                    ctx.ev("likelihood:" + ("impossible" if e == -np.inf else "possible"))
                ctx.refuses(key + ":wrong_size", m.log_likelihood, np.zeros((S.n + 1, S.n + 1), dtype=int))
    # exhaustive enumeration of small systems
    for i in range(20 if ctx.quick else 200):
        cid = "enumeration-%d" % i
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        S = cspec(rng, n=int(rng.choice([2, 3, 3, 4])), scale=str(rng.choice(["small", "mid", "mid"])))
        if S.n == 4:
            S.selfloops = False
            D = S.blocks(S.T())
            S.A = np.where(D > 0, S.A, 0.0)
            if S.kappa() > 1e6:
                continue
        with ctx.case(cid, S.info(), nontrivial=S.A.any()):
            C, w, ok = enumerate_law(S)
            if not w.sum() > .5:
                continue
            ctx.ev("graphs_enumerated", len(C))
            P = np.einsum("k,kij->ij", w, C.astype(float))
            Cu = C | C.transpose(0, 2, 1)
            U = np.einsum("k,kij->ij", w, Cu.astype(float))
            m = ctx.call(key + ":build", S.build)
            tol = dict(rtol=1e-8, atol=1e-11)
            ctx.close(ctx.call(key + ":enum:num_edges", m.expected_num_edges), P.sum(), key + ":enum:num_edges", **tol)
            ctx.close(ctx.call(key + ":enum:out", m.expected_out_degree), P.sum(axis=1), key + ":enum:out_degree", **tol)
            ctx.close(ctx.call(key + ":enum:in", m.expected_in_degree), P.sum(axis=0), key + ":enum:in_degree", **tol)
            ctx.close(ctx.call(key + ":enum:deg", m.expected_degree), U.sum(axis=1), key + ":enum:degree", **tol)
            sel = np.arange(len(C))
            if len(sel) > 600:
                sel = np.concatenate([np.flatnonzero(ok)[:3000], rng.choice(np.flatnonzero(~ok), min(200, (~ok).sum()), replace=False) if (~ok).any() else []]).astype(int)
            tot = 0.0
            lw = np.where(w > 0, np.log(np.where(w > 0, w, 1)), -np.inf)
            vals = np.array([float(ctx.call(key + ":enum:loglik", m.log_likelihood, C[k].astype(int))) for k in sel])
            ctx.close(vals, lw[sel], key + ":enum:loglik", rtol=1e-8, atol=1e-8)
            if np.isin(np.flatnonzero(ok), sel).all():
                tot = np.exp(vals).sum()
                ctx.close(tot, 1.0, key + ":enum:normalised", rtol=1e-7)
            if not S.selfloops:
                B = C[int(np.argmax(w))].astype(int)
                B[0, 0] = 1
                ctx.check(ctx.call(key + ":enum:loop", m.log_likelihood, B) == -np.inf, key + ":disabled_selfloop")
    # the limit of a vanishing parameter (fits of minimal targets end there)
    if shard == 0 and ctx.wanted("zero-parameter"):
        rng = ctx.case_rng("zero-parameter")
        S = cspec(rng, n=6, scale="zero", dens=1.0)
        with ctx.case("zero-parameter", S.info()):
            m = ctx.call(key + ":build", S.build)
            T = S.T()
            A = np.zeros((S.n, S.n), dtype=int)
            lp = 0.0
            D = S.blocks(T)
            for a, b in np.argwhere(S.A > 0):
                blk = np.argwhere((S.groups[:, None] == a) & (S.groups[None, :] == b) & (T > 0))
                q = blk[int(rng.integers(len(blk)))]
                A[q[0], q[1]] = 1
                lp += np.log(T[q[0], q[1]] / D[a, b])
            r = ctx.call("ConditionalInvariantModel:zero_parameter_likelihood", m.log_likelihood, A)
            ctx.close(float(r), lp, "ConditionalInvariantModel:zero_parameter_likelihood", rtol=1e-8)
