"""Log-likelihoods."""
import numpy as np
import pandas as pd
import scipy.sparse as sp

from .. import oracle
from ..backends import graph_module
from ..core import quiet
from ..mcommon import ALL, MULTI, Spec, backend_of, scale, specs, local, owns, slow


def graph_from(backend, A, rng, weighted=True):
    """A graph object of the backend with adjacency A (2D or 3D bool)."""
    G = graph_module(backend)
    n = A.shape[-1]
    v = pd.DataFrame({"id": np.arange(n)})
    if A.ndim == 2:
        i, j = np.nonzero(A)
        e = pd.DataFrame({"s": i, "d": j, "w": rng.random(len(i)) * 9 + .01})
        return G.DiGraph(v, e, v_id="id", src="s", dst="d", weight="w" if weighted else None)
    k, i, j = np.nonzero(A)
    e = pd.DataFrame({"s": i, "d": j, "l": k, "w": rng.random(len(i)) * 9 + .01})
    return G.MultiDiGraph(v, e, v_id="id", src="s", dst="d", edge_label="l", weight="w" if weighted else None)


def forms(backend, A, rng):
    """The same binary adjacency in every accepted representation."""
    W = np.where(A, rng.random(A.shape) * 5 + .1, 0.0)
    N = np.where(A, -1.5, 0.0)
    if A.ndim == 2:
        f = {"bool": A.copy(), "float": W, "int": A.astype(np.int64), "csr": sp.csr_array(W), "csc": sp.csc_array(A),
             "coo": sp.coo_array(W), "csr_matrix": sp.csr_matrix(W), "negative": N}
        Z = sp.csr_array(np.where(A, W, -7.0))
        Z.data[Z.data == -7.0] = 0.0
        f["explicit_zeros"] = Z
        U = sp.csr_array(W)
        for r in range(U.shape[0]):
            s = slice(U.indptr[r], U.indptr[r + 1])
            U.indices[s] = U.indices[s][::-1].copy()
            U.data[s] = U.data[s][::-1].copy()
        U.has_sorted_indices = False
        f["unsorted"] = U
        if A.any():
            f["graph"] = lambda: graph_from(backend, A, rng)
            f["graph_unweighted"] = lambda: graph_from(backend, A, rng, False)
    else:
        f = {"bool": A.copy(), "float": W, "list_csr": [sp.csr_array(w) for w in W], "list_coo": [sp.coo_array(w) for w in W]}
        if A.any(axis=(1, 2)).all():
            f["graph"] = lambda: graph_from(backend, A, rng)
    return f


def ref2d(S, A, sl):
    if S.cls == "RandomDiGraph":
        return oracle.loglik(S.P(sl), None, "rnd", A, sl)
    if S.multi:
        return oracle.loglik_proj(S.law, S.d(), S.x.astype(float), S.y.astype(float), A, sl)
    return oracle.loglik(None, oracle.tmat(S.param[0], S.x.astype(float), S.y.astype(float)), S.law, A, sl)


def ref3d(S, A, sl):
    tot = 0.0
    for k in range(S.L):
        v = oracle.loglik(None, oracle.tmat(S.d()[k], S.x[:, k], S.y[:, k]), S.law, A[k], sl)
        if v == -np.inf:
            return v
        tot += v
    return tot


def likely(P, rng, impossible=False):
    """A graph that is possible under P (certain edges present)."""
    A = (rng.random(P.shape) < np.clip(P, 0.15, 0.85)) & (P > 0)
    A |= P >= 1
    if impossible:
        z = np.argwhere((P == 0) & ~A) if rng.random() < .5 else np.argwhere((P >= 1) & A)
        if len(z):
            t = tuple(z[int(rng.integers(len(z)))])
            A[t] = ~A[t]
    return A


def run(ctx):
    backend = backend_of(ctx)
    for cid, rng, S in specs(ctx, count=scale(ctx, 50, 700, 2, 25)):
        if S.multi and not S.x.any():
            continue
        # projected fitness probabilities below ~1e-9 are not resolved from zero
        P = S.P(True)
        if S.multi and np.any((P > 0) & (P < 1e-9)):
            f = 1e-6 / max(P[P > 0].min(), 1e-30)
            S.param = S.param * min(f, 1e30)
        with ctx.case(cid, S.info(), nontrivial=S.n > 1):
            key = S.cls
            m = ctx.call(key + ":build", S.build, backend, rng)
            for rep in range(2 if not slow(ctx) else 1):
                Pm = S.P()
                A = likely(Pm, rng, impossible=rng.random() < .4)
                if not S.selfloops and rng.random() < .2:
                    i = int(rng.integers(S.n))
                    A[i, i] = True
                ctx.case_info["A"] = A.astype(int)
                check2d(ctx, backend, m, S, A, rng, key)
                if S.multi:
                    PL = S.PL()
                    A3 = likely(PL, rng, impossible=rng.random() < .4)
                    if not S.selfloops and rng.random() < .2:
                        i = int(rng.integers(S.n))
                        A3[int(rng.integers(S.L)), i, i] = True
                    ctx.case_info["A3"] = A3.astype(int)
                    check3d(ctx, backend, m, S, A3, rng, key)
            # wrong sizes are refused
            bad = np.zeros((S.n + 1, S.n + 1), dtype=bool)
            ctx.refuses(key + ":wrong_size", m.log_likelihood, bad)
            ctx.refuses(key + ":wrong_size_sparse", m.log_likelihood, sp.csr_array(bad))
            ctx.refuses(key + ":not_a_graph", m.log_likelihood, "graph")
            if S.multi:
                ctx.refuses(key + ":wrong_layers", m.log_likelihood, np.zeros((S.L + 1, S.n, S.n), dtype=bool))
                ctx.refuses(key + ":wrong_layer_size", m.log_likelihood, np.zeros((S.L, S.n + 1, S.n + 1), dtype=bool))
    # saturated parameters
    for c in range(scale(ctx, 6, 60, 1, 3)):
        cid = "saturated-%d" % c
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        with ctx.case(cid, {}):
            for cls in ("FitnessModel", "ScaleInvariantModel"):
                if not owns(ctx, cls):
                    continue
                n = 5
                x, y = rng.random(n) + .1, rng.random(n) + .1
                x[0] = 0
                for d in (1e18, 1e25, np.inf) if not slow(ctx) else (1e18,):
                    S = Spec(cls, n, False, [d], x, y)
                    m = ctx.call(cls + ":build", S.build, backend)
                    A = S.P() > 0
                    v = ctx.call(cls + ":saturated", m.log_likelihood, A)
                    ctx.close(v, ref2d(S, A, False), cls + ":saturated_full", rtol=1e-9, atol=1e-9)
                    A[1, 2] = False
                    v = ctx.call(cls + ":saturated", m.log_likelihood, A)
                    e = ref2d(S, A, False)
                    ctx.close(v, e, cls + ":saturated_missing", rtol=1e-9)


def tolerance(S, A, P):
    e = P[A & (P > 0)] if P.shape == A.shape else np.array([1.0])
    return 1e-9 + (4e-16 * S.L / np.maximum(e, 1e-12)).sum() * 4


def check2d(ctx, backend, m, S, A, rng, key):
    for sl in (None, True, False) if not slow(ctx) else (None, bool(rng.integers(2))):
        eff = S.selfloops if sl is None else sl
        exp = ref2d(S, A, eff)
        fs = forms(backend, A, rng)
        names = list(fs)
        if sl is not None or slow(ctx):
            names = [names[int(rng.integers(len(names)))] for _ in range(2)]
        for nm in names:
            g = fs[nm]
            if callable(g):
                with quiet():
                    g = g()
            k = "%s:matrix:%s%s" % (key, nm, "" if sl is None else ":selfloops_arg")
            v = ctx.trycall(k, m.log_likelihood, g, **({} if sl is None else {"selfloops": sl}))
            if v is not None:
                ctx.close(v, exp, k, rtol=1e-9, atol=tolerance(S, A, S.P(eff)), graph=A.astype(int), selfloops=eff)


def check3d(ctx, backend, m, S, A, rng, key):
    for sl in (None, True, False) if not slow(ctx) else (None,):
        eff = S.selfloops if sl is None else sl
        exp = ref3d(S, A, eff)
        fs = forms(backend, A, rng)
        names = list(fs) if sl is None else ["bool"]
        for nm in names:
            g = fs[nm]
            if callable(g):
                with quiet():
                    g = g()
            k = "%s:tensor:%s%s" % (key, nm, "" if sl is None else ":selfloops_arg")
            v = ctx.trycall(k, m.log_likelihood, g, **({} if sl is None else {"selfloops": sl}))
            if v is not None:
                ctx.close(v, exp, k, rtol=1e-9, atol=1e-8, graph=A.astype(int), selfloops=eff)
