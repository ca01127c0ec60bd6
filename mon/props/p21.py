"""Page rank and trophic depth."""
import networkx as nx
import numpy as np
import pandas as pd

from .. import backends as bk
from .. import gen
from ..gcommon import refgraph, tables


def walk(W, alpha):
    """Damped walk matrix, dangling vertices spread uniformly."""
    n = len(W)
    s = W.sum(axis=1)
    M = np.full((n, n), 1.0 / n)
    nz = s > 0
    M[nz] = W[nz] / s[nz][:, None]
    return alpha * M + (1 - alpha) / n


def exact_rank(W, alpha):
    n = len(W)
    M = walk(W, alpha)
    A = np.vstack([M.T - np.eye(n), np.ones(n)])
    return np.linalg.lstsq(A, np.r_[np.zeros(n), 1], rcond=None)[0]


def ranks(ctx, g, W, rng, key):
    from graph_ensembles import lib
    n = len(W)
    for weighted in (True, False):
        U = W if weighted else (W > 0).astype(float)
        k = key + (":weighted" if weighted else ":unweighted")
        for alpha, tol in ((0.85, None), (float(rng.choice([0., .1, .5, .85, .95])), float(10.0 ** rng.uniform(-13, -4)))):
            kw = {} if tol is None else dict(alpha=alpha, tol=tol, max_iter=5000)
            if not weighted or rng.random() < .5:
                kw["weighted"] = weighted
            r = np.asarray(ctx.call(k + ":pagerank", lib.pagerank, g, **kw))
            t = tol or 1e-6
            if not ctx.check(r.shape == (n,), k + ":shape"):
                return
            ctx.close(r.sum(), 1.0, k + ":total", rtol=1e-9)
            ctx.check((r >= 0).all(), k + ":non_negative", got=r)
            # the last step moved no vertex by tol, so one more moves it by at most alpha*n*tol
            ctx.close(r @ walk(U, alpha), r, k + ":equation", rtol=1e-12, atol=alpha * n * t + 1e-14)
            e = exact_rank(U, alpha)
            ctx.close(r, e, k + ":fixed_point", rtol=1e-9, atol=alpha * n * t / (1 - alpha) + 1e-12)
            if tol is not None and tol < 1e-9:
                G = nx.DiGraph()
                G.add_nodes_from(range(n))
                G.add_weighted_edges_from((int(i), int(j), float(U[i, j])) for i, j in zip(*np.nonzero(U)))
                p = nx.pagerank(G, alpha=alpha, tol=1e-12, max_iter=5000)
                ctx.close(r, [p[i] for i in range(n)], k + ":networkx", rtol=1e-6, atol=1e-9 + n * t / (1 - alpha))


def depths(ctx, g, W, rng, key):
    from graph_ensembles import lib
    n = len(W)
    # every vertex that sends anything reaches the sink
    fin = rng.random(n) * (W.sum(axis=1) + 1) * float(rng.choice([.1, 1, 10]))
    mode = str(rng.choice(["all", "some", "int"]))
    if mode == "some":
        fin = np.where(rng.random(n) < .5, fin, 0.0)
    elif mode == "int":
        fin = np.ceil(fin).astype(np.int64)
    s = W.sum(axis=1) + fin
    with np.errstate(all="ignore"):
        Q = np.where(s[:, None] > 0, W / s[:, None], 0.0)
    # vertices that receive but send nothing have depth zero
    if np.max(np.abs(np.linalg.eigvals(Q))) > .98 if n else True:
        return
    tol = float(10.0 ** rng.uniform(-11, -2))
    keep = fin.copy()
    d = np.asarray(ctx.call(key + ":trophic:" + mode, lib.trophic_depth, g, fin, max_iter=3000, tol=tol))
    ctx.check(np.array_equal(keep, fin), key + ":trophic:input_untouched")
    if not ctx.check(d.shape == (n,), key + ":trophic:shape"):
        return
    one = (s > 0).astype(float)
    ctx.close(d, one + Q @ d, key + ":trophic:recursion", rtol=1e-11, atol=tol)
    e = np.linalg.solve(np.eye(n) - Q, one)
    bound = np.linalg.norm(np.linalg.inv(np.eye(n) - Q), np.inf)
    ctx.close(d, e, key + ":trophic:solution", rtol=1e-9, atol=tol * bound + 1e-9)
    ctx.check((d[s > 0] >= 1 - tol).all() and (d[s == 0] == 0).all(), key + ":trophic:at_least_one", got=d)


def run(ctx):
    for cid, kind, rng, T in tables(ctx, kinds=("DiGraph", "MultiDiGraph"), n_quick=40, n_thorough=500):
        with ctx.case(cid, dict(kind=kind, n=len(T["ids"]), edges=T["edges"][:40])):
            g = ctx.call(kind + ":build", gen.build, bk.SPARSE, kind, rng, T)
            W = refgraph(ctx, g, T, kind).w(True)
            ranks(ctx, g, W, rng, kind)
            depths(ctx, g, W, rng, kind)
    for i in range(12 if ctx.quick else 200):
        cid = "special-%d" % i
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        n = int(rng.choice([1, 2, 3, 9, 40, 300]))
        p = float(rng.choice([0, 1.0 / n, 3.0 / n, .5]))
        A = rng.random((n, n)) < p
        if not A.any():
            A[0, n - 1] = True
        wk = str(rng.choice(["int", "float", "decades", "unweighted", "uint8", "ring"]))
        if wk == "ring":
            A = np.roll(np.eye(n, dtype=bool), 1, axis=1)
        s, d = np.nonzero(A)
        w = {"int": rng.integers(1, 9, len(s)), "uint8": rng.integers(1, 255, len(s)).astype(np.uint8),
             "decades": 10.0 ** rng.uniform(-6, 6, len(s))}.get(wk, rng.random(len(s)) + .1)
        with ctx.case(cid, dict(n=n, p=p, weights=wk)):
            v = pd.DataFrame({"id": np.arange(n)})
            e = pd.DataFrame({"s": s, "d": d, "w": w})
            g = ctx.call("special:build", bk.SPARSE.DiGraph, v, e, v_id="id", src="s", dst="d",
                         weight=None if wk == "unweighted" else "w")
            W = np.zeros((n, n))
            W[s, d] = 1.0 if wk == "unweighted" else w
            ranks(ctx, g, W, rng, "special:" + wk)
            depths(ctx, g, W, rng, "special:" + wk)
