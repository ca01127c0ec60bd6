"""Degrees, strengths and totals against their definitions."""
import numpy as np

from .. import gen
from ..backends import graph_module
from ..core import todense
from ..gcommon import refgraph, tables

TOL = dict(rtol=1e-10, atol=0)


def measures(ctx, g, R, T, kind, key, order=None):
    """All counting measures of one graph; `order` permutes the queries."""
    di = "Di" in kind
    q = []
    A, W = R.bin(di), R.w(di)
    Au, Wu = R.bin(False), R.w(False)
    if di:
        q += [("num_edges", A.sum()), ("total_weight", W.sum()),
              ("out_degree", A.sum(axis=1)), ("in_degree", A.sum(axis=0)),
              ("out_strength", W.sum(axis=1)), ("in_strength", W.sum(axis=0))]
    else:
        q += [("num_edges", R.edges_und(Au)), ("total_weight", R.edges_und(Wu))]
    q += [("degree", Au.sum(axis=1)), ("strength", Wu.sum(axis=1))]
    if T["groups"] is not None:
        if di:
            q += [("out_degree_by_group", R.by_group(A)), ("in_degree_by_group", R.by_group(A.T)),
                  ("out_strength_by_group", R.by_group(W)), ("in_strength_by_group", R.by_group(W.T))]
        q += [("degree_by_group", R.by_group(Au)), ("strength_by_group", R.by_group(Wu))]
    if T["multi"]:
        LA, LW = R.layer_bin(di), R.layer_w(di)
        LAu, LWu = R.layer_bin(False), R.layer_w(False)
        if di:
            q += [("num_edges_label", LA.sum(axis=(1, 2))), ("total_weight_label", LW.sum(axis=(1, 2))),
                  ("out_degree_by_label", LA.sum(axis=2).T), ("in_degree_by_label", LA.sum(axis=1).T),
                  ("out_strength_by_label", LW.sum(axis=2).T), ("in_strength_by_label", LW.sum(axis=1).T)]
        else:
            tr = lambda M: np.array([R.edges_und(m) for m in M])
            q += [("num_edges_label", tr(LAu)), ("total_weight_label", tr(LWu))]
        q += [("degree_by_label", LAu.sum(axis=2).T), ("strength_by_label", LWu.sum(axis=2).T)]
    if order is not None:
        q = [q[i] for i in order.permutation(len(q))]
    got = {}
    for name, exp in q:
        r = ctx.trycall(key + ":" + name, getattr(g, name))
        if r is None:
            continue
        got[name] = todense(r).astype(float)
        ctx.close(got[name], exp, key + ":" + name, **TOL)
    return got, q


def run(ctx):
    backend = ctx.job.split("#")[0]
    B = graph_module(backend)
    for cid, kind, rng, T in tables(ctx, n_quick=60, n_thorough=900):
        with ctx.case(cid, gen.describe(T)):
            g = ctx.call(kind + ":constructor", gen.build, B, kind, rng, T)
            R = refgraph(ctx, g, T, kind)
            got, q = measures(ctx, g, R, T, kind, kind, order=rng)
            # conservation laws, observed on the answers themselves
            s = lambda n: got[n].sum()
            if "Di" in kind and {"out_degree", "in_degree", "num_edges", "out_strength", "in_strength", "total_weight"} <= set(got):
                ctx.close(s("out_degree"), got["num_edges"], kind + ":sum_out_degree")
                ctx.close(s("in_degree"), got["num_edges"], kind + ":sum_in_degree")
                ctx.close(s("out_strength"), got["total_weight"], kind + ":sum_out_strength")
                ctx.close(s("in_strength"), got["total_weight"], kind + ":sum_in_strength")
            for n in list(got):
                if n.endswith("_by_group") and n[:-9] in got:
                    ctx.close(got[n].sum(axis=1), got[n[:-9]], kind + ":group_sum:" + n, **TOL)
                if n.endswith("strength_by_label") and n[:-9] in got and T["weighted"]:
                    ctx.close(got[n].sum(axis=1), got[n[:-9]], kind + ":label_sum:" + n, **TOL)
            if not T["weighted"]:
                for a, b in (("degree", "strength"), ("out_degree", "out_strength"), ("in_degree", "in_strength")):
                    if a in got and b in got:
                        ctx.close(got[b], got[a], kind + ":unweighted:" + b)
            # recomputation gives the same answers
            for name, exp in q:
                r = ctx.trycall(kind + ":recompute:" + name, getattr(g, name), recompute=True)
                if r is not None:
                    ctx.close(todense(r).astype(float), exp, kind + ":recompute:" + name, **TOL)
    # many vertices, groups and labels (id-width boundaries)
    for n in ([255, 256, 300] if ctx.quick else [255, 256, 257, 300, 400]):
        for kind in ("DiGraph", "MultiDiGraph", "Graph"):
            cid = "big-%s-%d" % (kind, n)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            ids = [int(x) for x in rng.permutation(n)]
            multi = kind.startswith("Multi")
            E = [(ids[int(rng.integers(n))], ids[int(rng.integers(n))], int(rng.integers(3)) if multi else None,
                  float(rng.random() + .1)) for _ in range(600)]
            E += [(n - 1, n - 1, 0 if multi else None, 2.5), (0, n - 1, 0 if multi else None, 1.25),
                  (n - 1, 0, 0 if multi else None, 3.25)]
            # a hub with more than 255 neighbours: counters must not wrap
            E += [(0, i, 0 if multi else None, 0.5) for i in range(n)]
            T = dict(n=n, ids=ids, idkind="int", groups={v: v for v in ids}, gkind="int", lkind="int", edges=E,
                     weighted=True, multi=multi, wkind="float")
            with ctx.case(cid, dict(n=n, kind=kind)):
                g = ctx.call(kind + ":constructor", gen.build, B, kind, rng, T)
                R = refgraph(ctx, g, T, kind)
                measures(ctx, g, R, T, kind, kind + ":big")
