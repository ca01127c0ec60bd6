"""Graph constructors: identity maps, adjacency, refusals, warnings."""
import re

import numpy as np

from .. import gen
from ..backends import graph_module
from ..core import recorded, todense
from ..gcommon import refgraph, tables

TOL = dict(rtol=1e-12, atol=0)


def adjacency(ctx, g, R, T, kind, key):
    directed = "Di" in kind
    for d in (True, False):
        if d and not directed:
            continue  # an undirected graph has one adjacency
        A = ctx.call(key + ":adjacency_matrix", g.adjacency_matrix, directed=d, weighted=False)
        A = todense(A)
        ctx.close(A != 0, R.bin(d), key + ":edges")
        ctx.check(set(np.unique(A).tolist()) <= {0, 1}, key + ":binary_values")
        W = ctx.call(key + ":adjacency_matrix", g.adjacency_matrix, directed=d, weighted=True)
        ctx.close(W, R.w(d), key + ":weights", **TOL)
        if T["multi"]:
            A = ctx.call(key + ":adjacency_tensor", g.adjacency_tensor, directed=d, weighted=False)
            ctx.close(todense(A) != 0, R.layer_bin(d), key + ":layer_edges")
            W = ctx.call(key + ":adjacency_tensor", g.adjacency_tensor, directed=d, weighted=True)
            ctx.close(todense(W).astype(float), R.layer_w(d), key + ":layer_weights", **TOL)


def isolated_warning(ctx, w, T, key):
    touched = {x[0] for x in T["edges"]} | {x[1] for x in T["edges"]}
    iso = [v for v in T["ids"] if v not in touched]
    msgs = [str(x.message) for x in w if issubclass(x.category, UserWarning) and "no edges" in str(x.message)]
    if not iso:
        ctx.check(not msgs, key + ":warning_absent", "warned without isolated vertices", got=msgs)
        return
    if not ctx.check(len(msgs) >= 1, key + ":warning_present", "isolated vertices not reported", expected=iso):
        return
    txt = " ".join(msgs)

    def named(v):
        if isinstance(v, tuple):  # composite: same components, whatever the element repr
            pat = r"\(\D{0,12}?" + re.escape(str(v[0])) + r"\W+(?:np\.int64\()?" + re.escape(str(v[1])) + r"\)"
        else:
            pat = r"(?<![\w.\-])" + re.escape(str(v)) + r"(?![\w.])"
        return re.search(pat, txt) is not None
    wrong = [v for v in T["ids"] if named(v) != (v in iso)]
    ctx.check(not wrong, key + ":warning_names", "warning does not name exactly the isolated vertices",
              got=txt, isolated=iso, wrong=wrong)


def refusals(ctx, B, rng, T, kind, key):
    C = getattr(B, kind)
    # repeated vertex
    T2 = dict(T, ids=list(T["ids"]) + [T["ids"][int(rng.integers(len(T["ids"])))]])
    v, e, kw = gen.frames(rng, T2)
    ctx.refuses(key + ":repeated_id", C, v, e, **kw)
    # unknown vertex at either end
    if len(T["ids"]) > 1:
        end = int(rng.integers(2))
        gone = T["edges"][int(rng.integers(len(T["edges"])))][end]
        T2 = dict(T, ids=[x for x in T["ids"] if x != gone])
        v, e, kw = gen.frames(rng, T2)
        ctx.refuses(key + ":unknown_vertex", C, v, e, **kw)
        # unknown only at one end
        s, t, l, w = T["edges"][0]
        if s != t:
            for edge, nm in (((gone, s if s != gone else t, l, w), "src"), ((s if s != gone else t, gone, l, w), "dst")):
                T2 = dict(T, ids=[x for x in T["ids"] if x != gone], edges=[edge])
                v, e, kw = gen.frames(rng, T2)
                ctx.refuses(key + ":unknown_" + nm, C, v, e, **kw)
    if T["weighted"]:
        for bad in (0.0, -1.0, -1e-9, float("nan")):
            E = list(T["edges"])
            i = int(rng.integers(len(E)))
            E[i] = E[i][:3] + (bad,)
            v, e, kw = gen.frames(rng, dict(T, edges=E))
            ctx.refuses(key + ":weight_%s" % ("nan" if bad != bad else "nonpositive"), C, v, e, **kw)
        # a bad weight hidden by a repetition of the edge, in either orientation
        s, t, l, w = T["edges"][int(rng.integers(len(T["edges"])))]
        for extra in ((s, t, l, -.25 * w), (t, s, l, -.25 * w), (s, t, l, 0.0)):
            v, e, kw = gen.frames(rng, dict(T, edges=list(T["edges"]) + [extra]))
            ctx.refuses(key + ":weight_repeated", C, v, e, **kw)


def run(ctx):
    backend = ctx.job.split("#")[0]
    B = graph_module(backend)
    for cid, kind, rng, T in tables(ctx, n_quick=50, n_thorough=700):
        with ctx.case(cid, gen.describe(T)):
            v, e, kw = gen.frames(rng, T)
            with recorded() as w:
                try:
                    g = getattr(B, kind)(v, e, **kw)
                except Exception as x:
                    ctx.violation(kind + ":constructor:raised", repr(x)[:300])
                    continue
            R = refgraph(ctx, g, T, kind)
            ctx.check(bool(g.weighted) == T["weighted"], kind + ":weighted_flag")
            adjacency(ctx, g, R, T, kind, kind)
            isolated_warning(ctx, w, T, kind)
            # row order must not matter: rebuild from reshuffled rows, compare by identifier
            g2 = ctx.call(kind + ":constructor", gen.build, B, kind, rng, T)
            R2 = refgraph(ctx, g2, T, kind + ":reordered")
            W2 = todense(ctx.call(kind + ":adjacency_matrix", g2.adjacency_matrix, weighted=True))
            ctx.close(W2, R2.w("Di" in kind), kind + ":reordered_weights", **TOL)
            if int(cid.split("-")[1]) % 3 == 0:
                refusals(ctx, B, rng, T, kind, kind)
    big(ctx, B, backend)


def big(ctx, B, backend):
    """Across the id-width boundaries (255/256 vertices, groups, labels; 65535/65536 vertices)."""
    sizes = [255, 256, 257] if ctx.quick else [254, 255, 256, 257, 300, 511, 512]
    if backend == "sparse":
        sizes = sizes + [65535, 65536, 65537]
    if ctx.job.endswith("#1"):
        sizes = [s for s in sizes if s % 2]
    elif "#" in ctx.job:
        sizes = [s for s in sizes if s % 2 == 0] if ctx.job.endswith("#0") else sizes[:1]
    for n in sizes:
        for kind in ("DiGraph", "MultiDiGraph"):
            for many in ("vertices", "labels"):
                cid = "big-%s-%d-%s" % (kind, n, many)
                if (many == "labels" and (n > 1000 or (backend == "dense" and kind == "MultiDiGraph" and n > 300))):
                    continue
                if not ctx.wanted(cid):
                    continue
                rng = ctx.case_rng(cid)
                nv = n if many == "vertices" else 12
                ids = [int(x) for x in rng.permutation(nv) * 3]
                L = n if many == "labels" else 2
                E = []
                for k in range(max(L, 300)):
                    i, j = int(rng.integers(nv)), int(rng.integers(nv))
                    if k < 6:  # the highest internal numbers must be exercised
                        i, j = [(0, nv - 1), (nv - 1, 0), (nv - 1, nv - 1), (nv - 2, nv - 1), (0, nv - 2), (1, 1)][k]
                        E.append((sorted(ids)[i], sorted(ids)[j], k % L if k < L else 0, 1.5 + k))
                    else:
                        E.append((ids[i], ids[j], k % L, float(rng.random() + .1)))
                if many == "vertices":  # few isolated vertices: ring
                    srt = sorted(ids)
                    E += [(srt[i], srt[i - 1], 0, 0.25) for i in range(0, nv, 1)]
                groups = {v: (v if many == "vertices" else v % 3) for v in ids}
                T = dict(n=nv, ids=ids, idkind="int", groups=groups, gkind="int", lkind="int", edges=E,
                         weighted=True, multi=kind.startswith("Multi"), wkind="float")
                with ctx.case(cid, dict(n=nv, labels=L, kind=kind)):
                    g = ctx.call(kind + ":big:constructor", gen.build, B, kind, rng, T)
                    # identity maps
                    ctx.check(sorted(int(x) for x in g.id_dict.values()) == list(range(nv))
                              and set(g.id_dict) == set(ids), kind + ":big:id_dict")
                    gi = np.asarray(g.groups)
                    ctx.check(len(gi) == nv and all(int(gi[int(g.id_dict[v])]) == int(g.group_dict[groups[v]]) for v in ids),
                              kind + ":big:groups")
                    exp = {}
                    for s, t, l, w in E:
                        k = (int(g.id_dict[s]), int(g.id_dict[t]))
                        exp[k] = exp.get(k, 0) + w
                    import scipy.sparse as sp
                    A = sp.coo_matrix(ctx.call(kind + ":big:adjacency", g.adjacency_matrix, directed=True, weighted=True))
                    A.sum_duplicates()
                    got = {(int(i), int(j)): float(x) for i, j, x in zip(A.row, A.col, A.data) if x}
                    ctx.check(set(got) == set(exp), kind + ":big:edges", "edge set differs",
                              missing=sorted(set(exp) - set(got))[:5], extra=sorted(set(got) - set(exp))[:5])
                    ctx.check(all(abs(got.get(k, 0) - w) <= 1e-9 * w for k, w in exp.items()), kind + ":big:weights")
                    if T["multi"]:
                        tens = ctx.call(kind + ":big:tensor", g.adjacency_tensor, directed=True, weighted=True)
                        ctx.check(len(tens) == len({x[2] for x in E}), kind + ":big:labels")
                        le = {}
                        for s, t, l, w in E:
                            k = (int(g.label_dict[l]), int(g.id_dict[s]), int(g.id_dict[t]))
                            le[k] = le.get(k, 0) + w
                        gl = {}
                        for k, M in enumerate(tens):
                            M = sp.coo_matrix(M)
                            M.sum_duplicates()
                            for i, j, x in zip(M.row, M.col, M.data):
                                if x:
                                    gl[(k, int(i), int(j))] = float(x)
                        ctx.check(set(gl) == set(le) and all(abs(gl[k] - le[k]) <= 1e-9 * le[k] for k in le),
                                  kind + ":big:layer_weights")
