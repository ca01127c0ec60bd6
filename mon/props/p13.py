"""Sampled graphs are complete, well-formed graphs."""
import numpy as np

from .. import backends as bk
from .. import gen, oracle
from ..condcommon import cspec
from ..core import quiet, todense
from ..mcommon import ALL, MULTI, backend_of, scale, spec, local, owns, slow
from .. import stats
from .p02 import measures
from .p03 import DIRS, deg
from .p04 import export


def reference(g, ids, groups, labels, multi, weighted):
    """RefGraph of the sampled edges, in the numbering of the identities."""
    pos = {v: i for i, v in enumerate(ids)}
    W = stats.wadjacency(g, multi)
    C = stats.adjacency(g, multi)
    if not multi:
        W, C = W[None], C[None]
    R = oracle.RefGraph(ids, [], groups=groups, multi=False, weighted=weighted, pos=pos)
    R.multi, R.labels, R.C, R.W = multi, labels if multi else [None], C, np.where(C, W, 0.0) if weighted else C.astype(float)
    return R


def inspect(ctx, g, key, n, ids, groups, gids, labels, multi, weighted, rng, backend):
    kind = "MultiDiGraph" if multi else "DiGraph"
    ctx.check(isinstance(g, getattr(bk.graph_module(backend), kind)), key + ":class", got=type(g).__name__)
    ctx.check(g.num_vertices == n, key + ":num_vertices", got=g.num_vertices)
    ok = ctx.check({k: int(v) for k, v in g.id_dict.items()} == {v: i for i, v in enumerate(ids)}, key + ":ids",
                   "vertex identifiers", got=list(g.id_dict.items())[:10], expected=ids[:10])
    T = dict(groups=groups, multi=multi, weighted=weighted)
    if groups is not None:
        ok &= ctx.check(hasattr(g, "groups") and hasattr(g, "group_dict") and g.num_groups == len(gids) and
                        {k: int(v) for k, v in g.group_dict.items()} == {v: i for i, v in enumerate(gids)} and
                        [gids[int(k)] for k in np.asarray(g.groups)] == [groups[v] for v in ids], key + ":groups", "groups of the vertices")
    if multi:
        ok &= ctx.check(g.num_labels == len(labels), key + ":num_labels", got=g.num_labels)
        ok &= ctx.check({k: int(v) for k, v in g.label_dict.items()} == {v: i for i, v in enumerate(labels)}, key + ":labels",
                        got=list(g.label_dict.items())[:10], expected=labels)
    if not ok:
        return
    a = stats.adjacency(g, multi)
    if not ctx.check(a.shape == ((len(labels), n, n) if multi else (n, n)), key + ":adjacency_shape", got=a.shape):
        return
    R = reference(g, ids, groups, labels, multi, weighted)
    if groups is not None:
        R.gids = gids
        gp = {v: i for i, v in enumerate(gids)}
        R.garr = np.array([gp[groups[v]] for v in ids])
    ctx.ev("edges_in_samples", int(R.C.sum()))
    # all counting measures
    measures(ctx, g, R, T, kind, key, order=rng)
    # projections and orientations
    for di in (True, False):
        for w in (True, False):
            m = ctx.trycall(key + ":adjacency", g.adjacency_matrix, directed=di, weighted=w)
            if m is not None:
                ctx.close(todense(m).astype(float), (R.w(di) if w else R.bin(di)).astype(float), key + ":adjacency_matrix", rtol=1e-12, directed=di, weighted=w)
            if multi:
                m = ctx.trycall(key + ":tensor", g.adjacency_tensor, directed=di, weighted=w)
                if m is not None:
                    ctx.close(todense(m).astype(float), (R.layer_w(di) if w else R.layer_bin(di)).astype(float), key + ":adjacency_tensor", rtol=1e-12, directed=di, weighted=w)
    # neighbour averages
    for nd in DIRS:
        sl = bool(rng.integers(2))
        p = rng.normal(size=n)
        r = ctx.trycall(key + ":nn_property", g.average_nn_property, p, ndir=nd, selfloops=sl)
        if r is not None:
            ctx.close(r, R.av_nn(p, nd, sl), key + ":nn_property", rtol=1e-10)
        r = ctx.trycall(key + ":nn_degree", g.average_nn_degree, ddir="out", ndir=nd, selfloops=sl)
        if r is not None:
            ctx.close(r, R.av_nn(deg(R, "out"), nd, sl), key + ":nn_degree", rtol=1e-10)
    export(ctx, g, R, T, kind, key + ":export")
    # a model can be built from it, with its size, edges and strengths
    M = bk.module(backend if backend != "spark" else "sparse")
    names = ("MultiFitnessModel", "RandomDiGraph") if multi else ("FitnessModel", "ScaleInvariantModel", "RandomDiGraph")
    cls = names[int(rng.integers(len(names)))]
    m = ctx.trycall(key + ":model_from_sample:" + cls, getattr(M, cls), g)
    if m is not None:
        ctx.check(m.num_vertices == n, key + ":model_from_sample:vertices")
        if hasattr(m, "num_edges") and not multi:
            ctx.close(m.num_edges, R.bin(True).sum(), key + ":model_from_sample:edges")
        if cls in ("FitnessModel", "ScaleInvariantModel"):
            ctx.close(m.prop_out, R.w(True).sum(axis=1), key + ":model_from_sample:strengths", rtol=1e-10)


def run(ctx):
    backend = backend_of(ctx)
    spark = slow(ctx)
    for i in range(scale(ctx, 30, 400, 2, 12)):
        classes = ALL + (("ConditionalInvariantModel",) if backend == "sparse" else ())
        for cls in classes:
            cid = "%s-%d" % (cls, i)
            if local(ctx) and not owns(ctx, cls) or not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            multi = cls in MULTI
            n = int(rng.choice([1, 2, 5, 9, 14])) if not spark else int(rng.choice([2, 9, 14]))
            if not spark and i == 0:
                n = 300     # identifiers need two bytes
            if cls == "ConditionalInvariantModel":
                S = cspec(rng, n=min(n, 40), scale="mid")
                n = S.n
            else:
                S = spec(rng, cls, n=n, mode="mid" if rng.random() < .7 else None)
            if multi and S.L > 1 and rng.random() < .4:  # a label without edges
                k = int(rng.integers(S.L))
                if len(S.param) == S.L and rng.random() < .6:
                    S.param[k] = 0.0
                else:
                    S.x[:, k] = 0
            ids, groups, gids, labels = list(range(n)), None, None, list(range(S.L))
            ref = None
            if rng.random() < .6 and n > 1:
                # a reference graph with as many vertices (and labels)
                T = None
                for _ in range(60):
                    T = gen.table(rng, multi, n=n, labels=S.L if multi else None)
                    if not multi or len({e[2] for e in T["edges"]}) == S.L:
                        break
                else:
                    T = None
                if T is not None:
                    kind = "MultiDiGraph" if multi else "DiGraph"
                    ref = ctx_build(ctx, backend, kind, rng, T)
                    if ref is not None:
                        ids = sorted(T["ids"], key=lambda v: ref.id_dict[v])
                        if T["groups"] is not None:
                            groups = T["groups"]
                            gids = sorted(set(groups.values()), key=lambda v: ref.group_dict[v])
                        if multi:
                            labels = sorted({e[2] for e in T["edges"]}, key=lambda v: ref.label_dict[v])
            wts = None
            kw = {}
            if rng.random() < .5:
                if cls == "RandomDiGraph" and rng.random() < .5:
                    wts = "random"
                    S.param = np.array([S.param[0], .5])
                elif cls == "RandomDiGraph" or multi or cls in ("FitnessModel", "ScaleInvariantModel"):
                    wts = "cremb"
                    shape = (n, S.L) if multi else n
                    so = 10 ** rng.uniform(-1, 2, shape)
                    si = 10 ** rng.uniform(-1, 2, shape)
                    si = si * so.sum(axis=0) / si.sum(axis=0)
                    nm = ("out_strength_label", "in_strength_label") if multi else ("out_strength", "in_strength")
                    kw = {nm[0]: so, nm[1]: si}
                else:
                    wts = "wagg"
                    kw = dict(out_strength=10 ** rng.uniform(-1, 2, n), in_strength=10 ** rng.uniform(-1, 2, n))
            key = cls + (":" + wts if wts else "") + (":ref" if ref is not None else "")
            with ctx.case(cid, dict(cls=cls, n=n, L=S.L, weights=wts, ref=ref is not None, grouped=groups is not None), nontrivial=n > 1):
                m = ctx.call(key + ":build", S.build) if cls == "ConditionalInvariantModel" else ctx.call(key + ":build", S.build, backend, rng)
                snap = snapshot(ref)
                g = ctx.call(key + ":sample", m.sample, ref_g=ref, weights=wts, **kw)
                inspect(ctx, g, key, n, ids, groups, gids, labels, multi, wts is not None, rng, backend)
                ctx.check(snap == snapshot(ref), key + ":reference_untouched", "sampling changed the reference graph")


def ctx_build(ctx, backend, kind, rng, T):
    try:
        with quiet():
            return gen.build(bk.graph_module(backend), kind, rng, T)
    except Exception:
        return None


def snapshot(g):
    if g is None:
        return None
    from ..core import digest
    a = g.adjacency_tensor(directed=True, weighted=True) if hasattr(g, "adjacency_tensor") else g.adjacency_matrix(directed=True, weighted=True)
    return digest(todense(a), sorted(g.id_dict.items(), key=str), g.num_vertices, sorted(getattr(g, "group_dict", {}).items(), key=str),
                  np.asarray(getattr(g, "groups", [])))
