"""networkx export."""
import networkx as nx
import numpy as np

from .. import gen
from ..backends import graph_module
from ..gcommon import refgraph, tables


def export(ctx, g, R, T, kind, key):
    G = ctx.call(key + ":to_networkx", g.to_networkx)
    di = "Di" in kind
    multi = T["multi"]
    ctx.check(G.is_directed() == di and G.is_multigraph() == multi, key + ":kind")
    ok = ctx.check(sorted(int(x) for x in G.nodes) == list(range(R.n)), key + ":nodes", got=list(G.nodes)[:40])
    if not ok:
        return
    names = nx.get_node_attributes(G, "node_id")
    ctx.check(len(names) == R.n and all(names[R.pos[v]] == v for v in R.ids), key + ":node_id")
    gr = nx.get_node_attributes(G, "group")
    if T["groups"] is not None:
        ctx.check(len(gr) == R.n and all(gr[R.pos[v]] == T["groups"][v] for v in R.ids), key + ":group")
    # edges: multiset of (i, j, label) -> weight
    exp = {}
    LW = R.layer_w(di)
    for k in range(LW.shape[0]):
        for i, j in zip(*np.nonzero(LW[k])):
            if not di and j < i:
                continue
            exp[(int(i), int(j), R.labels[k] if multi else None)] = float(LW[k, i, j])
    got = {}
    dup = False
    for u, v, d in G.edges(data=True):
        u, v = int(u), int(v)
        if not di and v < u:
            u, v = v, u
        k = (u, v, d.get("label") if multi else None)
        dup |= k in got
        got[k] = float(d.get("weight", 1))
    ctx.check(not dup, key + ":parallel_copies", "the same edge exported more than once")
    if ctx.check(set(got) == set(exp), key + ":edges", "edge set differs",
                 missing=list(set(exp) - set(got))[:5], extra=list(set(got) - set(exp))[:5]):
        bad = [k for k in exp if abs(got[k] - exp[k]) > 1e-10 * abs(exp[k])]
        ctx.check(not bad, key + ":weights", "weights differ", first=[(k, got[k], exp[k]) for k in bad[:3]])
    # networkx's own measures
    A = R.layer_bin(di)
    if di:
        ctx.close([G.out_degree(i) for i in range(R.n)], A.sum(axis=(0, 2)), key + ":nx_out_degree")
        ctx.close([G.in_degree(i) for i in range(R.n)], A.sum(axis=(0, 1)), key + ":nx_in_degree")
        ctx.close(G.number_of_edges(), A.sum(), key + ":nx_edges")
        ctx.close(G.size(weight="weight"), R.layer_w(True).sum(), key + ":nx_weight")
    else:
        ctx.close(G.number_of_edges(), sum(R.edges_und(a) for a in A), key + ":nx_edges")
        ctx.close(G.size(weight="weight"), sum(R.edges_und(a) for a in R.layer_w(False)), key + ":nx_weight")


def run(ctx):
    backend = ctx.job.split("#")[0]
    B = graph_module(backend)
    for cid, kind, rng, T in tables(ctx, n_quick=80, n_thorough=1200):
        with ctx.case(cid, gen.describe(T)):
            g = ctx.call(kind + ":constructor", gen.build, B, kind, rng, T)
            R = refgraph(ctx, g, T, kind)
            export(ctx, g, R, T, kind, kind)
            if rng.random() < 0.3:  # exporting twice, after other queries
                ctx.call(kind + ":num_edges", g.num_edges)
                export(ctx, g, R, T, kind, kind + ":again")
