"""Shared monitors for graph objects."""
import numpy as np

from . import gen
from .core import todense
from .oracle import RefGraph


def bijection(ctx, d, keys, key):
    """d maps `keys` one-to-one onto 0..len(keys)-1."""
    ok = ctx.check(len(d) == len(keys) and set(d) == set(keys), key + ":keys", "identifiers lost or invented",
                   got=list(d)[:20], expected=list(keys)[:20])
    ok &= ctx.check(sorted(int(x) for x in d.values()) == list(range(len(keys))), key + ":values",
                    "numbering not a bijection onto 0..n-1", got=list(d.values())[:50])
    return ok


def refgraph(ctx, g, T, key):
    """Check the identity maps of g and return the reference in g's numbering."""
    from .core import Stop
    ok = ctx.check(g.num_vertices == len(T["ids"]), key + ":num_vertices", got=g.num_vertices)
    ok &= bijection(ctx, g.id_dict, T["ids"], key + ":id_dict")
    lpos = gpos = None
    if T["multi"]:
        labs = {x[2] for x in T["edges"]}
        ok &= bijection(ctx, g.label_dict, labs, key + ":label_dict")
        ok &= ctx.check(g.num_labels == len(labs), key + ":num_labels", got=g.num_labels)
        lpos = g.label_dict
    if T["groups"] is not None:
        gs = set(T["groups"].values())
        ok &= bijection(ctx, g.group_dict, gs, key + ":group_dict")
        ok &= ctx.check(g.num_groups == len(gs), key + ":num_groups", got=g.num_groups)
        gpos = g.group_dict
    if not ok:
        raise Stop()
    R = RefGraph(T["ids"], T["edges"], groups=T["groups"], multi=T["multi"], weighted=T["weighted"],
                 pos=g.id_dict, lpos=lpos, gpos=gpos)
    if T["groups"] is not None:
        ctx.check(np.array_equal(np.asarray(g.groups).astype(int), R.garr), key + ":groups",
                  "vertex to group assignment", got=np.asarray(g.groups), expected=R.garr)
    return R


def tables(ctx, kinds=gen.KINDS, n_quick=40, n_thorough=400, big=10, **kw):
    """Iterate (case_id, kind, rng, table) over generated tables."""
    N = n_quick if ctx.quick else n_thorough
    for i in range(N):
        for kind in kinds:
            cid = "%s-%d" % (kind, i)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            multi = kind.startswith("Multi")
            if big and i % big == big - 1:
                sh = ["vertices", "hub", "groups"] + ["labels"] * multi
                T = gen.table(rng, multi, shape=sh[(i // big) % len(sh)])
            else:
                T = gen.table(rng, multi, **kw)
            yield cid, kind, rng, T
