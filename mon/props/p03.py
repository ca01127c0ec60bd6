"""Nearest-neighbour averages of graphs."""
import numpy as np

from .. import gen
from ..backends import graph_module
from ..core import todense
from ..gcommon import refgraph, tables

TOL = dict(rtol=1e-10, atol=1e-12)
DIRS = ("out", "in", "out-in")


def deg(R, d):
    return {"out": R.bin(True).sum(axis=1), "in": R.bin(True).sum(axis=0),
            "out-in": R.bin(False).sum(axis=1)}[d].astype(float)


def run(ctx):
    backend = ctx.job.split("#")[0]
    B = graph_module(backend)
    for cid, kind, rng, T in tables(ctx, n_quick=60, n_thorough=900):
        with ctx.case(cid, gen.describe(T)):
            g = ctx.call(kind + ":constructor", gen.build, B, kind, rng, T)
            R = refgraph(ctx, g, T, kind)
            di = "Di" in kind
            n = R.n
            props = {"scalar": rng.normal(size=n) * 10, "vector": rng.normal(size=(n, 3)),
                     "square": rng.normal(size=(n, n)), "int": rng.integers(0, 9, n)}
            asks = []
            for pn in props:
                for nd in (DIRS if di else (None,)):
                    for sl in (True, False):
                        asks.append(("prop", pn, nd, sl))
            for nd in (DIRS if di else (None,)):
                for dd in (DIRS if di else (None,)):
                    for sl in (True, False):
                        asks.append(("deg", dd, nd, sl))
            # random order, with repetitions: answers must not depend on history
            asks = [asks[i] for i in rng.permutation(len(asks))] + [asks[int(rng.integers(len(asks)))] for _ in range(6)]
            for what, a, nd, sl in asks:
                kw = {"selfloops": sl}
                if di:
                    kw["ndir"] = nd
                if what == "prop":
                    p = props[a]
                    keep = p.copy()
                    key = "%s:property:%s:%s:%s" % (kind, a, nd, sl)
                    r = ctx.trycall(key, g.average_nn_property, p, **kw)
                    exp = R.av_nn(keep.astype(float), nd if di else "out-in", sl)
                    ctx.check(np.array_equal(p, keep), kind + ":input_untouched")
                else:
                    if di:
                        kw["ddir"] = a
                    key = "%s:degree:%s:%s:%s" % (kind, a, nd, sl)
                    r = ctx.trycall(key, g.average_nn_degree, **kw)
                    exp = R.av_nn(deg(R, a if di else "out-in"), nd if di else "out-in", sl)
                if r is not None:
                    ctx.close(todense(r).astype(float), exp, key, **TOL)
            # asking must not change the graph
            ctx.close(todense(g.adjacency_matrix(directed=di, weighted=True)), R.w(di), kind + ":graph_untouched", rtol=1e-12)
            ctx.refuses(kind + ":wrong_size", g.average_nn_property, np.ones(n + 1))
            if di:
                ctx.refuses(kind + ":wrong_direction", g.average_nn_property, np.ones(n), ndir="up")
