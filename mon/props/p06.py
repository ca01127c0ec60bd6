"""Expected edges and degrees are sums of edge probabilities."""
import numpy as np

from .. import oracle
from ..core import todense
from ..mcommon import ALL, FORMATS, MULTI, Spec, backend_of, scale, specs, local, owns, slow

TOL = dict(rtol=1e-9, atol=1e-11)


def expectations(ctx, m, S, key, order=None, **ck):
    P = S.P()
    u, o, i = oracle.exp_degrees(P)
    q = [("expected_num_edges", P.sum()), ("expected_degree", u), ("expected_out_degree", o), ("expected_in_degree", i)]
    if S.multi:
        PL = S.PL()
        D = [oracle.exp_degrees(p) for p in PL]
        q += [("expected_num_edges_label", PL.sum(axis=(1, 2))),
              ("expected_degree_by_label", np.stack([d[0] for d in D], axis=1)),
              ("expected_out_degree_by_label", np.stack([d[1] for d in D], axis=1)),
              ("expected_in_degree_by_label", np.stack([d[2] for d in D], axis=1))]
    if order is not None:
        q = [q[k] for k in order.permutation(len(q))]
    got = {}
    for name, exp in q:
        r = ctx.trycall(key + ":" + name, getattr(m, name), **ck)
        if r is not None:
            got[name] = np.asarray(todense(r), float)
            ctx.close(got[name], exp, key + ":" + name, **TOL)
    return got


def run(ctx):
    backend = backend_of(ctx)
    for cid, rng, S in specs(ctx, count=scale(ctx, 40, 500, 3, 25)):
        fmt = str(rng.choice(FORMATS)) if S.multi and backend != "dense" else str(rng.choice(["ndarray", "csr"])) if S.multi else None
        with ctx.case(cid, dict(S.info(), fmt=fmt), nontrivial=S.n > 1):
            key = S.cls
            m = ctx.call(key + ":build", S.build, backend, rng, fmt)
            got = expectations(ctx, m, S, key, order=rng)
            if {"expected_out_degree", "expected_in_degree", "expected_num_edges"} <= set(got):
                ctx.close(got["expected_out_degree"].sum(), got["expected_num_edges"], key + ":out_sum", **TOL)
                ctx.close(got["expected_in_degree"].sum(), got["expected_num_edges"], key + ":in_sum", **TOL)
            if slow(ctx) and rng.random() > .3:
                continue
            # relabelling the vertices relabels the answers
            if S.cls != "RandomDiGraph" and S.n > 1:
                perm = rng.permutation(S.n)
                S2 = Spec(S.cls, S.n, S.selfloops, S.param, S.x[perm], S.y[perm], S.L)
                m2 = ctx.call(key + ":build", S2.build, backend, rng, fmt)
                for f in ("expected_degree", "expected_out_degree", "expected_in_degree"):
                    r = ctx.trycall(key + ":relabel:" + f, getattr(m2, f))
                    if r is not None and f in got:
                        ctx.close(r, got[f][perm], key + ":relabel:" + f, **TOL)
    # larger systems (block boundaries for the distributed backend)
    for cls in ALL:
        for n in ([64] if backend != "spark" else [23, 41]):
            cid = "large-%s-%d" % (cls, n)
            if not ctx.wanted(cid) or not owns(ctx, cls) or (slow(ctx) and ctx.quick and not ctx.job.endswith("#%d" % (ALL.index(cls) % 3))):
                continue
            rng = ctx.case_rng(cid)
            from ..mcommon import spec
            S = spec(rng, cls, n=n, mode="mid")
            with ctx.case(cid, dict(cls=cls, n=n, selfloops=S.selfloops)):
                m = ctx.call(cls + ":build", S.build, backend, rng, p_blocks=int(rng.integers(1, 6)) if backend == "spark" else None)
                expectations(ctx, m, S, cls + ":large")
