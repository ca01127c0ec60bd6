"""The same data on every backend."""
import numpy as np

from .. import backends as bk
from .. import gen
from ..core import todense
from ..mcommon import ALL, FORMATS, MULTI, SIMPLE, Spec, scale, spec, local, owns, slow
from .p08 import masks
from .p10 import likely

DIRS = ("out", "in", "out-in")


def sensitivity(S, per):
    """d log(expected edges) / d log(parameter), per label or overall."""
    def one(X):
        h = 1e-6
        up, dn = X(1 + h), X(1 - h)
        with np.errstate(all="ignore"):
            return np.where(up + dn > 0, (up - dn) / (h * (up + dn)), 0.0)

    def edges(f):
        R = Spec(S.cls, S.n, S.selfloops, S.param * f, S.x, S.y, S.L)
        return R.PL().sum(axis=(1, 2)) if per else np.array([R.P().sum()])
    return one(edges)


def agree(ctx, got, key, rtol=1e-9, atol=1e-11):
    """got: backend -> value; every pair must agree."""
    names = [b for b in got if got[b] is not None]
    for b in names[1:]:
        ctx.close(todense(got[b]), np.asarray(todense(got[names[0]]), float), "%s:%s=%s" % (key, b, names[0]), rtol=rtol, atol=atol)


def queries(ctx, models, S, rng, key, few):
    q = ["expected_num_edges", "expected_degree", "expected_out_degree", "expected_in_degree"]
    if S.multi:
        q += ["expected_num_edges_label", "expected_degree_by_label", "expected_out_degree_by_label", "expected_in_degree_by_label"]
    if S.cls == "RandomDiGraph" and all(hasattr(m, "expected_total_weight") for m in models.values()):
        q.append("expected_total_weight")
    for f in q:
        agree(ctx, {b: ctx.trycall("%s:%s:%s" % (key, b, f), getattr(m, f)) for b, m in models.items()}, key + ":" + f)
    P = S.P()
    dmin = [d[d > 0].min() if (d > 0).any() else 1.0 for d in (P.sum(axis=1), P.sum(axis=0))]
    tol = 1e-10 + (4e-15 * S.L * S.n / min(dmin) if S.multi else 0)
    asks = [("p", nd, sl) for nd in DIRS for sl in (True, False)] + [(dd, nd, sl) for dd in DIRS for nd in DIRS for sl in (True, False)]
    asks = [asks[k] for k in rng.permutation(len(asks))][:3 if few else 8]
    prop = rng.normal(size=S.n)
    if tol < 1e-6:
        for what, nd, sl in asks:
            if what == "p":
                r = {b: ctx.trycall("%s:%s:av_nn" % (key, b), m.expected_av_nn_property, prop, ndir=nd, selfloops=sl) for b, m in models.items()}
            else:
                r = {b: ctx.trycall("%s:%s:av_nn" % (key, b), m.expected_av_nn_degree, ddir=what, ndir=nd, selfloops=sl) for b, m in models.items()}
            agree(ctx, r, "%s:av_nn:%s:%s" % (key, "property" if what == "p" else "degree", nd), rtol=1e-9 + tol, atol=tol * (1 + np.abs(prop).max()))
    for bad in (False, True):
        # projected probabilities near rounding are not resolved in the logarithm
        A = likely(np.where(P < 1e-6, 0.0, P), rng, impossible=bad)
        A |= P >= 1
        if not bad or (P == 0).any() or (P >= 1).any():
            r = {b: ctx.trycall("%s:%s:log_likelihood" % (key, b), m.log_likelihood, A) for b, m in models.items()}
            agree(ctx, r, key + ":log_likelihood", rtol=1e-8, atol=1e-7)
        if S.multi:
            A3 = likely(S.PL(), rng, impossible=bad)
            r = {b: ctx.trycall("%s:%s:log_likelihood3" % (key, b), m.log_likelihood, A3) for b, m in models.items()}
            agree(ctx, r, key + ":log_likelihood_layers", rtol=1e-8, atol=1e-7)


def run(ctx):
    spark = ctx.job.startswith("spark")
    B = ("dense", "sparse", "spark") if spark else ("dense", "sparse")
    shard = int(ctx.job.split("#")[1])
    mine = [c for k, c in enumerate(ALL) if not spark or k % 5 == shard % 5]
    for i in range(scale(ctx, 60, 800, 4, 90)):
        for cls in mine:
            cid = "%s-%d" % (cls, i)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            n = int(rng.choice([1, 2, 3, 5, 8, 13, 21, 33]))
            S = spec(rng, cls, n=n, mode=str(rng.choice(["sparse", "mid", "dense"])) if rng.random() < .8 else None)
            how = str(rng.choice(["param", "fit", "graph"]))
            fm = {b: None if not S.multi else str(rng.choice(FORMATS[:6] if b != "dense" else ["ndarray", "csr"])) for b in B}
            pb = int(rng.integers(1, 5))
            with ctx.case(cid, dict(S.info(), how=how, formats=fm, p_blocks=pb), nontrivial=n > 1):
                key = cls + ":" + how
                if how == "param":
                    M = {b: ctx.call("%s:%s:build" % (key, b), S.build, b, rng, fm[b], p_blocks=pb if b == "spark" else None) for b in B}
                    queries(ctx, M, S, rng, key, slow(ctx))
                    continue
                per = False
                if how == "fit":
                    if cls == "RandomDiGraph":
                        pairs = n * n if S.selfloops else n * (n - 1)
                        kw = dict(num_edges=float(rng.uniform(0, pairs)))
                        if not pairs:
                            continue
                        if rng.random() < .5:
                            kw["total_weight"] = kw["num_edges"] * (1 + 3 * rng.random()) + 1
                            kw["discrete_weights"] = bool(rng.integers(2))
                    else:
                        mk = masks(S)
                        per = S.multi and bool(rng.integers(2))
                        top = mk.sum(axis=(1, 2)) if per else np.array([(mk.any(axis=0) if S.multi else mk).sum()])
                        t = top * rng.choice([1e-3, .05, .3, .6, .9], len(top))
                        kw = dict(num_edges_label=t, per_label=True) if per else dict(num_edges=float(t[0]))
                        if S.multi and not per:
                            kw["per_label"] = False
                    M = {b: ctx.call("%s:%s:build" % (key, b), S.build, b, rng, fm[b], p_blocks=pb if b == "spark" else None, param=None, **kw) for b in B}
                else:
                    T = gen.table(rng, S.multi, n=max(n, 2), weighted=True)
                    kind = "MultiDiGraph" if S.multi else "DiGraph"
                    st = int(rng.integers(2 ** 31))
                    G = {b: ctx.call("%s:%s:graph" % (key, b), gen.build, bk.graph_module(b), kind, np.random.default_rng(st), T) for b in ("dense", "sparse")}
                    M = {b: ctx.call("%s:%s:build" % (key, b), bk.model, b, cls, G["dense" if b == "dense" else "sparse"],
                                     p_blocks=pb if b == "spark" else None, selfloops=True) for b in B}
                    m = M["dense"]
                    S.n, S.selfloops = m.num_vertices, True
                    if S.multi:
                        S.L = m.num_labels
                    per = S.multi
                    if cls != "RandomDiGraph":
                        g = G["dense"]
                        S.x, S.y = [np.asarray(todense(f()), float) for f in ((g.out_strength_by_label, g.in_strength_by_label) if S.multi else
                                                                              (g.out_strength, g.in_strength))]
                        # nearly full graphs have no well-conditioned fit
                        mk = masks(S)
                        top = mk.sum(axis=(1, 2)) if per else np.array([(mk.any(axis=0) if S.multi else mk).sum()])
                        tg = np.asarray(m.num_edges_label if per else [m.num_edges], float)
                        if np.any(tg > .97 * top):
                            ctx.ev("graphs_too_full_to_compare_fits")
                            continue
                for b in B:
                    ctx.call("%s:%s:fit" % (key, b), M[b].fit)
                par = {b: np.atleast_1d(np.asarray(M[b].param, float)) for b in B}
                ref = par["sparse"]
                if cls == "RandomDiGraph":
                    agree(ctx, par, key + ":parameters", rtol=1e-11)
                    S.param = ref[:1]
                    queries(ctx, M, S, rng, key, slow(ctx))
                    continue
                S.param = ref
                s = sensitivity(S, per)
                if np.all((s > 1e-3) | (ref == 0)):
                    for b in B:
                        if b != "sparse":
                            ok = ctx.check(par[b].shape == ref.shape, key + ":parameter_shape")
                            if ok:
                                ctx.close(par[b], ref, "%s:parameters:%s=sparse" % (key, b), rtol=1e-11, atol=np.broadcast_to(np.abs(ref) * 3e-9 / np.maximum(s, 1e-3), ref.shape))
                    # the rest at exactly equal parameters, so that only the evaluation is compared
                    for b in B:
                        M[b].param = ref.copy()
                    queries(ctx, M, S, rng, key, slow(ctx))
                else:
                    ctx.ev("fits_too_flat_to_compare")
