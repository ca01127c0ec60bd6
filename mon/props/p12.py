"""Weighted samples."""
import numpy as np
from scipy import stats as st

from .. import stats
from ..core import quiet
from ..mcommon import ALL, MULTI, Spec, as_format, backend_of, local, owns, slow
from .p11 import design


def draw(ctx, m, S, key, count, **kw):
    W = np.zeros((count, S.L, S.n, S.n) if S.multi else (count, S.n, S.n))
    B = np.zeros(W.shape, dtype=bool)
    with quiet():
        for s in range(count):
            g = ctx.call(key + ":sample", m.sample, **kw)
            w = stats.wadjacency(g, S.multi)
            if not ctx.check(w.shape == W.shape[1:], key + ":shape", got=w.shape):
                return None, None
            W[s], B[s] = w, stats.adjacency(g, S.multi)
    ctx.ev("samples", count)
    ctx.check(np.all(W[B] > 0) and np.isfinite(W).all() and not np.any(W[~B]), key + ":positive",
              "weights of edges must be positive, of non-edges zero")
    return W, B


def check_exponential(ctx, W, B, mean, key):
    """mean: expected weight of an existing edge, per pair."""
    count = W.shape[0]
    W, B, mean = W.reshape(count, -1), B.reshape(count, -1), mean.reshape(-1)
    seen = B.any(axis=0)
    if not ctx.check(np.all(mean[seen] > 0), key + ":mean_positive", "edge where no weight is expected"):
        return
    with np.errstate(all="ignore"):
        U = np.where(B, W / mean, 0.0)
    k = B.sum(axis=0)
    s = U.sum(axis=0)
    i = k > 0
    # sum of k unit exponentials is Gamma(k)
    a = stats.ALPHA / (2 * max(i.sum(), 1))
    lo, hi = st.gamma.cdf(s[i], k[i]), st.gamma.sf(s[i], k[i])
    bad = (lo < a) | (hi < a)
    ctx.check(not bad.any(), key + ":pair_mean", "mean weight of a pair is off",
              ratio=(s[i] / k[i])[bad][:5], edges=k[i][bad][:5])
    u = U[B]
    ctx.ev("weights_observed", len(u))
    if len(u) < 30:
        return
    z = (u.sum() - len(u)) / np.sqrt(len(u))
    ctx.check(abs(z) < 8, key + ":overall_mean", "mean weight off by %.1f standard deviations" % z, ratio=u.mean())
    p = stats.ks_exp(u)
    ctx.check(p > stats.ALPHA, key + ":exponential", "weights not exponential (p=%.2g)" % p, n=len(u),
              quantiles=np.quantile(u, [.1, .25, .5, .75, .9]))
    # independence: neighbouring edges of a sample, and sample totals
    if len(u) > 2000:
        v = np.minimum(u, 8) - (1 - np.exp(-8.0))
        r = (v[1:] * v[:-1]).sum() / np.sqrt(len(v) - 1) / v.var()
        ctx.check(abs(r) < 9, key + ":weight_correlation", "weights of successive edges correlated (%.1f sd)" % r)
    ctx.check(len(np.unique(u)) > 0.98 * len(u), key + ":weights_distinct", "weights repeat")


def strengths(rng, S):
    """Positive strength sequences with equal totals (per label)."""
    shape = (S.n, S.L) if S.multi else S.n
    so, si = 10 ** rng.uniform(-1, 2, shape), 10 ** rng.uniform(-1, 2, shape)
    return so, si * so.sum(axis=0) / si.sum(axis=0)


def mean_weight(S, so, si, sl):
    """Unconditional mean over probability, per (label,) pair."""
    if S.multi:
        P = S.PL(sl)
        M = np.stack([np.outer(so[:, k], si[:, k]) / so[:, k].sum() if so[:, k].sum() else np.zeros((S.n, S.n)) for k in range(S.L)])
    else:
        P, M = S.P(sl), np.outer(so, si) / so.sum()
    with np.errstate(all="ignore"):
        return np.where(P > 0, M / P, 0.0), P


def run(ctx):
    backend = backend_of(ctx)
    spark = slow(ctx)
    shard = int(ctx.job.split("#")[1])
    reps = (2 if ctx.quick else 10) if not spark else (1 if ctx.quick else 3)
    for r in range(reps):
        for ci, cls in enumerate(ALL):
            if spark and ctx.quick and ci % 3 != shard or not owns(ctx, cls):
                continue
            sl = bool((r + ci + shard) % 2)
            n, count = (22, 16 if ctx.quick else 40) if spark else (7, 1500 if ctx.quick else 8000)
            if local(ctx):
                n, count = (24, 100 if ctx.quick else 600) if r % 2 else (7, 400 if ctx.quick else 3000)
            so_name = ("out_strength_label", "in_strength_label") if cls in MULTI else ("out_strength", "in_strength")
            # strengths supplied by the caller
            cid = "cremb-given-%s-%d" % (cls, r)
            if ctx.wanted(cid):
                rng = ctx.case_rng(cid)
                S = design(rng, cls, n, sl)
                so, si = strengths(rng, S)
                call = {so_name[0]: so.copy(), so_name[1]: si.copy()}
                if S.multi:
                    fmt = str(rng.choice(["ndarray", "csr", "csc", "coo"]))
                    call = {k: as_format(v, fmt) for k, v in call.items()}
                with ctx.case(cid, dict(S.info(), s_out=so, s_in=si, samples=count)):
                    m = ctx.call(cls + ":build", S.build, backend, rng)
                    W, B = draw(ctx, m, S, cls + ":given", count, weights="cremb", **call)
                    if W is not None:
                        mean, P = mean_weight(S, so, si, sl)
                        stats.check_law(ctx, B, P, cls + ":given:topology")
                        check_exponential(ctx, W, B, mean, cls + ":given")
                    # other self-loop choice
                    W, B = draw(ctx, m, S, cls + ":given:selfloops_arg", max(count // 4, 6), weights="cremb", selfloops=not sl, **call)
                    if W is not None:
                        mean, P = mean_weight(S, so, si, not sl)
                        stats.check_law(ctx, B, P, cls + ":given:selfloops_arg:topology")
                        check_exponential(ctx, W, B, mean, cls + ":given:selfloops_arg")
                    # different totals are refused (per label too)
                    bad = si.copy()
                    if S.multi:
                        bad[:, int(rng.integers(S.L))] *= 1 + 10 ** rng.uniform(-4, 1)
                    else:
                        bad *= 1 + 10 ** rng.uniform(-4, 1)
                    ctx.refuses(cls + ":unequal_totals", m.sample, weights="cremb", **{so_name[0]: so, so_name[1]: bad})
                    ctx.refuses(cls + ":unknown_scheme", m.sample, weights="nonsense")
            if cls == "RandomDiGraph":
                continue
            # by default the fitnesses are the strengths
            cid = "cremb-default-%s-%d" % (cls, r)
            if ctx.wanted(cid) and not (spark and ctx.quick and r):
                rng = ctx.case_rng(cid)
                S = design(rng, cls, n, sl)
                S.x, S.y = np.minimum(S.x, 50.0), np.minimum(S.y, 50.0)
                S.y = S.y * (S.x.sum(axis=0) / S.y.sum(axis=0))
                with ctx.case(cid, dict(S.info(), samples=count)):
                    m = ctx.call(cls + ":build", S.build, backend, rng)
                    W, B = draw(ctx, m, S, cls + ":default", count, weights="cremb")
                    if W is not None:
                        mean, P = mean_weight(S, S.x, S.y, sl)
                        stats.check_law(ctx, B, P, cls + ":default:topology")
                        check_exponential(ctx, W, B, mean, cls + ":default")
        # the random graph's own weights
        for disc in (False, True):
            cid = "random-%s-%d" % ("discrete" if disc else "continuous", r)
            if not owns(ctx, "RandomDiGraph") or not ctx.wanted(cid) or (spark and ctx.quick and shard != int(disc)):
                continue
            rng = ctx.case_rng(cid)
            sl = bool(rng.integers(2))
            n, count = 7, (2500 if ctx.quick else 10000)
            if local(ctx):
                n, count = 23, (60 if ctx.quick else 600)
            pairs = n * n if sl else n * (n - 1)
            E = float(rng.integers(8, pairs - 4))
            Wt = E * (1 + 10 ** rng.uniform(-.5, 1)) if disc else E * 10 ** rng.uniform(-2, 3)
            S = Spec("RandomDiGraph", n, sl, [E / pairs])
            from .. import backends as bk
            with ctx.case(cid, dict(n=n, selfloops=sl, num_edges=E, total_weight=Wt, discrete=disc)):
                cls = "RandomDiGraph"
                if rng.random() < .5:
                    m = ctx.call(cls + ":build", bk.model, backend, cls, num_vertices=n, num_edges=E, total_weight=Wt,
                                 discrete_weights=disc, selfloops=sl)
                    ctx.call(cls + ":fit", m.fit)
                else:
                    q = 1 - E / Wt if disc else E / Wt
                    kw = dict(discrete_weights=True) if disc else {}
                    m = ctx.call(cls + ":build", bk.model, backend, cls, num_vertices=n, param=np.array([E / pairs, q]), selfloops=sl, **kw)
                ctx.close(ctx.call(cls + ":expected_total_weight", m.expected_total_weight), Wt, cls + ":expected_total_weight", rtol=1e-9)
                W, B = draw(ctx, m, S, cls + ":own", count, weights="random")
                if W is None:
                    continue
                stats.check_law(ctx, B, S.P(), cls + ":own:topology")
                if disc:
                    w = W[B]
                    ctx.check(np.all(w == np.round(w)) and np.all(w >= 1), cls + ":own:integers")
                    p = E / Wt
                    top = int(max(2, st.geom.ppf(1 - 5e-3, p)))
                    obs = np.array([(w == v).sum() for v in range(1, top)] + [(w >= top).sum()])
                    ex = np.append(st.geom.pmf(np.arange(1, top), p), st.geom.sf(top - 1, p))
                    bad = stats.binom_bad(obs, len(w), ex, len(ex))
                    ctx.check(not bad.any(), cls + ":own:geometric", "weight distribution not geometric",
                              value=np.argwhere(bad)[:4], observed=obs[bad][:4] / len(w), expected=ex[bad][:4])
                else:
                    check_exponential(ctx, W, B, np.full((n, n), Wt / E), cls + ":own")
