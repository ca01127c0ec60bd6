"""Statistical monitors over logs of samples. Every test has a nominal
false-alarm probability of ALPHA divided by the number of comparisons."""
import numpy as np
from scipy import stats

ALPHA = 1e-10


def adjacency(g, multi):
    """Binary adjacency of a sampled graph through its public interface,
    as (labels, n, n) or (n, n)."""
    if multi:
        t = g.adjacency_tensor(directed=True, weighted=False)
        if isinstance(t, (list, tuple)):
            return np.stack([np.asarray(x.todense()) for x in t]) != 0
        return np.asarray(t) != 0
    a = g.adjacency_matrix(directed=True, weighted=False)
    return np.asarray(a.todense() if hasattr(a, "todense") else a) != 0


def wadjacency(g, multi):
    if multi:
        t = g.adjacency_tensor(directed=True, weighted=True)
        if isinstance(t, (list, tuple)):
            return np.stack([np.asarray(x.todense(), float) for x in t])
        return np.asarray(t, float)
    a = g.adjacency_matrix(directed=True, weighted=True)
    return np.asarray(a.todense() if hasattr(a, "todense") else a, float)


def binom_bad(k, n, p, m):
    """Mask of counts k out of n incompatible with probability p (m comparisons)."""
    lo = stats.binom.cdf(k, n, p)
    hi = stats.binom.sf(k - 1, n, p)
    a = ALPHA / (2 * max(m, 1))
    return (lo < a) | (hi < a)


def check_law(ctx, A, P, key, serial=True):
    """A: (samples, ...) bool; P: same trailing shape. Frequencies, pair
    correlations, count variance, serial independence, repeated samples."""
    S = A.shape[0]
    A = A.reshape(S, -1)
    p = np.asarray(P, float).reshape(-1)
    c = A.sum(axis=0)
    ctx.ev("pairs_observed", A.size)
    ctx.ev("edges_observed", int(c.sum()))
    ctx.check(not np.any(c[p == 0]), key + ":impossible_edge", "an edge of probability zero was sampled",
              at=np.argwhere((p == 0) & (c > 0))[:5])
    ctx.check(np.all(c[p >= 1] == S), key + ":certain_edge", "an edge of probability one is missing")
    mid = (p > 0) & (p < 1)
    if not mid.any():
        return
    pm, cm, X = p[mid], c[mid], A[:, mid]
    bad = binom_bad(cm, S, pm, len(pm))
    ctx.check(not bad.any(), key + ":frequency", "observed frequency incompatible with the probability",
              freq=(cm / S)[bad][:5], prob=pm[bad][:5], samples=S)
    # pooled in groups of similar probability: more power against small biases
    o = np.argsort(pm, kind="stable")
    ng = min(8, len(pm))
    for gidx in np.array_split(o, ng):
        v = S * (pm[gidx] * (1 - pm[gidx])).sum()
        if v > 30:
            z = (cm[gidx].sum() - S * pm[gidx].sum()) / np.sqrt(v)
            ctx.check(abs(z) < 7.5, key + ":frequency_group", "pooled frequency off by %.1f standard deviations" % z,
                      prob=pm[gidx].mean(), freq=cm[gidx].sum() / S / len(gidx), samples=S)
    var = (pm * (1 - pm)).sum()
    # count variance
    if S >= 100 and var > 2:
        t = X.sum(axis=1) - pm.sum()
        k4 = (pm * (1 - pm) * (1 - 6 * pm * (1 - pm))).sum()
        m = (t ** 2).mean() / var
        sd = np.sqrt((2 + k4 / var ** 2) / S)
        ctx.check(abs(m - 1) < 8 * sd + 0.02, key + ":count_variance",
                  "variance of the number of edges is %.3f of the expected" % m, samples=S)
    good = (pm > .08) & (pm < .92)
    if good.sum() >= 2 and S >= 500:
        Z = (X[:, good] - pm[good]) / np.sqrt(pm[good] * (1 - pm[good]))
        R = Z.T @ Z / np.sqrt(S)
        np.fill_diagonal(R, 0)
        ctx.ev("pair_correlations", R.size // 2)
        w = np.abs(R).max()
        ctx.check(w < 8.5, key + ":pair_correlation", "two pairs are correlated (%.1f standard deviations)" % w,
                  at=np.argwhere(np.abs(R) == w)[0], samples=S)
    if serial and S >= 20:
        Zf = (X - pm) / np.sqrt(pm * (1 - pm))
        wts = ((pm > .02) & (pm < .98)).astype(float)
        if wts.sum() >= 1:
            for lag in (1, 2):
                r = (Zf[lag:] * Zf[:-lag] * wts).sum() / np.sqrt((S - lag) * wts.sum())
                ctx.check(abs(r) < 8.5, key + ":serial_correlation",
                          "successive samples are correlated (%.1f standard deviations)" % r, lag=lag, samples=S)
        # probability that two samples coincide
        lp = np.log(pm ** 2 + (1 - pm) ** 2).sum()
        if lp + 2 * np.log(S) < -32:
            packed = np.packbits(X, axis=1)
            u = len({r.tobytes() for r in packed})
            ctx.check(u == S, key + ":repeated_sample", "%d of %d samples are exact repetitions" % (S - u, S))


def ks_exp(u):
    """KS test of u against the unit exponential; p-value."""
    return stats.kstest(u, "expon").pvalue
