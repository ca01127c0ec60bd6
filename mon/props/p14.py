"""Samples of the conditional model."""
import itertools

import numpy as np

from .. import stats
from ..condcommon import cspec
from ..core import quiet
from .p12 import check_exponential
from .p15 import FMT

KEY = "Conditional"


def draw(ctx, m, S, key, count, sl, **kw):
    B = np.zeros((count, S.n, S.n), dtype=bool)
    W = np.zeros((count, S.n, S.n))
    with quiet():
        for s in range(count):
            g = ctx.call(key + ":sample", m.sample, **kw)
            a, w = stats.adjacency(g, False), stats.wadjacency(g, False)
            if not ctx.check(a.shape == (S.n, S.n), key + ":shape", got=a.shape):
                return None, None
            B[s], W[s] = a, w
    ctx.ev("samples", count)
    return B, W


def topology(ctx, S, B, sl, key):
    """Macro graph of every sample, frequencies, joint law inside small links,
    independence of links and of samples."""
    count = len(B)
    G = np.zeros((S.M, S.n))
    G[S.groups, np.arange(S.n)] = 1
    macro = np.einsum("ai,kij,bj->kab", G, B.astype(float), G, optimize=True) > 0
    ctx.ev("macro_links_observed", int(macro.sum()))
    bad = (macro != (S.A > 0)[None]).any(axis=0)
    ctx.check(not bad.any(), key + ":macro", "aggregated sample differs from the observed coarse-grained graph",
              at=np.argwhere(bad)[:5], samples=(macro != (S.A > 0)[None]).any(axis=(1, 2)).sum())
    if not sl:
        ctx.check(not B[:, np.arange(S.n), np.arange(S.n)].any(), key + ":selfloop", "disabled self-loop sampled")
    P = S.P(sl)
    c = B.sum(axis=0)
    ctx.check(not c[P == 0].any(), key + ":impossible_edge", at=np.argwhere((P == 0) & (c > 0))[:5])
    ctx.check((c[P >= 1 - 1e-15] == count).all(), key + ":certain_edge")
    mid = (P > 0) & (P < 1 - 1e-15)
    if mid.any():
        bad = stats.binom_bad(c[mid], count, P[mid], mid.sum())
        ctx.check(not bad.any(), key + ":frequency", "edge frequency incompatible with the conditioned probability",
                  freq=(c[mid] / count)[bad][:5], prob=P[mid][bad][:5], samples=count)
    # joint law inside links with few possible pairs
    T = S.T(sl)
    zs = []
    for a, b in np.argwhere(S.A > 0):
        blk = np.argwhere((S.groups[:, None] == a) & (S.groups[None, :] == b) & (T > 0))
        k = len(blk)
        X = B[:, blk[:, 0], blk[:, 1]]
        if 2 <= k <= 5 and 0 < S.d < np.inf:
            t = S.d * T[blk[:, 0], blk[:, 1]]
            conf = np.array(list(itertools.product([False, True], repeat=k)))[1:]
            w = np.prod(np.where(conf, -np.expm1(-t), np.exp(-t)), axis=1)
            if w.sum() > 0:
                w = w / w.sum()
                code = X @ (1 << np.arange(k))
                obs = np.array([(code == int(f @ (1 << np.arange(k)))).sum() for f in conf])
                bad = stats.binom_bad(obs, count, np.minimum(w, 1), len(w))
                ctx.ev("configurations_checked", len(conf))
                ctx.check(not bad.any(), key + ":joint", "joint distribution of the edges of a macro link",
                          freq=(obs / count)[bad][:4], prob=w[bad][:4])
        s = X.sum(axis=1).astype(float)
        v = s.var()
        if v > .02:
            zs.append((s - s.mean()) / np.sqrt(v))
    if count >= 300 and len(zs) > 1:
        Z = np.clip(np.array(zs), -6, 6)
        R = Z @ Z.T / np.sqrt(count)
        np.fill_diagonal(R, 0)
        ctx.check(np.abs(R).max() < 9, key + ":link_correlation", "edge counts of two macro links correlated (%.1f sd)" % np.abs(R).max())
    if count >= 300 and zs:
        Z = np.clip(np.array(zs), -6, 6)
        r = np.abs((Z[:, 1:] * Z[:, :-1]).sum(axis=1) / np.sqrt(count - 1)).max()
        ctx.check(r < 9, key + ":serial_correlation", "successive samples correlated (%.1f sd)" % r)


def wagg(ctx, S, B, W, so, si, key):
    for a, b in np.argwhere(S.A > 0):
        blk = (S.groups[:, None] == a) & (S.groups[None, :] == b)
        w = np.where(B & blk, W, 0.0)
        if not ctx.check(np.allclose(w.sum(axis=(1, 2)), S.A[a, b], rtol=1e-10, atol=0), key + ":total",
                         "weights of a macro link do not sum to the observed weight", link=(a, b)):
            continue
        ss = np.where(B & blk, np.outer(so, si)[None], 0.0)
        e = ss / ss.sum(axis=(1, 2))[:, None, None] * S.A[a, b]
        ctx.check(np.allclose(w, e, rtol=1e-9, atol=0), key + ":split", "weights not proportional to the strengths")
    ctx.check(not np.any(W[~B]) and np.all(W[B] > 0), key + ":positive")


def run(ctx):
    shard = int(ctx.job.split("#")[1])
    for i in range(14 if ctx.quick else 150):
        cid = "cond-%d" % i
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        S = cspec(rng, n=int(rng.choice([1, 2, 4, 6, 8])), dens=float(rng.choice([.6, 1.0])), spread=.7,
                  scale=[None, "mid", "tiny", "zero", "small", "high", "mid"][i % 7])
        fmt = FMT[int(rng.integers(len(FMT)))]
        count = 1200 if ctx.quick else 6000
        sl = S.selfloops
        with ctx.case(cid, dict(S.info(), samples=count), nontrivial=S.A.any()):
            m = ctx.call(KEY + ":build", S.build, fmt)
            B, W = draw(ctx, m, S, KEY + ":binary", count, sl)
            if B is None:
                continue
            topology(ctx, S, B, sl, KEY + ":binary")
            ctx.check((W == B).all(), KEY + ":binary:weights", "unweighted sample has weights other than one")
            if not S.A.any():
                continue
            # the other choice of self-loops, where the observed graph allows it
            if (S.blocks(S.T(not sl))[S.A > 0] > 0).all() and S.kappa(not sl) < 1e6:
                B, W = draw(ctx, m, S, KEY + ":selfloops_arg", count // 4, not sl, selfloops=not sl)
                if B is not None:
                    topology(ctx, S, B, not sl, KEY + ":selfloops_arg")
            # aggregate weights
            so, si = 10 ** rng.uniform(-1, 2, S.n), 10 ** rng.uniform(-1, 2, S.n)
            B, W = draw(ctx, m, S, KEY + ":wagg", count // 4, sl, weights="wagg", out_strength=so.copy(), in_strength=si.copy())
            if B is not None:
                topology(ctx, S, B, sl, KEY + ":wagg")
                wagg(ctx, S, B, W, so, si, KEY + ":wagg")
            B, W = draw(ctx, m, S, KEY + ":wagg_default", count // 8, sl, weights="wagg")
            if B is not None:
                wagg(ctx, S, B, W, S.x, S.y, KEY + ":wagg_default")
            # strength preserving weights
            si = si * so.sum() / si.sum()
            B, W = draw(ctx, m, S, KEY + ":cremb", count, sl, weights="cremb", out_strength=so.copy(), in_strength=si.copy())
            if B is not None:
                topology(ctx, S, B, sl, KEY + ":cremb")
                P = S.P(sl)
                with np.errstate(all="ignore"):
                    mean = np.where(P > 0, np.outer(so, si) / so.sum() / P, 0.0)
                ctx.check(not np.any(W[~B]) and np.all(W[B] > 0), KEY + ":cremb:positive")
                check_exponential(ctx, W, B, mean, KEY + ":cremb")
            if S.y.sum() > 0 and S.x.sum() > 0:
                S.y = S.y * (S.x.sum() / S.y.sum())
                m = ctx.call(KEY + ":build", S.build, fmt)
                B, W = draw(ctx, m, S, KEY + ":cremb_default", count // 4, sl, weights="cremb")
                if B is not None:
                    P = S.P(sl)
                    with np.errstate(all="ignore"):
                        mean = np.where(P > 0, np.outer(S.x, S.y) / S.x.sum() / P, 0.0)
                    check_exponential(ctx, W, B, mean, KEY + ":cremb_default")
            ctx.refuses(KEY + ":unequal_totals", m.sample, weights="cremb", out_strength=so, in_strength=si * 1.01)
            ctx.refuses(KEY + ":unknown_scheme", m.sample, weights="nonsense")
