"""Confusion matrices of the distributed models."""
import numpy as np
import scipy.sparse as sp

from ..core import quiet
from ..mcommon import ALL, FORMATS, Spec, scale, spec, local, owns, slow
from .p10 import forms


def counts(P, A, th, sl):
    ok = np.ones(P.shape, bool)
    if not sl:
        np.fill_diagonal(ok, False)
    p, a = P[ok], A[ok]
    return np.array([[(a & (p >= t)).sum(), (~a & (p >= t)).sum(), (~a & (p < t)).sum(), (a & (p < t)).sum()] for t in th]).T, ok


def separated(P, rng, k):
    """Thresholds that no probability equals up to rounding."""
    v = np.unique(P[(P > 0) & (P < 1)])
    c = list(rng.random(k))
    if len(v) > 1:
        i = rng.integers(len(v) - 1, size=k)
        c += list(np.sqrt(v[i] * v[i + 1]))
    if len(v):
        c += [v[0] * .5, min(1.0, v[-1] * 1.001)]
        c = [t for t in c if np.min(np.abs(v / t - 1)) > 1e-8 and np.min(np.abs(v - t)) > 1e-14]
    return c


def shapes(ctx, r, k, key):
    if not ctx.check(isinstance(r, tuple) and len(r) == 4, key + ":four_counts"):
        return None
    r = [np.asarray(v) for v in r]
    if not ctx.check(all(v.shape == (k,) for v in r), key + ":one_per_threshold", got=[v.shape for v in r], expected=k):
        return None
    return np.stack(r)


def invariants(ctx, C, th_sorted, A, ok, key):
    """C ordered by increasing threshold."""
    ctx.check((C.sum(axis=0) == ok.sum()).all(), key + ":sum_is_pairs", got=C.sum(axis=0), expected=ok.sum())
    ctx.check((C[0] + C[3] == (A & ok).sum()).all(), key + ":positives_are_edges")
    ctx.check((np.diff(C[0] + C[1]) <= 0).all(), key + ":predictions_decrease", got=C)
    ctx.check((C >= 0).all(), key + ":non_negative")


def run(ctx):
    blocks = [1, 2, 3, 4, 5, 7, 10]
    mine = [ALL[int(ctx.job.split("#")[1]) % len(ALL)]]  # compiled code is per class: one class per worker
    for i in range(scale(ctx, 100, 1500, 6, 100)):
        for cls in mine:
            cid = "%s-%d" % (cls, i)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            n = int(rng.choice([1, 2, 5, 13, 31, 52, 70]))
            S = spec(rng, cls, n=n, mode=str(rng.choice(["sparse", "mid", "mid", "dense", "sat"])))
            pb = int(rng.choice(blocks))
            with ctx.case(cid, dict(S.info(), p_blocks=pb), nontrivial=n > 1):
                m = ctx.call(cls + ":build", S.build, "spark", rng, str(rng.choice(FORMATS)) if S.multi else None, p_blocks=pb)
                A = rng.random((n, n)) < float(rng.choice([0, .1, .4, .9]))
                f = forms("spark", A, rng)
                nm = str(rng.choice(list(f)))
                for sl in (None, not S.selfloops):
                    eff = S.selfloops if sl is None else sl
                    P = S.P(eff)
                    th = separated(P, rng, 6) + [0.0, 1.5]
                    th = np.array([th[k] for k in rng.permutation(len(th))])
                    with quiet():
                        g = f[nm]() if callable(f[nm]) else f[nm]
                    key = "%s%s" % (cls, "" if sl is None else ":selfloops_arg")
                    r = ctx.call(key + ":" + nm, m.confusion_matrix, g, th, **({} if sl is None else {"selfloops": sl}))
                    C = shapes(ctx, r, len(th), key)
                    if C is None:
                        continue
                    E, ok = counts(P, A, th, eff)
                    ctx.close(C, E, key + ":counts", rtol=0, atol=0, thresholds=th, graph=A.astype(int))
                    o = np.argsort(th, kind="stable")
                    invariants(ctx, C[:, o], th[o], A, ok, key)
                # automatic thresholds
                num = None if rng.random() < .5 else int(rng.integers(2, 30))
                r = ctx.call(cls + ":automatic", m.confusion_matrix, A, *([] if num is None else [num]))
                C = shapes(ctx, r, 20 if num is None else num, cls + ":automatic")
                if C is not None:
                    _, ok = counts(S.P(), A, [0.5], S.selfloops)
                    invariants(ctx, C, None, A, ok, cls + ":automatic")
                ctx.check(bool(m.selfloops) == S.selfloops, cls + ":setting_kept")
                ctx.refuses(cls + ":wrong_size", m.confusion_matrix, np.zeros((n + 1, n + 1), bool), np.array([.5]))
                ctx.refuses(cls + ":not_a_graph", m.confusion_matrix, "graph", np.array([.5]))
                ctx.refuses(cls + ":not_thresholds", m.confusion_matrix, A, "high")
    # a probability equal to the threshold is a prediction: exactly representable probabilities
    for c in range(scale(ctx, 40, 400, 2, 30)):
        cid = "ties-%d" % c
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        n = int(rng.integers(3, 26))
        with ctx.case(cid, dict(n=n)):
            for cls in mine:
                if cls not in ("RandomDiGraph", "FitnessModel", "MultiFitnessModel"):
                    continue
                sl = bool(rng.integers(2))
                if cls == "RandomDiGraph":
                    S = Spec(cls, n, sl, [float(rng.choice([.25, .5, 1.0]))])
                elif cls == "FitnessModel":
                    S = Spec(cls, n, sl, [1.0], rng.choice([0., 1., 3.], n), np.ones(n))
                else:
                    X = np.zeros((n, 2))
                    X[np.arange(n), rng.integers(2, size=n)] = rng.choice([1., 3.], n)
                    S = Spec(cls, n, sl, [1.0, 1.0], X, np.ones((n, 2)), 2)
                A = rng.random((n, n)) < .4
                th = np.array([1.0, .75, .5, .25, .125])
                m = ctx.call(cls + ":build", S.build, "spark", p_blocks=int(rng.choice(blocks)))
                C = shapes(ctx, ctx.call(cls + ":ties", m.confusion_matrix, sp.csr_array(A), th), 5, cls)
                if C is not None:
                    ctx.close(C, counts(S.P(), A, th, sl)[0], cls + ":ties", rtol=0, atol=0, thresholds=th)
    # use before fitting
    cid = "unfitted"
    if ctx.wanted(cid):
        rng = ctx.case_rng(cid)
        with ctx.case(cid, {}):
            for cls in mine:
                S = spec(rng, cls, n=6, mode="mid")
                m = ctx.call(cls + ":build", S.build, "spark", param=None, num_edges=5)
                ctx.refuses(cls + ":unfitted", m.confusion_matrix, np.zeros((6, 6), bool), np.array([.5]))
