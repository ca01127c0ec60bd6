"""Edge-probability law, observed pair by pair through models whose only sink
(or only source) is one vertex: the expected degree of every other vertex is
then a single edge probability."""
import numpy as np

from .. import oracle
from ..core import todense
from ..mcommon import ALL, MULTI, SIMPLE, Spec, backend_of, scale, local, owns, slow

# far tails included: the law must hold from underflow to overflow
GRID = np.concatenate([[0.0], 10.0 ** np.linspace(-280, -20, 14), 10.0 ** np.linspace(-19, 6, 51), [300., 700., 745., 800.],
                       10.0 ** np.linspace(7, 290, 15)])


def observe(ctx, backend, cls, xs, y, d, sink, L=1, key="", **bkw):
    """p(xs[i] -> y) for i, observed as expected out-degrees; and as in-degrees."""
    n = len(xs) + 1
    if cls in MULTI:
        X, Y = np.zeros((n, L)), np.zeros((n, L))
    else:
        X, Y = np.zeros((n, 1)), np.zeros((n, 1))
    src = [i for i in range(n) if i != sink]
    X[src] = np.asarray(xs, float).reshape(len(xs), -1)
    Y[sink] = y
    if cls not in MULTI:
        X, Y = X[:, 0], Y[:, 0]
    S = Spec(cls, n, False, d, X, Y, L)
    m = ctx.call(key + ":build", S.build, backend, **bkw)
    o = np.asarray(ctx.call(key + ":expected_out_degree", m.expected_out_degree), float)
    # mirrored: the only source is `sink`
    S2 = Spec(cls, n, False, d, Y, X, L)
    m2 = ctx.call(key + ":build", S2.build, backend, **bkw)
    i = np.asarray(ctx.call(key + ":expected_in_degree", m2.expected_in_degree), float)
    if not ctx.check(o.shape == (n,) and i.shape == (n,), key + ":shape"):
        return None
    ctx.check(o[sink] == 0 and i[sink] == 0, key + ":self_probability", "self pair has probability without self-loops")
    return o[src], i[src], m


def valid(ctx, p, key):
    ctx.check(np.all(np.isfinite(p)) and np.all(p >= 0) and np.all(p <= 1 + 1e-12), key + ":in_unit_interval",
              "not a probability", got=p)


def run(ctx):
    backend = backend_of(ctx)
    N = scale(ctx, 40, 600, 3, 20)
    for c in range(N):
        for cls in SIMPLE + MULTI:
            cid = "law-%s-%d" % (cls, c)
            if not owns(ctx, cls) or not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            law = oracle.LAW[cls]
            k = int(rng.integers(20, 60)) if not slow(ctx) else 17
            t = np.concatenate([rng.choice(GRID, k // 2), 10.0 ** rng.uniform(-12, 3, k - k // 2)])
            sink = int(rng.integers(k + 1))
            if cls in SIMPLE:
                d = float(10.0 ** rng.uniform(-8, 8))
                y = float(10.0 ** rng.uniform(-4, 4))
                xs = t / (d * y)
                L = 1
                D = [d]
                with np.errstate(all="ignore"):
                    ref = oracle.pfun(law, d * xs * y)
            else:
                L = int(rng.integers(1, 5))
                D = 10.0 ** rng.uniform(-8, 8, L) if rng.random() < .6 else 10.0 ** rng.uniform(-8, 8, 1)
                DD = np.broadcast_to(D, (L,))
                y = 10.0 ** rng.uniform(-4, 4, L)
                T = np.stack([rng.permutation(t) for _ in range(L)], axis=1)
                T[rng.random(T.shape) < 0.4] = 0
                xs = T / (DD * y)
                if rng.random() < .5:
                    y = y * (rng.random(L) < .7)
                    if not y.any():
                        y[0] = 1.0
                with np.errstate(all="ignore"):
                    ref = 1 - np.prod(1 - oracle.pfun(law, DD * xs * y), axis=1)
            with ctx.case(cid, dict(cls=cls, d=D, y=y, L=L, sink=sink, k=k, xs=xs[:10])):
                r = observe(ctx, backend, cls, xs, y, D, sink, L, cls)
                if r is None:
                    continue
                po, pi, m = r
                valid(ctx, po, cls)
                valid(ctx, pi, cls)
                tol = dict(rtol=1e-11, atol=1e-300) if cls in SIMPLE else dict(rtol=1e-11, atol=4e-15)
                ctx.close(po, ref, cls + ":law", **tol)
                ctx.close(pi, ref, cls + ":law_in", **tol)
                ctx.ev("probabilities_observed", 2 * len(po))
                # monotone in the fitness
                if cls in SIMPLE:
                    o = np.argsort(xs, kind="stable")
                    ctx.check(np.all(np.diff(po[o]) >= -1e-15), cls + ":monotone_fitness")
                # growing the parameter (up to infinity) never lowers a probability
                prev = po
                for f in (10.0, 1e4, np.inf):
                    r2 = observe(ctx, backend, cls, xs, y, np.asarray(D) * f, sink, L, cls + (":inf" if f == np.inf else ""))
                    if r2 is None:
                        break
                    valid(ctx, r2[0], cls + ":grow")
                    ctx.check(np.all(r2[0] >= prev - 1e-15), cls + ":monotone_param", factor=f)
                    prev = r2[0]
                    if slow(ctx):
                        break
                if not slow(ctx):
                    pos = (xs > 0) if cls in SIMPLE else np.any((xs > 0) & (np.asarray(y) > 0), axis=1)
                    ctx.close(prev, pos.astype(float), cls + ":limit", rtol=0, atol=0)
                    r0 = observe(ctx, backend, cls, xs, y, np.asarray(D) * 0, sink, L, cls + ":zero")
                    if r0 is not None:
                        ctx.close(r0[0], np.zeros(len(xs)), cls + ":zero_param", rtol=0, atol=0)
                # aggregation invariance: merging sources with added fitness
                if law == "inv" and not slow(ctx) or (law == "inv" and c == 0):
                    g = rng.integers(0, 4, len(xs))
                    keep = (ref < 1 - 1e-9) & (ref > 1e-250) if cls in SIMPLE else (ref < 1 - 1e-9)
                    if keep.sum() > 3:
                        xm = np.stack([np.asarray(xs)[keep & (g == a)].sum(axis=0) for a in range(4)])
                        rm = observe(ctx, backend, cls, xm, y, D, int(rng.integers(5)), L, cls + ":merged")
                        exp = np.array([-np.expm1(np.log1p(-po[keep & (g == a)]).sum()) for a in range(4)])
                        if rm is not None:
                            ctx.close(rm[0], exp, cls + ":merge_invariance", rtol=1e-7, atol=1e-13)
    # integer fitnesses and constant law
    for c in range(scale(ctx, 20, 200, 2, 6)):
        cid = "random-%d" % c
        if not owns(ctx, "RandomDiGraph") or not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        n = int(rng.integers(2, 12))
        p = float(rng.choice([0.0, 1.0, rng.random(), 10.0 ** rng.uniform(-12, 0)]))
        with ctx.case(cid, dict(n=n, p=p)):
            for sl in (True, False):
                S = Spec("RandomDiGraph", n, sl, [p])
                m = ctx.call("RandomDiGraph:build", S.build, backend)
                k = n if sl else n - 1
                for f in ("expected_out_degree", "expected_in_degree"):
                    d = np.asarray(ctx.call("RandomDiGraph:" + f, getattr(m, f)), float)
                    ctx.close(d / k, np.full(n, p), "RandomDiGraph:constant", rtol=1e-12, atol=0)
        cid = "int-%d" % c
        if slow(ctx) or not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        with ctx.case(cid, dict()):
            xs = rng.integers(0, 40, 15)
            for cls in SIMPLE:
                X, Y = np.zeros(16, dtype=np.int64), np.zeros(16, dtype=np.int64)
                X[:15], Y[15] = xs, 7
                S = Spec(cls, 16, False, [0.013], X, Y)
                m = ctx.call(cls + ":build", S.build, backend)
                ctx.close(ctx.call(cls + ":expected_out_degree", m.expected_out_degree),
                          S.P().sum(axis=1), cls + ":integer_fitness", rtol=1e-12)
