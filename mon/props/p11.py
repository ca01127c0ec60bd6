"""Samples follow the model's edge probabilities."""
import numpy as np

from .. import stats
from ..core import quiet
from ..mcommon import ALL, MULTI, FORMATS, Spec, backend_of, spec, local, owns, slow


def design(rng, cls, n, selfloops, L=2):
    """A model with impossible, certain and intermediate pairs."""
    if cls == "RandomDiGraph":
        return Spec(cls, n, selfloops, [float(rng.uniform(.1, .9))], kind="mid")

    def fit():
        f = 10 ** rng.uniform(-0.7, 0.7, n)
        f[int(rng.integers(n))] = 0.0
        if rng.random() < .5:
            f[int(rng.integers(n))] = 1e9
        return f
    if cls in MULTI:
        X = np.stack([fit() for _ in range(L)], axis=1)
        Y = np.stack([fit() for _ in range(L)], axis=1)
        pr = 10 ** rng.uniform(-.8, .5, L) if rng.random() < .6 else [10 ** rng.uniform(-.8, .5)]
        return Spec(cls, n, selfloops, pr, X, Y, L, "designed")
    return Spec(cls, n, selfloops, [10 ** rng.uniform(-.8, .5)], fit(), fit(), 1, "designed")


def draw(ctx, m, S, key, count, **kw):
    out = np.zeros((count, S.L, S.n, S.n) if S.multi else (count, S.n, S.n), dtype=bool)
    with quiet():
        for s in range(count):
            g = ctx.call(key + ":sample", m.sample, **kw)
            a = stats.adjacency(g, S.multi)
            if not ctx.check(a.shape == out.shape[1:], key + ":shape", got=a.shape):
                return None
            out[s] = a
    ctx.ev("samples", count)
    return out


def run(ctx):
    backend = backend_of(ctx)
    spark = slow(ctx)
    shard = int(ctx.job.split("#")[1])
    reps = (2 if ctx.quick else 10) if not spark else (1 if ctx.quick else 3)
    for r in range(reps):
        for ci, cls in enumerate(ALL):
            if spark and ctx.quick and ci % 3 != shard or not owns(ctx, cls):
                continue
            for sl in (False, True):
                cid = "law-%s-%d-%d" % (cls, r, sl)
                if not ctx.wanted(cid):
                    continue
                rng = ctx.case_rng(cid)
                if spark:
                    n, count = 24, (28 if ctx.quick else 60)
                elif local(ctx):
                    n, count = (24, 120 if ctx.quick else 800) if r % 2 else (int(rng.integers(6, 11)), 700 if ctx.quick else 5000)
                else:
                    n, count = int(rng.integers(6, 11)), (2500 if ctx.quick else 12000)
                S = design(rng, cls, n, sl)
                fmt = str(rng.choice(FORMATS)) if S.multi and backend != "dense" else None
                with ctx.case(cid, dict(S.info(), samples=count)):
                    m = ctx.call(cls + ":build", S.build, backend, rng, fmt, p_blocks=int(rng.integers(1, 4)) if backend == "spark" else None)
                    A = draw(ctx, m, S, cls, count)
                    if A is not None:
                        stats.check_law(ctx, A, S.PL() if S.multi else S.P(), cls)
                        if S.multi:
                            stats.check_law(ctx, A.any(axis=1), S.P(), cls + ":projected")
                    # the self-loop choice of the call prevails
                    few = count // 3 if not spark else 10
                    A = draw(ctx, m, S, cls + ":selfloops_arg", few, selfloops=not sl)
                    if A is not None:
                        stats.check_law(ctx, A, S.PL(not sl) if S.multi else S.P(not sl), cls + ":selfloops_arg")
    # degenerate ensembles: empty, complete, single vertex
    for cls in ALL:
        if spark and ctx.quick and ALL.index(cls) % 3 != shard or not owns(ctx, cls):
            continue
        for what in ("empty", "complete", "single", "two", "sparse"):
            cid = "edge-%s-%s" % (cls, what)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            n = {"single": 1, "two": 2}.get(what, 5)
            S = design(rng, cls, n, bool(rng.integers(2)))
            if what == "empty":
                S.param = np.zeros(1) if not S.multi else np.zeros(S.L)
            elif what == "complete":
                S.param = np.ones(1) if cls == "RandomDiGraph" else np.full(S.L if S.multi else 1, 1e30)
            elif what == "sparse" and cls != "RandomDiGraph":
                S.param = S.param * 1e-7
                S.x, S.y = np.minimum(S.x, 10), np.minimum(S.y, 10)
            if what in ("single", "two") and cls != "RandomDiGraph":
                S.x, S.y = np.where(S.x == 0, 1.0, S.x), np.where(S.y == 0, 1.0, S.y)
            with ctx.case(cid, S.info()):
                m = ctx.call(cls + ":" + what + ":build", S.build, backend, rng)
                A = draw(ctx, m, S, cls + ":" + what, 400 if backend != "spark" else 50 if local(ctx) else 2)
                if A is not None:
                    stats.check_law(ctx, A, S.PL() if S.multi else S.P(), cls + ":" + what)
