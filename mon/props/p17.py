"""Distributed results under any partitioning, scheduling and task failures."""
import numpy as np

from .. import backends as bk
from .. import chaos, oracle, stats
from ..core import todense
from ..mcommon import ALL, MULTI, FORMATS, Spec, local, spec
from .p06 import expectations
from .p07 import DIRS, compare, ratio
from .p08 import masks
from .p10 import likely, ref2d, ref3d
from .p11 import design, draw
from .p22 import counts, separated

MASTERS = ["local[1,4]", "local[4,4]", "local[3,4]", "local[2,4]", "local[1,4]", "local[6,4]"]


def deterministic(ctx, m, S, rng, key, light=False):
    """Every deterministic answer against the reference."""
    if light:  # every job has hundreds of tasks: one answer per kind of block loop
        P = S.P()
        for name, exp in (("expected_num_edges", P.sum()), ("expected_degree", oracle.exp_degrees(P)[0])):
            r = ctx.trycall(key + ":" + name, getattr(m, name))
            if r is not None:
                ctx.close(r, exp, key + ":" + name, rtol=1e-9, atol=1e-11)
        A = likely(np.where(P < 1e-6, 0.0, P), rng)
        A |= P >= 1
        th = np.array(separated(P, rng, 2) + [0.0])
        r = ctx.trycall(key + ":confusion", m.confusion_matrix, A, th)
        if r is not None:
            ctx.close(np.stack([np.asarray(c) for c in r]), counts(P, A, th, S.selfloops)[0], key + ":confusion", rtol=0, atol=0)
        return
    expectations(ctx, m, S, key, order=rng)
    prop = rng.normal(size=S.n)
    for nd in [DIRS[k] for k in rng.permutation(3)[:2]]:
        sl = bool(rng.integers(2))
        r = ctx.trycall(key + ":av_nn", m.expected_av_nn_property, prop, ndir=nd, selfloops=sl)
        if r is not None:
            exp, tol, d = ratio(S.P(sl), prop, nd, S.L if S.multi else 1)
            compare(ctx, r, exp, tol, d, "%s:av_nn:%s" % (key, nd), S.L if S.multi else 1)
    P = S.P()
    A = likely(np.where(P < 1e-6, 0.0, P), rng)
    A |= P >= 1
    v = ctx.trycall(key + ":log_likelihood", m.log_likelihood, A)
    if v is not None:
        ctx.close(v, ref2d(S, A, S.selfloops), key + ":log_likelihood", rtol=1e-8, atol=1e-7)
    if S.multi:
        A3 = likely(S.PL(), rng)
        v = ctx.trycall(key + ":log_likelihood_layers", m.log_likelihood, A3)
        if v is not None:
            ctx.close(v, ref3d(S, A3, S.selfloops), key + ":log_likelihood_layers", rtol=1e-8, atol=1e-7)
    th = np.array(separated(P, rng, 3) + [0.0])
    r = ctx.trycall(key + ":confusion", m.confusion_matrix, A, th)
    if r is not None:
        ctx.close(np.stack([np.asarray(c) for c in r]), counts(P, A, th, S.selfloops)[0], key + ":confusion", rtol=0, atol=0)


def fitted(ctx, m, S, target, per, key):
    ctx.call(key + ":fit", m.fit)
    par = np.atleast_1d(np.asarray(m.param, float))
    if S.cls == "RandomDiGraph":
        R = Spec(S.cls, S.n, S.selfloops, par[:1])
        ctx.close(R.P().sum(), target[0], key + ":fit_target", rtol=1e-9)
        return par[:1]
    R = Spec(S.cls, S.n, S.selfloops, par, S.x, S.y, S.L)
    got = R.PL().sum(axis=(1, 2)) if per else np.array([R.P().sum()])
    ctx.close(got, target, key + ":fit_target", rtol=3e-9, atol=1e-12)
    return par


def cross(X, Y):
    """Agreement of the +-1/0 matrices X and shifted Y, all shifts, with the overlap sizes."""
    s = [2 * k for k in X.shape]
    F = lambda a: np.fft.rfft2(a, s)
    c = np.fft.irfft2(F(X) * np.conj(F(Y)), s)
    w = np.fft.irfft2(F(np.abs(X)) * np.conj(F(np.abs(Y))), s)
    return np.round(c), np.round(w)


def streams(ctx, A, key):
    """A: (samples, layers, n, n) bits of probability one half off the diagonal.
    No part of a sample may repeat, shifted, in the same, another layer's or
    another sample's bits."""
    S, L, n, _ = A.shape
    B = np.where(A, 1.0, -1.0)
    for i in range(n):
        B[:, :, i, i] = 0.0
    worst = 0.0
    lags = [(k, a, b) for k in range(0, min(3, S)) for a in range(L) for b in range(L) if k > 0 or a <= b]
    for k, a, b in lags:
        C, W = 0.0, 0.0
        for s in range(S - k):
            c, w = cross(B[s, a], B[s + k, b])
            C, W = C + c, W + w
        ok = W >= 40
        if k == 0 and a == b:
            ok[0, 0] = False
        z = np.zeros_like(W)
        z[ok] = C[ok] / np.sqrt(W[ok])
        ctx.ev("shifts_compared", int(ok.sum()))
        j = np.unravel_index(np.argmax(np.abs(z)), z.shape)
        worst = max(worst, abs(z[j]))
        ctx.check(abs(z[j]) < 8.5, "%s:streams:%s" % (key, "same_sample" if k == 0 else "successive_samples"),
                  "random bits repeat at shift %s (z=%.1f)" % (tuple(int(x) for x in j), z[j]), layers=[a, b], lag=k)
    ctx.extra["largest_stream_correlation_z"] = max(worst, ctx.extra.get("largest_stream_correlation_z", 0))


def half(rng, cls, n, L):
    """All probabilities one half."""
    if cls == "RandomDiGraph":
        return Spec(cls, n, False, [.5])
    d = 1.0 if oracle.LAW[cls] == "fit" else float(np.log(2))
    if cls in MULTI:
        return Spec(cls, n, False, [d] * L, np.ones((n, L)), np.ones((n, L)), L)
    return Spec(cls, n, False, [d], np.ones(n), np.ones(n))


def run(ctx):
    shard = int(ctx.job.split("#")[1])
    cls = ALL[shard % 5]
    sc = bk.sc() if local(ctx) else chaos.install(delay=.015, fail=.1, salt=ctx.seed * 101 + shard, master=MASTERS[(shard + ctx.seed - 1) % 6])
    tasks = fails = 0
    orders = set()

    def tally():
        nonlocal tasks, fails
        t, f, o = chaos.drain()
        tasks, fails = tasks + t, fails + f
        orders.update(o)
    sizes = [1, 2, 3, 11, 20, 23, 31, 41, 64, 85]
    for i in range((40 if ctx.quick else 600) if local(ctx) else 3 if ctx.quick else 60):
        cid = "%s-%d" % (cls, i)
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        many = i == 1 or i % 9 == 8  # more blocks than vertices in a block
        n = 41 if i == 0 else int(rng.choice([120, 131] if ctx.quick else [120, 131, 155, 170])) if many else int(rng.choice(sizes))
        S = spec(rng, cls, n=n, mode=str(rng.choice(["mid", "mid", "sparse", "dense"])))
        # some blocks empty of fitness
        if n > 20 and cls != "RandomDiGraph" and rng.random() < .4:
            S.x[: n // 3] = 0
        bl = [None] + [int(b) for b in rng.permutation([1, 2, 3, 4, 5, 6, 7, 8, n, 3 * n])[:1 if ctx.quick and not local(ctx) else 2]]
        if many:
            bl = [n // 10]
        with ctx.case(cid, dict(S.info(), p_blocks=bl, master=sc.master), nontrivial=n > 1):
            for b in bl:
                chaos.ON["active"] = bool(rng.random() < .8) and not many
                m = ctx.call(cls + ":build", S.build, "spark", rng, str(rng.choice(FORMATS)) if S.multi else None, p_blocks=b)
                deterministic(ctx, m, S, rng, cls, light=many and ctx.quick and not local(ctx))
                tally()
            # fits
            if n > 2 and (i == 0 or local(ctx) or not ctx.quick) and not many:
                per = S.multi and bool(rng.integers(2))
                if cls == "RandomDiGraph":
                    t = np.array([float(rng.uniform(0, n * (n - 1)))])
                else:
                    mk = masks(S)
                    top = mk.sum(axis=(1, 2)) if per else np.array([(mk.any(axis=0) if S.multi else mk).sum()])
                    t = top * rng.uniform(.02, .8, len(top))
                kw = dict(num_edges_label=t, per_label=True) if per else dict(num_edges=float(t[0]))
                if S.multi and not per:
                    kw["per_label"] = False
                pars = []
                for b in bl[:2]:
                    m = ctx.call(cls + ":build", S.build, "spark", rng, p_blocks=b, param=None, **kw)
                    pars.append(fitted(ctx, m, S, t, per, cls))
                    tally()
                if pars[0].shape == pars[1].shape:
                    ctx.close(pars[1], pars[0], cls + ":fit_partitioning", rtol=1e-6)
    # samples
    for i in range((4 if ctx.quick else 40) if local(ctx) else 1 if ctx.quick else 8):
        for what in ("law", "streams", "certain"):
            cid = "%s-%s-%d" % (what, cls, i)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            chaos.ON["active"] = bool(rng.random() < .7)
            n = int(rng.choice([40, 43]))
            b = int(rng.integers(2, 5))
            if what == "streams":
                S = half(rng, cls, n, 3)
                with ctx.case(cid, dict(cls=cls, n=n, p_blocks=b, what=what, master=sc.master)):
                    m = ctx.call(cls + ":build", S.build, "spark", p_blocks=b)
                    A = draw(ctx, m, S, cls, 10 if ctx.quick else 40)
                    if A is not None:
                        streams(ctx, A if S.multi else A[:, None], cls)
            elif what == "law":
                S = design(rng, cls, n, bool(rng.integers(2)))
                with ctx.case(cid, dict(S.info(), p_blocks=b, what=what, master=sc.master)):
                    m = ctx.call(cls + ":build", S.build, "spark", rng, p_blocks=b)
                    A = draw(ctx, m, S, cls, 10 if ctx.quick else 60)
                    if A is not None:
                        stats.check_law(ctx, A, S.PL() if S.multi else S.P(), cls + ":law", serial=False)
            else:
                S = half(rng, cls, n, 2)
                S.param = np.array([1.0]) if cls == "RandomDiGraph" else np.full(len(S.param), np.inf)
                S.selfloops = bool(rng.integers(2))
                with ctx.case(cid, dict(cls=cls, n=n, p_blocks=b, what=what, selfloops=S.selfloops)):
                    m = ctx.call(cls + ":build", S.build, "spark", rng, p_blocks=b)
                    kw = {}
                    if rng.random() < .5:
                        kw["weights"] = "cremb"
                        if cls == "RandomDiGraph":
                            kw.update(out_strength=np.ones(n), in_strength=np.ones(n))
                    g = ctx.call(cls + ":certain", m.sample, **kw)
                    E = S.PL() if S.multi else S.P()
                    ctx.close(stats.adjacency(g, S.multi).astype(float), E, cls + ":every_pair_once", rtol=0, atol=0)
                    if not S.multi:
                        ctx.close(ctx.call(cls + ":num_edges", g.num_edges), E.sum(), cls + ":every_pair_counted_once")
            tally()
    chaos.remove()
    ctx.ev("tasks_run_under_injection", tasks)
    ctx.ev("task_attempts_failed", fails)
    ctx.ev("distinct_completion_orders", len(orders))
    ctx.extra["master"] = sc.master
