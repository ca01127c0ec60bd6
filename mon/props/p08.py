"""Fits: the target is met and reported as such, or the miss is reported."""
import re

import numpy as np

from .. import backends as bk
from ..condcommon import cspec
from ..core import recorded
from ..mcommon import MULTI, SIMPLE, FORMATS, Spec, backend_of, scale, spec, local, owns, slow


def masks(S):
    """Possible pairs (per label for multi-label models)."""
    if S.multi:
        m = (S.x.T[:, :, None] > 0) & (S.y.T[:, None, :] > 0)
    else:
        m = (S.x[:, None] > 0) & (S.y[None, :] > 0)
    if not S.selfloops:
        m = m & ~np.eye(S.n, dtype=bool)
    return m


def do_fit(ctx, key, m, **kw):
    ctx.ev("calls")
    try:
        with recorded() as w:
            m.fit(**kw)
    except Exception as e:
        from ..core import describe, Stop
        ctx.violation(key + ":raised", "%s: %s" % (type(e).__name__, describe(e)))
        raise Stop()
    return [str(x.message) for x in w if issubclass(x.category, UserWarning)]


def judge(ctx, key, got, target, sols, warned, achievable, rtol, atol, full, params):
    """One entry per target (labels, or the single overall one)."""
    for k in range(len(target)):
        tol = atol + rtol * target[k]
        miss = abs(got[k] - target[k])
        noise = 1e-11 * target[k] + 1e-12
        conv = bool(np.all(sols[k].converged))
        ctx.ev("fits:" + ("converged" if conv else "not converged"))
        ctx.check(np.isfinite(got[k]) and not np.isnan(params[k]) and params[k] >= 0, key + ":valid_parameter", got=params[k])
        if conv:
            ctx.check(miss <= tol + noise, key + ":honest", "reported converged but expected %r instead of %r" % (got[k], target[k]),
                      param=params[k])
        if miss > tol + noise:
            ctx.check(not conv, key + ":miss_reported", "missed target reported as converged")
            ctx.check(warned[k], key + ":warns", "missed target without a warning", target=target[k], got=got[k])
        if achievable[k] and full:
            ctx.check(conv, key + ":converges", "achievable target not reached: %r instead of %r" % (got[k], target[k]),
                      param=params[k], iters=sols[k].n_iter)
            if conv:
                ctx.check(not warned[k], key + ":spurious_warning")
            ctx.ev("achievable_targets")


def run(ctx):
    backend = backend_of(ctx)
    spark = slow(ctx)
    shard = int(ctx.job.split("#")[1])
    # models with a fitted parameter
    for i in range(scale(ctx, 60, 900, 1, 12)):
        for cls in SIMPLE + MULTI:
            cid = "%s-%d" % (cls, i)
            if not owns(ctx, cls) or not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            S = spec(rng, cls, n=int(rng.choice([2, 3, 5, 8, 13, 21])) if not spark else int(rng.choice([2, 5, 13])))
            if rng.random() < .5:
                f = 10.0 ** rng.uniform(-12, 12, 2)
                S.x, S.y = S.x * f[0], S.y * f[1]
            per = S.multi and rng.random() < .6
            mk = masks(S)
            top = mk.sum(axis=(1, 2)).astype(float) if per else np.array([float((mk.any(axis=0) if S.multi else mk).sum())])
            mode = str(rng.choice(["reach", "reach", "reach", "zero", "max", "over"]))
            frac = rng.choice([1e-6, 1e-3, .05, .3, .6, .9, .99, .999, .999999], len(top))
            target = {"reach": top * frac, "zero": top * 0, "max": top.copy(), "over": top * (1 + 10 ** rng.uniform(-3, 1)) + .5}[mode]
            ach = [(mode == "reach" and t > 0) or mode == "zero" for t in top]
            kw = dict(num_edges_label=target.copy(), per_label=True) if per else dict(num_edges=float(target[0]))
            if S.multi and not per:
                kw["per_label"] = False
            args = {}
            u = rng.random()
            if u < .35:
                args["x0"] = float(10.0 ** rng.uniform(-20, 20))
            elif u < .45:
                args["x0"] = [0, 1, 7][int(rng.integers(3))]
            elif u < .6:
                k = S.L if S.multi else 1
                args["x0"] = 10.0 ** rng.uniform(-6, 6, k)
                if rng.random() < .3:
                    args["x0"] = np.ceil(args["x0"]).astype(int)
            rtol, atol = 1e-9, 1e-24
            if rng.random() < .3:
                rtol = float(10 ** rng.uniform(-10, -3))
                args["rtol"] = rtol
            full = True
            if rng.random() < .12:
                args["maxiter"] = int(rng.integers(0, 5))
                full = False
            fmt = str(rng.choice(FORMATS[:6])) if S.multi and backend != "dense" else None
            info = dict(S.info(), target=target, mode=mode, per_label=per, args={k: np.asarray(v).tolist() for k, v in args.items()}, fmt=fmt)
            with ctx.case(cid, info, nontrivial=mode != "zero"):
                key = cls + (":per_label" if per else "")
                m = ctx.call(key + ":build", S.build, backend, rng, fmt, param=None, **kw)
                x0 = args.get("x0")
                keep = x0.copy() if isinstance(x0, np.ndarray) else None
                w = do_fit(ctx, key, m, **args)
                if keep is not None:
                    ctx.check(np.array_equal(x0, keep) and x0.dtype == keep.dtype, key + ":start_untouched")
                par = np.asarray(m.param, float)
                if not ctx.check(par.shape == (S.L,) or (not per and par.shape == (1,)), key + ":parameter_shape", got=par.shape):
                    continue
                R = Spec(cls, S.n, S.selfloops, par, S.x, S.y, S.L)
                got = R.PL().sum(axis=(1, 2)) if per else np.array([R.P().sum()])
                if per:
                    sols = m.solver_output
                    warned = [any(re.search(r"layer %d\b" % k, t) for t in w) for k in range(S.L)]
                else:
                    sols, warned = [m.solver_output], [any("converge" in t for t in w)]
                judge(ctx, key, got, target, sols, warned, ach, rtol, atol, full, par)
                # what the model itself reports afterwards
                if per:
                    e = ctx.trycall(key + ":expected_num_edges_label", m.expected_num_edges_label)
                    if e is not None:
                        ctx.close(e, got, key + ":expected_num_edges_label", rtol=1e-9, atol=1e-11)
                else:
                    e = ctx.trycall(key + ":expected_num_edges", m.expected_num_edges)
                    if e is not None:
                        ctx.close(e, got[0], key + ":expected_num_edges", rtol=1e-9, atol=1e-11)
    # random graph: closed form
    for i in range(scale(ctx, 30, 300, 3, 20)):
        cid = "random-%d" % i
        if not owns(ctx, "RandomDiGraph") or not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        n, sl = int(rng.integers(2, 30)), bool(rng.integers(2))
        pairs = n * n if sl else n * (n - 1)
        E = float(rng.choice([0, 1, pairs, rng.uniform(0, pairs), pairs * (1 + rng.random()) + 1]))
        with ctx.case(cid, dict(n=n, selfloops=sl, num_edges=E)):
            key = "RandomDiGraph"
            m = ctx.call(key + ":build", bk.model, backend, key, num_vertices=n, num_edges=E, selfloops=sl)
            w = do_fit(ctx, key, m)
            p = float(m.param[0])
            ctx.check(0 <= p <= 1, key + ":valid_parameter", got=p)
            if E <= pairs:
                ctx.close(p * pairs, E, key + ":target", rtol=1e-12)
                ctx.close(ctx.call(key + ":expected", m.expected_num_edges), E, key + ":expected_num_edges", rtol=1e-12)
                ctx.check(not w, key + ":spurious_warning", got=w[:2])
            else:
                ctx.check(len(w) > 0, key + ":warns", "impossible target without a warning")
    # conditional model
    if backend == "sparse":
        for i in range(scale(ctx, 40, 600)):
            cid = "conditional-%d" % i
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            S = cspec(rng, n=int(rng.choice([3, 5, 8, 13, 20])), scale="mid")
            links, top = float((S.A > 0).sum()), float((S.P() > 0).sum())
            if not links:
                continue
            mode = str(rng.choice(["reach", "reach", "reach", "min", "under", "over"]))
            T = {"reach": links + (top - links) * rng.choice([1e-6, .01, .3, .7, .95, .999]), "min": links, "under": links * .7, "over": top * 1.2}[mode]
            args = {}
            if rng.random() < .5:
                args["x0"] = float(10.0 ** rng.uniform(-15, 15))
            with ctx.case(cid, dict(S.info(), target=T, mode=mode, args=args)):
                key = "Conditional"
                m = ctx.call(key + ":build", S.build, param=None, num_edges=T)
                w = do_fit(ctx, key, m, **args)
                S.d = float(m.param[0])
                got = S.P().sum()
                ach = [(mode == "reach" and top > links) or (mode == "min")]
                if S.kappa() < 1e4:
                    judge(ctx, key, [got], [T], [m.solver_output], [any("converge" in t for t in w)], ach, 1e-9, 1e-24, True, [S.d])
                    e = ctx.trycall(key + ":expected_num_edges", m.expected_num_edges)
                    if e is not None:
                        ctx.close(e, got, key + ":expected_num_edges", rtol=1e-9)
