"""Online monitor of every function evaluation made by the root finder."""
import numpy as np

from graph_ensembles.solver import monotonic_newton_solver

from ..core import quiet


def families():
    """name -> (function of (x, a, b) returning value and slope, half-line?)"""
    def sig(x, a, b):
        t = np.clip(a * (x - b), -700, 700)
        s = 1 / (1 + np.exp(-t))
        return s, a * s * (1 - s)

    def ex(x, a, b):
        t = np.minimum(a * x, 500)
        return np.exp(t), a * np.exp(t)
    return {
        # flattening away from zero: what fitting meets
        "saturating": (lambda x, a, b: (-np.expm1(-a * x), a * np.exp(-a * x)), True),
        "rational": (lambda x, a, b: (np.where(np.isinf(x), 1.0, a * x / (1 + a * x)) if np.isinf(x).any() else a * x / (1 + a * x), a / (1 + a * x) ** 2), True),
        "mixture": (lambda x, a, b: (sum(-np.expm1(-a * s * x) for s in (1, 1e-2, 1e2, 1e4)), sum(a * s * np.exp(-a * s * x) for s in (1, 1e-2, 1e2, 1e4))), True),
        "log": (lambda x, a, b: (np.log1p(a * x), a / (1 + a * x)), True),
        "root": (lambda x, a, b: (np.sqrt(1e-3 + a * x), .5 * a / np.sqrt(1e-3 + a * x)), True),
        "decay": (lambda x, a, b: (-np.exp(-a * x), a * np.exp(-a * x)), True),
        "linear": (lambda x, a, b: (a * x + b, np.full(np.shape(x), a)), None),
        # general monotonic functions: honesty only
        "cubic": (lambda x, a, b: ((x - b) ** 3 + a * (x - b), 3 * (x - b) ** 2 + a), False),
        "sigmoid": (sig, False),
        "arctan": (lambda x, a, b: (np.arctan(a * (x - b)), a / (1 + (a * (x - b)) ** 2)), False),
        "exponential": (ex, False),
    }


def run(ctx):
    fam = families()
    for i in range(2500 if ctx.quick else 40000):
        name = list(fam)[i % len(fam)]
        cid = "%s-%d" % (name, i)
        if not ctx.wanted(cid):
            continue
        rng = ctx.case_rng(cid)
        fn, half = fam[name]
        a, b = 10 ** rng.uniform(-6, 6) if half else 10 ** rng.uniform(-2, 2), float(rng.normal() * 3)
        sgn = float(rng.choice([1, -1]))
        if half:
            lo, hi = 0.0, [np.inf, 1e6 / a][int(rng.integers(2))]
            root = float(10 ** rng.uniform(-8, 1) / a)
            x0 = float(rng.choice([0.0, root * 10 ** rng.uniform(-6, 6), 10 ** rng.uniform(-12, 12)]))
            x0 = min(x0, hi if np.isfinite(hi) else x0)
        else:
            lo, hi = [(-np.inf, np.inf), (b - 5, b + 7), (b - 3, np.inf), (-np.inf, b + 4)][int(rng.integers(4))]
            root = float(rng.uniform(max(lo, b - 4), min(hi, b + 4)))
            x0 = float(rng.uniform(max(lo, -20 + min(b, 0)), min(hi, 20 + max(b, 0))))
        val = lambda x: sgn * np.asarray(fn(np.asarray(x, float), a, b)[0])
        target = float(val(np.array([root]))[0])
        reach = True
        u = rng.random()
        if u < .15:      # out of reach
            reach = False
            target = {"saturating": 1.5, "rational": 1.5, "mixture": 4.5, "sigmoid": 1.2, "arctan": 2.0}.get(name)
            if target is not None:
                target = sgn * target
            elif np.isfinite(lo):
                target = float(val(np.array([lo]))[0]) - sgn * 10
            else:
                target, reach = float(val(np.array([root]))[0]), True
        elif u < .2:     # exact start
            x0 = root
        maxit = int(rng.choice([100, 100, 100, 30, 5, 1, 0]))
        rtol = float(rng.choice([1e-9, 1e-9, 1e-6, 1e-3, 1e-12]))
        atol = float(rng.choice([1e-24, 1e-24, 1e-6, 0.0]))
        info = dict(family=name, a=a, b=b, sign=sgn, bracket=(lo, hi), x0=x0, target=target, rtol=rtol, atol=atol, max_iter=maxit)
        with ctx.case(cid, info):
            trace = []

            def fun(x):
                with np.errstate(all="ignore"):
                    v, s = fn(np.asarray(x, float), a, b)
                trace.append((float(np.ravel(x)[0]), float(np.ravel(v)[0]) * sgn))
                return sgn * v, sgn * s

            start = np.array([x0])
            try:
                with quiet(), np.errstate(all="ignore"):
                    s = monotonic_newton_solver(start, fun, target, atol=atol, rtol=rtol, max_iter=maxit, x_l=lo, x_u=hi, full_return=True)
            except AssertionError:
                # flat to rounding away from the root: the solver refuses to answer
                ctx.ev("refused_as_not_monotonic")
                ctx.check(not half, name + ":refused", "well-behaved function refused")
                continue
            except Exception as e:
                ctx.violation(name + ":raised", repr(e)[:200])
                continue
            ctx.ev("evaluations", len(trace))
            x = float(np.ravel(s.x)[0])
            tol = atol + rtol * abs(target)
            ctx.check(start[0] == x0, "start_untouched")
            # every point ever tried lies in the bracket
            ctx.check(all(lo <= t[0] <= hi for t in trace), name + ":bracket", "evaluated outside the bracket", trace=trace[-5:])
            ctx.check(lo <= x <= hi, name + ":result_in_bracket", got=x)
            ctx.check(len(trace) <= maxit + 1 and s.n_iter <= maxit, name + ":iterations", "more iterations than allowed", n=len(trace))
            ctx.check(s.n_iter == len(trace) - 1, name + ":iteration_count", got=s.n_iter, observed=len(trace) - 1)
            ctx.check(bool(s.max_iter_reached) == (s.n_iter >= maxit), name + ":max_iter_flag")
            with np.errstate(all="ignore"):
                res = abs(float(val(np.array([x]))[0]) - target)
            slack = 1e-13 * abs(target)
            if abs(res - tol) > slack:
                ctx.check(bool(np.all(s.converged)) == (res <= tol), name + ":honest",
                          "reported converged=%s with residual %g and tolerance %g" % (np.all(s.converged), res, tol), x=x)
            if half is not False and reach and maxit == 100 and rtol >= 1e-9 and np.isfinite(target):
                ctx.check(bool(np.all(s.converged)), name + ":converges", "no convergence on a well-behaved function", residual=res, iters=s.n_iter, x=x)
                ctx.ev("well_behaved_roots")
            if not reach and tol < 0.1:
                ctx.check(not bool(np.all(s.converged)), name + ":unreachable")
            # the short form returns the same point
            if rng.random() < .2:
                with quiet(), np.errstate(all="ignore"):
                    y = monotonic_newton_solver(np.array([x0]), fun, target, atol=atol, rtol=rtol, max_iter=maxit, x_l=lo, x_u=hi)
                ctx.check(float(np.ravel(y)[0]) == x, name + ":short_form")
            # starts outside the bracket are refused
            if np.isfinite(hi):
                ctx.refuses(name + ":start_above", monotonic_newton_solver, np.array([hi + abs(hi) * 1e-6 + 1e-9]), fun, target, x_l=lo, x_u=hi)
            if np.isfinite(lo):
                ctx.refuses(name + ":start_below", monotonic_newton_solver, np.array([lo - 1e-9]), fun, target, x_l=lo, x_u=hi)
