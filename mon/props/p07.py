"""Expected nearest-neighbour averages."""
import numpy as np

from .. import oracle
from ..core import todense
from ..mcommon import ALL, FORMATS, backend_of, scale, specs, local, owns, slow

DIRS = ("out", "in", "out-in")


def ratio(P, prop, ndir, L, exact=False):
    """Reference value and rounding allowance (probabilities are only known to
    a few 1e-16 absolute for projected multi-label models)."""
    W = P if ndir == "out" else P.T if ndir == "in" else oracle.und(P)
    d = W.sum(axis=1)
    s = W @ prop
    out = np.zeros(s.shape)
    nz = d != 0
    sc = (lambda v: v) if s.ndim == 1 else (lambda v: v[:, None])
    out[nz] = s[nz] / sc(d[nz])
    with np.errstate(all="ignore"):
        tol = np.where(d > 0, 4e-15 * L * P.shape[0] / d, 0.0) * (not exact or ndir == "out-in")
    return out, sc(tol) * (np.abs(prop).max() + 1), sc(d)


def compare(ctx, got, exp, tol, d, key, L):
    g = np.asarray(todense(got), float)
    if not ctx.check(g.shape == exp.shape, key + ":shape", got=g.shape, expected=exp.shape):
        return
    skip = (d < 1e-13) & (d > 0) & np.ones(exp.shape, bool) if L > 1 else np.zeros(exp.shape, bool)
    g = np.where(skip, exp, g)
    ctx.close(g, exp, key, rtol=1e-9, atol=tol + 1e-10 * (1 + np.abs(exp)))


def run(ctx):
    backend = backend_of(ctx)
    for cid, rng, S in specs(ctx, count=scale(ctx, 40, 500, 1, 20)):
        fmt = str(rng.choice(FORMATS[:6])) if S.multi and backend != "dense" else None
        if S.cls != "RandomDiGraph" and rng.random() < .4:
            # vertices which hardly have any neighbour
            f = np.where(rng.random(S.n) < .3, 10 ** rng.uniform(-16, -4, S.n), 1.0)
            S.x = S.x * (f[:, None] if S.multi else f)
            f = np.where(rng.random(S.n) < .3, 10 ** rng.uniform(-16, -4, S.n), 1.0)
            S.y = S.y * (f[:, None] if S.multi else f)
        with ctx.case(cid, dict(S.info(), fmt=fmt), nontrivial=S.n > 1):
            key = S.cls
            m = ctx.call(key + ":build", S.build, backend, rng, fmt)
            n = S.n
            props = {"scalar": rng.normal(size=n) * 5, "positive": rng.random(n) + .1, "vector": rng.normal(size=(n, 2))}
            asks = [("prop", a, nd, sl) for a in props for nd in DIRS for sl in (True, False)]
            asks += [("deg", a, nd, sl) for a in DIRS for nd in DIRS for sl in (True, False)]
            asks = [asks[i] for i in rng.permutation(len(asks))]
            if slow(ctx):
                # neighbour averages are several jobs each: sample the combinations
                asks = asks[:6]
                if not any(a[0] == "deg" for a in asks):
                    asks[0] = ("deg", "in", "out-in", bool(rng.integers(2)))
            for what, a, nd, sl in asks:
                P = S.P(sl)
                if what == "prop":
                    p = props[a]
                    keep = p.copy()
                    k = "%s:property:%s:%s:%s" % (key, a, nd, "self" if sl else "noself")
                    r = ctx.trycall(k, m.expected_av_nn_property, p, ndir=nd, selfloops=sl)
                    ctx.check(np.array_equal(p, keep), key + ":input_untouched")
                else:
                    dg = dict(zip(("out-in", "out", "in"), oracle.exp_degrees(P)))[a]
                    keep = dg
                    k = "%s:degree:%s:%s:%s" % (key, a, nd, "self" if sl else "noself")
                    r = ctx.trycall(k, m.expected_av_nn_degree, ddir=a, ndir=nd, selfloops=sl)
                if r is None:
                    continue
                exp, tol, d = ratio(P, keep, nd, S.L if S.multi else 1, not S.multi)
                compare(ctx, r, exp, tol, d, k, S.L if S.multi else 1)
            # the model's own setting is used when no choice is given, and is left alone
            r = ctx.trycall(key + ":selfloops_none", m.expected_av_nn_property, props["scalar"], ndir="out", selfloops=None)
            if r is not None:
                exp, tol, d = ratio(S.P(), props["scalar"], "out", S.L, not S.multi)
                compare(ctx, r, exp, tol, d, key + ":selfloops_none", S.L if S.multi else 1)
            ctx.check(bool(m.selfloops) == S.selfloops, key + ":setting_kept")
            ctx.refuses(key + ":wrong_size", m.expected_av_nn_property, np.ones(n + 1))
            ctx.refuses(key + ":wrong_direction", m.expected_av_nn_property, np.ones(n), ndir="sideways")
