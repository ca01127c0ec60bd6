"""Model construction: graph values, explicit overrides, equivalence, refusals."""
import numpy as np
import scipy.sparse as sp

from .. import backends as bk
from .. import gen
from ..condcommon import cspec
from ..core import quiet, todense
from ..gcommon import refgraph
from ..mcommon import ALL, MULTI, SIMPLE, Spec, as_format, backend_of, scale, spec, local, owns, slow


def reference_data(ctx, backend, rng, multi, n=None):
    """A graph with its reference size, edges and strengths."""
    for _ in range(200):
        T = gen.table(rng, multi, n=n or int(rng.choice([3, 5, 9, 14])), weighted=True, dens=.2)
        if len({(e[0], e[1], e[2]) for e in T["edges"]}) < .8 * len(T["ids"]) ** 2:
            break
    kind = "MultiDiGraph" if multi else "DiGraph"
    g = ctx.call(kind + ":graph", gen.build, bk.graph_module(backend), kind, rng, T)
    R = refgraph(ctx, g, T, kind)
    C, W = R.bin(True), R.w(True)
    d = dict(num_vertices=R.n, num_edges=float(C.sum()), prop_out=W.sum(axis=1), prop_in=W.sum(axis=0), total_weight=float(W.sum()))
    if multi:
        LC, LW = R.layer_bin(True), R.layer_w(True)
        d.update(num_labels=LC.shape[0], num_edges_label=LC.sum(axis=(1, 2)).astype(float), prop_out=LW.sum(axis=2).T, prop_in=LW.sum(axis=1).T)
    return g, d, R


def args_of(cls, d):
    """The explicit arguments equivalent to the graph."""
    if cls == "RandomDiGraph":
        return {k: d[k] for k in ("num_vertices", "num_edges", "total_weight")}
    k = ["num_vertices", "prop_out", "prop_in"]
    k += ["num_labels", "num_edges_label"] if cls in MULTI else ["num_edges"]
    return {x: d[x] for x in k}


def answers(ctx, m, key, fit=True):
    out = {"fitted": (fit and not hasattr(m, "param")) or fit == "always"}
    if fit and not hasattr(m, "param"):
        ctx.call(key + ":fit", m.fit)
    elif fit == "always":
        ctx.call(key + ":fit", m.fit)
    out["param"] = np.asarray(m.param, float)
    for f in ("expected_num_edges", "expected_degree", "expected_out_degree", "expected_in_degree", "expected_num_edges_label"):
        if hasattr(m, f):
            r = ctx.trycall(key + ":" + f, getattr(m, f))
            if r is not None:
                out[f] = np.asarray(todense(r), float)
    return out


def alike(ctx, a, b, key):
    for f in sorted(set(a) & set(b)):
        if f == "param":
            ctx.check(a[f].shape == b[f].shape, key + ":param_shape")
            # two fits of the same data agree in what they predict; where the
            # prediction is flat the parameter itself is ill conditioned
            if a[f].shape == b[f].shape and not (a["fitted"] or b["fitted"]):
                ctx.close(a[f], b[f], key + ":param", rtol=1e-9)
        elif f != "fitted":
            fit = a["fitted"] or b["fitted"]
            ctx.close(a[f], b[f], key + ":" + f, rtol=1e-6 if fit else 1e-9, atol=1e-8 if fit else 1e-11)


def build(ctx, backend, cls, key, *a, **k):
    return ctx.call(key + ":build", bk.model, backend, cls, *a, **k)


def overrides(rng, cls, d, backend):
    """Random explicit arguments and the merged data they imply."""
    n, e = d["num_vertices"], dict(d)
    o = {}
    if cls == "RandomDiGraph":
        if rng.random() < .5:
            o["num_vertices"] = int(rng.integers(n, 2 * n))
        if rng.random() < .6:
            o["num_edges"] = float(rng.uniform(0, n * (n - 1)))
        if rng.random() < .5:
            o["total_weight"] = float(d["total_weight"] * rng.uniform(1, 5) + n * n)
        if rng.random() < .5:
            o["discrete_weights"] = True
        if rng.random() < .5:
            o["selfloops"] = bool(rng.integers(2))
        if o.get("discrete_weights") and "total_weight" not in o:
            o["total_weight"] = float(n * n * 3)
        return o
    multi = cls in MULTI
    L = d.get("num_labels", 1)
    sh = (n, L) if multi else n
    if rng.random() < .4:
        o["prop_out"] = rng.random(sh) + .1
    if rng.random() < .4:
        o["prop_in"] = rng.random(sh) + .1
    if rng.random() < .3 and multi:
        o["prop_out"] = as_format(rng.random(sh) + .1, "csr")
    if rng.random() < .5:
        o["selfloops"] = bool(rng.integers(2))
    u = rng.random()
    if u < .35:
        if multi:
            if rng.random() < .5:
                o["num_edges_label"] = rng.uniform(.1, .4, L) * n
            else:
                o["num_edges"] = float(rng.uniform(.1, .4) * n)
        else:
            o["num_edges"] = float(rng.uniform(.1, .4) * n)
    elif u < .6:
        o["param"] = rng.random(L if multi and rng.random() < .5 else 1) + .01
    if rng.random() < .15:
        o["num_vertices"] = n       # the same, passed explicitly
    return o


def constructors(ctx, backend, cls, rng, cid):
    multi = cls in MULTI
    g, d, R = reference_data(ctx, backend, rng, multi or (cls == "RandomDiGraph" and rng.random() < .3))
    key = cls
    gd = dict(d)
    m = build(ctx, backend, cls, key, g, selfloops=True)
    ctx.check(m.num_vertices == d["num_vertices"], key + ":graph:num_vertices", got=m.num_vertices)
    if cls == "RandomDiGraph" or not multi:
        ctx.close(m.num_edges, d["num_edges"], key + ":graph:num_edges")
    if multi:
        ctx.check(m.num_labels == d["num_labels"], key + ":graph:num_labels", got=m.num_labels)
        ctx.close(np.asarray(m.num_edges_label, float), d["num_edges_label"], key + ":graph:num_edges_label")
        ctx.close(m.num_edges, d["num_edges"], key + ":graph:num_edges")
    base = answers(ctx, m, key)
    ex = build(ctx, backend, cls, key + ":explicit", selfloops=True, **args_of(cls, d))
    alike(ctx, base, answers(ctx, ex, key + ":explicit"), key + ":graph_equals_explicit")
    if cls == "RandomDiGraph":
        ctx.close(ctx.call(key + ":expected_total_weight", m.expected_total_weight), d["total_weight"], key + ":graph:total_weight", rtol=1e-9)
    elif cls in SIMPLE:
        ctx.close(np.asarray(m.prop_out, float), d["prop_out"], key + ":graph:out_strength", rtol=1e-10)
        ctx.close(np.asarray(m.prop_in, float), d["prop_in"], key + ":graph:in_strength", rtol=1e-10)
    # fitted to the graph: the target is the graph's
    if multi and np.all(base["expected_num_edges_label"] >= 0):
        pass
    # default self-loop setting
    m0 = build(ctx, backend, cls, key, g)
    ctx.check(bool(m0.selfloops) is False, key + ":default_selfloops", got=m0.selfloops)
    # explicit arguments prevail
    for rep in range(2 if backend != "spark" else 1):
        o = overrides(rng, cls, d, backend)
        kg = "%s:override" % key
        ctx.case_info["override"] = {k: np.asarray(todense(v)).tolist() for k, v in o.items()}
        with quiet():
            mo = build(ctx, backend, cls, kg, g, **{k: (v.copy() if hasattr(v, "copy") else v) for k, v in o.items()})
        a = dict(args_of(cls, d), **o)
        if multi and "num_edges" in o and "num_edges_label" not in o:
            a.pop("num_edges_label")
        me = build(ctx, backend, cls, kg, **a)
        for f in ("num_vertices", "num_edges", "selfloops", "discrete_weights", "total_weight"):
            if f in o:
                ctx.close(float(getattr(mo, f)), float(o[f]), kg + ":" + f)
        if "num_edges_label" in o:
            ctx.close(mo.num_edges_label, o["num_edges_label"], kg + ":num_edges_label")
        if "param" in o:
            ctx.close(np.asarray(mo.param, float), np.broadcast_to(o["param"], np.shape(mo.param)), kg + ":param")
        with quiet():
            alike(ctx, answers(ctx, mo, kg), answers(ctx, me, kg), kg)
            if "param" not in o:
                # fitted to the overriding target
                t = None
                if "num_edges" in o and cls != "RandomDiGraph":
                    t = ("expected_num_edges", o["num_edges"])
                elif "num_edges_label" in o:
                    t = ("expected_num_edges_label", o["num_edges_label"])
                if t and "prop_out" in o and "prop_in" in o:
                    ctx.close(np.asarray(todense(getattr(mo, t[0])()), float), np.asarray(t[1], float), kg + ":target", rtol=1e-7)
        if cls == "RandomDiGraph" and "total_weight" in o and mo.num_edges > 0 and "param" not in o and mo.num_vertices > 1:
            if mo.num_edges <= mo.num_vertices * (mo.num_vertices - 1) and not o.get("discrete_weights"):
                ctx.close(ctx.call(kg + ":expected_total_weight", mo.expected_total_weight), o["total_weight"], kg + ":total_weight", rtol=1e-9)
    # positional arguments that are not graphs
    for bad in (3, "graph", np.zeros((2, 2)), None, {}):
        ctx.refuses(key + ":not_a_graph", bk.model, backend, cls, bad, **args_of(cls, d))
    other = bk.graph_module(backend)
    if multi:
        import pandas as pd
        sg = other.DiGraph(pd.DataFrame({"id": [0, 1]}), pd.DataFrame({"s": [0], "d": [1], "w": [1.0]}), v_id="id", src="s", dst="d", weight="w")
        ctx.refuses(key + ":graph_without_labels", bk.model, backend, cls, sg)
    und = other.Graph
    import pandas as pd
    ug = und(pd.DataFrame({"id": [0, 1, 2]}), pd.DataFrame({"s": [0], "d": [1], "w": [1.0]}), v_id="id", src="s", dst="d", weight="w")
    if cls != "RandomDiGraph":
        ctx.refuses(key + ":undirected_graph", bk.model, backend, cls, ug)


def refusals(ctx, backend, cls, rng):
    key = cls + ":refuses"
    multi = cls in MULTI
    n, L = int(rng.integers(3, 9)), int(rng.integers(2, 5))
    sh = (n, L) if multi else (n,)
    if cls == "RandomDiGraph":
        good = dict(num_vertices=n, num_edges=3.0)
    else:
        good = dict(num_vertices=n, prop_out=rng.random(sh) + .1, prop_in=rng.random(sh) + .1)
        good.update(dict(num_labels=L, num_edges_label=np.ones(L)) if multi else dict(num_edges=3.0))
    build(ctx, backend, cls, key, **good)
    # a random valid decoration of the call
    deco = {"selfloops": bool(rng.integers(2))}
    if rng.random() < .4:
        deco["param"] = np.array([.2, 0.0]) if cls == "RandomDiGraph" else np.full(L, .3) if multi and rng.random() < .5 else np.array([.3])
    good.update(deco)

    def bad(name, drop=(), **k):
        a = {x: v for x, v in dict(good, **k).items() if x not in drop}
        ctx.refuses("%s:%s" % (key, name), bk.model, backend, cls, **a)
    bad("unknown_argument", **{str(rng.choice(["num_nodes", "foo", "strength", "out_strength", "prop_dyads", "Param"])): 3})
    bad("num_vertices_missing", drop=("num_vertices",))
    for v in (-n, 0, n + .5, "many", [n, n], None, np.nan):
        bad("num_vertices", num_vertices=v)
    if cls == "RandomDiGraph":
        bad("constraints_missing", drop=("num_edges", "param"))
    else:
        bad("constraints_missing", drop=("num_edges", "num_edges_label", "param"))
    for v in (-1, -1e-9, "ten", [1, 2, 3, 4, 5, 6, 7], None, np.array([-2.0]), np.arange(13.0), {}, "7"):
        bad("num_edges", num_edges=v)
        if not multi:
            bad("num_edges", num_edges=v, drop=("param",))
    for v in (np.array([-.1]), -.1, "x", np.array(["a"]), np.arange(17.0), np.array([-.1, .2]), None,
              np.array([-1.0] * L) if multi else np.array([.1, -.1]), np.array([]), np.array(["0.1", "0.1"])):
        bad("param", param=v)
    if cls == "RandomDiGraph":
        for v in (-1.0, "heavy", [1.0, 2.0], np.array([-3.0]), None):
            bad("total_weight", total_weight=v)
        bad("param", param=np.array([.3]))
        bad("param", param=np.array([.3, .1, .1]))
        return
    for f in ("prop_out", "prop_in"):
        bad(f + "_missing", drop=(f,))
        x = good[f]
        neg = x.copy()
        neg[tuple(int(rng.integers(k)) for k in x.shape)] = -float(10 ** rng.uniform(-12, 0))
        wrong = {"negative": neg, "short": x[:-1], "long": np.concatenate([x, x[:1]]), "list": "text", "scalar": 3.0, "none": None,
                 "strings": np.full(x.shape, "a"), "transposed" if multi else "column": x.T if multi and n != L else x.reshape(-1, 1) if not multi else x[:-1],
                 "extra_dimension": x[None]}
        if multi:
            wrong["labels"] = np.concatenate([x, x[:, :1]], axis=1)
            wrong["flat"] = x[:, 0]
            wrong["sparse_negative"] = sp.csr_array(neg)
            wrong["sparse_short"] = sp.csr_array(x[:-1])
            wrong["sparse_labels"] = sp.csc_array(x[:, :-1])
        for w, v in wrong.items():
            bad("%s:%s" % (f, w), **{f: v})
        ineg = np.ones(x.shape, dtype=str(rng.choice(["int64", "int32", "int8", "float32"])))
        ineg[tuple(int(rng.integers(k)) for k in x.shape)] = -1
        bad(f + ":negative_integer", **{f: ineg})
    if multi:
        # one inadmissible entry anywhere among good ones
        for f in ("param", "num_edges_label"):
            v = rng.random(L) + .1
            v[int(rng.integers(L))] = -float(10 ** rng.uniform(-12, 0))
            bad(f + ":one_negative", **{f: v})
            w = np.ones(L, int)
            w[int(rng.integers(L))] = -1
            bad(f + ":one_negative_integer", **{f: w})
        bad("num_labels_missing", drop=("num_labels",))
        for v in (-L, 0, L + .5, "few", None):
            bad("num_labels", num_labels=v)
        for v in (np.ones(L + 1), np.ones(L - 1), -np.ones(L), np.array(["a"] * L), np.r_[np.ones(L - 1), -1e-9], np.array([])):
            bad("num_edges_label", num_edges_label=v)
            bad("num_edges_label", num_edges_label=v, drop=("param",))
        bad("param", param=np.ones(L + 1))
    else:
        bad("param", param=np.array([.3, .3]))


def unfitted(ctx, backend, cls, rng):
    key = cls + ":unfitted"
    S = spec(rng, cls, n=5, mode="mid")
    kw = dict(num_edges_label=np.ones(S.L)) if S.multi and rng.random() < .5 else dict(num_edges=4.0)
    m = ctx.call(key + ":build", S.build, backend, rng, param=None, **kw)
    A = np.zeros((5, 5), bool)
    q = {"expected_num_edges": (), "expected_degree": (), "expected_out_degree": (), "expected_in_degree": (), "log_likelihood": (A,), "sample": (),
         "expected_av_nn_property": (np.ones(5),), "expected_av_nn_degree": ()}
    if S.multi:
        q.update({"expected_num_edges_label": (), "expected_degree_by_label": (), "expected_out_degree_by_label": (), "expected_in_degree_by_label": ()})
    if cls == "RandomDiGraph":
        q["expected_total_weight"] = ()
    for f, a in q.items():
        if hasattr(m, f):
            ctx.refuses(key + ":" + f, getattr(m, f), *a)
    # fitted: the same calls work
    ctx.call(key + ":fit", m.fit)
    for f, a in list(q.items())[:3]:
        if hasattr(m, f):
            ctx.trycall(key + ":" + f + ":after_fit", getattr(m, f), *a)
    # starting points and methods of the fit
    if cls != "RandomDiGraph":
        for x0 in (-1.0, np.array([-.5]), "x", np.array(["a"]), np.arange(1.0, 20)):
            ctx.refuses(key + ":x0", m.fit, x0=x0)
        if S.multi and "num_edges_label" in kw and S.L > 1:
            x0 = rng.random(S.L) + .1
            x0[int(rng.integers(S.L))] *= -1
            ctx.refuses(key + ":x0:one_negative", m.fit, x0=x0)
        ctx.refuses(key + ":method", m.fit, method="magic")
        p = ctx.call(key + ":build", S.build, backend)
        ctx.refuses(key + ":fit_without_target", p.fit)
    # sampling arguments
    n = 5
    sh = (n, S.L) if S.multi else (n,)
    nm = ("out_strength_label", "in_strength_label") if S.multi else ("out_strength", "in_strength")
    good = {nm[0]: np.ones(sh), nm[1]: np.ones(sh)}
    ctx.refuses(key + ":weights_method", m.sample, weights="gold")
    if S.multi:
        for f in nm:
            for v in (np.ones((n + 1, S.L)), np.ones((n, S.L + 1)), "text", sp.csr_array(np.ones((n + 1, S.L)))):
                ctx.refuses(key + ":sample:" + f, m.sample, weights="cremb", **dict(good, **{f: v}))


def spark_only(ctx, rng):
    for cls in ALL:
        S = spec(rng, cls, n=5, mode="mid")
        C = getattr(bk.spark_mod(), cls)
        kw = dict(num_vertices=5, num_edges=3.0)
        if cls != "RandomDiGraph":
            kw.update(prop_out=S.x, prop_in=S.y)
        if S.multi:
            kw.update(num_labels=S.L)
        ctx.refuses(cls + ":no_context", C, **kw)
        ctx.refuses(cls + ":not_a_context", C, "context", **kw)
        ctx.refuses(cls + ":not_a_context", C, 3, **kw)
        ctx.call(cls + ":context", C, bk.sc(), **kw)


def conditional(ctx, rng):
    key = "Conditional"
    S = cspec(rng, n=int(rng.integers(3, 10)), scale="mid")
    n, M = S.n, S.M
    good = dict(num_vertices=n, num_edges=float(max(1, (S.A > 0).sum())), prop_out=S.x.astype(float), prop_in=S.y.astype(float), groups=S.groups,
                adj=sp.csr_array(S.A), selfloops=bool(rng.integers(2)))
    C = bk.SPARSE.ConditionalInvariantModel
    ctx.call(key + ":build", C, **good)

    def bad(name, drop=(), **k):
        ctx.refuses("%s:refuses:%s" % (key, name), C, **{x: v for x, v in dict(good, **k).items() if x not in drop})
    for f in ("num_vertices", "prop_out", "prop_in", "groups", "adj"):
        bad(f + "_missing", drop=(f,))
    bad("constraints_missing", drop=("num_edges", "param"))
    bad("unknown_argument", foo=1)
    for v in (-n, 0, n + .5, "a", None):
        bad("num_vertices", num_vertices=v)
    for v in (-1.0, "a", [1, 2], None):
        bad("num_edges", num_edges=v)
    for v in (-.1, np.array([-.1]), "a", np.array([.1, .2]), np.array(["a"])):
        bad("param", param=v)
    for f in ("prop_out", "prop_in"):
        x = good[f]
        neg = x.copy()
        neg[int(rng.integers(n))] = -1e-9
        for w, v in {"negative": neg, "short": x[:-1], "long": np.r_[x, 1.0], "none": None, "column": x.reshape(-1, 1)}.items():
            bad("%s:%s" % (f, w), **{f: v})
    bad("groups:short", groups=S.groups[:-1])
    bad("groups:long", groups=np.r_[S.groups, 0])
    bad("groups:float", groups=S.groups.astype(float))
    bad("groups:too_many", groups=S.groups + 1)
    bad("groups:negative", groups=np.where(np.arange(n) == int(rng.integers(n)), -1, S.groups))
    bad("adj:not_square", adj=np.ones((M, M + 1)))
    bad("adj:too_big", adj=np.ones((M + 1, M + 1)))
    # graph arguments, overrides
    g, d, R = reference_data(ctx, "sparse", rng, False, n=n)
    groups = np.asarray(rng.integers(0, 2, n))
    groups[:2] = [0, 1]
    G = np.zeros((2, n))
    G[groups, np.arange(n)] = 1
    macro = G @ R.w(True) @ G.T
    sl = True
    kw = dict(groups=groups, selfloops=sl)
    form = str(rng.choice(["keyword", "positional", "sparse"]))
    if form == "keyword":
        m = ctx.call(key + ":from_graph", C, g, adj=macro, **kw)
    elif form == "positional":
        m = ctx.call(key + ":from_graph", C, g, macro, **kw)
    else:
        m = ctx.call(key + ":from_graph", C, g, sp.coo_array(macro), **kw)
    e = ctx.call(key + ":explicit", C, num_vertices=n, num_edges=d["num_edges"], prop_out=d["prop_out"], prop_in=d["prop_in"], adj=macro, **kw)
    with quiet():
        alike(ctx, answers(ctx, m, key), answers(ctx, e, key), key + ":graph_equals_explicit")
    o = dict(prop_out=rng.random(n) + .1, param=np.array([rng.random() + .01]))
    a = ctx.call(key + ":override", C, g, macro, **dict(kw, **o))
    b = ctx.call(key + ":override", C, **dict(dict(num_vertices=n, num_edges=d["num_edges"], prop_in=d["prop_in"], adj=macro), **kw, **o))
    with quiet():
        alike(ctx, answers(ctx, a, key), answers(ctx, b, key), key + ":override")
    u = ctx.call(key + ":build", C, **good)
    for f, ar in {"expected_num_edges": (), "expected_degree": (), "expected_out_degree": (), "sample": (), "log_likelihood": (np.zeros((n, n), bool),)}.items():
        ctx.refuses(key + ":unfitted:" + f, getattr(u, f), *ar)


def run(ctx):
    backend = backend_of(ctx)
    spark = backend == "spark"
    shard = int(ctx.job.split("#")[1])
    mine = [c for i, c in enumerate(ALL) if not spark or i % 5 == shard % 5]
    for what, f, count in (("refuse", refusals, scale(ctx, 12, 120, 2, 40)), ("unfitted", unfitted, scale(ctx, 8, 60, 1, 12)),
                           ("ctor", None, scale(ctx, 25, 300, 2, 50))):
        for i in range(count):
            for cls in mine:
                cid = "%s-%s-%d" % (what, cls, i)
                if not ctx.wanted(cid):
                    continue
                rng = ctx.case_rng(cid)
                with ctx.case(cid, dict(cls=cls, what=what)):
                    if f:
                        f(ctx, backend, cls, rng)
                    else:
                        constructors(ctx, backend, cls, rng, cid)
    if spark and ctx.wanted("context"):
        with ctx.case("context", {}):
            spark_only(ctx, ctx.case_rng("context"))
    if backend == "sparse":
        for i in range(25 if ctx.quick else 300):
            cid = "conditional-%d" % i
            if not ctx.wanted(cid):
                continue
            with ctx.case(cid, dict(cls="ConditionalInvariantModel")):
                conditional(ctx, ctx.case_rng(cid))
