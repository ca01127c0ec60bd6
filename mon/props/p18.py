"""Histories of queries on one object against fresh objects."""
import copy

import numpy as np
import scipy.sparse as sp

from .. import backends as bk
from .. import gen
from ..condcommon import cspec
from ..core import digest, quiet, todense
from ..gcommon import tables
from ..mcommon import ALL, FORMATS, MULTI, as_format, backend_of, scale, spec, local, owns, slow
from .p08 import masks
from .p10 import likely

DIRS = ("out", "in", "out-in")


def freeze(o):
    """Digest of an argument supplied by the caller (content and layout)."""
    if sp.issparse(o):
        parts = [o.shape, o.format] + [getattr(o, k) for k in ("data", "indices", "indptr", "row", "col") if hasattr(o, k)]
        return digest(*[p for p in parts])
    if isinstance(o, np.ndarray):
        return digest(o)
    if isinstance(o, (list, tuple)):
        return digest([freeze(x) for x in o])
    if hasattr(o, "adjacency_matrix"):
        a = o.adjacency_tensor(directed=True, weighted=True) if hasattr(o, "adjacency_tensor") else o.adjacency_matrix(directed=True, weighted=True)
        return digest(todense(a), o.num_vertices, [sorted(map(str, getattr(o, d, {}).items())) for d in ("id_dict", "group_dict", "label_dict")],
                      np.asarray(getattr(o, "groups", [])))
    return digest(o)


SETTINGS = ("num_vertices", "num_edges", "num_edges_label", "num_labels", "prop_out", "prop_in", "param", "selfloops", "per_label", "groups", "adj",
            "total_weight", "discrete_weights", "num_groups", "id_dict", "group_dict", "label_dict", "weighted")


def settings(m):
    """Data and settings of an object."""
    out = {}
    for k in SETTINGS:
        v = vars(m).get(k)
        if isinstance(v, (np.ndarray, int, float, bool, np.generic, str, dict)) or sp.issparse(v) or (
                isinstance(v, (list, tuple)) and all(sp.issparse(x) or isinstance(x, np.ndarray) for x in v)):
            out[k] = digest(todense(v)) if sp.issparse(v) else freeze(v)
    return out


class Args:
    """Arguments supplied by the caller, watched for modification."""

    def __init__(self, ctx, key):
        self.ctx, self.key, self.items = ctx, key, {}

    def __call__(self, name, o):
        if name not in self.items:
            self.items[name] = (o, freeze(o))
        return self.items[name][0]

    def verify(self):
        for name, (o, h) in self.items.items():
            self.ctx.check(freeze(o) == h, self.key + ":argument_untouched", "caller's %s changed" % name)


def same(ctx, a, b, key, **d):
    """Equal up to rounding of a different summation."""
    a, b = np.asarray(todense(a), float), np.asarray(todense(b), float)
    ctx.close(a, b, key, rtol=1e-11, atol=1e-14, **d)


def model_ops(S, A, A3, props, rng, spark, cond):
    """(name, f(m, recompute)) of deterministic queries; f with recompute asks for everything anew."""
    ops = [(f, lambda m, r, f=f: getattr(m, f)(**({"recompute": True} if r else {})))
           for f in ["expected_num_edges", "expected_degree", "expected_out_degree", "expected_in_degree"]]
    if S.multi:
        ops += [(f, lambda m, r, f=f: getattr(m, f)(**({"recompute": True} if r else {})))
                for f in ["expected_num_edges_label", "expected_degree_by_label", "expected_out_degree_by_label", "expected_in_degree_by_label"]]
    for nd in DIRS:
        for sl in (True, False, None):
            for pn, p in props.items():
                ops.append(("av_nn_property:%s:%s:%s" % (nd, sl, pn), lambda m, r, nd=nd, sl=sl, p=p: m.expected_av_nn_property(
                    p, ndir=nd, selfloops=sl, **({"deg_recompute": True} if r else {}))))
            for dd in DIRS:
                ops.append(("av_nn_degree:%s:%s:%s" % (dd, nd, sl), lambda m, r, nd=nd, sl=sl, dd=dd: m.expected_av_nn_degree(
                    ddir=dd, ndir=nd, selfloops=sl, **({"deg_recompute": True, "recompute": True} if r else {}))))
    for nm, g in A.items():
        ops.append(("log_likelihood:" + nm, lambda m, r, g=g: m.log_likelihood(g)))
        if not cond:
            ops.append(("log_likelihood_selfloops:" + nm, lambda m, r, g=g: m.log_likelihood(g, selfloops=not S.selfloops)))
    for nm, g in A3.items():
        ops.append(("log_likelihood3:" + nm, lambda m, r, g=g: m.log_likelihood(g)))
    return ops


def failing(S, n):
    return [("bad_direction", lambda m: m.expected_av_nn_property(np.ones(n), ndir="sideways", selfloops=not S.selfloops)),
            ("bad_size", lambda m: m.expected_av_nn_property(np.ones(n + 1), selfloops=not S.selfloops)),
            ("bad_degree", lambda m: m.expected_av_nn_degree(ddir="up", selfloops=not S.selfloops)),
            ("bad_neighbours", lambda m: m.expected_av_nn_degree(ndir="up", selfloops=not S.selfloops)),
            ("bad_graph", lambda m: m.log_likelihood(np.zeros((n + 1, n + 1), bool))),
            ("bad_weights", lambda m: m.sample(weights="gold"))]


def history(ctx, key, build, S, rng, spark, steps, refits, cond=False):
    n = S.n
    args = Args(ctx, key)
    P = S.P()
    A = likely(P, rng)
    W = np.where(A, rng.random((n, n)) + .5, 0.0)
    forms = {"bool": A, "csr": sp.csr_array(W), "coo": sp.coo_array(W)}
    if not spark:
        U = as_format(W, "unsorted")
        forms["unsorted"] = U
        forms["zeros"] = as_format(W, "zeros")
        forms["float"] = W
    forms = {k: args("graph " + k, v) for k, v in forms.items()}
    f3 = {}
    if S.multi:
        A3 = likely(S.PL(), rng)
        f3 = {"bool": args("tensor", A3), "list": args("layers", [sp.coo_array(a.astype(float)) for a in A3])}
    props = {"scalar": args("property", rng.normal(size=n)), "vector": args("properties", rng.normal(size=(n, 2)))}
    ops = model_ops(S, forms, f3, props, rng, spark, cond)
    m = ctx.call(key + ":build", build, args)
    before = settings(m)
    memo = {}
    for epoch in range(refits + 1):
        par = None
        if epoch:
            # the parameters change: directly, or by refitting to a new target
            par = S.param * float(10 ** rng.uniform(-1, 1)) if not cond else np.array([S.d * float(10 ** rng.uniform(-1, 1))])
            if S.cls == "RandomDiGraph":
                par = np.array([float(rng.uniform(.1, .9)), 0.0])
            if rng.random() < .5 or cond:
                m.param = par.copy() if not S.multi else np.broadcast_to(par, (S.L,)).copy()
            else:
                per = S.multi and len(S.param) > 1
                if S.cls == "RandomDiGraph":
                    m.num_edges = float(rng.uniform(0, n * (n - 1)))
                else:
                    mk = masks(S)
                    top = mk.sum(axis=(1, 2)) if per else np.array([(mk.any(axis=0) if S.multi else mk).sum()])
                    t = top * rng.uniform(.05, .7, len(top))
                    if per:
                        m.num_edges_label, m.per_label = t, True
                    else:
                        m.num_edges = float(t[0])
                        if S.multi:
                            m.per_label = False
                ctx.call(key + ":refit", m.fit)
            par = np.array(m.param, float)
            before = settings(m)
            memo = {}
        trace = []
        for s in range(steps):
            u = rng.random()
            if u < .12:
                nm, f = failing(S, n)[int(rng.integers(6))]
                trace.append(nm)
                try:
                    with quiet():
                        f(m)
                except Exception:
                    pass
                ctx.ev("failed_calls")
                continue
            if u < .24:
                kw = {}
                if rng.random() < .5:
                    kw["selfloops"] = not S.selfloops
                if rng.random() < .5:
                    sh = (n, S.L) if S.multi else n
                    so, si = rng.random(sh) + .5, rng.random(sh) + .5
                    si = si * so.sum(axis=0) / si.sum(axis=0)
                    k = ("out_strength_label", "in_strength_label") if S.multi else ("out_strength", "in_strength")
                    kw.update({k[0]: args("strength%d" % s, so), k[1]: args("in%d" % s, si)})
                    kw["weights"] = "cremb" if not cond else str(rng.choice(["cremb", "wagg"]))
                trace.append("sample")
                ctx.call(key + ":sample", m.sample, **kw)
                ctx.ev("samples_drawn")
                continue
            i = int(rng.integers(len(ops)))
            if rng.random() < .35:
                i = int(rng.integers(8 if S.multi else 4))
            nm, f = ops[i]
            # after a change of parameters everything is asked anew
            rec = epoch > 0 or bool(rng.random() < .2)
            trace.append(nm + ("!" if rec else ""))
            got = ctx.trycall("%s:%s" % (key, nm.split(":")[0]), f, m, rec)
            if nm not in memo:
                fresh = ctx.call(key + ":build", build, None, par)
                memo[nm] = copy.deepcopy(ctx.trycall("%s:%s" % (key, nm.split(":")[0]), f, fresh, False))
            if got is not None and memo[nm] is not None:
                same(ctx, got, memo[nm], "%s:%s%s" % (key, nm.split(":")[0], ":after_change" if epoch else ""), history=trace[-12:], query=nm)
            now = settings(m)
            ch = [k for k in before if now.get(k) != before[k]]
            if not ctx.check(not ch, key + ":settings_kept", "changed by the query: %s" % ch, history=trace[-12:]):
                return
            ctx.ev("history_steps")
        args.verify()


def graph_ops(kind, T, n, props):
    di = "Di" in kind
    q = ["num_edges", "total_weight", "degree", "strength"] + (["out_degree", "in_degree", "out_strength", "in_strength"] if di else [])
    if T["groups"] is not None:
        q += [x + "_by_group" for x in q[2:]]
    if T["multi"]:
        q += ["num_edges_label", "total_weight_label", "degree_by_label", "strength_by_label"]
        if di:
            q += ["out_degree_by_label", "in_degree_by_label", "out_strength_by_label", "in_strength_by_label"]
    ops = [(f, lambda g, r, f=f: getattr(g, f)(**({"recompute": True} if r else {}))) for f in q]
    for d in (True, False):
        for w in (True, False):
            ops.append(("adjacency:%s:%s" % (d, w), lambda g, r, d=d, w=w: g.adjacency_matrix(directed=d, weighted=w)))
            if T["multi"]:
                ops.append(("tensor:%s:%s" % (d, w), lambda g, r, d=d, w=w: g.adjacency_tensor(directed=d, weighted=w)))
    for sl in (True, False):
        for nd in DIRS if di else (None,):
            k = {"ndir": nd} if di else {}
            for pn, p in props.items():
                ops.append(("nn_property:%s:%s:%s" % (nd, sl, pn), lambda g, r, sl=sl, k=k, p=p: g.average_nn_property(
                    p, selfloops=sl, **k, **({"deg_recompute": True} if r else {}))))
            for dd in DIRS if di else (None,):
                k2 = dict(k, ddir=dd) if di else {}
                ops.append(("nn_degree:%s:%s:%s" % (dd, nd, sl), lambda g, r, sl=sl, k2=k2: g.average_nn_degree(
                    selfloops=sl, **k2, **({"recompute": True, "deg_recompute": True} if r else {}))))
    ops.append(("networkx", lambda g, r: np.array(sorted(map(hash, map(str, g.to_networkx().edges())))) % 1000003))
    return ops


def graph_history(ctx, backend, kind, rng, T, steps):
    key = kind
    st = int(rng.integers(2 ** 31))
    B = bk.graph_module(backend)
    v, e, kw = gen.frames(np.random.default_rng(st), T)
    mk = lambda: getattr(B, kind)(v.copy(), e.copy(), **kw)
    args = Args(ctx, key)
    n = len(T["ids"])
    props = {"scalar": args("property", rng.normal(size=n)), "vector": args("properties", rng.normal(size=(n, 2)))}
    g = ctx.call(key + ":build", mk)
    ops = graph_ops(kind, T, n, props)
    before = settings(g)
    memo, trace = {}, []
    for s in range(steps):
        if rng.random() < .08:
            try:
                with quiet():
                    g.average_nn_property(np.ones(n + 1))
            except Exception:
                pass
            continue
        i = int(rng.integers(len(ops)))
        nm, f = ops[i]
        rec = bool(rng.random() < .2)
        trace.append(nm + ("!" if rec else ""))
        got = ctx.trycall("%s:%s" % (key, nm.split(":")[0]), f, g, rec)
        if nm not in memo:
            memo[nm] = copy.deepcopy(ctx.trycall("%s:%s" % (key, nm.split(":")[0]), f, ctx.call(key + ":build", mk), False))
        if got is not None and memo[nm] is not None:
            same(ctx, got, memo[nm], "%s:%s" % (key, nm.split(":")[0]), history=trace[-12:], query=nm)
        ch = [k for k, h in settings(g).items() if k in before and before[k] != h]
        if not ctx.check(not ch, key + ":data_kept", "changed by the query: %s" % ch, history=trace[-12:]):
            return
        ctx.ev("history_steps")
    # models built from the graph and samples with it as reference leave it alone
    if kind in ("DiGraph", "MultiDiGraph") and T["weighted"]:
        h = freeze(g)
        cls = str(rng.choice(["FitnessModel", "ScaleInvariantModel"] if kind == "DiGraph" else list(MULTI)))
        m = ctx.call(key + ":model", bk.model, backend, cls, g)
        with quiet():
            ctx.trycall(key + ":model:fit", m.fit)
        ctx.trycall(key + ":model:sample", m.sample, ref_g=g)
        ctx.trycall(key + ":model:log_likelihood", m.log_likelihood, g)
        ctx.trycall(key + ":model:expected_degree", m.expected_degree)
        ctx.check(freeze(g) == h, key + ":graph_untouched", "a model changed the graph it was given")
    args.verify()


def run(ctx):
    backend = backend_of(ctx)
    spark = slow(ctx)
    shard = int(ctx.job.split("#")[1])
    for i in range(scale(ctx, 16, 250, 1, 30)):
        for ci, cls in enumerate(ALL + (("ConditionalInvariantModel",) if backend == "sparse" else ())):
            if backend == "spark" and ci % 5 != shard % 5:
                continue
            cid = "%s-%d" % (cls, i)
            if not ctx.wanted(cid):
                continue
            rng = ctx.case_rng(cid)
            cond = cls == "ConditionalInvariantModel"
            n = int(rng.choice([2, 3, 6, 11, 16]))
            if cond:
                S = cspec(rng, n=n, scale="mid")
                S.cls = cls
                S.param = np.array([S.d])
                fmt = str(rng.choice(["csr", "csc", "coo", "unsorted"]))
            else:
                S = spec(rng, cls, n=n, mode="mid" if rng.random() < .6 else "dense")
                fmt = str(rng.choice(FORMATS)) if S.multi else None
                if S.multi and backend == "dense":
                    fmt = str(rng.choice(["ndarray", "csr"]))

            def build(args=None, par=None):
                over = {}
                if cond:
                    if par is not None:
                        over["param"] = par.copy()
                    return S.build(**over)
                if args is not None and cls != "RandomDiGraph":
                    over["prop_out"] = args("out fitness", as_format(S.x, fmt) if S.multi else S.x.copy())
                    over["prop_in"] = args("in fitness", as_format(S.y, fmt) if S.multi else S.y.copy())
                    over["param"] = args("parameters", S.param.copy())
                if par is not None:
                    over["param"] = par.copy()
                return S.build(backend, rng, fmt, **over)
            with ctx.case(cid, dict(S.info(), fmt=fmt), nontrivial=n > 1):
                history(ctx, cls, build, S, rng, spark, steps=(25 if not spark else 7), refits=1 if spark else 2, cond=cond)
    if backend != "spark":
        for cid, kind, rng, T in tables(ctx, n_quick=16, n_thorough=250):
            with ctx.case(cid, gen.describe(T)):
                v, e, kw = gen.frames(rng, T)
                v0, e0, kw0 = v.copy(), e.copy(), {k: list(x) if isinstance(x, list) else x for k, x in kw.items()}
                g = ctx.call(kind + ":constructor", getattr(bk.graph_module(backend), kind), v, e, **kw)
                ctx.call(kind + ":num_edges", g.num_edges)
                ctx.check(v.equals(v0) and e.equals(e0) and list(v.columns) == list(v0.columns) and v.index.equals(v0.index)
                          and list(e.columns) == list(e0.columns) and e.index.equals(e0.index) and kw == kw0,
                          kind + ":tables_untouched", "building a graph altered the caller's tables",
                          columns=list(v.columns) + list(e.columns))
                graph_history(ctx, backend, kind, rng, T, 40)
