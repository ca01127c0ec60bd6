"""Seeded generators of hostile inputs: tables, fitnesses, parameters, graphs."""
import numpy as np
import pandas as pd

KINDS = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")


def _pool(rng, kind, n):
    """n distinct hashable, sortable keys of one kind."""
    if kind == "int":
        return [int(x) for x in rng.permutation(4 * n)[:n] - n]
    if kind == "bigint":
        return [int(x) * 10 ** 11 + 7 for x in rng.permutation(3 * n)[:n]]
    if kind == "str":
        return ["k%d%s" % (x, "é" if x % 5 == 0 else "") for x in rng.permutation(3 * n)[:n]]
    if kind == "float":
        return [float(x) / 8 for x in rng.permutation(3 * n)[:n]]
    if kind == "comp":  # composite: two columns
        a = int(np.ceil(np.sqrt(2 * n))) + 1
        cells = rng.permutation(a * a)[:n]
        return [("a%d" % (c // a), int(c % a)) for c in cells]
    raise ValueError(kind)


def _cols(df, name, vals, kind):
    """Store keys in column(s); return the column spec to pass."""
    if kind == "comp":
        df[name + "A"] = [v[0] for v in vals]
        df[name + "B"] = [v[1] for v in vals]
        return [name + "A", name + "B"]
    df[name] = vals
    return name


def table(rng, multi, n=None, weighted=None, grouped=None, dens=None, idkind=None, labels=None,
          shape=None):
    """A random vertex table + edge list. Returns a plain description.

    shape selects sizes across the 8-bit boundary, where the width of the
    stored indices changes: many vertices, labels or groups, or a hub whose
    degree does not fit in a byte."""
    big = int(rng.choice([254, 255, 256, 257, 258, 300]))
    if shape == "vertices" or shape == "groups" or shape == "hub":
        n = big
        dens = 0.003
    elif shape == "labels":
        n, labels, dens = int(rng.choice([3, 5, 9])), big, 40.0
    if n is None:
        n = int(rng.choice([2, 3, 4, 5, 7, 9, 13, 20]))
    idkind = idkind or str(rng.choice(["int", "bigint", "str", "float", "comp"]))
    gkind = str(rng.choice(["int", "str", "comp"]))
    lkind = str(rng.choice(["int", "str", "comp", "float"]))
    weighted = bool(rng.random() < 0.7) if weighted is None else weighted
    grouped = bool(rng.random() < 0.7) if grouped is None else grouped
    ids = _pool(rng, idkind, n)
    ng = int(rng.integers(1, min(n, 5) + 1))
    if shape == "groups":
        ng, grouped = n, True
    gpool = _pool(rng, gkind, ng)
    groups = {v: gpool[int(rng.integers(ng))] for v in ids} if grouped else None
    if shape == "groups":
        groups = {v: gpool[i] for i, v in enumerate(ids)}
    nl = labels or int(rng.integers(1, 5))
    lpool = _pool(rng, lkind, nl)
    dens = dens if dens is not None else float(rng.choice([0.05, 0.2, 0.5, 0.9]))
    active = [v for v in ids if rng.random() < 0.85] or ids[:1]
    m = max(1, int(dens * len(active) ** 2))
    m = min(m, 400 if shape != "labels" else 900)
    wkind = str(rng.choice(["int", "float", "wide", "tiny", "int8", "uint8", "float32"], p=[.2, .2, .2, .2, .08, .06, .06]))
    edges = []

    def w():
        if not weighted:
            return None
        if wkind == "int":
            return int(rng.integers(1, 50))
        if wkind == "int8":
            return int(rng.integers(1, 128))
        if wkind == "uint8":
            return int(rng.integers(1, 256))
        if wkind == "float32":  # eighths: sums are exact in single precision
            return float(rng.integers(1, 400)) / 8
        if wkind == "float":
            return float(rng.random() * 3 + 1e-3)
        if wkind == "tiny":
            return float(rng.random() * 0.4 + 0.01)
        return float(10.0 ** rng.uniform(-6, 6))
    for _ in range(m):
        s = active[int(rng.integers(len(active)))]
        t = active[int(rng.integers(len(active)))]
        edges.append((s, t, lpool[int(rng.integers(nl))] if multi else None, w()))
    if shape == "labels":  # every label used, many on the same pair
        s, t = active[0], active[-1]
        edges += [(s, t, x if multi else None, w()) for x in lpool]
    if shape == "hub":
        h = ids[int(rng.integers(n))]
        l = lpool[int(rng.integers(nl))] if multi else None
        edges += [(h, v, l, w()) for v in ids if rng.random() < 0.995]
        edges += [(v, h, l, w()) for v in ids if rng.random() < 0.995]
    # duplicates, reciprocal copies, self-loops
    for _ in range(int(rng.integers(0, 4))):
        s, t, l, _ = edges[int(rng.integers(len(edges)))]
        edges.append((s, t, l, w()))
    for _ in range(int(rng.integers(0, 4))):
        s, t, l, _ = edges[int(rng.integers(len(edges)))]
        edges.append((t, s, lpool[int(rng.integers(nl))] if multi else None, w()))
    for _ in range(int(rng.integers(0, 3))):
        s = active[int(rng.integers(len(active)))]
        edges.append((s, s, lpool[int(rng.integers(nl))] if multi else None, w()))
    edges = [edges[i] for i in rng.permutation(len(edges))]
    return dict(n=n, ids=ids, idkind=idkind, groups=groups, gkind=gkind, lkind=lkind, edges=edges,
                weighted=weighted, multi=multi, wkind=wkind if weighted else None)


def frames(rng, T):
    """Fresh DataFrames for a description, rows shuffled, odd indexes; returns
    (v, e, kwargs)."""
    ids = [T["ids"][i] for i in rng.permutation(len(T["ids"]))]
    v = pd.DataFrame(index=rng.permutation(len(ids)) + 3)
    kw = {"v_id": _cols(v, "id", ids, T["idkind"])}
    if T["groups"] is not None:
        kw["v_group"] = _cols(v, "g", [T["groups"][x] for x in ids], T["gkind"])
    E = [T["edges"][i] for i in rng.permutation(len(T["edges"]))]
    e = pd.DataFrame(index=rng.permutation(len(E)) + 11)
    kw["src"] = _cols(e, "s", [x[0] for x in E], T["idkind"])
    kw["dst"] = _cols(e, "d", [x[1] for x in E], T["idkind"])
    if T["multi"]:
        kw["edge_label"] = _cols(e, "l", [x[2] for x in E], T["lkind"])
    if T["weighted"]:
        e["w"] = [x[3] for x in E]
        if T["wkind"] in ("int8", "uint8", "float32") and all(0 < x[3] < 256 and x[3] * 8 == int(x[3] * 8) for x in E):
            e["w"] = e["w"].astype(T["wkind"])
        kw["weight"] = "w"
    if rng.random() < 0.3:  # one-element lists are accepted as column names
        for k in list(kw):
            if isinstance(kw[k], str) and rng.random() < 0.5:
                kw[k] = [kw[k]]
    return v, e, kw


def describe(T):
    return dict(n=T["n"], idkind=T["idkind"], groups=None if T["groups"] is None else len(set(T["groups"].values())),
                weighted=T["weighted"], wkind=T["wkind"], multi=T["multi"],
                labels=len({x[2] for x in T["edges"]}), edges=[list(x) for x in T["edges"][:25]], m=len(T["edges"]))


def build(backend_mod, kind, rng, T):
    v, e, kw = frames(rng, T)
    return getattr(backend_mod, kind)(v, e, **kw)


# ------------------------------------------------------------------ models
def fitness(rng, n, kind=None):
    """Out/in fitness pair of length n."""
    kind = kind or str(rng.choice(["uniform", "lognormal", "pareto", "zeros", "int", "equal"]))
    if kind == "uniform":
        x, y = rng.random(n) * 5 + 0.01, rng.random(n) * 5 + 0.01
    elif kind == "lognormal":
        x, y = rng.lognormal(0, 2, n), rng.lognormal(0, 2, n)
    elif kind == "pareto":
        x, y = rng.pareto(1.2, n) + 0.1, rng.pareto(1.2, n) + 0.1
    elif kind == "zeros":
        x, y = rng.random(n) * 4 + 0.1, rng.random(n) * 4 + 0.1
        x[rng.random(n) < 0.35] = 0
        y[rng.random(n) < 0.35] = 0
        if not x.any():
            x[int(rng.integers(n))] = 1.5
        if not y.any():
            y[int(rng.integers(n))] = 2.5
    elif kind == "int":
        x, y = rng.integers(0, 30, n), rng.integers(0, 30, n)
        x[int(rng.integers(n))] = 7
        y[int(rng.integers(n))] = 5
        return x.astype(np.int64), y.astype(np.int64), kind
    else:
        x, y = np.full(n, 1.7), np.full(n, 0.3)
    return x, y, kind


def fitness_layers(rng, n, L, kind=None):
    X, Y = np.zeros((n, L)), np.zeros((n, L))
    ks = []
    for k in range(L):
        kk = kind or str(rng.choice(["uniform", "lognormal", "zeros"], p=[.25, .25, .5]))
        x, y, kk = fitness(rng, n, kk)
        X[:, k], Y[:, k] = x, y
        ks.append(kk)
    return X, Y, "+".join(ks)
