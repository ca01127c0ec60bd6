"""Out-of-bounds accesses of the compiled kernels: the workloads of the other
monitors run with numba's bounds checker compiled into every kernel, in this
process and in the distributed workers. Only memory errors count here; what the
calls return is judged by the other properties."""
import importlib
import os
import re
import time

import numpy as np
import scipy.sparse as sp

from .. import backends as bk
from ..condcommon import cspec
from ..core import Ctx
from ..mcommon import ALL, MULTI, as_format, backend_of, local, owns, slow, spec

MEM = re.compile(r"IndexError|out of bounds|exited unexpectedly|Segmentation|SystemError|double free|corrupt", re.I)


class Shadow(Ctx):
    """Runs another property's workload; keeps only memory errors."""

    def __init__(self, parent, name, job, seconds):
        super().__init__(name, job, parent.seed + 1000, "quick", seconds, parent.only_case)
        self.parent, self.name = parent, name

    def wanted(self, cid):
        return super().wanted(cid.split("/", 1)[-1])

    def violation(self, key, msg, **detail):
        text = msg + str(detail.get("tb", ""))[-400:]
        if MEM.search(text):
            self.parent.case_id, self.parent.case_info = "%s/%s" % (self.name, self.case_id), self.case_info
            self.parent.violation("%s:%s" % (self.name, key.split(":raised")[0]), msg[:500], **{k: detail[k] for k in detail if k == "tb"})

    def ev(self, name, n=1):
        if name == "calls":
            self.parent.ev("calls_under_bounds_check", n)


def edge_cases(ctx, backend, rng, cls, n, L):
    """Shapes at the limits: one vertex, one label, more labels than vertices,
    empty layers, strengths missing where edges can be sampled."""
    S = spec(rng, cls, n=n, L=L if cls in MULTI else None, mode="mid")
    if S.multi and rng.random() < .6:
        k = int(rng.integers(S.L))
        S.x[:, k] = 0                         # an empty layer
    if S.multi and rng.random() < .5:
        S.x[int(rng.integers(n))] = 0         # a vertex without any fitness
        S.y[int(rng.integers(n))] = 0
    if S.multi and rng.random() < .3:
        S.x[-1] = 0
        S.y[-1] = 0
    fmt = str(rng.choice(["ndarray", "csr", "coo", "unsorted"])) if S.multi and backend != "dense" else None
    m = ctx.call(cls + ":build", S.build, backend, rng, fmt, p_blocks=int(rng.integers(1, 4)) if backend == "spark" else None)
    fs = ["expected_num_edges", "expected_degree"] + (["expected_num_edges_label", "expected_degree_by_label"] if S.multi else [])
    for f in fs:
        ctx.trycall(cls + ":" + f, getattr(m, f))
    for nd in ("out", "in", "out-in"):
        ctx.trycall(cls + ":av_nn", m.expected_av_nn_property, rng.random((n, 2)), ndir=nd, selfloops=bool(rng.integers(2)))
    for A in (np.zeros((n, n), bool), np.ones((n, n), bool), rng.random((n, n)) < .3):
        ctx.trycall(cls + ":log_likelihood", m.log_likelihood, sp.csr_array(A))
    if S.multi:
        for A in (np.zeros((S.L, n, n), bool), rng.random((S.L, n, n)) < .4):
            ctx.trycall(cls + ":log_likelihood3", m.log_likelihood, A)
    ctx.trycall(cls + ":sample", m.sample)
    sh = (n, S.L) if S.multi else n
    so, si = rng.random(sh), rng.random(sh)
    so[rng.random(sh) < .3] = 0
    si[rng.random(sh) < .3] = 0
    so[0], si[0] = 1.0, 1.0
    si = si * so.sum(axis=0) / si.sum(axis=0)
    if S.multi:
        kw = dict(out_strength_label=as_format(so, "csr") if rng.random() < .5 else so, in_strength_label=si)
    else:
        kw = dict(out_strength=so, in_strength=si)
    ctx.trycall(cls + ":cremb", m.sample, weights="cremb", **kw)
    if backend == "spark":
        ctx.trycall(cls + ":confusion", m.confusion_matrix, rng.random((n, n)) < .3, np.array([.2, .6]))
    if not S.multi and cls != "RandomDiGraph" or S.multi:
        t = max(1.0, .3 * n * n)
        kw = dict(num_edges_label=np.full(S.L, t), per_label=True) if S.multi and rng.random() < .5 else dict(num_edges=t)
        f = ctx.trycall(cls + ":build", S.build, backend, rng, fmt, param=None, **kw)
        if f is not None:
            ctx.trycall(cls + ":fit", f.fit)


def run(ctx):
    backend = backend_of(ctx)
    assert os.environ.get("NUMBA_BOUNDSCHECK") == "1"
    _armed(ctx)
    shard = int(ctx.job.split("#")[1])
    if backend == "lib":
        plan = [("P21", "lib#0", 60), ("P01", "sparse#0", 40), ("P02", "sparse#0", 40), ("P03", "sparse#0", 40), ("P04", "sparse#0", 25),
                ("P02", "dense#0", 30), ("P03", "dense#0", 30), ("P09", "solver#0", 20)]
    elif local(ctx):
        plan = [(p, ctx.job, t) for p, t in (("P06", 40), ("P07", 40), ("P08", 40), ("P10", 40), ("P13", 40), ("P22", 40))]
    elif backend == "spark":
        plan = [("P06", "spark#%d" % shard, 25), ("P10", "spark#%d" % shard, 25)]
    else:
        plan = [("P06", backend, 50), ("P07", backend, 50), ("P08", backend, 50), ("P10", backend, 50), ("P13", backend, 60), ("P18", backend, 40)]
        plan = [(p, j + "#%d" % shard, t) for p, j, t in plan]
        if backend == "sparse":
            plan += [("P15", "sparse#%d" % shard, 40), ("P14", "sparse#%d" % shard, 40)]
    f = 1 if ctx.quick else 6
    # shapes at the limits first
    if backend != "lib":
        for i in range((1 if slow(ctx) else 20) * f):
            for ci, cls in enumerate(ALL):
                if slow(ctx) and ci % 3 != shard % 3 or not owns(ctx, cls):
                    continue
                cid = "edge-%s-%d" % (cls, i)
                if not ctx.wanted(cid):
                    continue
                rng = ctx.case_rng(cid)
                n = int(rng.choice([1, 2, 3, 9, 17] if backend != "spark" else [1, 2, 9, 25]))
                sh = Shadow(ctx, "edge", ctx.job, 600)
                with sh.case(cid, dict(cls=cls, n=n)):
                    edge_cases(sh, backend, rng, cls, n, int(rng.choice([1, 2, 5, 12])))
                ctx.cases += 1
                ctx.nontrivial.add(cid + ctx.job)
    for name, job, secs in plan:
        if ctx.only_case is not None and not str(ctx.only_case).startswith(name + "/"):
            continue
        sh = Shadow(ctx, name, job, secs * f)
        t = time.time()
        importlib.import_module("mon.props." + name.lower()).run(sh)
        ctx.cases += sh.cases
        ctx.nontrivial |= {name + d for d in sh.nontrivial}
        ctx.ev("cases_of_%s" % name, sh.cases)
        if len(ctx.samples) < 6 and sh.samples:
            ctx.samples.append(dict(sh.samples[0], workload=name))
        ctx.extra[name] = dict(cases=sh.cases, seconds=round(time.time() - t, 1))


def _armed(ctx):
    """The sanitizer is really on: a deliberate overrun in a kernel of our own is reported."""
    from numba import jit

    @jit(nopython=True)
    def over(a):
        return a[len(a)]
    try:
        over(np.zeros(3))
        on = False
    except IndexError:
        on = True
    assert on, "bounds checker not active"
    ctx.ev("sanitizer_self_test")
    if backend_of(ctx) == "spark":
        r = bk.sc().parallelize([0, 1], 2).map(lambda _: __import__("os").environ.get("NUMBA_BOUNDSCHECK")).collect()
        assert r == ["1", "1"], r
        ctx.ev("sanitizer_self_test")
