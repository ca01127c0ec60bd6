"""Monitoring core: every observation of the real code goes through a Ctx.

A Ctx owns the seeded generator of one worker, counts what the monitors saw
(events per monitor, distinct cases), and records violations.  A violation is
identified by (property, key): `key` names the backend, model and clause that
failed, so that known findings can be matched without hiding anything else.
"""
import contextlib
import hashlib
import io
import json
import re
import sys
import time
import traceback
import warnings

import numpy as np


class Stop(Exception):
    """Raised to abandon the current case after a violation."""


def digest(*objs):
    h = hashlib.sha1()
    for o in objs:
        h.update(_enc(o))
    return h.hexdigest()[:16]


def _enc(o):
    if isinstance(o, np.ndarray):
        return str(o.dtype).encode() + str(o.shape).encode() + np.ascontiguousarray(o).tobytes()
    if hasattr(o, "tocsr"):
        return _enc(np.asarray(o.todense()))
    if isinstance(o, dict):
        return b"".join(_enc(k) + _enc(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return b"[" + b",".join(_enc(x) for x in o) + b"]"
    return repr(o).encode()


def jsonable(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"array": str(o.dtype), "shape": list(o.shape), "sha": digest(o)}
        return jsonable(o.tolist(), depth)
    if hasattr(o, "todense"):
        return jsonable(np.asarray(o.todense()), depth)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if np.isfinite(f) else repr(f)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x, depth + 1) for x in list(o)[:200]]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)[:200]


class Ctx:
    MAX_VIOL = 40

    def __init__(self, prop, job, seed, tier, deadline=None, only_case=None):
        self.prop, self.job, self.seed, self.tier = prop, job, seed, tier
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.deadline = self.t0 + deadline if deadline else None
        self.only_case = only_case
        self.events = {}
        self.violations = []
        self.vkeys = {}
        self.cases = 0
        self.nontrivial = set()
        self.samples = []
        self.extra = {}
        self.truncated = False
        self.case_id = None
        self.case_info = None
        self.rng = np.random.default_rng([seed, _h(prop), _h(job)])

    # ----- case management
    def case_rng(self, case_id):
        return np.random.default_rng([self.seed, _h(self.prop), _h(self.job), _h(case_id)])

    @contextlib.contextmanager
    def case(self, case_id, info=None, nontrivial=True, key=None):
        """One generated case. Unexpected exceptions of the code under test are
        violations; exceptions are attributed to the last monitored call."""
        self.case_id = case_id
        self.case_info = info if info is not None else {}
        self.cases += 1
        if nontrivial:
            self.nontrivial.add(digest(case_id, self.case_info))
        if len(self.samples) < 6:
            self.samples.append({"case": case_id, "info": jsonable(self.case_info)})
        try:
            yield
        except Stop:
            pass
        except Exception as e:
            # Not inside ctx.call: harness code met a value it cannot handle,
            # which means the code under test returned something malformed.
            self.violation("unexpected:" + type(e).__name__,
                           "case aborted: " + repr(e)[:300], tb=traceback.format_exc()[-1500:])

    def wanted(self, case_id):
        if self.only_case is not None and self.only_case != case_id:
            return False
        if self.deadline and time.time() > self.deadline:
            self.truncated = True
            return False
        return True

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    # ----- verdicts
    def violation(self, key, msg, **detail):
        key = self.job.split("#")[0] + "/" + key
        bk = sys.modules.get("mon.backends")
        if bk is not None and bk.LOCAL and bk.sc().unsupported:
            # the in-process context lacks something the code uses: no verdict from it
            self.extra["local_context_unsupported"] = sorted(bk.sc().unsupported)
            return
        n = self.vkeys.get(key, 0)
        self.vkeys[key] = n + 1
        if n < 3 and len(self.violations) < self.MAX_VIOL:
            self.violations.append(dict(key=key, msg=msg, case=self.case_id,
                                        info=jsonable(self.case_info), detail=jsonable(detail)))

    def check(self, ok, key, msg="", **detail):
        self.ev(key.split("@")[0])
        if not bool(ok):
            self.violation(key, msg or "condition false", **detail)
            return False
        return True

    def close(self, got, exp, key, rtol=1e-9, atol=1e-12, **detail):
        """Compare with the oracle. NaN anywhere is a difference unless expected."""
        self.ev(key.split("@")[0])
        try:
            g = np.asarray(todense(got), dtype=np.float64)
        except Exception as e:
            self.violation(key, "result not numeric: %r (%r)" % (got, e))
            return False
        x = np.asarray(exp, dtype=np.float64)
        if g.shape != x.shape:
            self.violation(key, "shape %s instead of %s" % (g.shape, x.shape), got=g, expected=x, **detail)
            return False
        with np.errstate(all="ignore"):
            bad = ~((g == x) | (np.abs(g - x) <= atol + rtol * np.abs(x)) | (np.isnan(g) & np.isnan(x)))
        if np.any(bad):
            if g.ndim == 0:
                w = "got %r expected %r" % (float(g), float(x))
            else:
                i = np.argwhere(bad)[0]
                w = "%d of %d entries differ, first at %s: got %r expected %r" % (
                    bad.sum(), bad.size, tuple(int(v) for v in i), float(g[tuple(i)]), float(x[tuple(i)]))
            self.violation(key, w, got=g, expected=x, **detail)
            return False
        return True

    def call(self, key, fn, *a, **k):
        """Call the code under test; an exception is a violation of the clause."""
        self.ev("calls")
        try:
            with quiet():
                return fn(*a, **k)
        except Exception as e:
            self.violation(key + ":raised", "%s: %s" % (type(e).__name__, describe(e)),
                           tb=traceback.format_exc()[-1500:])
            raise Stop()

    def trycall(self, key, fn, *a, **k):
        """As call(), but the case goes on (None is returned)."""
        try:
            return self.call(key, fn, *a, **k)
        except Stop:
            return None

    def refuses(self, key, fn, *a, **k):
        """The code under test must raise."""
        self.ev(key.split("@")[0])
        try:
            with quiet():
                r = fn(*a, **k)
        except Exception:
            return True
        self.violation(key, "invalid request accepted, returned %r" % (str(type(r)),))
        return False

    def result(self):
        return dict(prop=self.prop, job=self.job, seed=self.seed, cases=self.cases,
                    nontrivial=len(self.nontrivial), events=self.events,
                    violations=self.violations, vkeys=self.vkeys, samples=self.samples,
                    truncated=self.truncated, extra=jsonable(self.extra), wall=time.time() - self.t0)


def describe(e):
    """First line of an exception; for failed distributed tasks the error of the task."""
    t = str(e)
    if "PythonException" in t:
        m = re.findall(r"^(?:\w+\.)*\w*(?:Error|Exception)\b.*(?:\n(?!\s+at ).*){0,3}", t, re.M)
        if m:
            return " | ".join(x.strip() for x in m)[:600]
    return t[:400]


def _h(s):
    return int(hashlib.sha1(str(s).encode()).hexdigest()[:8], 16)


def todense(m):
    if hasattr(m, "todense"):
        return np.asarray(m.todense())
    if isinstance(m, (list, tuple)) and len(m) and hasattr(m[0], "todense"):
        return np.stack([np.asarray(x.todense()) for x in m])
    return np.asarray(m)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


@contextlib.contextmanager
def recorded():
    """Record warnings raised inside."""
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        yield w
