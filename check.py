#!/usr/bin/env python3
"""Run the check of one property.

  check.py P06 [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs a,b]

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)


def worker_env(scratch, src, extra):
    keep = {k: v for k, v in os.environ.items()
            if k in ("HOME", "LANG", "LC_ALL", "JAVA_HOME", "USER", "VERIF_SEED", "VERIF_TIER")}
    e = dict(keep)
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["PYTHONPATH"] = src + ":" + HERE
    e["VERIF_SRC"] = src
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    e["TMPDIR"] = os.path.join(scratch, "tmp")
    e["SPARK_LOCAL_DIRS"] = os.path.join(scratch, "tmp")
    e["PYSPARK_PYTHON"] = PY
    e["PYSPARK_DRIVER_PYTHON"] = PY
    e["SPARK_LOCAL_IP"] = "127.0.0.1"
    e["SPARK_LOCAL_HOSTNAME"] = "localhost"
    e["PYSPARK_SUBMIT_ARGS"] = (
        "--conf spark.ui.enabled=false --conf spark.ui.showConsoleProgress=false "
        "--driver-java-options=-Djava.io.tmpdir=" + os.path.join(scratch, "tmp") + " pyspark-shell")
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = e["MKL_NUM_THREADS"] = "1"
    e["MPLCONFIGDIR"] = os.path.join(scratch, "tmp")
    e.update(extra or {})
    return e


def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs")
    ap.add_argument("--parallel", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--self-test", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        # nothing to build: the checks import /repo's working tree directly
        return subprocess.call([PY, "-c", "import numba, scipy, pandas, pyspark, networkx; print('ready')"])
    if not a.prop:
        ap.error("property id needed")
    prop = a.prop
    only_case = None
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, a.jobs = r["seed"], r["tier"], r["violation"]["job"]
        only_case = r["violation"]["case"]

    jobs_mod = importlib.import_module("mon.jobs")
    spec = jobs_mod.PROPS[prop]
    jobs = jobs_mod.jobs(prop, a.tier)
    if a.jobs:
        want = a.jobs.split(",")
        jobs = [j for j in jobs if any(j["name"] == w or j["name"].split("#")[0] == w for w in want)]
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    soft = 420 if a.tier == "quick" else 2700
    hard = 780 if a.tier == "quick" else 4500
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    os.mkdir(os.path.join(scratch, "tmp"))
    running, results, queue = [], [], list(jobs)
    try:
        n = 0
        while queue or running:
            while queue and sum(r[1].get("cores", 1) for r in running) + queue[0].get("cores", 1) <= max(a.parallel, queue[0].get("cores", 1)):
                j = queue.pop(0)
                n += 1
                out = os.path.join(scratch, "job%d.json" % n)
                cmd = [PY, "-m", "mon.worker", prop, j["name"], "--seed", str(a.seed), "--tier", a.tier,
                       "--deadline", str(soft), "--out", out]
                if only_case:
                    cmd += ["--case", only_case]
                log = open(out + ".log", "wb")
                p = subprocess.Popen(cmd, cwd=scratch, env=worker_env(scratch, src, j.get("env")), stdout=log,
                                     stderr=subprocess.STDOUT, start_new_session=True)
                running.append((p, j, out, time.time()))
            time.sleep(0.05)
            for r in list(running):
                p, j, out, ts = r
                timeout = False
                if p.poll() is None:
                    if time.time() - t0 < hard:
                        continue
                    timeout = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                running.remove(r)
                log = open(out + ".log", errors="replace").read()[-4000:]
                if os.path.exists(out):
                    res = json.load(open(out))
                else:
                    res = dict(ok=False, job=j["name"], cases=0, nontrivial=0, events={}, violations=[], vkeys={},
                               samples=[], truncated=False, extra={}, wall=time.time() - ts,
                               error="timeout" if timeout else "worker ended with status %s" % p.returncode)
                    if timeout or p.returncode not in (0, 1):
                        what = "did not terminate" if timeout else "process died with status %s" % p.returncode
                        if p.returncode != -9 or timeout:
                            res["violations"].append(dict(key=j["name"].split("#")[0] + "/crash", msg=what, case=None, info=None,
                                                          detail={"log": log[-2000:]}))
                            res["vkeys"][j["name"].split("#")[0] + "/crash"] = 1
                            res["ok"] = True
                res["log"] = log
                results.append(res)
                if a.v:
                    print("job %-28s cases=%d nontrivial=%d viol=%s wall=%.1fs %s" % (
                        j["name"], res["cases"], res["nontrivial"], sum(res["vkeys"].values()), res["wall"],
                        "" if res["ok"] else "ERROR"), flush=True)
    finally:
        for p, *_ in running:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    # ----- merge
    events, vkeys, viols, samples, extra = {}, {}, [], [], {}
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["vkeys"].items():
            vkeys[k] = vkeys.get(k, 0) + v
        for v in r["violations"]:
            v["job"] = r["job"]
            viols.append(v)
        for s in r["samples"][:3]:
            samples.append(dict(s, job=r["job"]))
        if r["extra"]:
            extra[r["job"]] = r["extra"]
    known, new = [], []
    findings = [f for f in load_findings() if f["property"] == prop and f.get("status") == "open"]
    for v in viols:
        f = next((f for f in findings if v["key"] in f["keys"]), None)
        (known if f else new).append((v, f))
    # distinct violation keys that could not be stored in the list
    for k, c in vkeys.items():
        if not any(v["key"] == k for v in viols) and not any(k in f["keys"] for f in findings):
            new.append((dict(key=k, msg="(not stored)", case=None, info=None, detail=None, job="?"), None))
    errors = [r for r in results if not r["ok"]]
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration",
              coverage=dict(evaluations=sum(r["cases"] for r in results),
                            distinct_nontrivial=sum(r["nontrivial"] for r in results),
                            rule=spec["rule"], samples=samples[:40], monitor_events=events,
                            jobs=[dict(job=r["job"], cases=r["cases"], wall_s=round(r["wall"], 1),
                                       truncated=r["truncated"]) for r in results],
                            observed=extra),
              assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.replay and not a.jobs:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for f in {id(f): f for _, f in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if new:
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v, _ in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(d, "%s-%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in v["key"])[:80]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=a.seed, tier=a.tier, violation=v,
                               replay="python3 check.py %s --replay %s" % (prop, path)), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s case=%s: %s" % (v["key"], v["case"], v["msg"]))
        return 1
    if errors:
        for r in errors:
            print("ERROR in job %s: %s\n%s" % (r["job"], r.get("error"), r["log"][-1500:]), file=sys.stderr)
        return 2
    print("OK %s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d monitor events, %.0f s" % (
        prop, a.tier, a.seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"],
        sum(events.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
