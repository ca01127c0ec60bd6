"""Write MANIFEST.json from the registry of checks."""
import json

from mon import jobs

T = {
    "default": "runtime monitoring: reference-oracle monitors on the real code under generated workloads",
    "P11": "runtime monitoring: statistical trace monitors over logs of sampled graphs",
    "P12": "runtime monitoring: statistical trace monitors over logs of sampled weights",
    "P14": "runtime monitoring: invariant and statistical monitors over conditional samples",
    "P16": "runtime monitoring: cross-implementation differential monitors",
    "P17": "runtime monitoring: fault and delay injection in distributed tasks, trace checker of block coverage",
    "P18": "runtime monitoring: query-history replay against fresh objects, input snapshots",
    "P19": "runtime monitoring: bounds-check sanitizer in the compiled kernels, guarded arrays",
    "P09": "runtime monitoring: online monitor of every function evaluation made by the solver",
}
NOTE = ("Observed executions of the code in /repo only: held on every generated case (counts in the evidence file), "
        "no claim beyond them. Trusts numpy/scipy/numba/pyspark and the independent reference in mon/oracle.py; "
        "floating-point agreement to stated tolerances.")
EXTRA = {
    "P11": " Statistical: false-alarm probability below 1e-7 per run; deviations smaller than the sampling error are not seen.",
    "P12": " Statistical: false-alarm probability below 1e-7 per run; deviations smaller than the sampling error are not seen.",
    "P14": " The frequency and mean-weight clauses are statistical (false-alarm probability below 1e-7 per run).",
    "P17": " Schedules are sampled (injected delays, task failures and partitionings), not enumerated.",
    "P19": " Numba's bounds checker sees indices below -n and at or above n in every compiled kernel executed.",
}

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    if p in jobs.PROPS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                           thorough_cmd="python3 check.py %s --tier thorough" % p,
                           technique=T.get(p, T["default"]), level="exploration", level_note=NOTE + EXTRA.get(p, "")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="python3 check.py --self-test", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every monitor attaches from outside (public API, wrapped SparkContext, environment variables of the numba runtime)."),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
