"""One worker process: runs the cases of one job of one property."""
import argparse
import importlib
import json
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("job")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--deadline", type=float, default=None)
    ap.add_argument("--case", default=None)
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    from mon.core import Ctx
    ctx = Ctx(a.prop, a.job, a.seed, a.tier, a.deadline, a.case)
    try:
        import graph_ensembles
        want = os.environ["VERIF_SRC"]
        assert os.path.realpath(graph_ensembles.__file__).startswith(os.path.realpath(want)), \
            "wrong graph_ensembles: " + graph_ensembles.__file__
        from mon import backends
        backends.seed_rng(a.seed * 7919 + sum(map(ord, a.prop + a.job)))
        if ":local" in a.job:
            backends.LOCAL = "%s/%s/%d" % (a.prop, a.job, a.seed)
        mod = importlib.import_module("mon.props." + a.prop.lower())
        mod.run(ctx)
        if backends.LOCAL:
            s = backends.sc()
            ctx.ev("local_jobs", s.jobs)
            ctx.ev("local_tasks", s.tasks)
            ctx.ev("local_tasks_run_twice", s.retries)
            ctx.ev("local_task_orders", len(s.orders))
        res = ctx.result()
        res["ok"] = True
    except BaseException:
        res = ctx.result()
        res["ok"] = False
        res["error"] = traceback.format_exc()[-3000:]
        sys.stderr.write(res["error"])
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(a.out + ".tmp", a.out)
    try:
        from mon import backends
        backends.stop_spark()
    except BaseException:
        pass
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
