"""Hostile scheduling for the distributed backend: every task of every job is
delayed at random, one task of some jobs fails after having done its work and is retried, and
nothing is cached, so each job goes through the injected faults again. Each
task appends one record to a log, from which the monitors count what happened."""
import os
import random
import tempfile
import types

from . import backends as bk

ON = dict(active=False, delay=0.0, fail=0.0, log=None, salt=0)


class TaskFault(Exception):
    pass


def wrap(conf):
    def inner(index, it):
        import time
        from pyspark import TaskContext
        a = TaskContext.get().attemptNumber()
        stage = TaskContext.get().stageId()
        r = random.Random("%s/%s/%s/%s" % (conf["salt"], stage, index, a))
        d = r.random() ** 3 * conf["delay"]
        if d > 0:
            time.sleep(d)
        k = 0
        for x in it:
            yield x
            k += 1
        if r.random() < .3 and conf["delay"] > 0:
            time.sleep(r.random() * conf["delay"])
        # one task of some jobs fails (a failing python worker is replaced, which is slow)
        q = random.Random("%s/%s" % (conf["salt"], stage))
        bad = q.random() < conf["fail"] and a <= q.randrange(2) and index == q.randrange(conf["slices"])
        with open(conf["log"], "a") as f:
            f.write("%d %d %d %d %d\n" % (stage, index, a, k, bad))
        if bad:
            raise TaskFault("injected")
    return inner


def install(delay=0.02, fail=0.15, salt=0, master=None):
    """Patch this process's SparkContext."""
    s = bk.sc(master)
    fd, log = tempfile.mkstemp(prefix="mon-chaos-", dir=os.environ.get("VERIF_TMP"))
    os.close(fd)
    ON.update(active=True, delay=delay, fail=fail, log=log, salt=salt)
    real = type(s).parallelize

    def parallelize(self, c, numSlices=None):
        rdd = real(self, c, numSlices)
        if not ON["active"]:
            return rdd
        rdd = rdd.mapPartitionsWithIndex(wrap(dict(ON, slices=rdd.getNumPartitions())), True)
        rdd.cache = types.MethodType(lambda r: r, rdd)
        rdd.persist = types.MethodType(lambda r, *a, **k: r, rdd)
        return rdd
    s.parallelize = types.MethodType(parallelize, s)
    return s


def drain():
    """(tasks, failed attempts, distinct completion orders of stages)."""
    if not ON["log"] or not os.path.exists(ON["log"]):
        return 0, 0, set()
    rec = [tuple(map(int, l.split())) for l in open(ON["log"]) if l.strip()]
    open(ON["log"], "w").close()
    st = {}
    for s, i, a, k, b in rec:
        st.setdefault(s, []).append((i, a, b))
    return len(rec), sum(r[4] for r in rec), {tuple(v) for v in st.values() if len(v) > 1}


def remove():
    if ON["log"] and os.path.exists(ON["log"]):
        os.unlink(ON["log"])
