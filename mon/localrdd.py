"""A SparkContext that runs every task in this process, for reach: the
distributed models' own code (partitioning, closures, kernels, folds) runs
unchanged on it, a hundred times faster than through a JVM and with the
compiled kernels shared, so that thousands of models can be driven. What Spark
guarantees is kept: a task gets its own deserialised copy of the closure and
of its data, tasks run in any order, may be run again (the first result is
lost), and results are folded per partition, then in partition order or, as
with any associative operation, in any other.

Everything else (map, fold, aggregate, reduceByKey, ...) is inherited from
pyspark's RDD, which builds it from mapPartitionsWithIndex and collect.
Real Spark runs are kept beside these for scheduling, processes and random
streams."""
import itertools
import random

from pyspark import RDD, SparkContext, StorageLevel, TaskContext
from pyspark.serializers import CloudPickleSerializer, CPickleSerializer

CP, PS = CloudPickleSerializer(), CPickleSerializer()


class Unsupported(AttributeError):
    pass


class Task:
    """What a task may ask about itself."""

    def __init__(self, index, task):
        self._i, self._t = index, task

    def partitionId(self):
        return self._i

    def taskAttemptId(self):
        return self._t

    def attemptNumber(self):
        return 0

    def stageId(self):
        return 0


class LocalRDD(RDD):
    def __init__(self, ctx, parts, f=None, prev=None):
        self.ctx = ctx
        self._parts, self._f, self._prev = parts, f, prev
        self.is_cached = self.is_checkpointed = False
        self.has_been_cached = False
        self.partitioner = None
        self._id = next(ctx._ids)
        self._jrdd_deserializer = PS

    @property
    def _jrdd(self):
        self.ctx._lack("RDD internals")

    def id(self):
        return self._id

    def getNumPartitions(self):
        return len(self._parts) if self._prev is None else self._prev.getNumPartitions()

    def mapPartitionsWithIndex(self, f, preservesPartitioning=False):
        return LocalRDD(self.ctx, None, f, self)

    def _compute(self, command, index):
        """One task: its own copy of the closures and of its data."""
        fs, parts = CP.loads(command[0]), command[1]
        it = iter(PS.loads(parts[index]))
        self.ctx._task += 1
        TaskContext._taskContext = Task(index, self.ctx._task)
        try:
            for f in reversed(fs):
                it = iter(f(index, it))
            return PS.dumps(list(it))
        finally:
            TaskContext._taskContext = None

    def _command(self):
        """The serialised chain of closures and the source of the data."""
        fs, r = [], self
        while r._prev is not None:
            fs.append(r._f)
            r = r._prev
        return CP.dumps(fs), r._parts

    def collect(self):
        c = self.ctx
        n = self.getNumPartitions()
        order = list(range(n))
        c.rnd.shuffle(order)
        cmd = self._command()
        res = {}
        for i in order:
            c.tasks += 1
            r = self._compute(cmd, i)
            if c.rnd.random() < c.retry:
                c.retries += 1
                r = self._compute(cmd, i)
            res[i] = r
        c.jobs += 1
        c.orders.add(hash(tuple(order)))
        return list(itertools.chain.from_iterable(PS.loads(res[i]) for i in range(n)))

    def cache(self):
        self.is_cached = True
        return self

    def persist(self, storageLevel=StorageLevel.MEMORY_ONLY):
        return self.cache()

    def unpersist(self, blocking=False):
        self.is_cached = False
        return self

    def union(self, other):
        return self.ctx._from([PS.loads(p) for r in (self, other) for p in r._materialise()])

    def _materialise(self):
        cmd = self._command()
        return [self._compute(cmd, i) for i in range(self.getNumPartitions())]

    def coalesce(self, numPartitions, shuffle=False):
        return self.ctx.parallelize(self.collect(), numPartitions)

    def repartition(self, numPartitions):
        return self.coalesce(numPartitions)

    def take(self, num):
        return self.collect()[:num]

    def first(self):
        return self.take(1)[0]

    def toLocalIterator(self, prefetchPartitions=False):
        return iter(self.collect())

    def foreach(self, f):
        self.map(f).collect()

    def treeReduce(self, f, depth=2):
        return self.reduce(f)

    def treeAggregate(self, zeroValue, seqOp, combOp, depth=2):
        return self.aggregate(zeroValue, seqOp, combOp)


class LocalBroadcast:
    def __init__(self, value):
        self.value = value

    def unpersist(self, blocking=False):
        pass

    destroy = unpersist


class LocalContext(SparkContext):
    def __init__(self, seed=0, retry=.1, parallelism=4):
        self.rnd = random.Random("local/%s" % seed)
        self.retry = retry
        self.tasks = self.retries = self.jobs = 0
        self.orders = set()
        self._ids = itertools.count()
        self._task = 0
        self.unsupported = set()
        self._par = parallelism
        self.serializer = PS
        self.environment = {}
        self.master = "in-process"

    def _lack(self, what):
        self.unsupported.add(what)
        raise Unsupported(what)

    _jsc = property(lambda self: self._lack("_jsc"))
    _jvm = property(lambda self: self._lack("_jvm"))
    _gateway = property(lambda self: self._lack("_gateway"))
    _conf = property(lambda self: self._lack("_conf"))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self._lack(name)

    @property
    def defaultParallelism(self):
        return self._par

    defaultMinPartitions = defaultParallelism

    def _from(self, parts):
        return LocalRDD(self, [PS.dumps(list(p)) for p in parts])

    def parallelize(self, c, numSlices=None):
        c = list(c)
        k = int(numSlices) if numSlices is not None else self._par
        k = max(k, 1)
        return self._from([c[len(c) * i // k: len(c) * (i + 1) // k] for i in range(k)])

    def range(self, start, end=None, step=1, numSlices=None):
        if end is None:
            start, end = 0, start
        return self.parallelize(range(start, end, step), numSlices)

    def union(self, rdds):
        r = rdds[0]
        for x in rdds[1:]:
            r = r.union(x)
        return r

    def broadcast(self, value):
        return LocalBroadcast(value)

    def setLogLevel(self, logLevel):
        pass

    def stop(self):
        pass

    def __del__(self):
        pass

    def __repr__(self):
        return "<LocalContext>"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
