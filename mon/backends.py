"""The three implementations of the models behind one interface, and the
SparkContext the distributed ones run on. Only the public API is used."""
import os

import numpy as np
import scipy.sparse as sp
from numba import njit

import graph_ensembles as DENSE
import graph_ensembles.sparse as SPARSE

_SPARK = None
_SC = None
LOCAL = False     # the distributed models run on the in-process context


@njit
def _seed(n):
    np.random.seed(n)


def seed_rng(n):
    """Seed both numpy's and the compiled code's global generators."""
    n = int(n) % (2 ** 31)
    _seed(n)
    np.random.seed(n)


def sc(master=None):
    """The worker's SparkContext."""
    global _SC
    if _SC is None and LOCAL:
        from .localrdd import LocalContext
        _SC = LocalContext(seed=LOCAL)
    if _SC is None:
        from pyspark import SparkConf, SparkContext
        conf = SparkConf().setMaster(master or "local[2,4]").setAppName("mon")
        conf.set("spark.ui.enabled", "false")
        conf.set("spark.ui.showConsoleProgress", "false")
        conf.set("spark.driver.host", "127.0.0.1")
        conf.set("spark.driver.bindAddress", "127.0.0.1")
        conf.set("spark.driver.memory", "1g")
        _SC = SparkContext(conf=conf)
        _SC.setLogLevel("OFF")
    return _SC


def stop_spark():
    global _SC
    if _SC is not None:
        _SC.stop()
        _SC = None


def spark_mod():
    global _SPARK
    if _SPARK is None:
        import graph_ensembles.spark as S
        _SPARK = S
    return _SPARK


def module(backend):
    return {"dense": DENSE, "sparse": SPARSE}.get(backend) or spark_mod()


def graph_module(backend):
    """Graph classes a backend works with."""
    return DENSE if backend == "dense" else SPARSE


def model(backend, cls, *args, p_blocks=None, sc_=None, **kw):
    """Instantiate model class `cls` of a backend."""
    C = getattr(module(backend), cls)
    if backend == "spark":
        if p_blocks is not None:
            kw["p_blocks"] = p_blocks
        return C(sc_ if sc_ is not None else sc(), *args, **kw)
    return C(*args, **kw)


def has(backend, cls):
    return hasattr(module(backend), cls)
