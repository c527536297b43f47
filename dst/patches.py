"""Put every nondeterministic service of the Python runtime behind the simulator, before esat is imported.

Nothing in /repo is changed: esat reaches these services through the standard library's public names.
"""
import builtins
import collections
import concurrent.futures
import concurrent.futures.process
import datetime
import importlib.util
import io
import logging
import logging.handlers
import multiprocessing
import multiprocessing.pool
import os
import queue
import sys
import threading
import time
import types
import warnings

from . import core, fs, kernel

_done = False


class _ModeKernel(types.ModuleType):
    """The esat_rust module: a simulated native kernel, or (mode 'python') a module without one."""
    mode = "python"

    @staticmethod
    def clear_screen():
        return None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("ls_nmf", "ws_nmf"):
            if type(self).mode == "python":
                raise ModuleNotFoundError("No module named 'esat_rust'")
            return getattr(kernel, name)
        raise AttributeError(name)


RUST = None
SHOWN = []            # plot windows that would have opened


def set_kernel(mode):
    _ModeKernel.mode = mode


class _MPContext:
    """multiprocessing / a context of it."""

    def __getattr__(self, name):
        return getattr(multiprocessing, name)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, core.R_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, core.R_datetime)


def _make_datetime():
    R = core.R_datetime

    class datetime_(R, metaclass=_DTMeta):
        def __new__(cls, *a, **k):
            return R(*a, **k)

        @classmethod
        def now(cls, tz=None):
            s = core.active()
            if s is None:
                return R.now(tz)
            t = s.time()
            d = datetime.timedelta(seconds=t)
            base = R(1970, 1, 1) + d
            return base if tz is None else base.replace(tzinfo=datetime.timezone.utc).astimezone(tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now()
    datetime_.__name__ = "datetime"
    datetime_.__qualname__ = "datetime"
    datetime_.__module__ = "datetime"
    return datetime_


def install():
    global _done, RUST
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import numpy, scipy, pandas            # noqa: import libraries with the real runtime first
    import scipy.cluster.vq, scipy.sparse, scipy.sparse.csgraph, scipy.optimize   # noqa
    import sklearn, sklearn.impute, sklearn.experimental   # noqa
    import plotly.graph_objects, plotly.express, plotly.subplots   # noqa
    import psutil
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(_NoLock())
    numpy.seterr(all="ignore")

    RUST = _ModeKernel("esat_rust")
    sys.modules["esat_rust"] = RUST

    # time
    def _t(real, name):
        def f():
            s = core.active()
            return real() if s is None else getattr(s, name)()
        return f
    time.time = _t(core.R_time, "time")
    time.monotonic = _t(core.R_monotonic, "monotonic")
    time.perf_counter = _t(core.R_perf_counter, "monotonic")
    time.process_time = _t(time.process_time, "monotonic")
    time.time_ns = lambda: int(time.time() * 1e9)
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    time.perf_counter_ns = lambda: int(time.perf_counter() * 1e9)

    def sleep(d):
        s = core.active()
        if s is None:
            return core.R_sleep(d)
        s.sleep(d)
    time.sleep = sleep
    datetime.datetime = _make_datetime()

    # threads and queues
    threading.Thread = core.SimThread
    threading.Lock = core.make_lock
    threading.RLock = core.make_rlock
    threading.Event = core.make_event
    R_Queue, R_Simple = queue.Queue, queue.SimpleQueue

    queue.Queue = lambda maxsize=0: core.SimQueue(maxsize) if core.active() else R_Queue(maxsize)
    queue.SimpleQueue = lambda: core.SimQueue(0) if core.active() else R_Simple()

    # processes
    def need(cls):
        def make(*a, **k):
            if core.active() is None:
                raise RuntimeError("processes are only available inside the simulation")
            return cls(*a, **k)
        return make
    multiprocessing.Pool = need(core.SimPool)
    multiprocessing.Manager = need(core.SimManager)
    multiprocessing.Queue = lambda maxsize=0: core.SimQueue(maxsize, cross=True)
    multiprocessing.SimpleQueue = lambda: core.SimQueue(0, cross=True)
    multiprocessing.JoinableQueue = multiprocessing.Queue
    multiprocessing.cpu_count = lambda: _cpus()
    multiprocessing.get_context = lambda method=None: _MPContext()
    multiprocessing.set_start_method = lambda *a, **k: None
    multiprocessing.pool.Pool = need(core.SimPool)
    concurrent.futures.ProcessPoolExecutor = need(core.SimExecutor)
    concurrent.futures.process.ProcessPoolExecutor = concurrent.futures.ProcessPoolExecutor

    # the machine
    R_cpu = os.cpu_count

    def _cpus():
        s = core.active()
        return R_cpu() if s is None else s.cpu_count
    os.cpu_count = _cpus
    R_vm = psutil.virtual_memory
    VM = collections.namedtuple("svmem", "total available percent used free")

    def vm():
        s = core.active()
        if s is None:
            return R_vm()
        g = int(s.mem_gb * (1 << 30))
        return VM(g, g, 0.0, 0, g)
    psutil.virtual_memory = vm
    psutil.cpu_count = lambda logical=True: _cpus()
    os.getpid = lambda: core.R_getpid() if core.active() is None else core.active().current.proc.pid
    for _n in ("_exit", "kill", "system", "fork"):
        setattr(os, _n, _blocked("os." + _n, getattr(os, _n)))

    # logging: handler locks are real, so no preemption inside a handler
    R_call = logging.Logger.callHandlers

    def callHandlers(self, record):
        s = core.active()
        if s is None:
            return R_call(self, record)
        t = s.current
        t.noyield += 1
        try:
            R_call(self, record)
        finally:
            t.noyield -= 1
        if not s.over and not t.killed:
            s.yield_point("log")
    logging.Logger.callHandlers = callHandlers
    R_handle = logging.handlers.QueueListener.handle

    def lhandle(self, record):
        s = core.active()
        if s is None:
            return R_handle(self, record)
        s.log_handled += 1
        t = s.current
        t.noyield += 1
        try:
            return R_handle(self, record)
        finally:
            t.noyield -= 1
    logging.handlers.QueueListener.handle = lhandle
    R_enq = logging.handlers.QueueHandler.enqueue

    def enqueue(self, record):
        s = core.active()
        if s is not None and not s.over:
            R_enq(self, record)
            s.log_put += 1
        else:
            R_enq(self, record)
    logging.handlers.QueueHandler.enqueue = enqueue
    logging.raiseExceptions = False

    import plotly.basedatatypes

    def show(self, *a, **k):
        if len(SHOWN) < 50:
            SHOWN.append(self)
    plotly.basedatatypes.BaseFigure.show = show

    fs.install()
    load_repo()


def _blocked(name, real):
    def f(*a, **k):
        if core.active() is None:
            return real(*a, **k)
        raise RuntimeError(f"{name} called in the simulation")
    return f


class _NoLock:
    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def load_repo():
    repo = core.REPO
    sys.path.insert(0, repo)
    for k in [k for k in sys.modules if k == "esat" or k.startswith("esat.")]:
        del sys.modules[k]
    spec = importlib.util.spec_from_file_location("esat_eval", os.path.join(repo, "eval", "__init__.py"),
                                                  submodule_search_locations=[os.path.join(repo, "eval")])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["esat_eval"] = mod
    spec.loader.exec_module(mod)
    import esat
    if not os.path.realpath(esat.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"esat imported from {esat.__file__}, not {repo}")


MODULES = ["esat.utils", "esat.metrics", "esat.configs", "esat.model.sa", "esat.model.batch_sa", "esat.model.ls_nmf",
           "esat.model.ws_nmf", "esat.model.recombinator", "esat.error.bootstrap", "esat.error.displacement",
           "esat.error.bs_disp", "esat.error.error", "esat.rotational.constrained", "esat.estimator",
           "esat.data.datahandler", "esat.data.impute", "esat.data.test_tools", "esat.data.analysis",
           "esat_eval.simulator", "esat_eval.factor_comparison", "esat_eval.factor_catalog", "esat_eval.perturbation",
           "esat.cli.esat_cli"]


def import_all():
    import importlib
    for m in MODULES:
        try:
            importlib.import_module(m)
        except ModuleNotFoundError as ex:
            if ex.name and (ex.name.startswith("esat")):
                continue
            raise
