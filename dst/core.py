"""Seeded cooperative scheduler, simulated processes, clock, threads, queues and pools.

Real Python threads carry the code under test, but exactly one holds the baton at any time; which one runs next, and
when it is preempted (at queue operations, pool hand-offs, sleeps, joins and, if enabled, at any source line of the
repository) is decided by the Chooser.  Time is virtual.
"""
import collections
import copy
import datetime as _dt
import io
import logging
import os
import pickle
import queue as _queue
import random
import sys
import threading
import time
import types
import zlib

import numpy as np

# the real primitives, captured before patches.install() replaces the public names
R_Thread = threading.Thread
R_Lock = threading.Lock
R_RLock = threading.RLock
R_Event = threading.Event
R_Condition = threading.Condition
R_time = time.time
R_monotonic = time.monotonic
R_perf_counter = time.perf_counter
R_sleep = time.sleep
R_datetime = _dt.datetime
R_getpid = os.getpid
_thread_start = threading._start_new_thread

REPO = os.environ.get("DST_REPO", "/repo")
_ACTIVE = None            # the Sim in charge, if any


def active():
    """The simulation the calling thread belongs to, or None."""
    s = _ACTIVE
    if s is not None and s.current is not None and s.current.ident == threading.get_ident():
        return s
    return None


class SimKilled(BaseException):
    """Unwinds a simulated task whose process is gone or whose run is over."""


class SimCrash(SimKilled):
    """The simulated process crashed here."""


class SimHang(BaseException):
    """No task can make progress (or the step budget is spent)."""

    def __init__(self, report):
        super().__init__(report)
        self.report = report


_DATA = (list, dict, set, bytearray, np.ndarray, int, float, str, bytes, tuple, type(None), collections.deque,
         frozenset)
_CONTAINERS = (list, dict, set, bytearray, np.ndarray, collections.deque)


class ProcState:
    """The per-process state of the Python runtime that a context switch between processes must swap."""

    _cache = (None, None)

    @classmethod
    def _namespaces(cls):
        n = len(sys.modules)
        if cls._cache[0] == n:
            return cls._cache[1]
        out = []
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == "esat" or name.startswith("esat.") or name.startswith("esat_eval")):
                continue
            d = getattr(mod, "__dict__", None)
            if d is None:
                continue
            out.append((name, mod, d))
            for k, v in list(d.items()):
                if isinstance(v, type) and getattr(v, "__module__", None) == name:
                    out.append((f"{name}:{k}", v, v.__dict__))
        cls._cache = (n, out)
        return out

    @classmethod
    def save(cls):
        ns = {}
        for key, owner, d in cls._namespaces():
            ns[key] = (owner, {k: v for k, v in d.items()
                               if not k.startswith("__") and isinstance(v, _DATA)})
        return {
            "ns": ns,
            "handlers": list(logging.root.handlers),
            "level": logging.root.level,
            "random": random.getstate(),
            "np": np.random.get_state(),
            "environ": dict(os.environ._data),
        }

    @classmethod
    def load(cls, st):
        for key, owner, d in cls._namespaces():
            if key not in st["ns"]:
                continue
            want = st["ns"][key][1]
            for k in [k for k, v in d.items()
                      if not k.startswith("__") and isinstance(v, _DATA) and k not in want]:
                delattr(owner, k)
            for k, v in want.items():
                if d.get(k, _CONTAINERS) is not v:
                    setattr(owner, k, v)
        logging.root.handlers[:] = st["handlers"]
        logging.root.setLevel(st["level"])
        random.setstate(st["random"])
        np.random.set_state(st["np"])
        if os.environ._data != st["environ"]:
            for k in list(os.environ._data):
                if k not in st["environ"]:
                    del os.environ[os.fsdecode(k)]
            for k, v in st["environ"].items():
                os.environ[os.fsdecode(k)] = os.fsdecode(v)

    @classmethod
    def fork(cls, st):
        memo = {}
        ns = {}
        for key, (owner, vals) in st["ns"].items():
            new = {}
            for k, v in vals.items():
                if isinstance(v, _CONTAINERS):
                    try:
                        v = copy.deepcopy(v, memo)
                    except Exception:
                        pass
                new[k] = v
            ns[key] = (owner, new)
        out = dict(st)
        out["ns"] = ns
        out["handlers"] = list(st["handlers"])
        out["environ"] = dict(st["environ"])
        return out


class Proc:
    def __init__(self, pid, name, state=None):
        self.pid = pid
        self.name = name
        self.state = state
        self.dead = False


class Task:
    def __init__(self, sim, tid, name, proc, fn):
        self.sim = sim
        self.tid = tid
        self.name = name
        self.proc = proc
        self.fn = fn
        self.baton = R_Lock()
        self.baton.acquire()
        self.exited = R_Lock()
        self.exited.acquire()
        self.ident = None
        self.done = False
        self.killed = False
        self.pred = None
        self.deadline = None
        self.what = "start"
        self.stalled_until = 0.0
        self.quantum = 0
        self.noyield = 0
        self.last_run = 0
        self.exc = None
        self.pending_exc = None

    def runnable(self, now):
        if self.done or self.proc.dead:
            return False
        if self.stalled_until > now:
            return False
        if self.pred is None:
            return True
        if self.deadline is not None and self.deadline <= now:
            return True
        try:
            return bool(self.pred())
        except Exception:
            return True


RUNS = [0]          # simulations started in this run; the runner resets it


def _scramble():
    """The process-wide generators of random, numpy and pandas hold something else in every simulation: nothing that is
    promised to follow from a seed may depend on them."""
    import random
    import numpy as np
    RUNS[0] += 1
    random.seed(7919 * RUNS[0])
    np.random.seed((7919 * RUNS[0]) % (1 << 32))


class Sim:
    def __init__(self, chooser, p_switch=0.3, p_stall=0.0, p_line=0.0, line_mean=40, p_jump=0.0, jumps=(),
                 cpu_count=4, mem_gb=8.0, max_steps=200000, start_wall=1_700_000_000.0, slow=0.0, p_fault=None,
                 tick=1e-4):
        self.ch = chooser
        self.p_switch = p_switch
        self.p_stall = p_stall
        self.p_line = p_line
        self.line_mean = line_mean
        self.p_jump = p_jump
        self.jumps = list(jumps)
        self.cpu_count = cpu_count
        self.mem_gb = mem_gb
        self.max_steps = max_steps
        self.slow = slow
        self.tick = tick
        self.p_fault = p_fault or {}
        self.now = 0.0
        self.wall0 = start_wall
        self.offset = 0.0
        self.tasks = []
        self.procs = []
        self.current = None
        self.steps = 0
        self.switches = 0
        self.next_pid = 1000
        self.events = []
        self.digest = 0
        self.fault_counts = collections.Counter()
        self.hang = None
        self.over = False
        self.crashed = False
        self.pools = []
        self.leaks = []
        self.thread_errors = []
        self.lock_owner = {}
        self.fs = None
        self.log_put = 0
        self.log_handled = 0
        self.objects = {}
        self.oid = 0
        self.crash_at_line = None
        self.lines = 0
        self.kill_plan = set()
        self.task_index = 0
        self.on_step = None
        self.line_hooks = None
        self.edges = set()

    # ---------------------------------------------------------------- bookkeeping
    def event(self, text):
        self.digest = zlib.crc32(text.encode(), self.digest)
        if len(self.events) < 4000:
            self.events.append(f"{self.now:.4f} {self.current.name if self.current else '-'}: {text}")

    def fault(self, kind):
        self.fault_counts[kind] += 1
        self.event(f"FAULT {kind}")

    def new_proc(self, name):
        self.next_pid += 1
        st = None
        if self.procs:
            cur = self.current.proc
            st = ProcState.fork(ProcState.save() if cur is self.current.proc else cur.state)
        p = Proc(self.next_pid, name, st)
        self.procs.append(p)
        return p

    def register(self, obj):
        self.oid += 1
        self.objects[self.oid] = obj
        return self.oid

    # ---------------------------------------------------------------- running
    def run(self, fn):
        """Run fn as the main thread of the main simulated process; returns its value."""
        global _ACTIVE
        if _ACTIVE is not None:
            raise RuntimeError("nested simulation")
        main_proc = Proc(1000, "main")
        self.procs = [main_proc]
        t = Task(self, 0, "main", main_proc, None)
        t.ident = threading.get_ident()
        self.tasks = [t]
        self.current = t
        self.saved = ProcState.save()
        _ACTIVE = self
        old_trace = sys.gettrace()
        _scramble()
        try:
            self._arm(t)
            if self.p_line or self.crash_at_line is not None or self.line_hooks:
                sys.settrace(self._tracer)
            return fn()
        finally:
            sys.settrace(old_trace)
            self.over = True
            t.done = True
            self._reap()
            ProcState.load(self.saved)
            _ACTIVE = None
            self.current = None

    def _reap(self):
        """Unwind whatever is still parked, one at a time."""
        me = self.tasks[0]
        for t in self.tasks[1:]:
            if t.done:
                t.exited.acquire()
                t.exited.release()
                continue
            if not t.proc.dead:
                self.leaks.append(f"{t.name} [{t.what}]")
            t.killed = True
            self.current = t
            if t.ident is None:
                t.done = True
                t.killed = True
            t.baton.release()
            t.exited.acquire()
            t.exited.release()
        self.current = me

    def spawn(self, fn, name, proc=None):
        t = Task(self, len(self.tasks), name, proc or self.current.proc, fn)
        t.last_run = self.steps
        self.tasks.append(t)
        self.event(f"spawn {name}")

        def body():
            t.baton.acquire()
            try:
                if not t.killed:
                    t.ident = threading.get_ident()
                    if self.p_line or self.crash_at_line is not None or self.line_hooks:
                        sys.settrace(self._tracer)
                    t.fn()
            except SimKilled:
                pass
            except SimHang:
                pass
            except BaseException as ex:      # noqa
                t.exc = ex
                if not t.killed:
                    self.thread_errors.append((t.name, ex))
            finally:
                sys.settrace(None)
                t.done = True
                if not t.killed:
                    self._dispatch(t, finished=True)
                t.exited.release()
        started = R_Lock()
        started.acquire()

        def boot():
            ident = threading.get_ident()
            threading._active.pop(ident, None)
            threading.current_thread().name = name      # registered before the baton arrives
            t.ident = ident
            started.release()
            try:
                body()
            finally:
                threading._active.pop(ident, None)
        _thread_start(boot, ())
        started.acquire()
        return t

    # ---------------------------------------------------------------- switching
    def _check(self):
        t = self.current
        if t.killed or self.over:
            raise SimKilled()
        if t.pending_exc is not None:
            ex, t.pending_exc = t.pending_exc, None
            raise ex

    def _arm(self, t):
        if self.p_line and self.ch.flip(self.p_line, "armline"):
            t.quantum = 1 + self.ch.geometric(self.line_mean, 2000, "quantum")
        else:
            t.quantum = 0

    def yield_point(self, what):
        t = self.current
        self._check()
        if t.noyield:
            return
        t.what = what
        self.now += self.tick
        if self.p_stall and self.ch.flip(self.p_stall, "stall"):
            d = (0.01, 0.1, 1.0, 30.0)[self.ch.pick(4, "stall_len")]
            t.stalled_until = self.now + d
            self.fault("stall")
        self._dispatch(t)
        self._check()

    def block(self, pred, what, timeout=None):
        """Park until pred() holds; False if the timeout passed first."""
        t = self.current
        self._check()
        t.what = what
        t.deadline = None if timeout is None else self.now + max(timeout, 0.0)
        t.pred = pred
        try:
            if t.noyield and pred():
                return True
            self.now += self.tick
            self._dispatch(t)
            self._check()
            return bool(pred())
        finally:
            t.pred = None
            t.deadline = None

    def sleep(self, d, what="sleep"):
        self.block(lambda: False, what, timeout=d)

    def _dispatch(self, t, finished=False):
        """Choose who runs next and hand over the baton. Called by the baton holder t."""
        self.steps += 1
        if self.on_step is not None and not finished:
            self.on_step(self)
        if self.steps > self.max_steps:
            nxt = self._hang("step budget exhausted")
        else:
            nxt = self._choose(t)
        t.last_run = self.steps
        if nxt is t and not finished:
            return
        self.switches += 1
        self.edges.add((t.what, nxt.name, nxt.what))
        self.digest = zlib.crc32(f"{t.tid}>{nxt.tid}".encode(), self.digest)
        if nxt.proc is not t.proc:
            t.proc.state = ProcState.save()
            if nxt.proc.state is not None:
                ProcState.load(nxt.proc.state)
        self._arm(nxt)
        self.current = nxt
        nxt.baton.release()
        if not finished:
            t.baton.acquire()

    def _choose(self, t):
        while True:
            ready = [x for x in self.tasks if x.runnable(self.now)]
            if ready:
                break
            times = [x.stalled_until for x in self.tasks if not x.done and not x.proc.dead and
                     x.stalled_until > self.now]
            times += [x.deadline for x in self.tasks if not x.done and not x.proc.dead and x.deadline is not None
                      and x.deadline > self.now]
            if not times:
                return self._hang("no task can run")
            self.now = min(times) + 1e-9
        if len(ready) == 1:
            return ready[0]
        if t in ready:
            if not self.ch.flip(self.p_switch, "sw"):
                return t
            ready.remove(t)
        ready.sort(key=lambda x: (x.last_run, x.tid))
        return ready[self.ch.pick(len(ready), "next")]

    def _hang(self, why):
        rep = why + ": " + "; ".join(f"{x.name}@{x.what}" for x in self.tasks if not x.done and not x.proc.dead)
        self.hang = rep
        self.event("HANG " + rep)
        m = self.tasks[0]
        m.pred = None
        m.stalled_until = 0
        m.pending_exc = SimHang(rep)
        self.max_steps = self.steps + 2000
        self.over_hang = True
        return m

    # ---------------------------------------------------------------- line tracing
    def _tracer(self, frame, ev, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(REPO):
            return None
        return self._local

    def _local(self, frame, ev, arg):
        if ev != "line" or self.over:
            return self._local
        t = self.current
        if t is None or t.ident != threading.get_ident():
            return self._local
        self.lines += 1
        if self.line_hooks:
            self.line_hooks(self, frame)
        if self.crash_at_line is not None and self.lines >= self.crash_at_line and not t.noyield:
            self.crash_at_line = None
            self.fault("crash-at-line")
            self.crash()
        if t.quantum > 0 and not t.noyield:
            t.quantum -= 1
            if t.quantum == 0:
                self.fault_counts["preempt-at-line"] += 1
                self.yield_point(f"line {os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}")
        return self._local

    def crash(self):
        """The running process dies here."""
        self.crashed = True
        self.over = True
        raise SimCrash()

    # ---------------------------------------------------------------- clock
    def _jump(self):
        if self.p_jump and self.jumps and self.ch.flip(self.p_jump, "jump"):
            d = self.jumps[self.ch.pick(len(self.jumps), "jumpsize")]
            self.offset += d
            self.fault("clock-jump-forward" if d > 0 else "clock-jump-backward")

    def time(self):
        if not self.over:
            self._jump()
            self.now += 1e-6
        return self.wall0 + self.now + self.offset

    def monotonic(self):
        if not self.over:
            self._jump()
            self.now += 1e-6
        return 5000.0 + self.now


# -------------------------------------------------------------------- threads
class SimThread(R_Thread):
    """threading.Thread under the scheduler when started inside a simulation."""

    def start(self):
        s = active()
        if s is None:
            return R_Thread.start(self)
        self._dst_sim = s
        self._dst_task = s.spawn(self._dst_run, f"thread:{getattr(self._target, '__name__', self.name)}")
        s.yield_point("thread-start")

    def _dst_run(self):
        self.run()

    def join(self, timeout=None):
        t = getattr(self, "_dst_task", None)
        if t is None:
            if getattr(self, "_dst_sim", None) is None and active() is not None and not self._started.is_set():
                raise RuntimeError("cannot join thread before it is started")
            return R_Thread.join(self, timeout)
        s = active()
        if s is None or s is not self._dst_sim:
            return
        s.block(lambda: t.done, "join " + t.name, timeout)

    def is_alive(self):
        t = getattr(self, "_dst_task", None)
        if t is None:
            return R_Thread.is_alive(self)
        return not t.done


class SimRLock:
    """Reentrant lock that parks only on contention; trivial outside a simulation."""

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        s = active()
        return s, (s.current if s else threading.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if self.count and self.owner is not me and self.owner != me:
            if s is None or getattr(self.owner, "done", False) or getattr(self.owner, "killed", False) or \
                    (isinstance(self.owner, Task) and self.owner.sim is not s):
                self.count = 0           # left behind by a run that is over
            else:
                if not blocking:
                    return False
                if not s.block(lambda: self.count == 0, "lock", None if timeout is None or timeout < 0 else timeout):
                    return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.count == 0:
            return
        self.count -= 1
        if self.count == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        return self.count > 0 and self.owner == self._me()[1]

    def _at_fork_reinit(self):
        self.count = 0
        self.owner = None

    def __reduce__(self):
        raise TypeError("cannot pickle lock objects")


class SimLock(SimRLock):
    def acquire(self, blocking=True, timeout=-1):
        s, me = self._me()
        if self.count and s is not None and self.owner is me:
            if not blocking:
                return False
            if not s.block(lambda: self.count == 0, "lock", None if timeout is None or timeout < 0 else timeout):
                return False
        return SimRLock.acquire(self, blocking, timeout)

    __enter__ = acquire


class SimEvent:
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        s = active()
        if s:
            s.yield_point("event-set")

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = active()
        if s is None:
            return self.flag
        s.block(lambda: self.flag, "event-wait", timeout)
        return self.flag


def make_lock():
    return SimLock() if active() else R_Lock()


def make_rlock():
    return SimRLock() if active() else R_RLock()


def make_event():
    return SimEvent() if active() else R_Event()


# -------------------------------------------------------------------- queues
def _lookup(oid):
    return _ACTIVE.objects[oid]


class SimQueue:
    """queue.Queue / multiprocessing manager queue. cross=True: items are pickled across processes."""

    def __init__(self, maxsize=0, cross=False, lifo=False):
        s = active()
        self.sim = s
        self.items = collections.deque()
        self.maxsize = maxsize or 0
        self.cross = cross
        self.closed = False
        self.unfinished = 0
        self.oid = s.register(self)

    def __reduce__(self):
        if not self.cross:
            raise TypeError("cannot pickle '_thread.lock' object")
        return _lookup, (self.oid,)

    def _gone(self, reading):
        if self.closed:
            raise EOFError("manager is gone") if reading else BrokenPipeError(32, "Broken pipe")

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def full(self):
        return bool(self.maxsize) and len(self.items) >= self.maxsize

    def put(self, item, block=True, timeout=None):
        s = active()
        if s is None:
            raise SimKilled()
        s._check()
        self._gone(False)
        if self.cross:
            item = pickle.dumps(item)
        if self.full():
            if not block or not s.block(lambda: not self.full() or self.closed, "queue-put", timeout):
                raise _queue.Full
            self._gone(False)
        self.items.append(item)
        self.unfinished += 1
        s.yield_point("queue-put")

    def put_nowait(self, item):
        self.put(item, block=False)

    def get(self, block=True, timeout=None):
        s = active()
        if s is None:
            raise SimKilled()
        s._check()
        self._gone(True)
        if not self.items:
            if not block:
                s.yield_point("queue-get-nowait")
                if not self.items:
                    raise _queue.Empty
            elif not s.block(lambda: bool(self.items) or self.closed, "queue-get", timeout):
                self._gone(True)
                raise _queue.Empty
            if not self.items:
                self._gone(True)
        else:
            s.yield_point("queue-get")
            if not self.items:
                return self.get(block, timeout)
        item = self.items.popleft()
        return pickle.loads(item) if self.cross else item

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        self.unfinished -= 1

    def join(self):
        self.sim.block(lambda: self.unfinished <= 0, "queue-join")

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimManager:
    def __init__(self):
        self.sim = active()
        self.queues = []
        self.up = True
        self.sim.yield_point("manager-start")

    def Queue(self, maxsize=0):
        q = SimQueue(maxsize, cross=True)
        self.queues.append(q)
        self.sim.yield_point("manager-queue")
        return q

    JoinableQueue = Queue

    def list(self, seq=()):
        return _Shared(list(seq))

    def dict(self, *a, **k):
        return _Shared(dict(*a, **k))

    def Lock(self):
        return _SharedLock(SimLock())

    def RLock(self):
        return _SharedLock(SimRLock())

    def Event(self):
        return _SharedLock(SimEvent())

    def Namespace(self, **k):
        return _Shared(types.SimpleNamespace(**k))

    def Value(self, code, v):
        return _Shared(types.SimpleNamespace(value=v))

    def start(self):
        pass

    def shutdown(self):
        self.up = False
        for q in self.queues:
            q.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class _Shared:
    """A manager proxy: one object seen by all simulated processes."""

    def __init__(self, target):
        object.__setattr__(self, "_t", target)
        object.__setattr__(self, "_oid", active().register(self))

    def __reduce__(self):
        return _lookup, (self._oid,)

    def __getattr__(self, k):
        s = active()
        if s:
            s.yield_point("proxy")
        return getattr(self._t, k)

    def __setattr__(self, k, v):
        setattr(self._t, k, v)

    def __getitem__(self, k):
        return self._t[k]

    def __setitem__(self, k, v):
        self._t[k] = v

    def __len__(self):
        return len(self._t)

    def __iter__(self):
        return iter(list(self._t))

    def __contains__(self, k):
        return k in self._t


class _SharedLock(_Shared):
    def __enter__(self):
        return self._t.acquire()

    def __exit__(self, *a):
        self._t.release()


# -------------------------------------------------------------------- pools
class RemoteTraceback(Exception):
    pass


class MaybeEncodingError(Exception):
    pass


class SimAsyncResult:
    def __init__(self, pool, n, callback=None, error_callback=None, single=False):
        self.pool = pool
        self.n = n
        self.left = n
        self.slots = {}
        self.callback = callback
        self.error_callback = error_callback
        self.single = single
        self.error = None
        self.finished = n == 0

    def ready(self):
        return self.finished

    def successful(self):
        if not self.finished:
            raise ValueError("not ready")
        return self.error is None

    def wait(self, timeout=None):
        self.pool.sim.block(lambda: self.finished, "result-wait", timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.finished:
            import multiprocessing
            raise multiprocessing.TimeoutError()
        if self.error is not None:
            raise self.error
        if self.single:
            return self.slots[0][0]
        out = []
        for i in range(self.n):
            out.extend(self.slots[i])
        return out

    # called in the parent's result handler thread
    def _set(self, i, ok, val):
        if self.finished and self.error is not None and not ok:
            pass
        self.left -= 1
        if ok:
            self.slots[i] = val
        elif self.error is None:
            self.error = val
        if self.left == 0:
            if self.error is None:
                if self.callback:
                    self.callback(self.slots[0][0] if self.single else
                                  [x for i in range(self.n) for x in self.slots[i]])
            elif self.error_callback:
                self.error_callback(self.error)
            self.finished = True


class SimIMap:
    def __init__(self, pool, n, ordered):
        self.pool = pool
        self.n = n
        self.ordered = ordered
        self.out = collections.deque()
        self.slots = {}
        self.given = 0
        self.chunks = n
        self.total_done = 0
        self.nexti = 0

    def __iter__(self):
        return self

    def _avail(self):
        return bool(self.out) or self.total_done >= self.chunks

    def next(self, timeout=None):
        if not self.out and self.total_done >= self.chunks:
            raise StopIteration
        self.pool.sim.block(self._avail, "imap-next", timeout)
        if not self.out:
            if self.total_done >= self.chunks:
                raise StopIteration
            import multiprocessing
            raise multiprocessing.TimeoutError()
        ok, val = self.out.popleft()
        if ok:
            return val
        raise val

    __next__ = next

    def _set(self, i, ok, val):
        if self.ordered:
            self.slots[i] = (ok, val)
            while self.nexti in self.slots:
                self._emit(*self.slots.pop(self.nexti))
                self.nexti += 1
        else:
            self._emit(ok, val)

    def _emit(self, ok, val):
        if ok:
            for v in val:
                self.out.append((True, v))
        else:
            self.out.append((False, val))
        self.total_done += 1


class SimPool:
    """multiprocessing.Pool: simulated worker processes, pickled tasks and results, a result-handler thread."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.sim = s = active()
        if s is None:
            raise RuntimeError("pool used outside the simulation")
        if processes is None:
            processes = s.cpu_count or 1
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        if maxtasksperchild is not None and (not isinstance(maxtasksperchild, int) or maxtasksperchild <= 0):
            raise ValueError("maxtasksperchild must be a positive int or None")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        self._processes = processes
        self.initializer, self.initargs = initializer, initargs
        self.state = "RUN"
        self.inq = collections.deque()
        self.outq = collections.deque()
        self.outstanding = 0
        self.handler_dead = False
        self.workers = []
        s.pools.append(self)
        self.idx = len(s.pools)
        for i in range(min(processes, 64)):
            self._worker(i)
        self.handler = s.spawn(self._handle_results, f"pool{self.idx}-results")
        s.event(f"pool {self.idx} with {processes} processes")
        s.yield_point("pool-start")

    def _worker(self, i):
        s = self.sim
        p = s.new_proc(f"pool{self.idx}-w{i}")
        t = s.spawn(lambda: self._work(p), p.name, p)
        self.workers.append(t)

    def _work(self, proc):
        s = self.sim
        if self.initializer:
            self.initializer(*self.initargs)
        while True:
            s.block(lambda: self.inq or self.state in ("CLOSE", "TERM"), "worker-idle")
            if not self.inq:
                if self.state in ("CLOSE", "TERM"):
                    return
                continue
            job, i, blob, star = self.inq.popleft()
            k = s.task_index
            s.task_index += 1
            s.event(f"task {k} (chunk {i}) starts")
            if s.slow and s.ch.flip(s.slow, "slow"):
                s.fault("slow-worker")
                s.sleep((0.05, 0.5, 5.0, 60.0)[s.ch.pick(4, "slowlen")], "slow-worker")
            if s.ch.flip(s.p_fault.get("worker-death", 0.0), "death"):
                s.fault("worker-death")
                proc.dead = True                       # SIGKILL / OOM killer: the task is gone ...
                self._worker(len(self.workers))        # ... and multiprocessing starts a replacement worker
                s._dispatch(s.current)                 # never scheduled again
                raise SimKilled()
            try:
                err = None
                if s.ch.flip(s.p_fault.get("worker-oom", 0.0), "oom"):
                    s.fault("worker-oom")
                    raise MemoryError("injected: cannot allocate memory in worker")
                if s.ch.flip(s.p_fault.get("worker-oserror", 0.0), "oserror"):
                    s.fault("worker-oserror")
                    raise OSError(5, "injected: input/output error in worker")
                func, items = pickle.loads(blob)
                vals = [func(*a[0], **a[1]) for a in items] if star == "apply" else \
                    [func(*a) for a in items] if star else [func(a) for a in items]
                ok = True
            except Exception as ex:
                ok, vals = False, ex
            try:
                out = pickle.dumps((ok, vals))
                pickle.loads(out) if not ok else None
            except Exception as ex:
                out = pickle.dumps((False, MaybeEncodingError(f"Error sending result: {vals!r}. Reason: {ex!r}")))
            s.event(f"task {k} done ok={ok}")
            self.outq.append((job, i, out))
            s.yield_point("worker-result")

    def _handle_results(self):
        s = self.sim
        while True:
            s.block(lambda: self.outq or self.state == "TERM" or
                    (self.state == "CLOSE" and self.outstanding == 0), "pool-results")
            if not self.outq:
                return
            job, i, out = self.outq.popleft()
            ok, val = pickle.loads(out)
            self.outstanding -= 1
            try:
                job._set(i, ok, val)
            except SimKilled:
                raise
            except BaseException:
                self.handler_dead = True
                raise
            s.yield_point("pool-result")

    # ---- submission
    def _live(self):
        if self.state != "RUN":
            raise ValueError("Pool not running")

    def _submit(self, job, i, func, items, star):
        self.outstanding += 1
        try:
            blob = pickle.dumps((func, items))
        except Exception as ex:
            self.outstanding -= 1
            job._set(i, False, ex)
            return
        self.inq.append((job, i, blob, star))

    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), len(self.workers) * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize) if items else 1
        return [items[i:i + chunksize] for i in range(0, len(items), chunksize)]

    def _map(self, func, iterable, star, chunksize, cb=None, ecb=None):
        self._live()
        chunks = self._chunks(iterable, chunksize)
        job = SimAsyncResult(self, len(chunks), cb, ecb)
        for i, c in enumerate(chunks):
            self._submit(job, i, func, c, star)
        if not chunks and cb:
            cb([])
        self.sim.yield_point("pool-submit")
        return job

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, False, chunksize, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map(func, iterable, True, chunksize, callback, error_callback)

    def _imap(self, func, iterable, chunksize, ordered):
        self._live()
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+")
        items = list(iterable)
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        job = SimIMap(self, len(chunks), ordered)
        for i, c in enumerate(chunks):
            self._submit(job, i, func, c, False)
        self.sim.yield_point("pool-submit")
        return job

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        self._live()
        job = SimAsyncResult(self, 1, callback, error_callback, single=True)
        self._submit(job, 0, func, [(tuple(args), dict(kwds or {}))], "apply")
        self.sim.yield_point("pool-submit")
        return job

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    # ---- lifecycle
    def close(self):
        if self.state == "RUN":
            self.state = "CLOSE"
            self.sim.yield_point("pool-close")

    def terminate(self):
        if self.state == "TERM":
            return
        self.state = "TERM"
        self.inq.clear()
        for w in self.workers:
            w.proc.dead = True
        s = active()
        if s is self.sim and not s.over:
            s.yield_point("pool-terminate")

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        s = self.sim
        s.block(lambda: all(w.done or w.proc.dead for w in self.workers) and
                (self.handler.done or self.handler_dead), "pool-join")

    def __enter__(self):
        self._live()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")

    def released(self):
        return self.state in ("CLOSE", "TERM")


class SimFuture:
    def __init__(self, ar):
        self.ar = ar
        self.cbs = []

    def result(self, timeout=None):
        return self.ar.get(timeout)

    def exception(self, timeout=None):
        self.ar.wait(timeout)
        return self.ar.error

    def done(self):
        return self.ar.finished

    def cancel(self):
        return False


class SimExecutor:
    """concurrent.futures process pool on top of SimPool (futures in submission order)."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        self.pool = SimPool(max_workers, initializer, initargs)

    def submit(self, fn, *a, **k):
        return SimFuture(self.pool.apply_async(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self.pool._map(fn, list(zip(*its)), True, chunksize).get())

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.close()
        if wait:
            self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
