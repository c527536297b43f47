"""Simulated storage: a scratch directory behind a raw-I/O layer that counts operations and injects faults.

Paths inside the scratch root go through SimRaw under Python's own buffering and text layers, so the code under test
runs its real open/write/flush/close paths.  The directory is the page cache; content that was never fsynced may be
lost or torn at a power loss, and a process crash loses whatever still sits in user-space buffers.
"""
import builtins
import errno
import io
import os

from . import core

R_open = builtins.open
R_io_open = io.open
R_os = {k: getattr(os, k) for k in ("replace", "rename", "remove", "unlink", "makedirs", "mkdir", "fsync")}

ERR = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES, "emfile": errno.EMFILE, "edquot": errno.EDQUOT}


class SimFS:
    """plan: {"op": k, "kind": ...} fires at the k-th storage operation (counted from arm())."""

    def __init__(self, root, chooser, buffer=0, p_short=0.0):
        self.root = os.path.realpath(root)
        self.ch = chooser
        self.buffer = buffer
        self.p_short = p_short
        self.plan = None
        self.ops = 0
        self.log = []
        self.dead = False
        self.full = False
        self.fired = False
        self.track = {}          # path -> content that is durable
        self.synced = {}
        self.open_files = 0
        self.write_errors = 0    # failures the code under test was told about
        self.counts = {}
        self.budget = None       # bytes left on the disk

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def arm(self, plan=None):
        self.plan = plan
        self.ops = 0
        self.log = []
        self.dead = self.full = self.fired = False
        self.write_errors = 0

    def note_fault(self, kind):
        self.fired = True
        self.counts[kind] = self.counts.get(kind, 0) + 1
        s = core.active()
        if s:
            s.fault("fs-" + kind)

    def op(self, name, path, prefix=None):
        """One storage operation. Returns after raising whatever the plan injects here."""
        if self.dead:
            return
        k = self.ops
        self.ops += 1
        if len(self.log) < 2000:
            self.log.append(f"{k}:{name}:{os.path.basename(str(path))}")
        s = core.active()
        if s is not None and not s.over:
            s.yield_point("fs-" + name)
        pl = self.plan
        if pl is None or self.fired or k < pl["op"]:
            return
        kind = pl["kind"]
        if kind in ("crash", "power"):
            if name == "write" and prefix is not None:
                prefix()
            self.note_fault(kind)
            self.die()
        if kind == "disk-full":
            self.full = True
            self.note_fault(kind)
            return
        if kind == "eio-read":
            if name == "read":
                self.note_fault(kind)
                raise OSError(errno.EIO, os.strerror(errno.EIO), str(path))
            return
        if name in ("write", "open-w", "close-w", "replace", "mkdir"):
            self.note_fault(kind)
            self.write_errors += 1
            raise OSError(ERR[kind], os.strerror(ERR[kind]), str(path))

    def die(self):
        self.dead = True
        s = core.active()
        if s is not None:
            s.crash()
        raise core.SimCrash()

    def settle(self, power):
        """After a crash: what a restarted process finds on disk."""
        if power:
            for path, old in list(self.track.items()):
                if self.synced.get(path):
                    continue
                try:
                    with R_open(path, "rb") as f:
                        cur = f.read()
                except OSError:
                    continue
                how = self.ch.pick(4, "power")
                if how == 0:
                    new = cur
                elif how == 1:
                    new = cur[:self.ch.pick(len(cur) + 1, "torn")]
                elif how == 2:
                    new = old
                else:
                    cut = self.ch.pick(len(cur) + 1, "torn0")
                    new = cur[:cut] + b"\0" * (len(cur) - cut)
                if new is None:
                    R_os["remove"](path)
                else:
                    with R_open(path, "wb") as f:
                        f.write(new)
        self.track.clear()
        self.synced.clear()
        self.dead = False
        self.full = False
        self.plan = None

    # -------------------------------------------------------------- open()
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = os.path.realpath(os.fspath(file))
        binary = "b" in mode
        m = mode.replace("b", "").replace("t", "")
        writing = any(c in m for c in "wax+")
        if self.dead:
            raise core.SimCrash()
        self.op("open-w" if writing else "open-r", path)
        if writing:
            if self.full and not os.path.exists(path):
                self.write_errors += 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            if path not in self.track or self.synced.get(path):
                try:
                    with R_open(path, "rb") as f:
                        self.track[path] = f.read()
                except OSError:
                    self.track[path] = None
            self.synced[path] = False
        raw = SimRaw(self, path, m)
        size = self.buffer or 8192
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if buffering > 1:
            size = min(buffering, size)
        if raw.readable() and raw.writable():
            buf = io.BufferedRandom(raw, size)
        elif raw.writable():
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))
        text.mode = mode
        return text


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, mode):
        self._fs = fs
        self._path = path
        self.name = path
        self.mode = mode
        self._w = any(c in mode for c in "wax+")
        self._r = "r" in mode or "+" in mode
        self._f = R_io_open(path, mode.replace("+", "") + "b" + ("+" if "+" in mode else ""), buffering=0)
        fs.open_files += 1

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def fileno(self):
        return self._f.fileno()

    def readinto(self, b):
        fs = self._fs
        if fs.dead:
            raise core.SimCrash()
        fs.op("read", self._path)
        n = len(b)
        if n > 1 and fs.ch.flip(fs.p_short, "shortread"):
            n = 1 + fs.ch.pick(n, "shortreadlen") % n
            fs.counts["short-read"] = fs.counts.get("short-read", 0) + 1
        data = self._f.read(n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        fs = self._fs
        b = bytes(b)
        if fs.dead:
            return len(b)

        def prefix():
            self._f.write(b[:fs.ch.pick(len(b) + 1, "tornwrite")])
        fs.op("write", self._path, prefix)
        if fs.full:
            k = fs.ch.pick(len(b) + 1, "fullprefix")
            if k:
                self._f.write(b[:k])
                fs.full = "hard"
                if k < len(b) or k == len(b):
                    if k == len(b):
                        return k
                    return k
            fs.write_errors += 1
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._path)
        n = len(b)
        if n > 1 and fs.ch.flip(fs.p_short, "shortwrite"):
            n = 1 + fs.ch.pick(n - 1, "shortlen")
            fs.counts["short-write"] = fs.counts.get("short-write", 0) + 1
        return self._f.write(b[:n])

    def close(self):
        if self.closed:
            return
        fs = self._fs
        fs.open_files -= 1
        try:
            super().close()
            if self._w and not fs.dead:
                fs.op("close-w", self._path)
        finally:
            self._f.close()


def _sim_fs(path):
    s = core._ACTIVE
    if s is None or s.fs is None:
        return None
    return s.fs if s.fs.inside(path) else None


def sim_open(file, mode="r", *a, **k):
    fs = None if isinstance(file, int) else _sim_fs(file)
    if fs is None:
        return R_open(file, mode, *a, **k)
    return fs.open(file, mode, *a, **k)


def _wrap(name, opname):
    real = R_os[name]

    def f(path, *a, **k):
        fs = _sim_fs(path)
        if fs is None:
            return real(path, *a, **k)
        if fs.dead:
            raise core.SimCrash()
        if name == "makedirs" and os.path.isdir(path):
            return real(path, *a, **k)
        fs.op(opname, path)
        p0 = os.path.realpath(path)
        if name in ("replace", "rename"):
            p1 = os.path.realpath(a[0])
            old = None
            if os.path.exists(p1):
                with R_open(p1, "rb") as fh:
                    old = fh.read()
            r = real(path, *a, **k)
            fs.track.setdefault(p1, old)
            # an unsynced source leaves the target as exposed as the source was
            fs.synced[p1] = bool(fs.synced.get(p0, True))
            fs.track.pop(p0, None)
            fs.synced.pop(p0, None)
            return r
        return real(path, *a, **k)
    return f


def sim_fsync(fd):
    s = core._ACTIVE
    fd_no = fd if isinstance(fd, int) else fd.fileno()
    if s is not None and s.fs is not None and not s.fs.dead:
        try:
            path = os.path.realpath(f"/proc/self/fd/{fd_no}")
        except OSError:
            path = None
        if path and s.fs.inside(path):
            s.fs.op("fsync", path)
            s.fs.synced[path] = True
            return None
    return R_os["fsync"](fd)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.replace = _wrap("replace", "replace")
    os.rename = _wrap("rename", "replace")
    os.remove = _wrap("remove", "unlink")
    os.unlink = _wrap("unlink", "unlink")
    os.makedirs = _wrap("makedirs", "mkdir")
    os.mkdir = _wrap("mkdir", "mkdir")
    os.fsync = sim_fsync
