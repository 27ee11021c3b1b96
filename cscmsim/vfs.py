"""
File system seam.

open() (builtins and io) gives files whose lowest layer is FaultRaw; buffering
and text decoding above it are the real ones.  Everything lives in a scratch
folder of the run; only files below the given roots are subject to faults.

Fault kinds (entries of plan["fs"]); with "sticky" a fault that has hit a file
hits every later opening of the same path too:
  open_error   {"n": k, "dir": "r"|"w", "exc": name}      k-th opening for reading/writing
  write_error  {"n": k, "after": bytes, "exc": name}      k-th file opened for writing:
               the write that passes `after` is cut short, the next one fails
  close_error  {"n": k, "exc": name, "drop": bytes}       error reported when closing,
               the last bytes did not reach the disk
  read_error   {"n": k, "after": bytes, "exc": name}      k-th file opened for reading
  disk_full    {"room": bytes}    all files together can grow by so much only
  short_io     {"seed": n}   reads and writes legally transfer fewer bytes
  fsync_error, replace_error {"n": k, "exc": name}
  crash        {"op": n, "keep": seed}   the machine stops at the n-th file
               operation; of what was not synchronised any part may be lost
"""

import builtins
import contextlib
import io
import os
import random

from . import env, trace
from .world import make_exc


class SimCrash(BaseException):
    """The simulated machine stops here"""


_real_open = io.open
_real_os = {n: getattr(os, n) for n in ("fsync", "replace", "rename", "remove", "unlink")}


class FaultRaw(io.FileIO):
    """Lowest layer of a file, with faults"""

    def __init__(self, fs, path, mode, num, opener=None):
        self._fs, self._num, self._done, self._err = fs, num, 0, False
        self._bytes = 0
        self._path = path
        super().__init__(path, mode, opener=opener)
        self.name_ = path

    # -- writing
    def write(self, b):
        fs = self._fs
        fs.op("write", self)
        b = memoryview(b).cast("B")
        n = len(b)
        for f in fs.faults:
            if f["kind"] == "disk_full":
                room = max(0, f["room"] - sum(fs.written.values()))
                if room == 0 and n:
                    fs.fire(f)
                    raise make_exc("ENOSPC")
                n = min(n, room)
            if f["kind"] == "write_error" and fs.hits(f, self._num, self._path):
                room = max(0, f["after"] - self._bytes)
                if room == 0 and n:
                    fs.fire(f)
                    raise make_exc(f["exc"])
                n = min(n, room)
        if fs.short and n > 1 and fs.short.random() < 0.5:
            n = fs.short.randint(1, n)
            fs.count("short_write")
        if fs.dead:
            return n
        k = super().write(b[:n])
        self._bytes += k
        fs.written[self._path] = fs.written.get(self._path, 0) + k
        return k

    # -- reading
    def _limit(self, n):
        fs = self._fs
        fs.op("read", self)
        for f in fs.faults:
            if f["kind"] == "read_error" and fs.hits(f, self._num, self._path):
                after = f["after"]
                if f.get("frac") is not None:
                    after = int(f["frac"] * os.fstat(self.fileno()).st_size)
                room = max(0, after - self._bytes)
                if room == 0:
                    fs.fire(f)
                    raise make_exc(f["exc"])
                n = min(n, room)
        if fs.short and n > 1 and fs.short.random() < 0.7:
            n = fs.short.randint(1, n)
            fs.count("short_read")
        return n

    def readinto(self, b):
        b = memoryview(b).cast("B")
        n = self._limit(len(b))
        k = super().readinto(b[:n])
        self._bytes += k or 0
        return k

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        n = self._limit(size)
        d = super().read(n)
        self._bytes += len(d or b"")
        return d

    def readall(self):
        out = []
        while True:
            n = self._limit(1 << 16)
            d = super().read(n)
            if not d:
                return b"".join(out)
            self._bytes += len(d)
            out.append(d)

    def close(self):
        if self.closed:
            return super().close()
        fs = self._fs
        crash = None
        try:
            fs.op("close", self)
        except SimCrash as exc:
            crash = exc
        for f in fs.faults:
            if f["kind"] == "close_error" and fs.hits(f, self._num, self._path) \
                    and f.get("drop") \
                    and self._writing and not fs.dead:
                size = os.fstat(self.fileno()).st_size
                os.ftruncate(self.fileno(), max(0, size - f["drop"]))
        super().close()
        if crash is not None:
            raise crash
        if fs.dead:
            return None
        for f in fs.faults:
            if f["kind"] == "close_error" and fs.hits(f, self._num, self._path) \
                    and not self._err and self._writing:
                self._err = True
                fs.fire(f)
                raise make_exc(f["exc"])
        return None

    _writing = False


class _Text(io.TextIOWrapper):
    leak = None

    def __del__(self):
        if self.leak is not None and not self.closed:
            self.leak()
        super().__del__()


class _Reader(io.BufferedReader):
    leak = None

    def __del__(self):
        if self.leak is not None and not self.closed:
            self.leak()
        super().__del__()


class _Writer(io.BufferedWriter):
    leak = None

    def __del__(self):
        if self.leak is not None and not self.closed:
            self.leak()
        super().__del__()


class SimFS:
    """File operations of one simulated run"""

    def __init__(self, faults, roots, rng=None, log=None, on_fire=None):
        self.faults = list(faults)
        self.written = {}  # bytes written by path, for disk_full
        self.stuck = {}    # path a sticky fault stays with
        self.roots = [os.path.realpath(r) + os.sep for r in roots]
        self.log = log or (lambda *a: None)
        self.on_fire = on_fire
        self.stats = {}
        self.ops = 0
        self.nread = self.nwrite = self.nsync = self.nrepl = 0
        self.dead = False
        self.short = None
        for f in self.faults:
            if f["kind"] == "short_io":
                self.short = random.Random(f["seed"])
        self.dirty = {}   # path -> content before the unsynchronised writes (None: absent)
        self.touched = []
        self.opened = []
        self.fired = []
        self.leaked = []  # files left to the garbage collector

    def count(self, key):
        self.stats[key] = self.stats.get(key, 0) + 1

    def fire(self, f):
        self.fired.append(f)
        self.count("fault:" + f["kind"])
        self.log("FSFAULT", f["kind"], f.get("n", ""), f.get("exc", ""))
        if self.on_fire:
            self.on_fire(f)

    def hits(self, f, num, path):
        """Is this file subject to the fault?"""
        if f["n"] == num:
            if f.get("sticky"):
                self.stuck.setdefault(id(f), path)
            return True
        return bool(f.get("sticky")) and self.stuck.get(id(f)) == path

    def in_scope(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            return None
        for r in self.roots:
            if p.startswith(r) and not p.endswith((".py", ".pyc")):
                return p
        return None

    def op(self, what, raw):
        il = trace.Interleaver.current
        if il is not None:
            il.switch_point()
        self.ops += 1
        self.log("fs", what, os.path.basename(str(raw._path)) if raw is not None else "")
        if self.dead:
            raise SimCrash("file system is gone")
        for f in self.faults:
            if f["kind"] == "crash" and f["op"] == self.ops:
                self.fire(f)
                self.dead = True
                raise SimCrash("crash at file operation %d" % self.ops)

    # --- patched functions
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        path = None if isinstance(file, int) else self.in_scope(file)
        if path is None:
            return _real_open(file, mode, buffering, encoding, errors, newline,
                              closefd, opener)
        writing = any(c in mode for c in "wax+")
        self.opened.append((path, mode))

        class _P:
            _path = path
        self.op("open", _P)
        num = self.nwrite if writing else self.nread
        if writing:
            self.nwrite += 1
        else:
            self.nread += 1
        for f in self.faults:
            if f["kind"] == "open_error" and f["dir"] == ("w" if writing else "r") \
                    and self.hits(f, num, path):
                self.fire(f)
                raise make_exc(f["exc"])
        if writing:
            if path not in self.dirty:
                self.dirty[path] = self._content(path)
            self.touched.append(path)
            if "w" in mode:
                self.written.pop(path, None)
        rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
        raw = FaultRaw(self, path, rawmode, num, opener)
        raw._writing = writing
        try:
            if "b" in mode and buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in rawmode:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = _Writer(raw, size)
            else:
                buf = _Reader(raw, size)
            if "b" in mode:
                if "+" not in rawmode:
                    buf.leak = lambda: self.leaked.append(path)
                return buf
            text = _Text(buf, encoding, errors, newline,
                                    line_buffering=(buffering == 1))
            text.mode = mode
            text.leak = lambda: self.leaked.append(path)
            return text
        except BaseException:
            raw.close()
            raise

    @staticmethod
    def _content(path):
        try:
            with _real_open(path, "rb") as f:
                return f.read()
        except OSError:
            return None

    def fsync(self, fd):
        n, self.nsync = self.nsync, self.nsync + 1
        self.op("fsync", None)
        for f in self.faults:
            if f["kind"] == "fsync_error" and f["n"] == n:
                self.fire(f)
                raise make_exc(f["exc"])
        try:
            path = os.path.realpath("/proc/self/fd/%d" % fd)
            self.dirty.pop(path, None)
        except (OSError, TypeError):
            pass

    def _move(self, fn, src, dst, **kw):
        n, self.nrepl = self.nrepl, self.nrepl + 1
        self.op("replace", None)
        for f in self.faults:
            if f["kind"] == "replace_error" and f["n"] == n:
                self.fire(f)
                raise make_exc(f["exc"])
        s, d = os.path.realpath(os.fspath(src)), os.path.realpath(os.fspath(dst))
        old = self._content(d)
        clean = s not in self.dirty
        fn(src, dst, **kw)
        self.dirty.pop(s, None)
        if not (clean and d not in self.dirty and old is None):
            self.dirty.setdefault(d, old)
        if clean:  # content is safe: either the old or the new file is there
            self.dirty[d] = ("atomic", old)
        self.touched.append(d)

    def replace(self, src, dst, **kw):
        self._move(_real_os["replace"], src, dst, **kw)

    def rename(self, src, dst, **kw):
        self._move(_real_os["rename"], src, dst, **kw)

    def remove(self, path, **kw):
        self.op("remove", None)
        p = os.path.realpath(os.fspath(path))
        self.touched.append(p)
        _real_os["remove"](path, **kw)

    def after_crash(self, seed):
        """What is left of unsynchronised files when the machine is back"""
        rng = random.Random(seed)
        self.dead = False
        self.faults = []
        out = {}
        for path, old in sorted(self.dirty.items()):
            now = self._content(path)
            if isinstance(old, tuple):
                choices = ["old", "full"]
                old = old[1]
            else:
                choices = ["old", "empty", "prefix", "prefix", "zeros", "full"]
            how = rng.choice(choices)
            if now is None:
                how = "absent"
                data = None
            elif how == "old":
                data = old
            elif how == "empty":
                data = b""
            elif how == "full":
                data = now
            else:
                cut = rng.randint(0, len(now)) if now else 0
                if rng.random() < 0.4:  # whole blocks
                    cut -= cut % 512
                data = now[:cut] + (b"\0" * (len(now) - cut) if how == "zeros" else b"")
            out[os.path.basename(path)] = how
            if data is None:
                if os.path.exists(path):
                    _real_os["remove"](path)
            else:
                with _real_open(path, "wb") as f:
                    f.write(data)
        self.dirty = {}
        self.log("after_crash", sorted(out.items()))
        return out

    @contextlib.contextmanager
    def installed(self):
        saved = builtins.open, io.open
        builtins.open = io.open = self.open
        for n in ("fsync", "replace", "rename", "remove"):
            setattr(os, n, getattr(self, n))
        os.unlink = self.remove
        try:
            yield self
        finally:
            builtins.open, io.open = saved
            for n, f in _real_os.items():
                setattr(os, n, f)


DEFAULT_DATA = os.path.join(env.SRC, "ciceroscm", "default_data")
