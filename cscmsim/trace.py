"""
Seams inside the code under test, by line events of its own frames: raising an
exception at a chosen line, looking at the world at chosen lines, and switching
between threads at chosen lines.
"""

import contextlib
import sys
import threading

from . import env


class HarnessTimeout(BaseException):
    """Wall clock limit of a single simulated run"""


def _in_scope(frame):
    code = frame.f_code
    return code.co_filename.startswith(env.PKGDIR) and code.co_name != "<module>"


def shielded(frame):
    """
    Whether the code is just setting things right after a failure, or about to

    A second failure at that point, or one between taking something and the "try"
    that makes sure it is given back, is more than anybody promises to survive.
    """
    own = True
    while frame is not None and (own or frame.f_code.co_filename.startswith(env.PKGDIR)):
        marks = env.cleanup_lines.get(frame.f_code.co_filename)
        if marks and (frame.f_lineno in marks[0] or (own and frame.f_lineno in marks[1])):
            return True
        own = False
        frame = frame.f_back
    return False


class _Tracer:
    def __init__(self, on_line):
        self.on_line = on_line

    def glob(self, frame, event, arg):
        if event == "call" and _in_scope(frame):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == "line":
            self.on_line(frame)
        return self.loc


@contextlib.contextmanager
def tracing(on_line):
    tr = _Tracer(on_line)
    old = sys.gettrace()
    sys.settrace(tr.glob)
    try:
        yield tr
    finally:
        sys.settrace(old)


@contextlib.contextmanager
def untraced():
    old = sys.gettrace()
    sys.settrace(None)
    try:
        yield
    finally:
        sys.settrace(old)


class LineCount:
    def __init__(self):
        self.n = 0

    def __call__(self, frame):
        self.n += 1


class LineMap:
    """Event numbers of the visits to each source line (first, last, a few more)"""

    def __init__(self):
        self.n = 0
        self.lines = {}

    def __call__(self, frame):
        key = (frame.f_code.co_filename, frame.f_lineno)
        e = self.lines.get(key)
        if e is None:
            self.lines[key] = [1, [self.n], self.n]
        else:
            e[0] += 1
            e[2] = self.n
            if e[0] & (e[0] - 1) == 0:  # visit 2, 4, 8, ...
                e[1].append(self.n)
        self.n += 1

    def site(self, frac, visit):
        """File, line and number of a visit (from 1) at the place frac of all lines"""
        keys = list(self.lines)
        key = keys[min(int(frac * len(keys)), len(keys) - 1)]
        n = self.lines[key][0]
        return key[0], key[1], max(1, min(n, int(round(n ** visit))))

    def pick(self, frac, k):
        """Event number of some visit to some source line"""
        e = list(self.lines.values())
        e = e[min(int(frac * len(e)), len(e) - 1)]
        visits = e[1] + [e[2]]
        return visits[k % len(visits)]


@contextlib.contextmanager
def count_lines():
    c = LineMap()
    with tracing(c):
        yield c


@contextlib.contextmanager
def raise_at_line(k, exc, on_fire=None, where=None):
    """Raise exc at the k-th line event (from 0) in the code under test"""
    state = {"n": 0, "fired": False}

    def on_line(frame):
        if state["fired"]:
            return
        if state["n"] >= k and not shielded(frame):
            state["fired"] = True
            if where is not None:
                where.append("%s:%d" % (frame.f_code.co_filename[len(env.PKGDIR):],
                                        frame.f_lineno))
            if on_fire:
                on_fire()
            state["n"] += 1
            raise exc
        state["n"] += 1

    with tracing(on_line):
        yield state


@contextlib.contextmanager
def raise_at_site(site, exc, where=None):
    """Raise exc at the n-th visit to a line; only code containing it is slowed down"""
    fname, lineno, visit = site
    state = {"n": 0, "fired": False}
    known = {}

    def concerned(code):
        return code.co_filename == fname and any(
            ln == lineno for _, _, ln in code.co_lines())

    def loc(frame, event, arg):
        if event == "line" and frame.f_lineno == lineno and not state["fired"]:
            state["n"] += 1
            if state["n"] >= visit and not shielded(frame):
                state["fired"] = True
                if where is not None:
                    where.append("%s:%d" % (fname[len(env.PKGDIR):], lineno))
                raise exc
        return loc

    def glob(frame, event, arg):
        code = frame.f_code
        if code not in known:
            known[code] = concerned(code)
        return loc if known[code] and event == "call" and not state["fired"] else None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        yield state
    finally:
        sys.settrace(old)


@contextlib.contextmanager
def watch_sites(sites, fn, visits=2):
    """Call fn(frame) at the first visits to the given lines (file, number)"""
    left = {tuple(s): visits for s in sites}
    files = {s[0] for s in left}
    known = {}

    def loc(frame, event, arg):
        if event == "line":
            key = (frame.f_code.co_filename, frame.f_lineno)
            if left.get(key, 0) > 0:
                left[key] -= 1
                sys.settrace(None)
                try:
                    fn(frame)
                finally:
                    sys.settrace(glob)
        return loc

    def glob(frame, event, arg):
        code = frame.f_code
        if code not in known:
            known[code] = code.co_filename in files and [
                k for k in ((code.co_filename, ln) for _, _, ln in code.co_lines())
                if k in left]
        if known[code] and any(left[k] for k in known[code]):
            return loc
        return None

    old = sys.gettrace()
    sys.settrace(glob)
    try:
        yield left
    finally:
        sys.settrace(old)


# ---------------------------------------------------------------- threads


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class Interleaver:
    """
    Runs functions in real threads, exactly one at a time.

    The running thread can lose control at every line of the code under test
    (and at every file operation that calls switch_point); who runs next and
    for how many lines is drawn from rng.
    """

    current = None

    def __init__(self, rng, mean_quantum=50, log=None, max_switches=2000000, rare=0.0):
        self.rng = rng
        self.rare = rare   # probability of a switch at lines a thread has hardly visited
        self.seen = {}
        self.mean = mean_quantum
        self.log = log or (lambda *a: None)
        self.sems = []
        self.state = []
        self.active = None
        self.left = 0
        self.switches = 0
        self.lines = 0
        self.max_switches = max_switches
        self.done = threading.Semaphore(0)
        self.abort = False
        self.deadlock = False
        self.results = []
        self.idents = {}

    def _quantum(self):
        if self.mean < 0:  # only at hardly visited lines
            return 1 << 40
        if not self.mean:  # from a few lines to whole runs
            return int(2.0 ** self.rng.uniform(1, 18))
        return 1 + int(self.rng.expovariate(1.0 / self.mean))

    def _on_line(self, frame):
        self.lines += 1
        self.left -= 1
        if self.rare:
            key = (self.active, frame.f_code, frame.f_lineno)
            n = self.seen.get(key, 0)
            if n < 3:
                self.seen[key] = n + 1
                if self.rng.random() < self.rare:
                    self.left = 0
        if self.left <= 0:
            self._switch()

    def switch_point(self):
        """Called at other points where a thread may lose control"""
        me = self.idents.get(threading.get_ident())
        if me is None or me != self.active:
            return
        self.left -= 5
        if self.rare and self.rng.random() < self.rare:
            self.left = 0
        if self.left <= 0:
            self._switch()

    def _runnable(self):
        return [i for i, s in enumerate(self.state) if s == "run"]

    def _hand_over(self, me, nxt):
        self.active = nxt
        self.left = self._quantum()
        if nxt != me:
            self.switches += 1
            self.log("switch", me, nxt)
            self.sems[nxt].release()
            if self.state[me] != "end":
                self.sems[me].acquire()
                if self.abort:
                    raise _Abort()

    def _switch(self):
        me = self.active
        self._hand_over(me, self.rng.choice(self._runnable()))

    def blocked(self, waiting_for):
        """The running thread waits for a lock: let somebody else run"""
        me = self.active
        others = [i for i in self._runnable() if i != me]
        self.nblocked = getattr(self, "nblocked", 0) + 1
        if not others or self.nblocked > 100000:
            self.deadlock = True
            raise Deadlock("all threads wait")
        self._hand_over(me, self.rng.choice(others))

    def _main(self, num, fn):
        self.idents[threading.get_ident()] = num
        self.sems[num].acquire()
        try:
            if not self.abort:
                tr = _Tracer(self._on_line)
                sys.settrace(tr.glob)
                try:
                    self.results[num] = ("ok", fn())
                except (_Abort, HarnessTimeout):
                    self.results[num] = ("abort", None)
                except BaseException as exc:  # pylint: disable=broad-except
                    self.results[num] = ("exc", exc)
                finally:
                    sys.settrace(None)
        finally:
            self.state[num] = "end"
            left = self._runnable()
            if left and not self.abort:
                nxt = self.rng.choice(left)
                self.active = nxt
                self.left = self._quantum()
                self.log("end", num, nxt)
                self.sems[nxt].release()
            else:
                self.done.release()

    def run(self, fns):
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.state = ["run"] * len(fns)
        self.results = [None] * len(fns)
        threads = [threading.Thread(target=self._main, args=(i, f), daemon=True)
                   for i, f in enumerate(fns)]
        old = Interleaver.current
        Interleaver.current = self
        lock_patch = _patch_locks()
        lock_patch.__enter__()
        try:
            for t in threads:
                t.start()
            first = self.rng.randrange(len(fns))
            self.active = first
            self.left = self._quantum()
            self.sems[first].release()
            try:
                self.done.acquire()
            except BaseException:
                self.abort = True
                for s in self.sems:
                    s.release()
                raise
            for t in threads:
                t.join(5)
        finally:
            lock_patch.__exit__(None, None, None)
            Interleaver.current = old
        return self.results


class CoopLock:
    """Lock made by the code under test: waiting hands control on"""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.n += 1
                return True
            if not blocking:
                return False
            il = Interleaver.current
            if il is None:
                raise Deadlock("lock is held and nobody can release it")
            if timeout is not None and timeout >= 0:
                return False
            il.blocked(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getstate__(self):
        raise TypeError("cannot pickle lock")


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _from_cut():
    name = sys._getframe(2).f_globals.get("__name__", "")
    return name == "ciceroscm" or name.startswith("ciceroscm.")


def _lock_factory(*a):
    return CoopLock(False) if _from_cut() else _real_lock()


def _rlock_factory(*a):
    return CoopLock(True) if _from_cut() else _real_rlock()


@contextlib.contextmanager
def _patch_locks():
    """Also to be active when the Namespace is made"""
    saved = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = _lock_factory, _rlock_factory
    try:
        yield
    finally:
        threading.Lock, threading.RLock = saved


patch_locks = _patch_locks
