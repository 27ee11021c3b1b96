"""
The simulated world: clock, event queue, seeded decisions, worker processes.

Everything that decides the order or outcome of something in a run draws from
World.rng, which is seeded by the plan of the run, or is listed in the plan.
"""

import concurrent.futures
import concurrent.futures._base as _cf_base
import concurrent.futures.process as _cf_process
import contextlib
import errno
import hashlib
import heapq
import pickle
import random
import sys
import time
import weakref

from . import env, procstate, trace


class SimHang(BaseException):
    """Nothing can ever happen any more, or the step bound was passed"""


class SimStepLimit(SimHang):
    pass


def make_exc(name):
    if name[0] == "E" and hasattr(errno, name):
        return OSError(getattr(errno, name), "injected " + name)
    cls = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
           "RuntimeError": RuntimeError, "ValueError": ValueError, "OSError": OSError,
           "KeyError": KeyError, "FloatingPointError": FloatingPointError,
           "SystemExit": SystemExit, "TimeoutError": TimeoutError,
           "StopIteration": StopIteration, "AttributeError": AttributeError}[name]
    return cls("injected " + name)


class World:
    """One simulated run"""

    current = None

    def __init__(self, plan):
        self.plan = plan
        self.rng = random.Random(plan.get("sched_seed", 0))
        self.now = 0.0
        self.events = []
        self.seq = 0
        self.steps = 0
        self.max_steps = plan.get("max_steps", 20000)
        self.hash = hashlib.sha256()
        self.tracelog = []
        self.stats = {}
        self.faults = list(plan.get("faults", []))
        self.fired = []
        self.tasks = 0
        self.pools = 0
        self.pool_refs = []
        self.faults_on = True

    def log(self, *ev):
        s = "%.6f %s" % (self.now, " ".join(str(e) for e in ev))
        self.hash.update(s.encode() + b"\n")
        if len(self.tracelog) < 400:
            self.tracelog.append(s)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fire(self, fault):
        """Note that a planned fault took effect"""
        self.fired.append(fault)
        self.count("fault:" + fault["kind"])
        self.log("FAULT", fault["kind"], fault.get("task", ""), fault.get("exc", ""))

    def task_faults(self, task):
        if not self.faults_on:
            return []
        return [f for f in self.faults if f.get("task") == task]

    # --- clock and events
    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.events, (self.now + delay, self.seq, fn))

    def pump(self, until=None):
        """Let the next event happen; False if there is none before `until`"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimStepLimit("no end after %d simulated steps" % self.max_steps)
        if not self.events or (until is not None and self.events[0][0] > until):
            if until is None:
                raise SimHang("waiting for something that can never happen")
            self.now = max(self.now, until)
            return False
        t, _, fn = heapq.heappop(self.events)
        self.now = max(self.now, t)
        fn()
        return True

    def sleep(self, secs):
        self.count("sleeps")
        until = self.now + max(0.0, float(secs))
        while self.pump(until):
            pass

    def duration(self, task):
        """Simulated run time of a task"""
        kind = self.plan.get("durations", "exp")
        slow = [f for f in self.task_faults(task) if f["kind"] == "slow"]
        if kind == "equal":
            d = 1.0
        elif kind == "reverse":
            d = 1000.0 - task
        elif kind == "heavy":
            d = min(self.rng.paretovariate(0.8), 1000.0)
        else:
            d = self.rng.expovariate(1.0) + 1e-3
        for f in slow:
            self.fire(f)
            d *= f.get("factor", 1000.0)
        return d


class SimFuture(concurrent.futures.Future):
    """A future whose waiting drives the simulation instead of blocking"""

    def __init__(self, world):
        super().__init__()
        self._world = world

    def _wait(self, timeout):
        w = self._world
        until = None if timeout is None else w.now + timeout
        while not concurrent.futures.Future.done(self):
            if not w.pump(until) and until is not None and w.now >= until:
                raise concurrent.futures.TimeoutError()

    def done(self):
        if not super().done():
            # polling takes time
            w = self._world
            until = w.now + 1e-3
            while not super().done() and w.pump(until):
                pass
        return super().done()

    def result(self, timeout=None):
        self._wait(timeout)
        return super().result(0)

    def exception(self, timeout=None):
        self._wait(timeout)
        return super().exception(0)

    def cancel(self):
        ok = super().cancel()
        if ok:
            self._world.log("cancel")
            self.set_running_or_notify_cancel()
        return ok


def _finished(f):
    return f._state in ("CANCELLED_AND_NOTIFIED", "FINISHED", "CANCELLED")


def sim_as_completed(fs, timeout=None):
    """concurrent.futures.as_completed on simulated time"""
    w = World.current
    pending = list(dict.fromkeys(fs))
    total = len(pending)
    if not all(isinstance(f, SimFuture) for f in pending):
        yield from _real["as_completed"](fs, timeout)
        return
    end = None if timeout is None else w.now + timeout
    queue = []

    def note(f):
        queue.append(f)

    done = [f for f in pending if _finished(f)]
    w.rng.shuffle(done)  # the real one yields these in arbitrary order
    for f in pending:
        if f not in done:
            f.add_done_callback(note)
    queue[0:0] = done
    n = 0
    while n < total:
        while not queue:
            if end is not None and w.now >= end:
                raise concurrent.futures.TimeoutError(
                    "%d (of %d) futures unfinished" % (total - n, total))
            w.pump(end)
        f = queue.pop(0)
        n += 1
        w.log("yield", getattr(f, "task", "?"))
        yield f


def sim_wait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    w = World.current
    fs = list(dict.fromkeys(fs))
    if not all(isinstance(f, SimFuture) for f in fs):
        return _real["wait"](fs, timeout, return_when)
    end = None if timeout is None else w.now + timeout

    def ready():
        done = [f for f in fs if _finished(f)]
        if return_when == concurrent.futures.FIRST_COMPLETED:
            return bool(done)
        if return_when == concurrent.futures.FIRST_EXCEPTION:
            if any(f._state == "FINISHED" and f._exception is not None for f in done):
                return True
        return len(done) == len(fs)

    while fs and not ready():
        if end is not None and w.now >= end:
            break
        w.pump(end)
    done = {f for f in fs if _finished(f)}
    return _cf_base.DoneAndNotDoneFutures(done, set(fs) - done)


class SimWorker:
    def __init__(self, num, ns):
        self.num = num
        self.ns = ns
        self.busy = False
        self.ntasks = 0


class SimPool(concurrent.futures.Executor):
    """
    Simulated ProcessPoolExecutor.

    Tasks and results go through a real pickle round trip.  Each worker has
    its own Namespace, so no memory is shared with the caller or between
    workers.  The plan decides durations, which idle worker takes a task, and
    faults.
    """

    isolated = True

    def __init__(self, max_workers=None, mp_context=None, initializer=None,
                 initargs=(), **kwargs):
        w = World.current
        self.world = w
        if max_workers is None:
            max_workers = 4
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.parent = env.Namespace.current
        self.num = w.pools
        w.pools += 1
        w.count("pools")
        w.pool_refs.append(weakref.ref(self))
        self.max_workers = max_workers
        self._max_workers = max_workers
        self.initializer, self.initargs = initializer, initargs
        self.workers = []
        self.queue = []
        self.open = []
        self.broken = None
        self.closed = False

    # --- interface
    def submit(self, fn, /, *args, **kwargs):
        w = self.world
        if self.broken:
            raise _cf_process.BrokenProcessPool(self.broken)
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        task = w.tasks
        w.tasks += 1
        w.count("tasks")
        for f in w.task_faults(task):
            if f["kind"] == "submit_fail":
                w.fire(f)
                raise make_exc(f.get("exc", "OSError"))
        fut = SimFuture(w)
        fut.task = task
        w.log("submit", task, "pool", self.num)
        self.open.append(fut)
        if self.isolated:
            try:
                for f in w.task_faults(task):
                    if f["kind"] == "args_unpicklable":
                        w.fire(f)
                        raise pickle.PicklingError("injected: cannot pickle task")
                data = pickle.dumps((fn, args, kwargs))
            except Exception as exc:  # as the queue feeder thread does
                err = exc
                w.at(0.0, lambda: self._finish(fut, None, err))
                return fut
        else:
            data = (fn, args, kwargs)
        self.queue.append((fut, task, data))
        w.at(0.0, self._dispatch)
        return fut

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*iterables)]
        end = None if timeout is None else self.world.now + timeout

        def results():
            for f in futs:
                yield f.result(None if end is None else max(0, end - self.world.now))
        return results()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.closed = True
        w = self.world
        w.log("shutdown", self.num)
        if cancel_futures:
            for fut, _, _ in self.queue:
                fut.cancel()
            self.queue = []
        if wait:
            while any(not _finished(f) for f in self.open):
                w.pump()

    # --- inside
    def _finish(self, fut, value, exc):
        if _finished(fut):
            return
        self.world.log("done", fut.task, "ok" if exc is None else type(exc).__name__)
        if fut._state == "PENDING":
            fut.set_running_or_notify_cancel()
        if exc is None:
            fut.set_result(value)
        else:
            fut.set_exception(exc)

    def _break(self, why):
        self.broken = why
        self.queue = []
        for f in self.open:
            if not _finished(f):
                self._finish(f, None, _cf_process.BrokenProcessPool(
                    "A process in the process pool was terminated abruptly "
                    "while the future was running or pending."))

    def _dispatch(self):
        w = self.world
        self.queue = [q for q in self.queue if not _finished(q[0])]
        while self.queue and not self.broken:
            idle = [x for x in self.workers if not x.busy]
            if not idle:
                if len(self.workers) >= self.max_workers:
                    return
                worker = SimWorker(len(self.workers), self._worker_ns())
                self.workers.append(worker)
                w.count("workers")
                if self.initializer is not None:
                    with worker.ns.active():
                        self.initializer(*self.initargs)
            elif len(self.workers) < self.max_workers and w.rng.random() < 0.3:
                worker = SimWorker(len(self.workers), self._worker_ns())
                self.workers.append(worker)
                w.count("workers")
            else:
                worker = w.rng.choice(idle)
            fut, task, data = self.queue.pop(0)
            if not fut.set_running_or_notify_cancel():
                continue
            self._start(worker, fut, task, data)

    def _worker_ns(self):
        if not self.isolated:
            return None
        old = sys.gettrace()
        sys.settrace(None)
        try:
            if self.parent is not None and self.world.rng.random() < 0.5:
                self.world.count("workers_forked")
                return self.parent.forked()
            return env.Namespace()
        finally:
            sys.settrace(old)

    def _start(self, worker, fut, task, data):
        w = self.world
        worker.busy = True
        worker.ntasks += 1
        if worker.ntasks > 1:
            w.count("worker_reused")
        w.log("start", task, "worker", worker.num)
        faults = w.task_faults(task)
        dur = w.duration(task)
        for f in faults:
            if f["kind"] == "worker_die" and f.get("when") == "before":
                w.fire(f)
                w.at(dur * f.get("frac", 0.5), lambda: self._break("worker died"))
                return
        value, exc = self._execute(worker, task, data, faults)
        for f in faults:
            if f["kind"] == "worker_die" and f.get("when") != "before":
                w.fire(f)
                w.at(dur, lambda: self._break("worker died"))
                return

        def complete():
            worker.busy = False
            if self.broken:
                return
            self._finish(fut, value, exc)
            self._dispatch()
        w.at(dur, complete)

    def _execute(self, worker, task, data, faults):
        w = self.world
        inj = None
        for f in faults:
            if f["kind"] == "task_raise":
                inj = f
        ctx = contextlib.ExitStack()
        with ctx:
            if self.isolated:  # another process: no interrupts of ours, settings of its own
                ctx.enter_context(trace.untraced())
                ctx.enter_context(procstate.kept())
            if worker.ns:
                ctx.enter_context(worker.ns.active())
            exc = value = None
            try:
                fn, args, kwargs = pickle.loads(data) if self.isolated else data
                if inj is not None:
                    with trace.raise_at_line(
                            inj.get("line", 0), make_exc(inj["exc"]),
                            on_fire=lambda: w.fire(inj)):
                        value = fn(*args, **kwargs)
                else:
                    value = fn(*args, **kwargs)
            except (SimHang, trace.HarnessTimeout):
                raise
            except BaseException as e:  # pylint: disable=broad-except
                exc = e
            if self.isolated:
                try:
                    for f in faults:
                        if f["kind"] == "result_unpicklable" and exc is None:
                            w.fire(f)
                            raise pickle.PicklingError("injected: cannot pickle result")
                    payload = pickle.dumps((value, exc))
                except Exception as e:  # pylint: disable=broad-except
                    payload = pickle.dumps((None, pickle.PicklingError(str(e))))
        if self.isolated:
            value, exc = pickle.loads(payload)
        return value, exc


class SimThreadPool(SimPool):
    """Simulated ThreadPoolExecutor: tasks share the memory of the caller"""

    isolated = False

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None,
                 initargs=(), **kwargs):
        super().__init__(max_workers, None, initializer, initargs)


_real = {"as_completed": _cf_base.as_completed, "wait": _cf_base.wait}


class SimTime:
    """time functions on the clock of the world"""

    def __init__(self, world, base=1.7e9, jumps=None):
        self.world, self.base, self.jumps = world, base, jumps or []
        self.reads = 0

    def _read(self):
        self.reads += 1
        self.world.count("clock_reads")
        off = 0.0
        for at, by in self.jumps:
            if self.reads >= at:
                off += by
        return self.base + self.world.now + 1e-6 * self.reads + off


@contextlib.contextmanager
def installed(world, base_time=1.7e9, jumps=None):
    """Put the simulated pool and clock in place of the real ones"""
    import concurrent.futures as cf
    old = World.current
    World.current = world
    st = SimTime(world, base_time, jumps)
    patches = [
        (cf, "ProcessPoolExecutor", SimPool), (cf, "ThreadPoolExecutor", SimThreadPool),
        (cf, "as_completed", sim_as_completed), (cf, "wait", sim_wait),
        (_cf_process, "ProcessPoolExecutor", SimPool),
        (cf.thread, "ThreadPoolExecutor", SimThreadPool),
        (_cf_base, "as_completed", sim_as_completed), (_cf_base, "wait", sim_wait),
        (time, "sleep", world.sleep), (time, "time", st._read),
        (time, "monotonic", st._read), (time, "perf_counter", st._read),
        (time, "time_ns", lambda: int(st._read() * 1e9)),
    ]
    saved = [(o, n, getattr(o, n)) for o, n, _ in patches]
    for o, n, v in patches:
        setattr(o, n, v)
    try:
        yield world
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)
        World.current = old
