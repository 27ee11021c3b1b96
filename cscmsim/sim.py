"""
One simulated run: scratch folder, world, file system, collected violations.
"""

import contextlib
import hashlib
import os
import random
import shutil
import signal
import sys
import tempfile
import warnings

from . import env, trace, vfs, world


class HarnessError(Exception):
    """The harness, not the code under test, is at fault"""


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.world = world.World(plan)
        self.violations = []
        self.stats = self.world.stats
        self.probes = {}
        self.results = hashlib.sha256()
        self.dir = None
        self.fs = None
        self.nontrivial = True

    def violate(self, msg):
        self.violations.append(msg)
        self.world.log("VIOLATION", msg)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def count(self, key, n=1):
        self.world.count(key, n)

    def log(self, *a):
        self.world.log(*a)

    def note(self, obj):
        """Make a value part of the digest of the run"""
        _hash(self.results, obj)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def digest(self):
        h = hashlib.sha256()
        h.update(self.world.hash.digest())
        h.update(self.results.digest())
        return h.hexdigest()[:24]

    def outcome(self):
        st = dict(self.stats)
        if self.fs is not None:
            for k, v in self.fs.stats.items():
                st[k] = st.get(k, 0) + v
        return {"violations": self.violations, "stats": st, "probes": self.probes,
                "digest": self.digest(), "trace": self.world.tracelog,
                "sim_time": self.world.now, "nontrivial": self.nontrivial,
                "schedule": self.world.hash.hexdigest()[:24]}


def _hash(h, obj):
    import numpy as np
    import pandas as pd
    if isinstance(obj, pd.DataFrame):
        h.update(repr(list(obj.columns)).encode())
        h.update(repr(list(obj.index)).encode())
        for i in range(obj.shape[1]):
            _hash(h, obj.iloc[:, i].to_numpy())
    elif isinstance(obj, pd.Series):
        _hash(h, obj.to_numpy())
    elif isinstance(obj, np.ndarray):
        if obj.dtype.kind in "fiub":
            h.update(np.ascontiguousarray(obj).tobytes())
        else:
            h.update(repr(list(obj.ravel())).encode())
    elif isinstance(obj, dict):
        for k, v in obj.items():
            h.update(repr(k).encode())
            _hash(h, v)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            _hash(h, v)
    else:
        h.update(repr(obj).encode())


_np_err = None


def _reset_globals(seed):
    """Third party state the code under test could have left behind"""
    import numpy as np
    global _np_err
    if _np_err is None:
        _np_err = np.geterr()
    np.seterr(**_np_err)
    np.random.seed(seed & 0xFFFFFFFF)
    random.seed(seed)
    del warnings.filters[:]
    warnings.filterwarnings("ignore")


@contextlib.contextmanager
def sandbox(run):
    """Scratch folder, environment and global state of a run"""
    env.preload()
    saved_env, saved_cwd = dict(os.environ), os.getcwd()
    run.dir = os.path.realpath(tempfile.mkdtemp(prefix="cscmsim"))
    os.makedirs(run.path("cwd"))
    os.makedirs(run.path("tmp"))
    os.chdir(run.path("cwd"))
    os.makedirs(run.path("home"))
    os.environ["TMPDIR"] = run.path("tmp")
    os.environ["HOME"] = run.path("home")
    old_tmp, tempfile.tempdir = tempfile.tempdir, None
    _reset_globals(run.plan.get("sched_seed", 0))
    try:
        with env.quiet():
            yield run
    finally:
        sys.settrace(None)
        tempfile.tempdir = old_tmp
        os.chdir(saved_cwd)
        for k in list(os.environ):
            if k not in saved_env:
                del os.environ[k]
        os.environ.update(saved_env)
        shutil.rmtree(run.dir, ignore_errors=True)


def simulate(body, plan, **install):
    """Run body(run) under the simulator; returns the outcome dictionary"""
    run = Run(plan)
    with sandbox(run):
        with world.installed(run.world, **install):
            try:
                body(run)
            except world.SimHang as exc:
                run.violate("hang: %s" % exc)
    return run.outcome()


@contextlib.contextmanager
def alarm(seconds):
    def on_alarm(signum, frame):
        raise trace.HarnessTimeout("no end after %d s" % seconds)
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def chain_has(exc, injected):
    """Is the injected exception the error, or a cause of it?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        if exc is injected or (type(exc) is type(injected) and exc.args == injected.args):
            return True
        seen.add(id(exc))
        exc = exc.__cause__ or exc.__context__
    return False


def short(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:120])


# exceptions that are never an answer of the code under test
PASS = (world.SimHang, trace.HarnessTimeout)
