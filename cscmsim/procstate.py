"""
What a process has apart from its results: global settings, open files,
threads, folders.  Taken before and after something to see what it left behind.
"""

import atexit
import builtins
import contextlib
import decimal
import gc
import locale
import logging
import multiprocessing
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import time
import types
import warnings


def _np_random():
    import numpy as np
    st = np.random.get_state()
    return (st[0], st[1].tobytes()) + tuple(st[2:])


def _pandas_options():
    import pandas as pd
    out = {}

    def walk(d, path):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, path + k + ".")
            else:
                out[path + k] = repr(v)
    import pandas._config.config as cf
    walk(cf._global_config, "")
    return out


def _logging():
    out = {"disable": logging.root.manager.disable, "class": logging.getLoggerClass(),
           "raise": logging.raiseExceptions, "factory": logging.getLogRecordFactory()}
    names = ["root"] + sorted(n for n, lg in logging.root.manager.loggerDict.items()
                              if isinstance(lg, logging.Logger))
    for n in names:
        lg = logging.root if n == "root" else logging.getLogger(n)
        if lg.level or lg.handlers or not lg.propagate or lg.filters or lg.disabled:
            out[n] = (lg.level, [(type(h).__name__, h.level) for h in lg.handlers],
                      lg.propagate, len(lg.filters), lg.disabled)
    return out


def _signals():
    out = {}
    for s in signal.valid_signals():
        try:
            out[int(s)] = signal.getsignal(s)
        except (ValueError, OSError):
            pass
    return out


def _umask():
    old = os.umask(0o22)
    os.umask(old)
    return old


def _fds():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


def _rlimits():
    import resource
    return {n: resource.getrlimit(getattr(resource, n)) for n in dir(resource)
            if n.startswith("RLIMIT_")}


def _mpl():
    import matplotlib
    return {k: repr(v) for k, v in dict.items(matplotlib.rcParams)}


def _modules():
    """Functions of other packages, to see whether one was replaced"""
    import numpy as np
    import pandas as pd
    import concurrent.futures as cf
    out = {}
    for name, obj in (("builtins", builtins), ("os", os), ("os.path", os.path), ("numpy", np),
                      ("pandas", pd), ("DataFrame", pd.DataFrame), ("Series", pd.Series),
                      ("numpy.random", np.random), ("concurrent.futures", cf), ("sys", sys),
                      ("time", time), ("warnings", warnings), ("logging", logging),
                      ("random", random), ("tempfile", tempfile)):
        for k, v in list(vars(obj).items()):
            if k in ("_", "last_exc", "last_value", "last_type", "last_traceback", "__warningregistry__",
                     "tempdir", "filters", "onceregistry", "modules", "path_importer_cache",
                     "_name_sequence", "_filters_mutated", "_filters_version",
                     "path", "argv", "meta_path", "path_hooks"):
                continue
            if isinstance(v, types.ModuleType) and name != "sys":
                continue
            out[name + "." + k] = id(v)
    return out


ITEMS = {
    "working directory": os.getcwd,
    "environment variables": lambda: dict(os.environ),
    "state of random": random.getstate,
    "state of numpy.random": _np_random,
    "numpy error handling": lambda: __import__("numpy").geterr(),
    "numpy error callback": lambda: __import__("numpy").geterrcall(),
    "numpy print options": lambda: {k: repr(v) for k, v in
                                    __import__("numpy").get_printoptions().items()},
    "warnings filters": lambda: [repr(f) for f in warnings.filters],
    "warnings display": lambda: warnings.showwarning,
    "pandas options": _pandas_options,
    "logging set-up": _logging,
    "signal handlers": _signals,
    "umask": _umask,
    "locale": lambda: locale.setlocale(locale.LC_ALL),
    "recursion limit": sys.getrecursionlimit,
    "switch interval": sys.getswitchinterval,
    "import path": lambda: list(sys.path),
    "import hooks": lambda: [id(m) for m in sys.meta_path],
    "arguments": lambda: list(sys.argv),
    "standard streams": lambda: (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
    "exception hook": lambda: (sys.excepthook, threading.excepthook, sys.unraisablehook),
    "trace function": lambda: (sys.gettrace(), sys.getprofile()),
    "garbage collection": lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
    "gc callbacks": lambda: [id(c) for c in gc.callbacks],
    "decimal context": lambda: repr(decimal.getcontext()),
    "socket timeout": socket.getdefaulttimeout,
    "exit handlers": lambda: atexit._ncallbacks(),
    "threads": lambda: sorted(t.name for t in threading.enumerate()),
    "child processes": lambda: sorted(p.name for p in multiprocessing.active_children()),
    "start method": lambda: multiprocessing.get_start_method(allow_none=True),
    "open files": _fds,
    "resource limits": _rlimits,
    "matplotlib settings": _mpl,
    "integer digits limit": lambda: sys.get_int_max_str_digits(),
    "time zone": lambda: time.tzname,
    "functions of other packages": _modules,
    "priority": lambda: (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0)),
}


def take(skip=()):
    return {k: f() for k, f in ITEMS.items() if k not in skip}


def diff(a, b):
    """None or the first thing that is not as before"""
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k)
            if isinstance(x, dict) and isinstance(y, dict):
                keys = [i for i in list(x) + list(y) if x.get(i) != y.get(i)]
                return "%s changed: %s" % (k, ", ".join(
                    "%s %.60r to %.60r" % (i, x.get(i), y.get(i)) for i in sorted(
                        set(keys), key=str)[:2]))
            if k.startswith("state of"):
                return "%s changed" % k
            return "%s changed from %.120r to %.120r" % (k, x, y)
    return None


@contextlib.contextmanager
def kept():
    """A simulated other process: its settings are its own"""
    import numpy as np
    import pandas as pd
    import pandas._config.config as cf
    cwd, environ = os.getcwd(), dict(os.environ)
    rnd, nprnd, nperr = random.getstate(), np.random.get_state(), np.geterr()
    filters = list(warnings.filters)
    opts = {}

    def walk(d, path):
        for k, v in d.items():
            if isinstance(v, dict):
                walk(v, path + k + ".")
            else:
                opts[path + k] = v
    walk(cf._global_config, "")
    mask = _umask()
    try:
        yield
    finally:
        os.chdir(cwd)
        if dict(os.environ) != environ:
            for k in list(os.environ):
                if k not in environ:
                    del os.environ[k]
            os.environ.update(environ)
        random.setstate(rnd)
        np.random.set_state(nprnd)
        np.seterr(**nperr)
        warnings.filters[:] = filters
        now = {}
        walk_now = _pandas_options()
        for k, v in opts.items():
            if repr(v) != walk_now.get(k):
                now[k] = v
        for k, v in now.items():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pd.set_option(k, v)
        os.umask(mask)


# ------------------------------------------------------------- kept memory


def _size(obj, seen, depth):
    """Number of elements held by containers reachable from obj"""
    import numpy as np
    import pandas as pd
    if depth > 6 or id(obj) in seen:
        return 0
    if isinstance(obj, (str, bytes, int, float, bool, type(None), types.ModuleType)):
        return 0
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        return int(obj.size)
    if isinstance(obj, (pd.DataFrame, pd.Series)):
        return int(obj.size)
    if isinstance(obj, dict):
        return len(obj) + sum(_size(v, seen, depth + 1) for v in list(obj.values()))
    if isinstance(obj, (list, tuple, set, frozenset)) or type(obj).__name__ == "deque":
        return len(obj) + sum(_size(v, seen, depth + 1) for v in list(obj))
    info = getattr(obj, "cache_info", None)
    if callable(info):
        try:
            return int(info().currsize) + _size(getattr(obj, "__wrapped__", None), seen, depth)
        except Exception:  # pylint: disable=broad-except
            return 0
    if isinstance(obj, types.FunctionType):
        n = _size(obj.__defaults__, seen, depth) + _size(obj.__kwdefaults__, seen, depth)
        n += _size(vars(obj), seen, depth)
        for c in obj.__closure__ or ():
            try:
                n += _size(c.cell_contents, seen, depth)
            except ValueError:
                pass
        return n
    if isinstance(obj, (classmethod, staticmethod)):
        return _size(obj.__func__, seen, depth)
    if isinstance(obj, property):
        return sum(_size(f, seen, depth) for f in (obj.fget, obj.fset, obj.fdel) if f)
    if isinstance(obj, type):
        if not obj.__module__.startswith("ciceroscm"):
            return 0
        return sum(_size(v, seen, depth + 1) for v in list(vars(obj).values()))
    if type(obj).__module__.startswith("ciceroscm"):
        return 1 + sum(_size(v, seen, depth + 1) for v in list(vars(obj).values()))
    return 0


def held_by(ns):
    """Elements held at module and class level of the package"""
    seen = set()
    out = {}
    for name, mod in sorted(ns.mods.items()):
        n = 0
        for k, v in list(vars(mod).items()):
            if not k.startswith("__"):
                n += _size(v, seen, 0)
        out[name] = n
    return out
