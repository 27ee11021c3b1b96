"""
Process set-up, and fresh copies ("namespaces") of the code under test.

A Namespace is one complete import of the ciceroscm package from /repo's
working tree.  It stands for the memory of one operating system process:
module level and class level state is private to it.  The simulator makes one
for the calling process and one for each simulated worker process.
"""

import os
import sys

THREAD_VARS = ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
               "NUMEXPR_NUM_THREADS", "VECLIB_MAXIMUM_THREADS")
for _v in THREAD_VARS:
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

import ast
import contextlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import pickle
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.realpath(os.environ.get("CSCM_REPO", "/repo"))
SRC = os.path.join(REPO, "src")
PKGDIR = os.path.join(SRC, "ciceroscm") + os.sep
DATA = os.path.join(VERIF, "data")

_code_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles from the source in the working tree (never from a .pyc)"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        code = _code_cache.get(path)
        if code is None:
            source = self.get_data(path)
            code = compile(source, path, "exec", dont_inherit=True)
            _code_cache[path] = code
            cleanup_lines[path] = _find_cleanup(source)
        return code


# File: (lines of code that sets things right when something else has failed,
# lines at which such code begins to be or is no longer responsible)
cleanup_lines = {}


def _find_cleanup(source):
    inside, edge = set(), set()
    for node in ast.walk(ast.parse(source)):
        if isinstance(node, (ast.Try, ast.TryStar)):
            edge.add(node.lineno)
            parts = [node.finalbody] + [h.body for h in node.handlers
                                        if isinstance(h.body[-1], ast.Raise)]
            for part in parts:
                if part:
                    inside.update(range(part[0].lineno, part[-1].end_lineno + 1))
            for h in node.handlers:
                edge.update(range(h.lineno, h.body[0].lineno))
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            edge.update(range(node.lineno, node.body[0].lineno))
        elif isinstance(node, ast.FunctionDef) and node.name in ("__exit__", "__enter__"):
            inside.update(range(node.lineno, node.end_lineno + 1))
    return frozenset(inside), frozenset(edge)


class _VersionStub(importlib.abc.Loader):
    """ciceroscm._version runs git at import: replaced by a constant"""

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        module.get_versions = lambda: {
            "version": "0+sim", "full-revisionid": None, "dirty": None,
            "error": None, "date": None,
        }


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "ciceroscm" and not fullname.startswith("ciceroscm."):
            return None
        if fullname == "ciceroscm._version":
            return importlib.machinery.ModuleSpec(fullname, _VersionStub())
        base = os.path.join(SRC, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        if os.path.isdir(base):  # namespace package
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


_installed = False


def preload():
    """Import the third party packages once, install the finder"""
    global _installed
    if _installed:
        return
    _installed = True
    sys.meta_path.insert(0, _Finder())
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import numpy  # noqa
    import pandas  # noqa
    import scipy.linalg  # noqa
    import scipy.stats.qmc  # noqa
    import tqdm
    import tqdm.autonotebook  # noqa
    import concurrent.futures.process  # noqa
    import concurrent.futures.thread  # noqa
    tqdm.tqdm.monitor_interval = 0
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)


def _is_cut(name):
    return name == "ciceroscm" or name.startswith("ciceroscm.")


def _all_module_names():
    names = []
    root = os.path.join(SRC, "ciceroscm")
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        rel = os.path.relpath(dirpath, SRC).replace(os.sep, ".")
        for f in sorted(files):
            if f == "__init__.py":
                names.append(rel)
            elif f.endswith(".py"):
                names.append(f"{rel}.{f[:-3]}")
    return names


class Namespace:
    """One private import of the package"""

    current = None

    def __init__(self):
        preload()
        saved = {k: sys.modules.pop(k) for k in [m for m in sys.modules if _is_cut(m)]}
        try:
            importlib.import_module("ciceroscm")
            for name in _all_module_names():
                importlib.import_module(name)
            self.mods = {k: v for k, v in sys.modules.items() if _is_cut(k)}
        finally:
            for k in [m for m in sys.modules if _is_cut(m)]:
                del sys.modules[k]
            sys.modules.update(saved)

    def __getitem__(self, name):
        return self.mods["ciceroscm." + name if name else "ciceroscm"]

    @contextlib.contextmanager
    def active(self):
        """Make this the package that imports and pickles refer to"""
        saved = {k: sys.modules.pop(k) for k in [m for m in sys.modules if _is_cut(m)]}
        sys.modules.update(self.mods)
        before, Namespace.current = Namespace.current, self
        try:
            yield self
        finally:
            Namespace.current = before
            for k in [m for m in sys.modules if _is_cut(m)]:
                self.mods[k] = sys.modules.pop(k)
            sys.modules.update(saved)

    def forked(self):
        """
        A new process forked from this one: module and class level data of
        this process as they are now, from then on separate
        """
        child = Namespace()
        for name, mod in self.mods.items():
            other = child.mods.get(name)
            if other is None:
                continue
            self._copy_data(vars(mod), other, child)
            for key, val in list(vars(mod).items()):
                if isinstance(val, type) and val.__module__ == name:
                    cls = vars(other).get(key)
                    if isinstance(cls, type):
                        self._copy_data(dict(vars(val)), cls, child)
        return child

    def _copy_data(self, data, target, child):
        for key, val in list(data.items()):
            if key.startswith("__"):
                continue
            if not (val is None or isinstance(val, (dict, list, set, int, float, str, tuple))
                    or type(val).__module__.split(".")[0] in ("numpy", "pandas")):
                continue
            if isinstance(val, types.ModuleType) or callable(val):
                continue
            try:
                with self.active():
                    raw = pickle.dumps(val)
                with child.active():
                    new = pickle.loads(raw)
            except Exception:  # pylint: disable=broad-except
                continue
            old = vars(target).get(key)
            if type(old) is type(new) and isinstance(new, (dict, set)):
                old.clear()
                old.update(new)
            elif type(old) is type(new) and isinstance(new, list):
                old[:] = new
            else:
                try:
                    setattr(target, key, new)
                except (AttributeError, TypeError):
                    pass

    # short cuts to the public interface
    @property
    def CICEROSCM(self):
        return self["ciceroscm"].CICEROSCM

    @property
    def run_ciceroscm_parallel(self):
        return self["parallel.cscmparwrapper"].run_ciceroscm_parallel

    @property
    def parallel_process(self):
        return self["parallel._parallel_process"]._parallel_process

    @property
    def ConfigDistro(self):
        return self["parallel._configdistro"]._ConfigDistro

    @property
    def DistributionRun(self):
        return self["parallel.distributionrun"].DistributionRun


class _Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = "utf-8"


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints"""
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err
