"""
Jobs for the generic job runner (C03): functions the simulated pool can pickle.

Each call is noted in the log of the simulated world; what it does and returns
is read from the table of the run.
"""

from .world import World, make_exc


class OddError(Exception):
    """An error with several arguments"""


def value(kind, i):
    """The result of job i; a new object each time"""
    import numpy as np
    import pandas as pd
    return {
        "none": lambda: None, "zero": lambda: 0, "false": lambda: False,
        "empty_str": lambda: "", "empty_list": lambda: [], "int": lambda: i,
        "str": lambda: "r%d" % i, "float": lambda: i + 0.25, "nan": lambda: float("nan"),
        "dict": lambda: {"i": i, "x": [i, i]}, "list": lambda: [i, "a"],
        "tuple": lambda: (i,), "array": lambda: np.arange(i, i + 4) * 0.5,
        "frame": lambda: pd.DataFrame({"a": [i, i + 1]}),
        "empty_frame": lambda: pd.DataFrame(),
        "exc": lambda: ValueError("just a value", i),
        "exc_class": lambda: KeyError, "same": lambda: "same",
    }[kind]()


KINDS = ["none", "zero", "false", "empty_str", "empty_list", "int", "str", "float", "nan",
         "dict", "list", "tuple", "array", "frame", "empty_frame", "exc", "exc_class", "same"]


def error(kind, i):
    if kind == "odd":
        return OddError("job", i)
    return make_exc(kind)


ERRORS = ["ValueError", "MemoryError", "EIO", "KeyError", "RuntimeError", "TimeoutError",
          "AttributeError", "odd"]


def _do(i, spec):
    w = World.current
    w.log("call", i)
    if spec.get("round", 0) != w.round:  # left over from an earlier call of the runner
        return None
    w.calls.append(i)
    if spec.get("fail"):
        w.count("fault:job_raises")
        w.failed.append(i)
        raise error(spec["fail"], i)
    return value(spec["kind"], i)


def job(cfg):
    """Configuration as single argument"""
    return _do(cfg["i"], cfg["spec"])


def job_tuple(cfg):
    return _do(cfg[0], cfg[1])


def job_kwargs(i, spec, extra="not given"):
    if extra != spec.get("extra", "not given"):
        raise AssertionError("job %d called with %r" % (i, extra))
    return _do(i, spec)


class Callable:
    """A function object"""

    def __call__(self, cfg):
        return _do(cfg["i"], cfg["spec"])
