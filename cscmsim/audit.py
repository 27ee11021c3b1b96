"""Names of files outside a folder that are made, changed or removed by this process"""

import contextlib
import os
import sys

_state = {"root": None, "seen": None}
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_PATHS = {"os.mkdir": (0,), "os.remove": (0,), "os.rmdir": (0,), "os.rename": (0, 1),
          "os.link": (0, 1), "os.symlink": (1,), "os.truncate": (0,), "os.chmod": (0,),
          "os.chown": (0,), "os.utime": (0,), "os.mkfifo": (0,)}


def _hook(event, args):
    if _state["root"] is None:
        return
    if event == "open":
        path, mode, flags = args
        if not (isinstance(flags, int) and flags & _WRITE):
            return
        paths = (path,)
    elif event in _PATHS:
        paths = [args[i] for i in _PATHS[event]]
    else:
        return
    for path in paths:
        if isinstance(path, (str, bytes)) or hasattr(path, "__fspath__"):
            root, _state["root"] = _state["root"], None
            try:
                full = os.path.realpath(os.fsdecode(path))
                if not full.startswith((root + os.sep, "/dev/", "/proc/")):
                    _state["seen"].append("%s (%s)" % (full, event))
            finally:
                _state["root"] = root


_installed = []


@contextlib.contextmanager
def outside(root):
    """List that gets what happens outside root"""
    if not _installed:
        _installed.append(1)
        sys.addaudithook(_hook)
    seen = []
    _state.update(root=os.path.realpath(root), seen=seen)
    try:
        yield seen
    finally:
        _state.update(root=None, seen=None)
