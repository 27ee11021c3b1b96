#!/opt/venv/bin/python
"""
Seeded simulation of one property.

  check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
  check.py ID --replay FILE        runs a recorded violation again
  check.py ID --digests I,J,K      prints the digests of these runs (self check)

Exit 0: held on everything run; 1: violated, with a VIOLATION line; 2: the
machinery itself failed (never an answer about the property).
"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("CSCM_REEXEC") != "1":
    e = dict(os.environ, CSCM_REEXEC="1", PYTHONDONTWRITEBYTECODE="1")
    if "--digests" not in sys.argv:
        e["PYTHONHASHSEED"] = "0"
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, HERE)
import argparse
import importlib
import json
import re

from cscmsim import env
from cscmsim import runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--procs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    a = ap.parse_args()
    if not re.fullmatch(r"C\d\d", a.id):
        ap.error("no such property")
    env.preload()
    env.Namespace()  # the tree can be imported; fills the code cache
    mod = importlib.import_module("cscmsim.props." + a.id.lower())
    if a.digests is not None:
        for i in a.digests.split(","):
            plan = runner.make_plan(mod, a.id, a.tier, a.seed, int(i))
            print(i, mod.run(plan)["digest"])
        return 0
    if a.replay:
        return runner.replay(mod, a.id, a.replay)
    return runner.check(mod, a.id, a.tier, a.seed, runs=a.runs, wall=a.wall,
                        procs=a.procs, first=a.first)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
