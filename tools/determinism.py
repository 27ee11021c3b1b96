#!/opt/venv/bin/python
"""
One seed is one execution: digests of event log and results of the same runs in
several processes, with other hash seeds and in another order.

tools/determinism.py [RUNS] [PROPERTY...]     exit 1 if any digest differs
"""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def start(pid, idx, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    return subprocess.Popen(
        [sys.executable, os.path.join(ROOT, "check.py"), pid, "--tier", "quick", "--seed", "77",
         "--digests", ",".join(map(str, idx))], stdout=subprocess.PIPE, env=env)


def digests(p):
    out, _ = p.communicate()
    return dict(ln.split() for ln in out.decode().split("\n") if len(ln.split()) == 2)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 20
    props = sys.argv[2:] or sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "cscmsim", "props"))
        if f[0] == "c" and f[1:3].isdigit())
    bad = 0
    for pid in props:
        idx = list(range(n))
        ps = [start(pid, idx, "0"), start(pid, idx[::-1], "1"), start(pid, idx[1::2], "4711"),
              start(pid, idx, "0")]
        got = [digests(p) for p in ps]
        diff = sorted({int(i) for g in got[1:] for i in g if g[i] != got[0].get(i)})
        total = sum(len(g) for g in got)
        print("%s: %d executions of %d runs in 4 processes, different: %s"
              % (pid, total, n, diff or "none"), flush=True)
        bad += bool(diff) or total != 3 * n + n // 2
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
