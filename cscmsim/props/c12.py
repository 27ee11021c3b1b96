"""C12: results do not depend on process, clock, hashing or random state"""

import contextlib
import copy
import os
import pickle
import random
import subprocess
import sys

from .. import distro, env, oracle, scen, sim, world
from . import ens
from .c04 import runcfg

LEVEL = "exploration"
RULE = ("a run does the same one to three jobs (runs of a model with results as dictionary or "
        "as files, ensembles) under two different circumstances: here and in a new process "
        "with another hash seed, with other clock values and jumps, random generator states, "
        "entropy, working directory (with decoy input files), environment, processor count, "
        "process id, time zone and worker speeds; results and layout have to be the same and "
        "the random generators undisturbed; non-trivial: some job gave results; distinct: "
        "different jobs or results")
REAL = ["ciceroscm package in two interpreter processes", "hash randomisation",
        "pandas, numpy, scipy", "files in a scratch folder"]
STUB = ["ProcessPoolExecutor, as_completed, wait (simulated)", "clock, sleep, datetime.now",
        "os.urandom, unseeded generators", "os.cpu_count, os.getpid, host name"]
RUNS = {"quick": 150, "thorough": 6000}


def gen_circ(rng):
    return {"time": rng.choice([0.0, 5e8, 1.7e9, 4.1e9, rng.uniform(0, 4e9)]),
            "jumps": [[rng.randint(1, 20), rng.choice([-1e6, -3600.0, -0.5, 3600.0, 1e8])]
                      for _ in range(rng.choice([0, 0, 1, 3]))],
            "np_seed": rng.randrange(1 << 30), "py_seed": rng.randrange(1 << 30),
            "entropy": rng.randrange(1 << 30),
            "cwd": rng.choice(["cwd", "cwd", "other place", "a/b/c", "readonly"]),
            "decoys": rng.random() < 0.5,
            "env": {k: rng.choice(v) for k, v in (
                ("HOME", ["/", "/nonexistent", "/root"]), ("USER", ["x", "root"]),
                ("TZ", ["UTC", "Asia/Tokyo", "America/New_York"]),
                ("LANG", ["C", "nb_NO.UTF-8"]), ("LC_ALL", ["C", "de_DE.UTF-8"]),
                ("COLUMNS", ["20", "200"]), ("CI", ["", "true"]),
                ("DEBUG", ["", "1"]), ("OMP_NUM_THREADS", ["1", "16"]))
                if rng.random() < 0.5},
            "unset": rng.randrange(1 << 30), "cpus": rng.choice([1, 2, 3, 8, 64, None]), "pid": rng.randrange(2, 4000000),
            "durations": rng.choice(["exp", "equal", "reverse", "heavy"]),
            "sched": rng.randrange(1 << 30)}


def gen(rng, tier):
    jobs = []
    for i in range(rng.choice([1, 2, 2, 3])):
        if rng.random() < 0.35:
            jobs.append({"job": "ensemble", "call": ens.gen_call(rng, max_members=4)})
        else:
            s = scen.gen_scen(rng, kinds=("emis", "emis", "conc", "conc", "forc"))
            s["name"] = "s%d" % i
            jobs.append({"job": "run", "spec": s, "params": scen.gen_params(rng, s),
                         "form": rng.choice(["dict", "dict", "files"]),
                         "again": rng.random() < 0.3})
    return {"sched_seed": rng.randrange(1 << 30), "jobs": jobs,
            "here": gen_circ(rng), "there": gen_circ(rng),
            "hash": rng.randrange(1, 1 << 16)}


class SimEnviron(os._Environ):  # pylint: disable=protected-access
    """Variables that are not set have some value for the code under test"""

    def __init__(self, real, seed):
        super().__init__(real._data, real.encodekey, real.decodekey, real.encodevalue,
                         real.decodevalue)
        self.seed = seed
        self.asked = []

    def __getitem__(self, key):
        try:
            return super().__getitem__(key)
        except KeyError:
            f = sys._getframe(1)
            while f and f.f_globals.get("__name__") in ("os", "_collections_abc",
                                                        "collections.abc", __name__):
                f = f.f_back
            if f is None or not f.f_code.co_filename.startswith(env.PKGDIR):
                raise
            self.asked.append(key)
            return random.Random("%s:%s" % (self.seed, key)).choice(
                ["0", "1", "2", "5", "12", "true", "", "/nonexistent"])


@contextlib.contextmanager
def circumstances(c, folder, decoys):
    """Put the circumstances in place"""
    import datetime
    import multiprocessing
    import platform
    import socket
    import time
    import numpy as np
    cwd = os.path.join(folder, c["cwd"])
    os.makedirs(cwd, exist_ok=True)
    if c["decoys"]:
        for name, text in decoys:
            for sub in ("", "input_OTHER/NATEMIS", "default_data"):
                path = os.path.join(cwd, sub, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
    if c["cwd"] == "readonly":
        os.chmod(cwd, 0o555)
    saved_cwd, saved_env = os.getcwd(), dict(os.environ)
    ent = random.Random(c["entropy"])

    class SimDatetime(datetime.datetime):
        now = classmethod(lambda cls, tz=None: cls.fromtimestamp(time.time(), tz))
        utcnow = classmethod(lambda cls: cls.fromtimestamp(time.time(), datetime.timezone.utc)
                             .replace(tzinfo=None))
        today = classmethod(lambda cls: cls.fromtimestamp(time.time()))

    class SimDate(datetime.date):
        today = classmethod(lambda cls: cls.fromtimestamp(time.time()))

    cpus = (lambda: c["cpus"])
    patches = [(os, "environ", SimEnviron(os.environ, c.get("unset", 0))),
               (os, "urandom", ent.randbytes), (random, "_urandom", ent.randbytes),
               (os, "cpu_count", cpus), (multiprocessing, "cpu_count", lambda: c["cpus"] or 1),
               (os, "sched_getaffinity", lambda pid: set(range(c["cpus"] or 1))),
               (os, "getpid", lambda: c["pid"]), (os, "getppid", lambda: c["pid"] - 1),
               (socket, "gethostname", lambda: "h%d" % c["pid"]),
               (platform, "node", lambda: "h%d" % c["pid"]),
               (datetime, "datetime", SimDatetime), (datetime, "date", SimDate)]
    saved = [(o, n, getattr(o, n)) for o, n, _ in patches]
    os.chdir(cwd)
    os.environ.update(c["env"])
    time.tzset()
    for o, n, v in patches:
        setattr(o, n, v)
    try:
        with distro.random_seam(c["entropy"]):
            np.random.seed(c["np_seed"])
            random.seed(c["py_seed"])
            yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)
        os.chdir(saved_cwd)
        for k in list(os.environ):
            if k not in saved_env:
                del os.environ[k]
        os.environ.update(saved_env)
        time.tzset()
        if c["cwd"] == "readonly":
            os.chmod(cwd, 0o755)


class _R:
    def __init__(self, folder):
        self.folder = folder

    def path(self, *p):
        return os.path.join(self.folder, *p)


def _decoys(plan, folder):
    """Other contents under the names the code could look for"""
    out = []
    for j in plan["jobs"]:
        s = j.get("spec") or j["call"]["specs"][0]
        cfg = scen.build(dict(s, src="file", scale={"CO2": 2.0, "CH4": 3.0, "SO2": 2.0}),
                         os.path.join(folder, "decoy"))
        for k in sorted(cfg):
            if k.endswith("_file") and os.path.isfile(cfg[k]):
                with open(cfg[k], encoding="utf-8") as f:
                    out.append((os.path.basename(cfg[k]), f.read()))
    d = os.path.join(env.SRC, "ciceroscm", "default_data")
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name), encoding="utf-8") as f:
                out.append((name, f.read().replace("1", "2")))
    return out


def execute(plan, c, folder):
    """Do the jobs of the plan under circumstances c"""
    import numpy as np
    w = world.World({"sched_seed": c["sched"], "durations": c["durations"],
                     "max_steps": 20000})
    out = []
    decoys = _decoys(plan, folder) if c["decoys"] else []
    built = []
    for i, j in enumerate(plan["jobs"]):
        if j["job"] == "run":
            built.append(scen.build(j["spec"], os.path.join(folder, "in%d" % i)))
        else:
            built.append(None)
    with world.installed(w, base_time=c["time"], jumps=c["jumps"]), \
            circumstances(c, folder, decoys):
        ns = env.Namespace()
        for i, j in enumerate(plan["jobs"]):
            before = np.random.get_state(), random.getstate()
            try:
                if j["job"] == "ensemble":
                    got = ens.call(ns, j["call"], _R(folder), "e%d" % i)
                else:
                    with ns.active():
                        model = ns.CICEROSCM(built[i])
                        dest = os.path.join(folder, "out%d" % i)
                        os.makedirs(dest)
                        model._run(runcfg(j["form"], dest, "p"), **scen.fresh(j["params"]))
                        if j["again"]:
                            model._run(runcfg(j["form"], dest, "p"), **scen.fresh(j["params"]))
                        if j["form"] == "dict":
                            got = {"order": list(model.results), "results": model.results}
                        else:
                            got = {"files": {}}
                            for name in sorted(os.listdir(dest)):
                                with open(os.path.join(dest, name), encoding="utf-8") as f:
                                    got["files"][name] = f.read()
            except sim.PASS:
                raise
            except Exception as exc:  # pylint: disable=broad-except
                got = "raised " + type(exc).__name__
            after = np.random.get_state(), random.getstate()
            calm = (after[1] == before[1] and after[0][0] == before[0][0]
                    and bool((after[0][1] == before[0][1]).all())
                    and after[0][2:] == before[0][2:])
            out.append({"got": got, "calm": calm})
    reads = w.stats.get("clock_reads", 0)
    return {"jobs": out, "now": w.now, "reads": reads,
            "jumps": sum(1 for at, _ in c["jumps"] if reads >= at)}


def diff_text(a, b, what):
    la, lb = a.split("\n"), b.split("\n")
    if len(la) != len(lb):
        return "%s: %d lines and %d lines" % (what, len(la), len(lb))
    for n, (x, y) in enumerate(zip(la, lb)):
        if x == y:
            continue
        tx, ty = x.split("\t"), y.split("\t")
        if len(tx) != len(ty):
            return "%s line %d: %r and %r" % (what, n + 1, x[:80], y[:80])
        for u, v in zip(tx, ty):
            if u != v:
                try:
                    close = abs(float(u) - float(v)) <= 1e-11 + 1.1e-5 * abs(float(v))
                except ValueError:
                    close = False
                if not close:
                    return "%s line %d: %r and %r" % (what, n + 1, u, v)
    return None


def _there(plan, folder):
    """Do the jobs in a new process with another hash seed"""
    e = dict(os.environ, PYTHONHASHSEED=str(plan["hash"]), CSCM_REPO=env.REPO,
             PYTHONPATH=env.VERIF)
    p = subprocess.run([sys.executable, "-m", "cscmsim.props.c12"],
                       input=pickle.dumps((plan, folder)), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=e, check=False, cwd=env.VERIF)
    if p.returncode:
        raise sim.HarnessError("helper process: " + p.stderr.decode()[-800:])
    return pickle.loads(p.stdout)


def run(plan):
    def body(r):
        for k in ("h", "t"):
            os.makedirs(r.path(k))
        here = execute(plan, plan["here"], r.path("h"))
        there = _there(plan, r.path("t"))
        r.world.now += here["now"] + there["now"]
        r.count("clock_reads", here["reads"] + there["reads"])
        r.count("fault:clock_jump", here["jumps"] + there["jumps"])
        r.count("fault:hash_seed")
        r.count("fault:decoys", plan["here"]["decoys"] + plan["there"]["decoys"])
        r.nontrivial = False
        for i, (j, a, b) in enumerate(zip(plan["jobs"], here["jobs"], there["jobs"])):
            what = "job %d (%s)" % (i, j["job"])
            r.log(what, j.get("form", ""))
            r.note(a["got"])
            for side, x in (("here", a), ("in the other process", b)):
                if not x["calm"]:
                    r.violate("%s %s: random generator state of the caller was changed"
                              % (what, side))
                    return
            x, y = a["got"], b["got"]
            r.probe("%s %s" % (j["job"], "raised" if isinstance(x, str) else "returned"))
            if isinstance(x, str) or isinstance(y, str):
                if isinstance(x, str) != isinstance(y, str):
                    r.violate("%s: here %s, in the other process %s" % (
                        what, x if isinstance(x, str) else "returned",
                        y if isinstance(y, str) else "returned"))
                    return
                continue
            r.nontrivial = True
            if isinstance(x, dict) and "files" in x:
                d = (None if list(x["files"]) == list(y["files"]) else
                     "files %s and %s" % (list(x["files"]), list(y["files"])))
                for name in x["files"]:
                    d = d or diff_text(x["files"][name], y["files"][name], name)
            else:
                d = oracle.diff_values(x, y, "")
            if d:
                r.violate("%s: not the same in another process: %s" % (what, d))
                return
    return sim.simulate(body, plan)


def shrink(plan):
    if len(plan["jobs"]) > 1:
        for i in range(len(plan["jobs"])):
            yield dict(plan, jobs=[plan["jobs"][i]])
    for k in sorted(plan["here"]):
        if plan["there"][k] != plan["here"][k]:
            yield dict(plan, there=dict(plan["there"], **{k: plan["here"][k]}))
    for i, j in enumerate(plan["jobs"]):
        def sub(new):
            return dict(plan, jobs=plan["jobs"][:i] + [new] + plan["jobs"][i + 1:])
        if j["job"] == "ensemble":
            for s in ens.shrink_call(j["call"]):
                yield sub(dict(j, call=s))
        else:
            if j["again"]:
                yield sub(dict(j, again=False))
            for p in scen.simpler_params(j["params"]):
                yield sub(dict(j, params=p))
            for s in scen.simpler(j["spec"]):
                yield sub(dict(j, spec=s))


def _helper():
    plan, folder = pickle.load(sys.stdin.buffer)
    out = sys.stdout.buffer
    env.preload()
    sim._reset_globals(0)
    with env.quiet():
        res = execute(copy.deepcopy(plan), plan["there"], folder)
        data = pickle.dumps(res)
    out.write(data)
    out.flush()


if __name__ == "__main__":
    _helper()
