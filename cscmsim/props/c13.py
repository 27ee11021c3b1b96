"""C13: runs and ensembles leave the process as they found it"""

import contextlib
import copy
import gc
import json
import os
import weakref

from .. import audit, distro, env, oracle, outfiles, procstate, scen, sim, trace, vfs
from ..world import _finished, make_exc
from . import ens
from .c04 import CARBON_FAIL, fail_params, runcfg
from .c08 import _fault

LEVEL = "exploration"
RULE = ("a run is 2 to 4 operations (making instances, runs, ensembles on simulated worker "
        "processes, sampling, saving and loading of ensembles) in one process, many of them "
        "rejected, interrupted at a chosen line or hit by file, worker and hand-over faults; "
        "after each, settings, open files, threads, pools, files and instances kept alive are "
        "compared with before; one operation is repeated to see what accumulates; a "
        "quarter of the runs break one run off at up to 36 distinct lines instead; "
        "non-trivial: at least one operation did something; distinct: different event log")
REAL = ["ciceroscm package (one private import per simulated process)", "process settings, "
        "open files, threads of the real process", "pandas, numpy, scipy"]
STUB = ["ProcessPoolExecutor, as_completed, wait (simulated)", "lowest layer of open()",
        "clock and sleep"]
RUNS = {"quick": 300, "thorough": 10000}

EXC = ["KeyboardInterrupt", "MemoryError", "EIO", "RuntimeError", "ValueError"]


def gen_sweep(rng):
    """The same run broken off at many distinct lines, settings looked at after each"""
    s = scen.gen_scen(rng, kinds=("emis",) * 4 + ("conc",) * 3 + ("forc",), wide=0.0)
    n, off = 36, rng.random()
    return {"mode": "sweep", "sched_seed": rng.randrange(1 << 30), "spec": s,
            "params": scen.gen_params(rng, s),
            "form": rng.choice(["dict", "dict", "files", "files_nc"]),
            "cuts": [[(i + off) / n, rng.choice([0.0, 0.0, 1.0, rng.random()]), rng.choice(EXC)]
                     for i in rng.sample(range(n), n)]}


def gen(rng, tier):
    if rng.random() < 0.25:
        return gen_sweep(rng)
    ops = [_op(rng) for _ in range(rng.choice([2, 2, 3, 4]))]
    rep = _op(rng, calm=True)
    return {"sched_seed": rng.randrange(1 << 30), "durations": rng.choice(["exp", "equal"]),
            "ops": ops, "repeat": rep, "times": 3}


def _op(rng, calm=False):
    x = rng.random()
    if x < 0.55:
        s = scen.gen_scen(rng, kinds=("emis", "conc", "forc", "forc"), wide=0.0)
        if s["kind"] == "forc":
            s["y1"] = s["y0"] + rng.randint(3, 8)
        op = {"op": "run", "spec": s, "params": scen.gen_params(rng, s),
              "form": rng.choice(["dict", "dict_nc", "files", "files_nc"]), "cut": None,
              "fs": [], "fail": None, "runs": rng.choice([1, 1, 2])}
        if rng.random() < 0.3:
            op["fs"] = [dict(_fault(rng), kind="open_error", dir="r", n=rng.randrange(9))] \
                if rng.random() < 0.5 else [_fault(rng)]
            if op["fs"][0]["kind"] == "crash":
                op["fs"] = []
        elif rng.random() < 0.3 and not calm:
            op["cut"] = [rng.random(), rng.randrange(400), rng.choice(EXC)]
        elif rng.random() < 0.3 and s["kind"] != "forc":
            op["fail"] = rng.choice(["just_one", "ref_yr", "flat", "rs_short"])
            if op["fail"] in CARBON_FAIL and s["carbon"] == "box":
                op["fail"] = "just_one"
        return op
    if x < 0.8:
        c = ens.gen_call(rng, max_members=4, kinds=rng.choice([("forc",), ("forc",), ("emis",),
                                                              ("conc",)]))
        op = {"op": "ens", "call": c, "faults": [], "cut": None}
        nt = max(1, len(c["specs"]) * min(len(c["cfgs"]), c["workers"]))
        y = rng.random()
        if y < 0.4 and c["workers"] > 1:
            f = {"kind": rng.choice(["task_raise", "worker_die", "args_unpicklable",
                                     "result_unpicklable", "submit_fail"]),
                 "task": rng.randrange(nt), "exc": rng.choice(["ValueError", "MemoryError"]),
                 "line": rng.choice([rng.randrange(60), rng.randrange(3000)]),
                 "when": rng.choice(["before", "after"]), "frac": 0.5}
            op["faults"] = [f]
        elif y < 0.65 and not calm:
            op["cut"] = [rng.randrange(60 if c["workers"] > 1 else 4000), 0, rng.choice(EXC)]
        return op
    op = {"op": "distro", "dist": distro.gen(rng), "n": rng.choice([1, 3, 8]),
          "fs": [], "cut": None}
    y = rng.random()
    if y < 0.3:
        op["fs"] = [_fault(rng)]
        if op["fs"][0]["kind"] == "crash":
            op["fs"] = []
    elif y < 0.5 and not calm:
        op["cut"] = [rng.randrange(300), 0, rng.choice(EXC)]
    return op


def _tree(r):
    out = {}
    for base, dirs, files in os.walk(r.dir):
        dirs.sort()
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), r.dir) + "/"] = None
        for n in sorted(files):
            p = os.path.join(base, n)
            st = os.stat(p)
            out[os.path.relpath(p, r.dir)] = (st.st_size, st.st_mtime_ns, st.st_mode)
    return out


class _Doing:
    """One operation: prepared, done, and what it may leave"""

    def __init__(self, r, ns, op, tag):
        self.r, self.ns, self.op, self.tag = r, ns, op, tag
        self.made, self.outside = [], []
        self.allowed = ()
        self.skip = ()
        self.line = None
        self.out = r.path("out" + tag)
        os.makedirs(self.out)
        if op["op"] == "run":
            s = op["spec"]
            self.cfg = scen.build(s, r.path("in" + tag))
            self.params = scen.fresh(op["params"])
            if op["fail"]:
                self.params = fail_params({"how": op["fail"], "params": op["params"]})
            if op["form"].startswith("files"):
                self.allowed = tuple(os.path.join("out" + tag, n) for n in outfiles.names(
                    "p", s, not op["form"].endswith("_nc")))
            if op["cut"]:
                _, n = oracle.single(s, op["params"], count=True)
                self.line = n.pick(op["cut"][0], op["cut"][1])
        elif op["op"] == "ens":
            self.scendata = [scen.build(s, r.path("in%s_%d" % (tag, i)))
                             for i, s in enumerate(op["call"]["specs"])]
            self.cfgs = copy.deepcopy(op["call"]["cfgs"])
            if op["call"]["via"] != "direct":
                with open(self.path(), "w", encoding="utf-8") as f:
                    json.dump(self.cfgs, f)
            self.line = op["cut"][0] if op["cut"] else None
        else:
            self.allowed = (os.path.join("out" + tag, "cfgs.json"),)
            self.skip = ("state of random", "state of numpy.random")
            self.line = op["cut"][0] if op["cut"] else None

    def path(self):
        return os.path.join(self.out, "cfgs.json")

    def __call__(self):
        ns, op = self.ns, self.op
        if op["op"] == "run":
            m = ns.CICEROSCM(self.cfg)
            self.made.append(weakref.ref(m))
            for _ in range(op["runs"]):
                m._run(runcfg(op["form"], self.out, "p"), **copy.deepcopy(self.params))
        elif op["op"] == "ens":
            c = op["call"]
            if c["via"] == "direct":
                ns.run_ciceroscm_parallel(self.scendata, self.cfgs, list(c["vars"]),
                                          max_workers=c["workers"])
            else:
                dr = ns.DistributionRun(None, self.path())
                dr.run_over_distribution(self.scendata, list(c["vars"]),
                                         max_workers=c["workers"])
        else:
            d = distro.make(ns, op["dist"])
            dr = ns.DistributionRun(d, numvalues=op["n"])
            dr.write_configs_to_json(self.path())
            ns.DistributionRun(None, self.path())

    def go(self, world):
        """Do it; the name of the exception, or None"""
        op = self.op
        world.faults = copy.deepcopy(op.get("faults", []))
        for f in world.faults:
            f["task"] += world.tasks
        name = None
        try:
            with contextlib.ExitStack() as st:
                fs = vfs.SimFS(op.get("fs", []), [self.r.dir], log=world.log)
                self.fs = fs
                st.enter_context(self.ns.active())
                st.enter_context(fs.installed())
                if self.line is not None:
                    st.enter_context(trace.raise_at_line(
                        self.line, make_exc(op["cut"][2]),
                        on_fire=lambda: world.fire({"kind": "interrupt_" + op["cut"][2]})))
                self.outside = st.enter_context(audit.outside(self.r.dir))
                self()
        except sim.PASS:
            raise
        except BaseException as exc:  # pylint: disable=broad-except
            name = type(exc).__name__
        for f in self.fs.fired:
            world.fire({"kind": "fs_" + f["kind"], "exc": f.get("exc", "")})
        world.faults = []
        return name


_frozen = []
# What third party packages and the simulator itself set up when first used
ONCE = ("state of random", "state of numpy.random", "warnings filters", "logging set-up",
        "import hooks", "exit handlers", "start method", "matplotlib settings",
        "functions of other packages", "open files", "threads")


def _warm():
    """
    Let third party packages set up what they set up once

    Gives what else the first operations of the process have changed
    """
    if _frozen:
        return _frozen[0]
    import random
    import matplotlib.pyplot  # pylint: disable=unused-import
    before = procstate.take(ONCE)
    rng = random.Random(5)
    kinds = set()
    for _ in range(200):
        op = _op(rng)
        key = (op["op"], op.get("form"), op.get("spec", {}).get("kind"),
               op.get("call", {}).get("via"))
        if key in kinds or len(kinds) > 14:
            continue
        kinds.add(key)

        def body(r, op=op):
            _Doing(r, env.Namespace(), op, "w").go(r.world)
        sim.simulate(body, {"sched_seed": 1})
    gc.collect()
    gc.freeze()
    _frozen.append(procstate.diff(before, procstate.take(ONCE)))
    return _frozen[0]


def run_sweep(plan, first):
    def body(r):
        r.nontrivial = False
        if first:
            r.violate("the first operations of the process: %s" % first)
            return
        s = plan["spec"]
        ns = env.Namespace()
        cfg = scen.build(s, r.path("in"))
        out = r.path("out")
        os.makedirs(out)
        done = runcfg(plan["form"], out, "p")
        with ns.active():
            model = ns.CICEROSCM(cfg)
            try:
                with trace.count_lines() as lines:
                    model._run(dict(done), **scen.fresh(plan["params"]))
            except Exception as exc:  # pylint: disable=broad-except
                r.probe("cannot be calculated")
                r.log("raised", type(exc).__name__)
        gc.collect()
        before = procstate.take()
        for frac, visit, exc in plan["cuts"]:
            hit = []
            try:
                with ns.active(), trace.raise_at_site(lines.site(frac, visit),
                                                      make_exc(exc), hit):
                    model._run(dict(done), **scen.fresh(plan["params"]))
            except sim.PASS:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                r.log("raised", type(e).__name__, hit)
            if not hit:
                continue
            r.nontrivial = True
            r.count("fault:interrupt_" + exc)
            r.count("points:" + hit[0])
            after = procstate.take()
            if after["open files"] != before["open files"]:
                gc.collect()  # held by the exception only
                after = procstate.take()
            d = procstate.diff(before, after)
            if d:
                r.violate("run broken off by %s at %s: %s" % (exc, hit[0], d))
                return
    return sim.simulate(body, plan)


def run(plan):
    for name in env.THREAD_VARS:  # set for this check only; numpy has read them
        os.environ.pop(name, None)
    first = _warm()
    if plan.get("mode") == "sweep":
        return run_sweep(plan, first)

    def body(r):
        if first:
            r.violate("the first operations of the process: %s" % first)
            return
        ns = env.Namespace()
        todo = list(plan["ops"])
        r.nontrivial = False
        sizes, alive = [], []
        for k, op in enumerate(todo + [plan["repeat"]] * plan["times"]):
            again = k - len(todo)
            tag = str(k)
            what = "operation %d (%s)" % (k, op["op"])
            doing = _Doing(r, ns, op, tag)
            gc.collect()
            files = _tree(r)
            before = procstate.take(doing.skip)
            end = doing.go(r.world)
            after = procstate.take(doing.skip)
            r.log("op", k, op["op"], end or "returned")
            r.nontrivial = True
            r.probe("raised" if end else "returned")
            if end:
                what += " which raised " + end
            d = procstate.diff(before, after)
            if d and d.startswith("open files"):
                gc.collect()  # held by the exception only
                d = procstate.diff(before, procstate.take(doing.skip))
            if d:
                r.violate("%s: %s" % (what, d))
                return
            gc.collect()
            if doing.fs.leaked and not op["cut"]:
                r.violate("%s did not close %s" % (what, os.path.basename(doing.fs.leaked[0])))
                return
            if doing.outside:
                r.violate("%s: made, changed or removed %s" % (what, doing.outside[0]))
                return
            now = _tree(r)
            for p in sorted(set(files) | set(now)):
                if end and p not in files and any(
                        os.path.dirname(p) == os.path.dirname(a)
                        and os.path.basename(a) in os.path.basename(p)
                        for a in doing.allowed):
                    continue  # a part of the requested output under a provisional name
                if files.get(p, 0) != now.get(p, 0) and p not in doing.allowed:
                    r.violate("%s: %s was %s" % (what, p, "removed" if p not in now else
                                                 "made" if p not in files else "changed"))
                    return
            for ref in r.world.pool_refs:
                pool = ref()
                if pool is None:
                    continue
                left = [f for f in pool.open if not _finished(f)]
                if left:
                    r.violate("%s: %d jobs still under way" % (what, len(left)))
                    return
                if not pool.closed:
                    r.violate("%s: a pool of worker processes was left open" % what)
                    return
                pool = None
            left = [w for w in doing.made if w() is not None]
            if left:
                alive.append(k)
                if len(alive) > 2:
                    r.violate("%s: the model instances of operations %s are kept alive"
                              % (what, alive))
                    return
            if again >= 0:
                sizes.append(procstate.held_by(ns))
        grown = [m for m in sizes[0]
                 if all(a.get(m, 0) < b.get(m, 0) for a, b in zip(sizes, sizes[1:]))]
        if grown:
            r.violate("data kept by %s grow with every repetition of %s: %s"
                      % (grown[0], plan["repeat"]["op"], [s[grown[0]] for s in sizes]))
    return sim.simulate(body, plan)


def shrink(plan):
    if plan.get("mode") == "sweep":
        c = plan["cuts"]
        for k in (len(c) // 2, len(c) // 4, 1):
            for i in range(0, len(c), max(1, k)):
                if 0 < len(c[i:i + k]) < len(c):
                    yield dict(plan, cuts=c[i:i + k])
        for n in scen.simpler(plan["spec"]):
            yield dict(plan, spec=n)
        for p in scen.simpler_params(plan["params"]):
            yield dict(plan, params=p)
        return
    ops = plan["ops"]
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for o in ops:
        yield dict(plan, ops=[], repeat=o)
    for i, op in enumerate(ops + [plan["repeat"]]):
        def put(new, i=i):
            if i < len(ops):
                return dict(plan, ops=ops[:i] + [new] + ops[i + 1:])
            return dict(plan, repeat=new)
        for k, v in (("fs", []), ("cut", None), ("fail", None), ("faults", [])):
            if op.get(k):
                yield put(dict(op, **{k: v}))
        if op["op"] == "run":
            for n in scen.simpler(op["spec"]):
                yield put(dict(op, spec=n))
            for p in scen.simpler_params(op["params"]):
                yield put(dict(op, params=p))
        elif op["op"] == "ens":
            for c in ens.shrink_call(op["call"]):
                yield put(dict(op, call=c))
