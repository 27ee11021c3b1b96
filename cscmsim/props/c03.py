"""C03: the job runner returns each job's own result once, in order"""

import concurrent.futures
import copy

from .. import env, jobs, oracle, sim, world

LEVEL = "exploration"
RULE = ("a run is one or two calls of the job runner with 0 to 25 jobs on a simulated "
        "process or thread pool (or none), with simulated durations and up to two faults "
        "(failing job, worker death, failing hand-over, rejected submission, job that "
        "never ends before the time limit); non-trivial: at least one job went through; "
        "distinct: different event log and results")
REAL = ["ciceroscm.parallel._parallel_process", "pickle round trip of tasks and results",
        "tqdm"]
STUB = ["ProcessPoolExecutor, ThreadPoolExecutor, as_completed, wait (simulated)",
        "clock and sleep", "the jobs themselves (harness functions)"]
RUNS = {"quick": 40000, "thorough": 400000}


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 18, 25])
    if rng.random() < 0.01:
        n = rng.choice([60, 130, 300])
    pool = rng.choice(["none", "process", "process", "process", "thread"])
    one = rng.choice([None, None, rng.choice(jobs.KINDS)])
    c = {"n": n, "pool": pool, "workers": rng.choice([1, 1, 2, 3, 4, 8]),
         "form": rng.choice(["dict", "dict", "tuple", "kwargs", "kwargs", "object"]),
         "container": rng.choice(["list", "list", "tuple"]),
         "front_serial": rng.choice([0, 0, 1, 2, 3, None, rng.randrange(n + 3)]),
         "front_parallel": rng.choice([0, 0, 1, 2, 3, None, rng.randrange(n + 3)]),
         "timeout": rng.choice([None, None, None, 1e7]),
         "kinds": [one or rng.choice(jobs.KINDS) for _ in range(n)], "fail": {}}
    plan = {"sched_seed": rng.randrange(1 << 30), "call": c, "faults": [],
            "durations": rng.choice(["exp", "equal", "reverse", "heavy"]),
            "again": rng.random() < 0.3}
    if n and rng.random() < 0.55:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["fail", "fail", "worker_die", "args_unpicklable", "slow",
                               "result_unpicklable", "submit_fail", "timeout", "task_raise"])
            k = rng.randrange(n)
            if kind == "fail" or pool == "none":
                c["fail"][str(k)] = rng.choice(jobs.ERRORS)
            elif kind == "timeout":
                c["timeout"] = 2e5
                plan["faults"].append({"kind": "slow", "task": k, "factor": 1e12})
            elif kind == "slow":
                plan["faults"].append({"kind": "slow", "task": k, "factor": 20.0})
            elif pool == "process" or kind in ("submit_fail", "task_raise"):
                f = {"kind": kind, "task": k}
                if kind == "worker_die":
                    f.update(when=rng.choice(["before", "after"]), frac=round(rng.random(), 2))
                if kind in ("submit_fail", "task_raise"):
                    f["exc"] = rng.choice(["RuntimeError", "MemoryError", "EIO"])
                if kind == "task_raise":
                    # raised in the worker before the job is called
                    f["kind"] = "submit_fail"
                plan["faults"].append(f)
    elif n and pool != "none" and rng.random() < 0.06:
        c["timeout"] = 0  # nothing can be done by then
    return plan


def _configs(c, num):
    out = []
    for i, k in enumerate(c["kinds"]):
        spec = {"kind": k, "round": num}
        if str(i) in c["fail"]:
            spec["fail"] = c["fail"][str(i)]
        if c["form"] == "tuple":
            out.append((i, spec))
        elif c["form"] == "kwargs" and i % 3 == 0:
            spec["extra"] = [1, None, 0, "", [], False][i // 3 % 6]
            out.append({"i": i, "spec": spec, "extra": spec["extra"]})
        else:
            out.append({"i": i, "spec": spec})
    return out if c["container"] == "list" else tuple(out)


def _call(ns, c, r, faults=True):
    w = r.world
    w.calls, w.failed = [], []
    w.round = getattr(w, "round", 0) + 1
    func = {"dict": jobs.job, "tuple": jobs.job_tuple, "kwargs": jobs.job_kwargs,
            "object": jobs.Callable()}[c["form"]]
    pool = None
    if c["pool"] == "process":
        pool = world.SimPool(max_workers=c["workers"])
    elif c["pool"] == "thread":
        pool = world.SimThreadPool(max_workers=c["workers"])
    kw = {"config_are_kwargs": c["form"] == "kwargs"}
    if c["form"] != "kwargs" and r.world.rng.random() < 0.5:
        kw = {}
    for k in ("front_serial", "front_parallel"):
        if c[k] is not None:
            kw[k] = c[k]
    if c["timeout"] is not None:
        kw["timeout"] = c["timeout"]
    cfgs = _configs(c, w.round)
    before = copy.deepcopy(cfgs)
    with ns.active():
        got = ns.parallel_process(func, cfgs, pool=pool, **kw)
    if oracle.same(cfgs, before):
        r.violate("the list of configurations was changed")
    return got


def _check(r, c, got):
    if not isinstance(got, (list, tuple)) and not hasattr(got, "__len__"):
        return "returned %s" % type(got).__name__
    if len(got) != c["n"]:
        return "%d results for %d configurations" % (len(got), c["n"])
    for i, k in enumerate(c["kinds"]):
        want = jobs.value(k, i)
        x = got[i]
        if isinstance(want, Exception):
            ok = type(x) is type(want) and x.args == want.args
        else:
            ok = oracle.same(x, want) is None
        if not ok:
            return "result %d is %r instead of %r" % (i, x, want)
    calls = r.world.calls
    if sorted(calls) != list(range(c["n"])):
        return "calls %s for %d configurations" % (sorted(calls), c["n"])
    return None


def run(plan):
    def body(r):
        ns = env.Namespace() if not _ns else _ns[0]
        if not _ns:
            _ns.append(ns)
        c = plan["call"]
        w = r.world
        exc = got = None
        t0 = w.now
        try:
            got = _call(ns, c, r)
        except sim.PASS:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            exc = e
        fired = [f["kind"] for f in w.fired]
        slow = [f for f in w.fired if f["kind"] == "slow" and f["factor"] > 1e6]
        if c["timeout"] == 0 and c["n"] > (3 if c["front_serial"] is None
                                           else c["front_serial"]):
            slow.append("no time at all")
        fatal = [k for k in fired if k != "slow"]
        r.nontrivial = c["n"] > 0
        r.probe("jobs", c["n"])
        r.probe("timeout" if slow else "no timeout")
        r.log("outcome", "ok" if exc is None else type(exc).__name__)
        if len(set(w.calls)) != len(w.calls):
            r.violate("job called more than once: %s" % w.calls)
        if exc is None:
            r.note(got)
            if w.failed or fatal:
                r.violate("returned although job %s failed (%s)" % (w.failed, fatal))
            elif slow:
                r.violate("returned although the time limit had passed")
            else:
                d = _check(r, c, got)
                if d:
                    r.violate(d)
        else:
            r.probe("raised " + type(exc).__name__)
            ok = False
            for i in w.failed:
                ok = ok or sim.chain_has(exc, jobs.error(c["fail"][str(i)], i))
            for f in w.fired:
                if f["kind"] == "submit_fail":
                    ok = ok or sim.chain_has(exc, world.make_exc(f["exc"]))
                elif f["kind"] == "worker_die":
                    ok = ok or isinstance(exc, concurrent.futures.BrokenExecutor)
                elif f["kind"] in ("args_unpicklable", "result_unpicklable"):
                    ok = ok or "injected" in str(exc)
            if slow and isinstance(exc, (TimeoutError, concurrent.futures.TimeoutError)):
                ok = True
                if w.now - t0 > 3 * c["timeout"] + 1e4:
                    r.violate("time limit %g reported after %g" % (c["timeout"], w.now - t0))
            if not ok:
                r.violate("raised %s after %s, failed jobs %s" % (
                    sim.short(exc), fired, w.failed))
        if plan["again"] and not r.violations:
            w.faults_on = False
            c = dict(c, fail={}, timeout=None)
            try:
                got = _call(ns, c, r)
            except sim.PASS:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                r.violate("second call without faults raised %s" % sim.short(e))
                return
            d = _check(r, c, got)
            if d:
                r.violate("second call: " + d)
    return sim.simulate(body, plan)


_ns = []


def shrink(plan):
    c = plan["call"]
    n = c["n"]
    for m in (n // 2, n - 1):
        if 0 <= m < n:
            new = dict(c, n=m, kinds=c["kinds"][:m],
                       fail={k: v for k, v in c["fail"].items() if int(k) < m})
            yield dict(plan, call=new)
    for i in range(len(plan["faults"])):
        yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    for k in c["fail"]:
        yield dict(plan, call=dict(c, fail={a: b for a, b in c["fail"].items() if a != k}))
    if plan["again"]:
        yield dict(plan, again=False)
    if plan["durations"] != "equal":
        yield dict(plan, durations="equal")
    for k, v in (("timeout", None), ("workers", 1), ("form", "dict"), ("container", "list"),
                 ("front_serial", 0), ("front_parallel", 0)):
        if c[k] != v:
            yield dict(plan, call=dict(c, **{k: v}))
    for i, k in enumerate(c["kinds"]):
        if k != "int":
            yield dict(plan, call=dict(c, kinds=c["kinds"][:i] + ["int"] + c["kinds"][i + 1:]))
