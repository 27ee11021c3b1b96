"""C02: an ensemble run under failures is complete or raises an error"""

import copy

from .. import env, oracle, sim, trace
from ..world import make_exc
from . import ens

LEVEL = "fault_enumeration"
RULE = ("a run is one ensemble call with up to three faults (a member failing at a chosen "
        "line, a worker dying before or after a task, hand-over of work or results failing, "
        "a rejected submission, an invalid configuration, a very slow worker) under a "
        "simulated schedule, then the same call without faults in the same process; "
        "non-trivial: at least one fault took effect; distinct: different event log and "
        "results")
REAL = ["ciceroscm package (one private import per simulated process)", "pickle round trip "
        "of tasks and results", "pandas, numpy, scipy"]
STUB = ["ProcessPoolExecutor, as_completed, wait (simulated)", "clock and sleep"]
RUNS = {"quick": 360, "thorough": 5000}

EXCS = ["ValueError", "MemoryError", "EIO", "KeyError", "RuntimeError",
        "FloatingPointError", "TimeoutError", "AttributeError", "ENOSPC"]
FATAL = ("submit_fail", "args_unpicklable", "worker_die", "task_raise",
         "result_unpicklable", "raise")


def gen_late(rng):
    """A member in the middle of a batch fails after others of the batch are done"""
    c = ens.gen_call(rng, max_members=rng.choice([4, 6]), kinds=rng.choice(
        [("forc",), ("forc",), ("emis",), ("conc",)]))
    while len(c["cfgs"]) < 2:
        c["cfgs"].append(dict(copy.deepcopy(c["cfgs"][0]), Index="more"))
    c["workers"] = rng.choice([1, 2, 2, max(2, len(c["specs"])), 3])
    kind = rng.choice(["task_raise"] * 5 + ["raise"])
    if c["workers"] == 1:
        kind = "raise"
    f = {"kind": kind, "task": rng.randrange(max(2, len(c["specs"]))),
         "exc": rng.choice(EXCS), "frac": round(rng.random(), 4), "line": 0}
    plan = {"sched_seed": rng.randrange(1 << 30), "call": c, "bad": None, "faults": [],
            "durations": rng.choice(["exp", "equal", "reverse", "heavy"]),
            "again": rng.random() < 0.6}
    if kind == "raise":
        plan["raise"] = f
    else:
        plan["faults"] = [f]
    return plan


def _located(plan):
    """Faults at a part of the work of a batch: number of the line"""
    todo = [f for f in plan["faults"] + [plan.get("raise") or {}] if "frac" in f
            and f["kind"] in ("task_raise", "raise")]
    if not todo:
        return plan
    plan = copy.deepcopy(plan)
    c = plan["call"]
    split = len(c["specs"]) < c["workers"] <= len(c["cfgs"]) * len(c["specs"])
    size = len(c["cfgs"]) * len(c["specs"]) // c["workers"] if split else len(c["cfgs"])
    for f in plan["faults"] + [plan.get("raise") or {}]:
        if "frac" in f and f["kind"] in ("task_raise", "raise"):
            s = c["specs"][min(f["task"] * max(1, size) // len(c["cfgs"]), len(c["specs"]) - 1)]
            m = {k: v for k, v in c["cfgs"][0].items() if k != "Index"}
            _, n = oracle.single(s, m, count=True)
            num = max(1, size) * (len(c["specs"]) if c["workers"] == 1 else 1)
            f["line"] = int(f["frac"] * n.n * num * 1.02)
    return plan


def gen(rng, tier):
    if rng.random() < 0.3:
        return gen_late(rng)
    c = ens.gen_call(rng, max_members=rng.choice([4, 6, 8]))
    if c["workers"] == 1 and rng.random() < 0.6:
        c["workers"] = rng.choice([2, 3, 4])
    plan = {"sched_seed": rng.randrange(1 << 30),
            "durations": rng.choice(["exp", "equal", "reverse", "heavy"]),
            "call": c, "faults": [], "bad": None, "again": rng.random() < 0.6}
    ntask = max(1, len(c["specs"]) * min(len(c["cfgs"]), c["workers"]))
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(["task_raise", "task_raise", "worker_die", "args_unpicklable",
                           "result_unpicklable", "submit_fail", "slow"])
        f = {"kind": kind, "task": rng.randrange(ntask)}
        if kind == "task_raise":
            f["exc"] = rng.choice(EXCS)
            f["line"] = rng.choice([rng.randrange(60), rng.randrange(3000),
                                    rng.randrange(60000), rng.randrange(60000)])
        elif kind == "worker_die":
            f["when"] = rng.choice(["before", "after"])
            f["frac"] = round(rng.random(), 3)
        elif kind == "submit_fail":
            f["exc"] = rng.choice(["OSError", "RuntimeError", "MemoryError"])
        plan["faults"].append(f)
    if c["workers"] == 1:
        plan["faults"] = []
        plan["raise"] = {"kind": "raise", "line": rng.choice(
            [rng.randrange(100), rng.randrange(5000), rng.randrange(200000)]),
            "exc": rng.choice(EXCS + ["KeyboardInterrupt"])}
    elif rng.random() < 0.12:  # the calling process is interrupted
        if rng.random() < 0.7:
            plan["faults"] = []
        plan["raise"] = {"kind": "raise", "line": rng.choice(
            [rng.randrange(40), rng.randrange(40 + 30 * ntask)]),
            "exc": rng.choice(EXCS + ["KeyboardInterrupt"] * 6)}
    if rng.random() < 0.2:  # one member whose configuration the model rejects
        plan["bad"] = {"cfg": rng.randrange(len(c["cfgs"])),
                       "how": rng.choice(["just_one", "ref_yr", "rs"])}
        if rng.random() < 0.7:
            plan["faults"] = []
            plan.pop("raise", None)
    return plan


def _with_bad(plan):
    c = plan["call"]
    if plan["bad"] is None or any(s["kind"] == "forc" for s in c["specs"]):
        return c, False
    c = copy.deepcopy(c)
    m = c["cfgs"][min(plan["bad"]["cfg"], len(c["cfgs"]) - 1)]
    if plan["bad"]["how"] == "rs" and all(s["carbon"] == "default" for s in c["specs"]):
        m["pamset_carbon"] = {"rs_function": {"coeffs": [0.5, 0.5],
                                              "timescales": [1.0, 2.0, 3.0, 4.0]}}
    elif plan["bad"]["how"] == "ref_yr":
        m["pamset_emiconc"] = dict(m.get("pamset_emiconc") or {}, ref_yr=3005)
    else:
        m["pamset_emiconc"] = dict(m.get("pamset_emiconc") or {}, just_one="NoSuchGas")
    return c, True


def run(plan):
    plan = _located(plan)

    def body(r):
        ns = env.Namespace()
        c, bad = _with_bad(plan)
        inj = None
        where = []
        got = exc = None
        try:
            if plan.get("raise"):
                inj = make_exc(plan["raise"]["exc"])
                with trace.raise_at_line(plan["raise"]["line"], inj,
                                         on_fire=lambda: r.world.fire(plan["raise"]),
                                         where=where):
                    got = ens.call(ns, c, r, "f")
            else:
                got = ens.call(ns, c, r, "f")
        except sim.PASS:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            exc = e
        fired = [f["kind"] for f in r.world.fired]
        fatal = [k for k in fired if k in FATAL]
        r.nontrivial = bool(fired) or bad
        r.count("fault:bad_configuration", int(bad))
        r.probe("returned although a fault fired", exc is None and bool(fired))
        r.log("outcome", "returned" if exc is None else type(exc).__name__)
        if exc is not None:
            r.probe("raised " + type(exc).__name__)
            if not fatal and not bad and not ens.impossible(c):
                r.violate("raised %s without a failure" % sim.short(exc))
                return
        else:
            r.note(got)
            d = ens.check(got, c)
            if d:
                r.violate("returned after %s: %s" % (fired or "no fault", d))
                return
        # the cause is gone
        if plan["again"] or exc is not None:
            r.world.faults_on = False
            try:
                got = ens.call(ns, plan["call"], r, "g")
            except sim.PASS:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                if ens.impossible(plan["call"]):
                    return
                r.violate("same call without faults raised %s after %s"
                          % (sim.short(e), fired))
                return
            r.note(got)
            d = ens.check(got, plan["call"])
            if d:
                r.violate("same call without faults after %s: %s" % (fired, d))
    return sim.simulate(body, plan)


def shrink(plan):
    if len(plan["faults"]) > 1:
        for i in range(len(plan["faults"])):
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    if plan["bad"]:
        yield dict(plan, bad=None)
    if plan["again"]:
        yield dict(plan, again=False)
    if plan["durations"] != "equal":
        yield dict(plan, durations="equal")
    for s in ens.shrink_call(plan["call"]):
        new = dict(plan, call=s)
        yield new
    for i, f in enumerate(plan["faults"]):
        if f.get("task", 0) > 0:
            fs = copy.deepcopy(plan["faults"])
            fs[i]["task"] = 0
            yield dict(plan, faults=fs)
        if "frac" in f and f["kind"] == "task_raise":
            continue
        if f.get("line", 0) > 0:
            fs = copy.deepcopy(plan["faults"])
            fs[i]["line"] //= 2
            yield dict(plan, faults=fs)
