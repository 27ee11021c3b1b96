"""C01: a parallel ensemble equals running every member alone, in order"""

from .. import env, sim
from . import ens

LEVEL = "exploration"
RULE = ("a run is one to two ensemble calls with random scenarios, configurations, "
        "variables and worker count under one simulated schedule (durations, which worker "
        "takes which task, completion order); non-trivial: at least two members; "
        "distinct: different event log and results")
REAL = ["ciceroscm package (one private import per simulated process)", "pickle round trip "
        "of tasks and results", "pandas, numpy, scipy"]
STUB = ["ProcessPoolExecutor, as_completed, wait (simulated)", "clock and sleep"]
RUNS = {"quick": 290, "thorough": 6000}


def gen(rng, tier):
    plan = {"sched_seed": rng.randrange(1 << 30),
            "durations": rng.choice(["exp", "exp", "equal", "reverse", "heavy"]),
            "calls": [ens.gen_call(rng, max_members=10 if tier == "quick" else 14)]}
    x = rng.random()
    if x < 0.1:
        plan["calls"].append(ens.gen_call(rng, max_members=4))
    elif x < 0.35:
        plan["calls"].append(ens.gen_again(rng, plan["calls"][0]))
    return plan


def run(plan):
    def body(r):
        ns = env.Namespace()
        r.nontrivial = any(len(c["specs"]) * len(c["cfgs"]) > 1 for c in plan["calls"])
        for i, c in enumerate(plan["calls"]):
            r.log("call", i, "workers", c["workers"])
            try:
                df = ens.call(ns, c, r, "c%d" % i)
            except sim.PASS:
                raise
            except BaseException as exc:  # pylint: disable=broad-except
                if ens.impossible(c):
                    r.probe("member cannot be calculated alone")
                    continue
                r.violate("call %d: raised %s" % (i, sim.short(exc)))
                return
            r.count("members", len(c["specs"]) * len(c["cfgs"]))
            r.probe("workers>1", c["workers"] > 1)
            r.probe("more scenarios than workers", len(c["specs"]) >= c["workers"])
            r.probe("uneven batches", c["workers"] > 1 and
                    len(c["cfgs"]) % max(1, len(c["cfgs"]) * len(c["specs"]) // c["workers"]) != 0)
            r.note(df)
            d = ens.check(df, c)
            if d:
                r.violate("call %d: %s" % (i, d))
                return
    return sim.simulate(body, plan)


def shrink(plan):
    if len(plan["calls"]) > 1:
        for i in range(len(plan["calls"])):
            yield dict(plan, calls=[plan["calls"][i]])
    if plan["durations"] != "equal":
        yield dict(plan, durations="equal")
    for i, c in enumerate(plan["calls"]):
        for s in ens.shrink_call(c):
            yield dict(plan, calls=plan["calls"][:i] + [s] + plan["calls"][i + 1:])
