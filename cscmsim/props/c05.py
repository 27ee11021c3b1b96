"""C05: a run interrupted at any point leaves the instance usable"""

import copy

from .. import env, oracle, outfiles, scen, sim, trace
from ..world import make_exc
from .c04 import runcfg

LEVEL = "fault_enumeration"
RULE = ("a run breaks off one to three model runs (or the making of an instance) at chosen "
        "lines of the code with an interrupt, lack of memory or an input/output error, then "
        "runs the same instance with all parameters given; non-trivial: an interruption "
        "took effect; distinct: different interruption points, parameters or results")
REAL = ["ciceroscm package", "pandas, numpy, scipy", "files in a scratch folder"]
STUB = ["asynchronous interrupts are raised at line boundaries of the package", "clock"]
RUNS = {"quick": 360, "thorough": 20000}

EXC = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "EIO", "ENOSPC", "RuntimeError"]


def gen_sweep(rng):
    """Many interruptions at distinct lines of the same run, each followed by a full one"""
    while True:
        s = scen.gen_scen(rng, kinds=("emis",) * 4 + ("conc",) * 3 + ("forc",), wide=0.0)
        if s["kind"] == "forc" or s["y0"] > 1995:
            break
    make = rng.random() < 0.15
    n = 30
    pre, post = scen.gen_full(rng, s), scen.gen_params(rng, s)
    for key, p in (("pamset_carbon", 0.6), ("pamset_emiconc", 0.3)):
        if rng.random() < p:
            post[key] = rng.choice([{}, None])
    cut = scen.gen_params(rng, s)
    # carbon cycle parameters stay in force: the interrupted runs give none of their own
    cut["pamset_carbon"] = rng.choice([None, {}, copy.deepcopy(post["pamset_carbon"])])
    off = rng.random()
    return {"sched_seed": rng.randrange(1 << 30), "mode": "sweep", "spec": s,
            "before": rng.random() < 0.3, "pre": pre, "post": post, "params": cut,
            "cuts": [{"make": make, "frac": (i + off) / n, "exc": rng.choice(EXC + ["KeyboardInterrupt"]),
                      "check": rng.random() < 0.35,
                      "visit": rng.choice([0.0, 0.0, 1.0, rng.random()]),
                      "form": rng.choice(["dict"] * 4 + ["dict_nc"])}
                     for i in rng.sample(range(n), n)]}


def gen(rng, tier):
    if rng.random() < 0.45:
        return gen_sweep(rng)
    s = scen.gen_scen(rng, kinds=("emis", "emis", "conc", "conc", "forc"), wide=0.0)
    b = copy.deepcopy(s) if rng.random() < 0.5 else scen.gen_scen(rng, wide=0.0)
    b["name"] = "by"
    cuts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        where = rng.choice(["head", "tail", "any", "line", "line", "line", "make"])
        cuts.append({"where": where, "frac": rng.random(), "k": rng.randrange(400),
                     "exc": rng.choice(EXC), "params": scen.gen_params(rng, s),
                     "form": rng.choice(["dict", "dict", "dict_nc", "files"])})
    post = scen.gen_full(rng, s)
    if rng.random() < 0.5:
        # not all parameters given: carbon cycle parameters keep the values they had
        # if the interrupted runs did not give any
        post = scen.gen_params(rng, s)
        if rng.random() < 0.5:
            post["pamset_emiconc"], post["pamset_carbon"] = rng.choice([({}, {}), (None, None)])
        for c in cuts:
            if rng.random() < 0.7:
                c["params"]["pamset_carbon"] = rng.choice([None, {}])
                if rng.random() < 0.5:
                    c["params"]["pamset_emiconc"] = rng.choice([None, {}])
            else:
                c["params"]["pamset_carbon"] = copy.deepcopy(post["pamset_carbon"])
    return {"sched_seed": rng.randrange(1 << 30), "spec": s, "by": b,
            "before": rng.random() < 0.5, "pre": scen.gen_full(rng, s),
            "bypre": scen.gen_full(rng, b), "cuts": cuts, "post": post,
            "same": rng.random() < 0.3, "final": rng.choice(["dict", "dict", "files"])}


MAKE_LINES = {}


def _make_lines(s, folder):
    """Lines run when making an instance"""
    key = oracle.key_of(s)
    if key not in MAKE_LINES:
        if len(MAKE_LINES) > 200:
            MAKE_LINES.clear()
        ns = env.Namespace()
        cfg = scen.build(s, folder)
        with ns.active(), trace.count_lines() as c:
            ns.CICEROSCM(cfg)
        MAKE_LINES[key] = c
    return MAKE_LINES[key]


def run_sweep(plan):
    def body(r):
        s = plan["spec"]
        none = runcfg("dict", "", "")
        carbon = plan["pre"]["pamset_carbon"] if plan["before"] else None
        carbon = scen.merge_carbon(carbon, plan["post"]["pamset_carbon"])
        ref, _ = oracle.single(s, dict(plan["post"], pamset_carbon=carbon))
        _, lines = oracle.single(s, plan["params"], none, count=True)
        if isinstance(ref, oracle.RefError) or (
                plan["before"] and isinstance(oracle.single(s, plan["pre"])[0],
                                              oracle.RefError)):
            r.nontrivial = False
            r.probe("cannot be calculated at all")
            return
        ns = env.Namespace()
        cfg = scen.build(s, r.path("in"))
        with ns.active():
            model = ns.CICEROSCM(cfg)
            if plan["before"]:
                model._run(none, **scen.fresh(plan["pre"]))
        fired = 0
        last = []
        for num, cut in enumerate(plan["cuts"]):
            exc = make_exc(cut["exc"])
            src = _make_lines(s, r.path("count")) if cut["make"] else lines
            hit, got = [], None
            with ns.active():
                try:
                    with trace.raise_at_site(src.site(cut["frac"], cut["visit"]), exc, hit):
                        if cut["make"]:
                            ns.CICEROSCM(cfg)
                        else:
                            model._run(runcfg(cut["form"], "", ""),
                                       **scen.fresh(plan["params"]))
                except sim.PASS:
                    raise
                except BaseException as e:  # pylint: disable=broad-except
                    got = e
            if not hit:
                r.log("not reached", cut["frac"])
                continue
            fired += 1
            last.append("%s at %s" % (cut["exc"], hit[0]))
            r.count("fault:interrupt_" + cut["exc"])
            r.probe("interrupted in sweep of " + ("make" if cut["make"] else "run"))
            r.log("interrupt", hit[0], cut["exc"])
            r.count("points:" + hit[0])
            if got is None:
                r.violate("%s at %s did not reach the caller" % (cut["exc"], hit[0]))
                return
            if not sim.chain_has(got, exc):
                r.violate("%s at %s became %s" % (cut["exc"], hit[0], sim.short(got)))
                return
            if not cut["check"] and num < len(plan["cuts"]) - 1:
                continue
            where = " after " + ", ".join(last)
            last = []
            try:
                with ns.active():
                    if cut["make"] and not plan["before"]:
                        model = ns.CICEROSCM(cfg)
                    model._run(none, **scen.fresh(plan["post"]))
            except Exception as e:  # pylint: disable=broad-except
                r.violate("run raised %s%s" % (sim.short(e), where))
                return
            d = oracle.diff_results(model.results, ref)
            if d:
                r.violate("run%s: %s" % (where, d))
                return
        r.nontrivial = fired > 0
        r.note(model.results)
    return sim.simulate(body, plan)


def run(plan):
    import os

    if plan.get("mode") == "sweep":
        return run_sweep(plan)

    def body(r):
        s, b = plan["spec"], plan["by"]
        if any(isinstance(oracle.single(*x)[0], oracle.RefError)
               for x in ((s, plan["pre"]), (b, plan["bypre"]))):
            r.nontrivial = False
            r.probe("cannot be calculated at all")
            return
        ns = env.Namespace()
        out = r.path("out")
        os.makedirs(out)
        with ns.active():
            by = ns.CICEROSCM(scen.build(b, r.path("by")))
            by._run(runcfg("dict", "", ""), **scen.fresh(plan["bypre"]))
        byres = by.results
        held = [("bystander", byres, oracle.frozen(byres))]
        model = None
        cfg = scen.build(s, r.path("in"))
        fired = 0
        ran = False
        for k, cut in enumerate(plan["cuts"]):
            exc = make_exc(cut["exc"])
            hit = []
            if cut["where"] == "make":
                n = _make_lines(s, r.path("count"))
                line = (n.pick(cut["frac"], cut["k"]) if cut["k"] % 3
                        else int(cut["frac"] * n.n))
            else:
                _, n = oracle.single(s, cut["params"], runcfg("dict", "", ""), count=True)
                if cut["where"] == "head":
                    line = cut["k"]
                elif cut["where"] == "tail":
                    line = max(0, n.n - 1 - cut["k"])
                elif cut["where"] == "any":
                    line = int(cut["frac"] * n.n)
                else:
                    line = n.pick(cut["frac"], cut["k"])
            got = None
            with ns.active():
                if cut["where"] != "make" and model is None:
                    model = ns.CICEROSCM(cfg)
                    if plan["before"]:
                        ran = True
                        model._run(runcfg("dict", "", ""), **scen.fresh(plan["pre"]))
                        held.append(("earlier run", model.results,
                                     oracle.frozen(model.results)))
                try:
                    with trace.raise_at_line(line, exc, where=hit):
                        if cut["where"] == "make":
                            ns.CICEROSCM(cfg)
                        else:
                            model._run(runcfg(cut["form"], out, "c%d" % k),
                                       **scen.fresh(cut["params"]))
                except sim.PASS:
                    raise
                except BaseException as e:  # pylint: disable=broad-except
                    got = e
            if hit:
                fired += 1
                r.count("fault:interrupt_" + cut["exc"])
                r.probe("interrupted in " + cut["where"])
                r.log("interrupt", line, hit[0], cut["exc"])
                r.count("points:" + hit[0])
                if got is None:
                    r.violate("%s at %s did not reach the caller" % (cut["exc"], hit[0]))
                    return
                if not sim.chain_has(got, exc):
                    r.violate("%s at %s became %s" % (cut["exc"], hit[0], sim.short(got)))
                    return
            else:
                r.log("not reached", line)
        where = " after interrupts %s" % [c["where"] for c in plan["cuts"]]
        r.nontrivial = fired > 0
        post = plan["pre"] if plan["same"] else plan["post"]
        carbon = plan["pre"]["pamset_carbon"] if plan["before"] and ran else None
        carbon = scen.merge_carbon(carbon, post["pamset_carbon"])
        ref, _ = oracle.single(s, dict(post, pamset_carbon=carbon))
        for rnd in range(2):
            try:
                with ns.active():
                    if model is None:
                        model = ns.CICEROSCM(cfg)
                    model._run(runcfg(plan["final"] if rnd == 0 else "dict", out, "last"),
                               **scen.fresh(post))
            except Exception as exc:  # pylint: disable=broad-except
                if not isinstance(ref, oracle.RefError):
                    r.violate("run raised %s%s" % (sim.short(exc), where))
                    return
                break
            if isinstance(ref, oracle.RefError):
                r.violate("run returned%s, a new instance raises %r" % (where, ref))
                return
            if rnd == 0 and plan["final"] == "files":
                d = outfiles.check(out, "last", s, ref, True)
            else:
                d = oracle.diff_results(model.results, ref)
            if d:
                r.violate("run%s: %s" % (where, d))
                return
        r.note(model.results)
        with ns.active():
            by._run(runcfg("dict", "", ""), **scen.fresh(plan["bypre"]))
        bref, _ = oracle.single(b, plan["bypre"])
        d = oracle.diff_results(by.results, bref)
        if d:
            r.violate("another instance%s: %s" % (where, d))
        for label, res, old in held:
            d = oracle.same(res, old, "results")
            if d:
                r.violate("results of %s changed%s: %s" % (label, where, d))
    return sim.simulate(body, plan)


def shrink(plan):
    c = plan["cuts"]
    if len(c) > 1:
        for i in range(len(c)):
            yield dict(plan, cuts=c[:i] + c[i + 1:])
    if plan["before"]:
        yield dict(plan, before=False)
    if plan.get("mode") == "sweep":
        for i in (len(c) // 2, len(c) // 4):
            if i > 1:
                yield dict(plan, cuts=c[:i])
                yield dict(plan, cuts=c[-i:])
        for key in ("params", "post"):
            for p in scen.simpler_params(plan[key]):
                yield dict(plan, **{key: p})
        for n in scen.simpler(plan["spec"]):
            yield dict(plan, spec=n)
        return
    if plan["final"] != "dict":
        yield dict(plan, final="dict")
    for i, cut in enumerate(c):
        if cut["form"] != "dict":
            yield dict(plan, cuts=c[:i] + [dict(cut, form="dict")] + c[i + 1:])
        for p in scen.simpler_params(cut["params"]):
            yield dict(plan, cuts=c[:i] + [dict(cut, params=p)] + c[i + 1:])
    for n in scen.simpler(plan["spec"]):
        yield dict(plan, spec=n)
    for n in scen.simpler(plan["by"]):
        yield dict(plan, by=n)
