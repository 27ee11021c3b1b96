"""C04: a reused model instance gives the same results as a new one"""

import copy

from .. import env, oracle, outfiles, scen, sim

LEVEL = "exploration"
RULE = ("a run is a history of 2 to 7 operations (7 % of the runs: 12 to 36) on one to three model instances in one "
        "process: runs with different parameters and forms of output, runs that fail, "
        "changes to results handed out; each run is compared with a new instance; "
        "non-trivial: some instance was run more than once; distinct: different history "
        "or results")
REAL = ["ciceroscm package", "pandas, numpy, scipy", "files in a scratch folder"]
STUB = ["clock"]
RUNS = {"quick": 480, "thorough": 20000}

CARBON_FAIL = ("flat", "rs_short", "rb_short")
FORMS = ["dict", "dict", "dict_nc", "files", "files_nc"]


def _near(rng, p):
    """The same parameters, one of them a little different"""
    p = copy.deepcopy(p)
    nums = [(g, k) for g in p for k, v in (p[g] or {}).items()
            if isinstance(v, float) and k not in ("ldtime", "lm")]
    if nums:
        g, k = rng.choice(sorted(nums))
        p[g][k] *= 1 + rng.choice([-1, 1]) * 10.0 ** -rng.randint(1, 7)
    return p


def gen_long(rng):
    """Many runs, with some of the parameters used long before"""
    s = scen.gen_scen(rng, kinds=("emis", "emis", "conc", "forc"), wide=0.0)
    if s["kind"] == "forc":
        s["y1"] = s["y0"] + rng.randint(3, 8)
    s["name"] = "s0"
    pool = [scen.gen_params(rng, s)]
    n = rng.choice([12, 20, 36])
    ops = []
    for _ in range(n):
        if rng.random() < 0.75:
            pool.append(_near(rng, rng.choice(pool)) if rng.random() < 0.5
                        else scen.gen_params(rng, s))
            p = pool[-1]
        else:
            p = rng.choice(pool)
        ops.append({"op": "run", "inst": 0, "params": copy.deepcopy(p),
                    "inplace": rng.random() < 0.3,
                    "form": rng.choice(["dict"] * 6 + FORMS)})
    ops.append({"op": "run", "inst": 0, "params": copy.deepcopy(pool[0]), "form": "dict"})
    return {"sched_seed": rng.randrange(1 << 30), "specs": [s], "ops": ops}


def gen(rng, tier):
    if rng.random() < 0.07:
        return gen_long(rng)
    n = rng.choice([1, 1, 1, 2, 2, 3])
    specs = []
    for i in range(n):
        if specs and rng.random() < 0.6:
            s = copy.deepcopy(specs[0])
            if rng.random() < 0.5:
                s["scale"] = {rng.choice(scen.SPICY): round(rng.uniform(0.5, 2), 3)}
        else:
            s = scen.gen_scen(rng, kinds=("emis", "emis", "emis", "conc", "conc", "forc"))
        s["name"] = "s%d" % i
        specs.append(s)
    pools = [[scen.gen_params(rng, s) for _ in range(rng.choice([1, 2, 3]))] for s in specs]
    ops = []
    for _ in range(rng.randint(2, 7)):
        i = rng.randrange(n)
        s = specs[i]
        x = rng.random()
        if x < 0.12 and s["kind"] != "forc":
            how = rng.choice(["just_one", "ref_yr", "flat", "flat", "rs_short", "rb_short"])
            if how in CARBON_FAIL and s["carbon"] == "box":
                how = "just_one"
            ops.append({"op": "fail", "inst": i, "how": how, "params": scen.gen_params(rng, s)})
            if rng.random() < 0.5:  # tried again
                ops.append(copy.deepcopy(ops[-1]))
        elif x < 0.27:
            ops.append({"op": "scribble", "seed": rng.randrange(1000)})
        else:
            p = rng.choice(pools[i]) if rng.random() < 0.5 else scen.gen_params(rng, s)
            if rng.random() < 0.15:
                p = _near(rng, rng.choice(pools[i]))
            ops.append({"op": "run", "inst": i, "params": copy.deepcopy(p),
                        "inplace": rng.random() < 0.3, "form": rng.choice(FORMS)})
    for i in range(n):
        ops.append({"op": "run", "inst": i, "form": "dict",
                    "params": copy.deepcopy(rng.choice(pools[i]))})
    return {"sched_seed": rng.randrange(1 << 30), "specs": specs, "ops": ops}


def runcfg(form, folder, prefix):
    if form.startswith("dict"):
        c = {"results_as_dict": True}
    else:
        c = {"output_folder": folder, "output_prefix": prefix}
    if not form.endswith("_nc"):
        c["carbon_cycle_outputs"] = True
    return c


def scribble(res, rng):
    """Change everything in handed out results that can be changed"""
    import numpy as np
    import pandas as pd
    for k in list(res):
        v = res[k]
        if isinstance(v, np.ndarray):
            try:
                v[:] = -1e9
            except ValueError:
                pass
        elif isinstance(v, pd.DataFrame):
            v.loc[:, :] = 7e7
            if rng.random() < 0.5:
                v.drop(columns=list(v.columns[:3]), inplace=True)
            else:
                v["new"] = 1.0
    how = rng.choice(["keep", "clear", "add"])
    if how == "clear":
        res.clear()
    elif how == "add":
        res["extra"] = 1


def fail_params(op):
    p = copy.deepcopy(op["params"])
    p["pamset_carbon"] = None
    e = dict(p["pamset_emiconc"] or {})
    if op["how"] == "just_one":
        e["just_one"] = "NoSuchGas"
    elif op["how"] == "ref_yr":
        e["ref_yr"] = 3005
    elif op["how"] == "rs_short":
        p["pamset_carbon"] = {"rs_function": {"coeffs": [0.1, 0.6, 0.3],
                                              "timescales": [0.8, 7.0, 80.0]}}
    elif op["how"] == "rb_short":
        p["pamset_carbon"] = {"rb_function": {"coeffs": [0.5, 0.25],
                                              "timescales": [2.5, 10.0, 60.0]}}
    else:
        p["pamset_carbon"] = {"rs_coef0": 0.5, "rs_coef1": 0.5, "rs_tim0": 1.0, "rs_tim1": 4.0}
    p["pamset_emiconc"] = e
    return p


def _handed(given, i, params, inplace):
    """Dictionaries for the run: new, or the ones of the last run with other contents"""
    new = scen.fresh(params)
    if inplace:
        for k, old in given.get(i, {}).items():
            if isinstance(old, dict) and isinstance(new.get(k), dict):
                old.clear()
                old.update(new[k])
                new[k] = old
    given[i] = new
    return new


def run(plan):
    import os
    import random

    def body(r):
        ns = env.Namespace()
        models, carbon = {}, {}
        held = []  # (label, results, deep copy)
        nruns = {}
        given = {}  # dictionaries the caller uses again
        out = r.path("out")
        os.makedirs(out)
        for k, op in enumerate(plan["ops"]):
            r.log("op", k, op["op"], op.get("inst", ""), op.get("form", op.get("how", "")))
            if op["op"] == "scribble":
                if held:
                    i = random.Random(op["seed"]).randrange(len(held))
                    _, res, _ = held.pop(i)
                    scribble(res, random.Random(op["seed"]))
                    r.count("fault:scribble")
                continue
            i = op["inst"]
            s = plan["specs"][i]
            with ns.active():
                if i not in models:
                    models[i] = ns.CICEROSCM(scen.build(s, r.path("in%d" % i)))
                m = models[i]
            if op["op"] == "fail":
                p = fail_params(op)
                # what a failed run leaves of its carbon cycle parameters is not fixed
                states = carbon.get(i, [{}])
                refs = [oracle.single(s, dict(p, pamset_carbon=scen.merge_carbon(
                    c, p["pamset_carbon"])))[0] for c in states]
                try:
                    with ns.active():
                        m._run({"results_as_dict": True}, **scen.fresh(p))
                    r.probe("failing run did not fail")
                    if all(isinstance(ref, oracle.RefError) for ref in refs):
                        r.violate("operation %d on instance %d returned, a new instance "
                                  "raises %r" % (k, i, refs[0]))
                        return
                except Exception as exc:  # pylint: disable=broad-except
                    r.count("fault:failed_run")
                    r.log("failed", type(exc).__name__)
                if p["pamset_carbon"]:
                    new = scen.merge_carbon(states[0], p["pamset_carbon"])
                    carbon[i] = states + [c for c in [new] if c not in states]
            else:
                p = op["params"]
                states = [scen.merge_carbon(c, p["pamset_carbon"])
                          for c in carbon.get(i, [{}])]
                states = [c for j, c in enumerate(states) if c not in states[:j]]
                refs = [oracle.single(s, dict(p, pamset_carbon=c), runcfg("dict" + (
                    "_nc" if op["form"].endswith("_nc") else ""), "", ""))[0] for c in states]
                pfx = "p%d" % k
                label = "operation %d (%s) on instance %d" % (k, op["form"], i)
                try:
                    with ns.active():
                        m._run(runcfg(op["form"], out, pfx),
                               **_handed(given, i, p, op.get("inplace")))
                except Exception as exc:  # pylint: disable=broad-except
                    if not any(isinstance(ref, oracle.RefError) for ref in refs):
                        r.violate("%s raised %s" % (label, sim.short(exc)))
                        return
                    # the model cannot calculate with these; they may be in force
                    old = carbon.get(i, [{}])
                    carbon[i] = old + [c for c in states if c not in old]
                    r.probe("run raised, as on a new instance")
                    continue
                nruns[i] = nruns.get(i, 0) + 1
                why = None
                for c, ref in zip(states, refs):
                    if isinstance(ref, oracle.RefError):
                        d = "returned, a new instance raises %r" % ref
                    elif op["form"].startswith("files"):
                        d = outfiles.check(out, pfx, s, ref, not op["form"].endswith("_nc"))
                    else:
                        d = oracle.diff_results(m.results, ref)
                    if not d:
                        carbon[i] = [c]
                        break
                    why = why or d
                else:
                    r.violate("%s: %s" % (label, why))
                    return
                if op["form"].startswith("dict"):
                    r.note(m.results)
                    held.append((label, m.results, oracle.frozen(m.results)))
            for label, res, copy_ in held:
                d = oracle.same(res, copy_, "results")
                if d:
                    r.violate("results of %s changed after operation %d: %s" % (label, k, d))
                    return
        r.nontrivial = any(v > 1 for v in nruns.values())
        r.probe("runs", sum(nruns.values()))
    return sim.simulate(body, plan)


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op.get("form", "dict") != "dict":
            yield dict(plan, ops=ops[:i] + [dict(op, form="dict")] + ops[i + 1:])
        if "params" in op:
            for p in scen.simpler_params(op["params"]):
                yield dict(plan, ops=ops[:i] + [dict(op, params=p)] + ops[i + 1:])
    for i, s in enumerate(plan["specs"]):
        for n in scen.simpler(s):
            yield dict(plan, specs=plan["specs"][:i] + [n] + plan["specs"][i + 1:])
