"""C14: a copied or pickled model instance behaves as the original"""

import copy
import pickle

from .. import env, oracle, outfiles, scen, sim, trace
from ..world import make_exc
from .c04 import CARBON_FAIL, fail_params, runcfg, scribble

LEVEL = "exploration"
RULE = ("a run is a history of 3 to 9 operations on a growing set of model instances: runs, "
        "failing and interrupted runs, deep copies, pickling to the same, a forked or a new "
        "process, changes to results handed out; every run of an original or a copy is "
        "compared with a new instance; non-trivial: a copy was run; distinct: different "
        "history or results")
REAL = ["ciceroscm package (one private import per simulated process)", "pickle, copy",
        "pandas, numpy, scipy", "files in a scratch folder"]
STUB = ["process boundary (separate imports in one process)", "clock"]
RUNS = {"quick": 190, "thorough": 15000}

HOWS = ["deepcopy", "deepcopy", "pickle", "other", "other", "forked", "proto2"]
FORMS = ["dict", "dict", "dict_nc", "files"]


def gen(rng, tier):
    s = scen.gen_scen(rng, kinds=("emis", "emis", "emis", "conc", "conc", "forc"), wide=0.0)
    pool = [scen.gen_params(rng, s) for _ in range(rng.choice([1, 2, 3]))]

    def params():
        p = rng.choice(pool) if rng.random() < 0.5 else scen.gen_params(rng, s)
        p = copy.deepcopy(p)
        if rng.random() < 0.4:  # the copy has to bring its carbon cycle parameters along
            p["pamset_carbon"] = rng.choice([None, {}])
        return p
    ops, n = [], 1
    for _ in range(rng.randint(2, 8)):
        i = rng.randrange(n)
        x = rng.random()
        if x < 0.35 and n < 5:
            ops.append({"op": "copy", "inst": i, "how": rng.choice(HOWS)})
            n += 1
        elif x < 0.43 and s["kind"] != "forc":
            how = rng.choice(["just_one", "ref_yr", "flat", "rs_short", "rb_short"])
            if how in CARBON_FAIL and s["carbon"] == "box":
                how = "just_one"
            ops.append({"op": "fail", "inst": i, "how": how, "params": scen.gen_params(rng, s)})
        elif x < 0.53:
            p = params()
            p["pamset_carbon"] = rng.choice([None, {}])
            ops.append({"op": "cut", "inst": i, "params": p, "frac": rng.random(),
                        "k": rng.randrange(400),
                        "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "EIO"])})
        elif x < 0.6:
            ops.append({"op": "scribble", "inst": i, "seed": rng.randrange(1000)})
        else:
            ops.append({"op": "run", "inst": i, "params": params(), "form": rng.choice(FORMS)})
    if n == 1:
        ops.insert(rng.randrange(len(ops) + 1),
                   {"op": "copy", "inst": 0, "how": rng.choice(HOWS)})
        n = 2
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        ops.append({"op": "run", "inst": i, "params": params(), "form": "dict"})
    return {"sched_seed": rng.randrange(1 << 30), "spec": s, "ops": ops,
            "gone": rng.choice([None, "files"])}


def _copy(m, ns, how):
    """(copy, namespace it lives in)"""
    if how == "deepcopy":
        with ns.active():
            return copy.deepcopy(m), ns
    if how in ("pickle", "proto2"):
        with ns.active():
            return pickle.loads(pickle.dumps(
                m, 2 if how == "proto2" else pickle.HIGHEST_PROTOCOL)), ns
    other = env.Namespace() if how == "other" else ns.forked()
    with ns.active():
        raw = pickle.dumps(m)
    with other.active():
        return pickle.loads(raw), other


def run(plan):
    import os
    import random

    def body(r):
        s = plan["spec"]
        ns = env.Namespace()
        out = r.path("out")
        os.makedirs(out)
        with ns.active():
            first = ns.CICEROSCM(scen.build(s, r.path("in")))
        # the files the instance was made from need not be there any more
        if plan.get("gone") and os.path.isdir(r.path("in")):
            os.rename(r.path("in"), r.path("gone"))
            r.count("fault:input_files_gone")
        # model, process, carbon cycle states possible, expected results or None
        insts = [[first, ns, [{}], None]]
        copied = set()
        held = []
        r.nontrivial = False
        for k, op in enumerate(plan["ops"]):
            i = min(op["inst"], len(insts) - 1)
            m, ns, states, exp = insts[i]
            r.log("op", k, op["op"], i, op.get("form", op.get("how", "")))
            what = "operation %d (%s) on instance %d" % (k, op["op"], i)
            if i in copied:
                what += " (a copy)"
            if op["op"] == "copy":
                r.count("copies:" + op["how"])
                try:
                    new, nns = _copy(m, ns, op["how"])
                except Exception as exc:  # pylint: disable=broad-except
                    r.violate("%s: %s raised %s" % (what, op["how"], sim.short(exc)))
                    return
                d = oracle.same(new.results, m.results, "results") if exp is not None else None
                if d:
                    r.violate("%s: copied %s" % (what, d))
                    return
                insts.append([new, nns, copy.deepcopy(states), exp])
                copied.add(len(insts) - 1)
            elif op["op"] == "scribble":
                if exp is not None:
                    res = m.results
                    held = [h for h in held if h[1] is not res]
                    scribble(res, random.Random(op["seed"]))
                    insts[i][3] = None
                    r.count("fault:scribble")
            elif op["op"] == "fail":
                p = fail_params(op)
                try:
                    with ns.active():
                        m._run({"results_as_dict": True}, **scen.fresh(p))
                    r.probe("failing run did not fail")
                except Exception as exc:  # pylint: disable=broad-except
                    r.count("fault:failed_run")
                    r.log("failed", type(exc).__name__)
                insts[i][3] = None
                if p["pamset_carbon"]:
                    new = scen.merge_carbon(states[0], p["pamset_carbon"])
                    insts[i][2] = states + [c for c in [new] if c not in states]
            elif op["op"] == "cut":
                _, n = oracle.single(s, dict(op["params"], pamset_carbon=None),
                                     runcfg("dict", "", ""), count=True)
                line = n.pick(op["frac"], op["k"])
                hit = []
                try:
                    with ns.active(), trace.raise_at_line(line, make_exc(op["exc"]), where=hit):
                        m._run(runcfg("dict", "", ""), **scen.fresh(op["params"]))
                except sim.PASS:
                    raise
                except BaseException as exc:  # pylint: disable=broad-except
                    r.log("interrupted", type(exc).__name__, hit)
                if hit:
                    r.count("fault:interrupt_" + op["exc"])
                insts[i][3] = None
            else:
                p = op["params"]
                new = [scen.merge_carbon(c, p["pamset_carbon"]) for c in states]
                new = [c for j, c in enumerate(new) if c not in new[:j]]
                refs = [oracle.single(s, dict(p, pamset_carbon=c), runcfg(
                    "dict_nc" if op["form"].endswith("_nc") else "dict", "", ""))[0] for c in new]
                try:
                    with ns.active():
                        m._run(runcfg(op["form"], out, "p%d" % k), **scen.fresh(p))
                except Exception as exc:  # pylint: disable=broad-except
                    if not any(isinstance(x, oracle.RefError) for x in refs):
                        r.violate("%s raised %s" % (what, sim.short(exc)))
                        return
                    insts[i][3] = None
                    insts[i][2] = states + [c for c in new if c not in states]
                    continue
                why = None
                for c, ref in zip(new, refs):
                    if isinstance(ref, oracle.RefError):
                        d = "returned, a new instance raises %r" % ref
                    elif op["form"].startswith("files"):
                        d = outfiles.check(out, "p%d" % k, s, ref, True)
                    else:
                        d = oracle.diff_results(m.results, ref)
                    if not d:
                        insts[i][2] = [c]
                        break
                    why = why or d
                else:
                    r.violate("%s: %s" % (what, why))
                    return
                r.nontrivial |= i in copied
                r.note(m.results)
                insts[i][3] = True
                held.append((what, m.results, oracle.frozen(m.results)))
            for label, res, old in held:
                d = oracle.same(res, old, "results")
                if d:
                    r.violate("results of %s changed after operation %d: %s" % (label, k, d))
                    return
        r.probe("instances", len(insts))
    return sim.simulate(body, plan)


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        if ops[i]["op"] != "copy" or i == len(ops) - 1:
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op.get("form", "dict") != "dict":
            yield dict(plan, ops=ops[:i] + [dict(op, form="dict")] + ops[i + 1:])
        if op.get("how") in ("other", "forked", "proto2"):
            yield dict(plan, ops=ops[:i] + [dict(op, how="pickle")] + ops[i + 1:])
        if "params" in op:
            for p in scen.simpler_params(op["params"]):
                yield dict(plan, ops=ops[:i] + [dict(op, params=p)] + ops[i + 1:])
    if plan.get("gone"):
        yield dict(plan, gone=None)
    for n in scen.simpler(plan["spec"]):
        yield dict(plan, spec=n)
