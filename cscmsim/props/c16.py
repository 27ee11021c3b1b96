"""C16: parts stepped year by year are independent and can be saved and restored"""

import copy
import os
import pickle
import random

from .. import env, oracle, scen, sim, trace
from ..world import make_exc
from . import c15

LEVEL = "exploration"
RULE = ("a run steps 2 to 5 thermal models, carbon cycle models and coupled models year by "
        "year, in seeded order in two simulated processes, with copies made in the middle, "
        "saved states, broken off years, crashed processes restored from saved states and "
        "complete runs of other models in between; every year of every model is compared "
        "with the same inputs given to a new model alone; non-trivial: a copied or restored "
        "model went on, or two models were interleaved; distinct: different history or "
        "results")
REAL = ["thermal and carbon cycle models, concentrations emissions handler", "pickle, copy",
        "pandas, numpy, scipy"]
STUB = ["process boundary (separate imports in one process)",
        "durable storage of saved states (kept in memory, survives crashes)"]
RUNS = {"quick": 900, "thorough": 40000}

HOWS = ["deepcopy", "deepcopy", "pickle", "other", "forked", "proto2"]


def _unit(rng, base):
    kind = rng.choice(["thermal", "thermal", "carbon", "coupled", "coupled"])
    if kind == "thermal":
        u = {"kind": kind, "model": rng.choice(["default", "default", "twolayer"]),
             "n": rng.randint(3, 14), "params": scen.gen_udm(rng)}
        u["params"]["threstemp"] = rng.choice([0.5, 1.0, 7.0])
    elif kind == "carbon":
        m = {"kind": rng.choice(["default", "default", "box"]), "n": rng.randint(3, 14),
             "y0": rng.choice([1750, 1850, 1990]), "idtm": rng.choice([1, 4, 12, 24])}
        u = {"kind": kind, "model": m, "n": m["n"],
             "params": rng.choice([None, scen.gen_carbon(rng, {"carbon": m["kind"]})])}
    else:
        s = copy.deepcopy(base)
        u = {"kind": kind, "model": s, "n": s["y1"] - s["y0"] + 1,
             "params": scen.gen_params(rng, s)}
        # also models that are not taken to the end
        u["n"] = rng.choice([u["n"], u["n"], rng.randint(3, u["n"])])
    u["seed"] = rng.randrange(1 << 20)
    u["buffer"] = rng.random() < 0.3   # inputs are put in the same arrays every year
    u["proc"] = rng.randrange(2)
    return u


def gen(rng, tier):
    base = scen.gen_scen(rng, kinds=("emis", "emis", "conc"), wide=0.0)
    units = [_unit(rng, base) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:  # two of the same kind, with little difference
        twin = copy.deepcopy(rng.choice(units))
        twin["seed"] = rng.choice([twin["seed"], rng.randrange(1 << 20)])
        if twin["kind"] == "thermal" and rng.random() < 0.6:
            twin["params"] = scen.gen_udm(rng)
        elif twin["kind"] == "coupled" and rng.random() < 0.6:
            twin["params"] = scen.gen_params(rng, twin["model"])
        units.append(twin)
    ops, n = [], len(units)
    for _ in range(rng.randint(6, 26)):
        u = rng.randrange(n)
        x = rng.random()
        if x < 0.56:
            ops.append({"op": "step", "u": u, "k": rng.choice([1, 1, 2, 3, 6])})
        elif x < 0.67 and n < 8:
            ops.append({"op": "copy", "u": u, "how": rng.choice(HOWS),
                        "branch": rng.choice([None, rng.randrange(1 << 20)])})
            n += 1
        elif x < 0.82:
            ops.append({"op": "save", "u": u})
        elif x < 0.88:
            ops.append({"op": "cut", "u": u, "frac": rng.random(), "k": rng.randrange(200),
                        "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "EIO"])})
        elif x < 0.93:
            ops.append({"op": "restore", "u": u})
        elif x < 0.96:
            ops.append({"op": "crash", "u": u})
        else:
            ops.append({"op": "other", "u": u, "params": scen.gen_params(rng, base)})
    order = list(range(n))
    rng.shuffle(order)
    for u in order:
        ops.append({"op": "step", "u": u, "k": rng.choice([2, 5, 40])})
    if rng.random() < 0.5:
        rng.shuffle(order)
        ops += [{"op": "step", "u": u, "k": 40} for u in order]
    return {"sched_seed": rng.randrange(1 << 30), "base": base, "units": units, "ops": ops,
            "shared": rng.random() < 0.5}


# ------------------------------------------------------------------ units


def inputs(u, seed, j):
    """What the caller gives the model in year j"""
    import numpy as np
    r = random.Random("%d %d" % (seed, j))
    if u["kind"] == "thermal":
        f = r.uniform(-3, 6)
        volc = r.random() < 0.3
        return {"fn": f, "fs": f + r.choice([0.0, r.uniform(-2, 2)]),
                "vn": np.array([r.uniform(-2, 0) if volc else 0.0 for _ in range(12)]),
                "vs": np.array([r.uniform(-2, 0) if volc else 0.0 for _ in range(12)]),
                "w": r.choice([None, 0.0, r.uniform(0, 1)])}
    if u["kind"] == "carbon":
        return {"em": r.uniform(-3, 15), "fb": r.choice([None, {}, {"dtemp": r.uniform(-0.5, 5)}])}
    volc = r.random() < 0.3
    return {"luc": r.uniform(-0.5, 0.1), "sun": r.uniform(-0.1, 0.1),
            "vn": np.array([r.uniform(-2, 0) if volc else 0.0 for _ in range(12)]),
            "vs": np.array([r.uniform(-2, 0) if volc else 0.0 for _ in range(12)])}


def create(ns, u, cfg):
    """A new model; the state handed round is a dictionary that can be pickled"""
    fac = ns["component_factory_functions"]
    if u["kind"] == "thermal":
        return {"th": fac.create_thermal_model(u["model"])(copy.deepcopy(u["params"]))}
    if u["kind"] == "carbon":
        return {"cc": c15.make(ns, u["model"], u["params"])}
    p = scen.fresh(u["params"])
    inst = ns.CICEROSCM(cfg())
    th = inst.thermal_model_class(p["pamset_udm"])
    inst.ce_handler.reset_with_new_pams(p["pamset_emiconc"], p["pamset_carbon"])
    return {"inst": inst, "th": th, "values": None, "T": []}


def step(u, st, j, x):
    """One year; what the models gave"""
    if u["kind"] == "thermal":
        if x["w"] is not None:  # the feedback of the year before holds
            st["th"].set_feedback_gregory(x["w"])
        return st["th"].energy_budget(x["fn"], x["fs"], x["vn"], x["vs"])
    if u["kind"] == "carbon":
        return st["cc"].co2em2conc(u["model"]["y0"] + j, x["em"], feedback_dict=x["fb"])
    inst, yr = st["inst"], u["model"]["y0"] + j
    h = inst.ce_handler
    if st["values"] is not None:
        h.emi2conc(yr, {k: st["values"].get(k, 0) for k in h.get_feedback_list()})
    else:
        h.emi2conc(yr)
    forc, fn, fs, w = h.conc2forc(yr, x["luc"], x["sun"])
    st["th"].set_feedback_gregory(w)
    st["values"] = st["th"].energy_budget(fn, fs, x["vn"], x["vs"])
    st["T"].append(st["values"]["dtemp"])
    out = {"forcing": [forc, fn, fs, w], "values": st["values"]}
    if yr == u["model"]["y1"]:
        import numpy as np
        out["tables"] = h.add_results_to_dict(
            {"carbon_cycle_outputs": True}, feedback_dict_series={
                k: np.array(st["T"]) for k in h.get_feedback_list()})
    return out


def reference(u, seeds, count=False):
    """Outputs of a new model alone given these inputs"""
    key = oracle.key_of("stepped", u["kind"], u["model"], u["params"], seeds, count)

    def go():
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="cscmref")
        try:
            ns = env.Namespace()
            with ns.active():
                st = create(ns, u, lambda: scen.build(u["model"], d))
                if count:
                    for j, s in enumerate(seeds[:-1]):
                        step(u, st, j, inputs(u, s, j))
                    x = inputs(u, seeds[-1], len(seeds) - 1)
                    with trace.count_lines() as n:
                        step(u, st, len(seeds) - 1, x)
                    return n
                return [step(u, st, j, inputs(u, s, j)) for j, s in enumerate(seeds)]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return oracle._cached(key, go)


class Line:
    """One model under way: its state and what it was given so far"""

    def __init__(self, u, seed, ns, st):
        self.u, self.seed, self.ns, self.st = u, seed, ns, st
        self.seeds, self.outs = [], []
        self.saved = None
        self.touched = False   # copied, restored, or interleaved with others
        self.buf = None


def transfer(st, ns, how):
    if how == "deepcopy":
        with ns.active():
            return copy.deepcopy(st), ns
    with ns.active():
        raw = pickle.dumps(st, 2 if how == "proto2" else pickle.HIGHEST_PROTOCOL)
    other = ns if how in ("pickle", "proto2") else \
        env.Namespace() if how == "other" else ns.forked()
    with other.active():
        return pickle.loads(raw), other


def run(plan):
    def body(r):
        base = plan["base"]
        procs = [env.Namespace(), env.Namespace()]
        shared = []

        def cfg():
            if not plan["shared"]:
                return scen.build(base, r.path("in"))
            if not shared:
                shared.append(scen.build(base, r.path("in")))
            return dict(shared[0])
        r.nontrivial = False
        lines, last, held = [], None, []
        for u in plan["units"]:
            lines.append(Line(u, u["seed"], procs[u["proc"]], None))

        def fill(x, line):
            """Inputs in arrays and dictionaries the caller uses again"""
            if not line.u["buffer"]:
                return x
            if line.buf is None:
                line.buf = x
                return x
            for k, v in x.items():
                old = line.buf.get(k)
                if hasattr(v, "shape") and hasattr(old, "shape"):
                    old[:] = v
                elif isinstance(v, dict) and isinstance(old, dict):
                    old.clear()
                    old.update(v)
                else:
                    line.buf[k] = v
            return dict(line.buf)

        def ensure(line):
            if line.st is None and not line.seeds:
                with line.ns.active():
                    line.st = create(line.ns, line.u, cfg)
            return line.st is not None

        for k, op in enumerate(plan["ops"]):
            if op["u"] >= len(lines):
                continue
            line = lines[op["u"]]
            u = line.u
            what = "operation %d (%s) on model %d (%s)" % (k, op["op"], op["u"], u["kind"])
            r.log("op", k, op["op"], op["u"], len(line.seeds))
            try:
                if op["op"] == "other":
                    if base["kind"] == "forc":
                        continue
                    with line.ns.active():
                        m = line.ns.CICEROSCM(cfg())
                        m._run({"results_as_dict": True}, **scen.fresh(op["params"]))
                    r.count("other_runs")
                    continue
                if not ensure(line) and op["op"] not in ("restore", "crash"):
                    continue
                if op["op"] == "step":
                    for _ in range(op["k"]):
                        j = len(line.seeds)
                        if j >= u["n"]:
                            break
                        x = fill(inputs(u, line.seed, j), line)
                        before = oracle.frozen(x)
                        with line.ns.active():
                            out = step(u, line.st, j, x)
                        d = oracle.same(x, before, "input")
                        if d:
                            r.violate("%s year %d: %s changed by the model" % (what, j, d))
                            return
                        line.seeds.append(line.seed)
                        line.outs.append(out)
                        held.append((what, j, out, oracle.frozen(out)))
                        if last not in (None, op["u"]):
                            r.nontrivial = True
                        last = op["u"]
                        if line.touched:
                            r.nontrivial = True
                            r.probe("years of copied or restored models")
                elif op["op"] == "copy":
                    r.count("copies:" + op["how"])
                    st, ns = transfer(line.st, line.ns, op["how"])
                    new = Line(u, line.seed if op["branch"] is None else op["branch"], ns, st)
                    new.seeds, new.outs = list(line.seeds), list(line.outs)
                    new.touched = True
                    lines.append(new)
                elif op["op"] == "save":
                    with line.ns.active():
                        raw = pickle.dumps(line.st)
                    line.saved = (raw, list(line.seeds), list(line.outs))
                    r.count("saves")
                elif op["op"] == "cut":
                    j = len(line.seeds)
                    if j >= u["n"]:
                        continue
                    n = reference(u, line.seeds + [line.seed], count=True)
                    hit = []
                    try:
                        with line.ns.active(), trace.raise_at_line(
                                n.pick(op["frac"], op["k"]), make_exc(op["exc"]), where=hit):
                            step(u, line.st, j, fill(inputs(u, line.seed, j), line))
                    except sim.PASS:
                        raise
                    except BaseException as exc:  # pylint: disable=broad-except
                        if not hit:
                            raise
                        r.log("interrupted", type(exc).__name__, hit)
                        r.count("fault:interrupt_" + op["exc"])
                    line.st = None
                    line.seeds = line.seeds or [None]
                    _restore(r, line, line.ns)
                elif op["op"] == "restore":
                    if line.saved:
                        _restore(r, line, line.ns)
                else:  # everything in that process is lost but the saved states
                    dead = line.ns
                    new = env.Namespace()
                    procs = [new if p is dead else p for p in procs]
                    r.count("fault:crash")
                    for other in lines:
                        if other.ns is dead:
                            other.ns = new
                            if other.st is not None:
                                other.st = None
                                other.seeds = other.seeds or [None]
                                _restore(r, other, new)
            except sim.PASS:
                raise
            except Exception as exc:  # pylint: disable=broad-except
                j = len(line.seeds)
                if op["op"] == "step":
                    try:
                        reference(u, line.seeds + [line.seed])
                    except Exception:  # pylint: disable=broad-except
                        line.st, line.seeds, line.saved = None, [None], None
                        r.probe("model that cannot go on")
                        continue
                r.violate("%s year %d raised %s" % (what, j, sim.short(exc)))
                return
        for i, line in enumerate(lines):
            if not line.outs:
                continue
            seeds = line.seeds if line.seeds != [None] else None
            if seeds is None:
                continue
            ref = reference(line.u, seeds)
            for j, (got, want) in enumerate(zip(line.outs, ref)):
                d = oracle.diff_values(got, want, "values")
                if d:
                    r.violate("model %d (%s), year %d of %d: %s" % (
                        i, line.u["kind"], j, len(seeds), d))
                    return
            r.note(line.outs[-1])
            r.count("years", len(seeds))
        for what, j, out, old in held:
            d = oracle.same(out, old, "output")
            if d:
                r.violate("%s: output of year %d changed afterwards: %s" % (what, j, d))
                return
    return sim.simulate(body, plan)


def _restore(r, line, ns):
    if line.saved is None:
        r.count("lost models")
        line.outs = []
        return
    raw, seeds, outs = line.saved
    with ns.active():
        line.st = pickle.loads(raw)
    line.seeds, line.outs = list(seeds), list(outs)
    line.touched = True
    line.buf = None
    r.count("restores")


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        if ops[i]["op"] != "copy" or not any(
                o["u"] >= len(plan["units"]) for o in ops[i + 1:]):
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op.get("k", 1) > 1 and op["op"] == "step":
            yield dict(plan, ops=ops[:i] + [dict(op, k=op["k"] // 2)] + ops[i + 1:])
        if op.get("how") in ("other", "forked", "proto2"):
            yield dict(plan, ops=ops[:i] + [dict(op, how="pickle")] + ops[i + 1:])
        if op.get("branch"):
            yield dict(plan, ops=ops[:i] + [dict(op, branch=None)] + ops[i + 1:])
    if plan["shared"]:
        yield dict(plan, shared=False)
    for i, u in enumerate(plan["units"]):
        if u["buffer"]:
            yield dict(plan, units=plan["units"][:i] + [dict(u, buffer=False)]
                       + plan["units"][i + 1:])
