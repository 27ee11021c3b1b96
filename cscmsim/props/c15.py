"""C15: a carbon cycle model used alone does not remember earlier calculations"""

import copy

from .. import env, oracle, scen, sim, trace
from ..world import make_exc

LEVEL = "exploration"
RULE = ("a run is a history of 2 to 6 calculations on one or two carbon cycle models, each "
        "beginning with a reset: years forward, emissions calculated back from "
        "concentrations, years forward after that, output tables; some with rejected "
        "parameters or broken off at a chosen line; every finished calculation is compared "
        "with a newly made model; non-trivial: a model was used more than once; distinct: "
        "different history or results")
REAL = ["carbon cycle models of the ciceroscm package", "pandas, numpy"]
STUB = ["interrupts are raised at line boundaries of the package"]
RUNS = {"quick": 2500, "thorough": 60000}


def _series(rng, n):
    x, out = 280.0 + rng.uniform(-2, 60), []
    d = rng.uniform(-0.5, 4)
    for _ in range(n):
        x += d + rng.uniform(-1, 1)
        out.append(round(x, 3))
    return out


def gen(rng, tier):
    models = []
    for _ in range(rng.choice([1, 1, 2])):
        kind = rng.choice(["default", "default", "default", "box"])
        y0 = rng.choice([1750, 1850, 1990])
        m = {"kind": kind, "n": rng.randint(2, 12), "y0": y0, "idtm": rng.choice([1, 2, 4, 12, 24]),
             "start": rng.choice([None, {}, scen.gen_carbon(rng, {"carbon": kind})])}
        models.append(m)
    if len(models) == 2 and rng.random() < 0.5:
        models[1].update({k: models[0][k] for k in ("n", "y0", "idtm")})
    ops = []
    for _ in range(rng.randint(2, 6)):
        i = rng.randrange(len(models))
        m = models[i]
        n = m["n"]
        p = rng.choice([None, None, {}, scen.gen_carbon(rng, {"carbon": m["kind"]}),
                        scen.gen_carbon(rng, {"carbon": m["kind"]})])
        op = {"m": i, "params": p, "calls": [], "cut": None, "restore": rng.random() < 0.1}
        if m["kind"] == "default" and rng.random() < 0.12:
            op["bad"] = rng.choice(["rs_short", "rb_short", "flat"])
        done = 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            left = n - done
            what = rng.choice(["forward", "forward", "back", "out", "outconc", "flux", "width",
                               "fluxconc"])
            if m["kind"] == "box" and what in ("back", "flux", "width", "fluxconc"):
                what = "forward"
            if what == "forward" and left:
                k = rng.randint(1, left)
                op["calls"].append({
                    "what": "forward", "from": done, "em": [round(rng.uniform(-3, 15), 3)
                                                           for _ in range(k)],
                    "dt": rng.choice([None, [round(rng.uniform(-0.5, 5), 3) for _ in range(k)]]),
                    "key": rng.random() < 0.9})
                done += k
            elif what == "back" and done == 0:
                k = rng.randint(1, n)
                op["calls"].append({"what": "back", "conc": _series(rng, k),
                                    "dt": rng.choice([None, [round(rng.uniform(-0.5, 5), 3)
                                                             for _ in range(k)]])})
                done = k
            elif what in ("outconc", "fluxconc") and done == 0:
                op["calls"].append({"what": what, "conc": _series(rng, n),
                                    "dt": rng.choice([None, [round(rng.uniform(-0.5, 5), 3)
                                                             for _ in range(n)]])})
                done = n
            elif what in ("out", "flux"):
                op["calls"].append({"what": what})
            elif what == "width":
                op["calls"].append({"what": what, "conc": _series(rng, n)})
        if rng.random() < 0.25:
            op["cut"] = {"frac": rng.random(), "k": rng.randrange(400),
                         "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"])}
        ops.append(op)
    for i, m in enumerate(models):
        ops.append({"m": i, "params": rng.choice([None, {}]), "cut": None, "restore": False,
                    "calls": [{"what": "forward", "from": 0, "em": [5.0] * m["n"],
                               "dt": None, "key": True}, {"what": "out"}]})
    return {"sched_seed": rng.randrange(1 << 30), "models": models, "ops": ops}


BAD = {"rs_short": {"rs_function": {"coeffs": [0.1, 0.6, 0.3], "timescales": [0.8, 7.0, 80.0]}},
       "rb_short": {"rb_function": {"coeffs": [0.5, 0.25], "timescales": [2.5, 10.0, 60.0]}},
       "flat": {"rs_coef0": 0.5, "rs_coef1": 0.5, "rs_tim0": 1.0, "rs_tim1": 4.0}}


def make(ns, m, params):
    pam = {"idtm": m["idtm"], "nystart": m["y0"], "nyend": m["y0"] + m["n"] - 1}
    return ns["component_factory_functions"].create_carbon_cycle_model(
        m["kind"], pam, copy.deepcopy(params))


def calls(model, m, todo):
    """Do the calls; list of what they gave"""
    import numpy as np
    out = []
    years = np.arange(m["y0"], m["y0"] + m["n"])
    for c in todo:
        if c["what"] == "forward":
            got = []
            for j, em in enumerate(c["em"]):
                fb = None
                if c["dt"] is not None:
                    fb = {"dtemp": c["dt"][j]} if c["key"] else {}
                got.append(float(model.co2em2conc(m["y0"] + c["from"] + j, em, feedback_dict=fb)))
            out.append(np.array(got))
        elif c["what"] == "back":
            fb = None if c["dt"] is None else {"dtemp": np.array(c["dt"])}
            out.append(np.array(model.back_calculate_emissions(
                np.array(c["conc"]), feedback_dict_series=fb)))
        elif c["what"] == "out":
            out.append(model.get_carbon_cycle_output(
                years, conc_run=False, conc_series=None,
                feedback_dict_series={"dtemp": np.linspace(0, 2, m["n"])}))
        elif c["what"] == "outconc":
            fb = None if c["dt"] is None else {"dtemp": np.array(c["dt"])}
            out.append(model.get_carbon_cycle_output(
                years, conc_run=True, conc_series=np.array(c["conc"]),
                feedback_dict_series=fb))
        elif c["what"] == "fluxconc":
            dt = np.zeros(m["n"]) if c["dt"] is None else np.array(c["dt"])
            kw = {"conc_run": True, "co2_conc_series": np.array(c["conc"]), "dtemp_series": dt}
            out.append(np.array(model.get_biosphere_carbon_flux(**kw)))
            out.append(np.array(model.get_ocean_carbon_flux(**kw)))
            out.append(np.array(model.get_ocean_carbon_flux(redo_back_calculation=False, **kw)))
        elif c["what"] == "flux":
            out.append(np.array(model.get_biosphere_carbon_flux()))
            out.append(np.array(model.get_ocean_carbon_flux()))
        else:
            out.append(np.array(model.make_guess_emsize_estimates(np.array(c["conc"]))))
    return out


def reference(m, params, todo, count=False):
    key = oracle.key_of("carbon", m, params, todo, count)

    def go():
        ns = env.Namespace()
        with ns.active():
            if count:
                with trace.count_lines() as n:
                    model = make(ns, m, params)
                    model.reset_co2_hold(None)
                    calls(model, m, todo)
                return n
            model = make(ns, m, params)
            return calls(model, m, todo)
    return oracle._cached(key, go)


def run(plan):
    import numpy as np

    def body(r):
        ns = env.Namespace()
        specs = plan["models"]
        with ns.active():
            models = [make(ns, m, m["start"]) for m in specs]
        states = [scen.merge_carbon({}, m["start"]) for m in specs]
        used = [0] * len(specs)
        for k, op in enumerate(plan["ops"]):
            i = op["m"]
            m, model = specs[i], models[i]
            r.log("op", k, i, [c["what"] for c in op["calls"]], bool(op["cut"]))
            what = "calculation %d on model %d" % (k, i)
            params = op["params"]
            if op.get("bad"):
                params = BAD[op["bad"]]
            if op["restore"] or states[i] is None:
                with ns.active():
                    model.restore_start_pamset()
                states[i] = scen.merge_carbon({}, m["start"])
            new = scen.merge_carbon(states[i], params)
            hit = []
            got = None
            try:
                with ns.active():
                    if op["cut"]:
                        n = reference(m, new if not op.get("bad") else states[i],
                                      op["calls"], count=True)
                        with trace.raise_at_line(n.pick(op["cut"]["frac"], op["cut"]["k"]),
                                                 make_exc(op["cut"]["exc"]), where=hit):
                            model.reset_co2_hold(copy.deepcopy(params))
                            got = calls(model, m, op["calls"])
                    else:
                        model.reset_co2_hold(copy.deepcopy(params))
                        got = calls(model, m, op["calls"])
            except sim.PASS:
                raise
            except BaseException as exc:  # pylint: disable=broad-except
                if hit or op.get("bad"):
                    r.count("fault:interrupt" if hit else "fault:rejected")
                    r.log("failed", type(exc).__name__, hit)
                    if hit and params:  # each of them may be in force or not
                        states[i] = None
                    used[i] += 1
                    continue
                r.violate("%s raised %s" % (what, sim.short(exc)))
                return
            if op.get("bad"):
                r.violate("%s: rejected parameters %s were accepted" % (what, op["bad"]))
                return
            d = oracle.diff_values(got, reference(m, new, op["calls"]), "values")
            if d:
                r.violate("%s: %s" % (what, d))
                return
            states[i] = new
            used[i] += 1
            for g in got:
                r.note(g)
            # state after calculating back is that of the emissions found
            if op["calls"] and op["calls"][0]["what"] == "back" and len(op["calls"]) > 1:
                first = op["calls"][0]
                fwd = [{"what": "forward", "from": 0, "em": [float(x) for x in got[0]],
                        "dt": first["dt"] or [0.0] * len(got[0]), "key": True}]
                ref = reference(m, states[i], fwd + op["calls"][1:])
                d = oracle.diff_values(got[1:], ref[1:], "values")
                if d:
                    r.violate("%s: going on after calculating back differs from going on "
                              "after the emissions found: %s" % (what, d))
                    return
                r.probe("went on after calculating back")
        r.nontrivial = any(u > 1 for u in used)
    return sim.simulate(body, plan)


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        for j in range(len(op["calls"])):
            yield dict(plan, ops=ops[:i] + [dict(op, calls=op["calls"][:j] + op["calls"][j + 1:])]
                       + ops[i + 1:])
        if op["params"]:
            yield dict(plan, ops=ops[:i] + [dict(op, params=None)] + ops[i + 1:])
        if op["cut"] or op["restore"]:
            yield dict(plan, ops=ops[:i] + [dict(op, cut=None, restore=False)] + ops[i + 1:])
    for i, m in enumerate(plan["models"]):
        if m["start"]:
            yield dict(plan, models=plan["models"][:i] + [dict(m, start=None)]
                       + plan["models"][i + 1:])
