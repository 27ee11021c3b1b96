"""C07: input tables and parameters of the caller are never changed"""

import copy
import json

from .. import env, oracle, scen, sim, trace
from ..world import make_exc
from . import ens
from .c04 import runcfg

LEVEL = "fault_enumeration"
RULE = ("a run makes several instances and ensembles (serial and on a simulated pool) from "
        "the same tables and parameter dictionaries, with some operations broken off at "
        "chosen lines, and looks at the inputs after every operation and at chosen lines "
        "within; non-trivial: two instances used the same tables; distinct: different "
        "history or results")
REAL = ["ciceroscm package (one private import per simulated process)", "pandas, numpy, scipy"]
STUB = ["ProcessPoolExecutor, as_completed, wait (simulated)", "interrupts at line "
        "boundaries of the package", "clock"]
RUNS = {"quick": 460, "thorough": 16000}


def gen(rng, tier):
    s = scen.gen_scen(rng, kinds=("emis", "emis", "emis", "conc", "conc", "forc"),
                      src=rng.choice(["data", "data", "data", "mixed"]), name="in", wide=0.0)
    if s["kind"] != "forc":
        s["nat"] = rng.choice(["data", "data", "flat"])
        if rng.random() < 0.5:
            s["pert_forc"] = scen.gen_pert(rng, s, ["CO2", "OTHER", "SO2", "CH4", "HFC134a"], 0.6)
        if s["kind"] == "emis" and rng.random() < 0.6:
            s["pert_em"] = scen.gen_pert(rng, s, scen.SPICY + scen.VANILLA, 0.9)
    if rng.random() < 0.3:
        s["sunvolc"], s["sun"] = 1, "own"
    params = [scen.gen_params(rng, s, just_one=rng.random() < 0.5)
              for _ in range(rng.choice([1, 2]))]
    for p in params:
        if p["pamset_emiconc"]:
            p["pamset_emiconc"].pop("ref_yr", None)
    ops = []
    for _ in range(rng.randint(2, 5)):
        x = rng.random()
        cut = None
        if rng.random() < 0.35:
            cut = {"frac": rng.random(), "k": rng.randrange(1000),
                   "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "EIO"])}
        look = sorted(rng.randrange(1000) for _ in range(rng.choice([0, 3, 40, 150])))
        if rng.random() < 0.15:
            ops.append({"op": rng.choice(["read", "read", "regional"]), "cut": None,
                        "look": [], "obj": rng.randrange(3), "pick": rng.randrange(1 << 20)})
            continue
        if x < 0.35:
            ops.append({"op": "make", "cut": cut, "look": look})
        elif x < 0.75:
            ops.append({"op": "run", "cut": cut, "look": look, "p": rng.randrange(2),
                        "obj": rng.randrange(3),
                        "form": rng.choice(["dict", "dict", "dict_nc", "files"])})
        else:
            ops.append({"op": "ensemble", "n": rng.choice([1, 2, 3, 4]), "cut": cut,
                        "look": look, "workers": rng.choice([1, 1, 2, 3]),
                        "vars": [[rng.randrange(3), v] for v in oracle.UNKNOWN
                                 if rng.random() < 0.12],
                        "second": rng.choice([None, None, None, "another", "zz", "in"]),
                        "via": rng.choice(["direct", "direct", "list", "dict"])})
    ops.append({"op": "make", "cut": None, "look": []})
    ops.append({"op": "run", "cut": None, "look": [], "p": 0, "obj": -1, "form": "dict",
                "fresh": True})
    for key in ("pert_em", "pert_forc"):
        if s[key] and rng.random() < 0.2:
            s[key].append(list(rng.choice(s[key])))
    return {"sched_seed": rng.randrange(1 << 30), "spec": s, "params": params, "ops": ops,
            "strip": rng.random() < 0.4,
            "tables": rng.choice([None, None, "names", "float", "object", "attrs"]),
            "samedict": rng.random() < 0.5, "faults": []}


def changed(now, before):
    """Like oracle.same, but keys may be added to the top dictionary"""
    for k in before:
        if k not in now:
            return "key %s removed" % k
        d = oracle.same(now[k], before[k], str(k))
        if d:
            return d
    return None


def _kept(now, before, path):
    """Nested dictionaries have the keys and values they had"""
    if isinstance(before, dict):
        if isinstance(now, dict) and set(now) - set(before):
            return "%s has got %s" % (path, sorted(set(now) - set(before), key=str))
        for k in before:
            if not isinstance(now, dict) or k not in now:
                return "%s[%s] removed" % (path, k)
            d = _kept(now[k], before[k], "%s[%s]" % (path, k))
            if d:
                return d
        return None
    return oracle.same(now, before, path)


class Watch:
    def __init__(self, r, cfg, params, cfgs):
        self.r = r
        self.cfg, self.params, self.cfgs = cfg, params, cfgs
        self.old = oracle.frozen((cfg, params, cfgs))
        self.bad = None

    def check(self, when):
        if self.bad:
            return self.bad
        d = changed(self.cfg, self.old[0])
        if d is None:
            for now, old in zip(self.params, self.old[1]):
                d = d or _kept(now, old, "parameters")
        if d is None:
            if len(self.cfgs) != len(self.old[2]):
                d = "list of configurations has another length"
            for now, old in zip(self.cfgs, self.old[2]):
                d = d or _kept(now, old, "configuration")
        if d:
            self.bad = "%s: %s" % (when, d)
        return self.bad


def dress(cfg, how):
    """Input tables as callers may have them: names, years as other types, attributes"""
    import pandas as pd
    for key, df in cfg.items():
        if not isinstance(df, pd.DataFrame) or not how:
            continue
        if how == "names":
            df.index.name, df.columns.name = "my index", "my columns"
        elif how == "attrs":
            df.attrs["source"] = "somewhere"
        elif key in ("nat_ch4_data", "nat_n2o_data") or (
                how == "object" and key in ("emissions_data", "concentrations_data")):
            df.index = df.index.astype(how)


def other(r, ns, op, s, cfg, objs):
    """Reading variables from results, or making a table with regional aerosols"""
    if op["op"] == "regional":
        gas = cfg.get("gaspam_data")
        if gas is None or s["gas"] == "reg" or "SO2" not in gas.index:
            return None
        reg = gas.loc[[c for c in ("SO2", "BC", "OC") if c in gas.index]].T.iloc[:5].copy()
        reg.index = ["EAS", "SAM", "NAF", "NAM", "RBU"][:len(reg)]
        for c in reg.columns:
            reg[c] = [1e-11 * (op["pick"] % 97 + i) for i in range(len(reg))]
        old = oracle.frozen(reg)
        with ns.active():
            two = [ns["pub_utils"].make_regional_aerosol_gaspamdata(gas, reg)
                   for _ in range(2)]
        r.probe("regional tables made")
        return oracle.same(reg, old, "regional forcing") or oracle.diff_values(
            two[1], two[0], "second regional table")
    ready = [o[0] for o in objs if getattr(o[0], "results", None)]
    if not ready:
        return None
    res = ready[op["obj"] % len(ready)].results
    old = oracle.frozen(res)
    fmt = ns["formattingtools.reformat_cscm_results"]
    gas = cfg.get("gaspam_data", cfg.get("gaspam_file"))
    names = sorted(fmt.openscm_to_cscm_dict) + sorted(fmt.carbon_cycle_outputs)
    names = names[op["pick"] % 7::7]
    first = None
    with ns.active():
        for _ in range(2):
            writer = ns["formattingtools.reformat_inputdata_to_cscm_format"].COMMONSFILEWRITER(
                gas, s["y0"], s["y1"])
            reader = fmt.CSCMREADER(s["y0"], s["y1"])
            got = []
            for name in names:
                try:
                    years, vals, unit = reader.get_variable_timeseries(res, name, writer)
                    got.append([name, list(years), [float(v) for v in vals], unit])
                except Exception as exc:  # pylint: disable=broad-except
                    # not among the results of this kind of run
                    got.append([name, type(exc).__name__])
            first = first or got
    r.probe("variables read", len(names))
    r.log("read", [g[1] if len(g) == 2 else len(g[1]) for g in got])
    for a, b in zip(first, got):
        d = oracle.diff_values(b, a, a[0]) if len(a) == len(b) else a[0]
        if d:
            return "read again: " + d
    return oracle.same(res, old, "results")


def run(plan):
    import os

    def body(r):
        s = plan["spec"]
        ns = env.Namespace()
        out = r.path("out")
        os.makedirs(out)
        cfg = scen.build(s, r.path("in"))
        dress(cfg, plan.get("tables"))
        params = scen.fresh(plan["params"])
        ens_cfgs = [dict(scen.fresh(plan["params"][i % len(plan["params"])]), Index="c%d" % i)
                    for i in range(4)]
        if plan.get("strip"):  # parts of configurations are left out
            ens_cfgs = [{k: v for k, v in c.items() if v} for c in ens_cfgs]
        watch = Watch(r, cfg, params, ens_cfgs)
        objs = []
        made = 0
        for k, op in enumerate(plan["ops"]):
            label = "operation %d (%s)" % (k, op["op"])
            r.log("op", k, op["op"])
            mycfg = cfg if plan["samedict"] else dict(cfg)
            model = p = None
            if op["op"] in ("read", "regional"):
                d = other(r, ns, op, s, cfg, objs)
                d = d or watch.check("after " + label)
                if d:
                    r.violate("inputs or results changed by %s: %s" % (label, d))
                    return
                continue
            if op["op"] == "make":
                def fn():
                    objs.append([ns.CICEROSCM(mycfg), None, True])
            elif op["op"] == "run":
                if not objs:
                    continue
                model = objs[op["obj"] % len(objs) if op["obj"] >= 0 else -1]
                p = params[op["p"] % len(params)]

                def fn():
                    model[0]._run(runcfg(op["form"], out, "o%d" % k), **p)
            else:
                variables = ["Surface Air Ocean Blended Temperature Change",
                             "Heat Content|Ocean"]
                for pos, name in op.get("vars", []):
                    variables.insert(pos, name)
                var0 = list(variables)
                scens, specs = [mycfg], [s]
                if op.get("second"):
                    specs.append(dict(s, name=op["second"]))
                    scens.append(dict(mycfg, scenname=op["second"]))
                scens0 = list(scens)
                second = oracle.frozen(scens[1:])
                sample = ens_cfgs[:op["n"]]
                sample0 = list(sample)
                fn = _ensemble(r, ns, op, k, scens, sample, variables)
            hit = []
            got = exc = None
            look = list(op["look"])
            line = -1
            if op["cut"] or look:
                n = _lines(plan, op)
                if op["cut"]:
                    line = n.pick(op["cut"]["frac"], op["cut"]["k"])
                keys = list(n.lines)
                look = [keys[x * len(keys) // 1000] for x in look]
            try:
                with ns.active():
                    if line >= 0:
                        with trace.raise_at_line(line, make_exc(op["cut"]["exc"]), where=hit):
                            got = fn()
                    elif look:
                        with trace.watch_sites(look, lambda fr: watch.check(
                                "%s at %s:%d" % (label, fr.f_code.co_name, fr.f_lineno))):
                            got = fn()
                        r.probe("looks within operations", len(look))
                    else:
                        got = fn()
            except sim.PASS:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                exc = e
            if hit:
                r.count("fault:interrupt_" + op["cut"]["exc"])
                r.log("interrupt", hit[0])
                label += " broken off at " + hit[0]
            d = watch.check("after " + label)
            if d:
                r.violate("inputs changed " + d)
                return
            if op["op"] == "make" and exc is None:
                made += 1
            if op["op"] == "run" and model is not None:
                carbon = None
                if p is not None and model[2]:
                    carbon = scen.merge_carbon(model[1], p["pamset_carbon"])
                    model[1] = carbon
                if hit:
                    model[2] = False  # carbon parameters in force are not known any more
                elif model[2]:
                    nc = op["form"].endswith("_nc")
                    ref, _ = oracle.single(
                        s, dict(plan["params"][op["p"] % len(params)], pamset_carbon=carbon),
                        runcfg("dict_nc" if nc else "dict", "", ""))
                    if isinstance(ref, oracle.RefError):
                        if exc is None:
                            r.violate("%s returned, alone it raises %r" % (label, ref))
                            return
                    elif exc is not None:
                        r.violate("%s raised %s" % (label, sim.short(exc)))
                        return
                    elif op["form"] != "files":
                        d = oracle.diff_results(model[0].results, ref)
                        r.note(model[0].results)
                        if d:
                            r.violate("%s on instance %d from the same tables: %s" % (
                                label, objs.index(model), d))
                            return
            elif op["op"] == "make" and exc is not None and not hit:
                r.violate("%s raised %s" % (label, sim.short(exc)))
                return
            elif op["op"] == "ensemble":
                if variables != var0 or len(scens) != len(scens0) or any(
                        a is not b for a, b in zip(scens, scens0)) or any(
                            a is not b for a, b in zip(sample, sample0)) or \
                        len(sample) != len(sample0):
                    r.violate("lists of the caller changed by " + label)
                    return
                for now, old in zip(scens[1:], second):
                    d = changed(now, old)
                    if d:
                        r.violate("second scenario changed by %s: %s" % (label, d))
                        return
                if exc is None:
                    d = oracle.check_ensemble(
                        got, specs, [dict(plan["params"][i % len(params)], Index="c%d" % i)
                                   for i in range(op["n"])], variables)
                    r.note(got)
                    if d:
                        r.violate("%s: %s" % (label, d))
                        return
                elif not hit and not any(isinstance(oracle.single(
                        s, dict(pp))[0], oracle.RefError) for pp in plan["params"]):
                    r.violate("%s raised %s" % (label, sim.short(exc)))
                    return
                r.probe("ensembles")
        r.nontrivial = made >= 2
        r.probe("instances", made)
    return sim.simulate(body, plan)


def _ensemble(r, ns, op, k, scens, sample, variables):
    """The call of the ensemble runner"""
    via = op.get("via", "direct")
    if via == "direct":
        return lambda: ns.run_ciceroscm_parallel(scens, sample, variables,
                                                 max_workers=op["workers"])
    path = r.path("cfgs%d.json" % k)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(sample, f)

    def fn():
        dr = ns.DistributionRun(None, json_file_name=path)
        return dr.run_over_distribution(
            scens[0] if via == "dict" and len(scens) == 1 else scens, variables,
            max_workers=op["workers"])
    return fn


def _lines(plan, op):
    """Lines an operation goes through, from a reference"""
    s = plan["spec"]
    if op["op"] == "make":
        import shutil
        import tempfile
        from .c05 import _make_lines
        d = tempfile.mkdtemp(prefix="cscmref")
        try:
            return _make_lines(s, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    p = plan["params"][op.get("p", 0) % len(plan["params"])]
    return oracle.single(s, p, runcfg("dict", "", ""), count=True)[1]


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op["cut"]:
            yield dict(plan, ops=ops[:i] + [dict(op, cut=None)] + ops[i + 1:])
        if op["look"]:
            yield dict(plan, ops=ops[:i] + [dict(op, look=[])] + ops[i + 1:])
        for key, plain in (("vars", []), ("second", None), ("via", "direct")):
            if op.get(key, plain) != plain:
                yield dict(plan, ops=ops[:i] + [dict(op, **{key: plain})] + ops[i + 1:])
    if plan.get("tables"):
        yield dict(plan, tables=None)
    if plan["samedict"]:
        yield dict(plan, samedict=False)
    for i, p in enumerate(plan["params"]):
        for n in scen.simpler_params(p):
            yield dict(plan, params=plan["params"][:i] + [n] + plan["params"][i + 1:])
    for n in scen.simpler(plan["spec"]):
        yield dict(plan, spec=n)
