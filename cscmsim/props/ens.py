"""Ensembles: common parts of C01 and C02"""

import copy
import json

from .. import env, oracle, scen


def gen_call(rng, max_members=10, kinds=None, small=False):
    """One call of the ensemble runner"""
    nscen = rng.choice([1, 1, 2, 2, 3, 4])
    kinds = kinds or rng.choice([("emis",), ("conc",), ("forc",), ("forc", "emis"),
                                 ("emis", "conc"), ("emis", "conc")])
    specs = []
    for i in range(nscen):
        if specs and rng.random() < 0.4:  # another version of the same scenario
            s = copy.deepcopy(specs[0])
            s["scale"] = {rng.choice(scen.SPICY): round(rng.uniform(0.5, 2), 3)}
            s["pert_em"] = None
        else:
            s = scen.gen_scen(rng, kinds=kinds)
        s["name"] = "%s%d" % (rng.choice(["b", "a", "ssp", "Z"]), i)
        specs.append(s)
    if rng.random() < 0.12:  # scenarios are told apart by position, not by name
        for s in specs:
            s["name"] = specs[0]["name"]
    if any(s["kind"] == "forc" for s in specs) and rng.random() < 0.6:
        # many cheap members
        specs = [s for s in specs if s["kind"] == "forc"]
        for s in specs:
            s["y1"] = s["y0"] + rng.randint(3, 6)
        max_members = 24
    ncfg = max(1, min(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]),
                      max_members // len(specs)))
    big = all(s["kind"] == "forc" for s in specs) and rng.random() < 0.15
    if big:  # many small jobs
        specs = specs[:2]
        for s in specs:
            s["y1"] = s["y0"] + rng.randint(1, 3)
        ncfg = rng.randint(30, 110) // len(specs)
    pool = [_member(rng, specs) for _ in range(max(1, min(ncfg, rng.choice([1, 2, 3, 6]))))]
    cfgs = []
    for i in range(ncfg):
        c = copy.deepcopy(rng.choice(pool))
        for k in ("pamset_emiconc", "pamset_carbon"):
            if rng.random() < 0.12:
                c.pop(k)
        c["Index"] = "%s%d" % (rng.choice(["", "x", "m_"]), rng.choice([i, 100 - i]))
        cfgs.append(c)
    seen = set()
    for i, c in enumerate(cfgs):
        if c["Index"] in seen:
            c["Index"] += "_%d" % i
        seen.add(c["Index"])
    if rng.random() < 0.1:  # numbers as names
        for i, c in enumerate(cfgs):
            c["Index"] = rng.choice([0, 1, 7]) + 9 * (len(cfgs) - i if len(cfgs) % 2 else i)
    avail = oracle.common_variables(specs)
    nvar = min(len(avail), rng.choice([1, 2, 3, 5, 8]))
    gases = [v for v in avail if "Gases|" in v]
    if gases and rng.random() < 0.75:  # mostly a few gases only
        drop = set(gases) - set(rng.sample(gases, 4))
        avail = [v for v in avail if v not in drop]
    variables = rng.sample(avail, min(nvar, len(avail)))
    if rng.random() < 0.08:  # the same one asked for twice
        variables.insert(rng.randrange(len(variables) + 1), rng.choice(variables))
    if rng.random() < 0.25:
        variables.insert(rng.randrange(len(variables) + 1), rng.choice(oracle.UNKNOWN))
    return {"specs": specs, "cfgs": cfgs, "vars": variables,
            "workers": rng.choice([1, 3, 8, 16, 40, 64] if big else
                                  [1, 2, 2, 3, 4, 4, 5, 6, 8, 12]),
            "via": rng.choice(["direct", "direct", "distro", "distro1"])}


def gen_again(rng, first):
    """A call like an earlier one, with some of it changed"""
    c = copy.deepcopy(first)
    c["workers"] = rng.choice([1, 1, first["workers"], 2, 3])
    c["specs"] = c["specs"][:2]
    for s in c["specs"]:
        x = rng.random()
        if x < 0.5:
            s["scale"] = {rng.choice(scen.SPICY): round(rng.uniform(0.5, 2), 3)}
            s["pert_em"] = None
        elif x < 0.7:
            s["thermal"] = "default" if s["thermal"] == "twolayer" else s["thermal"]
            s["sunvolc"] = 1 - s["sunvolc"]
            s["idtm"] = 6 if s["idtm"] != 6 else 12
        elif x < 0.85 and s["kind"] != "forc":
            s["nat"] = "flat" if s["nat"] != "flat" else "data"
            s["src"] = "data"
    c["cfgs"] = c["cfgs"][:max(1, 4 // len(c["specs"]))]
    avail = oracle.common_variables(c["specs"])
    c["vars"] = [v for v in c["vars"] if v in avail] or avail[:2]
    return c


def _member(rng, specs):
    p = scen.gen_params(rng, rng.choice(specs))
    if p["pamset_emiconc"]:
        p["pamset_emiconc"].pop("ref_yr", None)
    if rng.random() < 0.5:
        p["pamset_carbon"] = None
    if p["pamset_carbon"] and any(s["carbon"] != "default" for s in specs):
        # only what all the carbon cycle models know
        p["pamset_carbon"] = {k: v for k, v in p["pamset_carbon"].items() if k in scen.BOX}
    return {k: v for k, v in p.items()}


def call(ns, c, run, tag):
    """Do the call on namespace ns; returns the table"""
    scendata = [scen.build(s, run.path("in%s_%d" % (tag, i)))
                for i, s in enumerate(c["specs"])]
    cfgs = copy.deepcopy(c["cfgs"])
    variables = list(c["vars"])
    with ns.active():
        if c["via"] == "direct":
            return ns.run_ciceroscm_parallel(scendata, cfgs, variables,
                                             max_workers=c["workers"])
        path = run.path("cfgs%s.json" % tag)
        with open(path, "w", encoding="utf-8") as f:
            json.dump(cfgs, f)
        dr = ns.DistributionRun(None, path)
        if c["via"] == "distro1" and len(scendata) == 1:
            scendata = scendata[0]
        return dr.run_over_distribution(scendata, variables, max_workers=c["workers"])


def check(df, c):
    return oracle.check_ensemble(df, c["specs"], c["cfgs"], c["vars"])


def impossible(c):
    """Can some member not be calculated on its own either?"""
    return any(isinstance(oracle.single(s, {k: v for k, v in m.items() if k != "Index"})[0],
                          oracle.RefError) for s in c["specs"] for m in c["cfgs"])


def shrink_call(c):
    """Smaller versions of a call"""
    for part in ("specs", "cfgs", "vars"):
        if len(c[part]) > 1:
            half = len(c[part]) // 2
            for keep in (c[part][:half], c[part][half:]):
                yield dict(c, **{part: keep})
            for i in range(len(c[part])):
                yield dict(c, **{part: c[part][:i] + c[part][i + 1:]})
    if c["workers"] > 1:
        yield dict(c, workers=c["workers"] - 1)
    if c["via"] != "direct":
        yield dict(c, via="direct")
    for i, cfg in enumerate(c["cfgs"]):
        for k in ("pamset_udm", "pamset_emiconc", "pamset_carbon"):
            if cfg.get(k) and k != "pamset_udm":
                new = copy.deepcopy(c["cfgs"])
                new[i][k] = {}
                yield dict(c, cfgs=new)
    for i, s in enumerate(c["specs"]):
        for k, v in (("pert_em", None), ("pert_forc", None), ("scale", {}), ("sunvolc", 0),
                     ("nat", "flat"), ("src", "data"), ("gas", "v1")):
            if s.get(k) != v and s.get(k):
                new = copy.deepcopy(c["specs"])
                new[i][k] = v
                yield dict(c, specs=new)
