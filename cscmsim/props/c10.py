"""C10: sampled ensembles are well-formed for every random outcome"""

import copy

from .. import distro, env, oracle, sim

LEVEL = "exploration"
RULE = ("a run makes one to three distributions and draws two to five ensembles from them, "
        "whole or in chunks, with the random generators seeded by the run or delivering the "
        "ends of their range, and with changes to ensembles already handed out; "
        "non-trivial: at least two ensembles were drawn; distinct: different ensembles")
REAL = ["ciceroscm.parallel (_configdistro, distributionrun)", "scipy.stats.qmc, numpy"]
STUB = ["seeds of the random generators; in extreme runs their output"]
RUNS = {"quick": 9000, "thorough": 300000}


def gen(rng, tier):
    n = rng.choice([1, 1, 2, 3])
    dists = []
    for _ in range(n):
        d = distro.gen(rng)
        if dists and rng.random() < 0.3:
            d = copy.deepcopy(dists[0])
        dists.append(d)
    ops = []
    for _ in range(rng.randint(2, 5)):
        num = rng.choice([1, 2, 3, 5, 8, 10, 17, 30, rng.randint(1, 60)])
        i = rng.randrange(n)
        if dists[i]["method"] == "gaussian" and rng.random() < 0.3:
            num = rng.randint(400, 700)
            if rng.random() < 0.06 and len(dists[i]["prior"] or range(9)) < 4:
                num = 10000
        ops.append({"op": "sample", "dist": i, "n": num, "pre": rng.choice(["", "a_", "x"]),
                    "chunk": rng.choice([None, None, 1, 2, num, num + 1, max(1, num - 1),
                                          max(1, num // 2), rng.randint(1, num)]),
                    "via": rng.choice(["make", "make", "run"]),
                    "new": rng.random() < 0.2})
        if rng.random() < 0.3:
            ops.append({"op": "scribble", "seed": rng.randrange(1000)})
    return {"sched_seed": rng.randrange(1 << 30), "dists": dists, "ops": ops,
            "extreme": rng.choice([None, None, None, None, "low", "high"])}


_pristine = {}


def _defaults():
    """Default priors and set values of a newly imported package"""
    if not _pristine:
        m = env.Namespace()["parallel._configdistro"]
        _pristine["prior"] = copy.deepcopy(m.prior_flat)
        _pristine["set"] = copy.deepcopy(m.set_values_default)
    return _pristine["prior"], _pristine["set"]


def run(plan):
    def body(r):
        prior0, set0 = _defaults()
        ns = env.Namespace()
        objs = {}
        drawn = []
        held = []
        ndraw = 0
        with distro.random_seam(plan["sched_seed"], plan["extreme"]) as used:
            for k, op in enumerate(plan["ops"]):
                r.log("op", k, *("%s=%s" % (x, op[x]) for x in sorted(op)))
                if op["op"] == "scribble":
                    if held:
                        lst = held.pop(op["seed"] % len(held))[0]
                        for c in distro.flatten(lst):
                            for g in distro.GROUPS:
                                for p in list(c[g]):
                                    c[g][p] = -999.0
                                c[g]["extra"] = 1
                            c["Index"] = "gone"
                        r.count("fault:scribble")
                    continue
                d = plan["dists"][op["dist"]]
                pri, fixed = distro.sampled(d, prior0, set0)
                if not pri:
                    continue
                with ns.active():
                    if op["dist"] not in objs or op["new"]:
                        objs[op["dist"]] = distro.make(ns, d)
                    ob = objs[op["dist"]]
                    try:
                        if op["via"] == "run":
                            got = ns.DistributionRun(ob, indexer_pre=op["pre"],
                                                     numvalues=op["n"]).cfgs
                        elif op["chunk"] is None:
                            got = ob.make_config_lists(op["n"], indexer_pre=op["pre"])
                        else:
                            got = ob.make_config_lists(op["n"], indexer_pre=op["pre"],
                                                       max_chunk_size=op["chunk"])
                    except Exception as exc:  # pylint: disable=broad-except
                        r.violate("operation %d raised %s" % (k, sim.short(exc)))
                        return
                ndraw += 1
                flat = distro.flatten(got)
                if op["via"] == "make" and op["chunk"] is not None:
                    sizes = [len(x) for x in got if isinstance(x, list)]
                    if op["chunk"] < op["n"] and len(sizes) < len(got):
                        r.violate("not split into chunks of at most %d" % op["chunk"])
                        return
                    if sizes and max(sizes) > op["chunk"]:
                        r.violate("chunk of %d, at most %d allowed" % (max(sizes), op["chunk"]))
                        return
                    r.probe("chunked")
                r.note(flat)
                method = d["method"] or "latin"
                e = distro.check(flat, op["n"], pri, fixed, method, bool(plan["extreme"]))
                if e:
                    r.violate("operation %d (%s): %s" % (k, method, e))
                    return
                for lst, old, at in held:
                    e = oracle.same(lst, old, "cfgs")
                    if e:
                        r.violate("ensemble of operation %d changed in %d: %s" % (at, k, e))
                        return
                if not plan["extreme"]:
                    vals = {p: tuple(c[distro.find(c, p)[0]][p] for c in flat) for p in pri}
                    for prev in drawn:
                        for p, v in vals.items():
                            if prev.get(p) == v:
                                r.violate("operation %d drew the same sample of %s as an "
                                          "earlier one" % (k, p))
                                return
                    drawn.append(vals)
                held.append((got, copy.deepcopy(got), k))
                r.probe("ensembles " + method)
            r.count("generators", used[0])
        r.count("fault:extreme_random", int(bool(plan["extreme"])))
        r.nontrivial = ndraw >= 2
    return sim.simulate(body, plan)


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan["extreme"]:
        yield dict(plan, extreme=None)
    for i, op in enumerate(ops):
        if op["op"] == "sample":
            for k, v in (("chunk", None), ("via", "make"), ("new", False), ("pre", "")):
                if op[k] != v:
                    yield dict(plan, ops=ops[:i] + [dict(op, **{k: v})] + ops[i + 1:])
            if 1 < op["n"] < 400:
                yield dict(plan, ops=ops[:i] + [dict(op, n=op["n"] // 2)] + ops[i + 1:])
    for i, d in enumerate(plan["dists"]):
        for key in ("prior", "set"):
            if d[key]:
                for p in d[key]:
                    new = copy.deepcopy(d)
                    del new[key][p]
                    if new["prior"] != {}:
                        yield dict(plan, dists=plan["dists"][:i] + [new] + plan["dists"][i + 1:])
