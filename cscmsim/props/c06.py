"""C06: model instances used in concurrent threads do not affect each other"""

import copy
import os
import random

from .. import distro, env, oracle, outfiles, scen, sim, trace, vfs
from . import ens
from .c04 import runcfg
from .c09 import _nonempty
from .c10 import _defaults

LEVEL = "exploration"
RULE = ("a run interleaves two or three threads, each making and running model instances, "
        "serial ensembles or samples, switching at chosen lines of the code and at file "
        "operations; non-trivial: control changed between unfinished threads at least ten "
        "times; distinct: different sequence of switches")
REAL = ["ciceroscm package in real threads, one running at a time", "pandas, numpy, scipy",
        "files in a scratch folder"]
STUB = ["thread scheduler (switches at lines of the package and file operations only)",
        "locks made by the package", "clock", "seeds of random generators"]
RUNS = {"quick": 230, "thorough": 12000}


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3])
    specs = [scen.gen_scen(rng, kinds=("emis", "emis", "conc", "conc", "forc"), name="t0", wide=0.0)]
    if rng.random() < 0.5:
        s = scen.gen_scen(rng, name="t1", wide=0.0)
    else:
        s = copy.deepcopy(specs[0])
        s["name"] = "t1"
        s["scale"] = {rng.choice(scen.SPICY): round(rng.uniform(0.5, 2), 3)}
    specs.append(s)
    for s in specs:
        if s["kind"] != "forc" and rng.random() < 0.7:  # the fewer steps, the more races
            s["idtm"] = 2
            s["y0"], s["em"] = rng.choice([1999, 2000]), 2001
            for k in ("pert_em", "pert_forc"):
                if s[k]:
                    s[k] = [x for x in s[k] if x[1] >= s["y0"]] or None
    pools = [[scen.gen_params(rng, s) for _ in range(2)] for s in specs]
    threads = []
    for t in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(2)
            x = rng.random()
            if x < 0.62:
                ops.append({"op": "model", "spec": i, "share": rng.random() < 0.7,
                            "runs": [{"params": copy.deepcopy(
                                rng.choice(pools[i]) if rng.random() < 0.3
                                else scen.gen_params(rng, specs[i])),
                                "form": rng.choice(["dict", "files", "files", "files_nc"])}
                                for _ in range(rng.choice([1, 1, 2]))]})
            elif x < 0.82:
                c = ens.gen_call(rng, max_members=3, kinds=("emis", "conc"))
                c["workers"], c["via"] = 1, "direct"
                ops.append({"op": "ensemble", "call": c})
            else:
                ops.append({"op": "sample", "dist": _nonempty(distro.gen(rng)),
                            "n": rng.choice([3, 8, 20]),
                            "chunk": rng.choice([None, None, 4])})
        threads.append(ops)
    quantum, rare = rng.choice([(-1, 0.01), (-1, 0.03), (-1, 0.1), (0, 0.0), (0, 0.03),
                                (0, 0.2), (3, 0.0), (10, 0.0), (30, 0.0), (100, 0.1),
                                (1000, 0.1), (4000, 0.1)])
    return {"sched_seed": rng.randrange(1 << 30), "specs": specs, "threads": threads,
            "folders": rng.choice(["one", "each", "rel", "rel"]), "relin": rng.random() < 0.5,
            "quantum": quantum, "rare": rare}


def _shared(cfg):
    """Own dictionary, same tables"""
    return dict(cfg)


def run(plan):
    def body(r):
        with trace.patch_locks():
            ns = env.Namespace()
        out = []  # (folder as given, folder)
        for t in range(len(plan["threads"])):
            full = {"one": r.path("out"), "each": r.path("out%d" % t),
                    "rel": r.path("cwd", "out%d" % t)}[plan["folders"]]
            out.append(("out%d" % t if plan["folders"] == "rel" else full, full))
            os.makedirs(full, exist_ok=True)

        def rel(cfg):
            """Relative names of input files"""
            if plan["relin"]:
                for k in cfg:
                    if k.endswith("_file"):
                        cfg[k] = os.path.relpath(cfg[k])
            return cfg

        shared = [rel(scen.build(s, r.path("in%d" % i)))
                  for i, s in enumerate(plan["specs"])]
        frozen = oracle.frozen(shared)
        prior0, set0 = _defaults()
        results = []  # (thread, label, kind, data)
        cfgs = {}
        for t, ops in enumerate(plan["threads"]):
            for k, op in enumerate(ops):
                if op["op"] == "model":
                    i = op["spec"]
                    cfgs[t, k] = (_shared(shared[i]) if op["share"] else
                                  rel(scen.build(plan["specs"][i],
                                                 r.path("own%d_%d" % (t, k)))))
                elif op["op"] == "ensemble":
                    c = op["call"]
                    cfgs[t, k] = [rel(scen.build(s, r.path("ens%d_%d_%d" % (t, k, i))))
                                  for i, s in enumerate(c["specs"])]

        def thread(t):
            def fn():
                for k, op in enumerate(plan["threads"][t]):
                    if op["op"] == "model":
                        m = ns.CICEROSCM(cfgs[t, k])
                        for j, ru in enumerate(op["runs"]):
                            m._run(runcfg(ru["form"], out[t][0], "t%d_%d_%d" % (t, k, j)),
                                   **scen.fresh(ru["params"]))
                            results.append((t, k, j, m.results))
                    elif op["op"] == "ensemble":
                        c = op["call"]
                        results.append((t, k, 0, ns.run_ciceroscm_parallel(
                            cfgs[t, k], copy.deepcopy(c["cfgs"]), list(c["vars"]),
                            max_workers=1)))
                    else:
                        d = distro.make(ns, op["dist"])
                        kw = {} if op["chunk"] is None else {"max_chunk_size": op["chunk"]}
                        results.append((t, k, 0, d.make_config_lists(op["n"], **kw)))
            return fn

        il = trace.Interleaver(random.Random(plan["sched_seed"]), plan["quantum"], log=r.log,
                               rare=plan["rare"])
        fs = vfs.SimFS([], [r.dir])
        with ns.active(), distro.random_seam(plan["sched_seed"]), fs.installed():
            res = il.run([thread(t) for t in range(len(plan["threads"]))])
        r.count("switches", il.switches)
        r.count("lines", il.lines)
        r.nontrivial = il.switches >= 10
        done = {}
        for t, k, j, x in results:
            done[t, k, j] = x
        for t, (what, exc) in enumerate(res):
            if what == "abort":
                raise sim.HarnessError("thread was aborted")
            bad = _expect_error(plan["threads"][t], plan["specs"], prior0, set0)
            if what == "exc" and not bad:
                r.violate("thread %d raised %s" % (t, sim.short(exc)))
                return
            if what == "ok" and bad:
                r.violate("thread %d returned, alone it raises %r" % (t, bad))
                return
        for (t, k, j), x in sorted(done.items()):
            op = plan["threads"][t][k]
            label = "thread %d operation %d" % (t, k)
            d = None
            if op["op"] == "model":
                s = plan["specs"][op["spec"]]
                carbon = None
                for ru in op["runs"][:j + 1]:
                    carbon = scen.merge_carbon(carbon, ru["params"]["pamset_carbon"])
                ru = op["runs"][j]
                nc = ru["form"].endswith("_nc")
                ref, _ = oracle.single(s, dict(ru["params"], pamset_carbon=carbon),
                                       runcfg("dict_nc" if nc else "dict", "", ""))
                if isinstance(ref, oracle.RefError):
                    continue
                if ru["form"].startswith("files"):
                    d = outfiles.check(out[t][1], "t%d_%d_%d" % (t, k, j), s, ref, not nc)
                else:
                    d = oracle.diff_results(x, ref)
                    r.note(x)
                r.probe("model runs")
            elif op["op"] == "ensemble":
                d = ens.check(x, op["call"])
                r.note(x)
                r.probe("ensembles")
            else:
                pri, fixed = distro.sampled(op["dist"], prior0, set0)
                d = distro.check(distro.flatten(x), op["n"], pri, fixed,
                                 op["dist"]["method"] or "latin")
                r.probe("samples")
            if d:
                r.violate("%s (%s): %s" % (label, op["op"], d))
                return
        for i, s in enumerate(shared):
            d = oracle.same(s, frozen[i], "inputs")
            if d:
                r.violate("shared tables: " + d)
                return
    return sim.simulate(body, plan)


def _expect_error(ops, specs, prior0, set0):
    for op in ops:
        if op["op"] == "model":
            carbon = None
            for ru in op["runs"]:
                carbon = scen.merge_carbon(carbon, ru["params"]["pamset_carbon"])
                ref, _ = oracle.single(specs[op["spec"]],
                                       dict(ru["params"], pamset_carbon=carbon),
                                       runcfg("dict_nc" if ru["form"].endswith("_nc")
                                              else "dict", "", ""))
                if isinstance(ref, oracle.RefError):
                    return ref
    return None


def shrink(plan):
    th = plan["threads"]
    if len(th) > 2:
        for i in range(len(th)):
            yield dict(plan, threads=th[:i] + th[i + 1:])
    for i, ops in enumerate(th):
        if len(ops) > 1:
            for j in range(len(ops)):
                yield dict(plan, threads=th[:i] + [ops[:j] + ops[j + 1:]] + th[i + 1:])
        for j, op in enumerate(ops):
            alts = []
            if op["op"] == "model" and len(op["runs"]) > 1:
                alts += [dict(op, runs=op["runs"][:m] + op["runs"][m + 1:])
                         for m in range(len(op["runs"]))]
            if op["op"] == "model":
                for m, ru in enumerate(op["runs"]):
                    for p in scen.simpler_params(ru["params"]):
                        alts.append(dict(op, runs=op["runs"][:m] + [dict(ru, params=p)]
                                         + op["runs"][m + 1:]))
            if op["op"] == "ensemble":
                alts += [dict(op, call=c) for c in ens.shrink_call(op["call"])]
            for a in alts:
                yield dict(plan, threads=th[:i] + [ops[:j] + [a] + ops[j + 1:]] + th[i + 1:])
    for i, s in enumerate(plan["specs"]):
        for n in scen.simpler(s):
            yield dict(plan, specs=plan["specs"][:i] + [n] + plan["specs"][i + 1:])
    if plan["folders"] != "one":
        yield dict(plan, folders="one")
    if plan["relin"]:
        yield dict(plan, relin=False)
    if plan["rare"] and plan["quantum"] >= 0:
        yield dict(plan, rare=0.0)
    for q in (1000, 4000):
        if 0 < plan["quantum"] < q:
            yield dict(plan, quantum=q)
