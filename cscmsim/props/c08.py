"""C08: output files of a finished run are complete and correct"""

import contextlib
import os

from .. import env, oracle, outfiles, plots, scen, sim, trace, vfs
from ..world import make_exc
from .c04 import runcfg as c04cfg

LEVEL = "fault_enumeration"
RULE = ("a run does two to four model runs that write files, over older files of the same "
        "and other names, with failing or partial file operations, errors on closing, a "
        "missing folder, interrupts or a crash, then again without faults; files are read "
        "back and compared with the results of a reference run; non-trivial: a run "
        "returned and its files were compared; distinct: different event log")
REAL = ["ciceroscm package", "pandas text output, buffered and text io", "file contents in a "
        "scratch folder"]
STUB = ["lowest layer of open() (faults, partial transfers, crash)", "clock"]
RUNS = {"quick": 720, "thorough": 30000}

FOLDERS = ["abs", "abs", "rel", "default", "deep", "relup"]
PREFIXES = ["p", "run", "run_a", "x.y", None, "é", "output", "_p_", "v1.5", ".p", "a b", "50%",
            "{p}", "P", "0"]


def gen(rng, tier):
    specs = [scen.gen_scen(rng, kinds=("emis", "conc", "forc", "forc"), name="s0")]
    if rng.random() < 0.4:
        specs.append(scen.gen_scen(rng, kinds=("emis", "conc", "forc"), name="s1"))
    ops = []
    pairs = [(rng.choice(FOLDERS), rng.choice(PREFIXES)) for _ in range(rng.choice([1, 1, 2]))]
    for k in range(rng.choice([1, 2, 2, 3])):
        i = rng.randrange(len(specs))
        f, p = rng.choice(pairs)
        op = {"spec": i, "folder": f, "prefix": p, "carbon": rng.random() < 0.6,
              "params": scen.gen_params(rng, specs[i]), "fs": [], "line": None,
              "nofolder": False, "retry": True, "plot": rng.random() < 0.08}
        x = rng.random()
        if x < 0.55:
            op["fs"] = [_fault(rng, op["plot"])]
        elif x < 0.65:
            op["line"] = [rng.randrange(260), rng.choice(["KeyboardInterrupt", "MemoryError"])]
        elif x < 0.7 and f in ("abs", "deep", "default"):
            op["nofolder"] = True
        else:
            op["retry"] = rng.random() < 0.3
        ops.append(op)
    return {"sched_seed": rng.randrange(1 << 30), "specs": specs, "ops": ops,
            "stale": rng.choice(["none", "long", "long", "short", "binary"])}


def _fault(rng, plot=False):
    n = rng.randrange(20 if plot else 9)
    exc = rng.choice(["ENOSPC", "EIO", "EACCES", "EROFS", "MemoryError", "KeyboardInterrupt",
                      "EDQUOT", "EPERM", "ETIMEDOUT", "ESTALE", "EFBIG", "ENOENT", "EISDIR"])
    k = rng.choice(["open_error", "write_error", "write_error", "write_error", "close_error",
                    "close_error", "crash", "short_io", "replace_error", "disk_full",
                    "disk_full"])
    f = {"kind": k, "n": n, "exc": exc, "dir": "w", "seed": rng.randrange(1000),
         "sticky": rng.random() < 0.4}
    if k == "disk_full":
        f["room"] = rng.choice([0, rng.randrange(3000), rng.randrange(30000)])
    if k == "write_error":
        f["after"] = rng.choice([0, rng.randrange(300), rng.randrange(3000)])
    elif k == "close_error":
        f["drop"] = rng.choice([0, 5, 500, 10000])
    elif k == "crash":
        f["op"] = rng.randint(1, 70 if plot else 30)
        f["keep"] = rng.randrange(1 << 20)
    return f


def _folder(r, op):
    return {"abs": (r.path("out"), r.path("out")),
            "deep": (r.path("d1", "d.2"), r.path("d1", "d.2")),
            "rel": ("results", r.path("cwd", "results")),
            "relup": ("../up", r.path("up")),
            "default": (None, r.path("cwd", "output"))}[op["folder"]]


def _snapshot(r):
    out = {}
    for base, dirs, files in os.walk(r.dir):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


def run(plan):
    def body(r):
        ns = env.Namespace()
        specs = plan["specs"]
        models, carbon = {}, {}
        compared = 0
        for op in plan["ops"]:
            d = _folder(r, op)[1]
            os.makedirs(d, exist_ok=True)
            pfx = op["prefix"] or "output"
            for extra in ("other_ohc.txt", pfx + "2_ohc.txt", pfx[:-1] + "_temp.txt",
                          "notes.md", pfx + ".txt", "ohc.txt"):
                with open(os.path.join(d, extra), "w", encoding="utf-8") as f:
                    f.write("keep %s\n" % extra)
            if plan["stale"] != "none":
                data = {"long": b"Year\told\n" + b"1\t2.00000e+00\n" * 3000,
                        "short": b"", "binary": b"\0\xff" * 50}[plan["stale"]]
                for nm in outfiles.names(pfx, specs[op["spec"]], True):
                    with open(os.path.join(d, nm), "wb") as f:
                        f.write(data)
        for k, op in enumerate(plan["ops"]):
            s = specs[op["spec"]]
            arg, full = _folder(r, op)
            pfx = op["prefix"] or "output"
            cfg = {}
            if arg is not None:
                cfg["output_folder"] = arg
            if op["prefix"] is not None:
                cfg["output_prefix"] = op["prefix"]
            if op["carbon"]:
                cfg["carbon_cycle_outputs"] = True
            if op["nofolder"]:
                os.rename(full, full + ".away")
            for attempt in range(2 if op["retry"] else 1):
                first = attempt == 0
                i = op["spec"]
                with ns.active():
                    if i not in models:
                        models[i] = ns.CICEROSCM(scen.build(s, r.path("in%d" % i)))
                        carbon[i] = {}
                m = models[i]
                carbon[i] = scen.merge_carbon(carbon[i], op["params"]["pamset_carbon"])
                eff = dict(op["params"], pamset_carbon=carbon[i])
                ref, n = oracle.single(s, eff, c04cfg("dict" if op["carbon"] else "dict_nc",
                                                      "", ""),
                                       count=bool(op["line"]))
                before = _snapshot(r)
                fs = vfs.SimFS(op["fs"] if first else [], [r.dir], log=r.log)
                hit = []
                more = {"make_plot": True} if op["plot"] else {}
                exc = crash = None
                try:
                    with ns.active(), fs.installed(), \
                            plots.captured() if op["plot"] else contextlib.nullcontext():
                        if op["line"] and first:
                            at = max(0, n.n - 60 + op["line"][0])
                            with trace.raise_at_line(at, make_exc(op["line"][1]), where=hit):
                                m._run(dict(cfg), **more, **scen.fresh(op["params"]))
                        else:
                            m._run(dict(cfg), **more, **scen.fresh(op["params"]))
                except vfs.SimCrash as e:
                    crash = e
                except sim.PASS:
                    raise
                except BaseException as e:  # pylint: disable=broad-except
                    exc = e
                for key, v in fs.stats.items():
                    r.count(key, v)
                if hit:
                    r.count("fault:interrupt")
                fired = [f["kind"] for f in fs.fired] + (["interrupt"] if hit else [])
                label = "run %d%s after %s" % (k, "" if first else " again",
                                               fired or "no fault")
                r.log(label, "crash" if crash else "ok" if exc is None else type(exc).__name__)
                if fs.dead:
                    for f in op["fs"]:
                        if f["kind"] == "crash":
                            fs.after_crash(f["keep"])
                    models, carbon = {}, {}
                    ns = env.Namespace()
                    continue
                missing = op["nofolder"] and first
                if missing:
                    r.count("fault:no_folder")
                    if os.path.isdir(full):  # the run made the folder
                        after = _snapshot(r)
                        for p in before:
                            if not p.startswith(full + ".away") and after.get(p) != before[p]:
                                r.violate("%s: %s was changed" % (label, p[len(r.dir):]))
                                return
                        import shutil
                        bad = None
                        if exc is None:  # plots are left out if there was no folder
                            bad = outfiles.check(full, pfx, s, ref, op["carbon"])
                        shutil.rmtree(full)
                        if bad:
                            r.violate("%s returned: %s" % (label, bad))
                            return
                    elif exc is None and not isinstance(ref, oracle.RefError):
                        r.violate("%s returned although the folder does not exist" % label)
                        return
                    os.rename(full + ".away", full)
                    continue
                allowed = {os.path.join(full, nm) for nm in outfiles.names(pfx, s, op["carbon"])}
                if op["plot"]:
                    allowed |= {os.path.join(full, "plots", nm) for nm in plots.names(s)}
                after = _snapshot(r)
                for p, data in before.items():
                    if p not in allowed and after.get(p) != data:
                        r.violate("%s: %s was changed" % (label, p[len(r.dir):]))
                        return
                if exc is not None:
                    r.probe("raised " + type(exc).__name__)
                    if not fired and not isinstance(ref, oracle.RefError):
                        r.violate("%s raised %s" % (label, sim.short(exc)))
                        return
                    if hit:  # carbon parameters in force are not known any more
                        models.pop(i)
                    continue
                if isinstance(ref, oracle.RefError):
                    r.violate("%s returned, alone it raises %r" % (label, ref))
                    return
                for p in after:
                    if p not in before and p not in allowed:
                        r.violate("%s: made file %s" % (label, p[len(r.dir):]))
                        return
                d = outfiles.check(full, pfx, s, ref, op["carbon"])
                if op["plot"]:
                    d = d or plots.check(os.path.join(full, "plots"), s, ref)
                    r.probe("plots compared")
                compared += 1
                if d:
                    r.violate("%s returned: %s" % (label, d))
                    return
                r.probe("files compared", len(allowed))
                if fired:
                    r.probe("returned although a fault fired")
        r.nontrivial = compared > 0
        for i, m in models.items():
            r.note(m.results)
    return sim.simulate(body, plan)


def shrink(plan):
    ops = plan["ops"]
    if len(ops) > 1:
        for i in range(len(ops)):
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
    if plan["stale"] != "none":
        yield dict(plan, stale="none")
    for i, op in enumerate(ops):
        for k, v in (("fs", []), ("line", None), ("nofolder", False), ("retry", False), ("plot", False),
                     ("carbon", False), ("folder", "abs"), ("prefix", "p")):
            if op[k] != v:
                yield dict(plan, ops=ops[:i] + [dict(op, **{k: v})] + ops[i + 1:])
        for p in scen.simpler_params(op["params"]):
            yield dict(plan, ops=ops[:i] + [dict(op, params=p)] + ops[i + 1:])
    for i, s in enumerate(plan["specs"]):
        for n in scen.simpler(s):
            yield dict(plan, specs=plan["specs"][:i] + [n] + plan["specs"][i + 1:])
