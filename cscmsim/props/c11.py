"""C11: failing or incomplete input files never become results"""

import copy
import os
import random

from .. import env, oracle, scen, sim, vfs
from .c04 import runcfg

LEVEL = "fault_enumeration"
RULE = ("a run makes and runs a model (or a serial ensemble) from files, with up to two "
        "faults: opening or reading a file fails, reads are split up, a file is missing, "
        "empty or ends early at a record boundary or lacks a year, or files are changed "
        "after the instance was made; then again without faults; the outcome is an error or "
        "exactly the results from the complete files; non-trivial: a fault took effect; "
        "distinct: different event log and results")
REAL = ["ciceroscm package with its default data files", "pandas and numpy readers, buffered "
        "and text io"]
STUB = ["lowest layer of open() (faults, partial reads)", "clock"]
RUNS = {"quick": 1300, "thorough": 40000}

TRUNC = ["emissions", "concentrations", "nat_ch4", "nat_n2o", "rf_sun", "rf_volc_n",
         "rf_volc_s", "rf_luc", "forc"]


def gen(rng, tier):
    s = scen.gen_scen(rng, kinds=("emis", "emis", "conc", "conc", "forc"), src="file",
                      name="f")
    s["nat"] = rng.choice(["file", "file", "flat"])
    if rng.random() < 0.5:
        s["sunvolc"], s["sun"] = 1, "own"
    if rng.random() < 0.5:
        s["luc"] = "own"
    faults, files = [], []
    later = None
    x = rng.random()
    if x < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            faults.append({"kind": rng.choice(["open_error", "read_error", "read_error"]),
                           "n": rng.randrange(1000), "dir": "r", "sticky": rng.random() < 0.4,
                           "after": 0, "frac": rng.choice([0.0, rng.random(), rng.random(),
                                                           1.0]),
                           "exc": rng.choice(["EIO", "EACCES", "MemoryError", "EMFILE", "EPERM",
                                              "ESTALE", "ETIMEDOUT", "EIO", "EACCES",
                                              "KeyboardInterrupt"])})
    elif x < 0.5:
        faults.append({"kind": "short_io", "seed": rng.randrange(1000)})
    elif x < 0.85:
        for _ in range(rng.choice([1, 1, 2])):
            how = rng.choice(["missing", "empty", "cut", "cut", "cut", "hole", "dir"])
            files.append({"which": rng.random(), "how": how, "frac": rng.random(),
                          "edge": rng.choice([None, "start", "mid", "end", "end"])})
    else:
        later = {"how": rng.choice(["remove", "cut", "garbage", "scale"]),
                 "between": rng.random() < 0.5}
        if rng.random() < 0.3:
            faults.append({"kind": "short_io", "seed": rng.randrange(1000)})
    return {"sched_seed": rng.randrange(1 << 30), "spec": s, "fs": faults, "files": files,
            "later": later, "warm": rng.random() < 0.35, "via": rng.choice(["model", "model", "model", "ensemble"]),
            "params": scen.gen_params(rng, s), "params2": scen.gen_full(rng, s)}


def _first_year(which, spec, lines):
    """(number of head lines, year of the first record)"""
    if which in ("emissions", "concentrations"):
        return 4, int(float(lines[4].split()[0]))
    if which == "forc" and spec["forc"] != "array":
        return 1, spec["y0"]
    if which == "forc":
        return 0, spec["y0"]
    return 0, 1750


def damage(path, which, spec, f):
    """Make an input file incomplete; returns a description or None if nothing was done"""
    if f["how"] == "missing":
        os.remove(path)
        return "missing"
    if f["how"] == "dir":
        os.remove(path)
        os.mkdir(path)
        return "a folder"
    if f["how"] == "empty":
        open(path, "w").close()
        return "empty"
    if which not in TRUNC:
        return None
    with open(path, encoding="utf-8") as fh:
        lines = fh.read().splitlines()
    head, y0 = _first_year(which, spec, lines)
    n = len(lines) - head
    if f["how"] == "hole":
        if which not in ("emissions", "concentrations"):
            return None
        y = spec["y0"] + int(f["frac"] * (spec["y1"] - spec["y0"] + 1))
        k = y - y0
        if not 0 <= k < n:
            return None
        del lines[head + k]
        text = "lacks year %d" % y
    else:
        keep = int(f["frac"] * n)
        if f["edge"] == "start":
            keep = max(0, min(n, spec["y0"] - y0 + int(f["frac"] * 3)))
        elif f["edge"] == "mid":
            keep = max(0, min(n, spec["y0"] - y0
                              + int(f["frac"] * (spec["y1"] - spec["y0"]))))
        elif f["edge"] == "end":
            keep = max(0, min(n, spec["y1"] - y0 + 1 - int(f["frac"] * 3)))
        lines = lines[:head + keep]
        text = "cut after %d of %d records (year %d)" % (keep, n, y0 + keep - 1)
    with open(path, "w", encoding="utf-8") as fh:
        fh.write("\n".join(lines) + "\n")
    return text


def run(plan):
    def body(r):
        s = plan["spec"]
        ns = env.Namespace()
        folder = r.path("in")
        cfg = scen.build(s, folder)
        names = sorted(k[:-5] for k in cfg if k.endswith("_file"))
        if plan.get("warm"):
            # the complete files were read before by the same process
            with ns.active():
                ns.CICEROSCM(dict(cfg))
            r.probe("read before")
        done, hurt = [], set()
        for f in plan["files"]:
            which = names[int(f["which"] * len(names))]
            if which in hurt or not os.path.isfile(cfg[which + "_file"]):
                continue
            hurt.add(which)
            if which.startswith("perturb") and f["how"] not in ("missing", "dir"):
                continue
            what = damage(cfg[which + "_file"], which, s, f)
            if what:
                done.append("%s %s" % (which, what))
                r.count("fault:file_" + f["how"])
                r.log("damage", done[-1])
        params = plan["params"]
        faults = [dict(f, n=f["n"] % _opens(s, r)) if "n" in f else f for f in plan["fs"]]
        fs = vfs.SimFS(faults, [r.dir, vfs.DEFAULT_DATA], log=lambda *a: None)
        fs.on_fire = lambda f: r.log("fault", f["kind"], f["n"], f["exc"], f.get("frac"))
        exc = got = model = None
        res = []
        try:
            with ns.active(), fs.installed():
                if plan["via"] == "ensemble":
                    got = ns.run_ciceroscm_parallel(
                        [dict(cfg)], [dict(scen.fresh(params), Index="i")],
                        ["Surface Air Ocean Blended Temperature Change", "Heat Content|Ocean"]
                        + (["Emissions|CH4", "Atmospheric Concentrations|CO2"]
                           if s["kind"] != "forc" else []), max_workers=1)
                else:
                    model = ns.CICEROSCM(dict(cfg))
                    if plan["later"] and not plan["later"]["between"]:
                        _later(plan, cfg, r, folder)
                    model._run(runcfg("dict", "", ""), **scen.fresh(params))
                    res.append((params, model.results))
                    if plan["later"]:
                        if plan["later"]["between"]:
                            _later(plan, cfg, r, folder)
                        model._run(runcfg("dict", "", ""), **scen.fresh(plan["params2"]))
                        res.append((plan["params2"], model.results))
        except sim.PASS:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            exc = e
        for k, v in fs.stats.items():
            r.count(k, v)
        hard = [f["kind"] for f in fs.fired] + done
        r.nontrivial = bool(hard) or bool(plan["later"]) or bool(plan["fs"])
        what = "%s" % (hard or plan["later"] or [f["kind"] for f in plan["fs"]] or "no fault")
        r.log("outcome", what, "ok" if exc is None else type(exc).__name__)
        ref, _ = oracle.single(s, params)
        if exc is not None:
            r.probe("raised " + type(exc).__name__)
            if not hard and not isinstance(ref, oracle.RefError):
                if not (plan["later"] and isinstance(
                        oracle.single(s, plan["params2"])[0], oracle.RefError)):
                    r.violate("raised %s with %s" % (sim.short(exc), what))
                    return
        elif isinstance(ref, oracle.RefError):
            r.violate("returned with %s, with complete files %r" % (what, ref))
            return
        else:
            r.probe("returned")
            if plan["via"] == "ensemble":
                d = oracle.check_ensemble(
                    got, [s], [dict(params, Index="i")],
                    ["Surface Air Ocean Blended Temperature Change", "Heat Content|Ocean"]
                    + (["Emissions|CH4", "Atmospheric Concentrations|CO2"]
                       if s["kind"] != "forc" else []))
                r.note(got)
                if d:
                    r.violate("ensemble returned with %s: %s" % (what, d))
                    return
            carbon = None
            for p, x in res:
                carbon = scen.merge_carbon(carbon, p["pamset_carbon"])
                want, _ = oracle.single(s, dict(p, pamset_carbon=carbon))
                r.note(x)
                d = oracle.diff_results(x, want) if not isinstance(
                    want, oracle.RefError) else "a new instance raises %r" % want
                if d:
                    r.violate("returned with %s: %s" % (what, d))
                    return
        if plan["later"] and plan["later"]["how"] == "scale" and exc is None and res:
            # an instance made from the files as they are now
            new = _scaled(s)
            want, _ = oracle.single(new, params)
            try:
                with ns.active():
                    model = ns.CICEROSCM(dict(cfg))
                    model._run(runcfg("dict", "", ""), **scen.fresh(params))
                d = ("a new process raises %r" % want if isinstance(want, oracle.RefError)
                     else oracle.diff_results(model.results, want))
            except Exception as e:  # pylint: disable=broad-except
                d = None if isinstance(want, oracle.RefError) else "raised " + sim.short(e)
            r.probe("instances of changed files")
            if d:
                r.violate("instance of the changed files: %s" % d)
                return
        if hard and exc is not None:
            # the cause is gone
            cfg = scen.build(s, r.path("again"))
            try:
                with ns.active():
                    model = ns.CICEROSCM(cfg)
                    model._run(runcfg("dict", "", ""), **scen.fresh(params))
            except Exception as e:  # pylint: disable=broad-except
                if not isinstance(ref, oracle.RefError):
                    r.violate("without the fault, after %s: raised %s" % (what, sim.short(e)))
                return
            d = (oracle.diff_results(model.results, ref)
                 if not isinstance(ref, oracle.RefError) else "a new process raises %r" % ref)
            if d:
                r.violate("without the fault, after %s: %s" % (what, d))
    return sim.simulate(body, plan)


OPENS = {}


def _opens(s, r):
    """Number of times files are opened when making an instance"""
    key = oracle.key_of(s)
    if key not in OPENS:
        if len(OPENS) > 500:
            OPENS.clear()
        ns = env.Namespace()
        fs = vfs.SimFS([], [r.dir, vfs.DEFAULT_DATA])
        cfg = scen.build(s, r.path("count"))
        with ns.active(), fs.installed():
            ns.CICEROSCM(cfg)
        OPENS[key] = max(1, fs.nread)
    return OPENS[key]


def _scaled(spec):
    return dict(spec, ownfac=2.5, gas="v1" if spec["gas"] == "ar6" else spec["gas"],
                scale={"CO2": 1.5, "CH4": 2.0, "SO2": 2.0, "CFC-11": 4.0})


def _later(plan, cfg, r, folder):
    """Change or remove all input files"""
    rng = random.Random(plan["sched_seed"])
    how = plan["later"]["how"]
    other = scen.build(_scaled(plan["spec"]), folder + "x")
    for k in sorted(cfg):
        if not k.endswith("_file"):
            continue
        path = cfg[k]
        if how == "remove":
            os.remove(path)
        elif how == "cut":
            with open(path, "r+b") as f:
                f.truncate(rng.randrange(max(1, os.path.getsize(path))))
        elif how == "garbage":
            with open(path, "wb") as f:
                f.write(b"\0garbage\n" * 10)
        elif k in other:
            with open(other[k], "rb") as f:
                data = f.read()
            with open(path, "wb") as f:
                f.write(data)
    r.count("fault:files_changed_later")


def shrink(plan):
    for k in ("fs", "files"):
        for i in range(len(plan[k])):
            yield dict(plan, **{k: plan[k][:i] + plan[k][i + 1:]})
    if plan["later"]:
        yield dict(plan, later=None)
    if plan["via"] != "model":
        yield dict(plan, via="model")
    for k in ("params", "params2"):
        for p in scen.simpler_params(plan[k]):
            yield dict(plan, **{k: p})
    for n in scen.simpler(plan["spec"]):
        if n["src"] == "file":
            yield dict(plan, spec=n)
