"""C09: a saved ensemble configuration is loaded back exactly or refused"""

import copy
import os

from .. import distro, env, sim, trace, vfs
from ..world import make_exc

LEVEL = "fault_enumeration"
RULE = ("a run is a history of 3 to 9 saves (of sampled or loaded ensembles, whole or in "
        "chunks, under a few names, over older files) and loads with write, close, open and "
        "read errors, partial transfers, crashes that lose any part of what was not "
        "synchronised, and restarts; loads are compared with a model of what was saved "
        "under the name; non-trivial: at least one load; distinct: different event log")
REAL = ["ciceroscm.parallel (_configdistro, distributionrun)", "json, text and buffered io",
        "file contents in a scratch folder"]
STUB = ["lowest layer of open() (faults, partial transfers, crash)", "seeds of random "
        "generators"]
RUNS = {"quick": 15000, "thorough": 200000}

NAMES = ["a.json", "b.json", "cfg", "run.v1/cfgs", "run.v1/c.json", "noext.d/ens", "ü.json",
         "rel:r.json", "rel:sub/r2"]
METAS = [None, None, {}, {"who": "me", "n": 3, "nested": {"a": [1, 2.5, None]}},
         {"größe": "°C ü", "x": True}]


# values that cannot be written as they are: refused, or loaded with an equal value
BAD = ["int64", "bool_", "array", "float32", "set", "complex", "date", "object", "bytes"]
# values that can
GOOD = ["inf", "nan", "-0", "tiny", "huge", "bigint", "text", "true", "none", "float64",
        "int", "nested"]
ODD = BAD + GOOD + GOOD


def odd_value(name):
    import datetime
    import numpy as np
    return {"int64": np.int64(7), "bool_": np.bool_(True), "array": np.array([1.5, 2.5]),
            "float32": np.float32(0.1), "set": {1, 2}, "complex": 1 + 2j,
            "date": datetime.date(2020, 1, 2), "object": object(), "bytes": b"x",
            "inf": float("-inf"), "nan": float("nan"), "-0": -0.0, "tiny": 5e-324,
            "huge": 1.7976931348623157e308, "bigint": 10 ** 40 + 1,
            "text": "a\u2028\x00\"\\é\ud83d\ude00".encode("utf-16", "surrogatepass").decode(
                "utf-16"),
            "true": True, "none": None, "float64": np.float64(0.1) + 0.2, "int": -3,
            "nested": {"coeffs": [0.1, 0.2, [None, {}]], "": []}}[name]


def gen(rng, tier):
    dists = [distro.gen(rng) for _ in range(rng.choice([1, 2]))]
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    ops = []
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        name = rng.choice(names)
        if x < 0.5:
            op = {"op": "save", "via": rng.choice(["object", "object", "make", "chunks"]),
                  "name": name, "dist": rng.randrange(len(dists)),
                  "n": rng.choice([1, 2, 3, 8, 15, 40]), "meta": rng.choice(METAS),
                  "obj": rng.randrange(4), "pre": rng.choice(["", "p_", "é"])}
            op["chunk"] = rng.randint(1, max(1, op["n"] - 1))
            op["fs"] = _faults(rng, "w", op)
            if op["via"] == "object" and rng.random() < 0.3:
                op["odd"] = [rng.choice(ODD), rng.choice(["cfg", "cfg", "meta"])]
            if rng.random() < 0.1:
                op["line"] = [rng.randrange(60 + 40 * op["n"]),
                              rng.choice(["KeyboardInterrupt", "MemoryError"])]
            ops.append(op)
        elif x < 0.9:
            ops.append({"op": "load", "name": name, "fs": _faults(rng, "r", None),
                        "distro": rng.random() < 0.4, "scribble": rng.random() < 0.3,
                        "k": rng.randrange(8)})
        elif x < 0.96:
            ops.append({"op": "power", "seed": rng.randrange(1 << 20)})
        else:
            ops.append({"op": "restart"})
    for nm in names:
        ops.append({"op": "load", "name": nm, "fs": [], "distro": False, "scribble": False,
                    "k": rng.randrange(8)})
    return {"sched_seed": rng.randrange(1 << 30), "dists": dists, "ops": ops}


def _faults(rng, d, op):
    if rng.random() < 0.45:
        return []
    if rng.random() < 0.3:
        return [{"kind": "short_io", "seed": rng.randrange(1000)}]
    n = rng.randrange(4) if op and op["via"] == "chunks" else 0
    exc = rng.choice(["ENOSPC", "EIO", "EACCES", "KeyboardInterrupt", "MemoryError",
                      "EDQUOT", "EROFS", "EPERM", "ETIMEDOUT", "ESTALE", "EFBIG", "ENOENT"])
    if d == "r":
        k = rng.choice(["open_error", "read_error", "read_error"])
        return [{"kind": k, "n": n, "dir": "r", "after": rng.choice([0, 10, 3000, 9000]),
                 "exc": rng.choice(["EIO", "EACCES", "MemoryError", "EPERM", "ETIMEDOUT",
                                    "ESTALE", "EMFILE", "EISDIR"])}]
    k = rng.choice(["open_error", "write_error", "write_error", "write_error", "close_error",
                    "crash", "crash", "replace_error", "fsync_error"])
    f = {"kind": k, "n": n, "exc": exc, "dir": "w"}
    if k == "write_error":
        f["after"] = rng.choice([0, rng.randrange(200), rng.randrange(9000),
                                 rng.randrange(40000)])
    elif k == "close_error":
        f["drop"] = rng.choice([0, 1, rng.randrange(3000)])
    elif k == "crash":
        f["op"] = rng.choice([1, 2, 3, 4, rng.randint(1, 30)])
        f["keep"] = rng.randrange(1 << 20)
    return [f]


def eq(a, b):
    """Equal values (numbers may have become plain numbers)"""
    a, b = _plain(a), _plain(b)
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)
                and all(eq(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))
                and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b)))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def _plain(x):
    """Plain values for those of numpy"""
    return x.tolist() if type(x).__module__ == "numpy" else x


class Model:
    """What may come back for each file name"""

    def __init__(self):
        self.maybe = {}   # path -> list of (cfgs, meta) that may be there
        self.sure = {}    # path -> the one that must load
        self.old = {}     # path -> replaced, but a power loss can bring them back

    def begin(self, path, cfgs, meta):
        """A save starts; the outcome is open until done()"""
        self.sure.pop(path, None)
        if cfgs is not None:
            self.maybe.setdefault(path, []).append((cfgs, meta))

    def done(self, path, cfgs, meta, alt):
        self.old.setdefault(path, []).extend(self.maybe.get(path, []) + alt.pop(path, []))
        self.maybe[path] = [(cfgs, meta)]
        self.sure[path] = (cfgs, meta)

    def unsure(self):
        """The process or the machine went down"""
        self.sure.clear()
        for path, old in self.old.items():
            self.maybe.setdefault(path, []).extend(old)
        self.old.clear()


def _path(r, name):
    if name.startswith("rel:"):
        return name[4:], os.path.join(os.getcwd(), name[4:])
    return r.path("data", name), r.path("data", name)


def _chunk_path(path, i):
    stem, ext = os.path.splitext(path)
    return "%schunk_%d%s" % (stem, i, ext)


def run(plan):
    import numpy as np

    def body(r):
        ns = env.Namespace()
        model = Model()
        objs = []  # (DistributionRun, cfgs, meta)
        dirty = {}
        alt = {}   # path -> contents an interrupted save may have had
        loads = 0
        for n in NAMES:
            os.makedirs(os.path.dirname(_path(r, n)[1]), exist_ok=True)

        def new_fs(faults):
            fs = vfs.SimFS(faults, [r.dir], log=r.log)
            fs.dirty = dirty
            return fs

        def collect(fs):
            for k, v in fs.stats.items():
                r.count(k, v)
            for f in fs.fired:
                r.world.fired.append(f)

        with distro.random_seam(plan["sched_seed"]) as seam:
            for k, op in enumerate(plan["ops"]):
                r.log("op", k, op["op"], op.get("name", ""))
                if op["op"] == "power":
                    fs = new_fs([])
                    fs.after_crash(op["seed"])
                    dirty.clear()
                    model.unsure()
                    objs = []
                    ns = env.Namespace()
                    r.count("fault:power_loss")
                    continue
                if op["op"] == "restart":
                    objs = []
                    ns = env.Namespace()
                    r.count("fault:restart")
                    continue
                path, full = _path(r, op["name"])
                fs = new_fs(op["fs"])
                if op["op"] == "save":
                    if op["via"] == "object" and not objs:
                        with ns.active():
                            d = distro.make(ns, _nonempty(plan["dists"][op["dist"]]))
                            dr = ns.DistributionRun(d, "no_file", op["pre"], op["n"])
                        objs.append((dr, copy.deepcopy(dr.cfgs), None))
                    made = []  # what was returned, for the "make" forms
                    exc = None
                    crash = None
                    hit = []
                    if op["via"] == "object":
                        dr, cfgs, meta = objs[op["obj"] % len(objs)]
                        if op.get("odd"):
                            name, to = op["odd"]
                            dr, meta, op = with_odd(ns, dr, meta, op, name, to)
                            cfgs = copy.deepcopy(dr.cfgs)
                            r.probe("odd values")
                        fmeta = op["meta"] if op["meta"] is not None else meta
                        model.begin(full, cfgs, fmeta)
                    else:
                        d = distro.make(ns, _nonempty(plan["dists"][op["dist"]]))
                        targets = [full]
                        if op["via"] == "chunks" and op["chunk"] <= op["n"]:
                            num = -(-op["n"] // op["chunk"])
                            targets = [_chunk_path(full, i) for i in range(num)]
                        for t in targets:
                            model.begin(t, None, None)
                    dump = _Recorder()
                    kw = {"json_fname": path, "indexer_pre": op["pre"]}
                    if op["via"] == "chunks":
                        kw["max_chunk_size"] = op["chunk"]
                    if op["meta"] is not None:
                        kw["meta_info"] = copy.deepcopy(op["meta"])
                    rng_state = (seam[0], np.random.get_state())
                    try:
                        with ns.active(), fs.installed(), dump.installed():
                            ctx = (trace.raise_at_line(op["line"][0], make_exc(op["line"][1]),
                                                       where=hit)
                                   if op.get("line") else _null())
                            with ctx:
                                if op["via"] == "object":
                                    if op["meta"] is None:
                                        dr.write_configs_to_json(path)
                                    else:
                                        dr.write_configs_to_json(
                                            path, meta_info=copy.deepcopy(op["meta"]))
                                else:
                                    made = d.make_config_lists(op["n"], **kw)
                    except vfs.SimCrash as e:
                        crash = e
                    except sim.PASS:
                        raise
                    except BaseException as e:  # pylint: disable=broad-except
                        exc = e
                    collect(fs)
                    if hit:
                        r.count("fault:interrupt")
                        r.log("interrupt", hit[0])
                    r.log("save", "crash" if crash else "ok" if exc is None
                          else type(exc).__name__)
                    if op["via"] != "object":
                        # contents an incomplete save may have had in mind
                        for t in targets:
                            alt.setdefault(t, []).extend(dump.seen)
                        if exc is not None or crash is not None:
                            # the same draw again, without a file
                            after = (seam[0], np.random.get_state())
                            seam[0] = rng_state[0]
                            np.random.set_state(rng_state[1])
                            kw.pop("json_fname", None)
                            with ns.active():
                                again = d.make_config_lists(op["n"], **kw)
                            seam[0] = after[0]
                            np.random.set_state(after[1])
                            lists = again if len(targets) > 1 or isinstance(
                                again[0], list) else [again]
                            for t, lst in zip(targets, lists):
                                alt[t].append((lst, op["meta"]))
                    if fs.dead or crash is not None:
                        for f in op["fs"]:
                            if f["kind"] == "crash":
                                fs.after_crash(f["keep"])
                        dirty.clear()
                        model.unsure()
                        objs = []
                        ns = env.Namespace()
                        continue
                    if exc is not None:
                        if not fs.fired and not hit and not (
                                op.get("odd") and op["odd"][0] in BAD):
                            r.violate("saving %s raised %s without a failure" % (
                                op["name"], sim.short(exc)))
                            return
                        continue
                    if op["via"] == "object":
                        model.done(full, cfgs, fmeta, alt)
                        if not eq(dr.cfgs, cfgs):
                            r.violate("saving changed the ensemble")
                            return
                    else:
                        lists = [made]
                        if len(targets) > 1 or (made and isinstance(made[0], list)):
                            lists = made
                        if len(lists) != len(targets):
                            r.violate("%d chunks for %d files" % (len(lists), len(targets)))
                            return
                        for t, lst in zip(targets, lists):
                            model.done(t, copy.deepcopy(lst), op["meta"], alt)
                    continue
                # load
                if full not in model.maybe and full not in alt:
                    stem = _chunk_path(full, 0)
                    if stem in model.maybe or stem in alt:
                        num = 0
                        while _chunk_path(full, num) in model.maybe \
                                or _chunk_path(full, num) in alt:
                            num += 1
                        i = op["k"] % num
                        path, full = _chunk_path(path, i), _chunk_path(full, i)
                    else:
                        continue
                if not os.path.exists(full) and full not in model.sure:
                    continue  # would be sampled anew, as documented
                exc = got = None
                try:
                    with ns.active():
                        dc = (distro.make(ns, _nonempty(plan["dists"][0]))
                              if op["distro"] else None)
                        with fs.installed():
                            got = ns.DistributionRun(dc, path)
                except sim.PASS:
                    raise
                except BaseException as e:  # pylint: disable=broad-except
                    exc = e
                collect(fs)
                loads += 1
                r.log("load", "ok" if exc is None else type(exc).__name__)
                bad = [f for f in fs.fired]
                if exc is not None:
                    r.probe("refused" if full not in model.sure else "load failed")
                    if full in model.sure and not bad:
                        r.violate("loading %s raised %s" % (op["name"], sim.short(exc)))
                        return
                    continue
                allowed = ([model.sure[full]] if full in model.sure
                           else model.maybe.get(full, []) + alt.get(full, []))
                r.probe("loaded" if full in model.sure else "loaded after incomplete save")
                match = [a for a in allowed if eq(got.cfgs, a[0]) and eq(got.meta_info, a[1])]
                if not match:
                    r.violate("operation %d: %s loaded as %d configurations %s, meta %r; %s" % (
                        k, op["name"], len(got.cfgs), str(got.cfgs)[:80], got.meta_info,
                        _why(got, allowed)))
                    return
                for o, c, m in objs:
                    if not eq(o.cfgs, c):
                        r.violate("loading changed another ensemble")
                        return
                if op["scribble"] and got.cfgs:
                    got.cfgs[0]["Index"] = "changed"
                    got.cfgs.append({"Index": "new"})
                else:
                    objs.append((got, copy.deepcopy(got.cfgs), copy.deepcopy(got.meta_info)))
        r.nontrivial = loads > 0
        r.probe("loads", loads)
    return sim.simulate(body, plan)


def with_odd(ns, dr, meta, op, name, to):
    """The ensemble with a value of another kind"""
    with ns.active():
        dr = copy.deepcopy(dr)
    val = odd_value(name)
    if to == "cfg" and dr.cfgs:
        cfg = dr.cfgs[len(dr.cfgs) // 2]
        cfg["pamset_emiconc"] = dict(cfg["pamset_emiconc"], odd=val)
    else:
        op = dict(op, meta=dict(op["meta"] or {}, odd=[1, val]))
    return dr, meta, op


def _why(got, allowed):
    if not allowed:
        return "nothing was saved under that name"
    a = allowed[-1]
    if not eq(got.cfgs, a[0]):
        return "saved: %d configurations %s" % (len(a[0]), str(a[0])[:80])
    return "saved meta %r" % (a[1],)


def _nonempty(d):
    """The description, changed if nothing would be sampled"""
    from .c10 import _defaults
    if not distro.sampled(d, *_defaults())[0]:
        return dict(d, prior={"akapa": [0.06, 0.8], "W": [0.5, 2.5]}, set={})
    return d


class _Recorder:
    """Notes what is handed to json.dump, to know what an incomplete save was about"""

    def __init__(self):
        self.seen = []

    def _note(self, obj):
        try:
            if isinstance(obj, dict) and "configurations" in obj:
                self.seen.append((copy.deepcopy(obj["configurations"]),
                                  copy.deepcopy(obj.get("meta_info"))))
            elif isinstance(obj, list):
                self.seen.append((copy.deepcopy(obj), None))
        except Exception:  # pylint: disable=broad-except
            pass

    def installed(self):
        import contextlib
        import json

        @contextlib.contextmanager
        def ctx():
            d, ds = json.dump, json.dumps

            def dump(obj, *a, **k):
                self._note(obj)
                return d(obj, *a, **k)

            def dumps(obj, *a, **k):
                self._note(obj)
                return ds(obj, *a, **k)
            json.dump, json.dumps = dump, dumps
            try:
                yield
            finally:
                json.dump, json.dumps = d, ds
        return ctx()


def _null():
    import contextlib
    return contextlib.nullcontext()


def shrink(plan):
    ops = plan["ops"]
    for i in range(len(ops)):
        yield dict(plan, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op.get("fs"):
            yield dict(plan, ops=ops[:i] + [dict(op, fs=[])] + ops[i + 1:])
        if op.get("odd"):
            yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != "odd"}]
                       + ops[i + 1:])
        if op.get("line"):
            yield dict(plan, ops=ops[:i] + [{k: v for k, v in op.items() if k != "line"}]
                       + ops[i + 1:])
        if op["op"] == "save":
            for k, v in (("via", "object"), ("meta", None), ("n", 1), ("pre", "")):
                if op[k] != v:
                    yield dict(plan, ops=ops[:i] + [dict(op, **{k: v})] + ops[i + 1:])
