"""
Runs many plans of a property in worker processes, minimises and records
violations, writes evidence.
"""

import collections
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

from . import env, sim, trace

RUN_LIMIT = 90       # seconds a run may take in the search
RECHECK_LIMIT = 150  # and when it is repeated because of that
WALL = {"quick": 420.0, "thorough": 3 * 3600.0}
SHRINK_S = {"quick": 60.0, "thorough": 300.0}
_fork = mp.get_context("fork")


def make_plan(mod, pid, tier, seed, index):
    rng = random.Random("%s:%s:%d:%d" % (pid, tier, seed, index))
    return json.loads(json.dumps(mod.gen(rng, tier)))


def run_plan(mod, plan, limit):
    """('ok', outcome), ('timeout', text) or ('error', text)"""
    try:
        with sim.alarm(limit):
            out = mod.run(plan)
        return "ok", out
    except trace.HarnessTimeout as exc:
        return "timeout", str(exc)
    except BaseException:  # pylint: disable=broad-except
        return "error", traceback.format_exc()


# ------------------------------------------------------------------ workers


def _worker(conn, mod, pid, tier, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            index = conn.recv()
        except EOFError:
            os._exit(0)
        if index is None:
            os._exit(0)
        t = time.time()
        try:
            plan = make_plan(mod, pid, tier, seed, index)
        except BaseException:  # pylint: disable=broad-except
            conn.send((index, "error", traceback.format_exc(), time.time() - t))
            continue
        kind, out = run_plan(mod, plan, RUN_LIMIT)
        conn.send((index, kind, out, time.time() - t))


class Pool:
    """Worker processes forked from this one, which itself never runs a plan"""

    def __init__(self, n, mod, pid, tier, seed):
        self.args = (mod, pid, tier, seed)
        self.ws = [self._start() for _ in range(n)]

    def _start(self):
        a, b = _fork.Pipe()
        p = _fork.Process(target=_worker, args=(b,) + self.args, daemon=False)
        p.start()
        b.close()
        return {"p": p, "c": a, "index": None, "since": 0.0, "history": []}

    def run(self, indices, stop):
        """Yields (index, kind, outcome, seconds, history of the worker)"""
        it = iter(indices)
        done = False
        while True:
            for w in self.ws:
                if w["index"] is None and not done and not stop():
                    try:
                        w["index"] = next(it)
                    except StopIteration:
                        done = True
                        break
                    w["since"] = time.time()
                    w["c"].send(w["index"])
            busy = [w for w in self.ws if w["index"] is not None]
            if not busy:
                return
            ready = multiprocessing.connection.wait([w["c"] for w in busy], timeout=5)
            for i, w in enumerate(self.ws):
                if w["index"] is None:
                    continue
                if w["c"] in ready:
                    try:
                        index, kind, out, secs = w["c"].recv()
                        hist = list(w["history"])
                        w["history"].append(index)
                        w["index"] = None
                        yield index, kind, out, secs, hist
                        continue
                    except (EOFError, OSError):
                        pass
                    index, hist = w["index"], list(w["history"])
                    self._kill(w)
                    self.ws[i] = self._start()
                    yield index, "died", "worker process ended", 0.0, hist
                elif time.time() - w["since"] > RUN_LIMIT + 30:
                    index, hist = w["index"], list(w["history"])
                    self._kill(w)
                    self.ws[i] = self._start()
                    yield index, "timeout", "no end after %d s" % RUN_LIMIT, RUN_LIMIT, hist

    @staticmethod
    def _kill(w):
        try:
            w["p"].kill()
            w["p"].join(5)
            w["c"].close()
        except OSError:
            pass

    def close(self):
        for w in self.ws:
            try:
                w["c"].send(None)
            except (OSError, ValueError):
                pass
        for w in self.ws:
            w["p"].join(2)
            if w["p"].is_alive():
                self._kill(w)


def _child(conn, mod, plans, limit):
    """Run plans one after the other; send what the last one gave"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    res = "error", "no plan"
    for p in plans:
        res = run_plan(mod, p, limit)
    conn.send(res)
    conn.close()
    os._exit(0)


def fresh(mod, lists, limit=RECHECK_LIMIT):
    """Each list of plans in a new process of its own; results in order"""
    jobs = []
    for plans in lists:
        a, b = _fork.Pipe()
        p = _fork.Process(target=_child, args=(b, mod, plans, limit))
        p.start()
        b.close()
        jobs.append((p, a, len(plans)))
    out = []
    end = time.time() + limit + 30
    for p, a, n in jobs:
        try:
            if a.poll(max(0.1, end + 20 * (n - 1) - time.time())):
                out.append(a.recv())
            else:
                out.append(("timeout", "no end after %d s" % limit))
        except (EOFError, OSError):
            out.append(("died", "process ended"))
        if p.is_alive():
            p.join(0.2)
            if p.is_alive():
                p.kill()
        p.join(5)
        a.close()
    return out


# --------------------------------------------------------------- violations


def skeleton(text):
    return re.sub(r"[0-9.]+", "#", text)[:24]


def verdict(res):
    """None, or the text of the violation"""
    kind, out = res
    if kind == "ok":
        return out["violations"][0] if out["violations"] else None
    if kind == "timeout":
        return "hang: " + out
    return None


def known(pid):
    """Listed findings of this property: (pattern, text)"""
    out = []
    path = os.path.join(env.VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append((re.compile(m.group(2)), m.group(3)))
    return out


def minimise(mod, history, plan, text, seconds, procs):
    """Greedy: take the first smaller plan that is violated in the same way"""
    end = time.time() + seconds
    want = skeleton(text)
    tried = 0

    def ok(res):
        v = verdict(res)
        return v is not None and skeleton(v) == want

    # shorter history of earlier runs of the same process
    while history and time.time() < end:
        half = len(history) // 2
        cands = [[], history[:half], history[half:]]
        if len(history) <= 8:
            cands += [history[:i] + history[i + 1:] for i in range(len(history))]
        cands = [c for c in cands if len(c) < len(history)]
        res = fresh(mod, [c + [plan] for c in cands], RUN_LIMIT)
        tried += len(cands)
        for c, x in zip(cands, res):
            if ok(x):
                history = c
                break
        else:
            break
    changed = True
    while changed and time.time() < end:
        changed = False
        seen = set()
        batch = []

        def flush():
            nonlocal plan, changed, tried
            res = fresh(mod, [history + [c] for c in batch], RUN_LIMIT)
            tried += len(batch)
            for c, x in zip(batch, res):
                if ok(x):
                    plan, changed = c, True
                    return True
            return False
        for c in mod.shrink(plan):
            c = json.loads(json.dumps(c))
            k = json.dumps(c, sort_keys=True)
            if k in seen or k == json.dumps(plan, sort_keys=True):
                continue
            seen.add(k)
            batch.append(c)
            if len(batch) >= procs:
                if flush() or time.time() > end:
                    batch = []
                    break
                batch = []
        if batch and not changed and time.time() < end:
            flush()
    return history, plan, tried


def replay_path(pid, seed, index):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%d-%d.json" % (pid, seed, index))


def confirm(mod, pid, tier, seed, index, hist, text, procs):
    """
    Reproduce a violation in a new process, minimise it, write the replay file
    and replay it from the file; returns (path, text) or None
    """
    plan = make_plan(mod, pid, tier, seed, index)
    history = []
    first = None
    slow = text.startswith("hang: no end")
    for attempt in range(1 if slow else 2):
        v = verdict(fresh(mod, [[plan]])[0])
        if v:
            first = v
            break
    if first is None and hist and not slow:
        history = [make_plan(mod, pid, tier, seed, i) for i in hist[-150:]]
        first = verdict(fresh(mod, [history + [plan]])[0])
    if first is None:
        return None
    if not first.startswith("hang: no end"):
        history, plan, tried = minimise(mod, history, plan, first, SHRINK_S[tier], procs)
        kind, out = fresh(mod, [history + [plan]])[0]
    else:
        tried = 0
        kind, out = "timeout", first[6:]
    v = verdict((kind, out))
    if v is None:
        return None
    path = replay_path(pid, seed, index)
    rec = {"property": pid, "tier": tier, "seed": seed, "index": index,
           "violation": v, "found_as": text, "minimisation_runs": tried,
           "history": history, "plan": plan}
    if kind == "ok":
        rec.update(digest=out["digest"], trace=out["trace"], faults_fired={
            k[6:]: n for k, n in out["stats"].items() if k.startswith("fault:")})
    with open(path, "w", encoding="utf-8") as f:
        json.dump(rec, f, indent=1)
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), pid,
                        "--replay", path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, check=False,
                       env={k: x for k, x in os.environ.items() if k != "CSCM_REEXEC"})
    if p.returncode != 1:
        print("replay of %s did not reproduce: %s" % (path, p.stdout.decode()[-500:]),
              file=sys.stderr)
        return None
    return path, v


def replay(mod, pid, path):
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    kind, out = fresh(mod, [rec["history"] + [rec["plan"]]])[0]
    v = verdict((kind, out))
    if kind == "ok":
        for line in out["trace"]:
            print("  " + line)
        if rec.get("digest"):
            print("digest %s, recorded %s" % (out["digest"], rec["digest"]))
    if v is None:
        print("no violation on replay" if kind == "ok" else "%s: %s" % (kind, out))
        return 0 if kind == "ok" else 2
    print("violation: " + v)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


# -------------------------------------------------------------------- check


def _plain(stats):
    """Counts by fault kind and other counts; points summarised"""
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    points = {k: v for k, v in stats.items() if k.startswith("points:")}
    other = {k: v for k, v in sorted(stats.items())
             if not k.startswith("fault:") and not k.startswith("points:")}
    return faults, points, other


def determinism(pid, tier, seed, done):
    """The same runs in another process with another hash seed"""
    idx = sorted(done)[:3]
    if not idx:
        return {"checked": 0}
    e = {k: v for k, v in os.environ.items() if k != "CSCM_REEXEC"}
    e["PYTHONHASHSEED"] = "4711"
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, "check.py"), pid, "--tier",
                        tier, "--seed", str(seed), "--digests", ",".join(map(str, idx))],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, check=False)
    got = dict(ln.split() for ln in p.stdout.decode().split("\n") if len(ln.split()) == 2)
    same = sum(got.get(str(i)) == done[i] for i in idx)
    if same != len(idx):
        print("determinism: %d of %d runs had the same digest in another process %s"
              % (same, len(idx), p.stderr.decode()[-300:]), file=sys.stderr)
    return {"checked": len(idx), "same_digest": same, "hash_seeds": ["0", "4711"]}


def check(mod, pid, tier, seed, runs=None, wall=None, procs=8, first=0):
    t0 = time.time()
    runs = runs or mod.RUNS[tier]
    wall = wall or WALL[tier]
    stats, probes = collections.Counter(), collections.Counter()
    digests, schedules, done = set(), set(), {}
    samples, problems, knowns = [], [], {}
    nontrivial = evaluations = violated = 0
    sim_time = 0.0
    result = None
    listed = known(pid)
    pool = Pool(procs, mod, pid, tier, seed)
    stopped = []
    suspects = []
    unrepro = 0
    try:
        for index, kind, out, secs, hist in pool.run(
                range(first, first + runs),
                lambda: stopped or time.time() - t0 > wall):
            evaluations += 1
            if kind == "ok":
                stats.update(out["stats"])
                probes.update(out["probes"])
                sim_time += out["sim_time"]
                schedules.add(out["schedule"])
                if index < first + 12:
                    done[index] = out["digest"]
                if out["nontrivial"]:
                    nontrivial += 1
                    digests.add(out["digest"])
                    if len(samples) < 2:
                        samples.append({"index": index, "trace": out["trace"][:40],
                                        "plan": make_plan(mod, pid, tier, seed, index)})
                if not out["violations"]:
                    continue
                text = out["violations"][0]
                hit = next((t for p, t in listed if p.search(text)), None)
                if hit:
                    knowns[hit] = knowns.get(hit, 0) + 1
                    continue
            elif kind == "timeout":
                text = "hang: " + out
            else:
                problems.append("run %d: %s: %s" % (index, kind, out))
                if len(problems) > 20:
                    stopped.append(1)
                continue
            violated += 1
            suspects.append((index, hist, text))
            # the first one is enough: let the others finish, then minimise; a
            # single slow run does not end the search
            if kind != "timeout" or violated > 1:
                stopped.append(1)
    finally:
        pool.close()
    slow = 0
    for index, hist, text in sorted(suspects, key=lambda s: (s[2].startswith("hang: no end"),
                                                             s[0]))[:4]:
        if slow > 1:
            break
        result = confirm(mod, pid, tier, seed, index, hist, text, procs)
        if result:
            break
        if text.startswith("hang: no end"):
            slow += 1  # it ended without a violation when given more time
            continue
        unrepro += 1
        problems.append("run %d: not reproduced: %s" % (index, text))
    det = determinism(pid, tier, seed, done) if not result else {"checked": 0}
    took = time.time() - t0
    faults, points, other = _plain(stats)
    cov = {"evaluations": evaluations, "distinct_nontrivial": len(digests),
           "rule": mod.RULE, "samples": samples,
           "nontrivial_runs": nontrivial,
           "distinct_schedules": len(schedules),
           "distinct_measure": "hash of the event log (schedules); of event log and results "
                               "(distinct_nontrivial)",
           "seeds": "%s:%s:%d:<%d..%d>" % (pid, tier, seed, first, first + runs - 1),
           "runs_per_hour": round(evaluations / max(took, 1e-9) * 3600),
           "simulated_seconds": round(sim_time, 3),
           "faults_injected": faults, "counts": other, "probes": dict(sorted(probes.items())),
           "components_real": mod.REAL, "components_stub": mod.STUB,
           "determinism_check": det, "stopped_early": evaluations < runs,
           "machinery_problems": problems[:5], "slow_runs": slow}
    if points:
        cov["interruption_points"] = {"distinct": len(points), "most_hit": [
            [k[7:], v] for k, v in sorted(points.items(), key=lambda x: (-x[1], x[0]))[:10]]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []) + [
              "the simulated parts behave like the real ones in what the property depends on",
              "runs are sampled by seed: what no seed reaches is not decided"],
          "wall_s": round(took, 1), "violations": 1 if result else 0}
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for text in sorted(knowns):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    print("%s %s seed %d: %d runs, %d distinct non-trivial, %d schedules, %.0f s"
          % (pid, tier, seed, evaluations, len(digests), len(schedules), took))
    if result:
        path, text = result
        print("violation: " + text[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        print("machinery problem: " + "\n".join(problems[:3])[:3000], file=sys.stderr)
        return 2
    return 0
