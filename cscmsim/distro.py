"""Sampled ensembles: descriptions, the random number seam, and what must hold"""

import contextlib

from . import scen

THERMAL = set(scen.UDM) | set(scen.UDM2) | {"lm", "ldtime", "ebbeta"}
CARBON = set(scen.CARB) | set(scen.BOX)
EMICONC = set(scen.EMI)
RFUN = ["rb_coef0", "rb_coef1", "rb_coef2", "rb_tim0", "rb_tim1", "rb_tim2",
        "rs_coef0", "rs_coef1", "rs_coef2", "rs_coef3", "rs_tim0", "rs_tim1", "rs_tim2"]


def group(pam):
    """Parameter set that has to hold a parameter; None if not decided"""
    if pam in THERMAL:
        return "pamset_udm"
    if pam in CARBON or pam in RFUN:
        return "pamset_carbon"
    if pam in EMICONC:
        return "pamset_emiconc"
    return None


def gen(rng):
    """Description of a distribution"""
    table = dict(scen.UDM)
    table.update(scen.UDM2)
    table.update(scen.EMI)
    table.update(scen.CARB)
    table.update(scen.BOX)
    for p in RFUN:
        table[p] = (0.1, 0.5) if "coef" in p else (1.0, 60.0)
    table["ebbeta"] = (-0.2, 0.3)
    table["npp0"] = (55, 75)
    names = sorted(table)
    d = {"method": rng.choice(["latin", "latin", "latin", "gaussian", "gaussian", None]),
         "forc": rng.choice([False, False, True, None]), "prior": None, "set": None}
    if rng.random() < 0.75:
        pams = rng.sample(names, rng.choice([1, 2, 3, 6, 12, 25]))
        d["prior"] = {}
        for p in pams:
            lo, hi = table[p]
            w = (hi - lo) * rng.choice([1.0, 0.3, 1e-6])
            lo = lo + rng.random() * (hi - lo - w)
            d["prior"][p] = [round(lo, 9), round(lo + w, 9)]
            if d["prior"][p][0] >= d["prior"][p][1]:
                d["prior"][p] = [table[p][0], table[p][1]]
    if rng.random() < 0.75:
        d["set"] = {}
        for p in rng.sample(names, rng.choice([0, 1, 2, 5, 10])):
            lo, hi = table[p]
            d["set"][p] = rng.choice([round(rng.uniform(lo, hi), 6), 0, 0.0, lo, 1])
        if rng.random() < 0.3:
            d["set"]["lifetime_mode"] = rng.choice(["TAR", "WIGLEY"])
        if rng.random() < 0.3:
            d["set"]["lm"] = 40
    return d


def sampled(d, ns_prior, ns_set):
    """(priors of the sampled parameters, fixed values)"""
    prior = d["prior"] if d["prior"] is not None else ns_prior
    fixed = d["set"] if d["set"] is not None else ns_set
    out = {p: v for p, v in prior.items() if p not in fixed}
    if d["forc"]:
        out = {p: v for p, v in out.items() if p in THERMAL}
    return out, fixed


def make(ns, d):
    import copy
    opts = {k: d[k] for k in ("method", "forc") if d[k] is not None}
    if not opts and d["prior"] is None:
        opts = None
    return ns.ConfigDistro(copy.deepcopy(d["prior"]), copy.deepcopy(d["set"]), opts)


def flatten(lists):
    out = []
    for x in lists:
        if isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    return out


GROUPS = ("pamset_udm", "pamset_emiconc", "pamset_carbon")


def find(cfg, pam):
    return [g for g in GROUPS if pam in (cfg.get(g) or {})]


def check(cfgs, n, prior, fixed, method, extreme=False):
    """None, or what is wrong with a list of sampled configurations"""
    import numpy as np
    if len(cfgs) != n:
        return "%d configurations instead of %d" % (len(cfgs), n)
    ids = [c.get("Index") for c in cfgs]
    if None in ids or len(set(ids)) != n:
        return "identifiers are not distinct: %s" % ids[:6]
    cols = {}
    for i, c in enumerate(cfgs):
        for p, v in fixed.items():
            g = find(c, p)
            if not g:
                return "fixed parameter %s is not in configuration %d" % (p, i)
            if len(g) > 1 or (group(p) and g[0] != group(p)):
                return "fixed parameter %s is in %s of configuration %d" % (p, g, i)
            if c[g[0]][p] != v:
                return "fixed parameter %s is %r instead of %r in configuration %d" % (
                    p, c[g[0]][p], v, i)
        for p in prior:
            g = find(c, p)
            if not g:
                return "sampled parameter %s is not in configuration %d" % (p, i)
            if len(g) > 1 or (group(p) and g[0] != group(p)):
                return "sampled parameter %s is in %s of configuration %d" % (p, g, i)
            cols.setdefault(p, []).append(float(c[g[0]][p]))
    for p, v in cols.items():
        lo, hi = (float(x) for x in prior[p])
        a = np.sort(np.array(v))
        if not np.isfinite(a).all():
            return "sample of %s is not finite" % p
        if method == "latin":
            u = (a - lo) / (hi - lo) * n
            k = np.arange(n)
            tol = 1e-6 + 1e-9 * abs(hi + lo) / (hi - lo) * n
            if (u < k - tol).any() or (u > k + 1 + tol).any():
                i = int(np.argwhere((u < k - tol) | (u > k + 1 + tol))[0][0])
                return ("slices of the prior of %s do not hold one sample each: sorted "
                        "sample %d of %d is %r, prior %s" % (p, i, n, a[i], prior[p]))
        elif not extreme and n >= 400:
            mean, std = (lo + hi) / 2, (hi - lo) / 2
            if abs(a.mean() - mean) > 6 * std / np.sqrt(n):
                return "mean of %s is %r instead of %r" % (p, a.mean(), mean)
            if not 0.75 * std < a.std() < 1.25 * std:
                return "spread of %s is %r instead of %r" % (p, a.std(), std)
            if n >= 8000:
                # the shape: share of samples beyond one, two and three spreads
                z = np.abs(a - mean) / std
                for lim, want in ((1, 0.31731), (2, 0.0455), (3, 0.0027)):
                    share = float((z > lim).mean())
                    dev = (share - want) / np.sqrt(want / n)
                    if not -(4.8 if lim == 3 else 6) < dev < (9 if lim == 3 else 6):
                        return "share %r of %s is beyond %d spreads instead of %r" % (
                            share, p, lim, want)
                if abs(float((a > mean).mean()) - 0.5) > 3.3 / np.sqrt(n):
                    return "share %r of %s is above the mean" % (
                        float((a > mean).mean()), p)
    if not extreme and n >= 8:
        unit = {}
        for p, v in cols.items():
            lo, hi = (float(x) for x in prior[p])
            if hi - lo < 1e-5 * (abs(hi) + abs(lo)):
                continue
            key = tuple(np.round((np.array(v) - lo) / (hi - lo), 6))
            if key in unit:
                return "parameters %s and %s have the same sample" % (unit[key], p)
            unit[key] = p
    return None


@contextlib.contextmanager
def random_seam(seed, extreme=None):
    """
    Random generators made without a seed get one from the plan

    extreme: "low" or "high": the generator delivers the ends of its range
    """
    import numpy as np
    real_rng, real_normal = np.random.default_rng, np.random.normal
    count = [0]

    class Extreme(np.random.Generator):
        def uniform(self, low=0.0, high=1.0, size=None):
            v = low if extreme == "low" else np.nextafter(high, low)
            return np.full(size, v) if size is not None else v

        def random(self, size=None, *a, **k):
            return self.uniform(size=size)

        def normal(self, loc=0.0, scale=1.0, size=None):
            v = loc + scale * (-8.0 if extreme == "low" else 8.0)
            return np.full(size, v) if size is not None else v

        def shuffle(self, x, axis=0):
            if extreme == "high":
                x[:] = x[::-1].copy()

    def default_rng(s=None):
        if s is not None:
            return real_rng(s)
        count[0] += 1
        bits = np.random.PCG64(np.random.SeedSequence([seed, count[0]]))
        return Extreme(bits) if extreme else np.random.Generator(bits)

    def normal(loc=0.0, scale=1.0, size=None):
        if extreme:
            v = loc + scale * (-8.0 if extreme == "low" else 8.0)
            return np.full(size, v) if size is not None else v
        return real_normal(loc, scale, size)

    np.random.seed(seed & 0xFFFFFFFF)
    np.random.default_rng = default_rng
    np.random.normal = normal
    try:
        yield count
    finally:
        np.random.default_rng, np.random.normal = real_rng, real_normal
