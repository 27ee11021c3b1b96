"""
References and comparisons.

The reference for a run is the same code on a fresh Namespace with freshly
built inputs and none of the seams in place: what running "alone on a newly
made model" gives.
"""

import collections
import json
import shutil
import tempfile

from . import env, scen, trace

RTOL, ATOL = 1e-9, 1e-11


class RefError:
    """The reference run raised"""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.text = str(exc)

    def __repr__(self):
        return "RefError(%s: %s)" % (self.kind, self.text[:100])


_cache = collections.OrderedDict()
CACHE_SIZE = 600


def _cached(key, fn):
    if key in _cache:
        _cache.move_to_end(key)
        return _cache[key]
    val = fn()
    _cache[key] = val
    while len(_cache) > CACHE_SIZE:
        _cache.popitem(last=False)
    return val


def key_of(*parts):
    return json.dumps(parts, sort_keys=True, default=str)


def single(spec, params, runcfg=None, count=False):
    """
    Results of one run alone on a newly made model

    Returns (results dict or RefError, map of the lines run if count)
    """
    runcfg = runcfg or {"results_as_dict": True, "carbon_cycle_outputs": True}
    key = key_of("single", spec, params, runcfg, count)

    def make():
        d = tempfile.mkdtemp(prefix="cscmref")
        try:
            ns = env.Namespace()
            cfg = scen.build(spec, d)
            p = scen.fresh(params)
            n = None
            with ns.active(), env.quiet():
                try:
                    model = ns.CICEROSCM(cfg)
                    if count:
                        with trace.count_lines() as n:
                            model._run(dict(runcfg), **p)
                    else:
                        model._run(dict(runcfg), **p)
                    return model.results, n
                except Exception as exc:  # pylint: disable=broad-except
                    return RefError(exc), n
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _cached(key, make)


# ------------------------------------------------------------- comparing


def diff_values(a, b, what=""):
    """None, or a description of the first difference"""
    import numpy as np
    import pandas as pd
    if isinstance(b, pd.DataFrame):
        if not isinstance(a, pd.DataFrame):
            return "%s: %s instead of a table" % (what, type(a).__name__)
        if list(a.columns) != list(b.columns):
            extra = [c for c in a.columns if c not in set(b.columns)]
            miss = [c for c in b.columns if c not in set(a.columns)]
            if extra or miss:
                return "%s: columns extra %s missing %s" % (what, extra[:5], miss[:5])
            return "%s: columns in other order" % what
        if list(a.index) != list(b.index):
            return "%s: index %s instead of %s" % (what, list(a.index)[:4], list(b.index)[:4])
        for i, c in enumerate(b.columns):
            d = diff_values(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(),
                            "%s[%s]" % (what, c))
            if d:
                return d
        return None
    if isinstance(b, pd.Series):
        if not isinstance(a, pd.Series):
            return "%s: %s instead of a series" % (what, type(a).__name__)
        return diff_values(a.to_numpy(), b.to_numpy(), what)
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray):
            return "%s: %s instead of an array" % (what, type(a).__name__)
        if a.shape != b.shape:
            return "%s: shape %s instead of %s" % (what, a.shape, b.shape)
        try:
            x, y = a.astype(float), b.astype(float)
        except (TypeError, ValueError):
            if not all(_eq(u, v) for u, v in zip(a.ravel(), b.ravel())):
                return "%s: different values" % what
            return None
        ok = np.isclose(x, y, rtol=RTOL, atol=ATOL, equal_nan=True)
        if not ok.all():
            i = tuple(int(v) for v in np.argwhere(~ok)[0])
            return "%s: %r instead of %r at %s (%d of %d differ)" % (
                what, float(x[i]), float(y[i]), i, int((~ok).sum()), ok.size)
        return None
    if isinstance(b, dict):
        if not isinstance(a, dict):
            return "%s: %s instead of a dictionary" % (what, type(a).__name__)
        extra = [k for k in a if k not in b]
        miss = [k for k in b if k not in a]
        if extra or miss:
            return "%s: keys extra %s missing %s" % (what, extra[:5], miss[:5])
        for k in b:
            d = diff_values(a[k], b[k], "%s[%s]" % (what, k))
            if d:
                return d
        return None
    if isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d instead of %d" % (what, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_values(x, y, "%s[%d]" % (what, i))
            if d:
                return d
        return None
    if not _eq(a, b):
        return "%s: %r instead of %r" % (what, a, b)
    return None


def _eq(a, b):
    try:
        if a == b:
            return True
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return (a != a and b != b) or abs(a - b) <= ATOL + RTOL * abs(b)
        return bool(a is b)
    except Exception:  # pylint: disable=broad-except
        return a is b


def diff_results(got, ref):
    """Compare results dictionaries"""
    if not isinstance(got, dict):
        return "results are a %s" % type(got).__name__
    return diff_values(got, ref, "results")


def frozen(obj):
    """A deep copy that compares bit for bit with same()"""
    import copy
    return copy.deepcopy(obj)


def same(a, b, path=""):
    """Bit for bit equality (types, dtypes, labels, values); None or a description"""
    import numpy as np
    import pandas as pd
    if type(a) is not type(b):
        return "%s: type %s was %s" % (path, type(a).__name__, type(b).__name__)
    if isinstance(a, pd.DataFrame):
        if list(a.columns) != list(b.columns):
            return "%s: columns changed" % path
        if list(a.index) != list(b.index) or a.index.dtype != b.index.dtype:
            return "%s: index changed" % path
        if a.attrs != b.attrs:
            return "%s: attributes changed" % path
        if [str(t) for t in a.dtypes] != [str(t) for t in b.dtypes]:
            return "%s: column types changed" % path
        if set(str(t) for t in a.dtypes) == {"float64"}:  # the usual case, quicker
            x, y = a.to_numpy(), b.to_numpy()
            if a.index.name == b.index.name and a.columns.name == b.columns.name \
                    and bool(np.all((x == y) | ((x != x) & (y != y)))):
                return None
        for i, c in enumerate(a.columns):
            d = same(a.iloc[:, i].to_numpy(), b.iloc[:, i].to_numpy(), "%s[%s]" % (path, c))
            if d:
                return d
        if a.index.name != b.index.name or a.columns.name != b.columns.name:
            return "%s: names changed" % path
        return None
    if isinstance(a, pd.Series):
        if list(a.index) != list(b.index) or a.index.dtype != b.index.dtype:
            return "%s: index changed" % path
        if a.name != b.name or a.index.name != b.index.name:
            return "%s: names changed" % path
        return same(a.to_numpy(), b.to_numpy(), path)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return "%s: shape or type changed" % path
        if a.dtype.kind == "f":
            ok = (a == b) | ((a != a) & (b != b))
        else:
            ok = np.array([_exact(x, y) for x, y in zip(a.ravel(), b.ravel())])
        if not np.all(ok):
            i = int(np.argwhere(~np.ravel(ok))[0][0])
            return "%s: value %r was %r (position %d)" % (
                path, a.ravel()[i], b.ravel()[i], i)
        return None
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return "%s: key %s removed" % (path, k)
        for k in a:
            if k not in b:
                return "%s: key %s added" % (path, k)
            d = same(a[k], b[k], "%s[%s]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d was %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if _exact(a, b) else "%s: %r was %r" % (path, a, b)


def _exact(x, y):
    return x is y or bool(x == y) or (x != x and y != y)


# --------------------------------------------------- ensemble variables

DIRECT = {"Surface Air Temperature Change": ("dT_glob_air", "K", 1.0),
          "Surface Air Ocean Blended Temperature Change": ("dT_glob", "K", 1.0),
          "Surface Air Ocean Temperature Change": ("dT_glob_sea", "K", 1.0),
          "Heat Content|Ocean": ("OHCTOT", "ZJ", 10.0),
          "Heat Content|Ocean|0-700m": ("OHC700", "ZJ", 10.0)}
ERF = "Effective Radiative Forcing|Anthropogenic|"
FORC = {ERF[:-1]: "Total_forcing", ERF + "CO2": "CO2", ERF + "CH4": "CH4",
        ERF + "N2O": "N2O", ERF + "Other|Stratospheric H2O": "STRAT_H2O",
        ERF + "Ozone|Stratospheric Contribution": "STRAT_O3",
        ERF + "Ozone|Tropospheric Contribution": "TROP_O3",
        ERF + "Aerosol|Aerosol-radiation Interactions|BC": "BC",
        ERF + "Aerosol|Aerosol-radiation Interactions|OC": "OC",
        ERF + "Aerosol|Aerosol-radiation Interactions|Sulfate": "SO4_DIR",
        ERF + "Aerosol|Aerosol-cloud Interactions": "SO4_IND",
        "Effective Radiative Forcing|Aerosols|Direct Effect|SOx": "SO4_DIR"}
FGASES = {"HFC125": "HFC|HFC125", "HFC134a": "HFC|HFC134a", "HFC143a": "HFC|HFC143a",
          "HFC227ea": "HFC|HFC227ea", "HFC23": "HFC|HFC23", "HFC245fa": "HFC|HFC245fa",
          "HFC32": "HFC|HFC32", "HFC4310mee": "HFC|HFC4310mee", "C2F6": "PFC|C2F6",
          "C6F14": "PFC|C6F14", "CF4": "PFC|CF4", "SF6": "SF6"}
MONTREAL = {"CFC-11": "CFC|CFC11", "CFC-12": "CFC|CFC12", "CFC-113": "CFC|CFC113",
            "CFC-114": "CFC|CFC114", "CFC-115": "CFC|CFC115", "CH3Br": "CH3Br",
            "CCl4": "CCl4", "CH3CCl3": "CH3CCl3", "HCFC-22": "HCFC22",
            "HCFC-141b": "HCFC141b", "HCFC-123": "HCFC123", "HCFC-142b": "HCFC142b",
            "H-1211": "Halon1211", "H-1301": "Halon1301", "H-2402": "Halon2402"}
CONC = {"Atmospheric Concentrations|CO2": ("CO2", "ppm"),
        "Atmospheric Concentrations|CH4": ("CH4", "ppb"),
        "Atmospheric Concentrations|N2O": ("N2O", "ppb")}
for _group, _gases in (("F-Gases|", FGASES), ("Montreal Gases|", MONTREAL)):
    for _gas, _long in _gases.items():
        FORC[ERF + _group + _long] = _gas
        CONC["Atmospheric Concentrations|" + _group + _long] = (_gas, "ppt")
SUMS = {ERF + "F-Gases": tuple(FGASES),
        "Effective Radiative Forcing|Greenhouse Gases":
        tuple(FGASES) + tuple(MONTREAL) + ("CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3",
                                           "STRAT_H2O")}
EMIS = {"Emissions|CO2": "CO2", "Emissions|CH4": "CH4", "Emissions|N2O": "N2O"}
EM_UNITS = {"Emissions|CO2": ("PgC / yr", "Pg_C / yr"),
            "Emissions|CH4": ("TgCH4 / yr", "Tg / yr"),
            "Emissions|N2O": ("TgN2ON / yr",)}
CARBON = {"Carbon Flux|Land": ("Biosphere carbon flux", "Pg C / yr"),
          "Carbon Flux|Ocean": ("Ocean carbon flux", "Pg C / yr"),
          "Airborne fraction CO2": ("Airborne fraction CO2", "Unitless")}
POOLS = {"Carbon Pool|Land": "Biosphere carbon flux",
         "Carbon Pool|Ocean": "Ocean carbon flux"}
UNKNOWN = ["No Such Variable", "Emissions|NoSuchGas", "Atmospheric Concentrations|XYZ",
           "Effective Radiative Forcing|Anthropogenic|Unobtainium"]


def variables_for(spec):
    """Ensemble variables that scenarios of this kind have"""
    out = ["Surface Air Ocean Blended Temperature Change", "Heat Uptake",
           "Heat Content|Ocean", "Heat Content|Ocean|0-700m"]
    if spec["thermal"] == "default":
        out += ["Surface Air Temperature Change", "Surface Air Ocean Temperature Change"]
    if spec["kind"] != "forc":
        out += list(CONC) + list(EMIS) + ["Effective Radiative Forcing",
                                          ERF + "Aerosol",
                                          ERF + "Aerosol|Aerosol-radiation Interactions"]
        out += list(SUMS)
        out += [v for v in FORC]
        out += ["Carbon Flux|Ocean", "Carbon Pool|Ocean"]
        if not (spec["carbon"] == "box" and spec["kind"] == "conc"):
            out += ["Airborne fraction CO2"]
        if spec["carbon"] == "default":
            out += ["Carbon Flux|Land", "Carbon Pool|Land", "Net Flux to Atmosphere|CO2"]
    return out


def common_variables(specs):
    sets = [variables_for(s) for s in specs]
    return [v for v in sets[0] if all(v in s for s in sets)]


def expected_row(variable, res):
    """(units allowed, values or None if not decided here) from results of one run"""
    import numpy as np
    if variable in DIRECT:
        k, u, f = DIRECT[variable]
        return (u,), res[k] * f
    if variable == "Heat Uptake":
        return ("ZJ / yr",), ("scaled", res["RIB_glob"])
    if variable in FORC:
        return ("W/m^2",), res["forcing"][FORC[variable]].to_numpy()
    if variable in SUMS:
        return ("W/m^2",), sum(res["forcing"][k].to_numpy() for k in SUMS[variable])
    if variable == "Effective Radiative Forcing":
        return ("W/m^2",), (res["forcing"]["Total_forcing"].to_numpy()
                            + (res["Volcanic_forcing_NH"] + res["Volcanic_forcing_SH"]) / 2
                            + res["Solar_forcing"])
    if variable in CONC:
        k, u = CONC[variable]
        return (u,), res["concentrations"][k].to_numpy()
    if variable in EMIS:
        k = EMIS[variable]
        if k == "CO2" and "Emissions" in res["carbon cycle"]:
            return EM_UNITS[variable], res["carbon cycle"]["Emissions"].to_numpy()
        return EM_UNITS[variable], res["emissions"][k].to_numpy()
    if variable in CARBON:
        k, u = CARBON[variable]
        return (u,), res["carbon cycle"][k].to_numpy()
    if variable in POOLS:
        return ("Pg C",), np.cumsum(res["carbon cycle"][POOLS[variable]].to_numpy())
    if variable == "Net Flux to Atmosphere|CO2":
        c = res["carbon cycle"]
        return ("Pg C / yr",), (-c["Biosphere carbon flux"] - c["Ocean carbon flux"]).to_numpy()
    return None, None


def alone_row(spec, params, variable):
    """Row of a one-member serial ensemble on its own (label columns and values)"""
    key = key_of("row", spec, params, variable)

    def make():
        d = tempfile.mkdtemp(prefix="cscmref")
        try:
            ns = env.Namespace()
            cfg = scen.build(spec, d)
            with ns.active(), env.quiet():
                df = ns.run_ciceroscm_parallel(
                    [cfg], [dict(scen.fresh(params), Index="i")], [variable], max_workers=1)
            return df
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _cached(key, make)


_rib = []


def _rib_factor(spec):
    # ocean area m2 * seconds per year / 1e21, from the constants of the model
    if not _rib:
        c = env.Namespace()["constants"]
        _rib.append(c.OCEAN_AREA * c.SEC_DAY * c.DAY_YEAR / 1e21)
    return _rib[0]


META = ["climate_model", "model", "run_id", "scenario", "region", "variable", "unit"]


def check_ensemble(df, specs, cfgs, variables):
    """
    Compare an ensemble table with its definition

    specs: scenario descriptions; cfgs: configurations with pamset_* and Index;
    None, or a description of the first difference.
    """
    import numpy as np
    import pandas as pd
    if not isinstance(df, pd.DataFrame):
        return "returned %s, not a table" % type(df).__name__
    if isinstance(df.columns, pd.MultiIndex) or any(m not in df.columns for m in META[:]):
        return "label columns missing: %s" % [m for m in META if m not in df.columns]
    if not df.columns.is_unique:
        return "repeated columns"
    labels = list(zip(df["scenario"], df["run_id"], df["variable"]))
    want = [(s["name"], c["Index"], v) for s in specs for c in cfgs for v in variables
            if v not in UNKNOWN]
    if labels != want and len(set(variables)) < len(variables):
        # a variable asked for twice may as well be given once
        variables = list(dict.fromkeys(variables))
        want = [(s["name"], c["Index"], v) for s in specs for c in cfgs for v in variables
                if v not in UNKNOWN]
    if labels != want:
        if sorted(map(str, labels)) == sorted(map(str, want)):
            i = next(i for i in range(len(want)) if labels[i] != want[i])
            return "rows in wrong order from row %d: %s instead of %s" % (
                i, labels[i], want[i])
        miss = [w for w in want if w not in set(labels)]
        extra = [w for w in labels if w not in set(want)]
        return "%d rows instead of %d; missing %s, extra %s" % (
            len(labels), len(want), miss[:3], extra[:3])
    allyears = sorted({y for s in specs for y in range(s["y0"], s["y1"] + 1)})
    ycols = [c for c in df.columns if c not in META]
    if sorted(int(c) for c in ycols) != allyears:
        return "year columns %s..%s (%d) instead of %s..%s (%d)" % (
            ycols[:1], ycols[-1:], len(ycols), allyears[0], allyears[-1], len(allyears))
    row = 0
    values = df[ycols].to_numpy()
    colyear = [int(c) for c in ycols]
    meta = df[META]
    for s in specs:
        years = range(s["y0"], s["y1"] + 1)
        pos = {y: i for i, y in enumerate(colyear)}
        idx = [pos[y] for y in years]
        off = [i for i in range(len(colyear)) if i not in set(idx)]
        for c in cfgs:
            params = {k: v for k, v in c.items() if k.startswith("pamset")}
            res, _ = single(s, params)
            for v in variables:
                if v in UNKNOWN:
                    continue
                where = "scenario %s configuration %s variable %s" % (s["name"], c["Index"], v)
                if isinstance(res, RefError):
                    return "%s: got a row, but alone it fails: %r" % (where, res)
                m = meta.iloc[row]
                if m["climate_model"] != "CICERO-SCM-PY" or m["region"] != "World" \
                        or m["model"] != s["name"]:
                    return "%s: labels %s" % (where, list(m))
                vals = values[row]
                try:
                    got = np.array([float(vals[i]) for i in idx])
                except (TypeError, ValueError):
                    return "%s: value missing" % where
                if off and not all(pd.isna(vals[i]) for i in off):
                    return "%s: values outside of the years of the scenario" % where
                units, want_v = expected_row(v, res)
                if units is None:
                    ref = alone_row(s, params, v)
                    units = (ref["unit"].iloc[0],)
                    want_v = np.array([float(ref[y].iloc[0]) for y in years])
                elif isinstance(want_v, tuple):
                    want_v = want_v[1] * _rib_factor(s)
                if m["unit"] not in units:
                    return "%s: unit %s instead of %s" % (where, m["unit"], units[0])
                d = diff_values(got, np.asarray(want_v, dtype=float), where)
                if d:
                    return d
                row += 1
    return None
