"""
Scenarios and parameter sets: random JSON-able descriptions, and building the
real configuration dictionaries (with tables or files) from them.
"""

import copy
import functools
import io
import os

from . import env

KINDS = ("emis", "conc", "forc")
SPICY = ["CO2", "CH4", "N2O", "SO2", "NOx", "CO", "NMVOC", "BC", "OC"]
VANILLA = ["CFC-11", "HFC134a", "SF6", "CF4", "HCFC-22", "CH3Br"]
GASFILES = {"v1": "gases_v1RCMIP.txt", "ar6": "gases_vupdate_2022_AR6.txt"}


# ------------------------------------------------------------ descriptions


WIDE = 0.02  # share of scenarios over centuries


def gen_scen(rng, kinds=KINDS, name=None, src=None, wide=None, **fixed):
    """A random scenario description"""
    wide = rng.random() < (WIDE if wide is None else wide)
    kind = rng.choice(kinds)
    s = {"kind": kind, "name": name or "scen%d" % rng.randrange(1000)}
    if kind == "forc":
        s["y0"] = rng.choice([1750, 1850, 1900, 1951, 1990])
        s["y1"] = s["y0"] + rng.randint(4, 20)
        s["em"] = s["y0"] + 1
        s["forc"] = rng.choice(["array", "comp", "aero"])
    else:
        s["y0"] = rng.randint(1986, 1999)
        s["y1"] = rng.randint(2010, 2013)
        s["em"] = rng.choice([s["y0"] + 1, rng.randint(s["y0"] + 1, 2003), 2000])
        if s["em"] <= s["y0"]:
            s["em"] = s["y0"] + 1
        if kind == "conc" and rng.random() < 0.3:
            s["em"] = s["y1"] + 5
    s["idtm"] = rng.choice([4, 6, 6, 12])
    if wide and kind != "forc":
        s["y0"] = rng.choice([1750, 1750, rng.randint(1750, 1900), rng.randint(1850, 1985)])
        s["y1"] = rng.choice([2010, rng.randint(2010, 2050), 2100])
        s["em"] = rng.choice([max(1850, s["y0"] + 1), rng.randint(s["y0"] + 1, 2005)])
        s["idtm"] = 24  # coarser steps are not stable over centuries
    elif wide:
        s["y1"] = rng.choice([2100, s["y0"] + rng.randint(40, 200)])
    s["thermal"] = rng.choice(["default", "default", "twolayer"])
    s["carbon"] = rng.choice(["default", "default", "default", "box"])
    if wide and kind != "forc":
        s["carbon"] = "default"  # the box model runs away with some parameters
    s["gas"] = rng.choice(["v1", "ar6", "ar6", "reg"])
    s["sunvolc"] = rng.choice([0, 1])
    s["sun"] = rng.choice([None, None, "own"]) if s["sunvolc"] else None
    s["luc"] = rng.choice([None, None, "own"])
    s["nat"] = rng.choice(["flat", "file", "data"])
    s["src"] = src or rng.choice(["file", "data", "data", "mixed"])
    s["scale"] = {rng.choice(SPICY + VANILLA): round(rng.uniform(0.5, 2.0), 3)
                  for _ in range(rng.randint(0, 3))}
    s["pert_em"] = s["pert_forc"] = None
    if kind == "emis" and rng.random() < 0.35:
        s["pert_em"] = gen_pert(rng, s, SPICY + VANILLA, 0.9)
    if kind != "forc" and rng.random() < 0.35:
        s["pert_forc"] = gen_pert(rng, s, ["CO2", "OTHER", "SO2", "CH4", "BC",
                                           "TROP_O3", "CFC-11", "HFC134a"], 0.6)
    s.update(fixed)
    if s["kind"] != "emis":
        s["pert_em"] = None
    if s["kind"] == "forc":
        s["pert_forc"] = None
        s["gas"] = "ar6" if s["gas"] == "reg" else s["gas"]
    if s["gas"] == "reg" and s["kind"] == "conc" and s["src"] != "file":
        s["src"] = "data"
    return s


def gen_pert(rng, s, comps, size):
    out = []
    used = set()
    for _ in range(rng.randint(1, 5)):
        key = (rng.choice(comps), rng.randint(s["y0"], s["y1"]))
        if key in used:  # two entries for one component and year: not decided here
            continue
        used.add(key)
        out.append([key[0], key[1], round(rng.uniform(-size, size), 4)])
    return out


UDM = {"rlamdo": (5, 25), "akapa": (0.06, 0.8), "cpi": (0.161, 0.569),
       "W": (0.55, 2.55), "beto": (0, 7), "lambda": (0.5, 2.0), "mixed": (25, 125),
       "ocean_efficacy": (0.8, 1.2), "delta_lambda_aero": (-0.7, 3.0),
       "threstemp": (2.0, 9.0), "foan": (0.55, 0.65), "foas": (0.75, 0.85)}
UDM2 = {"lambda": (0.6, 2.0), "mixed": (25, 125), "deep": (600, 2000), "k": (0.2, 1.0),
        "ocean_efficacy": (0.8, 1.6), "delta_lambda_aero": (-0.3, 1.0),
        "foan": (0.55, 0.65), "foas": (0.75, 0.85)}
EMI = {"qbmb": (0, 2), "qo3": (0.4, 0.6), "qdirso2": (-0.006, -0.001),
       "qindso2": (-0.03, -0.01), "qbc": (0.004, 0.05), "qoc": (-0.008, -0.001),
       "qh2o_ch4": (0.08, 0.1), "qnmvoc": (0, 0.01), "qnh3": (0, 0.01),
       "qnox": (0, 0.01)}
CARB = {"beta_f": (0.11, 0.465), "mixed_carbon": (25, 125), "ml_w_sigmoid": (2, 4),
        "ml_fracmax": (0.3, 0.8), "ml_t_half": (-0.5, 1.0), "t_half": (0.3, 0.8),
        "w_sigmoid": (5, 10), "t_threshold": (3, 7), "w_threshold": (5, 10),
        "solubility_sens": (0.01, 0.03), "solubility_limit": (0.4, 0.8),
        "ml_depth_min": (5.0, 20.0), "preindustrial_co2_conc": (270.0, 290.0)}
BOX = {"beta_f": (0.11, 0.465), "land_temp_sensitivity": (0.05, 0.2),
       "soil_respiration_rate": (0.015, 0.025), "ocean_mixed_layer_depth": (20., 60.),
       "ocean_exchange_rate": (0.005, 0.02), "vegetation_to_soil_fraction": (0.08, 0.12),
       "ocean_solubility_base": (0.01, 0.03), "ocean_solubility_temp_coeff": (-0.02, 0.0)}


def _pick(rng, table, prob):
    return {k: round(rng.uniform(*v), 5) for k, v in table.items() if rng.random() < prob}


def gen_udm(rng, scen=None, prob=None):
    prob = rng.choice([0.0, 0.3, 0.8]) if prob is None else prob
    two = scen is not None and scen["thermal"] == "twolayer"
    p = _pick(rng, UDM2 if two else UDM, prob)
    if not two:
        p["lm"] = rng.choice([8, 10, 12])
        p["ldtime"] = rng.choice([1, 2, 3])
    return p


def gen_emi(rng, scen=None, prob=None, just_one=True):
    prob = rng.choice([0.0, 0.3, 0.8]) if prob is None else prob
    p = _pick(rng, EMI, prob)
    if rng.random() < 0.3:
        p["lifetime_mode"] = rng.choice(["TAR", "CONSTANT_12", "WIGLEY"])
    if just_one and rng.random() < 0.15:
        p["just_one"] = rng.choice(["CO2", "CH4", "SO2", "N2O"])
    if rng.random() < 0.15 and scen is not None and scen["y1"] > 2001:
        p["ref_yr"] = rng.randint(max(scen["y0"], 2001), scen["y1"])
    return p


def gen_carbon(rng, scen=None, prob=None, rfun=True):
    prob = rng.choice([0.0, 0.3, 0.8]) if prob is None else prob
    if scen is not None and scen["carbon"] == "box":
        return _pick(rng, BOX, prob)
    p = _pick(rng, CARB, prob)
    if rfun and rng.random() < 0.35:
        form = rng.choice(["flat_rb", "flat_rs", "flat_both", "dict_rb", "dict_rs"])
        c = [round(rng.uniform(0.2, 0.6), 4) for _ in range(3)]
        t = [round(rng.uniform(1, 5), 3), round(rng.uniform(5, 20), 3),
             round(rng.uniform(40, 200), 3)]
        if form in ("flat_rb", "flat_both"):
            for i in range(3):
                p["rb_coef%d" % i], p["rb_tim%d" % i] = c[i], t[i]
        if form in ("flat_rs", "flat_both"):
            cs = [0.1, 0.6, 0.15, round(rng.uniform(0.1, 0.2), 4)]
            for i in range(4):
                p["rs_coef%d" % i] = cs[i]
            for i in range(3):
                p["rs_tim%d" % i] = t[i]
        if form == "dict_rb":
            p["rb_function"] = {"coeffs": c, "timescales": t}
        if form == "dict_rs":
            p["rs_function"] = {"coeffs": [0.1, 0.6, 0.15, 0.15], "timescales": t}
    return p


def gen_params(rng, scen=None, none_ok=True, just_one=True):
    """udm, emiconc and carbon parameter sets for one run"""
    p = {"pamset_udm": gen_udm(rng, scen), "pamset_emiconc": gen_emi(rng, scen, just_one=just_one),
         "pamset_carbon": gen_carbon(rng, scen)}
    if scen is not None and scen["kind"] == "forc" and rng.random() < 0.7:
        p["pamset_emiconc"] = {} if rng.random() < 0.5 or not none_ok else None
        p["pamset_carbon"] = None
    if none_ok and rng.random() < 0.15:
        p["pamset_carbon"] = None
    if none_ok and rng.random() < 0.1:
        p["pamset_emiconc"] = None
    return p


# ---------------------------------------------------------------- building


@functools.lru_cache(None)
def _lines(fname):
    with open(os.path.join(env.DATA, fname), encoding="utf-8") as f:
        return f.read().splitlines()


def _em_file(scen):
    return ("ssp245_with_regional_aerosols_em_RCMIP.txt" if scen["gas"] == "reg"
            else "ssp245_em_RCMIP.txt")


@functools.lru_cache(64)
def _table_text(fname, scale):
    """Emission or concentration file with some columns scaled"""
    lines = _lines(fname)
    head = lines[0].split()
    fac = [1.0] * len(head)
    for i, h in enumerate(head):
        for k, v in scale:
            if h == k:
                fac[i] = v
    cols = [i for i, f in enumerate(fac) if f != 1.0]
    out = lines[:4]
    for ln in lines[4:]:
        if not ln.strip():
            continue
        if cols:
            w = ln.split()
            for i in cols:
                w[i] = repr(float(w[i]) * fac[i])
            ln = "\t".join(w)
        out.append(ln)
    return "\n".join(out) + "\n"


def _scale(scen):
    return tuple(sorted(scen["scale"].items()))


def em_text(scen):
    return _table_text(_em_file(scen), _scale(scen))


def conc_text(scen):
    return _table_text("ssp245_conc_RCMIP.txt", _scale(scen) if scen["kind"] == "conc" else ())


@functools.lru_cache(64)
def _em_df(fname, scale, y0):
    import pandas as pd
    df = pd.read_csv(io.StringIO(_table_text(fname, scale)), sep=r"\s+", index_col=0,
                     skiprows=[1, 2, 3])
    df = df.rename(columns={"CO2": "CO2_FF", "CO2.1": "CO2_AFOLU"})
    return df.loc[y0:]


@functools.lru_cache(64)
def _conc_df(scale, y0):
    import pandas as pd
    df = pd.read_csv(io.StringIO(_table_text("ssp245_conc_RCMIP.txt", scale)),
                     sep=r"\s+", index_col=0, skiprows=[1, 2, 3])
    return df.loc[y0:]


@functools.lru_cache(None)
def _gas_df(gas):
    import pandas as pd
    df = pd.read_csv(os.path.join(env.DATA, GASFILES["ar6" if gas == "reg" else gas]),
                     sep=r"\s+", index_col=0)
    df = df.rename(columns={"TAU1(YEARS)": "TAU1", "NATURAL_EMISSIONS": "NAT_EM"})
    if gas == "reg":
        reg = pd.read_csv(os.path.join(env.DATA, "HTAP_reg_aerosol_RF.txt"), sep="\t",
                          index_col=0).rename(columns={"sulfate": "SO2"})
        ns = env.Namespace()
        df = ns["pub_utils"].make_regional_aerosol_gaspamdata(df.copy(), reg.copy())
    return df


def _pert_df(rows, what):
    import pandas as pd
    return pd.DataFrame({"component": [r[0] for r in rows], "unit": ["u"] * len(rows),
                         "source": ["s"] * len(rows), "year": [r[1] for r in rows],
                         what: [r[2] for r in rows]})


def _rows_text(fname):
    return "\n".join(_lines(fname)) + "\n"


def forc_text(scen):
    n = scen["y1"] - scen["y0"] + 1
    f = scen["scale"].get("CO2", 1.0)
    if scen["forc"] == "array":
        return "".join("%r\n" % (f * (0.02 * i + (0.3 if i % 5 == 2 else 0.0)))
                       for i in range(n))
    if scen["forc"] == "comp":
        out = ["year,CO2,CH4"]
        out += ["%d,%r,%r" % (scen["y0"] + i, f * 0.02 * i, 0.004 * i) for i in range(n)]
    else:
        out = ["year,CO2,SO2,BC"]
        out += ["%d,%r,%r,%r" % (scen["y0"] + i, f * 0.03 * i, -0.01 * i, 0.002 * i)
                for i in range(n)]
    return "\n".join(out) + "\n"


def _forc_data(scen):
    import numpy as np
    import pandas as pd
    if scen["forc"] == "array":
        return np.loadtxt(io.StringIO(forc_text(scen)))
    df = pd.read_csv(io.StringIO(forc_text(scen)), index_col=0)
    tot = df.sum(axis=1)
    df["total"] = tot
    df["FORC_NH"] = tot
    df["FORC_SH"] = tot
    return df


def _is_file(scen, which):
    if scen["src"] == "mixed":
        return which in ("emissions", "gaspam", "rf_volc_n", "rf_luc", "forc", "perturb_forc")
    return scen["src"] == "file"


def build(scen, folder):
    """
    Make the configuration dictionary of a scenario

    Fresh tables every time; files are written to folder.
    """
    os.makedirs(folder, exist_ok=True)
    cfg = {"nystart": scen["y0"], "nyend": scen["y1"], "emstart": scen["em"],
           "idtm": scen["idtm"], "thermal_model": scen["thermal"],
           "carbon_cycle_model": scen["carbon"], "scenname": scen["name"],
           "sunvolc": scen["sunvolc"]}
    if scen.get("omit"):
        for k in scen["omit"]:
            cfg.pop(k, None)

    def put(which, text, data):
        if _is_file(scen, which):
            path = os.path.join(folder, which + ".txt")
            with open(path, "w", encoding="utf-8") as f:
                f.write(text() if callable(text) else text)
            cfg[which + "_file"] = path
        else:
            cfg[which + "_data"] = data()

    gas_file = scen["gas"] != "reg" and _is_file(scen, "gaspam")
    if gas_file:
        path = os.path.join(folder, "gaspam.txt")
        with open(path, "w", encoding="utf-8") as f:
            f.write(_rows_text(GASFILES[scen["gas"]]))
        cfg["gaspam_file"] = path
    else:
        cfg["gaspam_data"] = _gas_df(scen["gas"]).copy()

    import numpy as np
    import pandas as pd
    if scen["kind"] == "forc":
        put("forc", lambda: forc_text(scen), lambda: _forc_data(scen))
    else:
        put("emissions", lambda: em_text(scen),
            lambda: _em_df(_em_file(scen), _scale(scen), scen["y0"]).copy())
        put("concentrations", lambda: conc_text(scen),
            lambda: _conc_df(_scale(scen) if scen["kind"] == "conc" else (),
                             scen["y0"]).copy())
        if scen["kind"] == "conc":
            cfg["conc_run"] = True
        if scen["nat"] == "file":
            for c in ("ch4", "n2o"):
                path = os.path.join(folder, "nat_%s.txt" % c)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(_rows_text("natemis_%s.txt" % c))
                cfg["nat_%s_file" % c] = path
        elif scen["nat"] == "data":
            for c in ("ch4", "n2o"):
                vals = [float(x) for x in _lines("natemis_%s.txt" % c) if x.strip()]
                cfg["nat_%s_data" % c] = pd.DataFrame(
                    {c.upper(): vals}, index=np.arange(1750, 1750 + len(vals)))
        if scen["pert_em"]:
            put("perturb_em",
                lambda: _pert_df(scen["pert_em"], "emission").to_csv(index=False),
                lambda: _pert_df(scen["pert_em"], "emission"))
        if scen["pert_forc"]:
            put("perturb_forc",
                lambda: _pert_df(scen["pert_forc"], "forcing").to_csv(index=False),
                lambda: _pert_df(scen["pert_forc"], "forcing"))
    own = []
    if scen["sunvolc"] and scen.get("sun") == "own":
        own += [("rf_sun", 1, 0.01), ("rf_volc_n", 12, -0.02), ("rf_volc_s", 12, -0.03)]
    if scen.get("luc") == "own":
        own += [("rf_luc", 1, -0.03)]
    f = scen.get("ownfac", 1.0)
    for w, m, a in own:
        put(w, lambda m=m, a=a: "".join(
            "\t".join("%.5f" % (f * (a * (i % 11) - 0.002 * j)) for j in range(m)) + "\n"
            for i in range(751)),
            lambda m=m, a=a: pd.DataFrame(
                [[round(f * (a * (i % 11) - 0.002 * j), 5) for j in range(m)]
                 for i in range(scen["y0"] - 1750, scen["y1"] - 1749)],
                index=np.arange(scen["y0"], scen["y1"] + 1)))
    return cfg


def fresh(params):
    return copy.deepcopy(params)


def merge_carbon(old, new):
    """Carbon cycle parameters in force when `new` is given after `old`"""
    out = dict(old or {})
    if not new:
        return out
    for p in ("rb_", "rs_"):
        if any(k.startswith(p) for k in new):
            out = {k: v for k, v in out.items() if not k.startswith(p)}
    out.update(copy.deepcopy(new))
    return out


def gen_full(rng, scen):
    """Parameters with every carbon cycle parameter given"""
    p = gen_params(rng, scen, none_ok=False)
    if scen["kind"] == "forc":
        return p
    if scen["carbon"] == "box":
        p["pamset_carbon"] = _pick(rng, BOX, 2.0)
    else:
        c = _pick(rng, CARB, 2.0)
        c["rb_function"] = {"coeffs": [0.3, 0.4, round(rng.uniform(0.2, 0.4), 4)],
                            "timescales": [2.5, 11.0, round(rng.uniform(50, 100), 3)]}
        c["rs_function"] = {"coeffs": [0.1, 0.6, 0.15, round(rng.uniform(0.1, 0.2), 4)],
                            "timescales": [1.2, 13.0, round(rng.uniform(50, 100), 3)]}
        p["pamset_carbon"] = c
    return p


def simpler(spec):
    """Simpler versions of a scenario description"""
    for k, v in (("pert_em", None), ("pert_forc", None), ("scale", {}), ("sunvolc", 0),
                 ("luc", None), ("nat", "flat"), ("src", "data"), ("gas", "v1"), ("thermal", "default"),
                 ("carbon", "default")):
        if spec.get(k) != v and k in spec and spec[k]:
            if k == "carbon":
                continue  # parameters would not fit
            if k == "thermal":
                continue
            yield dict(copy.deepcopy(spec), **{k: v})


def simpler_params(p):
    for k in ("pamset_emiconc", "pamset_carbon", "pamset_udm"):
        if p.get(k):
            keep = {a: b for a, b in p[k].items() if a in ("lm", "ldtime")}
            if keep != p[k]:
                yield dict(copy.deepcopy(p), **{k: keep})
