"""What the output files of a run have to hold, derived from its results"""

import os

TEMP = ["dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air",
        "dT_glob_sea", "dT_NH_sea", "dT_SHsea"]
RIB = ["RIB_glob", "RIB_N", "RIB_S"]


def expected(spec, ref, carbon):
    """{suffix: (columns, values by row)} from the results of a reference run"""
    import numpy as np
    years = np.arange(spec["y0"], spec["y1"] + 1, dtype=float)

    def tab(keys):
        keys = [k for k in keys if k in ref]
        return ["Year"] + keys, np.column_stack([years] + [ref[k] for k in keys])

    out = {"ohc": tab(["OHC700", "OHCTOT"]), "rib": tab(RIB), "temp": tab(TEMP),
           "sunvolc": tab(["Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"])}
    if spec["kind"] == "forc":
        out["forc"] = tab(["Total_forcing"])
    else:
        for key, name in (("emissions", "em"), ("concentrations", "conc"), ("forcing", "forc"),
                          ("carbon cycle", "carbon")):
            if key != "carbon cycle" or carbon:
                df = ref[key]
                out[name] = (list(df.columns), df.to_numpy(dtype=float))
    return out


def diff_file(path, columns, values):
    """None, or how the file differs"""
    import numpy as np
    name = os.path.basename(path)
    try:
        with open(path, encoding="utf-8") as f:
            text = f.read()
    except FileNotFoundError:
        return "%s is missing" % name
    except UnicodeDecodeError:
        return "%s is not text" % name
    lines = text.split("\n")
    if lines[-1] != "":
        return "%s: last line is not complete" % name
    lines = lines[:-1]
    if not lines:
        return "%s is empty" % name
    head = lines[0].split("\t")
    if head != [str(c) for c in columns]:
        return "%s: columns %s instead of %s" % (name, head[:6], list(columns)[:6])
    if len(lines) - 1 != len(values):
        return "%s: %d lines instead of %d" % (name, len(lines) - 1, len(values))
    try:
        got = np.array([[float(x) if x else float("nan") for x in ln.split("\t")]
                        for ln in lines[1:]])
    except ValueError:
        return "%s: not all values are numbers" % name
    if got.shape != values.shape:
        return "%s: shape %s instead of %s" % (name, got.shape, values.shape)
    ok = np.isclose(got, values, rtol=1.1e-5, atol=1e-11, equal_nan=True)
    if not ok.all():
        i, j = (int(v) for v in np.argwhere(~ok)[0])
        return "%s: %r instead of %r in line %d column %s" % (
            name, float(got[i, j]), float(values[i, j]), i + 2, columns[j])
    return None


def check(folder, prefix, spec, ref, carbon):
    """None, or how the files of a run differ from what they should hold"""
    exp = expected(spec, ref, carbon)
    for suffix, (cols, vals) in exp.items():
        d = diff_file(os.path.join(folder, "%s_%s.txt" % (prefix, suffix)), cols, vals)
        if d:
            return d
    return None


def names(prefix, spec, carbon):
    s = ["ohc", "rib", "temp", "sunvolc", "forc"]
    if spec["kind"] != "forc":
        s += ["em", "conc"] + (["carbon"] if carbon else [])
    return ["%s_%s.txt" % (prefix, x) for x in s]
