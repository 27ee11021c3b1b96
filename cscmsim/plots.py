"""
Plots: drawing is replaced by writing the data of all lines to the file.

Figures and axes are the real ones of matplotlib; only the rendering at the
end (Figure.savefig, tight_layout) is replaced, so that what a plot shows can
be compared, and the file is written through the file system seam.
"""

import contextlib
import json
import os


@contextlib.contextmanager
def captured():
    import matplotlib.figure as mf
    import matplotlib.pyplot as plt
    import numpy as np

    def savefig(self, fname, **_kw):
        axes = []
        for ax in self.axes:
            axes.append({"title": ax.get_title(),
                         "lines": [[ln.get_label(),
                                    np.asarray(ln.get_xdata(), dtype=float).tolist(),
                                    np.asarray(ln.get_ydata(), dtype=float).tolist()]
                                   for ln in ax.get_lines()]})
        text = json.dumps(axes)
        if hasattr(fname, "write"):
            fname.write(text.encode())
            return
        with open(fname, "wb") as f:
            f.write(text.encode())

    saved = mf.Figure.savefig, mf.Figure.tight_layout
    mf.Figure.savefig = savefig
    mf.Figure.tight_layout = lambda self, **kw: None
    try:
        yield
    finally:
        mf.Figure.savefig, mf.Figure.tight_layout = saved
        plt.close("all")


NAMED = {"ohc": ["OHC700", "OHCTOT"],
         "rib": ["RIB_glob", "RIB_N", "RIB_S"],
         "temp": ["dT_glob", "dT_glob_air", "dT_glob_sea", "dT_NH", "dT_NH_air", "dT_NH_sea",
                  "dT_SH", "dT_SH_air", "dT_SHsea"]}
TABLES = {"em": "emissions", "conc": "concentrations", "forc": "forcing"}


def names(spec):
    out = ["ohc", "rib", "temp"]
    if spec["kind"] != "forc":
        for k in TABLES:
            out += ["%s_%d" % (k, i) for i in (1, 2, 3)]
    return ["%s.png" % n for n in out]


def _close(a, b):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(
        np.all(np.isclose(a, b, rtol=1e-9, atol=1e-11, equal_nan=True)))


def check(folder, spec, ref):
    """None, or how the plots of a run differ from its results"""
    import numpy as np
    years = np.arange(spec["y0"], spec["y1"] + 1, dtype=float)
    data = {}
    for nm in names(spec):
        try:
            with open(os.path.join(folder, nm), encoding="utf-8") as f:
                data[nm[:-4]] = json.load(f)
        except FileNotFoundError:
            pass
        except ValueError:
            return "%s is not complete" % nm
    for nm, series in NAMED.items():
        if nm not in data:
            return "%s.png is missing" % nm
        lines = [(ln, ax["title"]) for ax in data[nm] for ln in ax["lines"]]
        for key in [k for k in series if k in ref]:
            mine = [ln for ln, title in lines
                    if ln[0] == key or (ln[0].startswith("_") and title == key)]
            if not mine:
                return "%s.png does not show %s" % (nm, key)
            for _, x, y in mine:
                if not _close(x, years) or not _close(y, ref[key]):
                    return "%s.png: %s is not as in the results" % (nm, key)
    if spec["kind"] == "forc":
        return None
    for nm, table in TABLES.items():
        df = ref[table]
        seen = [(ax["title"], ln) for i in (1, 2, 3) for ax in data.get("%s_%d" % (nm, i), [])
                for ln in ax["lines"]]
        if not seen:
            return "no plot shows the %s" % table
        shown = set()
        for title, (_, x, y) in seen:
            title = {"Total anthropogenic": "Total_forcing"}.get(title, title)
            shown.add(title)
            if title not in df.columns:
                return "plot of %s shows %s" % (table, title)
            if not _close(x, years) or not _close(y, df[title]):
                return "plot of %s: %s is not as in the results" % (table, title)
        for must in MUST[nm]:
            if must in df.columns and must not in shown:
                return "no plot of %s shows %s" % (table, must)
    return None


# some that every plot is expected to show
MUST = {"em": ["CO2", "CH4", "N2O", "SO2"], "conc": ["CO2", "CH4", "N2O"],
        "forc": ["CH4", "N2O", "Total_forcing"]}
