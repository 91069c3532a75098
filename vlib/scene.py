"""A calibrated scene to plot, and fingerprints of figures and states."""
import json

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import problem as P

ELEMS = ["Xe", "Ne", "Cu"]


def scene():
    return st.fixed_dictionaries(
        {
            "rows": P.rows(7, 14),
            "npix": st.sampled_from([200, 512, 1000]),
            "w0": st.sampled_from([3000.0, 4012.5, 6500.0]),
            "span": st.sampled_from([1500.0, 3000.0, 4800.0]),
            "curv": st.integers(-30, 30),
            "skew": st.integers(-15, 15),
            "sigma": st.sampled_from([0.05, 0.5, 1.0]),
            "order": st.sampled_from(["asc", "desc", "mixed"]),
            "kind": st.sampled_from(["list", "array"]),
            "basis": st.sampled_from(["poly", "poly", "legendre", "chebyshev"]),
            "deg": st.integers(1, 3),
            "spectrum": st.sampled_from(
                ["none", "list", "array", "array", "int", "int list", "float32"]
            ),
            "floor": st.sampled_from([5.0, 0.0, -20.0]),
            # missing pixels between two detectors
            "gap": st.one_of(
                st.none(), st.tuples(st.integers(20, 80), st.integers(1, 15))
            ),
            "given": st.sampled_from(["num_pix", "pixel_list", "both"]),
            "library": st.sampled_from(["matplotlib", "plotly"]),
            "edits": st.lists(
                st.tuples(st.sampled_from(["add", "remove"]), st.integers(0, 100)),
                max_size=3,
            ),
            "cpoly": st.booleans(),
            "seed": st.integers(0, 2**31),
        }
    )


class Scene:
    def __init__(self, case):
        self.case = case
        p = self.p = P.Problem(case)
        n = p.npix
        pl = np.arange(n)
        if case["gap"] is not None:
            a = case["gap"][0] * n // 100
            b = min(a + case["gap"][1] * n // 100 + 1, n - 10)
            pl = np.concatenate([pl[:a], pl[b:]])
            p.peaks = [v for v in p.peaks if not a - 1 < v < b]
            p.truth = {k: w for k, w in p.truth.items() if k in p.peaks}
        else:
            a = b = n
        self.pixel_list = pl
        self.raw = lambda x: np.where(
            np.asarray(x) < a, np.asarray(x), np.asarray(x) - (b - a)
        )
        s = p.spectrum(base=case["floor"])[pl]
        k = case["spectrum"]
        if k == "none":
            s = None
        elif k == "list":
            s = s.tolist()
        elif k == "int":
            s = np.round(s).astype(int)
        elif k == "int list":
            s = [int(round(v)) for v in s]
        elif k == "float32":
            s = s.astype("float32")
        self.spectrum = s
        x = np.linspace(0, n - 1, 60)
        self.coeff = P.BASISFIT[case["basis"]](x, p.wave(x), case["deg"])
        self.val = P.BASIS[case["basis"]]
        self.ok = len(p.peaks) >= 4 and len(p.lines) >= 4 and len(p.truth) >= 3
        if not self.ok:
            return
        c = self.c = Calibrator(p.peaks_arg(), s)
        kw = {}
        if case["gap"] is not None or case["given"] in ("pixel_list", "both"):
            kw["pixel_list"] = pl if case["kind"] == "array" else pl.tolist()
        if case["gap"] is None and (case["given"] != "pixel_list" or s is None):
            kw["num_pix"] = n
        c.set_calibrator_properties(
            log_level="critical",
            seed=case["seed"],
            plotting_library=case["library"],
            **kw
        )
        c.set_hough_properties(
            num_slopes=40,
            xbins=8,
            ybins=8,
            min_wavelength=p.min_w,
            max_wavelength=p.max_w,
            range_tolerance=200.0,
            linearity_tolerance=50.0,
        )
        self.atlas = Atlas()
        self.atlas.add_user_atlas(
            [ELEMS[i % 3] for i in range(len(p.lines))], list(p.lines)
        )
        self.elems = {w: ELEMS[i % 3] for i, w in enumerate(p.lines)}
        c.set_atlas(self.atlas, constrain_poly=case["cpoly"])
        try:
            c.fit(
                max_tries=2,
                fit_deg=case["deg"],
                fit_type=case["basis"],
                progress=False,
            )
        except Exception:
            pass
        c.match_peaks(
            self.coeff.copy(), refine=False, tolerance=8.0, robust_refit=False
        )
        free = [w for w in p.lines if w not in list(c.matched_atlas)]
        for what, i in case["edits"]:
            if what == "add" and free:
                w = free.pop(i % len(free))
                x = pl[(i * 37 + 5) % len(pl)] + 0.25
                if x < pl[-1] and x not in c.matched_peaks:
                    c.add_pix_wave_pair(float(x), w)
            elif what == "remove" and len(c.matched_peaks) > 2:
                c.remove_pix_wave_pair(i % len(c.matched_peaks))
        self.ok = len(c.matched_peaks) >= 1 and len(c.candidates) > 0

    def has_candidates(self):
        return any(len(s[0]) for s in self.c.candidates)


# fingerprints ---------------------------------------------------------------
def plain(v, depth=0):
    """A comparable form of public data."""
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), v.shape, repr(v.tolist())]
    if isinstance(v, (np.generic,)):
        return ["numpy", str(v.dtype), repr(v)]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(i, depth) for i in v]
    if isinstance(v, dict):
        return ["dict"] + [(repr(k), plain(i, depth)) for k, i in v.items()]
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return repr(v)
    if depth < 2 and type(v).__module__.startswith("rascal"):
        return [type(v).__name__] + state(v, depth + 1)
    return type(v).__name__


def state(obj, depth=0):
    """The public attributes."""
    return [
        (k, plain(v, depth))
        for k, v in sorted(vars(obj).items())
        if not k.startswith("_")
    ]


def difference(a, b):
    a, b = dict(a), dict(b)
    return [k for k in a if b.get(k) != a[k]]


def r(a):
    return np.round(np.asarray(a, dtype=float), 9).tolist()


def mpl_print(fig):
    out = []
    for ax in fig.axes:
        d = {
            "lim": r(ax.get_xlim()) + r(ax.get_ylim()),
            "label": [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()],
            "scale": [ax.get_xscale(), ax.get_yscale()],
            "text": [(t.get_text(), r(t.get_position())) for t in ax.texts],
            "lines": [
                (str(l.get_label()), r(l.get_xdata()), r(l.get_ydata()), str(l.get_color()))
                for l in ax.lines
            ],
            "coll": [],
            "legend": [],
        }
        for k in ax.collections:
            seg = k.get_segments() if hasattr(k, "get_segments") else []
            d["coll"].append(
                (str(k.get_label()), r(k.get_offsets()), [r(s) for s in seg])
            )
        if ax.get_legend() is not None:
            d["legend"] = [t.get_text() for t in ax.get_legend().get_texts()]
        out.append(d)
    return repr(out)


def plotly(js):
    return json.loads(js)


def close():
    import matplotlib.pyplot as plt

    plt.close("all")
