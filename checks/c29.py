"""C29 Caller-owned data are never modified or retained."""
import copy
import os
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np
from hypothesis import strategies as st

from rascal import models, util
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.houghtransform import HoughTransform
from rascal.synthetic import SyntheticSpectrum
from vlib import problem as P
from vlib import scene as S
from vlib.core import Test, require

ASSUMPTIONS = [
    "an atlas is modified only by its own methods and by those of the "
    "calibrator that are asked to add or remove lines (left out here)",
    "arguments are compared by type, dtype, shape and exact values, as are "
    "earlier results",
    "the second part compares two runs, with and without the caller "
    "overwriting the peaks and the spectrum in between",
]


def form(v, kind):
    v = list(v)
    return np.array(v, dtype=float) if kind == "array" else v


# a calibration ---------------------------------------------------------------
def op():
    kind = st.sampled_from(["list", "array"])
    f = st.fixed_dictionaries
    seed = st.integers(0, 50)
    return st.one_of(
        f({"op": st.just("pixel_list"), "kind": kind}),
        f({"op": st.just("known"), "kind": kind, "n": st.integers(0, 2)}),
        f(
            {
                "op": st.just("fit"),
                "kind": kind,
                "coeff": st.sampled_from(["none", "none", "near", "far"]),
                "deg": st.integers(1, 3),
                "basis": st.sampled_from(["poly", "poly", "legendre", "chebyshev"]),
            }
        ),
        f(
            {
                "op": st.just("match"),
                "kind": kind,
                "refit": st.booleans(),
                "refine": st.sampled_from([False, False, True]),
                "tol": st.sampled_from([3.0, 10.0]),
            }
        ),
        f(
            {
                "op": st.just("manual"),
                "kind": kind,
                "given": st.booleans(),
                "x0": st.booleans(),
                "deg": st.integers(1, 3),
            }
        ),
        f({"op": st.just("add"), "i": seed}),
        f({"op": st.just("remove"), "i": seed}),
        f({"op": st.just("pairs")}),
        f({"op": st.just("hough"), "brute": st.booleans()}),
        f({"op": st.just("atlas"), "k": st.integers(0, 2)}),
        f({"op": st.just("list")}),
        f({"op": st.just("plot"), "what": st.sampled_from(["fit", "arc", "search"])}),
        f({"op": st.just("overwrite"), "how": st.sampled_from(["zero", "shift", "clear"])}),
        f({"op": st.just("overwrite"), "how": st.sampled_from(["zero", "shift", "clear"])}),
    )


def case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=10, max_size=16),
            "s": P.settings(max_tries=(1, 4), deg=(1, 3)),
            "spectrum": st.sampled_from(["list", "array", "int"]),
            "elems": st.sampled_from(["list", "array"]),
            "ops": st.lists(op(), min_size=4, max_size=11),
            "fit": st.sampled_from([True, True, True, False]),
        }
    )


class Run:
    def __init__(self, case, overwrite):
        self.p = P.Problem(case["p"])
        self.s = case["s"]
        self.overwrite = overwrite
        self.owned = {}
        self.print = {}
        self.results = []
        self.log = []
        self.fits = 0
        self.after = False

    # what belongs to the caller
    def own(self, name, v):
        self.owned[name] = v
        self.print[name] = fingerprint(v)
        return v

    def verify(self, what):
        for k, v in self.owned.items():
            require(
                fingerprint(v) == self.print[k],
                "%s modifies the caller's %s: %s",
                what,
                k,
                short(v),
            )
        for w, v, fp in self.results:
            require(
                fingerprint(v) == fp,
                "%s changes the result of an earlier %s: now %s",
                what,
                w,
                short(v),
            )

    def call(self, what, f, *a, **kw):
        """A call with arguments of its own."""
        before = [fingerprint(v) for v in a] + [
            (k, fingerprint(v)) for k, v in kw.items()
        ]
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                out = f(*a, **kw)
        except Exception as e:
            out = None
            self.log.append((what, "raises", type(e).__name__))
        after = [fingerprint(v) for v in a] + [
            (k, fingerprint(v)) for k, v in kw.items()
        ]
        require(after == before, "%s modifies its arguments: %s", what, short((a, kw)))
        if out is not None:
            fp = fingerprint(out)
            self.results.append((what, out, fp))
            self.log.append((what, fp))
        self.verify(what)
        return out


def fingerprint(v):
    if isinstance(v, Atlas):
        return S.plain(
            [list(v.get_elements()), list(v.get_lines()), list(v.get_intensities())]
        )
    return S.plain(v)


def short(v):
    return repr(v)[:300]


def go(case, overwrite):
    r = Run(case, overwrite)
    p, s = r.p, r.s
    if len(p.peaks) < 5 or len(p.lines) < 5:
        return None
    np.random.seed(s["seed"])
    peaks = r.own("peaks", p.peaks_arg())
    y = p.spectrum()
    if case["spectrum"] == "list":
        y = y.tolist()
    elif case["spectrum"] == "int":
        y = np.round(y).astype(int)
    spectrum = r.own("spectrum", y)
    content = fingerprint(peaks), fingerprint(spectrum)
    c = r.call("Calibrator", Calibrator, peaks, spectrum)
    r.results.pop()
    r.log.pop()
    P.configure(c, p, s)
    n = len(p.lines)
    el = ["Xe", "ne", "CU"] * n
    el = el[:n] if case["elems"] == "list" else np.array(el[:n])
    elements = r.own("elements", el)
    lines = r.own("lines", form(p.lines, case["elems"]))
    inten = r.own("intensities", form([5.0 + i for i in range(n)], case["elems"]))
    atlas = Atlas()
    r.call("add_user_atlas", atlas.add_user_atlas, elements, lines, inten)
    r.own("atlas", atlas)
    r.call("set_atlas", c.set_atlas, atlas, 10.0, s["constrain_poly"])
    near = P.BASISFIT["poly"](np.arange(p.npix), p.wave(np.arange(p.npix)), 2)
    near = r.own("coefficients", near)
    if case["fit"]:
        # something to edit
        r.call("match_peaks", lambda v: match(c, v), near)
    for o in case["ops"]:
        step(r, c, o, near, atlas, peaks, spectrum)
        require(
            (values(c.peaks), values(c.spectrum))
            == (values_of(content[0]), values_of(content[1])),
            "after %s the calibrator's peaks or spectrum are %s, %s",
            o,
            short(c.peaks),
            short(c.spectrum),
        )
    return r


def match(c, near):
    if not hasattr(c, "polyval"):
        c.fit(max_tries=1, fit_deg=1, progress=False)
    return c.match_peaks(near, tolerance=8.0, robust_refit=False)


def values(v):
    return repr(np.asarray(v).tolist())


def values_of(fp):
    # ["array", dtype, shape, repr] or ["list", ...]
    if fp[0] == "array":
        return fp[3]
    return "[" + ", ".join(fp[1:]) + "]"


def step(r, c, o, near, atlas, peaks, spectrum):
    k, p, s = o["op"], r.p, r.s
    if k == "pixel_list":
        pl = r.own("pixel list", form(range(p.npix), o["kind"]))
        r.call(k, c.set_calibrator_properties, pixel_list=pl, log_level="critical")
    elif k == "known":
        x = [2.0, p.npix - 3.0][: o["n"]]
        r.call(
            k,
            c.set_known_pairs,
            form(x, o["kind"]),
            form([float(p.wave(v)) for v in x], o["kind"]),
        )
    elif k == "fit":
        kw = {}
        if o["coeff"] != "none":
            kw["fit_coeff"] = near.copy()
            if o["coeff"] == "far":
                kw["fit_coeff"][0] += 500.0
            if o["kind"] == "list":
                kw["fit_coeff"] = kw["fit_coeff"].tolist()
        out = r.call(
            k,
            c.fit,
            max_tries=s["max_tries"],
            fit_deg=o["deg"],
            fit_type=o["basis"],
            candidate_tolerance=s["candidate_tolerance"],
            progress=False,
            **kw
        )
        r.fits += out is not None
    elif k == "match":
        if not hasattr(c, "polyval"):
            return
        co = near if o["kind"] == "array" else near.tolist()
        kw = {}
        if o["refine"] and o["kind"] == "array":
            kw = dict(refine=True, n_delta=2)
        r.call(
            k,
            c.match_peaks,
            co,
            tolerance=o["tol"],
            robust_refit=o["refit"],
            **kw
        )
    elif k == "manual":
        if not hasattr(c, "polyval"):
            return
        kw = {}
        if o["given"]:
            x = np.linspace(5, p.npix - 5, 8)
            kw["matched_peaks"] = form(x, "array")
            kw["matched_atlas"] = form(p.wave(x), "array")
        if o["x0"]:
            x0 = near[: o["deg"] + 1]
            kw["x0"] = x0.tolist() if o["kind"] == "list" else x0.copy()
        else:
            kw["degree"] = o["deg"]
        r.call(k, c.manual_refit, **kw)
    elif k == "add":
        x = (o["i"] * 97 + 13) % (p.npix - 2) + 0.5
        r.call(k, c.add_pix_wave_pair, x, float(p.wave(x)))
    elif k == "remove":
        if len(c.matched_peaks) > 3:
            r.call(k, c.remove_pix_wave_pair, o["i"] % len(c.matched_peaks))
    elif k == "pairs":
        r.call(k, c.get_pix_wave_pairs)
    elif k == "hough":
        if o["brute"] and len(c.pairs) > 300:
            return
        r.call(k, c.do_hough_transform, brute_force=o["brute"])
    elif k == "atlas":
        n = len(p.lines)
        keep = [p.lines, p.lines[::-1], p.lines[: max(5, n - 2)]][o["k"]]
        a = Atlas()
        r.call("add_user_atlas", a.add_user_atlas, ["Ar"] * len(keep), list(keep))
        r.own("atlas", a)
        r.call("set_atlas", c.set_atlas, a)
    elif k == "list":
        for f in ("get_lines", "get_elements", "get_intensities"):
            r.call(f, getattr(atlas, f))
    elif k == "plot":
        co = near.copy()
        f = {
            "fit": lambda: c.plot_fit(fit_coeff=co, display=False),
            "arc": lambda: c.plot_arc(display=False),
            "search": lambda: c.plot_search_space(fit_coeff=co, display=False),
        }[o["what"]]
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                f()
        except Exception:
            pass
        S.close()
        r.verify("plot_" + o["what"])
    elif k == "overwrite" and r.overwrite:
        for name in ("peaks", "spectrum"):
            v = r.owned[name]
            if isinstance(v, np.ndarray):
                v[:] = 0 if o["how"] == "zero" else v[::-1] + 3
            elif o["how"] == "clear":
                del v[2:]
            else:
                for i in range(len(v)):
                    v[i] = 0 if o["how"] == "zero" else v[i] + 3
            r.print[name] = fingerprint(v)
        r.after = True


def check(case, rec):
    r = go(case, True)
    if r is None:
        return
    if r.after:
        q = go(case, False)
        require(
            len(r.log) == len(q.log),
            "overwriting the caller's peaks and spectrum changes the course: %s, %s",
            r.log,
            q.log,
        )
        for a, b in zip(r.log, q.log):
            require(
                a == b,
                "overwriting the caller's peaks and spectrum changes %s: %s "
                "instead of %s",
                a[0],
                short(a),
                short(b),
            )
    rec.nontrivial(len(r.results) >= 2)
    if r.fits:
        rec.label("fits")
    if r.after:
        rec.label("overwritten")


# the functions ---------------------------------------------------------------
def tools():
    num = st.lists(st.integers(1, 900), min_size=6, max_size=12, unique=True)
    return st.fixed_dictionaries(
        {
            "what": st.sampled_from(
                [
                    "robust_polyfit",
                    "refine_peaks",
                    "separation",
                    "intensity",
                    "wavelengths",
                    "load",
                    "air",
                    "hough",
                    "brute",
                    "add_hough",
                    "atlas",
                    "constructor",
                    "synthetic",
                    "normalise",
                    "polynomial",
                ]
            ),
            "x": num,
            "kind": st.sampled_from(["list", "array", "int array"]),
            "k": st.integers(1, 3),
            "bad": st.booleans(),
        }
    )


def check_tools(case, rec):
    r = Run.__new__(Run)
    r.owned, r.print, r.results, r.log = {}, {}, [], []
    n = len(case["x"])
    k = case["k"]

    def mk(v, only_array=False):
        if case["kind"] == "list" and not only_array:
            return list(v)
        return np.array(v, dtype=int if case["kind"] == "int array" else float)

    x = case["x"]
    y = [3000 + 5 * v for v in x]
    rows = [["XeNeAr"[i % 3 * 2 : i % 3 * 2 + 2], str(3000.5 + 3 * v), str(v)] for i, v in enumerate(x)]
    w = case["what"]
    f = []
    if w == "robust_polyfit":
        a = (mk(x, True), mk(y, True), k)
        f = [(models.robust_polyfit, a, {"x0": mk([1] * (k + 1))}), (models.robust_polyfit, a, {})]
    elif w == "normalise":
        f = [(models.normalise_input, (mk(x, True), mk(y, True)), {})]
    elif w == "polynomial":
        co = mk([1, 2, 3])
        g = models.polynomial(co, 2)
        f = [(models.polynomial(co, 2), (mk(x, True),), {}), (models.poly_cost_function, (co, mk(x, True), mk(y, True), 2), {})]
        r.own("coefficients", co)
        del g
    elif w == "refine_peaks":
        g = np.arange(1000)
        s = sum(1000 * np.exp(-0.5 * ((g - v) / 2.0) ** 2) for v in x)
        s = np.round(s).astype(int) if case["kind"] == "int array" else s
        if case["bad"] and s.dtype == float:
            s[x[0]] = np.nan
        s = s.tolist() if case["kind"] == "list" else s
        f = [(util.refine_peaks, (s, mk(x)), {}), (util.refine_peaks, (s, mk(x)), {"window_width": 5})]
    elif w == "separation":
        f = [(util.filter_separation, (mk(sorted(x), True), 5 * k), {})]
    elif w == "intensity":
        f = [
            (util.filter_intensity, (["Xe", "ne", "AR"], np.array(rows), 300.0), {}),
            (util.filter_intensity, (["Xe", "ne", "AR"], np.array(rows), [1.0, 10.0, 400.0]), {}),
        ]
    elif w == "wavelengths":
        f = [(util.filter_wavelengths, (np.array(rows), 3300, 4500), {})]
    elif w == "load":
        f = [
            (
                util.load_calibration_lines,
                (["Xe", "he"],),
                {"min_intensity": [10.0, 30.0], "brightest_n_lines": 5 * k},
            )
        ]
    elif w == "air":
        v = mk([3000 + 7 * i for i in x], True)
        f = [
            (util.vacuum_to_air_wavelength, (v,), {}),
            (util.air_to_vacuum_wavelength, (v,), {}),
            (util.edlen_refraction, (v, 280.0, 1e5, 30.0), {}),
        ]
    elif w in ("hough", "brute", "add_hough"):
        h = HoughTransform()
        h.set_constraints(1.0, 9.0, 2000.0, 4000.0)
        a = (mk(x, True), mk(y, True))
        if w == "hough":
            f = [(h.generate_hough_points, a + (20 * k,), {}), (h.bin_hough_points, (5, 6), {})]
        elif w == "brute":
            f = [(h.generate_hough_points_brute_force, a, {})]
        else:
            h.generate_hough_points(np.array(x), np.array(y), 10)
            g = HoughTransform()
            g.set_constraints(1.0, 9.0, 2000.0, 4000.0)
            g.generate_hough_points(np.array(x), np.array(y), 7)
            pts = g.hough_points.copy()
            r.own("other points", g.hough_points)
            f = [
                (h.add_hough_points, (pts,), {}),
                (h.add_hough_points, (g,), {}),
                (h.bin_hough_points, (5, 6), {}),
            ]
        r.owned = dict(r.owned)
    elif w == "atlas":
        at = Atlas()
        el = ["Xe"] * n if case["kind"] == "list" else np.array(["Xe"] * n)
        z = mk(y)
        # one wavelength too few is refused
        if case["bad"]:
            z = z[:-1]
        f = [
            (at.add_user_atlas, (el, z, mk(x)), {}),
            (at.add_user_atlas, (el, z), {"vacuum": True}),
            (at.get_lines, (), {}),
            (at.remove_atlas_lines_range, (float(y[0]), 20.0), {}),
            (at.get_lines, (), {}),
            (at.clear, (), {}),
        ]
    elif w == "constructor":
        el = ["Xe", "ne"] if case["kind"] == "list" else np.array(["Xe", "ne"])
        mi = 20.0
        at = Atlas()
        f = [
            (at.add, (el, 4000.0, 6000.0, mi), {}),
            (at.get_elements, (), {}),
            (at.add, (el, 6000.0, 7000.0, mi, 5.0), {}),
            (Atlas, (el, 4000.0, 5000.0, mi), {}),
        ]
    elif w == "synthetic":
        co = mk([1e-3, 2, 3000]) if case["kind"] != "int array" else mk([1, 2, 3000])
        s = SyntheticSpectrum(co, 100.0, 9000.0)
        r.own("coefficients", co)
        f = [
            (s.get_pixels, (mk(y),), {}),
            (s.set_wavelength_limit, (500.0, 8000.0), {}),
            (s.get_pixels, (mk(y),), {}),
            (s.set_model, (mk([1e-3, 3, 2000]),), {}),
            (s.get_pixels, (mk(y),), {}),
        ]
    for g, a, kw in f:
        r.call(w, g, *a, **kw)
    rec.label(w)
    rec.nontrivial(len(r.results) >= 1)


TESTS = [
    Test(
        "calibration",
        case,
        check,
        quick=300,
        thorough=8000,
        shards=8,
        rule="at least two results to watch",
    ),
    Test(
        "functions",
        tools,
        check_tools,
        quick=500,
        thorough=10000,
        shards=8,
        rule="a result to watch",
    ),
]
