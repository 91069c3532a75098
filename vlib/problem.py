"""Synthetic calibration problems: a dispersion, an atlas and detected peaks."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator

BASIS = {
    "poly": np.polynomial.polynomial.polyval,
    "legendre": np.polynomial.legendre.legval,
    "chebyshev": np.polynomial.chebyshev.chebval,
}
BASISFIT = {
    "poly": np.polynomial.polynomial.polyfit,
    "legendre": np.polynomial.legendre.legfit,
    "chebyshev": np.polynomial.chebyshev.chebfit,
}


def rows(min_size=8, max_size=20, kinds=None):
    """(position, kind, noise): kind b = line and peak, l = line only, p = peak
    only; the position in 1/2000 of the detector, at least 8/2000 apart."""
    kinds = kinds or ["b", "b", "b", "b", "b", "b", "l", "p"]
    return st.lists(
        st.tuples(
            st.integers(20, 1980),
            st.sampled_from(kinds),
            st.integers(-100, 100),
        ),
        min_size=min_size,
        max_size=max_size,
        unique_by=lambda r: r[0] // 16,
    )


def problem(min_size=8, max_size=20, kinds=None, max_curv=30):
    return st.fixed_dictionaries(
        {
            "rows": rows(min_size, max_size, kinds),
            "npix": st.sampled_from([512, 800, 1000, 1024, 2048, 3000]),
            "w0": st.sampled_from([3000.0, 3500.0, 4012.5, 5000.0, 6500.0]),
            "span": st.sampled_from([1500.0, 2200.0, 3000.0, 4000.0, 4800.0]),
            # curvature and skew, A
            "curv": st.integers(-max_curv, max_curv),
            "skew": st.integers(-max_curv // 2, max_curv // 2),
            # noise of a peak is noise * sigma / 100 A
            "sigma": st.sampled_from([0.05, 0.2, 0.5, 1.0]),
            "order": st.sampled_from(["asc", "desc", "mixed"]),
            "kind": st.sampled_from(["list", "array"]),
        }
    )


def settings(max_tries=(10, 40), deg=(1, 4)):
    return st.fixed_dictionaries(
        {
            "num_slopes": st.sampled_from([60, 150, 300]),
            "xbins": st.sampled_from([8, 15, 30]),
            "ybins": st.sampled_from([8, 15, 30]),
            "range_tolerance": st.sampled_from([60.0, 120.0, 200.0, 400.0]),
            "linearity_tolerance": st.sampled_from([20.0, 60.0, 100.0]),
            "sample_size": st.sampled_from([2, 4, 5, 7]),
            "top_n": st.sampled_from([1, 2, 3, 5, 10]),
            "filter_close": st.sampled_from([False, False, False, True]),
            "ransac_tolerance": st.sampled_from([2.0, 5.0, 10.0]),
            "candidate_weighted": st.booleans(),
            "hough_weight": st.sampled_from([1.0, 1.0, 0.1, 5.0]),
            "candidate_tolerance": st.sampled_from([5.0, 10.0, 20.0]),
            "constrain_poly": st.sampled_from([False, False, True]),
            "max_tries": st.integers(*max_tries),
            "fit_deg": st.integers(*deg),
            "fit_type": st.sampled_from(
                ["poly", "poly", "poly", "legendre", "chebyshev"]
            ),
            "seed": st.integers(0, 2**32 - 1),
        }
    )


class Problem:
    """The concrete data of a problem case."""

    def __init__(self, case):
        n, w0, span = case["npix"], case["w0"], case["span"]
        self.case = case
        self.npix = n
        u = [r[0] / 2000.0 for r in case["rows"]]
        slope = span / (n - 1.0)
        peaks, lines, truth = [], [], {}
        for (_, kind, noise), v in zip(case["rows"], u):
            x = round(v * (n - 1), 3)
            w = round(float(self.wave(x)), 3)
            px = round(x + noise * case["sigma"] / 100.0 / slope, 4)
            if kind in "bl":
                lines.append(w)
            if kind in "bp":
                peaks.append(px)
            if kind == "b":
                truth[px] = w
        self.truth = truth
        if case["order"] == "asc":
            peaks.sort()
            lines.sort()
        elif case["order"] == "desc":
            peaks.sort(reverse=True)
            lines.sort(reverse=True)
        self.peaks = peaks
        self.lines = lines
        self.min_w = w0
        self.max_w = float(self.wave(n - 1))

    def wave(self, x):
        c = self.case
        v = np.asarray(x, dtype=float) / (c["npix"] - 1.0)
        return (
            c["w0"]
            + c["span"] * v
            + 4.0 * c["curv"] * v * (1 - v)
            + 10.0 * c["skew"] * v * (1 - v) * (v - 0.5)
        )

    def spectrum(self, amp=100.0, base=5.0, width=2.0):
        x = np.arange(self.npix)
        s = np.full(self.npix, float(base))
        for k, p in enumerate(self.peaks):
            s += amp * (1 + k % 3) * np.exp(-0.5 * ((x - p) / width) ** 2)
        return s

    def peaks_arg(self):
        if self.case["kind"] == "array":
            return np.array(self.peaks)
        return list(self.peaks)

    def atlas(self):
        a = Atlas()
        if self.lines:
            a.add_user_atlas(["X%d" % (k % 3) for k in range(len(self.lines))], self.lines)
        return a

    def calibrator(self, s, spectrum=None, atlas=None, seed=True, **props):
        c = Calibrator(self.peaks_arg(), spectrum)
        configure(c, self, s, seed=seed, **props)
        c.set_atlas(
            self.atlas() if atlas is None else atlas,
            candidate_tolerance=10.0,
            constrain_poly=s["constrain_poly"],
        )
        return c


def configure(c, p, s, seed=True, **props):
    # the pixel scale has to be known before the search space is set
    c.set_calibrator_properties(
        num_pix=p.npix,
        pixel_list=np.arange(p.npix),
        log_level="critical",
        seed=s["seed"] if seed else None,
        **props
    )
    c.set_hough_properties(
        num_slopes=s["num_slopes"],
        xbins=s["xbins"],
        ybins=s["ybins"],
        min_wavelength=p.min_w,
        max_wavelength=p.max_w,
        range_tolerance=s["range_tolerance"],
        linearity_tolerance=s["linearity_tolerance"],
    )
    c.set_ransac_properties(
        sample_size=s["sample_size"],
        top_n_candidate=s["top_n"],
        filter_close=s["filter_close"],
        ransac_tolerance=s["ransac_tolerance"],
        candidate_weighted=s["candidate_weighted"],
        hough_weight=s["hough_weight"],
    )


class NoFit(Exception):
    """fit() failed explicitly."""


class Skip(Exception):
    pass


def fit(c, s, **kw):
    """Runs a fit; an explicit failure becomes NoFit."""
    args = dict(
        max_tries=s["max_tries"],
        fit_deg=s["fit_deg"],
        fit_type=s["fit_type"],
        candidate_tolerance=s["candidate_tolerance"],
        progress=False,
    )
    args.update(kw)
    try:
        return c.fit(**args)
    except AssertionError as e:
        if "Couldn't fit" in str(e):
            raise NoFit()
        raise


def plain(result):
    """A comparable form of the return value of fit()."""
    if isinstance(result, str):
        return result
    return [np.asarray(r, dtype=float).tolist() for r in result]


def fit_or_none(c, s, **kw):
    try:
        return fit(c, s, **kw)
    except NoFit:
        return None
