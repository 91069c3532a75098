"""C09 The search space always covers the declared calibration range."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib.core import Test, require
from vlib.gen import fl, nice

ASSUMPTIONS = [
    "the detector origin is pixel zero: an intercept is the wavelength there",
    "a pixel list has at least two different pixels",
]

HOUGH_DEFAULT = dict(
    num_slopes=2000,
    xbins=100,
    ybins=100,
    min_wavelength=3000.0,
    max_wavelength=9000.0,
    range_tolerance=500,
    linearity_tolerance=100,
)


def pixel_list():
    """Contiguous, with chip gaps, offset, unordered, as list or array."""
    return st.fixed_dictionaries(
        {
            "start": st.sampled_from([0, 0, 0, 1, 37, 500, -20]),
            "steps": st.lists(
                st.sampled_from([1, 1, 1, 2, 5, 60, 0.5, 1.25]),
                min_size=1,
                max_size=40,
            ),
            "rev": st.booleans(),
            "kind": st.sampled_from(["list", "array", "tuple"]),
        }
    )


def make_list(p):
    v = np.concatenate([[p["start"]], p["start"] + np.cumsum(p["steps"])])
    if p["rev"]:
        v = v[::-1]
    if p["kind"] == "list":
        return v.tolist()
    if p["kind"] == "tuple":
        return tuple(v.tolist())
    return v


def op():
    num = lambda lo, hi: st.one_of(nice(lo, hi, 2), st.integers(int(lo), int(hi)))
    return st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.just("hough"),
                "kw": st.fixed_dictionaries(
                    {},
                    optional={
                        "num_slopes": st.integers(10, 3000),
                        "xbins": st.integers(5, 200),
                        "ybins": st.integers(5, 200),
                        "min_wavelength": num(0, 6000),
                        "max_wavelength": num(6001, 20000),
                        "range_tolerance": num(0, 900),
                        "linearity_tolerance": num(0, 300),
                    },
                ),
            }
        ),
        st.fixed_dictionaries({"op": st.just("pixels"), "p": pixel_list()}),
        st.fixed_dictionaries(
            {"op": st.just("num_pix"), "n": st.integers(2, 5000)}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("both"),
                "n": st.integers(2, 5000),
                "p": pixel_list(),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(
                    ["ransac", "atlas", "library", "nothing", "clear"]
                )
            }
        ),
    )


def case():
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.one_of(st.integers(2, 3000), nice(2, 3000, 2)),
                min_size=1,
                max_size=6,
            ),
            "array": st.booleans(),
            "spectrum": st.one_of(st.none(), st.none(), st.integers(2, 4000)),
            "ops": st.lists(op(), max_size=6),
            "frac": st.lists(
                st.tuples(fl(-1, 1), fl(-1, 1)), min_size=1, max_size=4
            ),
        }
    )


class Model:
    def __init__(self, case):
        self.hough = dict(HOUGH_DEFAULT)
        self.explicit = None
        self.num = None
        self.spectrum = case["spectrum"]
        self.top = max(case["peaks"])

    def pixels(self):
        if self.explicit is not None:
            return np.asarray(self.explicit, dtype=float)
        if self.num is not None:
            return np.arange(self.num)
        if self.spectrum is not None:
            return np.arange(self.spectrum)
        return None


def matches(c, m):
    """None if the calibrator agrees with the model, else what does not."""
    h = m.hough
    for k, v in h.items():
        if getattr(c, k) != v:
            return "%s is %r, expected %r" % (k, getattr(c, k), v)
    want = m.pixels()
    got = np.asarray(c.pixel_list, dtype=float)
    if want is None:
        # a little more than the highest peak
        if not (
            got[0] == 0
            and np.all(np.diff(got) == 1)
            and m.top <= got[-1] + 1 <= 1.2 * m.top + 2
        ):
            return "pixels %s for the highest peak %s" % (got, m.top)
        want = got
    if got.shape != want.shape or not np.array_equal(got, want):
        return "pixels %s, expected %s" % (got, want)
    ptp = want.max() - want.min()
    lo, hi, r, l = (
        float(h["min_wavelength"]),
        float(h["max_wavelength"]),
        float(h["range_tolerance"]),
        float(h["linearity_tolerance"]),
    )
    exp = {"min_intercept": lo - r, "max_intercept": lo + r}
    if ptp > 0:
        exp["min_slope"] = ((hi - r - l) - (lo + r + l)) / ptp
        exp["max_slope"] = ((hi + r + l) - (lo - r - l)) / ptp
    for k, v in exp.items():
        g = float(getattr(c, k))
        if not abs(g - v) <= 1e-9 * max(1.0, abs(v)):
            return "%s is %r, expected %r" % (k, g, v)
    # the position of a pixel in the list
    pos = np.arange(len(want))
    if len(want) > 1 and not np.allclose(
        c.pix_to_rawpix(want), pos, rtol=0, atol=1e-6 * len(want)
    ):
        return "pix_to_rawpix does not give the positions of the pixels"
    return None


def check(case, rec):
    peaks = np.array(case["peaks"]) if case["array"] else list(case["peaks"])
    spec = None
    if case["spectrum"] is not None:
        spec = np.ones(case["spectrum"])
    with np.errstate(all="ignore"):
        c = Calibrator(peaks, spec)
        m = Model(case)
        for k, o in enumerate([{"op": "nothing"}] + case["ops"]):
            kind = o["op"]
            if kind == "hough":
                c.set_hough_properties(**o["kw"])
                m.hough.update(o["kw"])
            elif kind == "pixels":
                p = make_list(o["p"])
                c.set_calibrator_properties(pixel_list=p)
                m.explicit = p
            elif kind == "num_pix":
                c.set_calibrator_properties(num_pix=o["n"])
                m.num = o["n"]
            elif kind == "both":
                p = make_list(o["p"])
                c.set_calibrator_properties(num_pix=o["n"], pixel_list=p)
                m.num, m.explicit = o["n"], p
            elif kind == "ransac":
                c.set_ransac_properties(sample_size=6, minimum_matches=3)
            elif kind == "library":
                c.set_calibrator_properties(plotting_library="plotly")
            elif kind == "atlas":
                a = Atlas()
                a.add_user_atlas(["X"] * 2, [4000.0, 5000.0])
                c.set_atlas(a)
            elif kind == "clear" and c.atlas is not None:
                c.clear_atlas()
            bad = matches(c, m)
            require(bad is None, "after %s: %s", o, bad)
    # every straight solution between the declared ends is inside
    px = np.asarray(c.pixel_list, dtype=float)
    if px.min() == 0 and px.max() > 0:
        r = float(m.hough["range_tolerance"])
        lo, hi = m.hough["min_wavelength"], m.hough["max_wavelength"]
        for a, b in case["frac"] + [(1, -1), (-1, 1), (1, 1), (-1, -1)]:
            w0, w1 = lo + a * r, hi + b * r
            slope = (w1 - w0) / px.max()
            eps = 1e-9 * (1 + abs(slope))
            require(
                c.min_slope - eps <= slope <= c.max_slope + eps
                and c.min_intercept - 1e-6 <= w0 <= c.max_intercept + 1e-6,
                "the solution from %r to %r A is outside of the search space "
                "(slope %r, %r to %r; intercept %r to %r)",
                w0,
                w1,
                slope,
                c.min_slope,
                c.max_slope,
                c.min_intercept,
                c.max_intercept,
            )
    rec.nontrivial(len({o["op"] for o in case["ops"]}) >= 2)
    for o in case["ops"]:
        rec.label(o["op"])


def shared_case():
    return st.fixed_dictionaries(
        {
            "n": st.integers(20, 2000),
            "kw": st.fixed_dictionaries(
                {
                    "min_wavelength": nice(1000, 6000, 1),
                    "max_wavelength": nice(7000, 12000, 1),
                    "range_tolerance": nice(1, 500, 1),
                    "linearity_tolerance": nice(0, 200, 1),
                }
            ),
            "order": st.permutations(["pixels", "hough", "atlas", "ransac"]),
            "pts": st.lists(st.tuples(fl(0, 1), fl(0, 1)), min_size=1, max_size=6),
        }
    )


def check_order(case, rec):
    """The limits do not depend on the order of the calls, and are those the
    transform of the calibrator uses."""
    n = case["n"]
    peaks = [round(1 + a * (n - 2), 2) for a, _ in case["pts"]]
    kw = case["kw"]
    lines = [
        round(kw["min_wavelength"] + b * (kw["max_wavelength"] - kw["min_wavelength"]), 2)
        for _, b in case["pts"]
    ]

    def make(order):
        c = Calibrator(list(peaks))
        for o in order:
            if o == "pixels":
                c.set_calibrator_properties(
                    num_pix=n, pixel_list=np.arange(n), log_level="critical"
                )
            elif o == "hough":
                c.set_hough_properties(num_slopes=50, xbins=6, ybins=6, **kw)
            elif o == "atlas":
                a = Atlas()
                a.add_user_atlas(["X"] * len(lines), list(lines))
                c.set_atlas(a)
            else:
                c.set_ransac_properties(sample_size=4)
        return c

    c = make(case["order"])
    d = make(["pixels", "hough", "ransac", "atlas"])
    names = ["min_slope", "max_slope", "min_intercept", "max_intercept"]
    for k in names:
        require(
            getattr(c, k) == getattr(d, k),
            "%s is %r for the order %s and %r otherwise",
            k,
            getattr(c, k),
            case["order"],
            getattr(d, k),
        )
    try:
        c.do_hough_transform()
    except IndexError:
        # no admissible line at all
        return
    for k in names:
        require(
            getattr(c.ht, k) == getattr(c, k),
            "%s of the transform is %r, of the calibrator %r",
            k,
            getattr(c.ht, k),
            getattr(c, k),
        )
    pts = np.asarray(c.hough_points)
    if pts.size:
        e = 1e-9
        require(
            pts[:, 0].min() >= c.min_slope - e * abs(c.min_slope)
            and pts[:, 0].max() <= c.max_slope + e * abs(c.max_slope)
            and pts[:, 1].min() >= c.min_intercept - 1e-6
            and pts[:, 1].max() <= c.max_intercept + 1e-6,
            "points outside of the search space",
        )
    rec.nontrivial(list(case["order"]) != ["pixels", "hough", "ransac", "atlas"])


TESTS = [
    Test(
        "config",
        case,
        check,
        quick=6000,
        thorough=200000,
        shards=8,
        rule="configuration calls of at least two kinds",
    ),
    Test(
        "order",
        shared_case,
        check_order,
        quick=800,
        thorough=20000,
        shards=8,
        rule="an order other than the usual one",
    ),
]
