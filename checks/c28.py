"""C28 Settings are sticky, independent and never corrupted."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "where the documented and the actual default differ (num_slopes, xbins, "
    "ybins, ransac_tolerance), either is accepted",
    "the sample size a fit needs is the degree plus one; it has at most as "
    "many lines, and peaks with candidates, to draw from",
    "fits of degree six at most, without known pairs or filter_close",
]

W = [0.0, 2500.0, 3000.0, 3500.0, 4000.5]
HOUGH = {
    "num_slopes": [50, 77, 100.0, 500],
    "xbins": [5, 12, 100, 50],
    "ybins": [6, 13, 100, 50],
    "min_wavelength": W,
    "max_wavelength": [6000.0, 7000, 9000.0, 12000.5],
    "range_tolerance": [0.0, 50, 200.0, 500],
    "linearity_tolerance": [0, 30.0, 100.0],
}
RANSAC = {
    "sample_size": [1, 2, 3, 4, 5, 6, 9, 30],
    "top_n_candidate": [1, 3, 5, 10],
    "linear": [True, True, False],
    "filter_close": [True, False],
    "ransac_tolerance": [0.5, 1, 5, 8.5],
    "candidate_weighted": [True, False],
    "hough_weight": [0.0, 0.5, 1.0, 10],
    "minimum_matches": [1, 3, 6, 12, 50],
    "minimum_peak_utilisation": [0, 0.0, 0.25, 0.5, 1.0],
    "minimum_fit_error": [0, 0.0, 1e-9, 1e-4, 0.5],
}
BAD = {
    "minimum_matches": [0, -1, -5],
    "minimum_peak_utilisation": [-0.01, 1.01, 2, -1],
    "minimum_fit_error": [-1e-9, -1],
}
DEFAULT = {
    "num_slopes": (1000, 2000),
    "xbins": (50, 100),
    "ybins": (50, 100),
    "min_wavelength": (3000.0,),
    "max_wavelength": (9000.0,),
    "range_tolerance": (500,),
    "linearity_tolerance": (100,),
    "sample_size": (5,),
    "top_n_candidate": (5,),
    "linear": (True,),
    "filter_close": (False,),
    "ransac_tolerance": (1, 5),
    "candidate_weighted": (True,),
    "hough_weight": (1.0,),
    "minimum_matches": (0,),
    "minimum_peak_utilisation": (0,),
    "minimum_fit_error": (1e-4,),
}


def some(table, min_size=0, max_size=4):
    return st.dictionaries(
        st.sampled_from(sorted(table)),
        st.integers(0, 11),
        min_size=min_size,
        max_size=max_size,
    ).map(lambda d: {k: table[k][i % len(table[k])] for k, i in sorted(d.items())})


def op():
    who = st.integers(0, 1)
    return st.one_of(
        st.fixed_dictionaries(
            {"op": st.just("hough"), "who": who, "kw": some(HOUGH)}
        ),
        st.fixed_dictionaries(
            {"op": st.just("ransac"), "who": who, "kw": some(RANSAC)}
        ),
        st.fixed_dictionaries(
            {"op": st.just("ransac"), "who": who, "kw": some(RANSAC)}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("bad"),
                "who": who,
                "kw": some(RANSAC),
                "bad": some(BAD, 1, 2),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("pixels"),
                "who": who,
                "kw": st.sampled_from(
                    [
                        {},
                        {"num_pix": 100},
                        {"num_pix": 120},
                        {"pixel_list": 110},
                        {"plotting_library": "plotly"},
                        {"plotting_library": "matplotlib"},
                        {"seed": 3},
                        {"num_pix": 130, "pixel_list": 130},
                    ]
                ),
            }
        ),
        st.fixed_dictionaries(
            {"op": st.just("atlas"), "who": who, "n": st.integers(3, 12)}
        ),
        st.fixed_dictionaries({"op": st.just("new"), "who": who}),
        st.fixed_dictionaries(
            {
                "op": st.just("fit"),
                "who": who,
                "deg": st.integers(1, 6),
                "coeff": st.booleans(),
                "tries": st.integers(1, 3),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("fit"),
                "who": who,
                "deg": st.integers(1, 6),
                "coeff": st.booleans(),
                "tries": st.integers(1, 3),
            }
        ),
    )


def case():
    return st.fixed_dictionaries(
        {
            "n": st.lists(st.integers(3, 11), min_size=2, max_size=2),
            "spectrum": st.booleans(),
            "ops": st.lists(op(), min_size=2, max_size=14),
        }
    )


class One:
    """A calibrator and what its settings should be."""

    def __init__(self, n, spectrum):
        self.peaks = [4.0 + 95.0 * i / (n - 1) for i in range(n)]
        self.c = Calibrator(list(self.peaks), np.ones(100) if spectrum else None)
        self.c.set_calibrator_properties(log_level="critical")
        self.set = {}
        self.defaults = {}
        self.num_pix = 100 if spectrum else None
        self.pl = None
        self.lib = "matplotlib"
        self.lines = None
        for k, ok in DEFAULT.items():
            v = getattr(self.c, k)
            require(
                any(same(v, w) for w in ok), "%s is %r by default, not %s", k, v, ok
            )
            self.defaults[k] = v

    def verify(self, what):
        c = self.c
        for k in DEFAULT:
            want = self.set[k] if k in self.set else self.defaults[k]
            got = getattr(c, k)
            require(same(got, want), "%s: %s is %r instead of %r", what, k, got, want)
        require(
            c.which_plotting_library() == self.lib,
            "%s: the plotting library is %s instead of %s",
            what,
            c.which_plotting_library(),
            self.lib,
        )
        if self.num_pix is not None:
            require(
                c.num_pix == self.num_pix,
                "%s: num_pix is %s instead of %s",
                what,
                c.num_pix,
                self.num_pix,
            )
        if self.pl is not None:
            require(
                np.array_equal(c.pixel_list, np.arange(self.pl)),
                "%s: the pixel list is %s instead of %s pixels",
                what,
                c.pixel_list,
                self.pl,
            )


def same(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) is bool(b) and a is not None
    return a is not None and a == b


def check(case, rec):
    ones = [One(n, case["spectrum"]) for n in case["n"]]
    fits = rejected = 0
    for i, o in enumerate(case["ops"]):
        a = ones[o["who"]]
        c, k = a.c, o["op"]
        what = "step %d, %s" % (i, {x: y for x, y in o.items() if x != "op"})
        if k == "hough":
            c.set_hough_properties(**o["kw"])
            a.set.update(o["kw"])
        elif k == "ransac":
            c.set_ransac_properties(**o["kw"])
            a.set.update(o["kw"])
        elif k == "bad":
            kw = dict(o["kw"], **o["bad"])
            try:
                c.set_ransac_properties(**kw)
            except Exception:
                rejected += 1
            else:
                require(False, "%s: %s are accepted", what, kw)
        elif k == "pixels":
            kw = dict(o["kw"])
            if "pixel_list" in kw:
                a.pl = kw["pixel_list"]
                kw["pixel_list"] = np.arange(a.pl)
            if "num_pix" in kw:
                a.num_pix = kw["num_pix"]
            if "plotting_library" in kw:
                a.lib = kw["plotting_library"]
            c.set_calibrator_properties(log_level="critical", **kw)
        elif k == "atlas":
            atlas = Atlas()
            w = [3100.0 + 5700.0 * j / (o["n"] - 1) + j % 3 for j in range(o["n"])]
            atlas.add_user_atlas(["X"] * len(w), w)
            c.set_atlas(atlas)
            a.lines = w
        elif k == "new":
            ones[o["who"]] = One(case["n"][o["who"]], case["spectrum"])
        elif k == "fit" and a.lines is not None:
            fits += fit(a, o, what)
        for b in ones:
            b.verify(what)
    rec.label("fits" if fits else "no fit")
    rec.nontrivial(rejected >= 1 or fits >= 1)


def fit(a, o, what):
    """Runs a fit and accounts for what it may change."""
    c = a.c
    kw = dict(max_tries=o["tries"], fit_deg=o["deg"], progress=False)
    deg = o["deg"]
    if o["coeff"]:
        kw["fit_coeff"] = np.array([3000.0, 60.0, 0.01, 1e-5, 1e-8, 1e-11, 1e-14][: deg + 1])
        kw["fit_deg"] = 1 + deg % 3
    s = c.sample_size
    m = c.minimum_matches
    if s > 7:
        # the number of combinations explodes
        kw["max_tries"] = 1
    if c.filter_close:
        # leaves an unknown number of lines to draw from
        c.set_ransac_properties(filter_close=False)
        a.set["filter_close"] = False
        a.verify(what)
    ns = c.num_slopes
    if ns > 200:
        a.set["num_slopes"] = 60
        c.set_hough_properties(num_slopes=60)
    done = True
    try:
        with np.errstate(all="ignore"):
            c.fit(**kw)
    except Exception:
        done = False
    got = c.sample_size
    n = len(a.lines)
    have = n
    if getattr(c, "candidates", None):
        peaks = {float(p) for t in c.candidates for p in list(t[0])}
        have = min(n, len(peaks))
    if done:
        if s <= deg:
            ok = got == deg + 1
        elif s <= have:
            ok = got == s
        else:
            ok = min(have, s) <= got < s or got == s or got == deg + 1
        require(
            ok,
            "%s: the sample size goes from %s to %s for a fit of degree %s "
            "with %s lines, %s peaks with candidates",
            what,
            s,
            got,
            deg,
            n,
            have,
        )
        cap = min(m, n, len(a.peaks))
        require(
            c.minimum_matches == cap,
            "%s: the match requirement goes from %s to %s with %s lines and "
            "%s peaks",
            what,
            m,
            c.minimum_matches,
            n,
            len(a.peaks),
        )
    else:
        require(
            got in (s, deg + 1, min(s, n), min(s, have), max(deg + 1, min(s, n)))
            and c.minimum_matches in (m, min(m, n), min(m, len(a.peaks)), min(m, n, len(a.peaks))),
            "%s: a failed fit of degree %s takes the sample size from %s to %s, "
            "the match requirement from %s to %s",
            what,
            deg,
            s,
            got,
            m,
            c.minimum_matches,
        )
    a.set["sample_size"] = got
    a.set["minimum_matches"] = c.minimum_matches
    return int(done)


def degree_case():
    return st.fixed_dictionaries(
        {
            "n": st.integers(12, 20),
            "deg": st.integers(1, 7),
            "coeff": st.booleans(),
            "sizes": st.lists(st.integers(1, 10), min_size=1, max_size=3),
            "tries": st.integers(2, 6),
            "seed": st.integers(0, 2**31),
        }
    )


def check_degree(case, rec):
    """The sample size is raised, and only as far as the degree asks for."""
    n, deg = case["n"], case["deg"]
    peaks = [float(v) for v in np.linspace(20, 980, n) + np.arange(n) % 3]
    c = Calibrator(peaks)
    c.set_calibrator_properties(num_pix=1000, log_level="critical", seed=case["seed"])
    c.set_hough_properties(
        num_slopes=60, xbins=10, ybins=10, min_wavelength=4000.0,
        max_wavelength=6000.0, range_tolerance=60.0, linearity_tolerance=30.0,
    )
    a = Atlas()
    a.add_user_atlas(["X"] * n, [4000.0 + 2.0 * p for p in peaks])
    c.set_atlas(a)
    x = np.linspace(0, 999, 50)
    guess = np.polynomial.polynomial.polyfit(x, 4000.0 + 2.0 * x, deg)
    kw = {"fit_coeff": guess} if case["coeff"] else {"fit_deg": deg}
    done = 0
    for s in case["sizes"]:
        c.set_ransac_properties(sample_size=s)
        try:
            with np.errstate(all="ignore"):
                c.fit(max_tries=case["tries"], progress=False, **kw)
        except Exception as e:
            if "Couldn't fit" in str(e):
                continue
            raise
        done += 1
        require(
            c.sample_size == max(s, deg + 1),
            "the sample size goes from %s to %s for a fit of degree %s to %d lines",
            s,
            c.sample_size,
            deg,
            n,
        )
    rec.nontrivial(done > 0)
    rec.label("degree %d" % deg)


TESTS = [
    Test(
        "history",
        case,
        check,
        quick=900,
        thorough=25000,
        shards=8,
        rule="a rejected call or a successful fit",
    ),
    Test(
        "degree",
        degree_case,
        check_degree,
        quick=160,
        thorough=4000,
        shards=8,
        rule="a successful fit",
    ),
]
