"""C15 An easy, well-posed arc is solved correctly."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import problem as P
from vlib.core import Test, require

ASSUMPTIONS = [
    "easy: 12 to 18 irregularly placed lines at least 1.2% of the range "
    "apart, of which at most two are undetected and one unlisted; noise of "
    "0.4 A at most (two sigma); curvature of 15 A at most",
    "the search being random, a problem counts as unsolved if three seeds in "
    "a row fail, or if of a group of problems more than 12% (and six) are "
    "not solved by the first seed; about 1% are not on the reference tree",
    "Legendre and Chebyshev coefficients of degree two or more are read in "
    "whichever of the basis and powers fits (see C19)",
    "of 36 to 52 lines, at least 0.8% apart, with samples of four at most "
    "about 3% are unsolved by the first seed; more than a sixth of a group is "
    "taken as a failure",
    "with one complication (four ghosts of true peaks, eight spurious peaks, "
    "twenty unseen atlas lines, or a curvature of 60 A with more generous "
    "tolerances) up to 5% are unsolved on the reference tree; more than a "
    "sixth (and seven) of a group is taken as a failure",
]

GROUPS = ("deg", "fit_type", "order", "shift", "weighted", "hough_weight",
          "filter_close", "sample", "kind", "known")


def case():
    return st.fixed_dictionaries(
        {
            "data": st.integers(0, 2**32 - 1),
            "npix": st.sampled_from([800, 1024, 2048, 3000]),
            "w0": st.sampled_from([3500.0, 4000.0, 5500.0, 8000.0]),
            "span": st.sampled_from([2000.0, 3000.0, 4000.0]),
            "lines": st.integers(12, 18),
            "missing": st.integers(0, 2),
            "spurious": st.integers(0, 1),
            "sigma": st.sampled_from([0.0, 0.05, 0.2]),
            "curv": st.integers(-15, 15),
            "skew": st.integers(-5, 5),
            # in units of the range tolerance
            "shift": st.sampled_from([0.0, 0.0, -0.4, 0.4]),
            "order": st.sampled_from(["asc", "desc", "mixed"]),
            "kind": st.sampled_from(["list", "array"]),
            "deg": st.sampled_from([1, 2, 2, 3, 3, 4]),
            "fit_type": st.sampled_from(
                ["poly", "poly", "poly", "legendre", "chebyshev"]
            ),
            "sample": st.sampled_from([3, 4, 5]),
            "top_n": st.sampled_from([5, 8, 10]),
            "weighted": st.booleans(),
            "hough_weight": st.sampled_from([1.0, 1.0, 0.1, 10.0]),
            "filter_close": st.sampled_from([False, False, True]),
            "known": st.sampled_from([False, False, True]),
            "spectrum": st.booleans(),
            "seed": st.integers(0, 2**31 - 10),
        }
    )


def crowded_case():
    return st.builds(
        lambda c, x, s: dict(
            c,
            extra=x,
            seen=s,
            missing=0,
            spurious=0,
            sigma=min(c["sigma"], 0.1),
            curv=60 if x == "curved" else c["curv"],
            skew=0,
            deg=max(c["deg"], 2) if x == "curved" else c["deg"],
            lines=min(c["lines"], 16),
            known=False,
            filter_close=False,
            sample=4,
            hough_weight=1.0,
        ),
        case(),
        st.sampled_from(["ghosts", "spurious", "unseen", "curved"]),
        st.integers(0, 2**32 - 1),
    )


def few_case():
    """As few lines as can be fitted, the sample size above what there is."""

    def make(c, m, deg, one, sample):
        free = m - deg - 3
        return dict(
            c,
            extra="few peaks" if one[0] else "few lines",
            seen=0,
            lines=m,
            deg=deg,
            missing=min(one[1], free) if one[0] else 0,
            spurious=0 if one[0] else min(one[1], free),
            sample=sample,
            over=(sample > m - min(one[1], free)) * (1 + one[0]),
            sigma=min(c["sigma"], 0.05),
            skew=0,
            known=False,
            filter_close=False,
            hough_weight=1.0,
        )

    return st.builds(
        make,
        case(),
        st.integers(5, 8),
        st.integers(1, 2),
        st.tuples(st.booleans(), st.integers(0, 3)),
        st.sampled_from([3, 4, 5, 6, 8, 10]),
    )


def many_case():
    """More lines than an ordinary arc has, nearly all of them detected."""
    return st.builds(
        lambda c, m: dict(
            c,
            extra="many",
            seen=0,
            # small numbers are drawn too often
            lines=52 - m % 17,
            data=c["data"] ^ m,
            sigma=min(c["sigma"], 0.05),
            known=False,
            filter_close=False,
            hough_weight=1.0,
            span=max(c["span"], 3000.0),
            sample=min(c["sample"], 4),
            top_n=min(c["top_n"], 8),
        ),
        case(),
        st.integers(0, 2**31),
    )


class Data:
    def __init__(self, case):
        r = np.random.RandomState(case["data"])
        n, deg = case["npix"], case["deg"]
        self.n, self.w0, self.span = n, case["w0"], case["span"]
        self.curv = case["curv"] if deg > 1 else 0
        self.skew = case["skew"] if deg > 2 else 0
        m = case["lines"]
        while m <= 18:
            u = np.sort(r.uniform(0.02, 0.98, m))
            if np.diff(u).min() > (0.012 if m > 9 else 0.03):
                break
        else:
            # at least 0.8% apart
            gaps = 0.008 + r.dirichlet(np.ones(m - 1)) * (0.96 - 0.008 * (m - 1))
            u = 0.02 + np.concatenate([[0.0], np.cumsum(gaps)])
        slope = self.span / (n - 1)
        self.k = int(round(case["shift"] * 100.0 / slope))
        x = u * (n - 1)
        lines = np.round(self.wave(x + self.k), 3)
        noise = np.clip(r.randn(m), -2, 2) * case["sigma"] / slope
        peaks = np.round(x + noise, 3) + self.k
        found = np.ones(m, dtype=bool)
        found[r.choice(m, case["missing"], replace=False)] = False
        listed = np.ones(m, dtype=bool)
        listed[r.choice(m, case["spurious"], replace=False)] = False
        both = found & listed
        self.truth = dict(zip(peaks[both].tolist(), lines[both].tolist()))
        self.peaks, self.lines = peaks[found], lines[listed]
        self.lo, self.hi = peaks[both].min(), peaks[both].max()
        self.crowd(case, slope)
        if case["order"] == "desc":
            self.peaks, self.lines = self.peaks[::-1], self.lines[::-1]
        elif case["order"] == "mixed":
            self.peaks = r.permutation(self.peaks)
            self.lines = r.permutation(self.lines)

    def crowd(self, case, slope):
        extra = case.get("extra")
        if extra is None:
            return
        r = np.random.RandomState(case["seen"])
        if extra == "ghosts":
            i = r.choice(len(self.peaks), 4, replace=False)
            by = r.choice([-1, 1], 4) * r.uniform(1.0, 3.0, 4) / slope
            new = np.round(self.peaks[i] + by, 3)
            self.peaks = np.unique(np.concatenate([self.peaks, new]))
        elif extra == "spurious":
            new = np.round(r.uniform(0, self.n - 1, 8), 3) + self.k
            self.peaks = np.unique(np.concatenate([self.peaks, new]))
        elif extra == "unseen":
            new = np.round(self.w0 + self.span * r.uniform(0, 1, 20), 3)
            far = np.abs(new[:, None] - self.lines[None, :]).min(axis=1) > 10
            self.lines = np.unique(np.concatenate([self.lines, new[far]]))

    def wave(self, x):
        v = (np.asarray(x, dtype=float) - self.k) / (self.n - 1.0)
        return (
            self.w0
            + self.span * v
            + 4.0 * self.curv * v * (1 - v)
            + 10.0 * self.skew * v * (1 - v) * (v - 0.5)
        )


def attempt(d, case, seed):
    """None if the problem is solved, else what is wrong."""
    curved = case.get("extra") == "curved"
    peaks = d.peaks.copy()
    spec = None
    if case["spectrum"]:
        x = np.arange(d.n) + d.k
        spec = 5 + sum(
            100 * np.exp(-0.5 * ((x - p) / 2.0) ** 2) for p in peaks
        )
    c = Calibrator(peaks.tolist() if case["kind"] == "list" else peaks, spec)
    c.set_calibrator_properties(
        num_pix=d.n,
        pixel_list=np.arange(d.n) + d.k,
        log_level="critical",
        seed=seed,
    )
    c.set_hough_properties(
        num_slopes=400,
        xbins=50,
        ybins=50,
        min_wavelength=d.w0,
        max_wavelength=d.w0 + d.span,
        range_tolerance=100.0,
        linearity_tolerance=100.0 if curved else 50.0,
    )
    c.set_ransac_properties(
        sample_size=case["sample"],
        top_n_candidate=case["top_n"],
        filter_close=case["filter_close"],
        ransac_tolerance=5.0,
        candidate_weighted=case["weighted"],
        hough_weight=case["hough_weight"],
    )
    a = Atlas()
    a.add_user_atlas(["X"] * len(d.lines), d.lines.tolist())
    c.set_atlas(a)
    if case["known"]:
        x = float(d.k + 3)
        c.set_known_pairs([x], [float(d.wave(x))])
    deg = case["deg"]
    try:
        r = c.fit(
            max_tries=500,
            fit_deg=deg,
            fit_type=case["fit_type"],
            candidate_tolerance=20.0 if curved else 10.0,
            progress=False,
        )
    except AssertionError as e:
        if "Couldn't fit" in str(e):
            return "no solution"
        raise
    coeff, mp, ma = np.asarray(r[0], dtype=float), r[1], r[2]
    good = sum(d.truth.get(float(p)) == float(w) for p, w in zip(mp, ma))
    share = 0.85 if case.get("extra") == "many" else 0.5
    if good < 0.8 * len(mp) or good < share * len(d.truth):
        return "%d true of %d matches, %d possible" % (
            good,
            len(mp),
            len(d.truth),
        )
    g = np.linspace(d.lo, d.hi, 60)
    kinds = {case["fit_type"]}
    if case["fit_type"] != "poly" and deg > 1:
        kinds.add("poly")
    dev = min(np.abs(P.BASIS[k](g, coeff) - d.wave(g)).max() for k in kinds)
    if dev > 3.0:
        return "the solution is off by %.1f A" % dev
    return None


def check(case, rec):
    d = Data(case)
    why = []
    for i in range(3):
        bad = attempt(d, case, case["seed"] + i)
        if i == 0:
            rec.outcome(bad is None)
        if bad is None:
            break
        why.append(bad)
        rec.label("unsolved by seed no. %d" % (i + 1))
    require(len(why) < 3, "not solved with three seeds: %s", why)
    rec.nontrivial()


def check_crowded(case, rec):
    bad = attempt(Data(case), case, case["seed"])
    rec.outcome(bad is None)
    rec.label(case["extra"])
    rec.nontrivial(bad is None)


def crowded_verdict(outs):
    for g in ("extra", "fit_type", "deg", "order", "weighted"):
        for v in sorted({c[g] for c, _ in outs}, key=repr):
            mine = [ok for c, ok in outs if c[g] == v]
            bad = mine.count(False)
            if bad > max(7, 0.16 * len(mine)):
                return "%d of %d crowded problems with %s = %r are not solved" % (
                    bad,
                    len(mine),
                    g,
                    v,
                )
    return None


def few_verdict(outs):
    for g in ("extra", "deg", "sample", "lines", "over"):
        for v in sorted({c[g] for c, _ in outs}, key=repr):
            mine = [ok for c, ok in outs if c[g] == v]
            bad = mine.count(False)
            if bad > max(5, 0.12 * len(mine)):
                return "%d of %d problems of few lines with %s = %r are not solved" % (
                    bad,
                    len(mine),
                    g,
                    v,
                )
    return None


def verdict(outs):
    for g in GROUPS:
        for v in sorted({c[g] for c, _ in outs}, key=repr):
            mine = [ok for c, ok in outs if c[g] == v]
            bad = mine.count(False)
            if bad > max(6, 0.12 * len(mine)):
                return "%d of %d easy problems with %s = %r are not solved" % (
                    bad,
                    len(mine),
                    g,
                    v,
                )
    return None


TESTS = [
    Test(
        "easy",
        case,
        check,
        quick=320,
        thorough=12000,
        shards=24,
        verdict=verdict,
        rule="a problem solved",
    ),
    Test(
        "crowded",
        crowded_case,
        check_crowded,
        quick=200,
        thorough=6000,
        shards=24,
        verdict=crowded_verdict,
        rule="a problem solved",
    ),
    Test(
        "few",
        few_case,
        check_crowded,
        quick=144,
        thorough=6000,
        shards=24,
        verdict=few_verdict,
        rule="a problem solved",
    ),
    Test(
        "many",
        many_case,
        check_crowded,
        quick=72,
        thorough=3000,
        shards=24,
        verdict=crowded_verdict,
        rule="a problem solved",
    ),
]
