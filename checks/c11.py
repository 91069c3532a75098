"""C11 Candidate matches are the well-supported pairs near the Hough lines."""
import collections

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.houghtransform import HoughTransform
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import dyadic, nice

ASSUMPTIONS = [
    "pairs within 1e-9 (relative) of the tolerance may be in or out",
    "wavelengths of equal support may be chosen in any way",
    "the candidates of a fit are read from its attributes candidates, "
    "candidate_peak and candidate_arc",
]


def lines_st():
    """Hough lines: near the true one, or anything."""
    return st.lists(
        st.tuples(dyadic(-3, 3, 4), dyadic(-40, 40, 4)), min_size=1, max_size=8
    )


def case():
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.integers(0, 60).map(lambda i: 16.0 * i + 8),
                min_size=2,
                max_size=8,
                unique=True,
            ),
            # lines: peak number, and the offset from the true wavelength
            "lines": st.lists(
                st.tuples(
                    st.integers(0, 7),
                    st.one_of(st.just(0.0), dyadic(-30, 30, 4)),
                ),
                min_size=2,
                max_size=14,
            ),
            "hough": lines_st(),
            "tol": st.sampled_from([0.5, 4.0, 12.0, 40.0]),
            "top_n": st.integers(1, 6),
            "weighted": st.booleans(),
            "rt": st.sampled_from([20.0, 100.0, 500.0]),
            "lt": st.sampled_from([0.0, 50.0, 100.0]),
            "order": st.sampled_from(["asc", "as is", "desc"]),
        }
    )


def gaps(case):
    peaks = list(case["peaks"])
    lines = []
    for i, off in case["lines"]:
        w = 4000.0 + 2.0 * peaks[i % len(peaks)] + off
        if w not in lines:
            lines.append(w)
    if case["order"] == "asc":
        lines.sort()
        peaks.sort()
    elif case["order"] == "desc":
        lines.sort(reverse=True)
        peaks.sort(reverse=True)
    return peaks, lines


def check_lines(c, hough, tol, what):
    """The candidates of each Hough line."""
    pairs = np.asarray(c.pairs, dtype=float)
    got = [
        (np.asarray(a, float), np.asarray(b, float), np.asarray(w, float))
        for a, b, w in c.candidates
    ]
    require(
        len(got) == len(hough),
        "%s: %d sets of candidates for %d Hough lines",
        what,
        len(got),
        len(hough),
    )
    for (m, k), (px, wl, wt) in zip(hough, got):
        require(
            len(px) == len(wl) == len(wt), "%s: ragged candidates", what
        )
        d = np.abs(pairs[:, 1] - (m * pairs[:, 0] + k))
        eps = 1e-9 * np.abs(pairs[:, 1])
        must = collections.Counter(map(tuple, pairs[d <= tol - eps]))
        may = collections.Counter(map(tuple, pairs[d <= tol + eps]))
        have = collections.Counter(zip(px.tolist(), wl.tolist()))
        require(
            not must - have,
            "%s: line (%s, %s) misses the pairs %s",
            what,
            m,
            k,
            list((must - have))[:4],
        )
        require(
            not have - may,
            "%s: line (%s, %s) has the pairs %s",
            what,
            m,
            k,
            list((have - may))[:4],
        )
        # the support of a pair does not grow with its distance
        if len(px):
            dist = np.abs(wl - (m * px + k))
            o = np.argsort(dist, kind="stable")
            require(
                np.all(np.isfinite(wt)) and np.all(wt >= 0),
                "%s: weights %s",
                what,
                wt,
            )
            require(
                np.all(np.diff(wt[o]) <= 1e-9 * max(1e-300, wt.max())),
                "%s: a farther pair weighs more: distances %s, weights %s",
                what,
                dist[o],
                wt[o],
            )
    return got


def check_offered(got, top_n, weighted, offered, rec, what):
    """The wavelengths of each peak that are offered to the solver."""
    px = np.concatenate([g[0] for g in got]) if got else np.array([])
    wl = np.concatenate([g[1] for g in got]) if got else np.array([])
    wt = np.concatenate([g[2] for g in got]) if got else np.array([])
    off_p = np.asarray(offered[0], dtype=float)
    off_w = np.asarray(offered[1], dtype=float)
    require(
        set(off_p.tolist()) == set(px.tolist()),
        "%s: wavelengths are offered for the peaks %s, there are candidates "
        "for %s",
        what,
        sorted(set(off_p.tolist())),
        sorted(set(px.tolist())),
    )
    rich = False
    for p in sorted(set(px.tolist())):
        m = wl[px == p]
        w = wt[px == p] if weighted else np.ones(len(m))
        u, inv = np.unique(m, return_inverse=True)
        agg = np.zeros(len(u))
        np.add.at(agg, inv, w)
        n = min(top_n, len(u))
        mine = collections.Counter(off_w[off_p == p].tolist())
        kth = np.sort(agg)[::-1][n - 1]
        e = 1e-9 * max(kth, 1e-300)
        sure, tie = agg > kth + e, np.abs(agg - kth) <= e

        def agrees(names):
            s = collections.Counter(names[np.where(sure)[0]].tolist())
            t = collections.Counter(names[np.where(tie)[0]].tolist())
            rest = mine - s
            return not (s - mine) and not (rest - t)

        rich = rich or (len(u) > top_n and len(m) > len(u))
        if sum(mine.values()) == n and agrees(u):
            continue
        require(
            False,
            "%s: peak %s has the candidates %s with support %s, %d are "
            "requested, offered: %s",
            what,
            p,
            u.tolist(),
            agg.tolist(),
            top_n,
            off_w[off_p == p].tolist(),
        )
    return rich


def set_hough(c, lines):
    """A transform whose candidate lines are given, loaded as from a file."""
    pts = np.array(lines, dtype=float)
    ht = HoughTransform()
    ht.set_constraints(-1e6, 1e6, -1e6, 1e6)
    ht.hough_points = pts
    ht.bin_hough_points(6, 6)
    ht.hough_lines = [tuple(x) for x in pts]
    c.ht = ht
    c.hough_points = pts
    c.hough_lines = ht.hough_lines


def check(case, rec):
    peaks, lines = gaps(case)
    if len(peaks) < 2 or len(lines) < 2:
        return
    c = Calibrator(list(peaks))
    c.set_calibrator_properties(
        num_pix=1000, pixel_list=np.arange(1000), log_level="critical"
    )
    c.set_hough_properties(
        min_wavelength=4000.0,
        max_wavelength=5998.0,
        range_tolerance=case["rt"],
        linearity_tolerance=case["lt"],
        num_slopes=20,
        xbins=6,
        ybins=6,
    )
    c.set_ransac_properties(
        sample_size=2,
        top_n_candidate=case["top_n"],
        candidate_weighted=case["weighted"],
    )
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines), list(lines))
    c.set_atlas(a)
    hough = [(2.0 + dm / 100.0, 4000.0 + dk) for dm, dk in case["hough"]]
    # two spare lines so that the histogram has an extent
    hough = hough + [(1.0, 3000.0), (3.5, 7000.0)]
    set_hough(c, hough)
    try:
        c.fit(
            max_tries=1,
            fit_deg=1,
            candidate_tolerance=case["tol"],
            progress=False,
        )
    except AssertionError as e:
        if "Couldn't fit" not in str(e):
            raise
    got = check_lines(c, hough, case["tol"], "direct")
    rich = check_offered(
        got,
        case["top_n"],
        case["weighted"],
        (c.candidate_peak, c.candidate_arc),
        rec,
        "direct",
    )
    rec.nontrivial(sum(len(g[0]) for g in got) >= 4)
    rec.label("more lines than offered, with duplicates", rich)


def fit_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=8),
            "s": P.settings(max_tries=(2, 6), deg=(1, 3)),
        }
    )


def check_fit(case, rec):
    p, s = P.Problem(case["p"]), case["s"]
    if len(p.peaks) < 5 or len(p.lines) < 5:
        return
    c = p.calibrator(s)
    P.fit_or_none(c, s)
    got = check_lines(
        c, [tuple(x) for x in c.hough_lines], s["candidate_tolerance"], "fit"
    )
    rich = check_offered(
        got,
        s["top_n"],
        s["candidate_weighted"],
        (c.candidate_peak, c.candidate_arc),
        rec,
        "fit",
    )
    rec.nontrivial(sum(len(g[0]) for g in got) >= 4)
    rec.label("more lines than offered, with duplicates", rich)


def guess_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=8),
            "s": P.settings(max_tries=(2, 6), deg=(1, 3)),
            "shift": nice(-60, 60, 1),
        }
    )


def check_guess(case, rec):
    """linear=False: the pairs near copies of the guess, each shifted by some
    amount within the range tolerance."""
    p, s = P.Problem(case["p"]), case["s"]
    if len(p.peaks) < 5 or len(p.lines) < 5:
        return
    c = p.calibrator(s)
    c.set_ransac_properties(linear=False)
    x = np.linspace(0, p.npix - 1, 30)
    guess = P.BASISFIT[s["fit_type"]](x, p.wave(x) + case["shift"], s["fit_deg"])
    tol, rt = s["candidate_tolerance"], s["range_tolerance"]
    P.fit_or_none(c, s, fit_coeff=[float(g) for g in guess])
    peaks, lines = np.asarray(p.peaks), np.asarray(p.lines)
    pred = P.BASIS[s["fit_type"]](peaks, guess)
    diff = {
        (a, b): b - q for a, q in zip(p.peaks, pred) for b in p.lines
    }
    got = []
    e = 1e-7
    for a, b, w in c.candidates:
        a, b, w = np.asarray(a, float), np.asarray(b, float), np.asarray(w, float)
        got.append((a, b, w))
        mine = set(zip(a.tolist(), b.tolist()))
        require(
            mine <= set(diff), "candidates %s are no pairs", mine - set(diff)
        )
        require(len(mine) == len(a), "candidates twice in one set")
        if not mine:
            continue
        ds = [diff[k] for k in mine]
        lo, hi = max(max(ds) - tol, -rt), min(min(ds) + tol, rt)
        mid = 0.5 * (min(ds) + max(ds))
        for k, d in diff.items():
            if k in mine:
                continue
            # not within the tolerance of the shift
            if d <= mid:
                lo = max(lo, d + tol)
            else:
                hi = min(hi, d - tol)
        require(
            lo <= hi + e,
            "no shift within the range tolerance %s explains the candidates "
            "%s (differences %s, tolerance %s)",
            rt,
            sorted(mine)[:5],
            sorted(ds)[:5],
            tol,
        )
    offered = (c.candidate_peak, c.candidate_arc)
    check_offered(
        got, s["top_n"], s["candidate_weighted"], offered, rec, "guess"
    )
    rec.nontrivial(sum(len(g[0]) for g in got) >= 4)


TESTS = [
    Test(
        "direct",
        case,
        check,
        quick=9000,
        thorough=120000,
        shards=8,
        rule="at least four candidate pairs",
    ),
    Test(
        "fit",
        fit_case,
        check_fit,
        quick=300,
        thorough=8000,
        shards=8,
        rule="at least four candidate pairs",
    ),
    Test(
        "guess",
        guess_case,
        check_guess,
        quick=400,
        thorough=8000,
        shards=8,
        rule="at least four candidate pairs",
    ),
]
