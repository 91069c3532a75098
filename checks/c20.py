"""C20 Re-matching all peaks to a solution is sound and complete."""
import numpy as np
from hypothesis import strategies as st

from rascal import models
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import dyadic, nice

ASSUMPTIONS = [
    "the lines of the atlas are distinct, and a refit is asked for if there "
    "are more matches than coefficients",
    "with the option refine (experimental) the peaks are matched to the given "
    "solution; lines 20 A apart at least, shifted from it by 4 A at most: "
    "the error is reduced to a half (or 0.2 A) in at least 80% of the cases, on "
    "the reference tree in 99%",
    "residuals of either sign are accepted",
    "the robust fit is that of models.robust_polyfit, see C22",
]


def solution():
    return st.one_of(
        # exactly representable predictions
        st.fixed_dictionaries(
            {
                "kind": st.just("exact"),
                "c0": dyadic(3000, 5000, 4),
                "c1": st.sampled_from([0.5, 1.0, 2.0, 4.0, -1.0, 0.0]),
            }
        ),
        st.fixed_dictionaries(
            {
                "kind": st.just("poly"),
                "w0": nice(3000, 5000, 2),
                "w1": nice(5500, 9000, 2),
                "curv": st.integers(-200, 200),
                "skew": st.integers(-100, 100),
                "deg": st.integers(1, 5),
            }
        ),
    )


def call():
    return st.fixed_dictionaries(
        {
            "sol": solution(),
            "stored": st.booleans(),
            "tol": st.one_of(
                st.sampled_from([0.25, 0.5, 1.0, 2.0, 5.0, 10.0, 40.0]),
                nice(0.1, 60, 2),
            ),
            "refit": st.sampled_from([None, False, True]),
            "fit_deg": st.sampled_from([None, None, 1, 2, 3]),
            "list": st.booleans(),
            "every": st.booleans(),
            # lines near the prediction of a peak, in quarters of an A
            "near": st.lists(
                st.tuples(st.integers(0, 20), st.integers(-48, 48)),
                min_size=1,
                max_size=24,
            ),
        }
    )


def case():
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.one_of(
                    st.integers(4, 4000).map(lambda i: i / 4),
                    st.integers(40, 80).map(lambda i: i / 4),
                ),
                min_size=1,
                max_size=12,
                unique=True,
            ),
            "sort": st.booleans(),
            "array": st.booleans(),
            "basis": st.sampled_from(["poly", "poly", "legendre", "chebyshev"]),
            "far": st.lists(st.integers(2000, 12000), max_size=4),
            "calls": st.lists(call(), min_size=1, max_size=3),
        }
    )


def coefficients(sol, basis, deg_of=None):
    if sol["kind"] == "exact":
        return np.array([sol["c0"], sol["c1"]])
    x = np.linspace(0, 1000, 50)
    v = x / 1000.0
    y = (
        sol["w0"]
        + (sol["w1"] - sol["w0"]) * v
        + 4 * sol["curv"] * v * (1 - v)
        + 10 * sol["skew"] * v * (1 - v) * (v - 0.5)
    )
    return P.BASISFIT[basis](x, y, sol["deg"])


def lines_for(case, o, coeff):
    peaks = case["peaks"]
    val = P.BASIS[case["basis"]]
    lines = {float(x) for x in case["far"]}
    for i, q in o["near"]:
        w = float(val(peaks[i % len(peaks)], coeff))
        if o["sol"]["kind"] != "exact":
            w = round(w, 3)
        lines.add(w + q / 4.0)
    if o["every"]:
        for i, p in enumerate(sorted(peaks)):
            lines.add(round(float(val(p, coeff)), 2) + (i * 7 % 5 - 2) / 16.0)
    lines = sorted(w for w in lines if w > 0)
    if not case["sort"]:
        lines = lines[::2] + lines[1::2][::-1]
    return lines


def setup(case):
    peaks = sorted(case["peaks"]) if case["sort"] else list(case["peaks"])
    c = Calibrator(np.array(peaks) if case["array"] else list(peaks))
    c.set_calibrator_properties(
        num_pix=1001, pixel_list=np.arange(1001), log_level="critical"
    )
    c.set_hough_properties(
        num_slopes=12, xbins=5, ybins=5, min_wavelength=4000.0,
        max_wavelength=6000.0,
    )
    a = Atlas()
    a.add_user_atlas(["X"] * 3, [4500.0, 5000.0, 5500.0])
    c.set_atlas(a)
    # the basis is chosen by a fit
    try:
        c.fit(max_tries=1, fit_deg=1, fit_type=case["basis"], progress=False)
    except Exception:
        pass
    return peaks, c


def check(case, rec):
    peaks, c = setup(case)
    val = P.BASIS[case["basis"]]
    rich = False
    for o in case["calls"]:
        coeff = coefficients(o["sol"], case["basis"])
        given = coeff.copy()
        lines = lines_for(case, o, coeff)
        if not lines:
            continue
        a = Atlas()
        a.add_user_atlas(["X"] * len(lines), list(lines))
        c.set_atlas(a)
        tol = o["tol"]
        kw = {"tolerance": tol}
        if o["stored"]:
            c.fit_coeff = coeff.copy()
        else:
            kw["fit_coeff"] = coeff.tolist() if o["list"] else coeff
        pred = val(np.array(peaks), coeff)
        diff = np.abs(pred[:, None] - np.array(lines)[None, :])
        # exactly at the tolerance is not closer, unless it is rounded
        e = 0.0 if o["sol"]["kind"] == "exact" else 1e-7
        reach, surely = diff < tol + e, diff < tol - e
        # whether a refit is possible
        sure = 0
        for i in range(len(peaks)):
            js = np.where(surely[i])[0]
            if len(js) and not reach[:, js].sum() > len(js):
                sure += 1
        deg = len(coeff) - 1 if o["fit_deg"] is None else o["fit_deg"]
        refit = o["refit"] is not False
        if refit and sure <= deg + 1:
            refit = False
            kw["robust_refit"] = False
        elif o["refit"] is not None:
            kw["robust_refit"] = refit
        if o["fit_deg"] is not None:
            kw["fit_deg"] = o["fit_deg"]
        with np.errstate(all="ignore"):
            out = c.match_peaks(**kw)
        require(len(out) == 7, "%d values returned", len(out))
        got, mp, ma, rms, res, pu, au = out
        got = np.asarray(got, dtype=float)
        mp = np.asarray(mp, dtype=float)
        ma = np.asarray(ma, dtype=float)
        res = np.asarray(res, dtype=float)
        require(np.array_equal(coeff, given), "the given solution is modified")
        require(mp.shape == ma.shape == res.shape, "ragged matches")
        require(
            set(mp.tolist()) <= set(peaks) and set(ma.tolist()) <= set(lines),
            "matches %s %s are not peaks and lines",
            mp,
            ma,
        )
        require(len(set(mp.tolist())) == len(mp), "a peak twice: %s", mp)
        require(len(set(ma.tolist())) == len(ma), "a line twice: %s", ma)
        I = [peaks.index(x) for x in mp.tolist()]
        J = [lines.index(w) for w in ma.tolist()]
        for i, j in zip(I, J):
            require(
                reach[i, j],
                "peak %s, predicted at %s, is matched to %s, tolerance %s",
                peaks[i],
                pred[i],
                lines[j],
                tol,
            )
        for i in set(range(len(peaks))) - set(I):
            free = set(np.where(surely[i])[0].tolist()) - set(J)
            require(
                not free,
                "peak %s, predicted at %s, is left out, the lines %s are "
                "free (tolerance %s)",
                peaks[i],
                pred[i],
                [lines[j] for j in free],
                tol,
            )
        if refit:
            again = np.asarray(models.robust_polyfit(mp, ma, deg), dtype=float)
            require(
                got.shape == again.shape
                and np.abs(
                    P.BASIS["poly"](mp, got) - P.BASIS["poly"](mp, again)
                ).max()
                <= 1e-5 * np.abs(ma).max(),
                "%s is not the robust fit %s of the matches",
                got,
                again,
            )
            rec.label("refitted")
        else:
            require(
                np.array_equal(got, given),
                "%s returned without a refit, given: %s",
                got,
                given,
            )
        want = ma - val(mp, got)
        sc = 1e-9 * (1 + np.abs(ma))
        require(
            np.all(np.abs(res - want) <= sc) or np.all(np.abs(res + want) <= sc),
            "residuals %s, expected %s",
            res,
            want,
        )
        if len(mp):
            r = float(np.sqrt(np.mean(want**2)))
            require(
                abs(rms - r) <= 1e-9 * (1 + r), "error %r, expected %r", rms, r
            )
        require(
            pu == len(mp) / len(peaks) and au == len(mp) / len(lines),
            "utilisation %r %r for %d matches of %d peaks and %d lines",
            pu,
            au,
            len(mp),
            len(peaks),
            len(lines),
        )
        require(
            [(float(x), float(w)) for _, x, w in c.get_pix_wave_pairs()]
            == list(zip(mp.tolist(), ma.tolist())),
            "the pairs listed are not those returned",
        )
        rich = rich or (
            (reach.sum(1) > 1).any() and (reach.sum(0) > 1).any()
        )
    rec.nontrivial(rich)


def large_case():
    return st.fixed_dictionaries(
        {
            "n": st.sampled_from([20, 45, 80, 130]),
            "seed": st.integers(0, 2**31 - 1),
            "sol": solution(),
            "tol": st.sampled_from([0.5, 2.0, 10.0]),
            "refit": st.booleans(),
            "basis": st.sampled_from(["poly", "legendre"]),
        }
    )


def check_large(case, rec):
    """Tens of peaks and lines, by the rules of check()."""
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    check(
        {
            "peaks": (r.permutation(4000)[:n] / 4.0).tolist(),
            "sort": bool(case["seed"] % 2),
            "array": bool(case["seed"] % 3),
            "basis": case["basis"],
            "far": r.randint(2000, 12000, 20).tolist(),
            "calls": [
                {
                    "sol": case["sol"],
                    "stored": False,
                    "tol": case["tol"],
                    "refit": case["refit"],
                    "fit_deg": 3 if case["refit"] else None,
                    "list": False,
                    "every": bool(case["seed"] % 5),
                    "near": [
                        (int(a), int(b))
                        for a, b in zip(
                            r.randint(0, n, n), r.randint(-48, 49, n)
                        )
                    ],
                }
            ],
        },
        rec,
    )


def refine_case():
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.integers(0, 48), min_size=7, max_size=13, unique=True
            ),
            "jit": st.integers(0, 2**31 - 1),
            "curv": st.integers(-40, 40),
            "w0": nice(3500, 8000, 1),
            "slope": st.sampled_from([1.5, 2.0, 2.5]),
            "by": st.integers(-40, 40).map(lambda i: i / 10),
            "noise": st.sampled_from([0.0, 0.05, 0.1]),
            "n": st.sampled_from([None, 1, 2, 3]),
            "kind": st.sampled_from(["array", "list", "ints", "stored"]),
            "refit": st.booleans(),
            "method": st.sampled_from([None, None, None, "Powell"]),
            "min": st.sampled_from([None, None, 0.9]),
            "basis": st.sampled_from(["poly", "poly", "legendre"]),
        }
    )


def check_refine(case, rec):
    r = np.random.RandomState(case["jit"])
    peaks = 20.0 * np.array(sorted(case["peaks"])) + r.randint(0, 7)
    s = case["slope"]
    v = peaks / 1000.0
    coeff = np.array([case["w0"], s, 0.0])
    if case["kind"] != "ints":
        coeff = np.array(
            [case["w0"], s + 4e-3 * case["curv"], -4e-6 * case["curv"]]
        )
        if case["basis"] == "legendre":
            x = np.linspace(0, 1000, 9)
            coeff = P.BASISFIT["legendre"](
                x, np.polynomial.polynomial.polyval(x, coeff), 2
            )
    else:
        coeff = np.array([int(case["w0"]), int(np.ceil(s))])
        case = dict(case, basis="poly")
    val = P.BASIS[case["basis"]]
    pred = val(peaks, coeff)
    lines = np.round(pred + case["by"] + r.randn(len(v)) * case["noise"], 3)
    c = Calibrator(peaks)
    c.set_calibrator_properties(
        num_pix=1001, pixel_list=np.arange(1001), log_level="critical"
    )
    c.set_hough_properties(
        num_slopes=12, xbins=5, ybins=5, min_wavelength=4000.0,
        max_wavelength=6000.0,
    )
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines), lines.tolist())
    c.set_atlas(a)
    try:
        c.fit(max_tries=1, fit_deg=1, fit_type=case["basis"], progress=False)
    except Exception:
        pass
    kw = {"refine": True, "robust_refit": case["refit"], "tolerance": 14.0}
    given = coeff.copy()
    if case["kind"] == "stored":
        c.fit_coeff = coeff
    else:
        kw["fit_coeff"] = coeff.tolist() if case["kind"] == "list" else coeff
    if case["n"] is not None:
        kw["n_delta"] = min(case["n"], len(coeff))
    if case["method"]:
        kw["method"] = case["method"]
    if case["min"]:
        kw["min_frac"] = case["min"]
    arg = list(kw["fit_coeff"]) if "fit_coeff" in kw else None
    out = c.match_peaks(**kw)
    require(np.array_equal(coeff, given), "the given solution is modified")
    require(
        arg is None or list(kw["fit_coeff"]) == arg,
        "the given solution is modified",
    )
    got, mp, ma, rms, res, pu, au = out
    if mp is None:
        rec.outcome(False)
        return
    got = np.asarray(got, dtype=float)
    require(
        np.array_equal(mp, peaks) and np.array_equal(ma, lines),
        "matches %s of %s and %s",
        list(zip(mp, ma)),
        peaks,
        lines,
    )
    require(got.shape == coeff.shape, "%d coefficients", len(got))
    want = np.asarray(ma) - val(np.asarray(mp), got)
    res = np.asarray(res, dtype=float)
    sc = 1e-8 * (1 + np.abs(lines))
    require(
        np.all(np.abs(res - want) <= sc) or np.all(np.abs(res + want) <= sc),
        "residuals %s, expected %s",
        res,
        want,
    )
    e = float(np.sqrt(np.mean(want**2)))
    require(abs(rms - e) <= 1e-8 * (1 + e), "error %r, expected %r", rms, e)
    require(pu == 1 and au == 1, "utilisation %r %r", pu, au)
    if not case["refit"]:
        before = float(np.sqrt(np.mean((lines - pred) ** 2)))
        rec.outcome(e <= max(0.2, 0.5 * before))
        rec.label("refined" if e <= max(0.2, 0.5 * before) else "not refined")
        n = kw.get("n_delta", len(coeff) - 1)
        require(
            np.array_equal(got[n:], given[n:]),
            "coefficients beyond the first %d are changed: %s, %s given",
            n,
            got,
            given,
        )
        rec.nontrivial(abs(case["by"]) > 0.4)


def refine_verdict(outs):
    for g in ("kind", "basis", "n", "method", "slope"):
        for v in sorted({c[g] for c, _ in outs}, key=repr):
            mine = [ok for c, ok in outs if c[g] == v]
            bad = mine.count(False)
            if bad > max(5, 0.2 * len(mine)):
                return "%d of %d solutions with %s = %r are not refined" % (
                    bad,
                    len(mine),
                    g,
                    v,
                )
    return None


TESTS = [
    Test(
        "large",
        large_case,
        check_large,
        quick=120,
        thorough=4000,
        shards=4,
        rule="as match",
    ),
    Test(
        "match",
        case,
        check,
        quick=5000,
        thorough=80000,
        shards=8,
        rule="a peak with several lines and a line with several peaks "
        "within reach",
    ),
    Test(
        "refine",
        refine_case,
        check_refine,
        quick=160,
        thorough=8000,
        shards=8,
        verdict=refine_verdict,
        rule="a solution shifted by more than 0.4 A is refined",
    ),
]
