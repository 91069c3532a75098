"""C13 A fit only accepts solutions that meet the user's constraints."""
import numpy as np
from hypothesis import strategies as st

from rascal import models
from rascal.calibrator import Calibrator
from vlib import observe
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import fl, nice

ASSUMPTIONS = [
    "fits without an initial solution",
    "the sample solutions are those computed with numpy's polyfit, legfit "
    "and chebfit during the fit; if none is seen, that part is not checked",
]


def case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=7),
            "s": P.settings(max_tries=(2, 6), deg=(1, 3)),
            "o": st.fixed_dictionaries(
                {},
                optional={
                    "minimum_matches": st.one_of(
                        st.integers(1, 12), st.integers(40, 60)
                    ),
                    "minimum_peak_utilisation": st.one_of(
                        nice(0, 1, 2), st.sampled_from([0.5, 0.75, 1.0])
                    ),
                    "minimum_fit_error": st.sampled_from(
                        [0.0, 1e-9, 1e-3, 0.05, 0.1, 0.3, 1.0, 3.0]
                    ),
                },
            ),
            "known": st.booleans(),
            "split": st.booleans(),
            # the true intercept against the declared one, in units of the
            # range tolerance
            "off": st.sampled_from(
                [0, 0, 0, 0.5, -0.9, 1.02, 1.1, 1.3, 2.0, -1.02, -1.2, -1.5]
            ),
            # a dispersion that turns around
            "turn": st.sampled_from([0, 0, 0, 0, 0.25, 0.32, 0.4, -0.3]),
        }
    )


def check(case, rec):
    s, o = case["s"], case["o"]
    data = dict(case["p"])
    if case["turn"]:
        data["curv"] = case["turn"] * data["span"]
    p = P.Problem(data)
    if case["turn"]:
        p.max_w = p.min_w + data["span"]
    p.min_w += case["off"] * s["range_tolerance"]
    p.max_w += case["off"] * s["range_tolerance"]
    if len(p.peaks) < 4 or len(p.lines) < 4:
        return
    c = p.calibrator(s)
    if case["split"]:
        # one by one, the settings mentioned earlier stay in force
        for k in sorted(o):
            c.set_ransac_properties(**{k: o[k]})
    elif o:
        c.set_ransac_properties(**o)
    if case["known"]:
        c.set_known_pairs([3.0], [float(p.wave(3.0))])
    with observe.fits() as log:
        r = P.fit_or_none(c, s)
    if r is None:
        rec.label("explicit failure")
        return
    coeff, mp, ma, rms, res, pu, au = r
    n = len(mp)
    want = min(o.get("minimum_matches", 0), len(p.peaks), len(p.lines))
    require(n >= want, "%d matches, at least %d were requested", n, want)
    util = o.get("minimum_peak_utilisation", 0)
    require(
        n >= util * len(p.peaks) * (1 - 1e-12),
        "%d of %d peaks matched, a share of %s was requested",
        n,
        len(p.peaks),
        util,
    )
    err = o.get("minimum_fit_error", 1e-4)
    require(rms >= err, "rms %r is below the requested %r", rms, err)
    require(
        float(np.sqrt(np.mean(np.asarray(res) ** 2))) >= err * (1 - 1e-9),
        "residuals %s are below the requested error %r",
        np.asarray(res).tolist(),
        err,
    )
    # the robust fit of the matches
    x, y = np.array(mp, dtype=float), np.array(ma, dtype=float)
    again = np.asarray(models.robust_polyfit(x, y, s["fit_deg"]))
    span = np.polynomial.polynomial.polyval(x, again) - np.polynomial.polynomial.polyval(
        x, np.asarray(coeff, dtype=float)
    )
    require(
        np.abs(span).max() <= 1e-6 * max(1.0, np.abs(y).max()),
        "the coefficients %s are not the robust fit of the matches %s",
        coeff,
        again,
    )
    # the sample solution that selected the matches
    if log.fits:
        tol = s["ransac_tolerance"]
        val = P.BASIS[s["fit_type"]]
        # over the detected peaks (as far as those with candidates reach)
        more = 0.19 * np.ptp(x)
        lo = max(min(p.peaks), x.min() - more)
        hi = min(max(p.peaks), x.max() + more)
        grid = np.linspace(lo, hi, 200)
        near, fits, inside = 0, 0, 0
        for kind, fx, fy, deg, f in log.fits:
            if f.shape != (s["fit_deg"] + 1,):
                continue
            if np.abs(val(x, f) - y).max() <= tol + 1e-9:
                near += 1
                # and it is admissible
                if np.all(np.diff(val(grid, f)) > 0):
                    fits += 1
                    if (
                        s["fit_type"] != "poly"
                        or p.min_w - s["range_tolerance"] - 1e-6
                        <= f[0]
                        <= p.min_w + s["range_tolerance"] + 1e-6
                    ):
                        inside += 1
        require(
            near,
            "no sample solution has all the matches within %s A",
            tol,
        )
        require(fits, "no increasing sample solution selects the matches")
        require(
            inside,
            "no sample solution starting in the declared range selects them",
        )
        rec.label("samples observed")
    binding = (
        want >= max(2, n - 1)
        or util * len(p.peaks) > n - 1
        or err >= 0.3 * rms
    )
    rec.nontrivial(bool(o) and n > s["fit_deg"] + 1)
    rec.label("a constraint is nearly binding", bool(binding))


def binding_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=8, max_curv=10),
            "s": P.settings(max_tries=(1, 4), deg=(1, 2)),
            "which": st.sampled_from(["matches", "share", "error"]),
            "more": st.sampled_from([0.5, 1.0, 1.0, 2.0]),
        }
    )


def check_binding(case, rec):
    """A first fit without constraints, then the same one with a constraint
    its solution does not meet."""
    p, s = P.Problem(case["p"]), dict(case["s"], hough_weight=1.0)
    if len(p.peaks) < 4 or len(p.lines) < 4:
        return
    first = P.fit_or_none(p.calibrator(s), s)
    if first is None:
        return
    n, rms = len(first[1]), float(first[3])
    c = p.calibrator(s)
    most = min(len(p.peaks), len(p.lines))
    if case["which"] == "matches":
        if n + 1 > most:
            return
        want = min(most, n + int(np.ceil(case["more"])))
        c.set_ransac_properties(minimum_matches=want)
    elif case["which"] == "share":
        if n + 1 > len(p.peaks):
            return
        want = min(1.0, (n + case["more"]) / len(p.peaks))
        c.set_ransac_properties(minimum_peak_utilisation=want)
    else:
        want = rms * (1 + 0.5 * case["more"]) + 1e-6
        c.set_ransac_properties(minimum_fit_error=want)
    r = P.fit_or_none(c, s)
    rec.nontrivial()
    if r is None:
        rec.label("explicit failure")
        return
    rec.label("another solution")
    got = {
        "matches": len(r[1]),
        "share": len(r[1]) / len(p.peaks),
        "error": float(r[3]),
    }[case["which"]]
    require(
        got >= want * (1 - 1e-12),
        "%s of the solution is %r, requested: %r (%d matches of %d peaks, "
        "rms %r)",
        case["which"],
        got,
        want,
        len(r[1]),
        len(p.peaks),
        float(r[3]),
    )


def invalid_case():
    bad = st.one_of(
        st.tuples(
            st.just("minimum_matches"),
            st.sampled_from([0, -1, -5, -0.5, "nan"]),
        ),
        st.tuples(
            st.just("minimum_peak_utilisation"),
            st.one_of(fl(-5, -1e-9), fl(1.0000001, 90), st.just("nan")),
        ),
        st.tuples(
            st.just("minimum_fit_error"),
            st.one_of(fl(-1e3, -1e-12), st.just("nan")),
        ),
    )
    good = st.fixed_dictionaries(
        {},
        optional={
            "minimum_matches": st.integers(1, 30),
            "minimum_peak_utilisation": fl(0, 1),
            "minimum_fit_error": fl(0, 10),
            "sample_size": st.integers(2, 9),
            "top_n_candidate": st.integers(1, 9),
            "ransac_tolerance": fl(0.1, 20),
            "hough_weight": fl(0.1, 5),
            "linear": st.booleans(),
            "filter_close": st.booleans(),
            "candidate_weighted": st.booleans(),
        },
    )
    return st.fixed_dictionaries(
        {"steps": st.lists(st.tuples(good, st.one_of(st.none(), bad)), min_size=1, max_size=5)}
    )


DEFAULT = dict(
    sample_size=5,
    top_n_candidate=5,
    linear=True,
    filter_close=False,
    ransac_tolerance=5,
    candidate_weighted=True,
    hough_weight=1.0,
    minimum_matches=0,
    minimum_peak_utilisation=0,
    minimum_fit_error=1e-4,
)


def check_invalid(case, rec):
    c = Calibrator([10.0, 200.0, 900.0])
    model = dict(DEFAULT)
    rejected = 0
    for good, bad in case["steps"]:
        kw = dict(good)
        if bad is None:
            c.set_ransac_properties(**kw)
            model.update(kw)
        else:
            kw[bad[0]] = float("nan") if bad[1] == "nan" else bad[1]
            try:
                c.set_ransac_properties(**kw)
            except Exception:
                rejected += 1
            else:
                require(False, "%s = %r was accepted", bad[0], bad[1])
        for k, v in model.items():
            require(
                getattr(c, k) == v,
                "%s is %r after %s, expected %r",
                k,
                getattr(c, k),
                "the rejected %s" % kw if bad else kw,
                v,
            )
    rec.nontrivial(rejected > 0)


TESTS = [
    Test(
        "fit",
        case,
        check,
        quick=400,
        thorough=16000,
        shards=8,
        rule="a fit with a constraint and more matches than coefficients",
    ),
    Test(
        "binding",
        binding_case,
        check_binding,
        quick=400,
        thorough=8000,
        shards=8,
        rule="the same fit again with a constraint its solution fails",
    ),
    Test(
        "invalid",
        invalid_case,
        check_invalid,
        quick=3000,
        thorough=60000,
        shards=8,
        rule="a rejected call",
    ),
]
