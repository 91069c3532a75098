"""C19 Coefficients are expressed in the basis the user chose."""
import numpy as np
from hypothesis import strategies as st

from checks import c15
from vlib import problem as P
from vlib.core import Test, require

KF = "KF-C19-power-coefficients"

ASSUMPTIONS = [
    "the recorded finding is recognised by power series coefficients, of "
    "degree two or more, that reproduce the matches, better than in the "
    "chosen basis",
    "curved problems: those of C15 with a curvature of 60 A, all of which are "
    "solved on the reference tree; a fifth (and five) unsolved is a failure",
    "a solution describes its matches if it is within twice the inlier "
    "tolerance of all of them",
]


def case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=8, max_curv=15),
            "s": P.settings(max_tries=(2, 6), deg=(1, 4)),
            "then": st.sampled_from(["fit", "fit", "refit", "match", "guess"]),
            "deg2": st.integers(1, 4),
        }
    )


def basis(coeff, kind, x, y, tol, rec):
    """The basis in which the coefficients describe the matches."""
    coeff = np.asarray(coeff, dtype=float)
    off = np.abs(P.BASIS[kind](x, coeff) - y).max()
    if kind != "poly" and len(coeff) > 2:
        power = np.abs(P.BASIS["poly"](x, coeff) - y).max()
        if power <= tol and power < off:
            rec.known_finding(KF)
            return None
    require(
        off <= tol,
        "the coefficients %s are off the matches by %s, in the %s basis",
        coeff,
        (P.BASIS[kind](x, coeff) - y).tolist(),
        kind,
    )
    return kind


def solve(p, s, kind, rec):
    s = dict(s, fit_type=kind)
    c = p.calibrator(s)
    r = P.fit_or_none(c, s)
    if r is None:
        return None
    x, y = np.array(r[1], dtype=float), np.array(r[2], dtype=float)
    tol = s["ransac_tolerance"]
    b = basis(r[0], kind, x, y, 2 * tol, rec)
    if b is not None:
        # with the reported error
        d = P.BASIS[b](x, np.asarray(r[0], dtype=float)) - y
        e = float(np.sqrt(np.mean(np.minimum(np.abs(d), tol) ** 2)))
        require(
            abs(e - r[3]) <= 1e-6 * max(1.0, e),
            "the error of the coefficients is %r, reported: %r",
            e,
            r[3],
        )
    return c, r, x, y, b or "poly"


def check(case, rec):
    p, s = P.Problem(case["p"]), case["s"]
    if len(p.peaks) < 4 or len(p.lines) < 4:
        return
    tol = s["ransac_tolerance"]
    done = []
    for kind in ("poly", "legendre", "chebyshev"):
        got = solve(p, s, kind, rec)
        if got is None:
            continue
        c, r, x, y, b = got
        deg = len(r[0]) - 1
        coeff = np.array(r[0], dtype=float)
        wave = P.BASIS[b](x, coeff)
        # with hardly any curvature, either basis describes the matches
        unclear = (
            kind != "poly"
            and deg > 1
            and np.abs(P.BASIS["poly"](x, coeff) - wave).max() <= 20 * tol
        )
        if b == "poly" or not unclear:
            done.append((kind, x, y, wave))
        if case["then"] == "refit" and case["deg2"] >= deg:
            out = c.manual_refit(degree=min(case["deg2"], len(x) - 1))
            basis(out[0], kind, x, y, 20 * tol, rec)
        elif case["then"] == "match" and b == kind:
            out = c.match_peaks(fit_coeff=coeff.copy(), tolerance=tol)
            if len(out[1]) > deg + 1:
                basis(
                    out[0],
                    kind,
                    np.asarray(out[1], dtype=float),
                    np.asarray(out[2], dtype=float),
                    2 * tol,
                    rec,
                )
        elif case["then"] == "guess":
            # an initial solution is in the basis of the fit
            g = np.linspace(0, p.npix - 1, 40)
            init = P.BASISFIT[kind](g, p.wave(g), deg)
            r2 = P.fit_or_none(c, dict(s, fit_type=kind), fit_coeff=init)
            if r2 is not None:
                basis(
                    r2[0],
                    kind,
                    np.array(r2[1], dtype=float),
                    np.array(r2[2], dtype=float),
                    2 * tol,
                    rec,
                )
    for i in range(len(done)):
        for j in range(i):
            a, b = done[i], done[j]
            oa, ob = np.argsort(a[1]), np.argsort(b[1])
            if np.array_equal(a[1][oa], b[1][ob]) and np.array_equal(
                a[2][oa], b[2][ob]
            ):
                rec.label("same matches in two bases")
                require(
                    np.abs(a[3][oa] - b[3][ob]).max() <= 1e-3,
                    "%s and %s give %s and %s for the same matches",
                    a[0],
                    b[0],
                    a[3][oa].tolist(),
                    b[3][ob].tolist(),
                )
    rec.nontrivial(any(len(d[1]) > s["fit_deg"] + 1 for d in done))


# an easy, curved problem is solved in every basis -----------------------------
def curved_case():
    return st.builds(
        lambda c, d, t: dict(c, extra="curved", curv=60, deg=d, fit_type=t),
        c15.crowded_case(),
        st.integers(2, 4),
        st.sampled_from(["poly", "legendre", "chebyshev"]),
    )


def check_curved(case, rec):
    bad = c15.attempt(c15.Data(case), case, case["seed"])
    rec.outcome(bad is None)
    rec.nontrivial(bad is None)


def verdict(outs):
    for v in ("poly", "legendre", "chebyshev"):
        mine = [ok for c, ok in outs if c["fit_type"] == v]
        bad = mine.count(False)
        if bad > max(4, 0.2 * len(mine)):
            return "%d of %d easy problems are not solved in the %s basis" % (
                bad,
                len(mine),
                v,
            )
    return None


def bad_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=8),
            "s": P.settings(max_tries=(1, 2), deg=(1, 2)),
            "name": st.one_of(
                st.text(max_size=8),
                st.sampled_from(
                    ["", "polynomial", "hermite", "laguerre", "poly ", None, 1]
                ),
                # a known name extended, or cut
                st.builds(
                    lambda n, a, b: b + n + a,
                    st.sampled_from(["poly", "legendre", "chebyshev"]),
                    st.sampled_from(["2", "s", "_1st", "x", " ", "nomial"]),
                    st.sampled_from(["", "", "x", "my_", "hermite+"]),
                ),
                st.builds(
                    lambda n, k: n[:k],
                    st.sampled_from(["poly", "legendre", "chebyshev"]),
                    st.integers(1, 8),
                ),
            ),
        }
    )


def check_bad(case, rec):
    name = case["name"]
    if name in ("poly", "legendre", "chebyshev"):
        return
    p, s = P.Problem(case["p"]), case["s"]
    if not (p.peaks and p.lines):
        return
    c = p.calibrator(s)
    try:
        r = P.fit(c, s, fit_type=name)
    except P.NoFit:
        require(False, "the basis %r is used for a fit", name)
    except Exception:
        rec.nontrivial()
        return
    require(False, "the basis %r is accepted, result %s", name, r)


def probe():
    case = {
        "rows": [[60 + 97 * i * (i % 3 + 3) // 4, "b", 0] for i in range(16)],
        "npix": 1000, "w0": 4000.0, "span": 3000.0, "curv": 15, "skew": 0,
        "sigma": 0.05, "order": "asc", "kind": "list",
    }
    p = P.Problem(case)
    s = {
        "num_slopes": 300, "xbins": 30, "ybins": 30,
        "range_tolerance": 120.0, "linearity_tolerance": 60.0,
        "sample_size": 4, "top_n": 5, "filter_close": False,
        "ransac_tolerance": 5.0, "candidate_weighted": True,
        "hough_weight": 1.0, "candidate_tolerance": 10.0,
        "constrain_poly": False, "max_tries": 60, "fit_deg": 2,
        "fit_type": "legendre", "seed": 1,
    }
    r = P.fit_or_none(p.calibrator(s), s)
    if r is None:
        return False
    x, y = np.array(r[1], dtype=float), np.array(r[2], dtype=float)
    c = np.asarray(r[0], dtype=float)
    return bool(
        np.abs(P.BASIS["legendre"](x, c) - y).max() > 10
        and np.abs(P.BASIS["poly"](x, c) - y).max() <= 10
    )


KNOWN = {KF: probe}

TESTS = [
    Test(
        "bases",
        case,
        check,
        quick=450,
        thorough=10000,
        shards=16,
        rule="a fit with more matches than coefficients",
    ),
    Test(
        "curved",
        curved_case,
        check_curved,
        quick=90,
        thorough=2400,
        shards=16,
        verdict=verdict,
        rule="a problem solved",
    ),
    Test(
        "unknown",
        bad_case,
        check_bad,
        quick=400,
        thorough=8000,
        shards=8,
        rule="a rejected basis",
    ),
]
