"""C17 A supplied initial solution is never made worse."""
import collections

import numpy as np
from hypothesis import strategies as st

from vlib import observe
from vlib import problem as P
from vlib.core import Test, require

ASSUMPTIONS = [
    "the measure of a solution is the sum, over the peaks with candidates, "
    "of the distance to the nearest candidate, limited to the inlier "
    "tolerance, a peak whose line is nearer to another one counting as the "
    "limit; it is compared with the Hough weight switched off (0)",
    "an initial solution is kept if it matches more peaks than its degree",
    "the sample solutions are those computed with numpy's polyfit, legfit "
    "and chebfit during the fit; if none is seen, they are not compared",
]


def case(kinds, sigma):
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=7, kinds=kinds),
            "sigma": sigma,
            "s": P.settings(max_tries=(1, 4), deg=(1, 4)),
            # what is asked for is overridden by the initial solution
            "asked": st.integers(1, 5),
            "list": st.booleans(),
            "linear": st.booleans(),
            "brute": st.booleans(),
            "fail": st.sampled_from([None, None, "error", "matches"]),
            "earlier": st.booleans(),
            "offset": st.sampled_from([0.0, 0.0, 0.5, 1.5, -3.0, 8.0, 30.0]),
            "tilt": st.sampled_from([0.0, 0.0, 1.0, -4.0, 20.0]),
        }
    )


def candidates(c):
    got = collections.defaultdict(set)
    for p, w in zip(c.candidate_peak, c.candidate_arc):
        got[float(p)].add(float(w))
    return {p: np.array(sorted(w)) for p, w in got.items()}


def score(cand, val, coeff, tol):
    best = {}
    for p, w in cand.items():
        d = np.abs(val(p, coeff) - w)
        i = int(np.argmin(d))
        best.setdefault(w[i], []).append(d[i])
    kept = [min(v) for v in best.values()]
    return sum(min(x, tol) for x in kept) + tol * (len(cand) - len(kept))


def sure_matches(cand, val, coeff, tol):
    """Pairs that any one-to-one matching to the solution contains."""
    near = {
        p: [x for x in w if abs(val(p, coeff) - x) < tol - 1e-9]
        for p, w in cand.items()
    }
    users = collections.Counter(x for w in near.values() for x in w)
    return {
        (p, w[0]) for p, w in near.items() if len(w) == 1 and users[w[0]] == 1
    }


def prepare(case):
    q = dict(case["p"], sigma=case["sigma"])
    p, s = P.Problem(q), dict(case["s"], hough_weight=0.0)
    if len(p.peaks) < 4 or len(p.lines) < 4:
        return None
    deg = s["fit_deg"]
    if case["brute"]:
        s.update(top_n=1, sample_size=2)
    c = p.calibrator(s)
    x = np.linspace(0, p.npix - 1, 60)
    target = p.wave(x) + case["offset"] + case["tilt"] * (x / p.npix - 0.5)
    init = P.BASISFIT[s["fit_type"]](x, target, deg)
    return p, s, c, init


def run(c, s, case, init, p):
    brute = case["brute"] and len(p.peaks) <= 9 and len(init) <= 3
    arg = init.tolist() if case["list"] else init.copy()
    with observe.fits() as log:
        r = P.fit_or_none(
            c, s, fit_coeff=arg, fit_deg=case["asked"], brute_force=brute
        )
    return r, log


def check(case, rec):
    made = prepare(case)
    if made is None:
        return
    p, s, c, init = made
    tol, val = s["ransac_tolerance"], P.BASIS[s["fit_type"]]
    deg = len(init) - 1
    if case["earlier"]:
        # the matches of an earlier fit must not be mixed in
        P.fit_or_none(c, s)
    if not case["linear"]:
        c.set_ransac_properties(linear=False)
    if case["fail"] == "error":
        c.set_ransac_properties(minimum_fit_error=1e9)
    elif case["fail"] == "matches":
        c.set_ransac_properties(minimum_matches=min(len(p.peaks), len(p.lines)))
    r, log = run(c, s, case, init, p)
    cand = candidates(c)
    sure = sure_matches(cand, val, init, tol)
    if r is None:
        require(
            len(sure) <= deg or s["filter_close"],
            "the fit fails although the initial solution %s matches %s",
            init,
            sorted(sure),
        )
        rec.label("explicit failure")
        return
    coeff = np.asarray(r[0], dtype=float)
    require(
        coeff.shape == init.shape,
        "%d coefficients, the initial solution has %d",
        len(coeff),
        len(init),
    )
    pairs = {(float(a), float(b)) for a, b in zip(r[1], r[2])}
    if np.array_equal(coeff, init):
        rec.label("initial solution returned")
        for a, b in pairs:
            require(
                abs(val(a, init) - b) <= tol,
                "the initial solution does not match %s and %s",
                a,
                b,
            )
        require(
            s["filter_close"] or sure <= pairs,
            "the matches %s of the initial solution are missing",
            sorted(sure - pairs),
        )
        rec.nontrivial(len(sure) > deg)
        return
    require(case["fail"] != "error", "a solution with a too small error")
    if len(sure) <= deg:
        rec.label("initial solution not acceptable")
        return
    rec.label("another solution returned")
    if s["filter_close"]:
        return
    rec.nontrivial()
    # some sample solution that selects these matches is not worse
    mine = score(cand, val, init, tol)
    scores = []
    x = np.array([a for a, _ in sorted(pairs)])
    y = np.array([b for _, b in sorted(pairs)])
    for kind, fx, fy, d, f in log.fits:
        if f.shape == init.shape and np.all(np.abs(val(x, f) - y) <= tol + 1e-9):
            scores.append(score(cand, val, f, tol))
    if scores:
        rec.label("samples observed")
        require(
            min(scores) <= mine * (1 + 1e-9) + 1e-9,
            "the solution returned scores %r, the initial one %r "
            "(%d and %d matches)",
            min(scores),
            mine,
            len(pairs),
            len(sure),
        )


def check_exact(case, rec):
    """All peaks are images of lines under the initial solution."""
    q, s = dict(case["p"]), dict(case["s"], filter_close=False)
    if s["fit_deg"] < 3:
        q["skew"] = 0
    if s["fit_deg"] < 2:
        q["curv"] = 0
    s["top_n"] = max(s["top_n"], 3)
    made = prepare(dict(case, p=q, s=s, offset=0.0, tilt=0.0))
    if made is None:
        return
    p, s, c, init = made
    val, tol = P.BASIS[s["fit_type"]], s["ransac_tolerance"]
    if np.abs(val(np.array(p.peaks), init) - p.wave(p.peaks)).max() > 0.02:
        # the degree cannot represent the dispersion
        return
    c.set_ransac_properties(
        hough_weight=case["s"]["hough_weight"], linear=case["linear"]
    )
    r, log = run(c, s, case, init, p)
    cand = candidates(c)
    true = {
        (a, p.truth[a])
        for a, w in cand.items()
        if a in p.truth and p.truth[a] in w
    }
    if len(true) <= len(init) - 1 or len(true) < len(cand):
        return
    require(r is not None, "the fit fails with an exact initial solution")
    require(
        len(r[1]) >= len(true),
        "%d matches, the exact initial solution has %d",
        len(r[1]),
        len(true),
    )
    dev = np.abs(
        P.BASIS["poly"](np.array(p.peaks), np.asarray(r[0], dtype=float))
        - p.wave(p.peaks)
    ).max()
    require(
        dev <= tol or s["fit_type"] != "poly",
        "the solution returned is off by %r A",
        dev,
    )
    rec.nontrivial()
    rec.label(
        "initial solution returned"
        if np.array_equal(np.asarray(r[0], dtype=float), init)
        else "another solution returned"
    )


SIG = st.sampled_from([0.0, 0.05, 0.2, 1.0])
TESTS = [
    Test(
        "guess",
        lambda: case(None, SIG),
        check,
        quick=800,
        thorough=20000,
        shards=16,
        rule="an initial solution with more matches than its degree is "
        "returned or replaced",
    ),
    Test(
        "exact",
        lambda: case(["b", "b", "b", "l"], st.just(0.0)),
        check_exact,
        quick=700,
        thorough=12000,
        shards=16,
        rule="an initial solution that matches all peaks exactly",
    ),
]
