"""C16 A fit does a bounded amount of work and always ends."""
import math

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import observe
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import nice

# samples per requested try; the code allows 1000
FACTOR = 1500

ASSUMPTIONS = [
    "a sample is counted when it is fitted with numpy's polyfit, legfit or "
    "chebfit, or drawn with numpy.random.choice",
    "at most %d samples per requested try count as bounded" % FACTOR,
    "a fit of a few tries that takes two minutes does not end",
]


def grid(n, step):
    return st.fixed_dictionaries(
        {
            "kind": st.just("grid"),
            "n": n,
            "start": st.integers(1, 100),
            "step": st.sampled_from(step),
        }
    )


def listed(lo, hi):
    return st.fixed_dictionaries(
        {
            "kind": st.just("any"),
            "v": st.lists(
                st.one_of(st.integers(1, 999), nice(1, 999, 2)),
                min_size=lo,
                max_size=hi,
                unique=True,
            ),
        }
    )


def twins(lo, hi):
    return st.fixed_dictionaries(
        {
            "kind": st.just("twins"),
            "v": st.lists(
                st.tuples(st.integers(1, 99), st.integers(1, 2)),
                min_size=lo,
                max_size=hi,
            ),
        }
    )


def peaks_st():
    many = st.integers(7, 16)
    return st.one_of(
        grid(many, [25.0, 50, 60.5]),
        grid(many, [50, 60.5]),
        grid(st.integers(1, 16), [1, 2, 10, 25.0, 50]),
        listed(7, 14),
        listed(8, 14),
        listed(1, 6),
        twins(5, 7),
        twins(1, 5),
    )


def lines_st():
    exact = st.fixed_dictionaries(
        {
            "kind": st.just("exact"),
            "curv": st.sampled_from([0.0, 0.0, 1e-5, 1e-4]),
            "keep": st.lists(
                st.sampled_from([True, True, True, True, False]),
                min_size=16,
                max_size=16,
            ),
        }
    )
    return st.one_of(
        exact,
        exact,
        exact,
        st.fixed_dictionaries(
            {
                "kind": st.just("any"),
                "v": st.lists(
                    st.one_of(st.integers(3900, 6100), nice(3900, 6100, 2)),
                    max_size=20,
                ),
            }
        ),
        st.fixed_dictionaries(
            {
                "kind": st.just("grid"),
                "n": st.integers(0, 30),
                "step": st.sampled_from([1, 20, 40, 100.5]),
            }
        ),
    )


def case():
    return st.fixed_dictionaries(
        {
            "peaks": peaks_st(),
            "lines": lines_st(),
            "s": P.settings(max_tries=(1, 4), deg=(1, 5)),
            "sample": st.one_of(st.integers(2, 5), st.integers(1, 12)),
            "o": st.fixed_dictionaries(
                {},
                optional={
                    "minimum_matches": st.one_of(
                        st.integers(1, 8), st.just(1000)
                    ),
                    "minimum_peak_utilisation": st.sampled_from([0.5, 1.0]),
                    "minimum_fit_error": st.sampled_from(
                        [0.0, 0.0, 1e-12, 1e-4, 1.0, 1e9]
                    ),
                    "hough_weight": st.sampled_from([0.0, 1.0, 1e6]),
                },
            ),
            "array": st.booleans(),
            "known": st.sampled_from([None, None, "true", "odd", "repeated"]),
            "guess": st.sampled_from(
                [None, None, None, "true", "far", "nonlinear"]
            ),
            "order": st.booleans(),
            # a search space that is odd in some respect
            "odd": st.one_of(
                st.just({}),
                st.just({}),
                st.just({}),
                st.fixed_dictionaries(
                    {},
                    optional={
                        "range": st.sampled_from(
                            [[1.0, 3.0], [4000.0, 4001.0], [6000.0, 12000.0]]
                        ),
                        "bins": st.sampled_from(
                            [[5, 5], [4, 6], [3, 3], [2, 5], [1, 1], [1, 4], [6, 1]]
                        ),
                        "slopes": st.sampled_from([2, 1]),
                    },
                ),
            ),
            "twice": st.booleans(),
        }
    )


def truth(x, curv=0.0):
    x = np.asarray(x, dtype=float)
    return 4000.0 + 2.0 * x - curv * (x - 500.0) ** 2 + curv * 250000.0


def build(case):
    k = case["peaks"]
    if k["kind"] == "grid":
        peaks = [k["start"] + i * k["step"] for i in range(k["n"])]
    elif k["kind"] == "any":
        peaks = list(k["v"])
    else:
        # pairs of nearly coincident peaks
        peaks = []
        for v, n in k["v"]:
            peaks += [10.0 * v + 1e-3 * i for i in range(n)]
        peaks = sorted(set(peaks))
    k = case["lines"]
    if k["kind"] == "exact":
        lines = [
            float(truth(p, k["curv"]))
            for i, p in enumerate(peaks)
            if k["keep"][i % 16]
        ]
    elif k["kind"] == "any":
        lines = [float(v) for v in k["v"]]
    else:
        lines = [4000.0 + i * k["step"] for i in range(k["n"])]
    if case["order"]:
        peaks, lines = peaks[::-1], lines[::-1]
    return peaks, lines


def setup(case, brute=False):
    peaks, lines = build(case)
    if brute:
        peaks = peaks[:8]
    s = case["s"]
    p = P.Problem.__new__(P.Problem)
    odd = case["odd"]
    p.npix, (p.min_w, p.max_w) = 1000, odd.get("range", [4000.0, 6000.0])
    p.peaks, p.lines = peaks, lines
    c = Calibrator(np.array(peaks) if case["array"] else list(peaks))
    s = dict(s, sample_size=case["sample"])
    s["num_slopes"] = odd.get("slopes", s["num_slopes"])
    s["xbins"], s["ybins"] = odd.get("bins", [s["xbins"], s["ybins"]])
    P.configure(c, p, s)
    if case["o"]:
        c.set_ransac_properties(**case["o"])
    a = Atlas()
    if lines:
        a.add_user_atlas(["X"] * len(lines), lines)
    c.set_atlas(a, constrain_poly=s["constrain_poly"])
    if case["known"] == "true":
        c.set_known_pairs([2.0], [float(truth(2.0))])
    elif case["known"] == "odd":
        c.set_known_pairs([-50.0, 2000.0], [9000.0, 100.0])
    elif case["known"] == "repeated":
        c.set_known_pairs([5.0, 5.0], [4010.0, 4010.0])
    kw = {}
    if case["guess"]:
        x = np.linspace(0, 999, 50)
        off = 300.0 if case["guess"] == "far" else 0.0
        kw["fit_coeff"] = P.BASISFIT[s["fit_type"]](
            x, truth(x) + off, s["fit_deg"]
        )
        if case["guess"] == "nonlinear":
            c.set_ransac_properties(linear=False)
    return c, s, kw


def check(case, rec):
    c, s, kw = setup(case)
    ok = 0
    for i in range(1 + case["twice"]):
        limit = FACTOR * s["max_tries"] + 1000
        with observe.fits(limit=limit, keep=False) as log:
            try:
                r = P.fit_or_none(c, s, **kw)
            except observe.Stop:
                require(
                    False,
                    "%d samples were fitted and %d drawn for %d tries",
                    log.n_fits,
                    log.n_choice,
                    s["max_tries"],
                )
        ok += r is not None
        rec.label("solution" if r is not None else "explicit failure")
        if log.n_fits > s["max_tries"]:
            rec.label("samples were drawn again")
    rec.nontrivial(
        log.n_fits > 0
        and (
            ok == 0
            or case["lines"]["kind"] == "exact"
            or case["peaks"]["kind"] == "grid"
        )
    )


def check_brute(case, rec):
    case = dict(case, s=dict(case["s"]))
    case["s"]["fit_deg"] = min(case["s"]["fit_deg"], 3)
    case["sample"] = min(case["sample"], 4)
    case["s"]["top_n"] = min(case["s"]["top_n"], 2)
    c, s, kw = setup(case, brute=True)
    # 16 pairs at most
    limit = math.comb(16, 4) * 2
    with observe.fits(limit=limit) as log:
        try:
            r = P.fit_or_none(c, s, brute_force=True, **kw)
        except observe.Stop:
            require(
                False,
                "an exhaustive fit of 16 pairs fitted %d samples",
                log.n_fits,
            )
    known = 0 if c.pix_known is None else len(c.pix_known)
    seen = set()
    for kind, x, y, deg, f in log.fits:
        n = len(x) - known
        key = tuple(sorted(zip(x[:n].tolist(), y[:n].tolist())))
        require(
            key not in seen, "the combination %s is examined twice", key
        )
        seen.add(key)
    rec.nontrivial(len(seen) > 3)
    rec.label("solution" if r is not None else "explicit failure")


TESTS = [
    Test(
        "fit",
        case,
        check,
        quick=900,
        thorough=20000,
        shards=8,
        hang=True,
        rule="samples were fitted, and the data are exact, on a grid or "
        "the fit fails",
    ),
    Test(
        "brute",
        case,
        check_brute,
        quick=500,
        thorough=10000,
        shards=8,
        hang=True,
        rule="more than three combinations examined",
    ),
]
