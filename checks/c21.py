"""C21 Manual editing of matches behaves like editing a sorted list."""
import collections

import numpy as np
from hypothesis import strategies as st

from rascal import models
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "positions are counted from zero; negative ones within the length are "
    "left out",
    "residuals of either sign are accepted",
    "the robust fit is that of models.robust_polyfit, see C22; refits of "
    "degree three at most, to 0.1 A (the optimiser's precision)",
]


def op():
    return st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.just("add"),
                "pix": st.one_of(nice(-50, 1100, 1), st.integers(-20, 1050)),
                "off": st.sampled_from([0.0, 0.0, 0.3, -0.5, 2.0, 60.0]),
                "numpy": st.booleans(),
            }
        ),
        # at the pixel of an existing pair
        st.fixed_dictionaries(
            {"op": st.just("again"), "i": st.integers(0, 30), "off": nice(-3, 3, 1)}
        ),
        st.fixed_dictionaries({"op": st.just("remove"), "i": st.integers(0, 30)}),
        st.fixed_dictionaries({"op": st.just("remove"), "i": st.integers(0, 100)}),
        st.fixed_dictionaries(
            {
                "op": st.just("missing"),
                "i": st.sampled_from([0, 1, 5, 1000]),
                "neg": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("refit"),
                "deg": st.integers(1, 3),
                "how": st.sampled_from(["degree", "degree", "x0", "both", "none"]),
                "x0": st.sampled_from([0.0, 1.0, 300.0]),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("explicit"),
                "deg": st.integers(1, 3),
                "pix": st.lists(
                    st.integers(0, 1000), min_size=2, max_size=9, unique=True
                ),
                "array": st.booleans(),
                "desc": st.booleans(),
            }
        ),
        st.fixed_dictionaries({"op": st.just("rematch")}),
        st.fixed_dictionaries({"op": st.just("list")}),
    )


def case():
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.integers(0, 100).map(lambda i: 10 * i + i % 7),
                min_size=6,
                max_size=12,
                unique=True,
            ),
            "order": st.sampled_from(["asc", "desc", "mixed"]),
            "array": st.booleans(),
            "curv": st.integers(-50, 50),
            "noise": st.sampled_from([0.0, 0.01, 0.3]),
            "start": st.sampled_from(["fit", "match", "match"]),
            "ops": st.lists(op(), min_size=1, max_size=9),
        }
    )


def many_case():
    """Several tens of pairs."""
    return st.builds(
        lambda c, n, seed: dict(c, many=[n, seed]),
        case(),
        st.integers(22, 90),
        st.integers(0, 2**31),
    )


def check_many(case, rec):
    n, seed = case["many"]
    r = np.random.RandomState(seed)
    p = [int(10 * i + i % 7) for i in r.permutation(101)[:n]]
    check(dict(case, peaks=p), rec)


def wave(case, x):
    v = np.asarray(x, dtype=float) / 1000.0
    return 4000.0 + 2000.0 * v + 4.0 * case["curv"] * v * (1 - v)


def setup(case):
    peaks = list(case["peaks"])
    if case["order"] != "mixed":
        peaks.sort(reverse=case["order"] == "desc")
    c = Calibrator(np.array(peaks) if case["array"] else peaks)
    c.set_calibrator_properties(
        num_pix=1001, pixel_list=np.arange(1001), log_level="critical", seed=1
    )
    c.set_hough_properties(
        num_slopes=30, xbins=8, ybins=8, min_wavelength=4000.0,
        max_wavelength=6000.0, range_tolerance=60, linearity_tolerance=30,
    )
    lines = [
        float(wave(case, x)) + case["noise"] * (x % 5 - 2) / 2.0 for x in peaks
    ]
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines), lines)
    c.set_atlas(a)
    coeff = np.polynomial.polynomial.polyfit(
        np.arange(1001), wave(case, np.arange(1001)), 2
    )
    c.set_ransac_properties(minimum_fit_error=1e9, top_n_candidate=10)
    try:
        c.fit(
            max_tries=1,
            fit_coeff=coeff,
            candidate_tolerance=20,
            progress=False,
        )
    except Exception:
        pass
    if case["start"] == "match" or not len(c.matched_peaks):
        c.match_peaks(fit_coeff=coeff, tolerance=2.0, robust_refit=False)
    return c, coeff


def pairs(c):
    return list(
        zip(
            np.asarray(c.matched_peaks, dtype=float).tolist(),
            np.asarray(c.matched_atlas, dtype=float).tolist(),
        )
    )


def ascending(model):
    return all(model[i][0] <= model[i + 1][0] for i in range(len(model) - 1))


def check(case, rec):
    c, coeff = setup(case)
    model = pairs(c)
    edits, refits, rejected = 0, 0, 0
    for o in case["ops"]:
        kind = o["op"]
        if kind in ("add", "again"):
            if kind == "add":
                x = float(o["pix"])
                w = round(float(wave(case, x)) + o["off"], 4)
                arg = (np.float64(x), np.float64(w)) if o["numpy"] else (x, w)
            elif model:
                x = model[o["i"] % len(model)][0]
                w = round(float(wave(case, x)) + o["off"], 4)
                arg = (x, w)
            else:
                continue
            c.add_pix_wave_pair(*arg)
            now = pairs(c)
            require(
                collections.Counter(now)
                == collections.Counter(model + [(x, w)]),
                "adding %s to %s gives %s",
                (x, w),
                model,
                now,
            )
            # the others keep their order
            rest = list(now)
            k = [i for i, v in enumerate(now) if v == (x, w)]
            require(
                any(rest[:i] + rest[i + 1 :] == model for i in k),
                "adding %s to %s reorders them: %s",
                (x, w),
                model,
                now,
            )
            require(
                not ascending(model) or ascending(now),
                "not in ascending order after adding %s: %s",
                (x, w),
                now,
            )
            model = now
            edits += 1
        elif kind == "remove":
            if not model:
                continue
            i = o["i"] % len(model)
            c.remove_pix_wave_pair(i)
            model = model[:i] + model[i + 1 :]
            edits += 1
        elif kind == "missing":
            i = -len(model) - 1 - o["i"] if o["neg"] else len(model) + o["i"]
            try:
                c.remove_pix_wave_pair(i)
            except Exception:
                rejected += 1
            else:
                require(
                    False, "position %d of %d was removed", i, len(model)
                )
        elif kind == "rematch":
            c.match_peaks(
                fit_coeff=coeff, tolerance=2.0, robust_refit=False
            )
            model = pairs(c)
        elif kind in ("refit", "explicit"):
            kw, deg = {}, o["deg"]
            if kind == "explicit":
                x = sorted(o["pix"], reverse=o["desc"])
                w = [round(float(wave(case, v)) + 0.1 * (v % 3), 3) for v in x]
                new = [(float(a), float(b)) for a, b in zip(x, w)]
                if o["array"]:
                    x, w = np.array(x), np.array(w)
                if len(new) <= deg:
                    continue
                kw = {"matched_peaks": x, "matched_atlas": w, "degree": deg}
                model = new
            elif o["how"] == "none":
                if c.fit_coeff is None:
                    continue
                deg = len(c.fit_coeff) - 1
            else:
                if o["how"] != "x0":
                    kw["degree"] = deg
                if o["how"] != "degree":
                    kw["x0"] = [4000.0 + o["x0"], 2.0, 0.0, 0.0][: deg + 1]
            x = np.array([a for a, _ in model])
            y = np.array([b for _, b in model])
            if len(set(x.tolist())) <= deg:
                continue
            exact = len(set(x.tolist())) == deg + 1
            out = c.manual_refit(**kw)
            refits += 1
            require(len(out) == 5, "%d values returned", len(out))
            got = np.asarray(out[0], dtype=float)
            require(
                got.shape == (deg + 1,), "%d coefficients for degree %d", len(got), deg
            )
            back = list(
                zip(
                    np.asarray(out[1], dtype=float).tolist(),
                    np.asarray(out[2], dtype=float).tolist(),
                )
            )
            require(back == model, "refitted %s, expected %s", back, model)
            val = np.polynomial.polynomial.polyval
            ref = np.asarray(models.robust_polyfit(x, y, deg), dtype=float)
            # closely spaced points leave an exact fit undetermined
            if np.ptp(x) >= 300 and not (
                exact and np.diff(np.sort(x)).min() < 30
            ):
                require(
                    np.abs(val(x, got) - val(x, ref)).max() <= 0.1,
                    "the refit %s gives %s, the robust fit %s of %s",
                    kw,
                    val(x, got).tolist(),
                    val(x, ref).tolist(),
                    model,
                )
            res = np.asarray(out[4], dtype=float)
            want = y - val(x, got)
            sc = 1e-8 * (1 + np.abs(y))
            require(
                res.shape == want.shape
                and (
                    np.all(np.abs(res - want) <= sc)
                    or np.all(np.abs(res + want) <= sc)
                ),
                "residuals %s, expected %s",
                res,
                want,
            )
            r = float(np.sqrt(np.mean(want**2)))
            require(
                abs(out[3] - r) <= 1e-8 * (1 + r), "error %r, expected %r", out[3], r
            )
            require(
                np.array_equal(np.asarray(c.fit_coeff, dtype=float), got)
                and c.rms == out[3]
                and np.array_equal(np.asarray(c.residuals, dtype=float), res),
                "the results of the refit are not stored",
            )
        now = pairs(c)
        require(now == model, "after %s the pairs are %s, expected %s", o, now, model)
        require(
            len(c.matched_peaks) == len(c.matched_atlas) == len(model),
            "ragged matches",
        )
        listed = [(int(i), float(a), float(b)) for i, a, b in c.get_pix_wave_pairs()]
        require(
            listed == [(i, a, b) for i, (a, b) in enumerate(model)],
            "listed: %s, expected %s",
            listed,
            model,
        )
    rec.nontrivial(edits >= 2)
    rec.label("edits", edits)
    rec.label("refits", refits)
    rec.label("rejected removals", rejected)


TESTS = [
    Test(
        "edit",
        case,
        check,
        quick=2500,
        thorough=60000,
        shards=8,
        rule="at least two additions or removals",
    ),
    Test(
        "many",
        many_case,
        check_many,
        quick=240,
        thorough=6000,
        shards=8,
        rule="at least two additions or removals",
    ),
]
