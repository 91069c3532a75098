"""C12 A returned fit is internally consistent."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "an explicit failure is the documented \"Couldn't fit\" AssertionError",
]


def options():
    return st.fixed_dictionaries(
        {},
        optional={
            "minimum_matches": st.integers(1, 9),
            "minimum_peak_utilisation": nice(0, 1, 2),
            "minimum_fit_error": st.sampled_from([0.0, 1e-12, 1e-4, 0.1, 1.0]),
        },
    )


def case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=6),
            "s": P.settings(max_tries=(2, 7), deg=(1, 4)),
            "o": options(),
            "mode": st.sampled_from(
                ["plain", "plain", "guess", "far guess", "brute", "known", "nonlinear", "twice"]
            ),
            "dup": st.lists(st.integers(0, 30), max_size=2),
            "spectrum": st.booleans(),
        }
    )


def verify(c, r, p, s, deg, lines):
    """r is what fit() returned."""
    require(len(r) == 7, "%d values returned", len(r))
    coeff, mp, ma, rms, res, pu, au = r
    coeff = np.asarray(coeff, dtype=float)
    require(
        coeff.shape == (deg + 1,), "coefficients %s for degree %d", coeff, deg
    )
    require(np.all(np.isfinite(coeff)), "coefficients %s", coeff)
    mp, ma = [float(x) for x in mp], [float(x) for x in ma]
    res = np.asarray(res, dtype=float)
    require(len(mp) == len(ma) == len(res), "ragged matches")
    require(len(mp) > 0, "no matches")
    require(set(mp) <= set(p.peaks), "matched %s, not a peak", set(mp) - set(p.peaks))
    require(set(ma) <= set(lines), "matched %s, not a line", set(ma) - set(lines))
    require(len(set(mp)) == len(mp), "a peak is used twice: %s", sorted(mp))
    require(len(set(ma)) == len(ma), "a line is used twice: %s", sorted(ma))
    tol = s["ransac_tolerance"]
    true = P.BASIS[s["fit_type"]](np.array(mp), coeff) - np.array(ma)
    clip = np.abs(true) >= tol
    scale = 1e-7 * (1 + np.abs(np.array(ma)))
    ok = np.where(
        clip, np.abs(np.abs(res) - tol) <= scale, np.abs(res - true) <= scale
    )
    require(
        ok.all(),
        "residuals %s, of the coefficients at the matches: %s (tolerance %s)",
        res.tolist(),
        true.tolist(),
        tol,
    )
    want = float(np.sqrt(np.mean(np.minimum(np.abs(true), tol) ** 2)))
    require(
        abs(rms - want) <= 1e-6 * max(1, want), "rms %r, expected %r", rms, want
    )
    n = len(mp)
    require(pu == n / len(p.peaks), "peak utilisation %r, %d of %d", pu, n, len(p.peaks))
    require(au == n / len(lines), "atlas utilisation %r, %d of %d", au, n, len(lines))
    require(0 <= pu <= 1 and 0 <= au <= 1, "utilisation %r %r", pu, au)
    stored(c, r)


def stored(c, r):
    for name, v in zip(
        (
            "fit_coeff",
            "matched_peaks",
            "matched_atlas",
            "rms",
            "residual",
            "peak_utilisation",
            "atlas_utilisation",
        ),
        r,
    ):
        require(
            np.array_equal(
                np.asarray(getattr(c, name), dtype=float), np.asarray(v, dtype=float)
            ),
            "%s of the calibrator is %s, returned: %s",
            name,
            getattr(c, name),
            v,
        )
    pairs = c.get_pix_wave_pairs()
    require(
        [(float(a), float(b)) for _, a, b in pairs]
        == [(float(a), float(b)) for a, b in zip(r[1], r[2])],
        "get_pix_wave_pairs gives %s",
        pairs,
    )


def check(case, rec):
    p, s, o = P.Problem(case["p"]), dict(case["s"]), case["o"]
    if len(p.peaks) < 3 or len(p.lines) < 3:
        return
    lines = list(p.lines)
    extra = [lines[i % len(lines)] for i in case["dup"]]
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines + extra), lines + extra)
    lines = lines + extra
    mode = case["mode"]
    c = p.calibrator(s, spectrum=p.spectrum() if case["spectrum"] else None, atlas=a)
    kw = {}
    deg = s["fit_deg"]
    x = np.linspace(0, p.npix - 1, 40)
    if mode in ("guess", "far guess", "nonlinear"):
        off = 0.3 if mode == "guess" else 7.0
        kw["fit_coeff"] = P.BASISFIT[s["fit_type"]](x, p.wave(x) + off, deg)
        if mode == "nonlinear":
            c.set_ransac_properties(linear=False)
    elif mode == "known":
        c.set_known_pairs([5.0], [float(p.wave(5.0))])
    elif mode == "brute":
        # few enough combinations
        s["top_n"] = 1
        c.set_ransac_properties(top_n_candidate=1, sample_size=deg + 1)
        if len(p.peaks) > 10 or deg > 2:
            mode = "plain"
        else:
            kw["brute_force"] = True
    if o:
        c.set_ransac_properties(**o)
    r = P.fit_or_none(c, s, **kw)
    if r is None:
        rec.label("explicit failure")
        return
    rec.label(mode)
    verify(c, r, p, s, deg, lines)
    if mode == "twice":
        first = (r, [np.array(v, dtype=float) for v in r])
        s2 = dict(s, max_tries=5)
        r2 = P.fit_or_none(c, s2)
        if r2 is not None:
            verify(c, r2, p, s2, deg, lines)
            for now, then in zip(*first):
                require(
                    np.array_equal(np.asarray(now, dtype=float), then),
                    "a later fit changed the results returned before",
                )
    rec.nontrivial(len(r[1]) >= deg + 2)
    rec.label("some residual is limited", bool((np.abs(np.asarray(r[4])) >= s["ransac_tolerance"]).any()))


def many_case():
    """More peaks, and higher degrees, than an ordinary arc has."""
    return st.builds(
        lambda c, n, seed, deg: dict(
            c, s=dict(c["s"], fit_deg=deg, max_tries=2), many=[n, seed], mode="plain"
            if c["mode"] == "brute" else c["mode"]
        ),
        case(),
        st.integers(30, 90),
        st.integers(0, 2**31),
        st.integers(1, 7),
    )


def check_many(case, rec):
    n, seed = case["many"]
    r = np.random.RandomState(seed)
    at = np.sort(r.permutation(118)[:n]) * 16 + 25 + r.randint(0, 8, n)
    kinds = r.choice(list("bbbbbbbblp"), n)
    rows = [[int(x), str(k), int(v)] for x, k, v in zip(at, kinds, r.randint(-100, 101, n))]
    check(dict(case, p=dict(case["p"], rows=rows)), rec)


def random_case():
    """Peaks and lines that have nothing to do with one another."""
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.integers(1, 999), min_size=4, max_size=14, unique=True
            ),
            "lines": st.lists(
                st.integers(3900, 6100), min_size=20, max_size=70, unique=True
            ),
            "s": P.settings(max_tries=(1, 3), deg=(1, 2)),
            "o": options(),
        }
    )


class Bag:
    pass


def check_random(case, rec):
    s = case["s"]
    p = Bag()
    p.npix, p.min_w, p.max_w = 1000, 4000.0, 6000.0
    p.peaks = [float(x) for x in case["peaks"]]
    lines = [float(x) for x in case["lines"]]
    c = Calibrator(list(p.peaks))
    P.configure(c, p, s)
    if case["o"]:
        c.set_ransac_properties(**case["o"])
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines), lines)
    c.set_atlas(a, constrain_poly=s["constrain_poly"])
    r = P.fit_or_none(c, s)
    if r is None:
        rec.label("explicit failure")
        return
    verify(c, r, p, s, s["fit_deg"], lines)
    rec.nontrivial(True)


TESTS = [
    Test(
        "arc",
        case,
        check,
        quick=500,
        thorough=16000,
        shards=8,
        rule="a fit with more matches than coefficients",
    ),
    Test(
        "many",
        many_case,
        check_many,
        quick=64,
        thorough=2400,
        shards=8,
        rule="a fit with more matches than coefficients",
    ),
    Test(
        "random",
        random_case,
        check_random,
        quick=200,
        thorough=8000,
        shards=8,
        rule="a fit was returned",
    ),
]
