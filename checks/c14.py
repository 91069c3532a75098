"""C14 Fits are reproducible."""
import os

import numpy as np
from hypothesis import strategies as st

from rascal import models, util
from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.synthetic import SyntheticSpectrum
from vlib import problem as P
from vlib.core import Test, require

ASSUMPTIONS = [
    "the seed is the last thing to touch the random generator before the fit",
]

# what may be done between seeding and fitting, without any effect
BETWEEN = [
    "list",
    "pairs",
    "known",
    "known lists",
    "library",
    "plotly",
    "save",
    "arc",
    "arc plotly",
    "space",
    "fit plot",
    "new calibrator",
    "other hough",
    "polyfit",
    "refine",
    "atlas",
    "synthetic",
    "props",
    "hough",
    "level",
]


def case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=8),
            "s": P.settings(max_tries=(3, 12), deg=(1, 4)),
            "o": st.fixed_dictionaries(
                {}, optional={"minimum_matches": st.integers(1, 8)}
            ),
            "between": st.lists(st.sampled_from(BETWEEN), min_size=1, max_size=6),
            "same": st.booleans(),
            "earlier": st.booleans(),
            "guess": st.booleans(),
            "linear": st.booleans(),
            "reseed": st.sampled_from(["calibrator", "numpy", "early"]),
        }
    )


def do(k, c, p, s, fitted):
    if k == "list":
        c.list_atlas()
    elif k == "pairs":
        c.get_pix_wave_pairs()
    elif k == "known":
        c.set_known_pairs()
    elif k == "known lists":
        c.set_known_pairs([], [])
    elif k == "library":
        c.which_plotting_library()
    elif k == "plotly":
        c.use_plotly()
        c.use_matplotlib()
    elif k == "save":
        if c.hough_lines is not None:
            c.save_hough_transform(fileformat="npy+json", to_disk=False)
    elif k == "arc":
        c.plot_arc(display=False)
    elif k == "arc plotly":
        c.use_plotly()
        c.plot_arc(display=False, return_jsonstring=True)
        c.use_matplotlib()
    elif k == "space":
        if fitted:
            c.plot_search_space(display=False, fit_coeff=c.fit_coeff)
    elif k == "fit plot":
        if fitted and c.fit_coeff is not None and len(c.matched_peaks):
            c.plot_fit(display=False)
    elif k == "new calibrator":
        d = Calibrator(list(p.peaks))
        d.set_calibrator_properties(num_pix=700, log_level="critical")
        d.set_hough_properties(min_wavelength=1.0, max_wavelength=3.0)
        d.set_ransac_properties(sample_size=9, ransac_tolerance=0.5)
    elif k == "other hough":
        d = p.calibrator(dict(s, num_slopes=50), seed=False)
        d.do_hough_transform()
    elif k == "polyfit":
        models.robust_polyfit(np.arange(9.0), np.arange(9.0) ** 2, 2)
    elif k == "refine":
        util.refine_peaks(p.spectrum(), list(p.peaks)[:3], window_width=5)
    elif k == "atlas":
        a = Atlas("He", min_intensity=5)
        a.remove_atlas_lines_range(5000.0, 100)
    elif k == "synthetic":
        SyntheticSpectrum([1.0, 2.0, 100.0]).get_pixels([500.0, 600.0])
    elif k == "props":
        c.set_ransac_properties()
        c.set_calibrator_properties(log_level="critical")
    elif k == "hough":
        c.set_hough_properties()
    elif k == "level":
        c.set_calibrator_properties(log_level="info")
        c.set_calibrator_properties(log_level="critical")


def run(c, case, p, s, between=(), fitted=False):
    seed = s["seed"]
    if case["reseed"] == "early":
        c.set_calibrator_properties(seed=seed, log_level="critical")
    for k in between:
        do(k, c, p, s, fitted)
    if case["reseed"] == "calibrator":
        c.set_calibrator_properties(seed=seed, log_level="critical")
    elif case["reseed"] == "numpy":
        np.random.seed(seed)
    kw = {}
    if case["guess"] or not case["linear"]:
        x = np.linspace(0, p.npix - 1, 40)
        kw["fit_coeff"] = [
            float(v)
            for v in P.BASISFIT[s["fit_type"]](x, p.wave(x) + 2.0, s["fit_deg"])
        ]
    r = P.fit_or_none(c, s, **kw)
    return None if r is None else P.plain(r)


def make(case, p, s):
    c = p.calibrator(s, spectrum=p.spectrum(), seed=False)
    c.set_ransac_properties(linear=case["linear"], **case["o"])
    return c


def check(case, rec):
    os.chdir(rec.tmpdir())
    p, s = P.Problem(case["p"]), case["s"]
    if len(p.peaks) < 5 or len(p.lines) < 5:
        return
    a = make(case, p, s)
    first = run(a, case, p, s)
    b = a if case["same"] else make(case, p, s)
    fitted = case["same"]
    if case["earlier"]:
        # an earlier fit of the same problem, from another state
        np.random.seed(s["seed"] ^ 12345)
        d = make(case, p, s)
        P.fit_or_none(d, dict(s, max_tries=3), **(
            {"fit_coeff": [float(p.wave(0)), 1.0]} if not case["linear"] else {}
        ))
    second = run(b, case, p, s, case["between"], fitted)
    require(
        first == second,
        "the outcome differs: %s and %s",
        first,
        second,
    )
    rec.nontrivial(first is not None)
    for k in set(case["between"]):
        rec.label(k)
    rec.label("same calibrator", case["same"])


def brute_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=6, max_size=9),
            "s": P.settings(max_tries=(1, 3), deg=(1, 2)),
            "top_n": st.integers(1, 2),
            "seeds": st.lists(
                st.integers(0, 2**32 - 1), min_size=2, max_size=3, unique=True
            ),
            "same": st.booleans(),
        }
    )


def check_brute(case, rec):
    p = P.Problem(case["p"])
    s = dict(case["s"], top_n=case["top_n"])
    s["sample_size"] = s["fit_deg"] + 1
    if len(p.peaks) < 4 or len(p.lines) < 4:
        return
    if case["top_n"] == 2 and (s["fit_deg"] > 1 or len(p.peaks) > 8):
        s["top_n"] = 1
    out = []
    c = None
    for k, seed in enumerate(case["seeds"]):
        if c is None or not case["same"]:
            c = p.calibrator(s, seed=False)
        c.set_calibrator_properties(seed=seed, log_level="critical")
        np.random.random(k)
        r = P.fit_or_none(c, s, brute_force=True)
        out.append(None if r is None else P.plain(r))
    require(
        all(o == out[0] for o in out),
        "an exhaustive fit depends on the seed: %s",
        out,
    )
    rec.nontrivial(out[0] is not None)


def two_case():
    return st.fixed_dictionaries(
        {
            "p": st.tuples(P.problem(min_size=8), P.problem(min_size=8)),
            "s": st.tuples(
                P.settings(max_tries=(3, 10), deg=(1, 3)),
                P.settings(max_tries=(3, 10), deg=(1, 3)),
            ),
            "order": st.lists(st.sampled_from([0, 1]), min_size=4, max_size=12),
            "known": st.tuples(st.booleans(), st.booleans()),
        }
    )


def stages(p, s, known):
    """The calibration of a problem in separate steps."""
    c = Calibrator(p.peaks_arg(), p.spectrum())
    yield
    P.configure(c, p, s, seed=False)
    yield
    c.set_atlas(
        p.atlas(), candidate_tolerance=10.0, constrain_poly=s["constrain_poly"]
    )
    yield
    if known:
        c.set_known_pairs(4.0, float(p.wave(4.0)))
    yield
    c.do_hough_transform()
    yield
    np.random.seed(s["seed"])
    r = P.fit_or_none(c, s)
    yield
    if r is not None:
        r2 = c.match_peaks(tolerance=3.0, robust_refit=False)
        r = [P.plain(r), P.plain(r2)]
    yield [r]


def finish(gen):
    out = None
    for v in gen:
        out = v if v is not None else out
    return out


def check_two(case, rec):
    ps = [P.Problem(q) for q in case["p"]]
    if any(len(p.peaks) < 5 or len(p.lines) < 5 for p in ps):
        return
    alone = [
        finish(stages(p, s, k)) for p, s, k in zip(ps, case["s"], case["known"])
    ]
    gens = [stages(p, s, k) for p, s, k in zip(ps, case["s"], case["known"])]
    mixed = [None, None]
    for i in case["order"]:
        v = next(gens[i], None)
        mixed[i] = v if v is not None else mixed[i]
    for i in (0, 1):
        v = finish(gens[i])
        mixed[i] = v if v is not None else mixed[i]
    # nan equals nan here
    require(
        repr(mixed) == repr(alone),
        "two calibrators used in turn give %s, one after the other %s",
        mixed,
        alone,
    )
    rec.nontrivial(alone[0][0] is not None and alone[1][0] is not None)


TESTS = [
    Test(
        "fit",
        case,
        check,
        quick=320,
        thorough=8000,
        shards=8,
        rule="the fit succeeds",
    ),
    Test(
        "brute",
        brute_case,
        check_brute,
        quick=200,
        thorough=4000,
        shards=8,
        rule="the fit succeeds",
    ),
    Test(
        "two",
        two_case,
        check_two,
        quick=150,
        thorough=4000,
        shards=8,
        rule="both fits succeed",
    ),
]
