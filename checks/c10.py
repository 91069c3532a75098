"""C10 Peak-line pairs are complete, and restricted only by the region."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "the atlas is edited through the calibrator",
    "pairs within 1e-6 (relative) of an edge of the region may be in or out",
]


def lines_st(max_size=6):
    return st.lists(nice(2500, 9500, 1), min_size=0, max_size=max_size)


def constraint():
    return st.fixed_dictionaries(
        {
            "constrain": st.booleans(),
            "tol": st.sampled_from([10.0, 1.0, 50.0, 250.5]),
        }
    )


def op():
    con = constraint()
    return st.one_of(
        st.fixed_dictionaries(
            {"op": st.just("set_atlas"), "lines": lines_st(), "con": con}
        ),
        st.fixed_dictionaries(
            {"op": st.just("add_user"), "lines": lines_st(), "con": con}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("add"),
                "elements": st.sampled_from(["Xe", "He", ["Ne", "Ar"]]),
                "lo": st.integers(3500, 9000),
                "width": st.integers(50, 900),
                "con": con,
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("remove"),
                # the position of the centre among the lines, and an offset
                "at": st.integers(0, 10),
                "off": nice(-30, 30, 1),
                "tol": st.sampled_from([0.5, 5, 10, 40, 2000]),
            }
        ),
        st.fixed_dictionaries({"op": st.just("clear")}),
        st.fixed_dictionaries(
            {
                "op": st.just("hough"),
                "kw": st.fixed_dictionaries(
                    {},
                    optional={
                        "min_wavelength": nice(2500, 5000, 1),
                        "max_wavelength": nice(5500, 9500, 1),
                        "range_tolerance": nice(0, 800, 1),
                        "linearity_tolerance": nice(0, 300, 1),
                        "num_slopes": st.integers(10, 100),
                    },
                ),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("pixels"),
                "start": st.sampled_from([0, 0, 5, 100]),
                "n": st.integers(20, 3000),
                "step": st.sampled_from([1, 1, 2, 0.5]),
            }
        ),
        st.fixed_dictionaries({"op": st.sampled_from(["ransac", "known", "list"])}),
    )


def case():
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.one_of(nice(1, 2000, 2), st.integers(1, 2000)),
                min_size=1,
                max_size=6,
            ),
            "array": st.booleans(),
            "ops": st.tuples(
                st.fixed_dictionaries(
                    {
                        "op": st.sampled_from(["set_atlas", "add_user"]),
                        "lines": st.lists(
                            nice(2500, 9500, 1), min_size=1, max_size=6
                        ),
                        "con": constraint(),
                    }
                ),
                st.lists(op(), min_size=1, max_size=7),
            ).map(lambda t: [t[0]] + t[1]),
        }
    )


def inside(pairs, c, tol):
    """1 inside, 0 outside, -1 too close to the edge to tell."""
    top = float(np.max(c.pixel_list))
    lo, hi = float(c.min_wavelength), float(c.max_wavelength)
    r = float(c.range_tolerance) + tol
    out = []
    for p, w in pairs:
        # the two long edges join (0, lo -+ r) and (top, hi -+ r)
        centre = lo + (hi - lo) * p / top
        d = r - abs(w - centre)
        e = min(p, top - p)
        if d > 1e-6 * w and e > 1e-6 * top:
            out.append(1)
        elif d < -1e-6 * w or e < -1e-6 * top:
            out.append(0)
        else:
            out.append(-1)
    return out


def check(case, rec):
    peaks = np.array(case["peaks"]) if case["array"] else list(case["peaks"])
    c = Calibrator(peaks)
    c.set_calibrator_properties(log_level="critical")
    lines = []
    model_ok = True
    con, tol = None, None
    seen = set()
    restricted = 0
    for o in case["ops"]:
        k = o["op"]
        if c.atlas is None and k not in ("set_atlas", "add_user", "add"):
            # nothing to be paired yet
            if k in ("remove", "clear", "list"):
                continue
        if k == "set_atlas":
            a = Atlas()
            if o["lines"]:
                a.add_user_atlas(["X"] * len(o["lines"]), list(o["lines"]))
            con, tol = o["con"]["constrain"], o["con"]["tol"]
            c.set_atlas(a, candidate_tolerance=tol, constrain_poly=con)
            lines, model_ok = list(o["lines"]), True
        elif k == "add_user":
            if not o["lines"]:
                continue
            con, tol = o["con"]["constrain"], o["con"]["tol"]
            c.add_user_atlas(
                ["U"] * len(o["lines"]),
                list(o["lines"]),
                candidate_tolerance=tol,
                constrain_poly=con,
            )
            lines += o["lines"]
        elif k == "add":
            con, tol = o["con"]["constrain"], o["con"]["tol"]
            before = [] if c.atlas is None else list(c.atlas.get_lines())
            c.add_atlas(
                o["elements"],
                min_atlas_wavelength=float(o["lo"]),
                max_atlas_wavelength=float(o["lo"] + o["width"]),
                min_intensity=0.0,
                min_distance=0.0,
                candidate_tolerance=tol,
                constrain_poly=con,
                vacuum=True,
            )
            now = list(c.atlas.get_lines())
            require(now[: len(before)] == before, "add_atlas lost lines")
            lines += now[len(before):]
        elif k == "remove":
            base = lines[o["at"] % len(lines)] if lines else 5000.0
            w = base + o["off"]
            c.remove_atlas_lines_range(w, o["tol"])
            lines = [x for x in lines if not abs(x - w) < o["tol"]]
        elif k == "clear":
            c.clear_atlas()
            lines = []
        elif k == "hough":
            c.set_hough_properties(**o["kw"])
        elif k == "pixels":
            c.set_calibrator_properties(
                pixel_list=o["start"] + np.arange(o["n"]) * o["step"],
                log_level="critical",
            )
        elif k == "ransac":
            c.set_ransac_properties(sample_size=4, top_n_candidate=2)
        elif k == "known":
            c.set_known_pairs(10.0, 4000.0)
        elif k == "list":
            c.list_atlas()
        seen.add(k)
        if c.atlas is None:
            continue
        require(
            [float(x) for x in c.atlas.get_lines()] == [float(x) for x in lines],
            "after %s the atlas has %s, expected %s",
            k,
            list(c.atlas.get_lines()),
            lines,
        )
        full = [(float(p), float(w)) for p in case["peaks"] for w in lines]
        got = np.asarray(c.pairs, dtype=float)
        require(
            got.ndim == 2 and got.shape[1] == 2,
            "after %s the pairs have the shape %s",
            k,
            got.shape,
        )
        got = [tuple(x) for x in got.tolist()]
        flags = inside(full, c, tol) if con else [1] * len(full)
        must = {x for x, f in zip(full, flags) if f == 1}
        may = {x for x, f in zip(full, flags) if f}
        extra = set(got) - may
        missing = must - set(got)
        require(
            not extra,
            "after %s (constrained: %s) there are the pairs %s",
            o,
            con,
            sorted(extra)[:5],
        )
        require(
            not missing,
            "after %s (constrained: %s) the pairs %s are missing",
            o,
            con,
            sorted(missing)[:5],
        )
        if len(set(full)) == len(full):
            require(len(set(got)) == len(got), "pairs listed twice")
        if con:
            restricted += 0 < len(must) < len(set(full))
    rec.nontrivial(
        len(seen & {"set_atlas", "add_user", "add", "remove", "clear", "hough"})
        >= 3
    )
    rec.label("region cuts some pairs", restricted)
    for k in seen:
        rec.label(k)


def large_case():
    return st.builds(
        lambda c, n, m, seed: dict(c, many=[n, m, seed], ops=c["ops"][:4]),
        case(),
        st.integers(30, 160),
        st.integers(30, 160),
        st.integers(0, 2**31),
    )


def check_large(case, rec):
    n, m, seed = case["many"]
    r = np.random.RandomState(seed)
    peaks = np.round(r.uniform(1, 2000, n), 2).tolist()
    lines = np.round(r.uniform(2500, 9500, m), 1).tolist()
    ops = [dict(case["ops"][0], lines=lines)] + case["ops"][1:]
    check(dict(case, peaks=peaks, ops=ops), rec)


def fit_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=10, kinds=["b"]),
            "s": P.settings(max_tries=(5, 15), deg=(1, 2)),
            "edits": st.lists(
                st.one_of(
                    st.tuples(st.just("remove"), st.integers(0, 20)),
                    st.tuples(st.just("remove_matched"), st.integers(0, 20)),
                    st.tuples(st.just("set"), st.integers(0, 5)),
                    st.tuples(st.just("user"), st.integers(0, 5)),
                    st.tuples(st.just("refit"), st.just(0)),
                ),
                min_size=1,
                max_size=4,
            ),
            "reset": st.booleans(),
        }
    )


def check_fit(case, rec):
    """No fit uses a line that is gone; all present lines are considered."""
    p = P.Problem(case["p"])
    s = dict(case["s"], filter_close=False)
    c = p.calibrator(s)
    current = list(p.lines)
    matched = []
    edited = False

    def refit():
        P.fit_or_none(c, s)
        now = set(current)
        for what, ws in (
            ("candidates", [w for x in c.candidates for w in x[1]]),
            ("offered wavelengths", c.candidate_arc),
            ("matches", c.matched_atlas),
        ):
            bad = {float(w) for w in ws} - now
            require(
                not bad, "the %s of a fit have removed lines %s", what, bad
            )
        # every pair near any of the Hough lines is a candidate
        tol = s["candidate_tolerance"]
        got = {
            (float(a), float(b))
            for x in c.candidates
            for a, b in zip(x[0], x[1])
        }
        peaks = np.asarray(p.peaks)
        wl = np.asarray(current)
        m = np.array([l[0] for l in c.hough_lines])
        k = np.array([l[1] for l in c.hough_lines])
        if not s["constrain_poly"]:
            for px in p.peaks:
                d = np.abs(wl[None, :] - (m * px + k)[:, None]).min(axis=0)
                for w, dd in zip(current, d):
                    if dd < tol - 1e-6:
                        require(
                            (px, w) in got,
                            "the line %s within %s A of a Hough line is no "
                            "candidate for the peak %s",
                            w,
                            dd,
                            px,
                        )
        return [float(w) for w in c.matched_atlas]

    try:
        matched = refit()
        for k, v in case["edits"]:
            if k in ("remove", "remove_matched"):
                pool = matched if k == "remove_matched" else current
                pool = [w for w in pool if w in current]
                if len(current) <= 7 or not pool:
                    continue
                w = pool[v % len(pool)]
                c.remove_atlas_lines_range(w, 0.01)
                current = [x for x in current if not abs(x - w) < 0.01]
                edited = True
            elif k == "set":
                keep = [w for i, w in enumerate(p.lines) if (i + v) % 4]
                if len(keep) < 7:
                    continue
                a = Atlas()
                a.add_user_atlas(["Y"] * len(keep), keep)
                c.set_atlas(
                    a,
                    candidate_tolerance=10.0,
                    constrain_poly=s["constrain_poly"],
                )
                current = keep
                edited = True
            elif k == "user":
                w = p.min_w + 100.0 * (v + 1) + 0.25
                c.add_user_atlas(
                    ["U"],
                    [w],
                    constrain_poly=s["constrain_poly"],
                )
                current = current + [w]
                edited = True
            elif k == "refit":
                pass
            # matches of the earlier fit are forgotten
            c.matched_peaks, c.matched_atlas = [], []
            c.fit_coeff = None
            if case["reset"]:
                c.do_hough_transform()
            matched = refit()
    except P.NoFit:
        pass
    rec.nontrivial(edited and len(matched) > 0)


TESTS = [
    Test(
        "pairs",
        case,
        check,
        quick=12000,
        thorough=120000,
        shards=8,
        rule="operations of at least three kinds",
    ),
    Test(
        "large",
        large_case,
        check_large,
        quick=120,
        thorough=3000,
        shards=8,
        rule="operations of at least three kinds",
    ),
    Test(
        "fit",
        fit_case,
        check_fit,
        quick=500,
        thorough=8000,
        shards=8,
        rule="a fit after an edit matches lines",
    ),
]
