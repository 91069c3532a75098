"""C05 Every way of adding lines honours the medium and the air conditions."""
import os

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.util import load_calibration_lines
from vlib import edlen
from vlib.core import Test, require
from vlib.gen import SYMS, air, builtin, dyadic, nice, write_linelist

TOL = 1e-6
ASSUMPTIONS = [
    "no line within 0.05 A of the end of the window",
]


def full_air():
    """Conditions that all differ from the defaults."""
    return st.fixed_dictionaries(
        {
            "pressure": nice(40000, 100000, 1),
            "temperature": nice(255, 315, 2),
            "relative_humidity": nice(5, 100, 1),
        }
    )


def ref(w, vacuum, c):
    if vacuum:
        return w
    return edlen.vac_to_air(
        w, c["temperature"], c["pressure"], c["relative_humidity"]
    )


def same_waves(got, want, what):
    got = [float(g) for g in got]
    require(
        len(got) == len(want), "%s: %d lines, expected %d", what, len(got), len(want)
    )
    for g, w in zip(got, want):
        require(abs(g - w) < TOL, "%s: line at %.7f, expected %.7f", what, g, w)


# -- lines of the line list -------------------------------------------------

DEFAULT = {
    "pressure": 101325.0,
    "temperature": 273.15,
    "relative_humidity": 0.0,
}


def listed_case():
    return st.fixed_dictionaries(
        {
            "rows": st.lists(
                st.tuples(st.integers(0, 2), dyadic(3200, 9500), st.integers(0, 99)),
                min_size=1,
                max_size=10,
                unique_by=lambda r: r[1],
            ),
            "vacuum": st.sampled_from([False, False, True, True, None]),
            "cond": st.one_of(full_air(), full_air(), air()),
            # the conditions that are passed, the others are defaults
            "given": st.sets(
                st.sampled_from(sorted(DEFAULT)), max_size=3
            ).map(sorted)
            | st.just(sorted(DEFAULT)),
            "entry": st.sampled_from(["load", "atlas", "add", "add_twice"]),
            "builtin": st.booleans(),
            "el": st.sampled_from(["He", "Ar", "Xe", "Cd", "Hg"]),
            "positional": st.booleans(),
        }
    )


def check_listed(case, rec):
    given = {k: case["cond"][k] for k in case["given"]}
    cond = dict(DEFAULT, **given)
    vac = bool(case["vacuum"])
    lo, hi = 3000.25, 9900.25
    if case["builtin"]:
        ll, els = "nist", [case["el"]]
        rows = [r for r in builtin() if r[0] == case["el"]]
    else:
        rows = [(SYMS[k], w, i) for k, w, i in case["rows"]]
        ll = write_linelist(os.path.join(rec.tmpdir(), "l.csv"), rows)
        els = SYMS[:3]
    want = []
    for e in els:
        for _, w, _ in sorted((r for r in rows if r[0] == e), key=lambda r: r[1]):
            x = ref(w, vac, cond)
            if min(abs(x - lo), abs(x - hi)) < 0.05:
                return
            if lo <= x <= hi:
                want.append(x)
    kw = dict(
        min_atlas_wavelength=lo,
        max_atlas_wavelength=hi,
        min_intensity=0,
        min_distance=0,
        linelist=ll,
        **given
    )
    if case["vacuum"] is not None:
        kw["vacuum"] = vac
    if case["positional"] and len(given) == 3:
        pos = [
            els,
            lo,
            hi,
            0,
            0,
            vac,
            cond["pressure"],
            cond["temperature"],
            cond["relative_humidity"],
            ll,
        ]
    else:
        pos = None
    ent = case["entry"]
    if ent == "load":
        got = (
            load_calibration_lines(*pos)
            if pos
            else load_calibration_lines(els, **kw)
        )[1]
        want = sorted(want)
    elif ent == "atlas":
        if pos:
            pos.insert(3, 500)
            a = Atlas(*pos)
        else:
            a = Atlas(els, **kw)
        got = a.get_lines()
    else:
        a = Atlas()
        # other conditions used earlier are of no consequence
        if ent == "add_twice":
            a.add(
                els,
                min_atlas_wavelength=lo,
                max_atlas_wavelength=hi,
                min_intensity=0,
                min_distance=0,
                linelist=ll,
                pressure=50000.0,
                temperature=300.0,
                relative_humidity=80.0,
            )
            a.clear()
        if pos:
            a.add(*pos)
        else:
            a.add(els, **kw)
        got = a.get_lines()
    same_waves(got, want, "%s (%s)" % (ent, "vacuum" if vac else "air"))
    rec.nontrivial(not vac and len(given) == 3 and len(want) > 0)
    rec.label("%s %s" % (ent, "vacuum" if vac else "air"))


# -- user-supplied lines ----------------------------------------------------


def user_case():
    return st.fixed_dictionaries(
        {
            "lines": st.lists(
                st.tuples(st.integers(0, 5), dyadic(3000, 20000), st.integers(0, 9)),
                min_size=1,
                max_size=8,
            ),
            "vacuum": st.sampled_from([True, True, False, None]),
            "cond": st.one_of(full_air(), air()),
            "given": st.sets(st.sampled_from(sorted(DEFAULT))).map(sorted)
            | st.just(sorted(DEFAULT)),
            "kind": st.sampled_from(["list", "array", "tuple", "scalar"]),
            "via": st.sampled_from(["atlas", "calibrator", "calibrator_attached"]),
            "positional": st.booleans(),
            "ints": st.booleans(),
        }
    )


def check_user(case, rec):
    lines = case["lines"]
    if case["kind"] == "scalar":
        lines = lines[:1]
    ws = [w for _, w, _ in lines]
    els = [SYMS[k] for k, _, _ in lines]
    ints = [i for _, _, i in lines]
    given = {k: case["cond"][k] for k in case["given"]}
    cond = dict(DEFAULT, **given)
    arg = {
        "list": list(ws),
        "array": np.array(ws),
        "tuple": tuple(ws),
        "scalar": ws[0],
    }[case["kind"]]
    earg = els[0] if case["kind"] == "scalar" else list(els)
    if case["via"] == "atlas":
        a = Atlas()
        target = a
    else:
        target = Calibrator([100.0, 200.0, 300.0])
        if case["via"] == "calibrator_attached":
            target.set_atlas(Atlas())
    iarg = list(ints) if case["ints"] else None
    if case["positional"] and len(given) == 3:
        target.add_user_atlas(
            earg,
            arg,
            iarg,
            bool(case["vacuum"]),
            cond["pressure"],
            cond["temperature"],
            cond["relative_humidity"],
        )
    else:
        kw = dict(given)
        if case["vacuum"] is not None:
            kw["vacuum"] = case["vacuum"]
        if iarg is not None:
            kw["intensities"] = iarg
        target.add_user_atlas(earg, arg, **kw)
    if case["via"] != "atlas":
        a = target.atlas
    want = [ref(w, not case["vacuum"], cond) for w in ws]
    got = a.get_lines()
    if not case["vacuum"]:
        require(
            [float(g) for g in got] == ws,
            "user lines changed without conversion: %s to %s",
            ws,
            got,
        )
    same_waves(got, want, "user lines via " + case["via"])
    require(list(a.get_elements()) == els, "elements %s", a.get_elements())
    require(
        [float(i) for i in a.get_intensities()]
        == [float(i) if case["ints"] else 0.0 for i in ints],
        "intensities %s",
        a.get_intensities(),
    )
    rec.nontrivial(bool(case["vacuum"]) and len(given) == 3)
    rec.label("conversion %s via %s" % (case["vacuum"], case["via"]))


# -- deprecated calibrator methods --------------------------------------------


def deprecated_case():
    return st.fixed_dictionaries(
        {
            "els": st.lists(
                st.sampled_from(["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cd", "Cu"]),
                min_size=1,
                max_size=3,
                unique=True,
            ),
            "first": st.sampled_from([None, "atlas", "add_atlas", "user"]),
            "window": st.one_of(
                st.none(), st.tuples(nice(3000, 5000, 2), nice(5500, 9000, 2))
            ),
            "range": st.tuples(nice(3000, 5000, 1), nice(5500, 9000, 1)),
            "rt": nice(0, 500, 1),
            "minint": st.sampled_from([None, 0.0, 5.0, 50, 500.0]),
            "mindist": st.sampled_from([None, 0, 2.5, 10.0, 25.0]),
            "vacuum": st.sampled_from([None, False, True]),
            "cond": full_air(),
            "given": st.sets(st.sampled_from(sorted(DEFAULT))).map(sorted)
            | st.just(sorted(DEFAULT)),
        }
    )


def content(a):
    return list(
        zip(
            [float(w) for w in a.get_lines()],
            map(str, a.get_elements()),
            map(float, a.get_intensities()),
        )
    )


def check_deprecated(case, rec):
    c = Calibrator([100.0, 200.0, 300.0])
    c.set_hough_properties(
        min_wavelength=case["range"][0],
        max_wavelength=case["range"][1],
        range_tolerance=case["rt"],
    )
    expected = []
    if case["first"] == "atlas":
        a0 = Atlas(["He"], 4000.0, 5000.0)
        expected += content(a0)
        c.set_atlas(a0)
    elif case["first"] == "add_atlas":
        c.add_atlas(["Cd"], 4000.0, 6000.0, pressure=80000.0, temperature=290.0)
        expected += content(
            Atlas(["Cd"], 4000.0, 6000.0, pressure=80000.0, temperature=290.0)
        )
    elif case["first"] == "user":
        c.add_user_atlas(["X"], [5555.5], [3.0])
        expected += [(5555.5, "X", 3.0)]
    kw = {k: case["cond"][k] for k in case["given"]}
    if case["vacuum"] is not None:
        kw["vacuum"] = case["vacuum"]
    if case["minint"] is not None:
        kw["min_intensity"] = case["minint"]
    if case["mindist"] is not None:
        kw["min_distance"] = case["mindist"]
    if case["window"] is not None:
        win = case["window"]
        wkw = dict(
            min_atlas_wavelength=win[0], max_atlas_wavelength=win[1]
        )
    else:
        win = (case["range"][0] - case["rt"], case["range"][1] + case["rt"])
        wkw = {}
    c.add_atlas(list(case["els"]), **wkw, **kw)
    new = content(
        Atlas(
            list(case["els"]),
            min_atlas_wavelength=win[0],
            max_atlas_wavelength=win[1],
            **kw
        )
    )
    got = content(c.atlas)
    require(
        got[: len(expected)] == expected,
        "the earlier lines became %s",
        got[: len(expected)],
    )
    require(
        got[len(expected):] == new,
        "add_atlas gives %s, an atlas of the same arguments %s",
        got[len(expected):][:6],
        new[:6],
    )
    # and against the reference
    cond = dict(DEFAULT, **{k: case["cond"][k] for k in case["given"]})
    pool = {}
    for e, w, i in builtin():
        if e in case["els"]:
            pool.setdefault((e, i), []).append(ref(w, case["vacuum"], cond))
    for w, e, i in new:
        require(
            min(abs(w - x) for x in pool[(e, i)]) < TOL,
            "line %s is not at the wavelength for the conditions",
            (w, e, i),
        )
    rec.nontrivial(len(new) > 0 and not case["vacuum"] and len(case["given"]) > 0)
    rec.label("atlas before: %s" % case["first"])


TESTS = [
    Test(
        "listed",
        listed_case,
        check_listed,
        quick=1000,
        thorough=20000,
        shards=8,
        rule="conversion to air at three supplied conditions, some lines",
    ),
    Test(
        "user",
        user_case,
        check_user,
        quick=3000,
        thorough=60000,
        shards=4,
        rule="conversion requested, three supplied conditions",
    ),
    Test(
        "deprecated",
        deprecated_case,
        check_deprecated,
        quick=300,
        thorough=5000,
        shards=8,
        rule="lines in air with at least one supplied condition",
    ),
]
