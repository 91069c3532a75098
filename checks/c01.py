"""C01 Line selection returns exactly the lines that were asked for."""
import os

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.util import load_calibration_lines
from vlib import edlen
from vlib.core import Test, require
from vlib.gen import (
    SYMS,
    air,
    builtin,
    dyadic,
    nice,
    respell,
    write_linelist,
)

ASSUMPTIONS = [
    "wavelengths in a generated line list are distinct",
    "in air, windows end at least 0.005 A away from any line, since the "
    "conversion of the window is only accurate to a fraction of a mA",
]


def close_to_edge(waves, lo, hi, tol=0.005):
    return any(abs(w - e) < tol for w in waves for e in (lo, hi))


def select(rows, elements, lo, hi, minint, cond):
    """Reference: the rows that are asked for, sorted by wavelength.

    cond is None for vacuum.  Returns (rows with converted wavelength)."""
    want = {e.lower(): k for k, e in enumerate(elements)}
    out = []
    for e, w, i in rows:
        if e.lower() not in want:
            continue
        if cond is None:
            x = w
        else:
            x = edlen.vac_to_air(
                w,
                cond["temperature"],
                cond["pressure"],
                cond["relative_humidity"],
            )
        if not (lo <= x <= hi):
            continue
        if minint is not None:
            m = minint
            if isinstance(minint, list):
                m = minint[want[e.lower()]]
            if i < m:
                continue
        out.append((x, e, i))
    return sorted(out)


def make_minint(case, elements):
    kind, v = case["minint_kind"], case["minint"]
    if kind == "none":
        return None, None
    if kind == "list":
        m = [v[k % len(v)] for k in range(len(elements))]
        return list(m), m
    if kind == "array":
        m = [v[k % len(v)] for k in range(len(elements))]
        return np.array(m), m
    x = v[0]
    return {
        "float": float(x),
        "int": int(x),
        "np": np.float64(x),
        "npint": np.int64(int(x)),
    }[kind], (float(x) if kind in ("float", "np") else int(x))


def compare(got, want, vacuum, what, by_element=False):
    el, wl, il = [list(x) for x in got]
    require(
        len(el) == len(wl) == len(il),
        "%s: lengths of elements, wavelengths, intensities %s",
        what,
        (len(el), len(wl), len(il)),
    )
    g = list(zip([float(w) for w in wl], [str(e) for e in el], il))
    if by_element:
        g = sorted(g, key=lambda r: r[0])
    else:
        require(
            all(a[0] < b[0] for a, b in zip(g, g[1:])),
            "%s: not in ascending wavelength",
            what,
        )
    require(
        len(g) == len(want),
        "%s: %d lines, expected %d: got %s, expected %s",
        what,
        len(g),
        len(want),
        g[:8],
        want[:8],
    )
    tol = 0.0 if vacuum else 1e-6
    for a, b in zip(g, want):
        require(
            abs(a[0] - b[0]) <= tol
            and a[1].lower() == b[1].lower()
            and float(a[2]) == b[2],
            "%s: line %s, expected %s",
            what,
            a,
            b,
        )


COMMON = {
    "modes": st.lists(st.integers(0, 3), min_size=1, max_size=4),
    "vacuum": st.booleans(),
    "cond": air(),
    "minint_kind": st.sampled_from(
        ["none", "float", "int", "np", "npint", "list", "array"]
    ),
    "as_str": st.booleans(),
}


def file_case():
    n = 4
    base = dict(COMMON)
    row = st.tuples(
        st.integers(0, n - 1),
        st.one_of(
            dyadic(3000, 4000, 128), dyadic(3000, 9990, 128), dyadic(3400, 3420)
        ),
        st.one_of(
            st.integers(0, 6).map(float),
            st.integers(0, 20000).map(lambda i: i / 2),
        ),
    )
    base.update(
        {
            "rows": st.lists(
                row, min_size=4, max_size=25, unique_by=lambda r: r[1]
            ),
            "file_modes": st.lists(st.integers(0, 3), min_size=1, max_size=5),
            "req": st.lists(
                st.integers(0, n), min_size=1, max_size=4, unique=True
            ),
            "lo": dyadic(2950, 3600),
            "width": st.one_of(
                dyadic(0, 2000), dyadic(500, 3000), dyadic(3000, 7000)
            ),
            # take a window edge from a line
            "edge": st.sampled_from([None, "lo", "hi", "both"]),
            "edge_i": st.integers(0, 24),
            "minint": st.lists(
                st.one_of(
                    st.integers(0, 4),
                    st.integers(0, 7),
                    st.integers(0, 5000).map(lambda i: i / 2),
                ),
                min_size=1,
                max_size=4,
            ),
            "minint_from": st.one_of(st.none(), st.integers(0, 24)),
            "entry": st.sampled_from(["load", "load", "atlas", "add", "addnone"]),
            "rt": st.one_of(dyadic(0, 600), st.just(500)),
            # no lower end to speak of
            "low": st.sampled_from([None] * 8 + [0, 0.0, -250.0]),
            "fmt": st.sampled_from(["%.7f", "%.7f", "%.18e", "%.12f"]),
            "ifmt": st.sampled_from([None, None, "%.18e", "%.15f"]),
        }
    )
    return st.fixed_dictionaries(base)


def run(case, rec, rows, elements, lo, hi, linelist, known_rows):
    vac = case["vacuum"]
    cond = None if vac else case["cond"]
    entry = case["entry"]
    arg, ref = make_minint(case, elements)
    if entry != "load":
        # an atlas takes a single minimum intensity
        if isinstance(ref, list):
            arg = ref = ref[0]
    spelled = [
        respell(e, case["modes"][k % len(case["modes"])])
        for k, e in enumerate(elements)
    ]
    req = spelled[0] if (case["as_str"] and len(spelled) == 1) else spelled
    # The window used
    if entry == "addnone":
        wlo, whi = lo - case["rt"], hi + case["rt"]
    else:
        wlo, whi = lo, hi
    if cond is not None:
        pool = [
            edlen.vac_to_air(
                r[1],
                cond["temperature"],
                cond["pressure"],
                cond["relative_humidity"],
            )
            for r in rows
        ]
        if close_to_edge(pool, wlo, whi):
            rec.label("line at the edge of an air window, skipped")
            return
    want = select(rows, elements, wlo, whi, ref, cond)
    kw = dict(vacuum=vac, linelist=linelist, **case["cond"])
    if entry == "load":
        got = load_calibration_lines(
            req,
            min_atlas_wavelength=wlo,
            max_atlas_wavelength=whi,
            min_intensity=arg,
            min_distance=0,
            **kw
        )
        compare(got, want, vac, "load_calibration_lines")
    else:
        if entry == "atlas":
            # the constructor keeps the 1000 brightest lines of an element
            if len(want) > 1000:
                rec.label("more than 1000 lines, skipped")
                return
            a = Atlas(
                req,
                min_atlas_wavelength=wlo,
                max_atlas_wavelength=whi,
                range_tolerance=case["rt"],
                min_intensity=arg,
                min_distance=0,
                **kw
            )
        elif entry == "add":
            a = Atlas(range_tolerance=case["rt"])
            a.add(
                req,
                min_atlas_wavelength=wlo,
                max_atlas_wavelength=whi,
                min_intensity=arg,
                min_distance=0,
                brightest_n_lines=10**6,
                **kw
            )
        else:
            a = Atlas(
                min_atlas_wavelength=lo,
                max_atlas_wavelength=hi,
                range_tolerance=case["rt"],
            )
            a.add(
                req,
                min_intensity=arg,
                min_distance=0,
                brightest_n_lines=10**6,
                **kw
            )
        compare(
            (a.get_elements(), a.get_lines(), a.get_intensities()),
            want,
            vac,
            "Atlas " + entry,
            by_element=True,
        )
        # ascending within each element, elements in the order asked for
        els = [str(e).lower() for e in a.get_elements()]
        ws = a.get_lines()
        for e in set(els):
            sub = [w for w, x in zip(ws, els) if x == e]
            require(sub == sorted(sub), "lines of %s not ascending", e)
    asked = [r for r in rows if r[0].lower() in {e.lower() for e in elements}]
    rec.nontrivial(0 < len(want) < len(rows) and len(asked) > 0)
    rec.label("empty result", not want)
    rec.label("entry " + entry)
    rec.label("vacuum" if vac else "air")
    rec.label("some lines dropped by window or intensity", len(want) < len(asked))


def check_file(case, rec):
    rows = [
        (
            respell(SYMS[k], case["file_modes"][j % len(case["file_modes"])]),
            w,
            i,
        )
        for j, (k, w, i) in enumerate(case["rows"])
    ]
    path = os.path.join(rec.tmpdir(), "lines.csv")
    write_linelist(path, rows, case["fmt"], case["ifmt"])
    lo, hi = case["lo"], case["lo"] + case["width"]
    w = rows[case["edge_i"] % len(rows)][1]
    if case["edge"] == "lo" or case["edge"] == "both":
        lo, hi = w, max(hi, w)
    if case["edge"] == "hi" or case["edge"] == "both":
        lo, hi = min(lo, w), w
    if case["minint_from"] is not None:
        case["minint"][0] = rows[case["minint_from"] % len(rows)][2]
    if case["low"] is not None:
        lo = case["low"]
        if case["entry"] == "addnone":
            lo += case["rt"]
    if hi < lo:
        return
    rec.label("window from zero or below", case["low"] is not None)
    rec.label("long fields", case["fmt"] != "%.7f")
    elements = [SYMS[k] for k in case["req"]]
    run(case, rec, rows, elements, lo, hi, path, None)


BUILT = ["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cd", "Cu", "Th", "Zz"]


def builtin_case():
    base = dict(COMMON)
    base.update(
        {
            "req": st.one_of(
                st.lists(st.sampled_from(BUILT), min_size=1, max_size=3, unique=True),
                st.lists(st.sampled_from(BUILT), min_size=1, max_size=3, unique=True),
                st.lists(st.sampled_from(BUILT), min_size=4, max_size=9, unique=True),
            ),
            "lo": nice(2500, 9000, 2),
            "width": st.one_of(nice(0, 8000, 2), nice(500, 4000, 2)),
            "minint": st.lists(
                st.one_of(
                    st.integers(0, 20), st.integers(0, 500), st.integers(0, 30000)
                ),
                min_size=1,
                max_size=3,
            ),
            "entry": st.sampled_from(["load", "load", "atlas", "add", "addnone"]),
            "rt": st.one_of(nice(0, 600, 1), st.just(500)),
            "name": st.sampled_from(["nist", "NIST", "Nist"]),
        }
    )
    return st.fixed_dictionaries(base)


def check_builtin(case, rec):
    allr = builtin()
    want_el = {e.lower() for e in case["req"]}
    rows = [r for r in allr if r[0].lower() in want_el]
    ws = [r[1] for r in rows]
    if case["entry"] == "load" and len(set(ws)) < len(ws):
        # equal wavelengths of different elements: ambiguous, drop from window
        seen, dup = set(), set()
        for w in ws:
            (dup if w in seen else seen).add(w)
        lo, hi = case["lo"], case["lo"] + case["width"]
        if any(lo - 5 <= w <= hi + 5 for w in dup):
            rec.label("coincident lines, skipped")
            return
    run(
        case,
        rec,
        rows,
        case["req"],
        case["lo"],
        case["lo"] + case["width"],
        case["name"],
        None,
    )


def bad_list_case():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["missing", "none", "number", "array"]),
            "name": st.text("abcxyz", min_size=5, max_size=9),
        }
    )


def check_bad_list(case, rec):
    ll = {
        "missing": case["name"],
        "none": None,
        "number": 3.5,
        "array": [[1.0, 2.0]],
    }[case["kind"]]
    os.chdir(rec.tmpdir())
    try:
        load_calibration_lines(["He"], linelist=ll)
    except ValueError:
        rec.nontrivial()
        return
    require(False, "an invalid line list %r was accepted", ll)


def probe_range_tolerance():
    """The constructor ignores range_tolerance."""
    a = Atlas(
        ["Xe"],
        min_atlas_wavelength=4500.0,
        max_atlas_wavelength=5000.0,
        range_tolerance=300,
        min_intensity=0,
        min_distance=0,
    )
    ws = a.get_lines()
    return min(ws) >= 4500.0 and max(ws) <= 5000.0


KNOWN = {"KF-C01-constructor-range-tolerance": probe_range_tolerance}

TESTS = [
    Test(
        "file",
        file_case,
        check_file,
        quick=4000,
        thorough=60000,
        shards=8,
        rule="the request keeps some lines of the file and drops others",
    ),
    Test(
        "builtin",
        builtin_case,
        check_builtin,
        quick=480,
        thorough=6000,
        shards=8,
        rule="the request keeps some lines of the requested elements and "
        "drops others",
    ),
    Test(
        "bad_list",
        bad_list_case,
        check_bad_list,
        quick=20,
        thorough=60,
        rule="an invalid line list is offered",
    ),
]
