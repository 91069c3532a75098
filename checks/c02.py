"""C02 Brightness and separation filters keep exactly the right lines."""
import os

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.util import filter_separation, load_calibration_lines
from vlib import edlen
from vlib.core import Test, require
from vlib.gen import SYMS, air, builtin, dyadic, write_linelist

ASSUMPTIONS = [
    "equally bright lines at the limit of brightest_n_lines may be chosen "
    "freely; where that choice matters to the separation filter the case is "
    "not generated",
    "in air a separation is tested at least 0.1 % away from equality",
]


def separated(waves, d):
    """Indices (of ascending waves) that keep their distance."""
    keep = []
    for k, w in enumerate(waves):
        near = [abs(w - v) for j, v in enumerate(waves) if j != k]
        if not near or min(near) >= d:
            keep.append(k)
    return keep


def case_strategy():
    row = st.tuples(
        st.integers(0, 2),
        st.one_of(dyadic(4000, 4100), dyadic(4000, 4010), dyadic(3500, 6000)),
        st.one_of(
            st.integers(0, 8).map(float),
            st.integers(0, 40000).map(lambda i: i / 4),
        ),
    )
    return st.fixed_dictionaries(
        {
            "rows": st.lists(
                row, min_size=1, max_size=24, unique_by=lambda r: r[1]
            ),
            "n": st.one_of(st.none(), st.integers(0, 26), st.integers(0, 8)),
            "d": st.one_of(
                st.just(0), dyadic(0, 20, 16), dyadic(0, 200, 4), st.integers(0, 12)
            ),
            # take the separation from the lines themselves
            "d_from": st.one_of(st.none(), st.integers(0, 23)),
            "minint": st.one_of(st.just(0), st.integers(0, 6), st.integers(0, 3000)),
            "lo": st.one_of(st.just(3000.0), dyadic(3400, 4005)),
            "hi": st.one_of(st.just(9000.0), dyadic(4005, 6000)),
            "vacuum": st.booleans(),
            "cond": air(),
            "req": st.lists(
                st.integers(0, 2), min_size=1, max_size=3, unique=True
            ),
            "entry": st.sampled_from(["load", "load", "atlas", "add", "addn"]),
            "npd": st.booleans(),
        }
    )


def check_one(rec, rows, case, got, n, d, what):
    """got: (elements, wavelengths, intensities) of one selection."""
    vac, c = case["vacuum"], case["cond"]

    def conv(w):
        if vac:
            return w
        return edlen.vac_to_air(
            w, c["temperature"], c["pressure"], c["relative_humidity"]
        )

    base = sorted(
        (conv(w), e, i, w)
        for e, w, i in rows
        if case["lo"] <= conv(w) <= case["hi"] and i >= case["minint"]
    )
    bright = base
    free = False
    if n is not None and n < len(base):
        ints = sorted((r[2] for r in base), reverse=True)
        cut = ints[n - 1] if n else np.inf
        bright = [r for r in base if r[2] >= cut]
        free = len(bright) > n
    if free and d > 0:
        rec.label("ambiguous brightness with separation, skipped")
        return None
    el, wl, il = [list(x) for x in got]
    require(len(el) == len(wl) == len(il), "%s: lengths differ", what)
    g = [(float(w), str(e), float(i)) for w, e, i in zip(wl, el, il)]
    require(
        all(a[0] < b[0] for a, b in zip(g, g[1:])),
        "%s: not in ascending wavelength %s",
        what,
        g,
    )
    tol = 0.0 if vac else 1e-6
    if free:
        require(len(g) == n, "%s: %d lines instead of %d", what, len(g), n)
        must = [r for r in bright if r[2] > cut]
        pool = bright
    else:
        waves = [r[0] for r in bright]
        if not vac:
            # near equality the medium decides
            for a, b in zip(waves, waves[1:]):
                if d > 0 and abs((b - a) / d - 1) < 1e-3:
                    rec.label("separation near the limit in air, skipped")
                    return None
        keep = separated(waves, d) if d > 0 else range(len(waves))
        must = pool = [bright[k] for k in keep]
        require(
            len(g) == len(must),
            "%s: %d lines %s, expected %d %s (n=%s, d=%s)",
            what,
            len(g),
            g[:10],
            len(must),
            must[:10],
            n,
            d,
        )

    def same(a, r):
        return (
            abs(a[0] - r[0]) <= tol
            and a[1].lower() == r[1].lower()
            and a[2] == r[2]
        )

    for a in g:
        require(
            any(same(a, r) for r in pool),
            "%s: line %s should not be there (n=%s, d=%s)",
            what,
            a,
            n,
            d,
        )
    for r in must:
        require(
            any(same(a, r) for a in g),
            "%s: line %s is missing (n=%s, d=%s)",
            what,
            r,
            n,
            d,
        )
    return len(base), len(bright), len(g)


def check(case, rec):
    rows = [(SYMS[k], w, i) for k, w, i in case["rows"]]
    if case["d_from"] is not None and len(rows) > 1:
        ws = sorted(r[1] for r in rows)
        k = case["d_from"] % (len(ws) - 1)
        case["d"] = ws[k + 1] - ws[k]
    d = case["d"]
    n = case["n"]
    if case["lo"] >= case["hi"]:
        return
    if not case["vacuum"]:
        c = case["cond"]
        for e, w, i in rows:
            x = edlen.vac_to_air(
                w, c["temperature"], c["pressure"], c["relative_humidity"]
            )
            if min(abs(x - case["lo"]), abs(x - case["hi"])) < 0.005:
                rec.label("line at the edge of an air window, skipped")
                return
    path = os.path.join(rec.tmpdir(), "lines.csv")
    write_linelist(path, rows)
    kw = dict(
        min_atlas_wavelength=case["lo"],
        max_atlas_wavelength=case["hi"],
        min_intensity=case["minint"],
        min_distance=np.float64(d) if case["npd"] else d,
        vacuum=case["vacuum"],
        linelist=path,
        **case["cond"]
    )
    req = [SYMS[k] for k in case["req"]]
    if case["entry"] == "load":
        sub = [r for r in rows if r[0] in req]
        if n is None:
            got = load_calibration_lines(req, **kw)
        else:
            got = load_calibration_lines(req, brightest_n_lines=n, **kw)
        res = [check_one(rec, sub, case, got, n, d, "load")]
    else:
        # an atlas selects for each element separately
        if case["entry"] == "atlas":
            a = Atlas(req, **kw)
            n = None
        else:
            a = Atlas()
            if case["entry"] == "addn" and n is not None:
                a.add(req, brightest_n_lines=n, **kw)
            else:
                n = None
                a.add(req, **kw)
        res = []
        for e in req:
            sub = [r for r in rows if r[0] == e]
            idx = [k for k, x in enumerate(a.get_elements()) if str(x) == e]
            got = (
                [a.get_elements()[k] for k in idx],
                [a.get_lines()[k] for k in idx],
                [a.get_intensities()[k] for k in idx],
            )
            res.append(
                check_one(rec, sub, case, got, n, d, "Atlas, element " + e)
            )
        require(
            set(map(str, a.get_elements())) <= set(req), "foreign elements"
        )
    res = [r for r in res if r]
    rec.label("brightness drops lines", any(b < a for a, b, _ in res))
    rec.label("separation drops lines", any(c < b for _, b, c in res))
    rec.label(
        "both drop lines", any(b < a and c < b for a, b, c in res)
    )
    rec.nontrivial(any(0 < c < a for a, b, c in res))


def big_case():
    return st.fixed_dictionaries(
        {
            "el": st.sampled_from(
                ["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cd", "Cu"]
            ),
            "lo": dyadic(2500, 6000, 4),
            "width": dyadic(500, 6000, 4),
            "n": st.one_of(st.none(), st.integers(1, 200)),
            "d": st.one_of(st.just(0), st.integers(0, 40), dyadic(0, 40)),
            "minint": st.integers(0, 300),
            "vacuum": st.just(True),
            "cond": air(),
        }
    )


def check_big(case, rec):
    """The built-in list."""
    case["hi"] = case["lo"] + case["width"]
    rows = [r for r in builtin() if r[0] == case["el"]]
    kw = dict(
        min_atlas_wavelength=case["lo"],
        max_atlas_wavelength=case["hi"],
        min_intensity=case["minint"],
        min_distance=case["d"],
        vacuum=True,
    )
    ws = sorted(
        w
        for e, w, i in rows
        if case["lo"] <= w <= case["hi"] and i >= case["minint"]
    )
    if case["d"] and any(
        abs(abs(a - b) - case["d"]) < 1e-9
        for j, a in enumerate(ws)
        for b in ws[j + 1 : j + 60]
    ):
        return
    if len(ws) > 350 or len(set(ws)) < len(ws):
        rec.label("too many or coincident lines, skipped")
        return
    got = load_calibration_lines(
        [case["el"]], brightest_n_lines=case["n"], **kw
    )
    r = check_one(rec, rows, case, got, case["n"], case["d"], "built-in")
    rec.nontrivial(bool(r) and 0 < r[2] < r[0])


def sep_case():
    return st.fixed_dictionaries(
        {
            "waves": st.lists(
                st.one_of(dyadic(0, 60), dyadic(3000, 9000)),
                max_size=20,
                unique=True,
            ),
            "d": st.one_of(st.just(0), dyadic(0, 20), dyadic(0, 3000, 4)),
            "d_from": st.one_of(st.none(), st.integers(0, 18)),
            "hair": st.sampled_from([0, 0, 1, -1]),
            "kind": st.sampled_from(["array", "array", "list", "ints", "int list"]),
        }
    )


def check_sep(case, rec):
    w = sorted(case["waves"])
    if "int" in case["kind"]:
        w = sorted(set(int(v) for v in w))
    d = case["d"]
    if case["d_from"] is not None and len(w) > 1:
        k = case["d_from"] % (len(w) - 1)
        d = w[k + 1] - w[k]
        d = max(0.0, d + case["hair"] / 2.0**16)
    arr = np.array(w, dtype=float)
    before = arr.copy()
    if "int" in case["kind"]:
        arr = arr.astype(int)
    if "list" in case["kind"]:
        arr = arr.tolist()
    mask = np.asarray(filter_separation(arr, min_separation=d))
    require(np.array_equal(arr, before), "filter_separation changed its input")
    require(mask.shape == (len(w),), "mask of shape %s", mask.shape)
    got = [k for k, m in enumerate(mask) if m]
    want = separated(w, d)
    require(
        got == want, "separation %s of %s keeps %s, not %s", d, w, got, want
    )
    rec.nontrivial(0 < len(want) < len(w))
    rec.label("fewer than two lines", len(w) < 2)


TESTS = [
    Test(
        "selection",
        case_strategy,
        check,
        quick=6000,
        thorough=80000,
        shards=8,
        rule="the filters keep some of the lines in the window and drop others",
    ),
    Test(
        "builtin",
        big_case,
        check_big,
        quick=320,
        thorough=5000,
        shards=8,
        rule="the filters keep some of the lines in the window and drop others",
    ),
    Test(
        "filter_separation",
        sep_case,
        check_sep,
        quick=4000,
        thorough=60000,
        shards=2,
        rule="some lines are kept and some removed",
    ),
]
