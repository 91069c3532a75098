"""C03 An atlas is an ordered collection that every edit changes as told."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from vlib.core import Test, require
from vlib.gen import SYMS, dyadic, write_linelist

ASSUMPTIONS = [
    "user lines are finite; at least one line is added per call",
]

# a small line list, exact in binary: (element, wavelength, intensity)
FILE = [
    ("He", 3889.0, 5.0),
    ("Ne", 5852.5, 20.0),
    ("He", 4471.5, 200.0),
    ("Ne", 6402.25, 2000.0),
    ("He", 5875.625, 500.0),
    ("Ar", 4158.5, 40.0),
    ("He", 4471.75, 25.0),
    ("Ar", 4158.625, 10.0),
    ("Ne", 5881.875, 11.0),
]

wave = st.one_of(dyadic(3000, 9000), dyadic(4000, 4010), st.integers(4000, 4020))
inten = st.one_of(st.integers(0, 50), dyadic(0, 1000))


def ops():
    user = st.fixed_dictionaries(
        {
            "op": st.just("user"),
            "lines": st.lists(
                st.tuples(st.integers(0, 5), wave, inten), min_size=1, max_size=5
            ),
            "ekind": st.sampled_from(["list", "array", "tuple", "str"]),
            "wkind": st.sampled_from(
                ["list", "array", "tuple", "scalar", "npscalar"]
            ),
            "ikind": st.sampled_from(
                ["none", "list", "array", "tuple", "scalar"]
            ),
            # now and then many lines
            "rep": st.sampled_from([1] * 12 + [3, 30, 300]),
        }
    )
    remove = st.fixed_dictionaries(
        {
            "op": st.just("remove"),
            "w": wave,
            # aim at an existing line, the tolerance just reaching it or not
            "aim": st.one_of(
                st.integers(0, 40), st.integers(0, 40), st.none()
            ),
            "off": st.one_of(st.just(0.0), dyadic(-20, 20), dyadic(-2, 2)),
            "tol": st.one_of(
                st.none(), dyadic(0, 30), dyadic(0, 30), st.integers(0, 3000)
            ),
            "exact": st.integers(0, 3).map(lambda i: i == 3),
            "hair": st.sampled_from([0, 0, 1, -1]),
            "np": st.booleans(),
        }
    )
    clear = st.fixed_dictionaries({"op": st.just("clear")})
    add = st.fixed_dictionaries(
        {
            "op": st.just("add"),
            "els": st.lists(
                st.sampled_from(["He", "Ne", "Ar", "Zz"]),
                min_size=1,
                max_size=3,
                unique=True,
            ),
            "minint": st.sampled_from([0, 10, 20, 100, 10000]),
            "win": st.sampled_from([(3000, 9000), (4471.5, 6000.0), (100, 200)]),
            "str": st.booleans(),
        }
    )
    bad = st.fixed_dictionaries(
        {
            "op": st.just("bad"),
            "kind": st.sampled_from(
                ["len", "len", "len", "nan_lo", "inf_hi", "-inf_lo", "nan_hi"]
            ),
            # numbers of elements, wavelengths and intensities (-1: none)
            "n": st.tuples(
                st.integers(0, 3), st.integers(0, 3), st.integers(-1, 3)
            )
            .map(list)
            .filter(lambda v: v[0] != v[1] or v[2] not in (-1, v[0])),
            "scalar": st.booleans(),
            "arr": st.booleans(),
        }
    )
    alias = st.fixed_dictionaries(
        {
            "op": st.just("mutate_results"),
            "how": st.sampled_from(["clear", "reverse", "append"]),
        }
    )
    one = st.one_of(
        user, user, user, add, remove, remove, remove, remove, bad, alias, clear
    )
    return st.fixed_dictionaries(
        {
            "start": st.lists(user, min_size=2, max_size=2),
            "ops": st.lists(
                st.tuples(
                    st.sampled_from([0, 0, 0, 1]),
                    st.booleans(),
                    one,
                    # what is looked at afterwards: looking may matter
                    st.sampled_from(LOOKS),
                ),
                min_size=1,
                max_size=14,
            ),
        }
    )


LOOKS = ["all", "all", "all", "none", "none", "none", "lines", "elements",
         "intensities", "len"]


def shape(v, kind):
    if kind == "array":
        return np.array(v)
    if kind == "tuple":
        return tuple(v)
    return list(v)


def observe(a):
    return list(
        zip(
            [float(w) for w in a.get_lines()],
            [str(e) for e in a.get_elements()],
            [float(i) for i in a.get_intensities()],
        )
    )


def check_atlas(a, model, what, look="all"):
    if look == "none":
        return
    if look != "all":
        want = {
            "lines": [m[0] for m in model],
            "elements": [m[1] for m in model],
            "intensities": [m[2] for m in model],
            "len": len(model),
        }[look]
        got = len(a) if look == "len" else list(getattr(a, "get_" + look)())
        require(got == want, "%s: %s is %s, expected %s", what, look, got, want)
        return
    n = (
        len(a),
        len(a.get_lines()),
        len(a.get_elements()),
        len(a.get_intensities()),
    )
    require(
        n == (len(model),) * 4,
        "%s: lengths (len, lines, elements, intensities) %s, expected %d",
        what,
        n,
        len(model),
    )
    got = observe(a)
    require(
        got == model, "%s: atlas holds %s, expected %s", what, got[:12], model[:12]
    )


def apply(a, cal, model, op, path):
    """Applies an op to the atlas (through the calibrator if cal is given) and
    to the model."""
    k = op["op"]
    if k == "user":
        lines = [
            (e, w + 16.0 * ((7 * r) % op["rep"]), i)
            for r in range(op["rep"])
            for e, w, i in op["lines"]
        ]
        if op["wkind"] in ("scalar", "npscalar"):
            lines = lines[:1]
        els = [SYMS[e] for e, _, _ in lines]
        ws = [w for _, w, _ in lines]
        ints = [i for _, _, i in lines]
        e = shape(els, op["ekind"])
        if op["ekind"] == "str" and len(els) == 1:
            e = els[0]
        w = shape(ws, op["wkind"])
        if op["wkind"] == "scalar":
            w = ws[0]
        elif op["wkind"] == "npscalar":
            w = np.float64(ws[0])
        i = shape(ints, op["ikind"])
        if op["ikind"] == "none":
            i, ints = None, [0] * len(ints)
        elif op["ikind"] == "scalar":
            i = ints[0] if len(ints) == 1 else list(ints)
        tgt = cal if cal is not None else a
        tgt.add_user_atlas(e, w, i)
        # what the caller does to its lists later is of no consequence
        for x in (e, w, i):
            if isinstance(x, list):
                x.append(x[0])
                x.reverse()
            elif isinstance(x, np.ndarray) and x.dtype.kind == "f":
                x += 1.0
        model += [
            (float(x), y, float(z)) for x, y, z in zip(ws, els, ints)
        ]
    elif k == "remove":
        w = op["w"]
        if op["aim"] is not None and model:
            w = model[op["aim"] % len(model)][0] + op["off"]
        tol = op["tol"]
        if op["exact"]:
            # at the edge, or a hair's breadth from it
            tol = max(0.0, abs(op["off"]) + op["hair"] / 2.0**22)
            exact = all(
                (float(v) * 2**24).is_integer() for v in [w] + [r[0] for r in model]
            )
            while not exact and any(
                abs(abs(r[0] - w) - tol) < 1e-9 for r in model
            ):
                # rounding would decide
                tol += 1e-3
        tgt = cal if cal is not None else a
        if op["np"]:
            w = np.float64(w)
        if tol is None:
            tgt.remove_atlas_lines_range(w)
            tol = 10
        else:
            tgt.remove_atlas_lines_range(w, tol)
        n = len(model)
        model[:] = [r for r in model if not abs(r[0] - w) < tol]
        return len(model) < n
    elif k == "clear":
        if cal is not None:
            cal.clear_atlas()
        else:
            a.clear()
        model[:] = []
    elif k == "add":
        els = op["els"]
        a.add(
            els[0] if op["str"] and len(els) == 1 else list(els),
            min_atlas_wavelength=op["win"][0],
            max_atlas_wavelength=op["win"][1],
            min_intensity=op["minint"],
            min_distance=0,
            vacuum=True,
            linelist=path,
        )
        for e in els:
            model += sorted(
                (w, x, i)
                for x, w, i in FILE
                if x == e
                and op["win"][0] <= w <= op["win"][1]
                and i >= op["minint"]
            )
    elif k == "bad":
        ne, nw, ni = op["n"]
        mk = np.array if op["arr"] else list

        def values(v, n):
            return v if n == 1 and op["scalar"] else mk([v] * n)

        try:
            if op["kind"] == "len":
                kw = {} if ni < 0 else {"intensities": values(1.0, ni)}
                a.add_user_atlas(
                    "X" if ne == 1 and op["scalar"] else ["X"] * ne,
                    values(5000.0, nw),
                    **kw
                )
            else:
                v = {
                    "nan_lo": (np.nan, 9000.0),
                    "-inf_lo": (-np.inf, 9000.0),
                    "inf_hi": (3000.0, np.inf),
                    "nan_hi": (3000.0, np.nan),
                }[op["kind"]]
                a.add(
                    ["He", "Ne"],
                    min_atlas_wavelength=v[0],
                    max_atlas_wavelength=v[1],
                    min_intensity=0,
                    min_distance=0,
                    linelist=path,
                )
        except (AssertionError, ValueError):
            pass
        else:
            require(False, "an invalid addition (%s) was accepted", op["kind"])
    elif k == "mutate_results":
        for lst in (a.get_lines(), a.get_elements(), a.get_intensities()):
            {
                "clear": lst.clear,
                "reverse": lst.reverse,
                "append": lambda: lst.append(0),
            }[op["how"]]()


def check(case, rec):
    path = os.path.join(rec.tmpdir(), "l.csv")
    write_linelist(path, FILE)
    atl = [Atlas(), Atlas()]
    cals = []
    for a in atl:
        c = Calibrator([100.0, 200.0, 300.0])
        c.set_atlas(a)
        cals.append(c)
    models = [[], []]
    hit = 0
    for a, model, op in zip(atl, models, case["start"]):
        apply(a, None, model, op, path)
    end = [(0, False, {"op": "nothing"}, "all")]
    for step, (which, via, op, look) in enumerate(list(case["ops"]) + end):
        a, model = atl[which], models[which]
        cal = cals[which] if via else None
        r = apply(a, cal, model, op, path)
        hit += bool(r)
        for j in (0, 1):
            check_atlas(
                atl[j],
                models[j],
                "after step %d (%s on atlas %d), atlas %d"
                % (step, op["op"], which, j),
                look,
            )
            require(
                look != "all"
                or cals[j].atlas is atl[j]
                or observe(cals[j].atlas) == models[j],
                "the calibrator lost its atlas",
            )
        rec.label(op["op"] + (" via calibrator" if via else ""))
    # the printed listing
    for a, model in zip(atl, models):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            a.list()
        lines = out.getvalue().splitlines()
        require(
            len(lines) == len(model),
            "list() prints %d rows for %d lines",
            len(lines),
            len(model),
        )
        for row, (w, e, i) in zip(lines, model):
            nums = []
            for tok in row.split():
                try:
                    nums.append(float(tok))
                except ValueError:
                    pass
            require(
                e in row and w in nums and i in nums,
                "list() prints %r for %s",
                row,
                (w, e, i),
            )
    rec.nontrivial(hit > 0 and any(models))
    rec.label("removed some lines", hit)


def window_case():
    return st.fixed_dictionaries(
        {
            "user": st.lists(
                st.tuples(st.integers(0, 5), wave, inten), min_size=0, max_size=6
            ),
            "vacuum": st.booleans(),
            "split": st.integers(0, 6),
            "tol": dyadic(0, 200),
            "at": wave,
        }
    )


def check_split(case, rec):
    """Adding lines one at a time, in two portions, or at once is the same;
    removing a range from the parts removes it from the whole."""
    rows = case["user"]
    if not rows:
        return
    k = case["split"] % (len(rows) + 1)
    atl = [Atlas(), Atlas(), Atlas()]
    parts = [[rows], [rows[:k], rows[k:]], [[r] for r in rows]]
    for a, ps in zip(atl, parts):
        for p in ps:
            if p:
                a.add_user_atlas(
                    [SYMS[e] for e, _, _ in p],
                    [w for _, w, _ in p],
                    [i for _, _, i in p],
                    vacuum=case["vacuum"],
                )
    o = [observe(a) for a in atl]
    for other in o[1:]:
        require(
            len(other) == len(o[0])
            and all(
                abs(x[0] - y[0]) < 1e-8 and x[1:] == y[1:]
                for x, y in zip(o[0], other)
            ),
            "adding in portions gives %s, at once %s",
            other,
            o[0],
        )
    for a in atl:
        a.remove_atlas_lines_range(case["at"], case["tol"])
    left = [r for r in o[0] if not abs(r[0] - case["at"]) < case["tol"]]
    require(observe(atl[0]) == left, "%s left of %s", observe(atl[0]), o[0])
    rec.nontrivial(len(rows) > 1 and 0 < len(left) < len(rows))


TESTS = [
    Test(
        "history",
        ops,
        check,
        quick=3000,
        thorough=60000,
        shards=8,
        rule="a removal deleted some lines and lines remain",
    ),
    Test(
        "portions",
        window_case,
        check_split,
        quick=1500,
        thorough=30000,
        shards=2,
        rule="several lines, some but not all removed",
    ),
]
