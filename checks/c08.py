"""C08 Saving and loading a Hough transform loses nothing."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from rascal.calibrator import Calibrator
from rascal.houghtransform import HoughTransform
from vlib import problem as P
from vlib.core import Test, Violation, require
from vlib.gen import dyadic, fl

FIELDS = ("hough_points", "hist", "xedges", "yedges")
LIMITS = ("min_slope", "max_slope", "min_intercept", "max_intercept")
FORMATS = [
    ("npy", "+"),
    ("json", "+"),
    ("npy+json", "+"),
    ("json+npy", "+"),
    ("npy,json", ","),
    ("json npy", " "),
    ("npy", ";"),
    ("json--npy", "--"),
    ("npy+json+npy", "+"),
]

ASSUMPTIONS = [
    "file names are given without the extension when saving",
    "equally voted bins may be ranked in any order",
]


def snapshot(ht):
    out = {}
    for f in FIELDS:
        v = getattr(ht, f)
        out[f] = None if v is None else np.array(v, dtype=float)
    for f in LIMITS:
        v = getattr(ht, f)
        out[f] = None if v is None else float(v)
    v = ht.hough_lines
    out["lines"] = (
        None if v is None else [(float(a), float(b)) for a, b in v]
    )
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.size == 0 and b.size == 0:
        return True
    return a.shape == b.shape and np.array_equal(a, b)


def compare(want, got, what):
    for f in FIELDS + LIMITS:
        require(
            same(want[f], got[f]),
            "%s: %s is %s, expected %s",
            what,
            f,
            got[f],
            want[f],
        )
    w, g = want["lines"], got["lines"]
    require((w is None) == (g is None), "%s: lines %s, expected %s", what, g, w)
    if w is None:
        return
    require(sorted(w) == sorted(g), "%s: other candidate lines", what)
    # the same order, up to ties
    if w != g:
        xe, ye, h = want["xedges"], want["yedges"], want["hist"]

        def votes(ls):
            out = []
            for m, c in ls:
                i = min(max(np.searchsorted(xe, m, "right") - 1, 0), h.shape[0] - 1)
                j = min(max(np.searchsorted(ye, c, "right") - 1, 0), h.shape[1] - 1)
                out.append(h[i, j])
            return out

        require(votes(w) == votes(g), "%s: candidate lines ranked otherwise", what)


def state():
    return st.fixed_dictionaries(
        {
            "level": st.sampled_from(
                ["binned", "binned", "binned", "points", "limits", "fresh"]
            ),
            "how": st.sampled_from(["direct", "grid", "brute"]),
            "points": st.lists(
                st.tuples(
                    st.one_of(fl(0.1, 9), dyadic(0, 8)),
                    st.one_of(fl(1000, 9000), dyadic(2000, 2008)),
                ),
                min_size=1,
                max_size=25,
            ),
            "lim": st.tuples(
                st.one_of(fl(-2, 2), st.integers(-2, 2)),
                st.one_of(fl(0.5, 9), st.integers(1, 9)),
                st.one_of(fl(-9000, 0), st.integers(-9000, 0)),
                st.one_of(fl(100, 20000), st.integers(100, 20000)),
            ),
            "npscalars": st.sampled_from(["no", "f8", "f4", "i8"]),
            "xbins": st.integers(1, 9),
            "ybins": st.integers(1, 9),
        }
    )


def build(s):
    ht = HoughTransform()
    if s["level"] == "fresh":
        return ht
    a, b, c, d = s["lim"]
    lim = [a, a + b, c, c + d]
    if s["npscalars"] == "f8":
        lim = [np.float64(v) for v in lim]
    elif s["npscalars"] == "f4":
        lim = [np.float32(v) for v in lim]
    elif s["npscalars"] == "i8":
        lim = [np.int64(np.floor(v)) for v in lim]
        if lim[1] <= lim[0]:
            lim[1] = lim[0] + 1
    ht.set_constraints(*lim)
    if s["level"] == "limits":
        return ht
    pts = np.array(s["points"], dtype=float)
    if s["how"] == "direct":
        ht.hough_points = pts
    elif s["how"] == "grid":
        ht.generate_hough_points(pts[:, 0] * 100, pts[:, 1], 11)
    else:
        if len(pts) < 2:
            ht.hough_points = pts
        else:
            with np.errstate(all="ignore"):
                ht.generate_hough_points_brute_force(pts[:, 0] * 100, pts[:, 1])
    if s["level"] == "binned" and len(ht.hough_points) > 0:
        ht.bin_hough_points(s["xbins"], s["ybins"])
    return ht


def disk_case():
    return st.fixed_dictionaries(
        {
            "state": state(),
            "fmt": st.integers(0, len(FORMATS) - 1),
            "name": st.sampled_from([
                    "h",
                    "out.dir",
                    "a b",
                    "sub/h",
                    "h+1",
                    "hough.v2",
                    "json",
                    "npy",
                    "arc_json_1",
                    "my_npy.2",
                ]
            ),
            "default_name": st.booleans(),
            "ext": st.booleans(),
            "via_save": st.sampled_from(["transform", "calibrator"]),
            "via_load": st.sampled_from(["transform", "calibrator"]),
            "target": st.one_of(st.none(), state()),
            "overwrite": st.one_of(st.none(), state()),
            "later": st.lists(
                st.sampled_from(["bin", "add", "save", "merge_into", "limits"]),
                max_size=4,
            ),
        }
    )


def calibrator_with(ht):
    c = Calibrator([100.0, 300.0, 700.0])
    c.ht = ht
    return c


def files(d):
    out = set()
    for r, _, fs in os.walk(d):
        for f in fs:
            out.add(os.path.relpath(os.path.join(r, f), d))
    return out


def check_disk(case, rec):
    d = rec.tmpdir()
    os.chdir(d)
    os.makedirs("sub")
    ht = build(case["state"])
    want = snapshot(ht)
    fmt, delim = FORMATS[case["fmt"]]
    kinds = sorted(set(fmt.split(delim)))
    kw = dict(fileformat=fmt)
    if delim != "+":
        kw["delimiter"] = delim
    name = "hough_transform" if case["default_name"] else case["name"]
    if not case["default_name"]:
        kw["filename"] = name
    if case["overwrite"] is not None:
        build(case["overwrite"]).save(**kw)
    saver = ht if case["via_save"] == "transform" else calibrator_with(ht)
    if case["via_save"] == "transform":
        saver.save(**kw)
    else:
        saver.save_hough_transform(**kw)
    require(
        files(d) == {name + "." + k for k in kinds},
        "files written for %s: %s",
        fmt,
        files(d),
    )
    compare(want, snapshot(ht), "the saved transform itself")
    for k in kinds:
        tgt = HoughTransform() if case["target"] is None else build(case["target"])
        lkw = dict(filetype=k)
        if k == "npy" and case["ext"]:
            lkw = {}
        if not case["default_name"]:
            lkw["filename"] = name + ("." + k if case["ext"] else "")
        if case["via_load"] == "transform":
            tgt.load(**lkw)
        else:
            c = calibrator_with(tgt)
            c.load_hough_transform(**lkw)
            tgt = c.ht
            require(
                same(c.hough_points, want["hough_points"]),
                "hough_points of the calibrator after loading %s",
                k,
            )
            hl = c.hough_lines
            require(
                (hl is None) == (want["lines"] is None)
                and (hl is None or len(hl) == len(want["lines"])),
                "hough_lines of the calibrator after loading %s",
                k,
            )
        compare(want, snapshot(tgt), "after loading %s" % k)
        # everything that can be done with a computed one can be done with it
        other = build(case["state"])
        for op in case["later"]:
            for t in (tgt, other):
                has = t.hough_points is not None
                if op == "bin" and has and len(t.hough_points) > 0:
                    t.bin_hough_points(4, 3)
                elif op == "add" and has:
                    t.add_hough_points(np.array([[1.5, 2500.0], [2.5, 4000.0]]))
                elif op == "merge_into" and has:
                    base = HoughTransform()
                    base.hough_points = np.array([[1.0, 3000.0]])
                    base.add_hough_points(t)
                    require(
                        len(base.hough_points) == len(t.hough_points) + 1,
                        "merged %d points into 1: %d",
                        len(t.hough_points),
                        len(base.hough_points),
                    )
                elif op == "save":
                    t.save("again", fileformat="npy+json")
                    t.load("again", filetype="json")
                elif op == "limits" and t.min_slope is not None:
                    t.set_constraints(0.25, 8.0, -9000.0, 90000.0)
                    t.generate_hough_points(
                        np.array([1.0, 2.0, 3.0]), np.array([10.0, 30.0, 20.0]), 5
                    )
            compare(snapshot(other), snapshot(tgt), "%s of the loaded %s" % (op, k))
    rec.nontrivial(want["hist"] is not None and len(want["hough_points"]) > 1)
    rec.label(case["state"]["level"])
    rec.label("formats " + "+".join(kinds))


def memory_case():
    return st.fixed_dictionaries(
        {
            "state": state(),
            "fmt": st.integers(0, len(FORMATS) - 1),
            "via": st.sampled_from(["transform", "calibrator"]),
            "unknown": st.sampled_from(["npz", "csv", "NPY", "txt", ""]),
        }
    )


def check_memory(case, rec):
    d = rec.tmpdir()
    os.chdir(d)
    ht = build(case["state"])
    want = snapshot(ht)
    fmt, delim = FORMATS[case["fmt"]]
    kinds = set(fmt.split(delim))
    f = (
        ht.save
        if case["via"] == "transform"
        else calibrator_with(ht).save_hough_transform
    )
    out = f(fileformat=fmt, delimiter=delim, to_disk=False)
    require(files(d) == set(), "files were written: %s", files(d))
    require(out is not None, "nothing was returned")
    if kinds == {"npy", "json"}:
        require(
            isinstance(out, tuple) and len(out) == 2, "returned %s", type(out)
        )
        npy, js = out
    elif kinds == {"npy"}:
        npy, js = out, None
    else:
        npy, js = None, out
    if npy is not None:
        require(len(npy) == 8, "%d items returned", len(npy))
        for k, fld in enumerate(FIELDS):
            require(same(npy[k], want[fld]), "%s in memory: %s", fld, npy[k])
        for k, fld in enumerate(LIMITS):
            require(
                same(np.ravel(npy[4 + k])[0], want[fld]),
                "%s in memory: %s, expected %s",
                fld,
                npy[4 + k],
                want[fld],
            )
    if js is not None:
        js = json.loads(json.dumps(js))
        for fld in FIELDS + LIMITS:
            require(
                same(js[fld], want[fld]), "%s in memory: %s", fld, js[fld]
            )
    # and the same as the files
    compare(want, snapshot(ht), "the transform after saving in memory")
    ht.save("x", fileformat=fmt, delimiter=delim)
    before = snapshot(ht)
    for t in (ht, calibrator_with(ht)):
        g = t.load if t is ht else t.load_hough_transform
        try:
            g("x", filetype=case["unknown"])
        except ValueError:
            pass
        else:
            require(False, "filetype %r was accepted", case["unknown"])
    compare(before, snapshot(ht), "after the rejected load")
    rec.nontrivial(want["hist"] is not None and len(want["hough_points"]) > 1)


def fit_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(),
            "s": P.settings(max_tries=(5, 15), deg=(1, 3)),
            "other": st.booleans(),
            "kind": st.sampled_from(["npy", "json"]),
            "slopes2": st.sampled_from([40, 77]),
        }
    )


def check_fit(case, rec):
    """A fit with a loaded transform is the fit that computed it."""
    os.chdir(rec.tmpdir())
    p = P.Problem(case["p"])
    s = case["s"]
    if len(p.peaks) < 5 or len(p.lines) < 5:
        return
    a = p.calibrator(s, seed=False)
    a.do_hough_transform()
    a.save_hough_transform("t", fileformat=case["kind"])
    s2 = dict(s)
    if case["other"]:
        # the calibrator itself would compute something else
        s2["num_slopes"] = case["slopes2"]
        s2["xbins"] = s2["ybins"] = 11
    b = p.calibrator(s2, seed=False)
    b.load_hough_transform("t", filetype=case["kind"])
    loaded = snapshot(b.ht)
    res = []
    for c in (a, b):
        np.random.seed(s["seed"])
        r = P.fit_or_none(c, s)
        res.append(None if r is None else P.plain(r))
    require(
        res[0] == res[1],
        "the fit with the loaded transform differs: %s / %s",
        res[0],
        res[1],
    )
    compare(loaded, snapshot(b.ht), "the transform after the fit")
    require(
        same(b.hough_points, loaded["hough_points"])
        and [tuple(map(float, l)) for l in b.hough_lines] == loaded["lines"],
        "the fit replaced the loaded transform",
    )
    compare(loaded, snapshot(a.ht), "the computed transform after the fit")
    rec.nontrivial(res[0] is not None)
    rec.label("other settings", case["other"])


TESTS = [
    Test(
        "disk",
        disk_case,
        check_disk,
        quick=3000,
        thorough=60000,
        shards=8,
        rule="a binned transform with several points",
    ),
    Test(
        "memory",
        memory_case,
        check_memory,
        quick=1500,
        thorough=30000,
        shards=8,
        rule="a binned transform with several points",
    ),
    Test(
        "fit",
        fit_case,
        check_fit,
        quick=240,
        thorough=4000,
        shards=8,
        rule="both fits succeed",
    ),
]
