"""C07 Hough binning conserves every vote and ranks bins by votes."""
import numpy as np
from hypothesis import strategies as st

from rascal.houghtransform import HoughTransform
from vlib.core import Test, Violation, require
from vlib.gen import dyadic, fl

ASSUMPTIONS = [
    "a point within rounding of an inner bin edge may be counted on either "
    "side, except where all edges are exact in binary",
]


def direct_count(v, n):
    """Bin number(s) of every value: a list of sets."""
    lo, hi = min(v), max(v)
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    w = (hi - lo) / n
    out = []
    for a in v:
        f = (a - lo) / w
        k = int(np.floor(f))
        s = {min(max(k, 0), n - 1)}
        r = round(f)
        tol = 1e-9 * n * max(1.0, (abs(lo) + abs(hi)) / (hi - lo))
        if abs(f - r) < tol and 0 < r < n:
            s |= {r - 1, r}
        out.append(s)
    return out, lo, hi


def hp_strategy():
    exact = st.lists(
        st.tuples(dyadic(0, 8, 8), dyadic(0, 64, 8)), min_size=1, max_size=40
    )
    loose = st.lists(
        st.tuples(fl(0.1, 10), fl(1000, 9000)), min_size=1, max_size=40
    )
    cluster = st.lists(
        st.tuples(
            st.sampled_from([1.0, 1.5, 2.0, 4.0]),
            st.sampled_from([3000.0, 3100.0, 3500.0]),
        ),
        min_size=1,
        max_size=40,
    )
    return st.one_of(exact, loose, cluster)


def bin_case():
    return st.fixed_dictionaries(
        {
            "points": hp_strategy(),
            "xbins": st.one_of(st.integers(1, 12), st.integers(1, 60)),
            "ybins": st.one_of(st.integers(1, 12), st.integers(1, 60)),
            "xbins2": st.integers(1, 5),
            "again": st.booleans(),
            "via": st.sampled_from(["points", "generate"]),
            # some points many times: bins with many votes
            "heavy": st.lists(
                st.tuples(
                    st.integers(0, 60), st.sampled_from([40, 200, 300, 1100])
                ),
                max_size=3,
            ),
        }
    )


def verify(ht, pts, xbins, ybins):
    hist = np.asarray(ht.hist)
    require(
        hist.shape == (xbins, ybins),
        "histogram of shape %s for %d x %d bins",
        hist.shape,
        xbins,
        ybins,
    )
    require(
        float(hist.sum()) == len(pts),
        "%s votes counted for %d points",
        hist.sum(),
        len(pts),
    )
    xe, ye = np.asarray(ht.xedges), np.asarray(ht.yedges)
    bx, xlo, xhi = direct_count([p[0] for p in pts], xbins)
    by, ylo, yhi = direct_count([p[1] for p in pts], ybins)
    for e, lo, hi, n, w in ((xe, xlo, xhi, xbins, "x"), (ye, ylo, yhi, ybins, "y")):
        require(len(e) == n + 1, "%d %s edges for %d bins", len(e), w, n)
        want = [lo + (hi - lo) * k / n for k in range(n + 1)]
        require(
            np.allclose(e, want, rtol=1e-9, atol=1e-9 * max(1, abs(hi))),
            "%s edges %s do not span %s to %s evenly",
            w,
            list(e)[:5],
            lo,
            hi,
        )
    # direct count: sure votes are a lower, possible ones an upper bound
    sure = np.zeros((xbins, ybins))
    poss = np.zeros((xbins, ybins))
    for a, b in zip(bx, by):
        if len(a) == 1 and len(b) == 1:
            sure[min(a), min(b)] += 1
        for i in a:
            for j in b:
                poss[i, j] += 1
    require(
        (hist >= sure).all() and (hist <= poss).all(),
        "the histogram differs from a direct count: %s, counted %s",
        hist.tolist(),
        sure.tolist(),
    )
    # ranking
    lines = [(float(a), float(b)) for a, b in ht.hough_lines]
    require(
        len(lines) == xbins * ybins,
        "%d candidate lines for %d bins",
        len(lines),
        xbins * ybins,
    )
    seen = set()
    votes = []
    for m, c in lines:
        i = int(np.floor((m - xlo) / (xhi - xlo) * xbins))
        j = int(np.floor((c - ylo) / (yhi - ylo) * ybins))
        require(
            0 <= i < xbins and 0 <= j < ybins,
            "candidate line %s is in no bin",
            (m, c),
        )
        cx = xlo + (xhi - xlo) * (i + 0.5) / xbins
        cy = ylo + (yhi - ylo) * (j + 0.5) / ybins
        require(
            abs(cx - m) <= 1e-6 * (xhi - xlo) + 1e-9 * abs(cx)
            and abs(cy - c) <= 1e-6 * (yhi - ylo) + 1e-9 * abs(cy),
            "candidate line %s is not the centre %s of its bin",
            (m, c),
            (cx, cy),
        )
        require((i, j) not in seen, "bin %s is ranked twice", (i, j))
        seen.add((i, j))
        votes.append(hist[i, j])
    require(
        all(a >= b for a, b in zip(votes, votes[1:])),
        "votes along the ranking %s",
        votes[:20],
    )


def wide_enough(pts):
    for k in (0, 1):
        v = [p[k] for p in pts]
        s = max(v) - min(v)
        if 0 < s < 1e-6 * max(abs(max(v)), 1e-3):
            return False
    return True


def check_bin(case, rec):
    pts = [tuple(p) for p in case["points"]]
    if not wide_enough(pts):
        return
    ht = HoughTransform()
    ht.set_constraints(0.0, 10.0, -1e9, 1e9)
    if case["via"] == "generate":
        ht.set_constraints(0.5, 3.0, -1e9, 1e9)
        ht.generate_hough_points(
            np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), 9
        )
        pts = [tuple(map(float, p)) for p in ht.hough_points]
        if not wide_enough(pts):
            return
    else:
        for k, n in case["heavy"]:
            pts += [pts[k % len(pts)]] * n
        ht.hough_points = np.array(pts, dtype=float)
    before = np.array(ht.hough_points)
    if case["again"]:
        ht.bin_hough_points(case["xbins2"], 3)
    ht.bin_hough_points(case["xbins"], case["ybins"])
    require(
        np.array_equal(before, ht.hough_points), "binning changed the points"
    )
    verify(ht, pts, case["xbins"], case["ybins"])
    rec.nontrivial(
        case["xbins"] > 1 and case["ybins"] > 1 and np.max(ht.hist) > 1
        and len(np.unique(ht.hist)) > 1
    )


def merge_case():
    one = st.fixed_dictionaries(
        {
            "points": hp_strategy(),
            "kind": st.sampled_from(
                ["array", "transform", "list", "none", "tuple", "int_array", "str"]
            ),
        }
    )
    return st.fixed_dictionaries(
        {
            "base": hp_strategy(),
            "add": st.lists(one, min_size=1, max_size=5),
            "xbins": st.integers(2, 8),
            "ybins": st.integers(2, 8),
            "bin_first": st.booleans(),
        }
    )


def check_merge(case, rec):
    ht = HoughTransform()
    ht.set_constraints(0.0, 10.0, -1e9, 1e9)
    model = [tuple(map(float, p)) for p in case["base"]]
    ht.hough_points = np.array(model)
    if case["bin_first"] and wide_enough(model):
        ht.bin_hough_points(3, 4)
    done = bad = 0
    for a in case["add"]:
        pts = [tuple(map(float, p)) for p in a["points"]]
        k = a["kind"]
        arr = np.array(pts)
        if k == "int_array":
            arr = arr.astype(int)
            pts = [tuple(map(float, p)) for p in arr]
        src = {
            "array": arr,
            "int_array": arr,
            "list": pts,
            "tuple": tuple(pts),
            "none": None,
            "str": "points",
        }.get(k)
        if k == "transform":
            src = HoughTransform()
            src.hough_points = arr
        if k in ("list", "none", "tuple", "str"):
            try:
                ht.add_hough_points(src)
            except Violation:
                raise
            except Exception:
                bad += 1
            else:
                require(False, "points from a %s were accepted", k)
        else:
            before = arr.copy()
            ht.add_hough_points(src)
            model = model + pts
            done += 1
            require(np.array_equal(arr, before), "the added points were changed")
            # the new points are copied
            arr += 1
        got = [tuple(map(float, p)) for p in ht.hough_points]
        require(
            got == model,
            "after adding a %s: %d points, expected %d; %s",
            k,
            len(got),
            len(model),
            got[-3:],
        )
    if wide_enough(model):
        ht.bin_hough_points(case["xbins"], case["ybins"])
        verify(ht, model, case["xbins"], case["ybins"])
    rec.nontrivial(done >= 1 and bad >= 1)
    rec.label("several merges", done > 1)


def large_case():
    return st.fixed_dictionaries(
        {
            "n": st.lists(st.integers(1, 30000), min_size=2, max_size=4),
            "seed": st.integers(0, 2**31),
            "kind": st.sampled_from(["array", "transform"]),
            "xbins": st.integers(2, 120),
            "ybins": st.integers(2, 120),
            "grid": st.booleans(),
        }
    )


def check_large(case, rec):
    r = np.random.RandomState(case["seed"])
    ht = HoughTransform()
    ht.set_constraints(0.0, 10.0, -1e9, 1e9)
    parts = []
    for k, n in enumerate(case["n"]):
        p = np.column_stack([r.uniform(0, 10, n), r.uniform(-500, 500, n)])
        if case["grid"]:
            p = np.round(p)
        parts.append(p.copy())
        if k == 0:
            ht.hough_points = p
            continue
        src = p
        if case["kind"] == "transform":
            src = HoughTransform()
            src.hough_points = p
        ht.add_hough_points(src)
    model = np.concatenate(parts)
    require(
        np.array_equal(np.asarray(ht.hough_points, dtype=float), model),
        "%d points are %s after merging",
        len(model),
        np.shape(ht.hough_points),
    )
    model = [tuple(v) for v in model.tolist()]
    if wide_enough(model):
        ht.bin_hough_points(case["xbins"], case["ybins"])
        verify(ht, model, case["xbins"], case["ybins"])
        rec.nontrivial(len(model) > 1000)


TESTS = [
    Test(
        "binning",
        bin_case,
        check_bin,
        quick=6000,
        thorough=150000,
        shards=8,
        rule="several bins in both directions, bins of different vote counts, "
        "one with more than one vote",
    ),
    Test(
        "merging",
        merge_case,
        check_merge,
        quick=3000,
        thorough=80000,
        shards=8,
        rule="at least one merge accepted and one rejected",
    ),
    Test(
        "large",
        large_case,
        check_large,
        quick=40,
        thorough=1200,
        shards=8,
        rule="more than a thousand points",
    ),
]
