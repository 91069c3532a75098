"""C06 The Hough transform yields exactly the admissible lines."""
import numpy as np
from hypothesis import strategies as st

from rascal.atlas import Atlas
from rascal.calibrator import Calibrator
from rascal.houghtransform import HoughTransform
from vlib.core import Test, require
from vlib.gen import dyadic, fl

ASSUMPTIONS = [
    "a line whose intercept is within rounding (1e-9 relative) of a limit may "
    "be in or out, except where all numbers are exact in binary",
    "for the brute-force variant the pixels of the points may coincide, which "
    "gives no line",
]


def make_ht(lim):
    ht = HoughTransform()
    ht.set_constraints(*lim)
    return ht


def match(got, sure, maybe, what, tol):
    """Multiset comparison: every sure line is in got, everything in got is a
    sure or maybe line, each used once."""
    got = sorted([(float(a), float(b)) for a, b in got])
    pool = sorted([(m, c, True) for m, c in sure] + [(m, c, False) for m, c in maybe])
    used = [False] * len(pool)
    slopes = [p[0] for p in pool]
    import bisect

    for m, c in got:
        k = bisect.bisect_left(slopes, m - tol(m))
        hit = None
        while k < len(pool) and slopes[k] <= m + tol(m):
            if not used[k] and abs(pool[k][1] - c) <= tol(c):
                hit = k
                if pool[k][2]:
                    break
            k += 1
        require(
            hit is not None,
            "%s: line slope %r intercept %r is not admissible or is there "
            "more than once",
            what,
            m,
            c,
        )
        used[hit] = True
    for u, p in zip(used, pool):
        require(
            u or not p[2],
            "%s: the line slope %r intercept %r is missing",
            what,
            p[0],
            p[1],
        )


def points(exact):
    if exact:
        return st.lists(
            st.tuples(st.integers(0, 64), dyadic(100, 400, 4)),
            min_size=1,
            max_size=9,
        )
    return st.lists(
        st.tuples(
            st.one_of(fl(0, 4096), st.integers(0, 4096)), fl(1000, 12000)
        ),
        min_size=1,
        max_size=12,
    )


def grid_case():
    exact = st.fixed_dictionaries(
        {
            "exact": st.just(True),
            "points": points(True),
            "lo": dyadic(-4, 8, 4),
            "dslope": st.integers(1, 32),
            "n": st.integers(1, 4).map(lambda k: 2**k + 1),
            "ilo": dyadic(-100, 200, 4),
            "iwid": st.one_of(dyadic(0, 100, 4), dyadic(0, 600, 4)),
            "swapped": st.just(False),
            "earlier": st.booleans(),
        }
    )
    loose = st.fixed_dictionaries(
        {
            "exact": st.just(False),
            "points": points(False),
            "lo": fl(-5, 5),
            "dslope": fl(0, 10),
            "n": st.one_of(st.integers(1, 40), st.sampled_from([2, 3, 100, 333])),
            "ilo": fl(-1000, 9000),
            "iwid": fl(0, 9000),
            "swapped": st.booleans(),
            "earlier": st.booleans(),
        }
    )
    return st.one_of(exact, loose)


def check_grid(case, rec):
    x = np.array([p[0] for p in case["points"]])
    y = np.array([p[1] for p in case["points"]], dtype=float)
    n = case["n"]
    if case["exact"]:
        lo = case["lo"]
        # n - 1 is a power of two: every slope is exact
        hi = lo + case["dslope"] * (n - 1) / 16.0
    else:
        lo, hi = case["lo"], case["lo"] + case["dslope"]
    ilo, ihi = case["ilo"], case["ilo"] + case["iwid"]
    ht = HoughTransform()
    if case["earlier"]:
        # an earlier transform with other limits is replaced
        ht.set_constraints(0.0, 1.0, -1e9, 1e9)
        ht.generate_hough_points(np.array([1.0, 2.0]), np.array([5.0, 7.0]), 7)
    ht.set_constraints(lo, hi, ilo, ihi)
    bx, by = x.copy(), y.copy()
    ht.generate_hough_points(x, y, n)
    require(
        np.array_equal(bx, x) and np.array_equal(by, y), "the points were changed"
    )
    hp = np.asarray(ht.hough_points)
    require(hp.ndim == 2 and hp.shape[1] == 2, "points of shape %s", hp.shape)
    slopes = [lo + (hi - lo) * k / (n - 1) if n > 1 else lo for k in range(n)]
    sure, maybe = [], []
    scale = max(1.0, abs(ilo), abs(ihi), float(np.abs(y).max()))
    eps = 0.0 if case["exact"] else 1e-9 * scale
    for m in slopes:
        for px, py in case["points"]:
            c = py - m * px
            e = eps + (0 if case["exact"] else 1e-12 * abs(m * px))
            if ilo + e <= c <= ihi - e:
                sure.append((m, c))
            elif ilo - e <= c <= ihi + e:
                maybe.append((m, c))
    tol = (
        (lambda v: 0.0)
        if case["exact"]
        else (lambda v: 1e-9 * max(1.0, abs(v)) + 1e-11 * scale)
    )
    match(hp, sure, maybe, "grid", tol)
    require(
        (ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)
        == (lo, hi, ilo, ihi),
        "the limits in force changed",
    )
    total = n * len(case["points"])
    rec.nontrivial(0 < len(hp) < total)
    rec.label("exact" if case["exact"] else "float")
    if case["exact"]:
        rec.label(
            "an intercept on a limit",
            any(
                py - m * px in (ilo, ihi) for m in slopes for px, py in case["points"]
            ),
        )


def brute_case():
    pts = st.one_of(
        st.lists(
            st.tuples(st.integers(0, 12).map(lambda k: 2**k), st.integers(0, 64)),
            min_size=2,
            max_size=10,
        ),
        st.lists(
            st.tuples(st.integers(0, 30), st.integers(100, 140)),
            min_size=2,
            max_size=12,
        ),
        st.lists(
            st.tuples(fl(0, 4096), fl(1000, 12000)), min_size=2, max_size=14
        ),
    )
    return st.fixed_dictionaries(
        {
            "points": pts,
            "lim": st.one_of(
                st.tuples(
                    st.integers(-4, 2), st.integers(1, 8), dyadic(-50, 120, 2), dyadic(1, 200, 2)
                ),
                st.tuples(fl(-3, 3), fl(0.5, 20), fl(-5000, 5000), fl(100, 20000)),
            ),
            "on_limit": st.one_of(st.none(), st.integers(0, 60)),
        }
    )


def check_brute(case, rec):
    pts = case["points"]
    a, b, c, d = case["lim"]
    lim = [float(a), float(a + b), float(c), float(c + d)]
    lines = []
    order = sorted(range(len(pts)), key=lambda k: pts[k][0])
    for i in range(len(order)):
        for j in range(i + 1, len(order)):
            (x1, y1), (x2, y2) = pts[order[i]], pts[order[j]]
            if x1 == x2:
                continue
            m = (y2 - y1) / (x2 - x1)
            # denormal differences of pixels overflow
            if abs(m) < 1e15:
                lines.append((m, y2 - m * x2))
    if case["on_limit"] is not None and lines:
        # an exact line through two points sits on the limit
        k = case["on_limit"]
        m, q = lines[k % len(lines)]
        if k % 4 == 0 and m < lim[1]:
            lim[0] = m
        elif k % 4 == 1 and m > lim[0]:
            lim[1] = m
        elif k % 4 == 2 and q < lim[3]:
            lim[2] = q
        elif q > lim[2]:
            lim[3] = q
    ht = make_ht(lim)
    x = np.array([p[0] for p in pts], dtype=float)
    y = np.array([p[1] for p in pts], dtype=float)
    bx, by = x.copy(), y.copy()
    with np.errstate(all="ignore"):
        ht.generate_hough_points_brute_force(x, y)
    require(
        np.array_equal(bx, x) and np.array_equal(by, y), "the points were changed"
    )
    hp = np.asarray(ht.hough_points)
    require(hp.ndim == 2 and hp.shape[1] == 2, "points of shape %s", hp.shape)
    integers = all(
        float(v).is_integer() for p in pts for v in p
    )
    sure, maybe = [], []
    for m, q in lines:
        # slope and intercept of integer points with a dyadic slope are exact
        exact = integers and float(m * 4096).is_integer()
        em = 0.0 if exact else 1e-9 * max(1, abs(m))
        xs = max(abs(v) for v in x)
        eq = 0.0 if exact else 1e-9 * max(1.0, abs(q), abs(m) * xs)
        ins = (lim[0] + em < m < lim[1] - em) and (lim[2] + eq < q < lim[3] - eq)
        pos = (lim[0] - em < m < lim[1] + em) and (lim[2] - eq < q < lim[3] + eq)
        if ins:
            sure.append((m, q))
        elif pos:
            maybe.append((m, q))
    big = max([abs(m) for m, _ in lines] + [1.0]) * max(abs(x).max(), 1.0)
    match(
        hp, sure, maybe, "brute force", lambda v: 1e-9 * max(1.0, abs(v)) + 1e-13 * big
    )
    rec.nontrivial(0 < len(hp) < len(lines))
    rec.label("equal pixels", len(set(x)) < len(x))


def limits_case():
    num = st.one_of(
        fl(-1e4, 1e4),
        st.integers(-100, 100),
        st.sampled_from(["nan", "inf", "-inf"]),
    )
    return st.fixed_dictionaries(
        {
            "seq": st.lists(
                st.tuples(num, num, num, num), min_size=1, max_size=5
            ),
            "np": st.booleans(),
        }
    )


def check_limits(case, rec):
    ht = HoughTransform()
    now = (None,) * 4
    bad = good = 0
    for lim in case["seq"]:
        v = [float(a) if isinstance(a, str) else a for a in lim]
        if case["np"]:
            v = [np.float64(a) for a in v]
        ok = all(np.isfinite(a) for a in v)
        try:
            ht.set_constraints(*v)
            require(ok, "limits %s were accepted", lim)
            now = tuple(v)
            good += 1
        except (AssertionError, ValueError) as e:
            if type(e) not in (AssertionError, ValueError):
                raise
            require(not ok, "limits %s were rejected", lim)
            bad += 1
        have = (ht.min_slope, ht.max_slope, ht.min_intercept, ht.max_intercept)
        require(have == now, "limits in force %s, expected %s", have, now)
    rec.nontrivial(bad and good)


def cal_case():
    setting = st.fixed_dictionaries(
        {
            "n": st.integers(2, 60),
            "lo": st.integers(3000, 6000),
            "wid": st.integers(500, 5000),
            "rt": st.sampled_from([50, 100.0, 500]),
            "lt": st.sampled_from([20, 100.0]),
            "bins": st.tuples(st.integers(1, 12), st.integers(1, 12)),
            "brute": st.sampled_from([None, None, False, True]),
        }
    )
    return st.fixed_dictionaries(
        {
            "peaks": st.lists(
                st.integers(0, 4000).map(lambda i: i / 4),
                min_size=2,
                max_size=8,
                unique=True,
            ),
            "lines": st.lists(fl(3000, 11000), min_size=1, max_size=8, unique=True),
            "list": st.booleans(),
            "settings": st.lists(setting, min_size=1, max_size=3),
        }
    )


def check_cal(case, rec):
    """The transform made by a calibrator is that of its pairs."""
    peaks, lines = case["peaks"], case["lines"]
    c = Calibrator(list(peaks) if case["list"] else np.array(peaks))
    c.set_calibrator_properties(num_pix=1001, log_level="critical")
    a = Atlas()
    a.add_user_atlas(["X"] * len(lines), list(lines))
    c.set_atlas(a)
    some = False
    for o in case["settings"]:
        c.set_hough_properties(
            num_slopes=o["n"],
            xbins=o["bins"][0],
            ybins=o["bins"][1],
            min_wavelength=o["lo"],
            max_wavelength=o["lo"] + o["wid"],
            range_tolerance=o["rt"],
            linearity_tolerance=o["lt"],
        )
        if o["brute"] is None:
            c.do_hough_transform()
        else:
            c.do_hough_transform(brute_force=o["brute"])
        lim = (c.min_slope, c.max_slope, c.min_intercept, c.max_intercept)
        sure, maybe, near = [], [], 1e-7
        pairs = [(x, w) for x in peaks for w in lines]
        if o["brute"]:
            found = []
            for i, (x, w) in enumerate(pairs):
                for x2, w2 in pairs[i + 1 :]:
                    if x != x2:
                        m = (w2 - w) / (x2 - x)
                        found.append((m, w - m * x))
        else:
            found = [
                (m, w - m * x)
                for m in np.linspace(lim[0], lim[1], o["n"]).tolist()
                for x, w in pairs
            ]
        for m, q in found:
            e = 0.0 if not o["brute"] else 1e-9
            if (
                lim[0] + e <= m <= lim[1] - e
                and lim[2] + near < q < lim[3] - near
            ):
                sure.append((m, q))
            elif (
                lim[0] - e <= m <= lim[1] + e
                and lim[2] - near < q < lim[3] + near
            ):
                maybe.append((m, q))
        for which, hp in (
            ("calibrator", c.hough_points),
            ("transform", c.ht.hough_points),
        ):
            match(
                np.asarray(hp),
                sure,
                maybe,
                "the %s, brute force %s" % (which, o["brute"]),
                lambda v: 1e-9 * max(1.0, abs(v)) + 1e-8,
            )
        require(
            np.asarray(c.ht.hist).shape == tuple(o["bins"])
            and np.asarray(c.ht.hist).sum() == len(hp),
            "histogram of shape %s with %s points of %d",
            np.asarray(c.ht.hist).shape,
            np.asarray(c.ht.hist).sum(),
            len(hp),
        )
        some = some or 0 < len(hp) < len(found)
        rec.label("brute force" if o["brute"] else "grid")
    rec.nontrivial(some)


def large_case():
    return st.fixed_dictionaries(
        {
            "n": st.sampled_from([40, 90, 150, 260]),
            "slopes": st.sampled_from([30, 120, 400, 1000]),
            "seed": st.integers(0, 2**31 - 1),
            "lim": st.tuples(fl(-2, 3), fl(0.2, 5), fl(-2000, 6000), fl(50, 9000)),
            "brute": st.booleans(),
        }
    )


def check_large(case, rec):
    """Hundreds of points, up to some 200,000 lines."""
    r = np.random.RandomState(case["seed"])
    n, k = case["n"], case["slopes"]
    x = np.round(r.permutation(4096)[:n] + r.rand(n) / 2, 3)
    y = np.round(r.uniform(1000, 12000, n), 3)
    a, b, c, d = case["lim"]
    lim = [a, a + b, c, c + d]
    ht = make_ht(lim)
    if case["brute"]:
        ht.generate_hough_points_brute_force(x, y)
        i, j = np.triu_indices(n, 1)
        m = (y[j] - y[i]) / (x[j] - x[i])
        q = y[j] - m * x[j]
    else:
        ht.generate_hough_points(x, y, k)
        m = lim[0] + (lim[1] - lim[0]) * np.arange(k) / (k - 1.0)
        m, q = np.repeat(m, n), (y[None, :] - m[:, None] * x[None, :]).ravel()
    total = len(m)
    e = 1e-9 * (1 + np.abs(m)) * 1e4
    inside = (lim[2] <= q) & (q <= lim[3])
    near = (np.abs(q - lim[2]) < e) | (np.abs(q - lim[3]) < e)
    if case["brute"]:
        inside &= (lim[0] < m) & (m < lim[1])
        f = 1e-9 * (1 + np.abs(m))
        near |= (np.abs(m - lim[0]) < f) | (np.abs(m - lim[1]) < f)
    if near.any():
        rec.label("a line on a limit, skipped")
        return
    want = np.column_stack((m, q))[inside]
    hp = np.asarray(ht.hough_points)
    require(
        hp.shape == want.shape, "%s lines, expected %s", hp.shape, want.shape
    )
    for col, what in ((0, "slopes"), (1, "intercepts")):
        g, w = np.sort(hp[:, col]), np.sort(want[:, col])
        bad = np.abs(g - w) > 1e-9 * (1 + np.abs(w)) + (1e-7 if col else 0)
        require(
            not bad.any(), "%d of %d %s differ", bad.sum(), len(g), what
        )
    # every line passes through a point
    z = r.randint(0, max(1, len(hp)), min(50, len(hp)))
    for g, t in hp[z]:
        require(
            np.abs(g * x + t - y).min() <= 1e-7 * (1 + abs(g)) * 10,
            "the line %r %r passes through no point",
            g,
            t,
        )
    rec.nontrivial(100 < len(hp) < total)
    rec.label("more than 10000 lines", len(hp) > 10000)


TESTS = [
    Test(
        "large",
        large_case,
        check_large,
        quick=160,
        thorough=4000,
        shards=4,
        rule="more than a hundred lines, some not admissible",
    ),
    Test(
        "calibrator",
        cal_case,
        check_cal,
        quick=1000,
        thorough=20000,
        shards=8,
        rule="some lines are inside the limits and some outside",
    ),
    Test(
        "grid",
        grid_case,
        check_grid,
        quick=6000,
        thorough=200000,
        shards=8,
        rule="some lines are inside the limits and some outside",
    ),
    Test(
        "brute",
        brute_case,
        check_brute,
        quick=6000,
        thorough=200000,
        shards=8,
        rule="some lines are inside the limits and some outside",
    ),
    Test(
        "limits",
        limits_case,
        check_limits,
        quick=2000,
        thorough=20000,
        shards=1,
        rule="valid and invalid limits were offered",
    ),
]
