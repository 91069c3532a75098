"""C22 The robust polynomial fit is a correct, scale-free least-squares fit."""
import numpy as np
from hypothesis import strategies as st

from rascal import models
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "well-conditioned: at least degree + 3 points, spread over the range to "
    "within a third of their spacing, the range reaching from at most one "
    "and a half times its length",
    "equal means to 1e-6 of the range of the values and two per cent of the "
    "noise",
    "an outlier: 20 times the range of the values or more, in the inner "
    "half of 15 points or more, degree two at most; it moves the robust fit "
    "by less than 0.7 times as much",
]
val = np.polynomial.polynomial.polyval


def case():
    return st.fixed_dictionaries(
        {
            "deg": st.integers(1, 5),
            "n": st.integers(0, 22),
            "jit": st.lists(st.integers(-30, 30), min_size=28, max_size=28),
            "lo": st.sampled_from([0.0, 0.0, 0.1, 0.5, 1.0, -0.5, -1.0]),
            "span": st.sampled_from([1.0, 60.0, 1000.0, 3000.0, 2e4]),
            # in units of the range
            "y0": st.sampled_from([0.0, 0.3, 1.0, 1.5, 3.0, 6.0, -2.0]),
            "amp": st.sampled_from([1.0, 200.0, 3000.0, 6000.0, -500.0]),
            "shape": st.lists(st.integers(-100, 100), min_size=5, max_size=5),
            "noise": st.sampled_from([0.0, 1e-6, 1e-4, 1e-3]),
            "eps": st.lists(st.integers(-100, 100), min_size=28, max_size=28),
            "perm": st.randoms(use_true_random=False).map(
                lambda r: r.randint(0, 2**31)
            ),
            "x0": st.lists(
                st.one_of(
                    nice(-5, 5, 1),
                    nice(-5, 5, 1),
                    # as left by rounding in another fit
                    st.sampled_from([0.0, 1e-19, -5e-17, 1e-14, -1e-11, 1e-8, 1e-5]),
                ),
                min_size=6,
                max_size=6,
            ),
            "list": st.booleans(),
            "sx": st.sampled_from([1e-3, 0.1, 3.0, 1000.0]),
            "sy": st.sampled_from([1e-3, 0.1, 7.0, 1e4, -1.0]),
            "int": st.booleans(),
            # many points
            "many": st.sampled_from([None] * 9 + [40, 130, 600]),
        }
    )


def data(case, least=None):
    deg = case["deg"]
    n = max(deg + 3 + case["n"] % 18, least or 0)
    jit, eps = np.array(case["jit"][:n]), np.array(case["eps"][:n])
    if case["many"]:
        n = case["many"]
        r = np.random.RandomState(case["perm"] % 1000)
        jit, eps = r.randint(-30, 31, n), r.randint(-100, 101, n)
    g = (np.arange(n) + jit / 100.0) / (n - 1)
    v = np.clip(g, -0.05, 1.05)
    x = case["span"] * (case["lo"] + v)
    if case["int"] and case["span"] >= 1000:
        x = np.round(x).astype(int)
        v = x / case["span"] - case["lo"]
    y = v.copy()
    # deviations of a tenth of the range at most for each degree
    for k in range(2, deg + 1):
        y = y + case["shape"][k - 1] / 1000.0 * v**k
    y = case["amp"] * (case["y0"] + y)
    e = case["noise"] * case["amp"] * eps / 100.0
    return deg, x, y, y + e


def fit(x, y, deg, **kw):
    xx, yy = x.copy(), y.copy()
    p = models.robust_polyfit(xx, yy, deg, **kw)
    require(
        np.array_equal(xx, x) and np.array_equal(yy, y), "the inputs are modified"
    )
    p = np.asarray(p, dtype=float)
    require(p.shape == (deg + 1,), "coefficients %s of degree %d", p, deg)
    return p


def check(case, rec):
    deg, x, exact, y = data(case)
    r = np.ptp(y)
    tol = (1e-6 + 0.02 * case["noise"]) * r
    p = fit(x, y, deg)
    if case["list"]:
        q = models.robust_polyfit(x.tolist(), y.tolist(), deg)
        require(
            np.abs(val(x, np.asarray(q)) - val(x, p)).max() <= tol,
            "lists are fitted by %s, arrays by %s",
            q,
            p,
        )
    got = val(x, p)
    ls = np.polynomial.Polynomial.fit(x, y, deg)(x)
    require(
        np.abs(got - ls).max() <= tol,
        "the fit gives %s, least squares %s",
        got.tolist(),
        ls.tolist(),
    )
    if case["noise"] == 0:
        require(
            np.abs(got - exact).max() <= tol,
            "the fit gives %s for the exact data %s",
            got.tolist(),
            exact.tolist(),
        )
    # the order of the points
    o = np.random.RandomState(case["perm"]).permutation(len(x))
    q = fit(x[o], y[o], deg)
    require(
        np.abs(val(x, q) - got).max() <= tol,
        "the fit depends on the order: %s and %s",
        q,
        p,
    )
    # the starting coefficients, absurd or near
    for x0 in (
        [
            c * abs(case["amp"]) / case["span"] ** k
            for k, c in enumerate(case["x0"][: deg + 1])
        ],
        (p * 1.01).tolist(),
    ):
        keep = list(x0)
        q = fit(x, y, deg, x0=x0)
        require(x0 == keep, "the starting coefficients are modified")
        require(
            np.abs(val(x, q) - got).max() <= 10 * tol,
            "the fit depends on the start %s: %s and %s",
            x0,
            q,
            p,
        )
    # the units
    sx, sy = case["sx"], case["sy"]
    q = fit(x * sx, y * sy, deg)
    require(
        np.abs(val(x * sx, q) / sy - got).max() <= 10 * tol,
        "in other units (%s, %s) the fit gives %s instead of %s",
        sx,
        sy,
        (val(x * sx, q) / sy).tolist(),
        got.tolist(),
    )
    rec.nontrivial(deg >= 2 and len(set(case["shape"][1:deg])) > 0)
    rec.label("degree %d" % deg)
    rec.label("many points", bool(case["many"]))


def check_outlier(case, rec):
    case = dict(case, deg=1 + case["deg"] % 2, many=None)
    deg, x, exact, y = data(case, least=15)
    n = len(x)
    i = n // 4 + case["perm"] % (n // 2)
    size = [20, 100, 1e4][case["perm"] % 3] * (-1) ** (case["perm"] % 2)
    y = y.copy()
    y[i] += size * np.ptp(exact)
    p = fit(x, y, deg)
    ls = np.polynomial.Polynomial.fit(x, y, deg)(x)
    a = np.mean(np.abs(val(x, p) - exact))
    b = np.mean(np.abs(ls - exact))
    require(
        a <= 0.7 * b,
        "an outlier at %s moves the robust fit by %r, least squares by %r",
        x[i],
        a,
        b,
    )
    rec.nontrivial()


TESTS = [
    Test(
        "fit",
        case,
        check,
        quick=1500,
        thorough=40000,
        shards=8,
        rule="degree two or more",
    ),
    Test(
        "outlier",
        case,
        check_outlier,
        quick=600,
        thorough=20000,
        shards=8,
        rule="an outlier",
    ),
]
