"""C23 The synthetic spectrum generator inverts its model."""
import warnings

import numpy as np
from hypothesis import strategies as st

from rascal import models
from rascal.synthetic import SyntheticSpectrum
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "dispersions of degree two to five, increasing over the detector and "
    "well beyond it (those of degree three and five everywhere), pixels to "
    "a thousandth of a pixel",
    "limits and wavelengths are numbers; whether an integer limit is "
    "accepted is left open",
    "degree one: the coefficients may be taken highest order first, or "
    "lowest order first (known finding); degree zero has no inverse",
]
KF = "KF-C23-linear-order"


def model():
    """(kind, offset, slope, shape, centre, pixels)"""
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(
                ["quad", "cubic", "cubic", "skew", "quint", "quint", "odd", "linear"]
            ),
            "w0": st.sampled_from([-500.0, 0.0, 150.0, 900.0, 3000.0, 5000.0]),
            "slope": st.sampled_from([0.25, 0.5, 1.0, 2.0, 4.5]),
            "e": st.integers(1, 50),
            "f": st.integers(-5, 5),
            "x0": st.integers(0, 100),
            "npix": st.sampled_from([500, 1000, 4000]),
            "array": st.booleans(),
        }
    )


def coeffs(m):
    """Highest order first."""
    n, b, e = float(m["npix"]), m["slope"], m["e"] / 100.0
    x0 = m["x0"] / 100.0 * n
    line = np.poly1d([b, m["w0"]])
    d = np.poly1d([1, -x0])
    k = m["kind"]
    if k == "quad":
        p = line + np.poly1d([b * m["f"] / 100.0 / n or 1e-6, 0, 0])
    elif k == "skew":
        p = line + np.poly1d([b * 0.01 / n / n, b * m["f"] / 100.0 / n, 0, 0])
    elif k == "cubic":
        p = d**3 * (b * e / n**2 / 3) + line
    elif k == "quint":
        p = d**5 * (b * e / n**4 / 5) + line
    elif k == "odd":
        p = np.poly1d([b * e / n**4 / 5, 0, b * e / n**2 / 3, 0, b, m["w0"]])
    else:
        p = line
    c = [float(v) for v in p.coeffs]
    return np.array(c) if m["array"] else c


def waves():
    # positions on the detector (in 1/200) or the limits themselves
    return st.lists(
        st.one_of(
            st.integers(0, 200),
            st.sampled_from(["min", "max"]),
            st.floats(0, 1).map(lambda v: round(v * 200, 3)),
        ),
        max_size=8,
    )


def op():
    lim = st.integers(0, 200)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("model"), "m": model()}),
        st.fixed_dictionaries(
            {
                "op": st.just("limit"),
                "a": lim,
                "b": lim,
                "which": st.sampled_from(["both", "min", "max", "none"]),
                "numpy": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("bad model"),
                "v": st.sampled_from([1.0, None, "abc", (1.0, 2.0, 3.0), {"a": 1}]),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("bad limit"),
                "a": st.sampled_from(["x", "3000", [1.0], None]),
                "b": st.sampled_from(["y", "9000", [2.0], None]),
                "val": lim,
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("bad request"),
                "v": st.sampled_from([1.0, 5, "abc", None, {"a": 2}]),
            }
        ),
        st.fixed_dictionaries(
            {"op": st.just("get"), "w": waves(), "array": st.booleans()}
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("get"),
                "w": waves(),
                "array": st.booleans(),
                # and many more
                "more": st.sampled_from([0] * 9 + [60, 150]),
            }
        ),
    )


def history():
    return st.fixed_dictionaries(
        {
            "start": st.one_of(st.none(), model()),
            "lim": st.one_of(
                st.none(), st.tuples(st.integers(0, 90), st.integers(100, 200))
            ),
            "ops": st.lists(op(), min_size=1, max_size=14),
        }
    )


class World:
    def __init__(self, case):
        self.m = case["start"]
        self.coef = None if self.m is None else coeffs(self.m)
        self.lo, self.hi = 200.0, 1200.0
        kw = {}
        if self.coef is not None:
            kw["coefficients"] = self.coef
        if case["lim"] is not None:
            a, b = case["lim"]
            self.lo, self.hi = self.place(a), self.place(b)
            kw["min_wavelength"], kw["max_wavelength"] = self.lo, self.hi
        self.s = SyntheticSpectrum(**kw)

    def place(self, i):
        """A wavelength at a position on the detector."""
        if self.m is None:
            return 100.0 + 40.0 * i
        x = i / 200.0 * (self.m["npix"] - 1)
        return float(np.polyval(self.coef, x))

    def same(self):
        require(
            self.s.min_wavelength == self.lo and self.s.max_wavelength == self.hi,
            "the limits are %r and %r instead of %r and %r",
            self.s.min_wavelength,
            self.s.max_wavelength,
            self.lo,
            self.hi,
        )
        if self.coef is None:
            return
        require(
            self.s.degree == len(self.coef) - 1,
            "degree %s of the model %s",
            self.s.degree,
            self.coef,
        )
        x = np.linspace(0, self.m["npix"], 5)
        want = np.polyval(self.coef, x)
        got = np.array([self.s.model(v) for v in x])
        arr = np.asarray(self.s.model(x))
        for g in (got, arr):
            require(
                np.allclose(g, want, rtol=1e-10, atol=1e-7),
                "the model gives %s at %s, the polynomial %s",
                g,
                x,
                want,
            )


def check(case, rec):
    w = World(case)
    w.same()
    got = False
    changed = False
    for o in case["ops"]:
        k = o["op"]
        if k == "model":
            w.m, w.coef = o["m"], coeffs(o["m"])
            keep = w.coef.copy() if o["m"]["array"] else list(w.coef)
            w.s.set_model(w.coef)
            require(np.array_equal(keep, w.coef), "the coefficients are modified")
            changed = True
        elif k == "limit":
            a, b = w.place(o["a"]), w.place(o["b"])
            f = np.float64 if o["numpy"] else float
            kw = {}
            if o["which"] in ("both", "min"):
                kw["min_wavelength"] = f(a)
            if o["which"] in ("both", "max"):
                kw["max_wavelength"] = f(b)
            lo = a if "min_wavelength" in kw else w.lo
            hi = b if "max_wavelength" in kw else w.hi
            if hi > lo:
                w.s.set_wavelength_limit(**kw)
                w.lo, w.hi = lo, hi
                changed = True
            else:
                rejected(w, "the limits %r, %r" % (lo, hi), w.s.set_wavelength_limit, **kw)
        elif k == "bad model":
            v = tuple(o["v"]) if isinstance(o["v"], list) else o["v"]
            rejected(w, "the model %r" % (v,), w.s.set_model, v)
        elif k == "bad limit":
            a, b = o["a"], o["b"]
            if a is None and b is None:
                a = "x"
            # one of them may be valid
            if a is None and o["val"] % 2:
                a = w.place(o["val"])
            elif b is None and o["val"] % 2:
                b = w.place(o["val"])
            rejected(
                w,
                "the limits %r, %r" % (a, b),
                w.s.set_wavelength_limit,
                min_wavelength=a,
                max_wavelength=b,
            )
        elif k == "bad request":
            if w.coef is not None:
                rejected(w, "the request %r" % (o["v"],), w.s.get_pixels, o["v"])
        elif w.coef is not None:
            got |= request(w, o, rec)
        w.same()
    rec.nontrivial(got and changed)


def rejected(w, what, f, *a, **kw):
    try:
        f(*a, **kw)
    except Exception:
        return
    require(False, "%s are accepted", what)


def request(w, o, rec):
    ws = [
        {"min": w.lo, "max": w.hi}[v] if isinstance(v, str) else w.place(v)
        for v in o["w"]
    ]
    if o.get("more"):
        k = np.arange(o["more"]) * 37 % o["more"]
        ws += [w.place(v) for v in (200.0 * k / o["more"]).tolist()]
        rec.label("many wavelengths")
    arg = np.array(ws) if o["array"] else list(ws)
    keep = list(ws)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pix, out = w.s.get_pixels(arg)
    require(list(arg) == keep, "the wavelengths are modified")
    want = [v for v in ws if w.lo < v < w.hi]
    require(
        np.array_equal(np.asarray(out, dtype=float), want),
        "%s of %s returned within %r and %r",
        list(out),
        ws,
        w.lo,
        w.hi,
    )
    pix = np.asarray(pix, dtype=float)
    require(pix.shape == (len(want),), "%s pixels for %s", pix.shape, want)
    if len(want) == 0:
        return False
    slope = w.m["slope"]
    err = np.abs(np.polyval(w.coef, pix) - want) / slope
    if len(w.coef) == 2:
        with np.errstate(all="ignore"):
            other = (np.array(want) - w.coef[0]) / w.coef[1]
        if np.allclose(pix, other, rtol=1e-9, atol=1e-9, equal_nan=True):
            rec.known_finding(KF)
            return False
    require(
        err.max() <= 1e-3,
        "the model gives %s at the pixels %s returned for %s",
        np.polyval(w.coef, pix).tolist(),
        pix.tolist(),
        want,
    )
    rec.label("degree %d" % (len(w.coef) - 1))
    return len(w.coef) > 2


# models.polynomial ----------------------------------------------------------
def poly():
    return st.fixed_dictionaries(
        {
            "a": st.one_of(
                st.lists(nice(-100, 100, 3), min_size=1, max_size=7),
                st.lists(st.integers(-100, 100), min_size=1, max_size=7),
            ),
            "array": st.booleans(),
            "x": st.one_of(
                st.lists(nice(-50, 50, 2), min_size=1, max_size=8),
                st.lists(st.integers(-50, 50), min_size=1, max_size=8),
            ),
            "form": st.sampled_from(["scalar", "array", "matrix", "numpy scalar"]),
            "default": st.booleans(),
        }
    )


def check_poly(case, rec):
    a = np.array(case["a"]) if case["array"] else list(case["a"])
    n = len(a) - 1
    # the degree may be left out where it is the default of three
    f = models.polynomial(a) if n == 3 and case["default"] else models.polynomial(
        a, n
    )
    x = np.array(case["x"])
    if case["form"] == "matrix":
        x = np.stack([x, -x])
    want = np.zeros(x.shape)
    mag = np.zeros(x.shape)
    for k, c in enumerate(case["a"]):
        want = want + c * x.astype(float) ** (n - k)
        mag = mag + np.abs(c * x.astype(float) ** (n - k))
    if case["form"] == "scalar":
        got = [f(v) for v in x.tolist()]
    elif case["form"] == "numpy scalar":
        got = [f(v) for v in x]
    else:
        keep = x.copy()
        got = f(x)
        require(np.array_equal(keep, x), "the argument is modified")
        # a constant may be returned once
        if n == 0:
            got = np.broadcast_to(got, x.shape)
    got = np.asarray(got, dtype=float)
    require(got.shape == x.shape, "values %s at %s", got, x)
    require(
        (np.abs(got - want) <= 1e-11 * mag + 1e-300).all(),
        "the polynomial %s takes %s at %s instead of %s",
        case["a"],
        got.tolist(),
        x.tolist(),
        want.tolist(),
    )
    require(
        list(a) == list(case["a"]), "the coefficients are modified by evaluation"
    )
    rec.nontrivial(n >= 2)


def check_length(case, rec):
    """The number of coefficients has to fit the degree."""
    try:
        models.polynomial(case["a"], case["n"])
    except Exception:
        rec.nontrivial()
        return
    require(
        len(case["a"]) == case["n"] + 1,
        "%d coefficients are accepted for degree %d",
        len(case["a"]),
        case["n"],
    )
    rec.nontrivial()


def known():
    s = SyntheticSpectrum([2.0, 100.0], 10.0, 1e4)
    p, w = s.get_pixels([500.0])
    return abs(s.model(p[0]) - w[0]) > 1


KNOWN = {KF: known}

TESTS = [
    Test(
        "history",
        history,
        check,
        quick=1200,
        thorough=40000,
        shards=8,
        rule="wavelengths inverted after a change of the model or the limits",
    ),
    Test(
        "polynomial",
        poly,
        check_poly,
        quick=800,
        thorough=20000,
        shards=4,
        rule="degree two or more",
    ),
    Test(
        "length",
        lambda: st.fixed_dictionaries(
            {
                "a": st.lists(st.integers(-9, 9), min_size=1, max_size=7),
                "n": st.integers(0, 7),
            }
        ),
        check_length,
        quick=150,
        thorough=1000,
        rule="every case",
    ),
]
