"""C24 Peak refinement finds the true centres."""
import warnings

import numpy as np
from hypothesis import strategies as st

from rascal.util import refine_peaks
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "noiseless Gaussians on a zero background, sigma 1 to 3 pixels, centres "
    "at least a pixel from the ends, one line in reach of a window, starts "
    "within three pixels; to 0.02 pixel",
    "bad pixels are NaN or infinite, at least four pixels apart",
    "integer and single precision spectra have amplitudes of 1e4 or more",
    "for arbitrary spectra only what holds without a true line is decided",
]


def case():
    return st.fixed_dictionaries(
        {
            "gap": st.lists(st.integers(0, 40), min_size=1, max_size=7),
            "frac": st.lists(st.integers(-49, 49), min_size=7, max_size=7),
            "sigma": st.lists(nice(1, 3, 2), min_size=7, max_size=7),
            "amp": st.lists(
                st.sampled_from([1.0, 3.0, 10.0, 60.0]), min_size=7, max_size=7
            ),
            # (line, offset)
            "starts": st.lists(
                st.tuples(st.integers(0, 6), nice(-3, 3, 1)),
                min_size=1,
                max_size=14,
            ),
            "integer": st.sampled_from([True, False, False]),
            "window": st.sampled_from([None, 5, 7, 10, 12, 15]),
            "first": st.sampled_from([1, 1, 2, 4, 8, 30]),
            "last": st.sampled_from([1, 1, 3, 6, 30]),
            "dtype": st.sampled_from(
                ["float", "float", "int", "int32", "float32", "list", "int list"]
            ),
            "scale": st.sampled_from([1e-12, 0.01, 1.0, 100.0, 3e4, 1e15]),
            "bad": st.lists(
                st.tuples(st.integers(0, 400), st.sampled_from(["nan", "nan", "inf"])),
                max_size=5,
            ),
            "form": st.sampled_from(["list", "array", "tuple"]),
        }
    )


class World:
    def __init__(self, case):
        self.window = 10 if case["window"] is None else case["window"]
        self.kw = {} if case["window"] is None else {"window_width": self.window}
        n = len(case["gap"])
        c, x = [], float(case["first"])
        for i in range(n):
            if i:
                # no other line in reach of a window
                x += self.window + 5 + 8 * max(case["sigma"]) + case["gap"][i]
            c.append(max(1.0, x + case["frac"][i] / 100.0))
        self.n = int(np.ceil(c[-1])) + 1 + case["last"]
        if self.n < 2 * self.window:
            self.n = 2 * self.window
        self.c = c
        g = np.arange(self.n)
        y = np.zeros(self.n)
        self.sigma = case["sigma"][:n]
        for i in range(n):
            y += case["amp"][i] * np.exp(-0.5 * ((g - c[i]) / case["sigma"][i]) ** 2)
        dt = case["dtype"]
        if dt.startswith("int") or dt == "float32":
            y = np.round(y * 1e5) if dt != "float32" else y * 1e5
        else:
            y = y * case["scale"]
        self.used = []
        starts = []
        for i, off in case["starts"]:
            i %= n
            s = c[i] + off
            if case["integer"]:
                s = int(round(s))
            # within the spectrum
            s = min(max(s, 0), self.n - 1)
            if abs(s - c[i]) > 3.5:
                continue
            starts.append(s)
            self.used.append(i)
        self.starts = starts
        bad = []
        if not dt.startswith("int"):
            for p, kind in case["bad"]:
                p %= self.n
                if all(abs(p - q) >= 4 for q in bad):
                    bad.append(p)
                    y[p] = float(kind)
        self.bad = bad
        if dt == "list":
            self.y = y.tolist()
        elif dt == "int list":
            self.y = [int(v) for v in y]
        elif dt == "float":
            self.y = y
        else:
            self.y = y.astype({"int": "int64"}.get(dt, dt))
        f = {"list": list, "tuple": tuple, "array": np.array}[case["form"]]
        self.arg = f(starts)
        self.form = f


def run(w, y, arg):
    ky, ka = repr(list(y)), repr(list(arg))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = refine_peaks(y, arg, **w.kw)
    require(repr(list(y)) == ky, "the spectrum is modified")
    require(repr(list(arg)) == ka, "the peaks are modified")
    return np.asarray(r, dtype=float)


def check(case, rec):
    w = World(case)
    if not w.starts:
        return
    r = run(w, w.y, w.arg)
    want = sorted(set(w.c[i] for i in w.used))
    got = sorted(r.tolist())
    require(
        len(got) == len(want)
        and np.abs(np.array(got) - np.array(want)).max() <= 0.02,
        "the centres %s are refined from %s to %s",
        want,
        w.starts,
        got,
    )
    # one at a time
    i = w.used[0]
    one = run(w, w.y, w.form(w.starts[:1]))
    require(
        len(one) == 1 and abs(one[0] - w.c[i]) <= 0.02,
        "the centre %s is refined from %s to %s on its own",
        w.c[i],
        w.starts[0],
        one,
    )
    rec.label("%d lines" % min(3, len(want)))
    if w.bad:
        rec.label("bad pixels")
    edge = min(min(want), w.n - 1 - max(want)) < 5
    if edge:
        rec.label("near an end")
    rec.nontrivial(len(w.starts) > 1 and (edge or len(set(w.used)) > 1))


def large():
    return st.fixed_dictionaries(
        {
            "n": st.sampled_from([15, 30, 60]),
            "seed": st.integers(0, 2**31 - 1),
            "dtype": st.sampled_from(["float", "int", "list"]),
            "window": st.sampled_from([None, 7]),
        }
    )


def check_large(case, rec):
    """Tens of lines, by the rules of check()."""
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    order = r.permutation(n)
    check(
        {
            "gap": r.randint(0, 41, n).tolist(),
            "frac": r.randint(-49, 50, n).tolist(),
            "sigma": np.round(r.uniform(1, 3, n), 2).tolist(),
            "amp": r.choice([1.0, 3.0, 10.0, 60.0], n).tolist(),
            "starts": [
                (int(i), float(o))
                for i, o in zip(order, np.round(r.uniform(-3, 3, n), 1))
            ],
            "integer": bool(case["seed"] % 2),
            "window": case["window"],
            "first": 2,
            "last": 3,
            "dtype": case["dtype"],
            "scale": 1.0,
            "bad": [],
            "form": "array",
        },
        rec,
    )


# arbitrary spectra ----------------------------------------------------------
def noise():
    return st.fixed_dictionaries(
        {
            "y": st.lists(
                st.one_of(st.integers(-20, 100), st.integers(0, 5)),
                min_size=30,
                max_size=60,
            ),
            "starts": st.lists(
                st.one_of(st.integers(0, 59), nice(0, 59, 1)), max_size=6
            ),
            "window": st.sampled_from([None, 5, 10]),
            "float": st.booleans(),
            "nan": st.lists(st.integers(0, 59), max_size=3),
            # a dead range with pixels alive in it
            "dead": st.one_of(
                st.none(),
                st.tuples(
                    st.integers(0, 40),
                    st.integers(5, 40),
                    st.lists(st.integers(0, 39), max_size=3),
                ),
            ),
        }
    )


class W:
    pass


def check_noise(case, rec):
    w = W()
    w.kw = {} if case["window"] is None else {"window_width": case["window"]}
    y = np.array(case["y"], dtype=float if case["float"] or case["nan"] else int)
    for p in case["nan"]:
        y[p % len(y)] = np.nan
    n = len(y)
    if case["dead"]:
        a, k, alive = case["dead"]
        keep = [(a + p % k) % n for p in alive]
        full = y.astype(float)
        y = full.copy()
        y[a : a + k] = np.nan
        y[keep] = full[keep]
    s = [min(v, n - 1) for v in case["starts"]]
    r = run(w, y, s)
    require(
        ((r >= 0) & (r <= n)).all(), "positions %s in a spectrum of %d", r, n
    )
    u = np.sort(r)
    require(
        len(u) < 2 or np.diff(u).min() > 0, "a position is returned twice: %s", r
    )
    single = np.array([v for p in s for v in run(w, y, [p])])

    def contains(a, b):
        return all((np.abs(a - v) <= 1e-4 * (1 + v)).any() for v in b)

    require(
        contains(r, single) and contains(single, r),
        "the starts %s are refined to %s together and %s one by one",
        s,
        r,
        single,
    )
    rec.nontrivial(len(r) >= 2)


TESTS = [
    Test(
        "lines",
        case,
        check,
        quick=1200,
        thorough=40000,
        shards=8,
        rule="several starts, of several lines or near an end",
    ),
    Test(
        "large",
        large,
        check_large,
        quick=60,
        thorough=2000,
        shards=4,
        rule="as lines",
    ),
    Test(
        "any",
        noise,
        check_noise,
        quick=300,
        thorough=10000,
        shards=8,
        rule="at least two positions returned",
    ),
]
