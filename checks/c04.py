"""C04 Vacuum/air conversion follows the NIST refraction standard."""
import numpy as np
from hypothesis import strategies as st

from rascal.util import air_to_vacuum_wavelength, vacuum_to_air_wavelength
from vlib import edlen
from vlib.core import Test, require
from vlib.gen import fl, nice

ASSUMPTIONS = [
    "wavelengths 2000-30000 A, pressure 20-120 kPa, temperature -20 to 50 C, "
    "relative humidity 0-100 %",
    "air_to_vacuum_wavelength may evaluate the index at the air instead of "
    "the vacuum wavelength (a difference below 2e-4 A)",
]

wave = st.one_of(fl(2000, 30000), st.integers(2000, 30000), nice(3000, 11000, 3))
pres = st.one_of(st.just(101325.0), fl(2e4, 1.2e5), st.integers(50000, 110000))
temp = st.one_of(st.just(273.15), fl(253.15, 323.15), st.integers(254, 323))
rhum = st.one_of(st.just(0.0), st.just(100), fl(0, 100), st.integers(0, 100))

# |our - reference|, A
TOL_AIR = 1e-7


def tol_vac(w, t, p, rh):
    """The exact inverse, or the index taken at the air wavelength."""
    ref = edlen.air_to_vac(w, t, p, rh)
    return 1.001 * abs(w * edlen.index(w, t, p, rh) - ref) + TOL_AIR


ROUND_TRIP = 3e-4



def scalar_case():
    return st.fixed_dictionaries(
        {
            "w": wave,
            "p": pres,
            "t": temp,
            "rh": rhum,
            "call": st.sampled_from(
                ["kw", "pos", "default", "t", "p", "rh", "np"]
            ),
            "p2": pres,
            "t2": temp,
            "rh2": rhum,
            "w2": wave,
        }
    )


def args(call, t, p, rh):
    """(arguments, keywords, the conditions they mean)"""
    d = (273.15, 101325.0, 0.0)
    if call == "kw":
        return (), dict(temperature=t, pressure=p, relative_humidity=rh), (t, p, rh)
    if call == "pos":
        return (t, p, rh), {}, (t, p, rh)
    if call == "np":
        return (np.float64(t), np.float64(p), np.float64(rh)), {}, (t, p, rh)
    if call == "t":
        return (), dict(temperature=t), (t, d[1], d[2])
    if call == "p":
        return (), dict(pressure=p), (d[0], p, d[2])
    if call == "rh":
        return (), dict(relative_humidity=rh), (d[0], d[1], rh)
    return (), {}, d


def check_scalar(case, rec):
    w = case["w"]
    a, k, (t, p, rh) = args(case["call"], case["t"], case["p"], case["rh"])
    air = float(vacuum_to_air_wavelength(w, *a, **k))
    ref = edlen.vac_to_air(w, t, p, rh)
    require(
        abs(air - ref) < TOL_AIR,
        "vacuum %r at T=%r p=%r RH=%r: air %.9f, NIST %.9f",
        w, t, p, rh, air, ref,
    )
    vac = float(air_to_vacuum_wavelength(w, *a, **k))
    refv = edlen.air_to_vac(w, t, p, rh)
    require(
        abs(vac - refv) < tol_vac(w, t, p, rh),
        "air %r at T=%r p=%r RH=%r: vacuum %.9f, NIST %.9f",
        w, t, p, rh, vac, refv,
    )
    require(air < w < vac, "air %r not shorter than vacuum", (air, w, vac))
    back = float(air_to_vacuum_wavelength(air, *a, **k))
    require(abs(back - w) < ROUND_TRIP, "round trip %r -> %r", w, back)
    back = float(vacuum_to_air_wavelength(vac, *a, **k))
    require(abs(back - w) < ROUND_TRIP, "round trip %r -> %r", w, back)
    # order of wavelengths
    w2 = case["w2"]
    if abs(w2 - w) > 1e-6:
        air2 = float(vacuum_to_air_wavelength(w2, *a, **k))
        vac2 = float(air_to_vacuum_wavelength(w2, *a, **k))
        require(
            (air2 > air) == (w2 > w) and (vac2 > vac) == (w2 > w),
            "order of %r and %r not preserved",
            w, w2,
        )
    # more pressure, lower temperature: larger shift
    for f, s in (
        (vacuum_to_air_wavelength, -1),
        (air_to_vacuum_wavelength, 1),
    ):
        base = s * (float(f(w, t, p, rh)) - w)
        if abs(case["p2"] - p) > 1:
            o = s * (float(f(w, t, case["p2"], rh)) - w)
            require(
                (o > base) == (case["p2"] > p),
                "shift %r at %r Pa but %r at %r Pa",
                base, p, o, case["p2"],
            )
        if abs(case["t2"] - t) > 0.01:
            o = s * (float(f(w, case["t2"], p, 0.0)) - w)
            b = s * (float(f(w, t, p, 0.0)) - w)
            require(
                (o > b) == (case["t2"] < t),
                "shift %r at %r K but %r at %r K",
                b, t, o, case["t2"],
            )
    rec.nontrivial(case["call"] in ("kw", "pos", "np") and rh > 0)
    rec.label("call " + case["call"])


def array_case():
    return st.fixed_dictionaries(
        {
            "w": st.lists(wave, min_size=0, max_size=12),
            "p": pres,
            "t": temp,
            "rh": rhum,
            "kind": st.sampled_from(
                ["list", "tuple", "array", "int", "2d", "f4", "ro", "view"]
            ),
            "back": st.booleans(),
        }
    )


def check_array(case, rec):
    f = air_to_vacuum_wavelength if case["back"] else vacuum_to_air_wavelength
    ref = edlen.air_to_vac if case["back"] else edlen.vac_to_air
    tol = None
    c = (case["t"], case["p"], case["rh"])
    w = case["w"]
    kind = case["kind"]
    if kind == "list":
        x = list(w)
    elif kind == "tuple":
        x = tuple(w)
    elif kind == "int":
        w = [int(v) for v in w]
        x = np.array(w, dtype=int)
    elif kind == "2d":
        x = np.array([w, w], dtype=float)
        w = w + w
    elif kind == "f4":
        x = np.array(w, dtype="f4")
        w = [float(v) for v in x]
        tol = 1e-2
    elif kind == "view":
        x = np.array(w + w, dtype=float)[: len(w)][::-1]
        w = [float(v) for v in x]
    else:
        x = np.array(w, dtype=float)
        if kind == "ro":
            x.flags.writeable = False
    before = repr(x)
    out = f(x, *c)
    require(repr(x) == before, "the input was altered: %s -> %r", before, x)
    out = np.asarray(out)
    require(
        out.shape == np.shape(x), "shape %s for input %s", out.shape, np.shape(x)
    )
    for v, o in zip(w, out.reshape(-1)):
        require(
            abs(o - ref(v, *c))
            < (tol or (tol_vac(v, *c) if case["back"] else TOL_AIR)),
            "%s %s: %r, NIST %r at %s",
            f.__name__, v, o, ref(v, *c), c,
        )
        require(
            abs(o - float(f(v, *c))) < (1e-8 if kind != "f4" else tol),
            "element %r gives %r, the scalar %r",
            v, o, float(f(v, *c)),
        )
    rec.nontrivial(len(w) > 1)
    rec.label("kind " + kind)


def large_case():
    return st.fixed_dictionaries(
        {
            "n": st.one_of(st.integers(50, 400), st.integers(400, 6000)),
            "seed": st.integers(0, 2**31 - 1),
            "p": pres,
            "t": temp,
            "rh": rhum,
            "kind": st.sampled_from(["list", "array", "sorted", "ends"]),
            "back": st.booleans(),
        }
    )


def check_large(case, rec):
    f = air_to_vacuum_wavelength if case["back"] else vacuum_to_air_wavelength
    ref = edlen.air_to_vac if case["back"] else edlen.vac_to_air
    c = (case["t"], case["p"], case["rh"])
    w = np.random.RandomState(case["seed"]).uniform(2000, 30000, case["n"])
    if case["kind"] == "sorted":
        w.sort()
    elif case["kind"] == "ends":
        # a step in the middle
        w = np.where(np.arange(len(w)) < len(w) // 2, 2000 + w / 100, w)
    out = np.asarray(f(w.tolist() if case["kind"] == "list" else w, *c))
    require(out.shape == w.shape, "shape %s for %s", out.shape, w.shape)
    want = np.array([ref(v, *c) for v in w.tolist()])
    if case["back"]:
        tol = np.array([tol_vac(v, *c) for v in w.tolist()])
    else:
        tol = TOL_AIR
    bad = np.where(np.abs(out - want) >= tol)[0]
    require(
        len(bad) == 0,
        "%d of %d differ, %s gives %s instead of %s",
        len(bad),
        len(w),
        w[bad[:1]],
        out[bad[:1]],
        want[bad[:1]],
    )
    rec.nontrivial(len(w) > 100)


def anchor_case():
    return st.sampled_from(range(2))


# Index for 633 nm at 20 C and 101.325 kPa, dry and at 50 % humidity
ANCHORS = [
    (6330.0, 293.15, 101325.0, 50.0, 1.000271375, 3e-8),
    (6330.0, 293.15, 101325.0, 0.0, 1.000271800, 3e-8),
]


def check_anchor(case, rec):
    w, t, p, rh, n, tol = ANCHORS[case]
    got = w / float(vacuum_to_air_wavelength(w, t, p, rh))
    require(abs(got - n) < tol, "index %.9f, published %.9f", got, n)
    rec.nontrivial()


TESTS = [
    Test(
        "large",
        large_case,
        check_large,
        quick=160,
        thorough=4000,
        shards=4,
        rule="more than a hundred wavelengths",
    ),
    Test(
        "scalar",
        scalar_case,
        check_scalar,
        quick=12000,
        thorough=400000,
        shards=8,
        rule="all conditions given, humidity above zero",
    ),
    Test(
        "array",
        array_case,
        check_array,
        quick=6000,
        thorough=150000,
        shards=4,
        rule="at least two elements",
    ),
    Test(
        "published",
        anchor_case,
        check_anchor,
        quick=4,
        thorough=4,
        rule="a published index",
    ),
]
