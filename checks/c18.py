"""C18 Known pairs anchor every sample and are validated."""
import collections

import numpy as np
from hypothesis import strategies as st

from rascal.calibrator import Calibrator
from vlib import observe
from vlib import problem as P
from vlib.core import Test, require
from vlib.gen import nice

ASSUMPTIONS = [
    "the sample solutions are those computed with numpy's polyfit, legfit "
    "and chebfit during the fit; if none is seen, that part is not checked",
    "not a number: a word, None, nan, a complex number or a nested sequence; "
    "infinities and numbers written as text are left out",
]


def pair():
    return st.tuples(
        st.one_of(nice(-200, 3200, 1), st.integers(-100, 3100)),
        st.one_of(nice(2500, 11000, 1), st.integers(2500, 11000)),
    )


def valid():
    return st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.just("set"),
                "pairs": st.lists(pair(), max_size=4),
                "form": st.sampled_from(["list", "array", "tuple", "mixed"]),
            }
        ),
        st.fixed_dictionaries(
            {"op": st.just("number"), "pairs": st.lists(pair(), min_size=1, max_size=1)}
        ),
        st.fixed_dictionaries({"op": st.just("default")}),
    )


def invalid():
    return st.one_of(
        st.fixed_dictionaries(
            {
                "op": st.just("lengths"),
                "pairs": st.lists(pair(), min_size=1, max_size=4),
                "side": st.sampled_from(["pix", "wave"]),
                "form": st.sampled_from(["list", "array", "mixed", "number"]),
                "more": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "op": st.just("junk"),
                "pairs": st.lists(pair(), min_size=1, max_size=4),
                "side": st.sampled_from(["pix", "wave", "both"]),
                "at": st.integers(0, 3),
                "what": st.sampled_from(
                    ["word", "None", "nan", "complex", "nested"]
                ),
            }
        ),
    )


def steps(min_size):
    return st.lists(
        st.one_of(valid(), valid(), invalid()), min_size=min_size, max_size=6
    )


def shaped(pairs, form):
    x, y = [a for a, _ in pairs], [b for _, b in pairs]
    if form == "array":
        return np.array(x), np.array(y)
    if form == "tuple":
        return tuple(x), tuple(y)
    if form == "mixed":
        return x, np.array(y, dtype=float)
    return x, y


JUNK = {"word": "abc", "None": None, "nan": float("nan"), "complex": 1j,
        "nested": [1.0, 2.0]}


def apply(c, o, model):
    """Performs the step; returns the pairs in force afterwards."""
    kind = o["op"]
    if kind == "default":
        c.set_known_pairs()
        return []
    if kind == "number":
        a, b = o["pairs"][0]
        c.set_known_pairs(a, b)
        return [(a, b)]
    if kind == "set":
        x, y = shaped(o["pairs"], o["form"])
        c.set_known_pairs(x, y)
        return list(o["pairs"])
    if kind == "lengths":
        form = o["form"]
        x, y = shaped(o["pairs"], form if form != "number" else "list")
        x, y = list(x), list(y)
        short = (x if o["side"] == "pix" else y)
        if o["more"]:
            short.append(float(short[-1]) + 1)
        else:
            short.pop()
        if form == "number" and len(y) == 1 and len(x) != 1:
            y = y[0]
        elif form == "number" and len(x) == 1 and len(y) != 1:
            x = x[0]
        elif form == "array":
            x, y = np.array(x), np.array(y)
    else:
        x, y = shaped(o["pairs"], "list")
        x, y = list(x), list(y)
        i = o["at"] % len(x)
        if o["side"] in ("pix", "both"):
            x[i] = JUNK[o["what"]]
        if o["side"] in ("wave", "both"):
            y[i] = JUNK[o["what"]]
    try:
        c.set_known_pairs(x, y)
    except Exception:
        return model
    if kind == "junk" and o["what"] == "nested" and o["side"] == "both":
        # a pair of sequences may pass as several pairs
        return None
    require(False, "the pairs %r, %r were accepted", x, y)


def in_force(c, model, what):
    x = [] if c.pix_known is None else np.asarray(c.pix_known, dtype=float)
    y = [] if c.wave_known is None else np.asarray(c.wave_known, dtype=float)
    require(
        list(zip(np.atleast_1d(x).tolist(), np.atleast_1d(y).tolist()))
        == [(float(a), float(b)) for a, b in model],
        "after %s the known pairs are %s, %s, expected %s",
        what,
        x,
        y,
        model,
    )


def check_validate(case, rec):
    c = Calibrator([10.0, 500.0, 900.0])
    other = Calibrator([10.0, 500.0, 900.0])
    model = []
    kinds = set()
    for o in case["steps"]:
        new = apply(c, o, model)
        if new is None:
            return
        model = new
        in_force(c, model, o)
        kinds.add(o["op"])
    in_force(other, [], "setting those of another calibrator")
    rec.nontrivial(
        bool(kinds & {"lengths", "junk"}) and bool(kinds - {"lengths", "junk"})
    )


def fit_case():
    return st.fixed_dictionaries(
        {
            "p": P.problem(min_size=7),
            "s": P.settings(max_tries=(1, 5), deg=(1, 4)),
            "steps": steps(0),
            # pairs that lie on the dispersion, near it, on a peak and a line
            "last": st.lists(
                st.tuples(
                    st.sampled_from(
                        ["true", "true", "near", "peak", "line", "match"]
                    ),
                    st.integers(-60, 1060),
                    st.integers(-30, 30),
                ),
                max_size=3,
            ),
            "mode": st.sampled_from(["plain", "plain", "guess", "brute"]),
            "before": st.booleans(),
        }
    )


def check_fit(case, rec):
    p, s = P.Problem(case["p"]), dict(case["s"])
    if len(p.peaks) < 4 or len(p.lines) < 4:
        return
    kw = {}
    if case["mode"] == "brute":
        s["top_n"], s["sample_size"] = 1, 2
        s["fit_deg"] = min(s["fit_deg"], 2)
        kw["brute_force"] = len(p.peaks) <= 9
    elif case["mode"] == "guess":
        x = np.linspace(0, p.npix - 1, 50)
        kw["fit_coeff"] = P.BASISFIT[s["fit_type"]](
            x, p.wave(x) + 9.0, s["fit_deg"]
        )
    c = p.calibrator(s)
    if case["before"]:
        # used up before the last pairs are set
        P.fit_or_none(c, s, max_tries=1)
    model = []
    for o in case["steps"]:
        new = apply(c, o, model)
        if new is None:
            return
        model = new
    if case["last"]:
        model = []
        for kind, at, off in case["last"]:
            x = at / 1000.0 * (p.npix - 1)
            w = float(p.wave(x))
            if kind == "near":
                w += off
            elif kind == "peak":
                x = p.peaks[at % len(p.peaks)]
                w = float(p.wave(x)) + off
            elif kind == "line":
                w = p.lines[at % len(p.lines)]
            elif kind == "match" and p.truth:
                x, w = sorted(p.truth.items())[at % len(p.truth)]
            model.append((round(x, 3), round(w, 3)))
        c.set_known_pairs([a for a, _ in model], [b for _, b in model])
    in_force(c, model, "the last step")
    want = collections.Counter((float(a), float(b)) for a, b in model)
    with observe.fits(limit=200000) as log:
        r = P.fit_or_none(c, s, **kw)
    pairs = set(
        zip(
            np.asarray(c.candidate_peak, dtype=float).tolist(),
            np.asarray(c.candidate_arc, dtype=float).tolist(),
        )
    )
    for kind, x, y, deg, f in log.fits:
        got = collections.Counter(zip(x.tolist(), y.tolist()))
        require(
            not (want - got),
            "a sample of %s does not contain the known pairs %s",
            sorted(got),
            sorted(want),
        )
        extra = got - want
        require(
            set(extra) <= pairs,
            "a sample contains %s, neither known nor candidates",
            sorted(set(extra) - pairs),
        )
        # and the solution is their fit
        best = P.BASISFIT[s["fit_type"]](x, y, deg)
        val = P.BASIS[s["fit_type"]]
        require(
            deg == len(f) - 1
            and np.abs(val(x, f) - val(x, best)).max()
            <= 1e-6 * np.abs(y).max(),
            "not the fit of the sample",
        )
    if log.fits:
        rec.label("samples observed")
    if r is not None:
        rec.label("solution")
        require(
            set(map(float, r[1])) <= set(p.peaks)
            and set(map(float, r[2])) <= set(p.lines),
            "a known pair is among the matches",
        )
    in_force(c, model, "the fit")
    rec.nontrivial(bool(model) and len(log.fits) > 0)


TESTS = [
    Test(
        "validate",
        lambda: st.fixed_dictionaries({"steps": steps(1)}),
        check_validate,
        quick=3000,
        thorough=80000,
        shards=8,
        rule="accepted and rejected calls",
    ),
    Test(
        "fit",
        fit_case,
        check_fit,
        quick=700,
        thorough=12000,
        shards=16,
        rule="samples were fitted with known pairs",
    ),
]
