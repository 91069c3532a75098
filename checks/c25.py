"""C25 Plots never change what they plot."""
import os
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np
from hypothesis import strategies as st

from rascal import plotting
from vlib import scene as S
from vlib.core import Test, require

ASSUMPTIONS = [
    "figures are compared by their lines, markers, segments, texts, limits, "
    "labels and legends (matplotlib), or their JSON (plotly)",
    "the state is that of the public attributes of the calibrator, its "
    "atlas and Hough transform",
    "nothing is displayed",
]


def call():
    return st.one_of(
        st.fixed_dictionaries(
            {
                "plot": st.just("fit"),
                "coeff": st.sampled_from(["none", "array", "list"]),
                "spectrum": st.sampled_from(
                    ["none", "none", "array", "list", "int", "negative"]
                ),
                "tolerance": st.sampled_from([None, 1.0, 20.0]),
                "plot_atlas": st.booleans(),
                "log": st.booleans(),
                "direct": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "plot": st.just("arc"),
                "pixels": st.sampled_from(["none", "array", "list"]),
                "log": st.booleans(),
                "direct": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "plot": st.just("search"),
                "coeff": st.sampled_from(["none", "array", "list"]),
                "top": st.sampled_from([None, 1, 3, 20]),
                "weighted": st.booleans(),
                "direct": st.booleans(),
            }
        ),
        st.fixed_dictionaries(
            {
                "plot": st.just("library"),
                "to": st.sampled_from(["matplotlib", "plotly"]),
            }
        ),
    )


def case():
    return st.fixed_dictionaries(
        {"scene": S.scene(), "calls": st.lists(call(), min_size=1, max_size=3)}
    )


def form(v, how):
    v = np.asarray(v)
    return {"none": None, "list": v.tolist(), "array": v.copy()}[how]


def draw(s, o):
    """The figure and the arguments."""
    c = s.c
    kw = {"display": False}
    if c.which_plotting_library() == "plotly":
        kw["return_jsonstring"] = True
    k = o["plot"]
    if k == "fit":
        kw["fit_coeff"] = form(s.coeff, o["coeff"])
        if kw["fit_coeff"] is None:
            c.fit_coeff = s.coeff.copy()
        if o["direct"] and kw["fit_coeff"] is None:
            kw["fit_coeff"] = s.coeff.copy()
        y = s.p.spectrum(base=3.0)[s.pixel_list]
        kw["spectrum"] = {
            "none": None,
            "array": y,
            "list": y.tolist(),
            "int": np.round(y).astype(int),
            "negative": y - 20.0,
        }[o["spectrum"]]
        if o["tolerance"] is not None:
            kw["tolerance"] = o["tolerance"]
        kw["plot_atlas"] = o["plot_atlas"]
        kw["log_spectrum"] = o["log"]
        f = plotting.plot_fit if o["direct"] else c.plot_fit
    elif k == "arc":
        kw["pixel_list"] = form(s.pixel_list, o["pixels"])
        kw["log_spectrum"] = o["log"]
        f = plotting.plot_arc if o["direct"] else c.plot_arc
    else:
        kw["fit_coeff"] = form(s.coeff, o["coeff"])
        if o["top"] is not None:
            kw["top_n_candidate"] = o["top"]
        kw["weighted"] = o["weighted"]
        f = plotting.plot_search_space if o["direct"] else c.plot_search_space
    args = (c,) if o["direct"] else ()
    before = S.plain(kw)
    old = S.state(c)
    atlas = S.plain(atlas_content(s.atlas))
    spectrum = S.plain(s.spectrum)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        fig = f(*args, **kw)
        out = fig if isinstance(fig, str) else S.mpl_print(fig)
    S.close()
    what = "%s with %s" % (k, {n: v for n, v in o.items() if n != "plot"})
    require(S.plain(kw) == before, "the arguments of %s are modified", what)
    new = S.state(c)
    require(
        S.difference(old, new) == [],
        "%s changes %s of the calibrator",
        what,
        S.difference(old, new),
    )
    require(
        S.plain(atlas_content(s.atlas)) == atlas, "%s changes the atlas", what
    )
    require(
        S.plain(s.spectrum) == spectrum, "%s changes the caller's spectrum", what
    )
    return out, what


def atlas_content(a):
    return [a.get_elements(), a.get_lines(), a.get_intensities()]


def possible(s, o):
    c = s.c
    lib = c.which_plotting_library()
    if o["plot"] == "arc":
        return True
    if o["plot"] == "search":
        return s.has_candidates() and len(c.pairs) > 0
    tol = o["tolerance"] or 5.0
    if lib == "plotly":
        x = s.val(np.array(list(c.peaks)), s.coeff)
        d = np.abs(x[:, None] - np.array(s.p.lines)[None, :]).min(axis=1)
        return bool((d < 0.9 * tol).any())
    return True


def check(case, rec):
    s = S.Scene(case["scene"])
    if not s.ok:
        return
    done = []
    first = {}
    for o in case["calls"]:
        if o["plot"] == "library":
            getattr(s.c, "use_" + o["to"])()
            continue
        if not possible(s, o):
            continue
        a, what = draw(s, o)
        first.setdefault((repr(o), s.c.which_plotting_library()), a)
        b, what = draw(s, o)
        require(a == b, "%s drawn again differs", what)
        done.append(o)
    # once more after all the others
    for o in done:
        key = (repr(o), s.c.which_plotting_library())
        if key in first:
            b, what = draw(s, o)
            require(first[key] == b, "%s drawn after the others differs", what)
    for o in done:
        rec.label("%s" % o["plot"])
        if o.get("log"):
            rec.label("log")
    rec.label(s.case["spectrum"])
    rec.nontrivial(len(done) > 0 and s.spectrum is not None)


# the plot of the expected lines ---------------------------------------------
def arc_case():
    return st.fixed_dictionaries(
        {
            "elements": st.lists(
                st.sampled_from(["He", "ne", "Xe", "Cu"]),
                min_size=1,
                max_size=3,
                unique=True,
            ),
            "array": st.booleans(),
            "lo": st.sampled_from([4000.0, 5000.0, 5850.0]),
            "width": st.sampled_from([150.0, 400.0]),
            "log": st.booleans(),
            "label": st.booleans(),
            "brightest": st.sampled_from([None, 5]),
            "min_intensity": st.sampled_from([5.0, 50.0]),
        }
    )


def check_arc(case, rec):
    e = np.array(case["elements"]) if case["array"] else list(case["elements"])
    kw = dict(
        elements=e,
        min_atlas_wavelength=case["lo"],
        max_atlas_wavelength=case["lo"] + case["width"],
        min_intensity=case["min_intensity"],
        brightest_n_lines=case["brightest"],
        log=case["log"],
        label=case["label"],
        fig_kwarg={"figsize": (6, 4)},
        display=False,
    )
    from rascal.util import load_calibration_lines

    n = len(
        load_calibration_lines(
            list(e),
            min_atlas_wavelength=case["lo"],
            max_atlas_wavelength=case["lo"] + case["width"],
            min_intensity=case["min_intensity"],
            brightest_n_lines=case["brightest"],
        )[0]
    )
    if n == 0:
        return
    before = S.plain(kw)
    out = []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for _ in range(2):
            fig = plotting.plot_calibration_lines(**kw)
            out.append(S.mpl_print(fig))
            S.close()
            require(S.plain(kw) == before, "the arguments are modified")
    require(out[0] == out[1], "the plot drawn again differs")
    rec.nontrivial(n > 2)


TESTS = [
    Test(
        "calibrator",
        case,
        check,
        quick=300,
        thorough=4000,
        shards=8,
        rule="a plot of a calibrator with a spectrum, drawn again",
    ),
    Test(
        "lines",
        arc_case,
        check_arc,
        quick=24,
        thorough=400,
        shards=8,
        rule="more than two lines",
    ),
]
