"""C27 Plot output options do what they say."""
import contextlib
import json
import os
import shutil
import tempfile
import warnings
from unittest import mock

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np
from hypothesis import strategies as st

from rascal import plotting
from rascal.calibrator import Calibrator
from rascal.util import load_calibration_lines
from vlib import scene as S
from vlib.core import Test, require

ASSUMPTIONS = [
    "file names without an extension of a supported type; by default the files of a plot share a "
    "stem in the working directory; supported types: jpg, png, svg, pdf, and "
    "iframe with plotly",
    "if plotly cannot write images in this sandbox, they are not requested",
    "what is shown on the screen is what goes through the show functions of "
    "matplotlib and plotly, which the check replaces; the default of display "
    "is open, and so is showing a search space returned as a JSON string",
    "an unknown library name selects nothing",
    "plot of expected arc lines: one to three built-in elements, windows of "
    "600 A at most, no threshold within 1e-3 of a value; the loader is "
    "decided by C01 and C02",
]
LIBS = ["matplotlib", "plotly"]
MAGIC = {
    "png": lambda b: b[:8] == b"\x89PNG\r\n\x1a\n",
    "jpg": lambda b: b[:2] == b"\xff\xd8",
    "pdf": lambda b: b[:4] == b"%PDF",
    "svg": lambda b: b"<svg" in b[:2000],
    "iframe": lambda b: b"plotly" in b and b"<html" in b[:200].lower(),
}


# the library ----------------------------------------------------------------
def lib_op():
    return st.one_of(
        st.sampled_from(LIBS).map(lambda v: ["use", v]),
        st.sampled_from(LIBS + [None, "gnuplot"]).map(lambda v: ["set", v]),
        st.sampled_from(["num_pix", "pixel_list", "log_level", "logger"]).map(
            lambda v: ["other", v]
        ),
        st.sampled_from([3500.0, 4000.0]).map(lambda v: ["hough", v]),
        st.sampled_from([3, 5]).map(lambda v: ["ransac", v]),
        st.just(["plot", 0]),
        st.just(["second", 0]),
    )


def lib_case():
    return st.fixed_dictionaries(
        {
            "ops": st.lists(lib_op(), min_size=1, max_size=10),
            "spectrum": st.booleans(),
        }
    )


def check_lib(case, rec):
    y = 1.0 + np.arange(50) % 9
    c = Calibrator([8.0, 17.0, 35.0], y)
    lib = "matplotlib"
    changes = 0
    for k, v in case["ops"]:
        if k == "use":
            getattr(c, "use_" + v)()
            changes += lib != v
            lib = v
        elif k == "set":
            kw = {} if v is None else {"plotting_library": v}
            c.set_calibrator_properties(log_level="critical", **kw)
            if v in LIBS:
                changes += lib != v
                lib = v
        elif k == "other":
            kw = {
                "num_pix": {"num_pix": 50},
                "pixel_list": {"pixel_list": np.arange(50)},
                "log_level": {"log_level": "critical"},
                "logger": {"logger_name": "c27", "log_level": "critical"},
            }[v]
            c.set_calibrator_properties(**kw)
        elif k == "hough":
            c.set_hough_properties(min_wavelength=v)
        elif k == "ransac":
            c.set_ransac_properties(sample_size=v)
        elif k == "second":
            d = Calibrator([1.0, 2.0], y)
            d.use_plotly()
        got = c.which_plotting_library()
        require(got == lib, "%s is used instead of %s after %s", got, lib, [k, v])
        if k == "plot":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = c.plot_arc(display=False, return_jsonstring=True)
            S.close()
            require(
                isinstance(out, str) == (lib == "plotly"),
                "a plot with %s is a %s",
                lib,
                type(out),
            )
    rec.nontrivial(changes >= 1 and case["ops"][-1][0] != "use")


# saving ---------------------------------------------------------------------
def save_call():
    return st.fixed_dictionaries(
        {
            "plot": st.sampled_from(["fit", "arc", "search"]),
            "lib": st.sampled_from(LIBS),
            "save": st.sampled_from([True, True, True, False, None]),
            "types": st.one_of(
                st.none(),
                st.lists(
                    st.sampled_from(
                        ["png", "jpg", "svg", "pdf", "iframe", "iframe", "gif", "txt"]
                    ),
                    min_size=1,
                    max_size=4,
                    unique=True,
                ),
            ),
            "name": st.sampled_from(
                [None, "a", "my plot", "sub/b", "abs", "arc.night1", "v1.2/n.3"]
            ),
            "json": st.sampled_from([None, True, False]),
            "display": st.sampled_from([False, False, True]),
            "renderer": st.sampled_from([None, "default", "json", "svg"]),
        }
    )


@contextlib.contextmanager
def screen():
    """Records what would appear on a screen, and how."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    import plotly.basedatatypes as bd
    import plotly.io as pio

    shown = []

    def of(name):
        return lambda *a, **k: shown.append(
            (name, [v for v in a if isinstance(v, str)] + list(map(str, k.values())))
        )

    with contextlib.ExitStack() as e:
        for lib, owner in (
            ("matplotlib", plt),
            ("matplotlib", matplotlib.figure.Figure),
            ("plotly", bd.BaseFigure),
            ("plotly", pio),
        ):
            e.enter_context(mock.patch.object(owner, "show", of(lib)))
        yield shown


def check_screen(shown, lib, asked, renderer, what):
    require(
        {n for n, _ in shown} == ({lib} if asked else set()),
        "%s: shown on the screen: %s",
        what,
        shown,
    )
    if asked and lib == "plotly":
        want = [] if renderer in (None, "default") else [renderer]
        require(
            all(a == want for _, a in shown), "%s: shown by %s", what, shown
        )


def save_case():
    return st.fixed_dictionaries(
        {"scene": S.scene(), "calls": st.lists(save_call(), min_size=1, max_size=4)}
    )


_images = []


def images():
    """Whether plotly can write images here."""
    if not _images:
        import plotly.graph_objects as go
        import plotly.io as pio

        d = tempfile.mkdtemp(prefix="c27-")
        try:
            pio.write_image(go.Figure(), os.path.join(d, "x.png"))
            _images.append(True)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            _images.append(False)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _images[0]


def tree(d):
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def check_save(case, rec):
    s = S.Scene(case["scene"])
    if not s.ok:
        return
    d = tempfile.mkdtemp(prefix="c27-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        os.mkdir("sub")
        os.mkdir("v1.2")
        with open("keep.png", "wb") as f:
            f.write(b"other")
        for o in case["calls"]:
            one_save(s, o, d, rec)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        S.close()


def one_save(s, o, d, rec):
    c = s.c
    lib = o["lib"]
    getattr(c, "use_" + lib)()
    if o["plot"] == "search" and not s.has_candidates():
        return
    kw = {"display": o["display"]}
    if o["renderer"] is not None:
        kw["renderer"] = o["renderer"]
    if o["plot"] == "fit":
        kw["fit_coeff"] = s.coeff
        kw["tolerance"] = 1000.0
    types = o["types"] or ["png"]
    ok = ["jpg", "png", "svg", "pdf"]
    if lib == "plotly":
        ok = ok + ["iframe"]
        if any(t in types for t in ok[:4]) and not images():
            types = ["iframe"]
            o = dict(o, types=types)
    if o["types"]:
        kw["fig_type"] = "+".join(types)
    if o["save"] is not None:
        kw["save_fig"] = o["save"]
    name = os.path.join(d, "c") if o["name"] == "abs" else o["name"]
    if name is not None:
        kw["filename"] = name
    if o["json"] is not None:
        kw["return_jsonstring"] = o["json"]
    before = tree(d)
    f = {"fit": c.plot_fit, "arc": c.plot_arc, "search": c.plot_search_space}
    with warnings.catch_warnings(), np.errstate(all="ignore"), screen() as shown:
        warnings.simplefilter("ignore")
        out = f[o["plot"]](**kw)
    after = tree(d)
    what = "%s with %s, %s" % (o["plot"], lib, {k: v for k, v in kw.items() if k != "fit_coeff"})
    asked = o["display"]
    if lib == "plotly" and o["json"] and asked:
        # not shown where it is documented, open in the search space
        asked = bool(shown) if o["plot"] == "search" else False
    check_screen(shown, lib, asked, o["renderer"], what)
    # the files
    want = [t for t in types if t in ok] if o["save"] else []
    new = {k for k in after if k not in before or after[k] != before[k]}
    lost = set(before) - set(after)
    require(not lost, "%s removes %s", what, lost)
    if name is not None:
        expect = {os.path.relpath(os.path.join(d, name + "." + t), d) for t in want}
        # the same figure may have been saved before
        require(
            new <= expect and expect <= set(after),
            "%s writes %s instead of %s",
            what,
            sorted(new),
            sorted(expect),
        )
    else:
        stems = {os.path.splitext(k)[0] for k in new}
        require(
            len(stems) <= 1
            and {os.path.splitext(k)[1][1:] for k in new} <= set(want)
            and (new or not want or before),
            "%s writes %s",
            what,
            sorted(new),
        )
        expect = new
        if want and not new:
            expect = set()
        if not any(k.startswith("rascal") for k in before):
            require(
                len(new) == len(want), "%s writes %s instead of %s", what, sorted(new), want
            )
    for k in expect:
        t = os.path.splitext(k)[1][1:]
        require(
            len(after[k]) > 0 and MAGIC[t](after[k]),
            "%s: %s is not of its type: %r",
            what,
            k,
            after[k][:20],
        )
    # the value
    if lib == "plotly":
        if o["json"]:
            require(isinstance(out, str), "%s returns %s", what, type(out))
            require("data" in json.loads(out), "%s returns no figure", what)
        else:
            require(not isinstance(out, str), "%s returns a string unasked", what)
    else:
        require(not isinstance(out, str), "%s returns a string", what)
    S.close()
    rec.label(lib + " " + o["plot"])
    rec.nontrivial(len(want) >= 1)


# the expected lines ---------------------------------------------------------
def arc_case():
    return st.fixed_dictionaries(
        {
            "elements": st.lists(
                st.sampled_from(
                    ["Ar", "Cd", "Cu", "He", "Hg", "Kr", "Ne", "Th", "Xe"]
                ),
                min_size=1,
                max_size=3,
                unique=True,
            ),
            "case": st.integers(0, 3),
            "lo": st.integers(30, 90).map(lambda i: i * 100.0),
            "width": st.sampled_from([150.0, 300.0, 600.0]),
            "vacuum": st.booleans(),
            "min_intensity": st.sampled_from(
                [None, 0.5, 10.5, 49.5, 99.5, 199.5]
            ),
            "each": st.booleans(),
            "min_distance": st.sampled_from([None, None, 0.0, 1.5, 5.2, 20.3]),
            "brightest": st.sampled_from([None, None, None, None, 5, 10]),
            "label": st.sampled_from([True, True, False]),
            "log": st.sampled_from([False, False, True]),
            "display": st.sampled_from([False, False, True]),
            "scale": st.sampled_from([0.3, 1.0]),
            "save": st.sampled_from([None, None, "png", "svg+pdf", "jpg+iframe"]),
            "name": st.sampled_from([None, "x", "x.0"]),
        }
    )


def check_arc(case, rec):
    spell = [str, str.lower, str.upper, str.swapcase][case["case"]]
    e = [spell(v) for v in case["elements"]]
    lo, hi = case["lo"], case["lo"] + case["width"]
    base = dict(
        elements=list(e),
        min_atlas_wavelength=lo,
        max_atlas_wavelength=hi,
        vacuum=case["vacuum"],
        brightest_n_lines=case["brightest"],
    )
    sym, wav, inten = load_calibration_lines(
        min_intensity=0.0, min_distance=0.0, **base
    )
    if len(sym) == 0:
        return
    if case["brightest"] is not None:
        # which of equally bright lines are kept is open
        full = np.sort(
            load_calibration_lines(
                min_intensity=0.0, min_distance=0.0, **dict(base, brightest_n_lines=None)
            )[2]
        )[::-1]
        n = case["brightest"]
        if len(full) > n and full[n] == full[n - 1]:
            return
    mi = 5.0 if case["min_intensity"] is None else case["min_intensity"]
    md = 0.0 if case["min_distance"] is None else case["min_distance"]
    thr = {v.lower(): mi for v in e}
    # the lowest one limits a logarithmic axis
    case = dict(case, each=case["each"] and not case["log"])
    if case["each"] and case["min_intensity"] is not None:
        # another one for each element
        thr = {v.lower(): mi + 7 * i for i, v in enumerate(e)}
    if any(abs(i - thr[s.lower()]) < 1e-3 for s, i in zip(sym, inten)):
        return
    keep = np.array([i >= thr[s.lower()] for s, i in zip(sym, inten)], dtype=bool)
    sym2, wav2, int2 = sym[keep], wav[keep], inten[keep]
    if md > 0 and len(wav2) > 1:
        o = np.argsort(wav2)
        sym2, wav2, int2 = sym2[o], wav2[o], int2[o]
        gap = np.diff(wav2)
        if (np.abs(gap - md) < 0.02).any():
            return
        far = gap > md
        keep = np.concatenate([[True], far]) & np.concatenate([far, [True]])
        sym2, wav2, int2 = sym2[keep], wav2[keep], int2[keep]
    if case["log"] and case["min_intensity"] is None and not len(wav2):
        return
    kw = dict(base, display=case["display"], log=case["log"], pixel_scale=case["scale"])
    if case["label"]:
        kw["label"] = True
    if case["min_intensity"] is not None:
        if case["each"]:
            kw["min_intensity"] = [thr[v.lower()] for v in e]
        else:
            kw["min_intensity"] = mi
    if case["min_distance"] is not None:
        kw["min_distance"] = md
    d = tempfile.mkdtemp(prefix="c27-")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if case["save"]:
            kw.update(save_fig=True, fig_type=case["save"])
            if case["name"]:
                kw["filename"] = case["name"]
        with warnings.catch_warnings(), np.errstate(
            all="ignore"
        ), screen() as shown:
            warnings.simplefilter("ignore")
            fig = plotting.plot_calibration_lines(**kw)
        check_screen(shown, "matplotlib", case["display"], None, "expected lines")
        files = tree(d)
        types = [t for t in (case["save"] or "").split("+") if t and t != "iframe"]
        require(
            sorted(os.path.splitext(k)[1][1:] for k in files) == sorted(types),
            "the files %s are written for %s",
            sorted(files),
            case["save"],
        )
        for k, b in files.items():
            stem, t = os.path.splitext(k)
            require(MAGIC[t[1:]](b), "%s is not of its type: %r", k, b[:20])
            require(
                not case["name"] or stem == case["name"],
                "%s is written instead of %s",
                k,
                case["name"],
            )
        require(len(fig.axes) == 1, "%d panels", len(fig.axes))
        ax = fig.axes[0]
        what = "%s" % {k: v for k, v in kw.items()}
        require(
            ax.get_yscale() == ("log" if case["log"] else "linear"),
            "%s: the intensities are shown on a %s scale",
            what,
            ax.get_yscale(),
        )
        medium = ax.get_xlabel().lower()
        require(
            ("vacuum" in medium) == case["vacuum"]
            and ("air" in medium) != case["vacuum"],
            "%s: the wavelengths are labelled %r",
            what,
            ax.get_xlabel(),
        )
        # the labels
        texts = sorted(t.get_text() for t in ax.texts)
        want = (
            sorted(
                "%s: %.2f" % ([v for v in e if v.lower() == s.lower()][0], w)
                for s, w in zip(sym2, wav2)
            )
            if case["label"]
            else []
        )
        require(
            texts == want,
            "%s: labelled %s instead of %s",
            what,
            [t for t in texts if t not in want] or texts,
            [t for t in want if t not in texts] or want,
        )
        # the lines
        bars = set()
        for k in ax.collections:
            for g in getattr(k, "get_segments", list)():
                g = np.asarray(g)
                if len(g) == 2 and g[0][0] == g[1][0] and min(g[0][1], g[1][1]) == 0:
                    bars.add((round(g[0][0], 4), round(max(g[0][1], g[1][1]), 4)))
        marks = {
            (round(float(x), 4), round(float(y), 4))
            for l in ax.lines
            if len(l.get_xdata()) < 5000
            for x, y in zip(l.get_xdata(), l.get_ydata())
        }
        sel = {(round(w, 4), round(i, 4)) for w, i in zip(wav2, int2)}
        missing = sel - (bars | marks)
        require(not missing, "%s: the lines %s are not drawn", what, sorted(missing))
        extra = {b for b in bars if b not in sel}
        require(not extra, "%s: the lines %s are drawn", what, sorted(extra)[:5])
        # the simulated spectrum contains all the lines of the elements
        long = [l for l in ax.lines if len(l.get_xdata()) >= 5000]
        require(len(long) == 1, "%s: %d simulated spectra", what, len(long))
        x = np.asarray(long[0].get_xdata(), dtype=float)
        y = np.asarray(long[0].get_ydata(), dtype=float)
        got = np.interp(wav, x, y)
        low = got < 0.98 * inten - 1e-6 * y.max()
        require(
            not low.any(),
            "%s: the simulated spectrum lacks %s",
            what,
            [(w, i, g) for w, i, g in zip(wav[low], inten[low], got[low])][:5],
        )
        far = np.abs(x[::97][:, None] - wav[None, :]).min(axis=1) > 8 * 2.5 * case["scale"]
        require(
            (np.abs(y[::97][far]) <= 1e-3 * y.max()).all(),
            "%s: the simulated spectrum has light far from any line",
            what,
        )
        rec.nontrivial(len(wav2) >= 2 and len(wav2) < len(wav))
        if case["label"]:
            rec.label("labelled")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        S.close()


TESTS = [
    Test(
        "library",
        lib_case,
        check_lib,
        quick=400,
        thorough=8000,
        shards=8,
        rule="a change of the library before other calls",
    ),
    Test(
        "save",
        save_case,
        check_save,
        quick=140,
        thorough=2500,
        shards=8,
        rule="files requested",
    ),
    Test(
        "lines",
        arc_case,
        check_arc,
        quick=160,
        thorough=3000,
        shards=8,
        rule="at least two lines drawn and some filtered out",
    ),
]
