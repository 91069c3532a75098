"""C26 Plots show the data they claim to show."""
import os
import re
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np
from hypothesis import strategies as st

from vlib import scene as S
from vlib.core import Test, require

ASSUMPTIONS = [
    "panels are identified by their axis titles, data by their values; "
    "colours, styles, legends and drawing order are not specified",
    "matplotlib marks the stored matches as fitted, plotly the peaks closer "
    "to a line than the tolerance (ties within 1e-9 of it are left out)",
    "pixels in logarithm that are not positive (below 1e-6 of the maximum "
    "in the arc plot) are not compared; the text "
    "of a match shows the line to two decimals",
]


def case():
    return st.fixed_dictionaries(
        {
            "scene": S.scene(),
            "plot": st.sampled_from(["fit", "fit", "fit", "search", "arc"]),
            "coeff": st.sampled_from(["stored", "array", "list"]),
            "shift": st.sampled_from([0.0, 0.0, 1.5, -3.0]),
            "own": st.sampled_from(["no", "no", "array", "list"]),
            "tolerance": st.sampled_from([None, 0.5, 3.0, 20.0]),
            "atlas": st.booleans(),
            "log": st.booleans(),
            "solution": st.booleans(),
            "top": st.sampled_from([None, 1, 5]),
            "weighted": st.booleans(),
            "pixels": st.sampled_from(["none", "own", "list"]),
        }
    )


def arr(v):
    return np.asarray(v, dtype=float)


def close(a, b, tol=1e-6):
    a, b = arr(a), arr(b)
    return a.shape == b.shape and (
        a.size == 0 or bool(np.nanmax(np.abs(a - b)) <= tol * max(1, np.nanmax(np.abs(b))))
    )


def same_points(got, want, what):
    got, want = arr(got).reshape(-1, 2), arr(want).reshape(-1, 2)
    g = got[np.lexsort(np.round(got, 5).T[::-1])]
    w = want[np.lexsort(np.round(want, 5).T[::-1])]
    require(
        close(g, w, 1e-7), "%s: shown %s, expected %s", what, g.tolist(), w.tolist()
    )


class Panel:
    """The curves, the marker sets and the vertical and horizontal lines."""

    def __init__(self):
        self.curves, self.marks, self.verticals = [], [], []
        self.level, self.text, self.x, self.y = [], [], "", ""
        # whether the axis itself is logarithmic
        self.log = False
        # what is in view
        self.xlim = self.ylim = None


def from_mpl(fig):
    out = []
    for ax in fig.axes:
        p = Panel()
        p.x, p.y = ax.get_xlabel(), ax.get_ylabel()
        p.log = ax.get_yscale() == "log"
        p.xlim, p.ylim = ax.get_xlim(), ax.get_ylim()
        for l in ax.lines:
            p.curves.append((arr(l.get_xdata()), arr(l.get_ydata())))
        for k in ax.collections:
            if hasattr(k, "get_segments"):
                for s in k.get_segments():
                    s = arr(s)
                    if len(s) == 2 and s[0, 0] == s[1, 0]:
                        p.verticals.append(s)
                    elif len(s) == 2 and s[0, 1] == s[1, 1]:
                        p.level.append(s[0, 1])
            else:
                p.marks.append(arr(k.get_offsets()))
        for t in ax.texts:
            p.text.append((t.get_text(), t.get_position()))
        out.append(p)
    return out


def from_plotly(js):
    d = S.plotly(js)
    lay = d["layout"]
    panels = {}

    def panel(y):
        if y not in panels:
            panels[y] = p = Panel()
            a = lay.get("yaxis" + ("" if y == "y1" else y[1:]), {})
            p.y = (a.get("title") or {}).get("text", "")
            p.log = a.get("type") == "log"
            p.ylim, p.xlim = a.get("range"), lay["xaxis"].get("range")
            if p.log and p.ylim is not None:
                p.ylim = [10.0**v for v in p.ylim]
            p.x = (lay["xaxis"].get("title") or {}).get("text", "")
        return panels[y]

    for t in d["data"]:
        y = t.get("yaxis") or "y1"
        y = "y1" if y == "y" else y
        xy = (arr(t.get("x", [])), arr(t.get("y", [])))
        p = panel(y)
        if t.get("mode") == "markers":
            p.marks.append(np.stack(xy, axis=1) if len(xy[0]) == len(xy[1]) else xy)
        elif len(xy[0]) == 2 and xy[1][0] == xy[1][1]:
            p.level.append(xy[1][0])
        else:
            p.curves.append(xy)
    for s in lay.get("shapes", []):
        y = s.get("yref", "y1")
        y = "y1" if y == "y" else y
        p = panel(y)
        if s["x0"] == s["x1"]:
            p.verticals.append(arr([[s["x0"], s["y0"]], [s["x1"], s["y1"]]]))
    return list(panels.values())


def one(panels, axis, word, what):
    got = [p for p in panels if word in getattr(p, axis).lower()]
    require(
        len(got) == 1,
        "%s: no panel with %s on its %s axis: %s",
        what,
        word,
        axis,
        [(p.x, p.y) for p in panels],
    )
    return got[0]


def curve(p, x, y, what, tol=1e-6):
    for a, b in p.curves:
        if close(a, x) and arr(b).shape == arr(y).shape:
            m = np.isfinite(y)
            if close(arr(b)[m], arr(y)[m], tol):
                return
    require(
        False,
        "%s is not shown: %s against %s; there are %s",
        what,
        arr(y)[:5].tolist(),
        arr(x)[:5].tolist(),
        [(a[:5].tolist(), b[:5].tolist()) for a, b in p.curves],
    )


def in_view(p, x, y, what):
    for v, lim, axis in ((x, p.xlim, "x"), (y, p.ylim, "y")):
        v = arr(v)
        if lim is None or not v.size:
            continue
        # an end left open is chosen by the library
        lo, hi = arr(lim).tolist()
        if not (np.isfinite(lo) and np.isfinite(hi)):
            continue
        lo, hi = min(lo, hi), max(lo, hi)
        d = 1e-6 * (hi - lo)
        require(
            v.min() >= lo - d and v.max() <= hi + d,
            "%s: %s to %s is out of view, the %s axis runs from %s to %s",
            what,
            v.min(),
            v.max(),
            axis,
            lo,
            hi,
        )


def marks(p, want, what):
    want = arr(want).reshape(-1, 2)
    for m in p.marks:
        if isinstance(m, np.ndarray) and len(m) == len(want):
            try:
                same_points(m, want, what)
                return
            except Exception:
                continue
    require(
        False,
        "%s: no markers at %s, but at %s",
        what,
        want.tolist(),
        [arr(m).tolist() if isinstance(m, np.ndarray) else "ragged" for m in p.marks],
    )


def check(case, rec):
    s = S.Scene(case["scene"])
    if not s.ok:
        return
    c = s.c
    lib = c.which_plotting_library()
    kw = {"display": False}
    if lib == "plotly":
        kw["return_jsonstring"] = True
    coeff = s.coeff.copy()
    coeff[0] += case["shift"]
    stored = case["coeff"] == "stored" and case["plot"] == "fit"
    if stored:
        c.fit_coeff = coeff.copy()
    else:
        given = coeff.tolist() if case["coeff"] == "list" else coeff.copy()
    f = {"fit": fit, "search": search, "arc": arc}[case["plot"]]
    if case["plot"] == "fit" and not stored:
        kw["fit_coeff"] = given
    if case["plot"] == "search" and case["solution"]:
        kw["fit_coeff"] = coeff
    f(case, s, coeff, kw, lib, rec)


def draw(f, kw, lib):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        out = f(**kw)
        panels = from_mpl(out) if lib == "matplotlib" else from_plotly(out)
    S.close()
    return panels


def logged(y):
    y = arr(y).copy()
    y[y <= 0] = np.nan
    return np.log10(y)


def fit(case, s, coeff, kw, lib, rec):
    c = s.c
    tol = 5.0 if case["tolerance"] is None else case["tolerance"]
    if case["tolerance"] is not None:
        kw["tolerance"] = tol
    # by default the atlas is drawn, and no logarithm taken
    if not (case["atlas"] and case["solution"]):
        kw["plot_atlas"] = case["atlas"]
    if case["log"] or case["weighted"]:
        kw["log_spectrum"] = case["log"]
    y = s.spectrum
    if case["own"] != "no":
        y = s.p.spectrum(base=2.0, width=3.0)[s.pixel_list]
        kw["spectrum"] = y if case["own"] == "array" else y.tolist()
    peaks = arr(list(c.peaks))
    pred = s.val(peaks, coeff)
    lines = arr(s.p.lines)
    dist = np.abs(pred[:, None] - lines[None, :])
    near = dist.min(axis=1)
    if lib == "matplotlib":
        fp = arr(c.matched_peaks)
        fw = arr(c.matched_atlas)
    else:
        if (np.abs(near - tol) < 1e-9).any() or not (near < tol).any():
            return
        k = near < tol
        fp = peaks[k]
        fw = lines[dist.argmin(axis=1)[k]]
    what = "fit, %s" % lib
    panels = draw(c.plot_fit, kw, lib)
    wave = s.val(arr(s.pixel_list), coeff)
    x = s.val(fp, coeff)
    require(
        any("wavelength" in p.x.lower() for p in panels),
        "%s: the x axis is not labelled a wavelength: %s",
        what,
        [p.x for p in panels],
    )
    # the spectrum
    top = one(panels, "y", "count", what) if y is not None or lib == "matplotlib" else None
    if y is not None:
        # the logarithm is that of the data or that of the axis
        want = logged(y) if case["log"] and not top.log else arr(y)
        require(case["log"] or not top.log, "%s: a logarithmic axis, unasked", what)
        curve(top, wave, want, what + ": the spectrum")
        at = [v[0, 0] for v in top.verticals]
        missing = [v for v in pred if np.abs(arr(at) - v).min() > 1e-6 * abs(v)]
        require(
            not missing, "%s: the detected peaks %s are not marked", what, missing
        )
    # the atlas
    if lib == "matplotlib":
        at = arr([v[0, 0] for v in top.verticals] or [-1e9])
        shown = [np.abs(at - w).min() <= 1e-9 * w for w in lines]
        if case["atlas"]:
            require(all(shown), "%s: lines are not drawn: %s", what, shown)
        else:
            extra = [
                v
                for v in at
                if v > 0
                and np.abs(np.concatenate([pred, x]) - v).min() > 1e-6 * v
            ]
            require(not extra, "%s: lines are drawn unasked: %s", what, extra)
        names = sorted("%s:%.2f" % (s.elems[w], w) for w in fw.tolist())
        got = sorted(re.sub(r"\s", "", t[0]) for t in top.text)
        require(got == names, "%s: labels %s, expected %s", what, got, names)
        for t, pos in top.text:
            w = float(t.split(":")[1])
            require(
                abs(pos[0] - w) <= 10, "%s: the label %s stands at %s", what, t, pos
            )
    # the residuals
    mid = one(panels, "y", "residual", what)
    marks(mid, np.stack([x, fw - x], axis=1), what + ": residuals (line minus prediction)")
    rms = np.sqrt(np.mean((fw - x) ** 2))
    for v in (rms, -rms, 0.0):
        require(
            np.abs(arr(mid.level) - v).min() <= 1e-6 * max(1, rms),
            "%s: no level at %s (the root mean square is %s): %s",
            what,
            v,
            rms,
            mid.level,
        )
    # the solution
    low = one(panels, "y", "pixel", what)
    marks(low, np.stack([x, fp], axis=1), what + ": fitted peaks")
    curve(low, wave, arr(s.pixel_list), what + ": the solution")
    in_view(low, x, fp, what + ": fitted peaks")
    in_view(mid, x, fw - x, what + ": residuals")
    if y is not None:
        best = want[np.isfinite(want)].max()
        if best > 0:
            in_view(top, [], [best], what + ": the brightest pixel")
    rec.label(what + (", log" if case["log"] else ""))
    if case["scene"]["gap"] is not None:
        rec.label("two detectors")
    rec.nontrivial(len(fp) >= 3 and rms > 1e-3)


def search(case, s, coeff, kw, lib, rec):
    c = s.c
    if not s.has_candidates() or len(c.pairs) == 0:
        return
    if case["top"] is not None:
        kw["top_n_candidate"] = case["top"]
    kw["weighted"] = case["weighted"]
    what = "search space, %s" % lib
    panels = draw(c.plot_search_space, kw, lib)
    require(len(panels) == 1, "%s: %d panels", what, len(panels))
    p = panels[0]
    require(
        "pixel" in p.x.lower() and "wavelength" in p.y.lower(),
        "%s: labelled %r and %r",
        what,
        p.x,
        p.y,
    )
    pairs = [(a, b) for a in list(c.peaks) for b in s.p.lines]
    if not case["scene"]["cpoly"]:
        marks(p, pairs, what + ": all pairs")
    cand = [
        (a, b) for t in c.candidates for a, b in zip(list(t[0]), list(t[1]))
    ]
    got = [set(map(tuple, np.round(arr(m), 6).tolist())) for m in p.marks]
    want = set(map(tuple, np.round(arr(cand), 6).tolist()))
    require(
        any(g == want for g in got),
        "%s: the candidate pairs are not shown: %s",
        what,
        [sorted(g)[:5] for g in got],
    )
    best(case, c, p, what)
    low, high = c.min_wavelength, c.max_wavelength
    for v in (low, high):
        for d in (0.0, 200.0, -200.0):
            require(
                np.abs(arr(p.level or [-1e9]) - (v + d)).min() <= 1e-6 * v,
                "%s: no level at the limit %s with tolerance %s: %s",
                what,
                v,
                d,
                p.level,
            )
    # and the region between them
    x = arr(s.pixel_list)
    for d in (0.0, 200.0, -200.0):
        curve(p, x, low + d + (high - low) * x / x.max(), what + ": the region")
    in_view(p, [0.0, x.max()], [low - 200.0, high + 200.0], what)
    if case["solution"]:
        x = arr(list(c.peaks))
        marks(p, np.stack([x, s.val(x, coeff)], axis=1), what + ": the solution")
    rec.label(what)
    rec.nontrivial(len(want) >= 3)


def best(case, c, p, what):
    """The most supported lines of each peak, as many as were asked for."""
    top = case["top"] or 3
    votes = {}
    for t in c.candidates:
        for x, w, q in zip(list(t[0]), list(t[1]), list(t[2])):
            d = votes.setdefault(round(float(x), 6), {})
            w = round(float(w), 6)
            d[w] = d.get(w, 0.0) + (float(q) if case["weighted"] else 1.0)

    def fits(m):
        got = {}
        for x, w in np.round(arr(m), 6).tolist():
            got.setdefault(x, []).append(w)
        if set(got) != set(votes):
            return False
        for x, ws in got.items():
            d = votes[x]
            if len(set(ws)) < len(ws) or not set(ws) <= set(d):
                return False
            want = sorted(d.values(), reverse=True)[:top]
            have = sorted((d[w] for w in ws), reverse=True)
            if len(have) != len(want) or not np.allclose(have, want, rtol=1e-9):
                return False
        return True

    require(
        any(fits(m) for m in p.marks if isinstance(m, np.ndarray)),
        "%s: the %s best lines of each peak are not shown: %s",
        what,
        top,
        votes,
    )


def arc(case, s, coeff, kw, lib, rec):
    c = s.c
    if s.spectrum is None:
        # nothing to show
        kw["log_spectrum"] = case["log"]
        panels = draw(c.plot_arc, kw, lib)
        require(
            all(len(x) < 3 for p in panels for x, _ in p.curves),
            "a spectrum is shown where there is none",
        )
        return
    y = arr(s.spectrum)
    x = np.arange(len(y))
    if case["pixels"] != "none":
        x = s.pixel_list
        kw["pixel_list"] = x if case["pixels"] == "own" else x.tolist()
    if case["log"] or case["weighted"]:
        kw["log_spectrum"] = case["log"]
    what = "arc, %s" % lib
    panels = draw(c.plot_arc, kw, lib)
    require(len(panels) == 1, "%s: %d panels", what, len(panels))
    p = panels[0]
    require(
        "pixel" in p.x.lower() and "count" in p.y.lower(),
        "%s: labelled %r and %r",
        what,
        p.x,
        p.y,
    )
    y = y / y.max()
    want = y
    require(case["log"] or not p.log, "%s: a logarithmic axis, unasked", what)
    if case["log"] and not p.log:
        want = logged(y)
        want[~(y > 1e-6)] = np.nan
    curve(p, arr(x), want, what + ": the spectrum", 1e-5)
    in_view(p, x, [np.nanmax(want)], what + ": the spectrum")
    at = arr([v[0, 0] for v in p.verticals] or [-1e9])
    missing = [v for v in list(c.peaks) if np.abs(at - v).min() > 1e-6]
    require(not missing, "%s: the peaks %s are not marked", what, missing)
    rec.label(what + (", log" if case["log"] else ""))
    rec.nontrivial()


TESTS = [
    Test(
        "plots",
        case,
        check,
        quick=480,
        thorough=10000,
        shards=8,
        rule="three fitted peaks with residuals, three candidate pairs, or a "
        "spectrum",
    ),
]
