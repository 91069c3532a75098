"""Shared strategies and helpers.  Strategies give JSON-serialisable cases."""
import csv
import functools
import os

import numpy as np
from hypothesis import strategies as st

ELEMENTS = ["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cd", "Cu"]
SYMS = ["He", "Ne", "Ar", "Kr", "Xe", "Hg", "Cd", "Cu", "Th", "H", "Fe"]


def respell(sym, mode):
    return [sym, sym.lower(), sym.upper(), sym.swapcase()][mode % 4]


def dyadic(lo, hi, den=16):
    """Floats whose sums and differences are exact."""
    return st.integers(int(lo * den), int(hi * den)).map(lambda i: i / den)


def fl(lo, hi):
    return st.floats(
        lo, hi, allow_nan=False, allow_infinity=False, width=64
    )


def nice(lo, hi, decimals=4):
    """Decimal floats, shrinking to simple ones."""
    k = 10**decimals
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(
        lambda i: i / k
    )


def air():
    """Pressure, temperature, relative humidity."""
    return st.fixed_dictionaries(
        {
            "pressure": st.one_of(
                st.just(101325.0), nice(20000, 110000, 1)
            ),
            "temperature": st.one_of(st.just(273.15), nice(253, 318, 2)),
            "relative_humidity": st.one_of(st.just(0.0), nice(0, 100, 1)),
        }
    )


def seeds():
    return st.integers(0, 2**32 - 1)


@functools.lru_cache(None)
def builtin():
    """The built-in line list, parsed independently of the code under test."""
    import rascal

    path = os.path.join(
        os.path.dirname(rascal.__file__), "arc_lines", "nist_clean.csv"
    )
    rows = []
    with open(path) as f:
        for r in csv.reader(f):
            if not r or r[0].startswith("#"):
                continue
            rows.append((r[0], float(r[1]), float(r[2])))
    return rows


def write_linelist(path, rows, fmt="%.4f", ifmt=None):
    with open(path, "w") as f:
        for e, w, i in rows:
            i = repr(i) if ifmt is None else ifmt % i
            f.write("%s,%s,%s\n" % (e, fmt % w, i))
    return path


def as_kind(values, kind):
    """list / tuple / array / int array forms of a list of numbers."""
    if kind == "list":
        return list(values)
    if kind == "tuple":
        return tuple(values)
    if kind == "array":
        return np.array(values, dtype=float)
    if kind == "f4":
        return np.array(values, dtype="float32")
    raise ValueError(kind)


def linelist_rows(min_size=0, max_size=30, syms=4, lo=3000, hi=9000, step=None):
    """Rows with distinct wavelengths (4 decimals, at least 0.01 apart)."""
    row = st.tuples(
        st.integers(0, syms - 1),
        st.integers(int(lo * 100), int(hi * 100)).map(lambda i: i / 100),
        st.one_of(
            st.integers(0, 12).map(float),
            st.integers(0, 100000).map(lambda i: i / 10),
        ),
    )
    return st.lists(
        row, min_size=min_size, max_size=max_size, unique_by=lambda r: r[1]
    )
