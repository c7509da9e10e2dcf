"""In-memory CSV files whose cells may be symbolic numbers (symbolic runs only).

A cell written as a symbolic number is read back as a SymText: text that is never
empty and that float()/int() turn back into the same number, as Python's repr/float
pair does for finite floats.  Everything else becomes the text csv would write."""
from __future__ import annotations

import builtins
import contextlib
import csv
import io
import os
import sys
import tempfile

from .core import Sym


class SymText:
    def __init__(self, v):
        self._symval = v

    def __bool__(self):
        return True

    def __len__(self):
        return 5

    def strip(self, *a):
        return self

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __str__(self):
        return "<number>"


class VFile:
    def __init__(self, store, path, mode):
        self.store, self.path = store, path
        if "w" in mode:
            self.rows = store[path] = []
        else:
            if path not in store:
                raise FileNotFoundError(path)
            self.rows = store[path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _cell(v):
    if isinstance(v, Sym):
        return SymText(v)
    if v is None:
        return ""
    return repr(v) if isinstance(v, float) else str(v)


class _Writer:
    def __init__(self, f):
        self.f = f

    def writerow(self, row):
        self.f.rows.append([_cell(v) for v in row])

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


@contextlib.contextmanager
def files(h):
    """Yields a function name -> path usable by the code under test."""
    if not h.symbolic:
        with tempfile.TemporaryDirectory(prefix="symx_csv_") as d:
            yield lambda n: os.path.join(d, n)
        return
    store = {}
    ow, orr, od = csv.writer, csv.reader, csv.DictReader

    def op(path, mode="r", *a, **kw):
        if isinstance(path, str) and path.startswith("/symx-virtual/"):
            return VFile(store, path, mode)
        return builtins.open(path, mode, *a, **kw)

    csv.writer = lambda f, *a, **kw: _Writer(f) if isinstance(f, VFile) else ow(f, *a, **kw)
    csv.reader = lambda f, *a, **kw: iter([list(r) for r in f.rows]) if isinstance(f, VFile) else orr(f, *a, **kw)
    mods = [m for n, m in sys.modules.items() if m is not None and n.startswith("ecoengine") and ".tests" not in n]
    had = {id(m): m.__dict__.get("open") for m in mods}
    for m in mods:
        m.__dict__["open"] = op
    try:
        yield lambda n: "/symx-virtual/" + n
    finally:
        csv.writer, csv.reader, csv.DictReader = ow, orr, od
        for m in mods:
            if had[id(m)] is None:
                m.__dict__.pop("open", None)
            else:
                m.__dict__["open"] = had[id(m)]


def rows_of(h, path):
    """The rows of a file written by the code under test."""
    if not h.symbolic:
        with builtins.open(path, newline="") as f:
            return [list(r) for r in csv.reader(f)]
    m = next(m for n, m in sys.modules.items() if m is not None and n.startswith("ecoengine") and "open" in m.__dict__)
    return [list(r) for r in m.__dict__["open"](path, "r").rows]


def cell_num(c):
    return c._symval if isinstance(c, SymText) else float(c)
