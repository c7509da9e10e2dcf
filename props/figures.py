"""A stand-in for the plotting library that records what is drawn (the real one only accepts plain numbers)."""
import contextlib
import re
import sys
import types

from symx import core


class Obj:
    """Trace, shape or layout: keeps what it was given; a_b is the same as a.b."""

    def __init__(self, kind="", **kw):
        self.__dict__.update(kind=kind, **kw)

    def get(self, name):
        d = self.__dict__
        if name in d:
            return d[name]
        if "_" in name:
            a, b = name.split("_", 1)
            if isinstance(d.get(a), dict):
                return d[a].get(b)
        return None


class Fig:
    def __init__(self, data=None, layout=None, **kw):
        self.data, self.rects, self.layout, self.files, self.html = [], [], Obj("layout"), [], []
        self.xaxes, self.yaxes = [], []
        for t in (data if isinstance(data, (list, tuple)) else [data] if data is not None else []):
            self.add_trace(t)
        if layout:
            self.update_layout(layout)

    def add_trace(self, t, secondary_y=None, row=None, col=None, **kw):
        t.secondary_y, t.row = bool(secondary_y), row
        self.data.append(t)
        return self

    def add_traces(self, ts, **kw):
        for t in ts:
            self.add_trace(t, **kw)
        return self

    def add_scatter(self, secondary_y=None, row=None, col=None, **kw):
        return self.add_trace(Obj("scatter", **kw), secondary_y=secondary_y, row=row, col=col)

    def add_bar(self, secondary_y=None, row=None, col=None, **kw):
        return self.add_trace(Obj("bar", **kw), secondary_y=secondary_y, row=row, col=col)

    def add_vrect(self, x0=None, x1=None, **kw):
        self.rects.append(Obj("rect", x0=x0, x1=x1, **kw))
        return self

    def update_layout(self, d=None, **kw):
        self.layout.__dict__.update(d or {}, **kw)
        return self

    def update_xaxes(self, **kw):
        self.xaxes.append(kw)
        return self

    def update_yaxes(self, **kw):
        self.yaxes.append(kw)
        return self

    def update_traces(self, **kw):
        for t in self.data:
            t.__dict__.update(kw)
        return self

    def write_html(self, f, **kw):
        self.files.append(f)

    def to_html(self, *a, **kw):
        self.html.append(kw)
        return Div(self, kw)

    def show(self, *a, **kw):
        pass


class Div(str):
    def __new__(cls, fig, kw):
        s = str.__new__(cls, "<div>figure</div>")
        s.fig, s.kw = fig, kw
        return s


def text(v):
    """A title, given as text or as dict(text=...)."""
    return v.get("text") if isinstance(v, dict) else v


def title(fig):
    return fig.layout.get("title_text") or text(fig.layout.get("title"))


@contextlib.contextmanager
def plotting():
    go = types.ModuleType("plotly.graph_objects")
    go.Figure, go.Scatter, go.Bar, go.Layout = Fig, (lambda *a, **k: Obj("scatter", **k)), (lambda *a, **k: Obj("bar", **k)), (lambda **k: k)
    go.Scattergl = go.Scatter
    sub = types.ModuleType("plotly.subplots")
    sub.make_subplots = lambda *a, **k: Fig()
    top = types.ModuleType("plotly")
    top.graph_objects, top.graph_objs, top.subplots, top.__path__ = go, go, sub, []
    mods = {"plotly": top, "plotly.graph_objects": go, "plotly.graph_objs": go, "plotly.subplots": sub}
    old = {k: sys.modules.get(k) for k in mods}
    held = []
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("ecoengine"):
            for a, v in list(vars(m).items()):
                n = getattr(v, "__name__", None) if isinstance(v, types.ModuleType) else None
                if n in mods or n == "plotly.graph_objs":
                    held.append((m, a, v))
                    setattr(m, a, mods.get(n, go))
                elif a == "make_subplots":
                    held.append((m, a, v))
                    setattr(m, a, sub.make_subplots)
    sys.modules.update(mods)
    was, core.PRINTED = core.PRINTED, []
    try:
        yield core.PRINTED
    finally:
        core.PRINTED = was
        for m, a, v in held:
            setattr(m, a, v)
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def numbers(s, printed):
    """The numbers a text shows: (value, half a unit of the last digit shown)."""
    out = []
    for tok, num in re.findall(r"\u27e8(\d+)\u27e9|(-?\d+(?:\.\d+)?)", re.sub(r"<[^>]*>", " ", s)):
        if tok:
            out.append((printed[int(tok)], 0.51))
        else:
            out.append((float(num), 0.5001 * 10 ** -(len(num.split(".")[1]) if "." in num else 0)))
    return out
