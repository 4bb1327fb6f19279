"""Records what the real matplotlib is asked to draw (replays)."""
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from matplotlib.axes import Axes
from matplotlib.figure import Figure
from matplotlib.tri import Triangulation


class Tok(tuple):
    pass


class Rec:
    def __init__(self):
        self.old = []
        self.figs = {}
        self.order = []
        rec = self

        def patch(cls, name, make):
            orig = getattr(cls, name)
            self.old.append((cls, name, orig))
            setattr(cls, name, make(orig))

        def of(ax):
            f = ax.figure if isinstance(ax, Axes) else ax
            if id(f) not in rec.figs:
                rec.figs[id(f)] = dict(fig=f, label=f.get_label(), number=getattr(f, "number", None), draws=[], title="", saved=[])
                rec.order.append(id(f))
            return rec.figs[id(f)]

        def tri(kind):
            def make(orig):
                def g(ax, *a, **k):
                    r = orig(ax, *a, **k)
                    t = a[0] if isinstance(a[0], Triangulation) else None
                    d = dict(kind=kind, tri=t, z=np.asarray(a[1]).tolist())
                    if kind == "contourf":
                        d["levels"] = a[2] if len(a) > 2 else k.get("levels")
                    else:
                        d["shading"] = k.get("shading", "flat")
                    of(ax)["draws"].append(d)
                    return r
                return g
            return make

        def mline(orig):
            def g(ax, *a, **k):
                r = orig(ax, *a, **k)
                of(ax)["draws"].append(dict(kind="line", x=np.asarray(a[0]).tolist(), y=np.asarray(a[1]).tolist(),
                                            color=k.get("color", k.get("c")), lw=k.get("lw", k.get("linewidth"))))
                return r
            return g

        def mtitle(orig):
            def g(ax, s, *a, **k):
                of(ax)["title"] = s
                return orig(ax, s, *a, **k)
            return g

        def msave(orig):
            def g(fig, name, *a, **k):      # recorded, not written
                e = of(fig)
                e["saved"].append((name, len(e["draws"])))
            return g
        patch(Axes, "tricontourf", tri("contourf"))
        patch(Axes, "tripcolor", tri("pcolor"))
        patch(Axes, "plot", mline)
        patch(Axes, "set_title", mtitle)
        patch(Figure, "savefig", msave)
        orig = plt.cm.seismic

        class Map:
            def __call__(self, v, *a, **k):
                if np.ndim(v):
                    return [self(x) for x in v]
                t = Tok(orig(v, *a, **k))
                t.value = v
                return t

            def __getattr__(self, n):
                return getattr(orig, n)
        self.old.append((plt.cm, "seismic", orig))
        plt.cm.seismic = Map()
        og = plt.get_cmap
        self.old.append((plt, "get_cmap", og))
        plt.get_cmap = lambda name=None, *a: plt.cm.seismic if name == "seismic" else og(name, *a)

    def undo(self):
        for o, n, v in self.old[::-1]:
            setattr(o, n, v)
        self.old = []

    def summary(self):
        return [{k: v for k, v in self.figs[i].items() if k != "fig"} for i in self.order
                if self.figs[i]["draws"] or self.figs[i]["title"] or self.figs[i]["saved"]]
