"""Stand-in for matplotlib.pyplot that records what is drawn (symbolic runs).

log: list of figures in the order they were opened,
     dict(label, number, draws=[...], title, saved=[names], drawn_at_save=[n])
"""
import types
import symnp
from poly import Unsupported


class Tok(tuple):
    """colour that remembers the value it stands for"""


class Toks(list):
    pass


def seismic(v, *a, **k):
    if isinstance(v, symnp.SArr) and v.ndim:
        return Toks(seismic(x) for x in v)
    if isinstance(v, symnp.SArr):
        v = v.item()
    t = Tok((0.0, 0.0, 0.0, 1.0))
    t.value = v
    return t


def take(pos, kw, names, what):
    """keyword arguments of a drawing call that must be understood"""
    bad = set(kw) - set(names)
    if bad:
        raise AttributeError("%s got an unexpected keyword argument %r" % (what, sorted(bad)[0]))


ARTIST = {"alpha", "cmap", "zorder", "label", "antialiased", "vmin", "vmax", "norm", "clip_on", "visible", "rasterized"}


class Axes:
    def __init__(self, fig):
        self.figure = fig

    def tricontourf(self, tri, z, *a, **k):
        take(a, k, ARTIST | {"levels", "colors", "extend", "origin", "locator", "hatches", "extent"}, "tricontourf")
        if len(a) > 1 or (a and "levels" in k):
            raise TypeError("tricontourf: too many arguments")
        z = field(tri, z)
        self.figure.draws.append(dict(kind="contourf", tri=tri, z=z, levels=a[0] if a else k.get("levels")))
        return types.SimpleNamespace()

    def tripcolor(self, tri, z, *a, **k):
        take(a, k, ARTIST | {"shading", "facecolors", "edgecolors"}, "tripcolor")
        if a:
            raise TypeError("tripcolor() takes exactly one field")
        z = field(tri, z)
        self.figure.draws.append(dict(kind="pcolor", tri=tri, z=z, shading=k.get("shading", "flat")))
        return types.SimpleNamespace()

    def plot(self, *a, **k):
        take(a, k, ARTIST | {"color", "c", "lw", "linewidth", "ls", "linestyle", "marker", "solid_capstyle"}, "plot")
        if len(a) not in (2, 3):
            raise Unsupported("plot with %d arguments" % len(a))
        x, y = symnp.asarr(a[0]), symnp.asarr(a[1])
        if x.shape != y.shape:
            raise ValueError("x and y must have same first dimension")
        self.figure.draws.append(dict(kind="line", x=symnp.plain(x).tolist(), y=symnp.plain(y).tolist(),
                                      color=k.get("color", k.get("c")), lw=k.get("lw", k.get("linewidth"))))
        return [types.SimpleNamespace()]

    def set_title(self, s, *a, **k):
        self.figure.title = s

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import loader
        return loader.Dummy()


def field(tri, z):
    if isinstance(z, (list, tuple)):
        z = symnp.asarr(z)
    if z.ndim != 1:
        raise ValueError("z must be a 1-D array")
    if z.shape[0] != tri.x.shape[0]:
        raise ValueError("z array must have same length as triangulation x and y arrays")
    return symnp.plain(z).tolist()


class Figure:
    def __init__(self, log, number, label):
        self.log, self.number, self.label = log, number, label
        self.draws, self.title, self.saved = [], "", []
        self.ax = None

    def gca(self):
        if self.ax is None:
            self.ax = Axes(self)
        return self.ax

    def add_subplot(self, *a, **k):
        return self.gca()

    def savefig(self, name, *a, **k):
        self.saved.append((name, len(self.draws)))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import loader
        return loader.Dummy()


class PyPlot(types.ModuleType):
    def __init__(self):
        super().__init__("matplotlib.pyplot")
        self.__path__ = []
        self.rcParams = {}
        self.log = []
        self._figs = {}
        self._cur = None
        import loader
        self.cm = types.SimpleNamespace(seismic=seismic)
        self._dummy = loader.Dummy

    def get_fignums(self):
        return sorted(self._figs)

    def figure(self, num=None, *a, **k):
        if isinstance(num, str):
            for f in self._figs.values():
                if f.label == num:
                    self._cur = f
                    return f
            label, num = num, None
        else:
            label = ""
        if num is None:
            num = max(self._figs, default=0) + 1
        num = int(num)
        if num not in self._figs:
            self._figs[num] = Figure(self.log, num, label)
            self.log.append(self._figs[num])
        self._cur = self._figs[num]
        return self._cur

    def gcf(self):
        return self._cur or self.figure()

    def gca(self):
        return self.gcf().gca()

    def subplots(self, *a, **k):
        f = self.figure(k.get("num"))
        return f, f.gca()

    def close(self, *a):
        self._figs.clear()
        self._cur = None

    def tricontourf(self, *a, **k):
        return self.gca().tricontourf(*a, **k)

    def tripcolor(self, *a, **k):
        return self.gca().tripcolor(*a, **k)

    def plot(self, *a, **k):
        return self.gca().plot(*a, **k)

    def title(self, s, *a, **k):
        self.gca().set_title(s)

    def savefig(self, name, *a, **k):
        self.gcf().savefig(name)

    def get_cmap(self, name=None, *a):
        if name == "seismic":
            return seismic
        return self._dummy()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self._dummy()


def summary(plt):
    r = []
    for f in plt.log:
        if f.draws or f.title or f.saved:
            r.append(dict(label=f.label, number=f.number, draws=f.draws, title=f.title, saved=f.saved))
    return r
