"""Loads /repo's real source with numpy/scipy/matplotlib/math replaced.

The source files are read and compiled anew on every run; nothing is cached on
disk and nothing is translated by hand.
"""
import builtins
import os
import sys
import types
import symnp

REPO = os.environ.get("VERIF_REPO", "/repo")
_CODE = {}
SEEN = set()          # functions of the repository that were executed


class Dummy:
    """accepts everything (plotting)"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Dummy()

    def __call__(self, *a, **k):
        return Dummy()

    def __iter__(self):
        return iter((Dummy(), Dummy()))

    def __getitem__(self, k):
        return Dummy()

    def __setitem__(self, k, v):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Triangulation:
    def __init__(self, x, y, triangles=None, mask=None):
        self.x, self.y = symnp.asarr(x), symnp.asarr(y)
        self.triangles = symnp.asarr(triangles)
        if self.x.shape != self.y.shape or self.x.ndim != 1:
            raise ValueError("x and y must be equal-length 1D arrays")
        if self.triangles.ndim != 2 or self.triangles.shape[1] != 3:
            raise ValueError("triangles must be a 2D array of shape (?, 3)")


class FakeModule(types.ModuleType):
    def __init__(self, name):
        super().__init__(name)
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Dummy()


def code_of(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        c = _CODE[path] = compile(src, path, "exec")
    return c


class Loader:
    def __init__(self):
        self.mods = {}
        self.printed = []
        self.plots = []
        self.ext = {"numpy": symnp.NP, "numpy.linalg": None, "math": symnp.make_math(),
                    "cmath": symnp.make_cmath()}
        la = types.ModuleType("numpy.linalg")
        for n in dir(symnp.LINALG):
            if not n.startswith("_"):
                setattr(la, n, getattr(symnp.LINALG, n))
        self.ext["numpy.linalg"] = la
        self.ext["numpy.testing"] = symnp.NP.testing
        self.ext.update(symnp.make_scipy())
        mpl = FakeModule("matplotlib")
        import plots
        plt = plots.PyPlot()
        tri = FakeModule("matplotlib.tri")
        tri.Triangulation = Triangulation
        mpl.pyplot, mpl.tri = plt, tri
        self.ext.update({"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.tri": tri})
        self.plt = plt
        b = types.ModuleType("builtins")
        b.__dict__.update(builtins.__dict__)
        b.__import__ = self.imp
        b.print = lambda *a, **k: self.printed.append(a)
        b.float = symnp.SFloat
        b.int = symnp.SInt
        b.open = symnp.v_open
        self.builtins = b

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.rsplit(".", level - 1)[0] if level > 1 else pkg
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "solidspy":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and hasattr(m, "__path__"):
                        if os.path.exists(self.path(name + "." + f)):
                            self.load(name + "." + f)
                return m
            return self.mods["solidspy"]
        if name in self.ext:
            return self.ext[name] if fromlist else self.ext[top]
        if top in ("matplotlib",):
            m = self.ext.setdefault(name, FakeModule(name))
            return m if fromlist else self.ext[top]
        if top in ("numpy",):
            import importlib
            m = importlib.import_module(name)
            return m if fromlist else self.ext["numpy"]
        if top in ("scipy",):
            raise symnp.Unsupported("import of %s" % name)
        if top in ("easygui", "meshio", "tkinter"):
            raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        p = self.path(name)
        if not os.path.exists(p):
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__dict__["__builtins__"] = self.builtins.__dict__
        if p.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(p)]
            m.__package__ = name
        else:
            m.__package__ = name.rsplit(".", 1)[0]
        self.mods[name] = m
        if name == "solidspy":
            # the package __init__ pulls in the GUI module; load lazily instead
            self.solidspy_init(m)
        else:
            exec(code_of(p), m.__dict__)
        if "." in name:
            setattr(self.mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        return m

    def solidspy_init(self, m):
        exec(code_of(m.__file__), m.__dict__)


def start_tracking():
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return

    def cb(code, off):
        if code.co_filename.startswith(REPO + "/"):
            n = code.co_qualname
            if n != "<module>":
                SEEN.add(os.path.basename(code.co_filename)[:-3] + "." + n)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
