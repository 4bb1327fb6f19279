"""Concrete replays: the same harness on the real code (real numpy/scipy).

usage: conc.py JOBS.json OUT.json      or      conc.py REPLAY.json
Runs under the repository's own interpreter.
"""
import importlib
import json
import math
import os
import sys
import traceback
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "harness"))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import numpy as np          # noqa: E402
warnings.simplefilter("ignore")


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class AssumeFailed(Exception):
    pass


_MODS = None
_STATE = None


def mods(fresh):
    """real modules, re-imported for every replay (no carried-over state)"""
    for n in [k for k in sys.modules if k == "solidspy" or k.startswith("solidspy.")]:
        del sys.modules[n]
    g = lambda n: importlib.import_module("solidspy." + n)
    import scipy.sparse as sp
    return NS(gau=g("gaussutil"), fem=g("femutil"), ue=g("uelutil"), ass=g("assemutil"),
              pos=g("postprocesor"), pre=g("preprocesor"), bloch=g("blochutil"),
              sol=g("solutil"), gui=g("solids_GUI"), csr_matrix=sp.csr_matrix,
              coo_matrix=sp.coo_matrix)


class ConcCtx:
    mode = "conc"

    def __init__(self, inputs, tier="quick", seed=None):
        import random
        self.inputs = inputs
        self.rng = random.Random(seed if seed is not None else 0)
        self.tier = tier
        self.np = np
        self.res = []
        self._m = None
        self._rec = None

    @property
    def m(self):
        if self._m is None:
            self._m = mods(True)
            self.record()
        return self._m

    def pristine(self, fn):
        self.m
        old = self._m
        mine = {k: v for k, v in sys.modules.items() if k == "solidspy" or k.startswith("solidspy.")}
        self._m = mods(True)
        try:
            return fn()
        finally:
            for k in [k for k in sys.modules if k == "solidspy" or k.startswith("solidspy.")]:
                del sys.modules[k]
            sys.modules.update(mine)
            self._m = old

    def real(self, name, lo, hi, kind="f"):
        if name not in self.inputs:
            self.inputs[name] = self.rng.choice([lo, hi]) if self.rng.random() < .1 else self.rng.uniform(lo, hi)
        return np.float64(self.inputs[name])

    def integer(self, name, lo, hi):
        if name not in self.inputs:
            self.inputs[name] = float(self.rng.randint(int(lo), int(hi)))
        return np.int64(int(round(self.inputs[name])))

    def choice(self, name, options):
        return options[self.is_int(self.integer(name, 0, len(options) - 1))]

    def angle(self, name, lo=-math.pi, hi=math.pi):
        if name not in self.inputs:
            self.inputs[name] = self.rng.uniform(lo, hi)
        t = self.inputs[name]
        return np.float64(math.cos(t)), np.float64(math.sin(t))

    def assume(self, cond):
        if not bool(cond):
            raise AssumeFailed()

    def array(self, x, dtype=None):
        return np.array(x, dtype=dtype) if dtype is not None else np.array(x)

    def farray(self, x):
        return np.array(x, dtype=float)

    def const(self, q):
        return float(q)

    def sqrt(self, x):
        return np.sqrt(x)

    def larger(self, a, b):
        return max(a, b)

    def values(self, a):
        if hasattr(a, "toarray"):
            a = a.toarray()
        return np.asarray(a).tolist()

    def dense(self, a):
        return a.toarray() if hasattr(a, "toarray") else a

    def is_sparse(self, a):
        return hasattr(a, "toarray")

    def is_array(self, a):
        return type(a) is np.ndarray

    def is_int(self, x):
        return int(x)

    def shape(self, a):
        return tuple(a.shape)

    def dtype_kind(self, a):
        return a.dtype.kind

    def cexp(self, re, im):
        return np.exp(complex(re, im))

    def complex(self, re, im):
        return complex(re, im)

    def iscomplex(self, x):
        return isinstance(x, (complex, np.complexfloating))

    def nonfinite(self, x):
        return not np.isfinite(x)

    def csr(self, a):
        import scipy.sparse as sp
        return sp.csr_matrix(a)

    def overwrite(self, a):
        if a.flags.writeable:
            a[...] = 7 if a.dtype.kind != "b" else False

    def assign(self, a, b):
        a[...] = b

    def files(self, tables):
        import tempfile
        self._tmp = tempfile.TemporaryDirectory(prefix="verif_files_")
        for n, rows in tables.items():
            with open(os.path.join(self._tmp.name, n), "w") as f:
                sep = " "
                for r in rows:
                    if isinstance(r, dict):
                        sep = r["sep"]
                        continue
                    if isinstance(r, str):
                        f.write(r + "\n")
                        continue
                    f.write(sep.join(repr(int(x)) if float(x) == int(x) and abs(x) < 1e15 else repr(float(x))
                                     for x in r) + "\n")
        return self._tmp.name + "/"

    def record(self):
        import plots_real
        if self._rec is None:
            self._rec = plots_real.Rec()
        return self._rec

    def plt(self):
        import matplotlib.pyplot as plt
        return plt

    def plots(self):
        return self.record().summary()

    def colour_value(self, c):
        return getattr(c, "value", None)

    def outcome(self, fn, *a, **k):
        try:
            return "ok", fn(*a, **k)
        except Exception as e:      # noqa
            return "raise", e

    def _flat(self, x):
        if hasattr(x, "toarray"):
            x = x.toarray()
        if isinstance(x, (np.ndarray, list, tuple)):
            a = np.asarray(x)
            return tuple(a.shape), list(a.reshape(-1))
        return (), [x]

    def eq(self, label, a, b, tol=1e-9, scale=1.0, rel=None, strict=False):
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb and not (sb == () or len(fb) == 1 and sa == ()):
            self.res.append(dict(label=label, ok=False, why="shape %r != %r" % (sa, sb)))
            return
        if sb == () and sa != ():
            fb = fb * len(fa)
        fa = [complex(x) if np.iscomplexobj(x) else float(x) for x in fa]
        fb = [complex(x) if np.iscomplexobj(x) else float(x) for x in fb]
        mag = max([abs(x) for x in fb if np.isfinite(x)] + [0.0])
        t = max(abs(float(tol * scale)), (1e-14 if strict else 1e-8) * mag, 1e-14 if strict else 1e-12)
        bad = None
        for i, (x, y) in enumerate(zip(fa, fb)):
            if rel is not None:
                t = rel * max(abs(x), abs(y))
            if not (np.isfinite(x) and np.isfinite(y)):
                same = (x == y) or (x != x and y != y)
                if not same:
                    bad = (i, x, y)
                    break
            elif abs(x - y) > t:
                bad = (i, x, y)
                break
        why = None
        if bad:
            idx = tuple(int(q) for q in np.unravel_index(bad[0], sa)) if sa else ()
            why = "entry %s: got %r, expected %r (tolerance %.3g)" % (idx, bad[1], bad[2], t)
        self.res.append(dict(label=label, ok=bad is None, why=why,
                             a=[[x.real, x.imag] if isinstance(x, complex) else x for x in fa]))

    def le(self, label, a, b, tol=0.0):
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        bad = None
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not (float(x) <= float(y) + tol + 1e-9 * max(abs(float(x)), abs(float(y)))):
                bad = (i, float(x), float(y))
                break
        self.res.append(dict(label=label, ok=bad is None,
                             why=None if bad is None else "entry %d: %r > %r" % bad,
                             a=[float(x) for x in fa]))

    def true(self, label, cond):
        ok = bool(cond)
        self.res.append(dict(label=label, ok=ok, why=None if ok else "condition is false"))

    def fail(self, label):
        self.true(label, False)

    def ok(self, label):
        self.true(label, True)


def run_job(job):
    import io
    import contextlib
    out = dict(id=job["id"])
    c = ConcCtx(dict(job["inputs"]), job.get("tier", "quick"), job.get("seed"))
    try:
        mod = importlib.import_module(job["harness"])
        case = {x["name"]: x for x in mod.CASES}[job["case"]]
        with contextlib.redirect_stdout(io.StringIO()):
            case["fn"](c, **case.get("args", {}))
        out["status"] = "ok"
    except AssumeFailed:
        out["status"] = "assume"
    except Exception as e:      # noqa
        out["status"] = "raise"
        out["exc"] = "%s: %s" % (type(e).__name__, e)
        out["etype"] = type(e).__name__
        tb = traceback.extract_tb(e.__traceback__)
        out["in_repo"] = any(f.filename.startswith(REPO) for f in tb)
        out["where"] = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-3:])
    if c._rec is not None:
        c._rec.undo()
    try:
        import matplotlib.pyplot as plt
        plt.close("all")
    except Exception:   # noqa
        pass
    out["res"] = c.res
    return out


def failed(out):
    """text of the failure shown by a replay, or None"""
    if out["status"] == "raise":
        return "raised %s (%s)" % (out["exc"], out["where"])
    for r in out["res"]:
        if not r["ok"]:
            return "%s: %s" % (r["label"], r["why"])
    return None


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        data = json.load(f)
    if len(sys.argv) == 2:
        o = run_job(data["job"])
        w = failed(o)
        print("inputs:", json.dumps(data["job"]["inputs"]))
        print("REPRODUCED: " + w if w else "not reproduced")
        sys.exit(1 if w else 0)
    outs = [run_job(j) for j in data]
    with open(sys.argv[2], "w") as f:
        json.dump(outs, f)
