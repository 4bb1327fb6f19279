"""The two faces of a harness: symbolic (SymCtx) and concrete (conc.ConcCtx)."""
import math
import poly
from poly import Num, Cx, SBool, W, Abort, Unsupported, lift, sand, sor, snot
import symnp
import solver
import loader as L


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class Obl:
    __slots__ = ("label", "a", "b", "tol", "viol", "kind")

    def __init__(self, label, kind, a, b, tol, viol):
        self.label, self.kind, self.a, self.b, self.tol, self.viol = label, kind, a, b, tol, viol


class StopPath(BaseException):
    pass


class SymCtx:
    mode = "sym"

    def __init__(self, explorer, tier="quick"):
        self.ex = explorer
        self.tier = tier
        self.np = symnp.NP
        self.obls = []
        self.loader = L.Loader()
        self._m = None
        symnp.HOOKS.clear()
        import refint
        refint.CONST = lift

    # ---------------- code under test
    @property
    def m(self):
        if self._m is None:
            ld = self.loader.load
            g = lambda n: ld("solidspy." + n)
            self._m = NS(gau=g("gaussutil"), fem=g("femutil"), ue=g("uelutil"),
                         ass=g("assemutil"), pos=g("postprocesor"), pre=g("preprocesor"),
                         bloch=g("blochutil"), sol=g("solutil"), gui=g("solids_GUI"))
            self._m.csr_matrix = symnp.csr_matrix
            self._m.coo_matrix = symnp.coo_matrix
        return self._m

    def pristine(self, fn):
        """fn() with newly imported modules, as in another session"""
        old = self._m, self.loader
        self._m, self.loader = None, L.Loader()
        try:
            return fn()
        finally:
            self._m, self.loader = old

    # ---------------- inputs
    def real(self, name, lo, hi, kind="f"):
        s = poly.new_sym(name, "r", float(lo), float(hi))
        lo, hi = float(lo), float(hi)

        def sample(rng, k):
            if k == 0:
                return lo + (hi - lo) * (0.30 + 0.4 * ((hash_name(name) % 97) / 97.0))
            if k % 5 == 4:
                return rng.choice([lo, hi, lo + (hi - lo) * rng.random()])
            return lo + (hi - lo) * rng.random()
        self.ex.declare(dict(name=name, sample=sample, from_model=lambda v, n=name: v(n)))
        return poly.sym_num(s)

    def integer(self, name, lo, hi):
        s = poly.new_sym(name, "i", int(lo), int(hi))

        def sample(rng, k):
            return float(rng.randint(int(lo), int(hi)))
        self.ex.declare(dict(name=name, sample=sample,
                             from_model=lambda v, n=name: (None if v(n) is None else float(round(v(n))))))
        return poly.sym_num(s)

    def choice(self, name, options):
        i = self.integer(name, 0, len(options) - 1)
        return options[poly.concretize(i)]

    def angle(self, name, lo=-math.pi, hi=math.pi):
        """(cos, sin) of a symbolic angle"""
        def rng_of(f, crit):
            vals = [f(lo), f(hi)]
            k = math.ceil((lo - crit) / math.pi)
            while crit + k * math.pi <= hi:
                vals.append(f(crit + k * math.pi))
                k += 1
            a, b = min(vals), max(vals)
            return max(-1.0, a - 1e-12), min(1.0, b + 1e-12)
        t = poly.new_sym(name, "r", lo, hi)
        c = poly.new_sym("cos(%s)" % name, "r", *rng_of(math.cos, 0.0), role="trig")
        s = poly.new_sym("sin(%s)" % name, "r", *rng_of(math.sin, math.pi / 2), role="trig")
        c.ev = lambda ev: math.cos(ev.sym(t.id))
        s.ev = lambda ev: math.sin(ev.sym(t.id))
        s.sq = lift(1.0) - poly.sym_num(c) * poly.sym_num(c)

        def sample(rng, k):
            if k == 0:
                return lo + (hi - lo) * 0.61803
            return lo + (hi - lo) * rng.random()

        def fm(v):
            x, y = v(c.name), v(s.name)
            if x is None and y is None:
                return None
            if x is None:
                x = math.sqrt(max(0, 1 - y * y))
            if y is None:
                y = math.sqrt(max(0, 1 - x * x))
            a = math.atan2(y, x)
            for q in (a, a + 2 * math.pi, a - 2 * math.pi):
                if lo - 1e-9 <= q <= hi + 1e-9:
                    return q
            return a
        self.ex.declare(dict(name=name, sample=sample, from_model=fm))
        return poly.sym_num(c), poly.sym_num(s)

    def assume(self, cond):
        self.ex.assume(cond)

    # ---------------- values
    def array(self, x, dtype=None):
        return symnp.NP.array(x, dtype=dtype) if dtype is not None else symnp.NP.array(x)

    def farray(self, x):
        return symnp.asarr(x, symnp.F64, copy=True)

    def const(self, q):
        return lift(q)

    def sqrt(self, x):
        return poly.sqrt(x)

    def larger(self, a, b):
        return symnp.NP.maximum(a, b)

    def values(self, a):
        """nested python lists of an array-like"""
        if isinstance(a, symnp.SparseM):
            a = a.toarray()
        return symnp.plain(symnp.asarr(a)).tolist()

    def dense(self, a):
        return a.toarray() if isinstance(a, symnp.SparseM) else a

    def is_sparse(self, a):
        return isinstance(a, symnp.SparseM)

    def is_array(self, a):
        return isinstance(a, symnp.SArr)

    def is_int(self, x):
        """integer-valued known concretely -> python int"""
        return poly.concretize(x)

    def shape(self, a):
        return tuple(a.shape)

    def dtype_kind(self, a):
        return a.dtype.kind

    def cexp(self, re, im):
        """exp(re + i*im)"""
        return poly.exp(Cx(lift(re), lift(im)))

    def complex(self, re, im):
        return Cx(lift(re), lift(im))

    def iscomplex(self, x):
        return isinstance(x, Cx)

    def nonfinite(self, x):
        return poly._nonfinite(x)

    def csr(self, a):
        return symnp.csr_matrix(a)

    def overwrite(self, a):
        """change every entry of an array in place"""
        a[...] = 7 if a.dtype.kind != "b" else False

    def assign(self, a, b):
        """write the entries of b into a"""
        a[...] = b

    def files(self, tables):
        """a folder with text tables -> path prefix to hand to readin"""
        d = "/verif-virtual-folder/"
        symnp.HOOKS["files"] = {d + n: rows for n, rows in tables.items()}
        return d

    # ---------------- figures
    def plt(self):
        """the pyplot module the code under test draws with"""
        return self.loader.plt

    def plots(self):
        """what was drawn so far, figure by figure"""
        import plots
        return plots.summary(self.loader.plt)

    def colour_value(self, c):
        """the value whose colour (seismic map) was used"""
        return getattr(c, "value", None)

    # ---------------- exceptions
    def outcome(self, fn, *a, **k):
        """('ok', value) or ('raise', exception)"""
        try:
            return "ok", fn(*a, **k)
        except Unsupported:
            raise
        except Exception as e:          # noqa
            if self.ex.aborted:
                raise Abort(self.ex.aborted)
            return "raise", e

    # ---------------- obligations
    def _flat(self, x):
        if isinstance(x, symnp.SparseM):
            x = x.toarray()
        if isinstance(x, (symnp.SArr, list, tuple)) or hasattr(x, "__array_interface__"):
            a = symnp.asarr(x)
            return tuple(a.shape), list(symnp.plain(a).reshape(-1))
        return (), [x]

    def eq(self, label, a, b, tol=1e-9, scale=1.0, rel=None, strict=False):
        """|a - b| <= tol*scale; with rel given, exact in real arithmetic"""
        if rel is not None:
            tol = 0
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if sa != sb and not (sb == () or len(fb) == 1 and sa == ()):
            self.obls.append(Obl(label, "shape", repr(sa), repr(sb), 0, True))
            return
        if sb == () and sa != ():
            fb = fb * len(fa)
        vs = []
        t = lift(tol) * scale
        for x, y in zip(fa, fb):
            vs.append(_viol(x, y, t))
        self.obls.append(Obl(label, "eq", fa, fb, t, vs))

    def le(self, label, a, b, tol=0.0):
        """a <= b + tol elementwise"""
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        vs = []
        for x, y in zip(fa, fb):
            if poly._nonfinite(x) or poly._nonfinite(y):
                vs.append(True)
                continue
            d = lift(x) - lift(y) - tol
            vs.append(solver.atom_raw(d, ">"))
        self.obls.append(Obl(label, "le", fa, fb, tol, vs))

    def true(self, label, cond):
        if isinstance(cond, SBool):
            v = snot(cond)
        else:
            v = not bool(cond)
        self.obls.append(Obl(label, "true", [], [], 0, [v]))

    def fail(self, label):
        self.true(label, False)

    def ok(self, label):
        self.true(label, True)


def _viol(x, y, t):
    nx, ny = poly._nonfinite(x), poly._nonfinite(y)
    if nx or ny:
        return not (nx and ny and (x == y or (x != x and y != y)))
    x, y = lift(x), lift(y)
    if x is None or y is None:
        return True
    if isinstance(x, Cx) or isinstance(y, Cx):
        x = x if isinstance(x, Cx) else Cx(x, lift(0.0))
        y = y if isinstance(y, Cx) else Cx(y, lift(0.0))
        return sor(_viol(x.re, y.re, t), _viol(x.im, y.im, t))
    d = poly.reduce_defs(x - y) if _has_def(x) or _has_def(y) else x - y
    d = poly.reduce_zeros(d)
    return sor(solver.atom_raw(d - t, ">"), solver.atom_raw(-d - t, ">"))


def raw_viol(x, y, t):
    """violation of |x - y| <= t without simplification (real values only)"""
    if poly._nonfinite(x) or poly._nonfinite(y) or isinstance(x, Cx) or isinstance(y, Cx):
        return []
    d = lift(x) - lift(y)
    return [] if d.is_const() else [solver.atom_raw(d - t, ">"), solver.atom_raw(-d - t, ">")]


def _has_def(n):
    for m in n.t:
        for s, e in W.monos[m]:
            if W.syms[s].defn is not None:
                return True
    return False


def hash_name(s):
    h = 7
    for ch in s:
        h = (h * 31 + ord(ch)) % 1000003
    return h
