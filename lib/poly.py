"""Exact symbolic numbers: Laurent polynomials over Q in bounded symbols.

A Num is a finite map  monomial -> rational coefficient.  Symbols carry a box
(lo, hi), an optional definition (``D := poly``), an optional square rule
(``q*q -> poly``) and an evaluator used to concretise.  Formulas (SBool) are
boolean combinations of atoms ``poly <op> 0``.
"""
from fractions import Fraction as Fr
import heapq
import math
import numbers
import operator
import numpy as _np

F0, F1 = Fr(0), Fr(1)
INF = float("inf")


class Unsupported(Exception):
    """The symbolic engine cannot encode what the code does."""


class Abort(BaseException):
    """Path infeasible / engine stop (BaseException: survives `except Exception`)."""


# --------------------------------------------------------------------------
class Sym:
    __slots__ = ("id", "name", "sort", "lo", "hi", "role", "defn", "sq",
                 "ev", "axioms", "spec", "near")

    def __init__(self, id, name, sort, lo, hi, role):
        self.id, self.name, self.sort = id, name, sort
        self.lo, self.hi, self.role = lo, hi, role
        self.defn = None      # Num (for D symbols)
        self.sq = None        # Num (square rule)
        self.ev = None        # callable(evalfn) -> float
        self.axioms = []      # SBool formulas that always hold
        self.spec = None
        self.near = None


class World:
    """All interning tables; reset for every case."""

    def __init__(self):
        self.syms = []
        self.byname = {}
        self.monos = [()]
        self.mid = {(): 0}
        self.mulc = {}
        self.miv = {}
        self.explorer = None
        self.nfresh = 0
        self.fns = {}
        self.defs = {}
        self.defsig = {}
        self.mkey = {}
        self.lin1 = {}
        self.sqrts = {}
        self.zeros = {}      # polynomials that vanish by definition of a solution vector


W = World()


def reset_world():
    W.__init__()


def new_sym(name, sort="r", lo=-INF, hi=INF, role="in"):
    s = W.byname.get(name)
    if s is not None:
        return s
    s = Sym(len(W.syms), name, sort, lo, hi, role)
    W.syms.append(s)
    W.byname[name] = s
    return s


def mono_id(t):
    m = W.mid.get(t)
    if m is None:
        m = len(W.monos)
        W.monos.append(t)
        W.mid[t] = m
    return m


def sym_num(s, exp=1, kind=None):
    return Num({mono_id(((s.id, exp),)): F1},
               kind or ("i" if s.sort == "i" else "f"))


def _mul_mono(i, j):
    """product of two monomials -> int id, or dict (poly) when reduced"""
    if i == 0:
        return j
    if j == 0:
        return i
    key = (i, j) if i <= j else (j, i)
    r = W.mulc.get(key)
    if r is not None:
        return r
    a, b = W.monos[i], W.monos[j]
    d = dict(a)
    for s, e in b:
        n = d.get(s, 0) + e
        if n == 0:
            d.pop(s, None)
        else:
            d[s] = n
    red = [(s, e) for s, e in d.items() if e >= 2 and W.syms[s].sq is not None]
    if not red:
        r = mono_id(tuple(sorted(d.items())))
    else:
        for s, e in red:
            d.pop(s)
            if e % 2:
                d[s] = 1
        base = Num({mono_id(tuple(sorted(d.items()))): F1}, "f")
        for s, e in red:
            for _ in range(e // 2):
                base = base * W.syms[s].sq
        r = base.t
    W.mulc[key] = r
    return r


def _mul_terms(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    get = W.mulc.get
    for i, x in a.items():
        if i == 0:
            if x == 1:
                if not r:
                    r = dict(b)
                    continue
                for j, y in b.items():
                    v = r.get(j)
                    r[j] = y if v is None else v + y
                continue
            for j, y in b.items():
                v = r.get(j)
                r[j] = x * y if v is None else v + x * y
            continue
        for j, y in b.items():
            c = x * y
            k = (get((i, j)) if i <= j else get((j, i))) if j else i
            if k is None:
                k = _mul_mono(i, j)
            if type(k) is int:
                v = r.get(k)
                r[k] = c if v is None else v + c
            else:
                for m, z in k.items():
                    v = r.get(m)
                    r[m] = c * z if v is None else v + c * z
    return {k: v for k, v in r.items() if v}


def _nonfinite(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def lift(x):
    """python / numpy scalar -> Num (or Cx), None when impossible"""
    if isinstance(x, (Num, Cx)):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Num({0: F1} if x else {}, "i")
    if isinstance(x, (int, _np.integer)):
        x = int(x)
        return Num({0: Fr(x)} if x else {}, "i")
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if not math.isfinite(x):
            return None
        return Num({0: Fr(x)} if x else {}, "f")
    if isinstance(x, Fr):
        return Num({0: x} if x else {}, "f")
    if isinstance(x, (complex, _np.complexfloating)):
        return Cx(lift(float(x.real)), lift(float(x.imag)))
    if isinstance(x, SBool):
        return Num({0: F1}, "i") if bool(x) else Num({}, "i")
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def _kind(a, b):
    return "f" if a.k == "f" or b.k == "f" else "i"


class Num:
    __slots__ = ("t", "k")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t, k="f"):
        self.t = t
        self.k = k

    # -- structure
    def is_const(self):
        return not self.t or (len(self.t) == 1 and 0 in self.t)

    def const(self):
        return self.t.get(0, F0)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Num({}, self.k)

    def conjugate(self):
        return self
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype("int64" if self.k == "i" else "float64")

    def astype(self, dt):
        from symnp import cast_elem
        return cast_elem(self, _np.dtype(dt))

    # -- arithmetic
    def _bin(self, o):
        if type(o) is Num:
            return o
        if isinstance(o, (_np.ndarray, list, tuple, str)) or o is None:
            if isinstance(o, _np.ndarray) and o.ndim == 0 and \
                    not type(o).__name__ == "SArr":
                return lift(o)
            return NotImplemented
        r = lift(o)
        if r is None:
            if _nonfinite(o):
                return float(o)
            return NotImplemented
        return r

    def _nf(self, o, op, rev=False):
        """arithmetic with a non-finite float"""
        if math.isnan(o):
            return float("nan")
        if op in "+-":
            if op == "-":
                return o if rev else -o
            return o
        if op == "/" and not rev:
            return Num({}, "f")
        v = self.sign_value()
        if v is None:
            raise Unsupported("inf arithmetic with symbolic sign")
        if op == "*":
            return v * o if v else float("nan")
        return o if v >= 0 else -o

    def sign_value(self):
        if not self.t:
            return 0
        lo, hi = self.interval()
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        return None

    def __add__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return self._nf(o, "+")
        if type(o) is Cx:
            return Cx(self + o.re, o.im)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return Num(a, _kind(self, o))
        r = dict(a)
        for k, v in b.items():
            w = r.get(k)
            if w is None:
                r[k] = v
            else:
                w = w + v
                if w:
                    r[k] = w
                else:
                    del r[k]
        return Num(r, _kind(self, o))
    __radd__ = __add__

    def __neg__(self):
        return Num({k: -v for k, v in self.t.items()}, self.k)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return self._nf(o, "-")
        return self + (-o)

    def __rsub__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return self._nf(o, "-", True)
        return o + (-self)

    def __mul__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return self._nf(o, "*")
        if type(o) is Cx:
            return Cx(self * o.re, self * o.im)
        a, b = self.t, o.t
        k = _kind(self, o)
        if not a or not b:
            return Num({}, k)
        if len(b) == 1 and 0 in b:
            a, b = b, a
        if len(a) == 1 and 0 in a:
            c = a[0]
            if c == 1:
                return Num(b, k)
            return Num({m: c * v for m, v in b.items()}, k)
        return Num(_mul_terms(a, b), k)
    __rmul__ = __mul__

    def inverse(self):
        """1/self"""
        if not self.t:
            raise ZeroDivisionError("division by zero")
        if self.is_const():
            return Num({0: 1 / self.const()}, "f")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            out = Num({0: 1 / c}, "f")
            rest = []
            for s, e in W.monos[m]:
                sy = W.syms[s]
                if sy.sq is not None and sy.role == "sqrt" and e == 1:
                    out = out * sym_num(sy) * sy.sq.inverse()
                elif sy.near is not None and e > 0:
                    for _ in range(e):
                        out = out * _inv_of(sy)
                else:
                    rest.append((s, -e))
            if rest:
                out = out * Num({mono_id(tuple(sorted(rest))): F1}, "f")
            return Num(out.t, "f")
        cm, red = _content(self)
        if cm is not None:
            return Num((red.inverse() * cm).t, "f")
        fs = _linear_factors(self)
        if fs is not None:
            out = None
            for f in fs:
                out = f.inverse() if out is None else out * f.inverse()
            return Num(out.t, "f")
        d, scale = def_symbol(self)
        return _inv_of(d) * Num({0: 1 / scale}, "f")

    def __truediv__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return self._nf(o, "/")
        if type(o) is Cx:
            return Cx(self, Num({}, "f")) / o
        inv = _inv_guard(o)
        if inv is None:                 # IEEE division by zero
            return float("nan")
        return Num((self * inv).t, "f")

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return self._nf(o, "/", True)
        return o / self

    def __pow__(self, o, mod=None):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = lift(o)
        if type(o) is not Num or not o.is_const():
            raise Unsupported("symbolic exponent")
        e = o.const()
        if e.denominator == 2:
            r = sqrt(self)
            n = e.numerator
            return (r if n > 0 else r.inverse()) ** abs(n)
        if e.denominator != 1:
            if self.is_const():
                return lift(float(self.const()) ** float(e))
            raise Unsupported("fractional exponent")
        n = int(e)
        if n < 0:
            return self.inverse() ** (-n)
        r = Num({0: F1}, self.k if o.k == "i" else "f")
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        if o.k == "f":
            r = Num(r.t, "f")
        return r

    def __rpow__(self, o):
        if self.is_const():
            return lift(o) ** self.const()
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return Num({0: abs(self.const())} if self.t else {}, self.k)
        v = self.sign_value()
        if v is not None and v != 0:
            return self if v > 0 else -self
        lo, hi = self.interval()
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        return self if bool(self >= 0) else -self

    def _intdiv(self, o):
        o = lift(o)
        if o is None or type(o) is not Num:
            raise Unsupported("integer division")
        a = self if self.is_const() else lift(concretize(self))
        b = o if o.is_const() else lift(concretize(o))
        k = _kind(self, o)
        q = a.const() // b.const()
        r = a.const() - q * b.const()
        return Num({0: Fr(q)} if q else {}, k), Num({0: r} if r else {}, k)

    def __floordiv__(self, o):
        return self._intdiv(o)[0]

    def __mod__(self, o):
        return self._intdiv(o)[1]

    def __divmod__(self, o):
        return self._intdiv(o)

    def __rfloordiv__(self, o):
        return lift(o)._intdiv(self)[0]

    def __rmod__(self, o):
        return lift(o)._intdiv(self)[1]

    # -- comparisons
    def _cmp(self, o, op):
        o2 = self._bin(o)
        if o2 is NotImplemented:
            return NotImplemented
        if type(o2) is float:
            if math.isnan(o2):
                return op == "!="
            return {"<": o2 > 0, "<=": o2 > 0, ">": o2 < 0, ">=": o2 < 0,
                    "==": False, "!=": True}[op]
        if type(o2) is Cx:
            r = (self == o2.re) & (o2.im == 0)
            return r if op == "==" else ~r if isinstance(r, SBool) else not r
        return atom(self - o2, op)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        if self.k == "i" and self.finite_int():
            return hash(concretize(self))
        return hash(frozenset(self.t.items()))

    def finite_int(self):
        lo, hi = self.interval()
        if hi - lo > 64:
            return False
        return self.is_integral()

    def is_integral(self):
        if any(v.denominator != 1 for v in self.t.values()):
            return False
        return all(W.syms[s].sort == "i" and e > 0
                   for m in self.t for s, e in W.monos[m])

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __index__(self):
        if self.k != "i":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return concretize(self)

    def __int__(self):
        if self.is_const():
            return int(self.const())
        return int(concretize(trunc(self)))
    __trunc__ = __int__

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if self.is_const():
            return round(float(self.const()), n)
        r = rounded(self, n or 0)
        return Num(r.t, "i") if n is None else Num(r.t, "f")

    def __format__(self, spec):
        if self.is_const():
            try:
                if self.k == "i":
                    return format(int(self.const()), spec)
                return format(float(self.const()), spec)
            except ValueError:
                pass
        return str(self)

    def __str__(self):
        return to_str(self)
    __repr__ = __str__

    def sqrt(self): return sqrt(self)
    def exp(self): return exp(self)
    def cos(self): return cossin(self)[0]
    def sin(self): return cossin(self)[1]

    # -- intervals
    def interval(self):
        lo = hi = 0.0
        mag = 0.0
        for m, c in self.t.items():
            c = float(c)
            if m == 0:
                lo += c
                hi += c
                mag += abs(c)
                continue
            a, b = mono_interval(m)
            x, y = _imul(c, a), _imul(c, b)
            if x > y:
                x, y = y, x
            lo += x
            hi += y
            mag += max(abs(x) if x > -INF else 0, abs(y) if y < INF else 0)
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        e = 1e-13 * mag
        if len(self.t) <= 1:
            e = 0.0
        return lo - e, hi + e


def _imul(c, x):
    if c == 0 or x == 0:
        return 0.0
    return c * x


def mono_interval(m):
    r = W.miv.get(m)
    if r is not None:
        return r
    lo, hi = 1.0, 1.0
    for s, e in W.monos[m]:
        sy = W.syms[s]
        a, b = sy.lo, sy.hi
        a, b = _ipow(a, b, e)
        c = [_imul(lo, a), _imul(lo, b), _imul(hi, a), _imul(hi, b)]
        if any(x != x for x in c):
            lo, hi = -INF, INF
        else:
            lo, hi = min(c), max(c)
    W.miv[m] = (lo, hi)
    return lo, hi


def _ipow(a, b, e):
    if e < 0:
        if a > 0 or b < 0:
            a, b = (1 / b if b not in (INF, -INF) else 0.0), (1 / a if a not in (INF, -INF) else 0.0)
            return _ipow(a, b, -e)
        if a == 0 and b > 0:
            return _ipow(1 / b if b != INF else 0.0, INF, -e)
        if (-e) % 2 == 0:
            mx = max(abs(a), abs(b))
            return (1 / mx) ** (-e) if mx not in (0, INF) else 0.0, INF
        return -INF, INF

    def p(x):
        if x in (INF, -INF):
            return INF if (x > 0 or e % 2 == 0) else -INF
        return x ** e
    if e % 2 == 1:
        return p(a), p(b)
    x, y = p(a), p(b)
    if a <= 0 <= b:
        return 0.0, max(x, y)
    return min(x, y), max(x, y)


def to_str(n, limit=12):
    if not n.t:
        return "0"
    parts = []
    for m, c in list(n.t.items())[:limit]:
        s = "*".join(W.syms[i].name + ("" if e == 1 else "^%d" % e)
                     for i, e in W.monos[m])
        cf = "%.6g" % float(c)
        parts.append(cf if not s else ("" if cf == "1" else cf + "*") + s)
    if len(n.t) > limit:
        parts.append("...(%d terms)" % len(n.t))
    return " + ".join(parts)


def _inv_guard(d):
    if d.is_const():
        if not d.t:
            return None
        return d.inverse()
    lo, hi = d.interval()
    if not (lo > 0 or hi < 0):
        if bool(d == 0):
            return None
    return d.inverse()


def canon_scale(n):
    """leading coefficient (largest monomial key in a fixed order)"""
    return n.t[max(n.t, key=order_key)]


def def_symbol(n):
    """hash-consed symbol D with  n == scale * D"""
    c = canon_scale(n)
    t = {k: v / c for k, v in n.t.items()}
    p = Num(t, "f")
    if p.interval()[1] < 0:
        t = {k: -v for k, v in t.items()}
        c = -c
        p = Num(t, "f")
    key = frozenset(t.items())
    s = W.defs.get(key)
    if s is None:
        lo, hi = p.interval()
        s = new_sym("D%d" % len(W.defs), "r", lo, hi, "def")
        s.defn = p
        s.ev = lambda ev, p=p: ev(p)
        W.defs[key] = s
        _find_near(s)
    return s, c


def _find_near(s):
    """a definition that differs from an earlier one only by rounding of its
    coefficients: its inverse is written as the earlier inverse plus a bounded
    remainder, so that both sides of an equation can still cancel"""
    p = s.defn
    sig = frozenset(p.t)
    for q in W.defsig.get(sig, ()):
        if all(abs(p.t[k] - q.defn.t[k]) <= abs(p.t[k]) * Fr(1, 10 ** 12) for k in sig):
            lo = min(abs(s.lo), abs(s.hi))
            lq = min(abs(q.lo), abs(q.hi))
            if s.lo * s.hi <= 0 or q.lo * q.hi <= 0 or min(lo, lq) < 1e-3:
                break
            a, b = (p - q.defn).interval()
            m = max(abs(a), abs(b)) / (lo * lq)
            e = fresh("nearinv", -m, m, ev=lambda ev, s=s, q=q: 1 / ev.sym(s.id) - 1 / ev.sym(q.id))
            s.near = (q, e)
            return
    W.defsig.setdefault(sig, []).append(s)


def _inv_of(s):
    if s.near is not None:
        q, e = s.near
        return sym_num(q, -1) + sym_num(e)
    return Num({mono_id(((s.id, -1),)): F1}, "f")


def _content(n):
    """(inverse of the common monomial, n without it) or (None, n)"""
    common = None
    for m in n.t:
        d = dict(W.monos[m])
        if common is None:
            common = d
        else:
            keys = set(common) | set(d)
            common = {s: min(common.get(s, 0), d.get(s, 0)) for s in keys}
            common = {s: e for s, e in common.items() if e}
        if not common:
            break
    if common:
        common = {s: e for s, e in common.items() if W.syms[s].sq is None}
    if not common:
        return None, n
    cm = Num({mono_id(tuple(sorted((s, -e) for s, e in common.items()))): F1}, "f")
    return cm, n * cm


def _linear_factors(n):
    """univariate polynomial of degree 2..4 with simple rational roots ->
    list of factors (so that 1-x^2 and (1-x)*(1+x) have the same inverse)"""
    sym = None
    co = {}
    for m, c in n.t.items():
        mono = W.monos[m]
        if len(mono) > 1:
            return None
        if mono:
            s, e = mono[0]
            if e < 0 or (sym is not None and s != sym):
                return None
            sym = s
            co[e] = c
        else:
            co[0] = c
    deg = max(co)
    if deg < 2 or deg > 4 or W.syms[sym].sq is not None or W.syms[sym].defn is not None:
        return None
    p = [co.get(i, F0) for i in range(deg + 1)]      # ascending
    den = 1
    for c in p:
        den = den * c.denominator // math.gcd(den, c.denominator)
    if den > 10 ** 6 or any(abs(c * den) > 10 ** 6 for c in p):
        return None
    x = sym_num(W.syms[sym])
    out = []
    roots = sorted({Fr(s * a, b) for a in range(1, 7) for b in range(1, 7) for s in (1, -1)})
    while len(p) > 2:
        for r in roots:
            v = F0
            for c in reversed(p):
                v = v * r + c
            if not v:
                break
        else:
            break
        q = [F0] * (len(p) - 1)
        acc = F0
        for i in range(len(p) - 1, 0, -1):
            acc = acc * r + p[i]
            q[i - 1] = acc
        p = q
        out.append(x - Num({0: r}, "f"))
    if not out:
        return None
    last = Num({0: p[0]}, "f") if p[0] else Num({}, "f")
    for i in range(1, len(p)):
        if p[i]:
            last = last + x ** i * Num({0: p[i]}, "f")
    return out + [last]


def as_symbol(n):
    """n rewritten as a product of definitions when it is a proper polynomial"""
    if len(n.t) <= 1:
        return n
    cm, red = _content(n)
    if cm is not None:
        (m, c), = cm.t.items()
        inv = Num({mono_id(tuple((s, -e) for s, e in W.monos[m])): 1 / c}, "f")
        return inv * as_symbol(red)
    fs = _linear_factors(n)
    if fs is not None:
        out = fs[0] if len(fs[0].t) <= 1 else as_symbol(fs[0])
        for f in fs[1:]:
            out = out * as_symbol(f)
        return Num(out.t, "f")
    d, c = def_symbol(n)
    return Num({mono_id(((d.id, 1),)): c}, "f")


def _isqrt_frac(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fr(a, b)
    return None


def sqrt(n):
    if _nonfinite(n):
        return math.sqrt(n) if n > 0 or n != n else float("nan")
    n = lift(n)
    if type(n) is Cx:
        raise Unsupported("complex sqrt")
    if not n.t:
        return Num({}, "f")
    if n.is_const():
        c = n.const()
        if c < 0:
            return float("nan")
        r = _isqrt_frac(c)
        if r is None:
            r = Fr(math.sqrt(c.numerator / c.denominator)) if c.numerator.bit_length() < 900 and c.denominator.bit_length() < 900 else Fr(math.sqrt(c))
            r = (r + c / r) / 2          # one Newton step: ~1e-32
            r = Fr(r).limit_denominator(10 ** 34)
        return Num({0: r}, "f")
    if len(n.t) == 1:
        (m, c), = n.t.items()
        mono = W.monos[m]
        even = [(s, e) for s, e in mono if e % 2 == 0]
        odd = [(s, e) for s, e in mono if e % 2]
        if c > 0 and even:
            out = sqrt(lift(c))
            out = Num(out.t, "f")
            for s, e in even:
                out = out * abs(sym_num(W.syms[s]) ** (e // 2))
            if not odd:
                return out
            return out * sqrt(Num({mono_id(tuple(odd)): F1}, "f"))
        if c > 0 and c != 1:
            return sqrt(lift(c)) * sqrt(Num({m: F1}, "f"))
    lo, hi = n.interval()
    if hi < 0:
        return float("nan")
    if lo < 0:
        if bool(n < 0):
            return float("nan")
    # perfect square of a binomial/linear form?
    ps = _poly_sqrt(n)
    if ps is not None:
        return abs(ps)
    c = abs(canon_scale(n))
    t = {k: v / c for k, v in n.t.items()}
    key = frozenset(t.items())
    s = W.sqrts.get(key)
    if s is None:
        p = Num(t, "f")
        lo, hi = p.interval()
        lo = max(lo, 0.0)
        s = new_sym("Q%d" % len(W.sqrts), "r", math.sqrt(lo) * (1 - 1e-12),
                    math.sqrt(hi) * (1 + 1e-12) if hi < INF else INF, "sqrt")
        s.sq = p
        s.ev = lambda ev, p=p: math.sqrt(max(ev(p), 0.0))
        W.sqrts[key] = s
    return sym_num(s) * sqrt(lift(c))


def _poly_sqrt(n):
    """exact square root of a polynomial, or None"""
    if len(n.t) > 40:
        return None
    monos = sorted(n.t, key=lambda k: W.monos[k], reverse=True)
    top = monos[0]
    mono = W.monos[top]
    if n.t[top] < 0 or any(e % 2 for _, e in mono):
        return None
    c = _isqrt_frac(n.t[top])
    if c is None:
        return None
    lead = Num({mono_id(tuple((s, e // 2) for s, e in mono)): c}, "f")
    root = lead
    rem = n - root * root
    inv = (lead * 2).inverse() if len(lead.t) == 1 else None
    for _ in range(8):
        if not rem.t:
            return root
        k = max(rem.t, key=lambda q: W.monos[q])
        term = Num({k: rem.t[k]}, "f") * inv
        if len(term.t) != 1:
            return None
        if any(e < 0 for e in dict(W.monos[next(iter(term.t))]).values()):
            return None
        root = root + term
        rem = n - root * root
    return None


def cossin(theta):
    """(cos, sin) of a Num; canonical per-monomial expansion"""
    theta = lift(theta)
    c, s = Num({0: F1}, "f"), Num({}, "f")
    for m, v in sorted(theta.t.items()):
        if m == 0:
            cm, sm = lift(math.cos(v)), lift(math.sin(v))
        else:
            n = 1
            if v.denominator == 1 and abs(v) <= 8:
                n = abs(int(v))
                base = Fr(1)
            else:
                base = abs(v)
            key = ("trig", m, base)
            pair = W.fns.get(key)
            if pair is None:
                cs = new_sym("cos%d" % len(W.fns), "r", -1.0, 1.0, "trig")
                sn = new_sym("sin%d" % len(W.fns), "r", -1.0, 1.0, "trig")
                arg = Num({m: base}, "f")
                cs.ev = lambda ev, a=arg: math.cos(ev(a))
                sn.ev = lambda ev, a=arg: math.sin(ev(a))
                sn.sq = Num({0: F1}, "f") - sym_num(cs) * sym_num(cs)
                pair = (sym_num(cs), sym_num(sn))
                W.fns[key] = pair
            c1, s1 = pair
            cm, sm = c1, s1
            for _ in range(n - 1):
                cm, sm = cm * c1 - sm * s1, sm * c1 + cm * s1
            if v < 0:
                sm = -sm
        c, s = c * cm - s * sm, s * cm + c * sm
    return c, s


def exp(x):
    x = lift(x)
    if type(x) is Cx:
        r = exp(x.re)
        c, s = cossin(x.im)
        return Cx(r * c, r * s)
    if x.is_const():
        return lift(math.exp(x.const())) if x.t else Num({0: F1}, "f")
    raise Unsupported("real exp of a symbolic value")


def trunc(n):
    """truncation toward zero (int conversion)"""
    if n.is_const():
        v = n.const()
        return Num({0: Fr(int(v))} if int(v) else {}, "i")
    if n.is_integral():
        return Num(n.t, "i")
    key = ("trunc", frozenset(n.t.items()))
    s = W.fns.get(key)
    if s is None:
        lo, hi = n.interval()
        s = new_sym("trunc%d" % len(W.fns), "i", math.floor(lo) if lo > -INF else lo,
                    math.ceil(hi) if hi < INF else hi, "fn")
        t = sym_num(s)
        s.axioms.append(sor(sand(atom(n, ">="), atom(t, ">="), atom(t - n, "<="), atom(n - t - 1, "<")),
                            sand(atom(n, "<"), atom(t, "<="), atom(t - n, ">="), atom(n - t + 1, ">"))))
        s.ev = lambda ev, n=n: float(math.trunc(ev(n)))
        W.fns[key] = s
    return sym_num(s)


def fresh(prefix, lo=-INF, hi=INF, ev=None, key=None, sort="r"):
    if key is not None:
        s = W.fns.get(key)
        if s is not None:
            return s
    W.nfresh += 1
    s = new_sym("%s!%d" % (prefix, W.nfresh), sort, lo, hi, "fn")
    s.ev = ev
    if key is not None:
        W.fns[key] = s
    return s


def rounded(x, d=0):
    """nearest decimal with d digits: within half a unit of the last digit"""
    if x.is_const():
        v = Fr(float(_np.round(float(x.const()), d)))
        return Num({0: v} if v else {}, "f")
    if d >= 0 and x.is_integral():
        return Num(x.t, "f")
    if x.is_integral():
        raise Unsupported("rounding of a symbolic integer")
    key = ("round", d, frozenset(x.t.items()))
    if d > 3:
        h = 0.5 * 10.0 ** -d
        s = fresh("round", -h, h, lambda ev: float(_np.round(ev(x), d)) - ev(x), key)
        return x + sym_num(s)
    sc = Fr(10) ** d
    s = W.fns.get(key)
    if s is None:
        lo, hi = x.interval()
        s = new_sym("round%d" % len(W.fns), "i", math.floor(lo * 10.0 ** d) if lo > -INF else lo,
                    math.ceil(hi * 10.0 ** d) if hi < INF else hi, "fn")
        t = sym_num(s) - x * Num({0: sc}, "f") * 1
        s.axioms.append(sand(atom(t - lift(0.5), "<="), atom(t + lift(0.5), ">=")))
        s.ev = lambda ev: float(_np.round(ev(x) * 10.0 ** d))
        W.fns[key] = s
    return sym_num(s) * Num({0: 1 / sc}, "f")


# --------------------------------------------------------------------------
class Cx:
    """complex number with symbolic parts"""
    __slots__ = ("re", "im")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def conjugate(self): return Cx(self.re, -self.im)
    conj = conjugate

    def _l(self, o):
        o = lift(o)
        if o is None:
            return None
        return o if type(o) is Cx else Cx(o, Num({}, "f"))

    def __add__(self, o):
        o = self._l(o)
        return NotImplemented if o is None else Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self): return Cx(-self.re, -self.im)
    def __pos__(self): return self

    def __sub__(self, o):
        o = self._l(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = self._l(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = self._l(o)
        if o is None:
            return NotImplemented
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._l(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        return Cx((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)

    def __rtruediv__(self, o):
        return self._l(o) / self

    def __pow__(self, n):
        n = lift(n)
        if type(n) is Num and n.is_const() and n.const().denominator == 1:
            e = int(n.const())
            r = Cx(Num({0: F1}, "f"), Num({}, "f"))
            for _ in range(abs(e)):
                r = r * self
            return r if e >= 0 else 1 / r
        raise Unsupported("complex power")

    def __rpow__(self, o):
        if isinstance(o, (float, _np.floating)) and abs(float(o) - math.e) < 1e-15:
            return exp(self)
        raise Unsupported("complex power")

    def __abs__(self): return sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        o = self._l(o)
        if o is None:
            return NotImplemented
        return sand(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        r = self == o
        return r if r is NotImplemented else snot(r)

    def __hash__(self): return hash((self.re, self.im))
    def __bool__(self): return bool(self != 0)
    def exp(self): return exp(self)
    def __str__(self): return "(%s) + i(%s)" % (self.re, self.im)
    __repr__ = __str__

    def __float__(self):
        raise TypeError("can't convert complex to float")


# --------------------------------------------------------------------------
class SBool:
    """boolean formula; op in atom ops or and/or/not"""
    __slots__ = ("op", "a", "_h")
    __array_ufunc__ = None

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._h = None

    def key(self):
        if self._h is None:
            if self.op in ("and", "or"):
                self._h = (self.op,) + tuple(x.key() for x in self.a)
            else:
                self._h = (self.op, frozenset(self.a.t.items()))
        return self._h

    def __bool__(self):
        if W.explorer is None:
            raise Unsupported("branch on symbolic value outside exploration")
        return W.explorer.decide(self)

    def __and__(self, o): return sand(self, o)
    __rand__ = __and__
    def __or__(self, o): return sor(self, o)
    __ror__ = __or__
    def __invert__(self): return snot(self)

    def __xor__(self, o):
        return sor(sand(self, snot(o)), sand(snot(self), o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SBool)):
            return snot(self ^ o)
        if isinstance(o, (int, float)):
            return snot(self) if o == 0 else (self if o == 1 else False)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self): return float(bool(self))
    def __add__(self, o): return lift(self) + o
    __radd__ = __add__
    def __mul__(self, o): return lift(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return lift(self) - o
    def __rsub__(self, o): return o - lift(self)
    def item(self): return self
    def all(self): return self
    def any(self): return self

    def __str__(self):
        if self.op in ("and", "or"):
            return "(" + (" %s " % self.op).join(str(x) for x in self.a) + ")"
        return "%s %s 0" % (self.a, self.op)
    __repr__ = __str__


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def _zero_key(n):
    _, n = _content(n)
    m0 = min(n.t)
    c = n.t[m0]
    return frozenset((m, v / c) for m, v in n.t.items())


def note_zero(n):
    """n vanishes; its monomial factor does not (a factor of a whole row of a regular matrix)"""
    r = _content(n)[1]
    if not r.is_const():
        W.zeros[_zero_key(r)] = r


def reduce_zeros(d):
    """d minus multiples of polynomials known to vanish, when that removes terms"""
    if not W.zeros or d.is_const():
        return d
    cm, r = _content(d)
    for z in list(W.zeros.values()):
        common = [m for m in z.t if m in r.t]
        if len(common) * 2 < len(z.t):
            continue
        m = max(common, key=lambda m: abs(z.t[m]))
        r2 = r - z * lift(r.t[m] / z.t[m])
        if _weight(r2, r) < _weight(r, r):
            r = r2
    if cm is None:
        return r
    inv = {s: -e for s, e in W.monos[next(iter(cm.t))]}
    return r * Num({mono_id(tuple(sorted(inv.items()))): F1}, "f")


def _weight(n, ref):
    big = max((abs(c) for c in ref.t.values()), default=0)
    return sum(1 for c in n.t.values() if abs(c) > big / 10 ** 10)


def atom(n, op):
    if W.zeros and not n.is_const() and _zero_key(n) in W.zeros:
        return op in ("<=", ">=", "==")
    if n.is_const():
        c = n.const()
        return {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0,
                "==": c == 0, "!=": c != 0}[op]
    lo, hi = n.interval()
    if op == "<":
        if hi < 0: return True
        if lo >= 0: return False
    elif op == "<=":
        if hi <= 0: return True
        if lo > 0: return False
    elif op == ">":
        if lo > 0: return True
        if hi <= 0: return False
    elif op == ">=":
        if lo >= 0: return True
        if hi < 0: return False
    else:
        if lo > 0 or hi < 0:
            return op == "!="
        if n.is_integral():
            g = math.gcd(*[int(v) for m, v in n.t.items() if m]) if len(n.t) > 1 else 0
            if g > 1 and int(n.const()) % g:
                return op == "!="
    return SBool(op, n)


def snot(x):
    if isinstance(x, (bool, _np.bool_)):
        return not x
    if x.op == "and":
        return sor(*[snot(y) for y in x.a])
    if x.op == "or":
        return sand(*[snot(y) for y in x.a])
    return SBool(NEG[x.op], x.a)


def _tob(x):
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, SBool):
        return x
    if isinstance(x, Num):
        r = x != 0
        return r
    if isinstance(x, numbers.Number):
        return bool(x)
    return bool(x)


def sand(*xs):
    out = []
    for x in xs:
        x = _tob(x)
        if x is False:
            return False
        if x is True:
            continue
        if x.op == "and":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SBool("and", tuple(out))


def sor(*xs):
    out = []
    for x in xs:
        x = _tob(x)
        if x is True:
            return True
        if x is False:
            continue
        if x.op == "or":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SBool("or", tuple(out))


def concretize(n):
    """force an integer-valued Num to a concrete python int (forks)"""
    n = lift(n)
    if n.is_const():
        c = n.const()
        if c.denominator != 1:
            raise TypeError("not an integer")
        return int(c)
    lo, hi = n.interval()
    if not n.is_integral() or hi - lo > 4096:
        raise Unsupported("cannot concretise %s" % n)
    lo, hi = math.ceil(lo - 1e-9), math.floor(hi + 1e-9)
    for v in range(lo, hi):
        r = n == v
        if bool(r):
            return v
    return hi


# --------------------------------------------------------------------------
def order_key(m):
    """monomial order (lexicographic, newest symbol first; multiplicative)"""
    k = W.mkey.get(m)
    if k is None:
        k = tuple((1, s, e) if e > 0 else (-1, -s, e) for s, e in reversed(W.monos[m])) + ((0,),)
        W.mkey[m] = k
    return k


class _Desc:
    __slots__ = ("k", "m")

    def __init__(self, m):
        self.m, self.k = m, order_key(m)

    def __lt__(self, o):
        return self.k > o.k


def _linear1(s):
    """(symbol, slope, constant) of a definition that is linear in one symbol"""
    sy = W.syms[s]
    r = W.lin1.get(s)
    if r is None:
        r = ()
        p = sy.defn
        if len(p.t) <= 2 and all(len(W.monos[m]) <= 1 for m in p.t):
            x = [m for m in p.t if m]
            if len(x) == 1 and W.monos[x[0]][0][1] == 1:
                r = (W.monos[x[0]][0][0], p.t[x[0]], p.t.get(0, F0))
        W.lin1[s] = r
    return r


def _partial_fractions(n, log):
    """1/(p q) for p, q linear in the same symbol"""
    for _ in range(60):
        hit = None
        for m in n.t:
            neg = [(s, e) for s, e in W.monos[m] if e < 0 and W.syms[s].defn is not None]
            if len(neg) < 2:
                continue
            by = {}
            for s, e in neg:
                l = _linear1(s)
                if l:
                    if l[0] in by:
                        hit = (by[l[0]], s)
                        break
                    by[l[0]] = s
            if hit:
                break
        if not hit:
            return n
        sa, sb = hit
        (_, a1, a0), (_, b1, b0) = _linear1(sa), _linear1(sb)
        k = a1 * b0 - b1 * a0
        if not k:
            return n
        # 1/(p q) = (a1/k)/p - (b1/k)/q   since a1 q - b1 p = k
        up = {mono_id(((sa, 1),)): a1 / k, mono_id(((sb, 1),)): -b1 / k}
        out = {}
        todo = dict(n.t)
        while todo:
            m, c = todo.popitem()
            d = dict(W.monos[m])
            if d.get(sa, 0) >= 0 or d.get(sb, 0) >= 0:
                out[m] = out.get(m, F0) + c
                continue
            parts = []
            for s, w in ((sb, a1 / k), (sa, -b1 / k)):
                q = dict(d)
                q[s] += 1
                if not q[s]:
                    del q[s]
                parts.append((mono_id(tuple(sorted(q.items()))), w))
            if log is not None:
                log.append((Num({m: F1}, "f"), Num({i: w for i, w in parts}, "f")))
            for i, w in parts:
                todo[i] = todo.get(i, F0) + c * w
        n = Num({m: c for m, c in out.items() if c}, n.k)
    return n


def reduce_defs(n, budget=400000, log=None):
    """normal form; the zero of fractions over square roots is recognised by
    clearing the denominators (division is not confluent there)"""
    n = _reduce_defs(n, budget, log)
    if type(n) is Num and 1 < len(n.t) <= 300:
        inv = set()
        alg = False
        for m in n.t:
            for s, e in W.monos[m]:
                sy = W.syms[s]
                if sy.sq is not None:
                    alg = True
                if e < 0 and sy.defn is not None:
                    inv.add(s)
        if inv and (alg or any(W.syms[q].sq is not None for s in inv for m in W.syms[s].defn.t for q, _ in W.monos[m])):
            r = clear_denominators(n, max_terms=6000)
            if r is not None and not r[0].t:
                if log is not None:
                    log.append((n, Num({}, "f")))
                return Num({}, n.k)
    return n


def _reduce_defs(n, budget=400000, log=None):
    """Normal form modulo D*D^-1 = 1 with D := p (polynomial division).

    log collects the instances of the identity that were used, as pairs
    (w * p^k * D^e, w * D^(e+k)) for the solver to check the reduction with."""
    if type(n) is not Num:
        return n
    work = 0
    for _ in range(200):
        used = {}
        for m in n.t:
            for s, e in W.monos[m]:
                if W.syms[s].defn is not None:
                    lo, hi = used.get(s, (0, 0))
                    used[s] = (min(lo, e), max(hi, e))
        if not used:
            return n
        changed = False
        for s in sorted(used, reverse=True):
            lo, hi = used[s]
            sy = W.syms[s]
            groups = {}
            for m, c in n.t.items():
                mono = W.monos[m]
                e = 0
                rest = m
                for q, ee in mono:
                    if q == s:
                        e = ee
                        rest = mono_id(tuple(x for x in mono if x[0] != s))
                        break
                groups.setdefault(e, {})[rest] = c
            if hi > 0:
                out = Num({}, n.k)
                for e, t in groups.items():
                    g = Num(t, "f")
                    if e > 0:
                        if log is not None:
                            for m_ in t:
                                w_ = Num({m_: F1}, "f")
                                log.append((w_ * sy.defn ** e, w_ * sym_num(sy) ** e))
                        g = g * sy.defn ** e
                    elif e < 0:
                        g = g * Num({mono_id(((s, e),)): F1}, "f")
                    out = out + g
                n = out
                changed = True
                break
            # divide negative groups, most negative first
            p = sy.defn
            pl = max(p.t, key=order_key)
            plm = W.monos[pl]
            plc = p.t[pl]
            out = {}
            carry = {}
            did = False
            for e in range(lo, 0):
                rem = dict(groups.get(e, {}))
                for k, v in carry.items():
                    rem[k] = rem.get(k, F0) + v
                quo = {}
                heap = [_Desc(k) for k in rem]
                heapq.heapify(heap)
                seen = set(rem)
                while heap:
                    k = heapq.heappop(heap).m
                    seen.discard(k)
                    c = rem.get(k)
                    if not c:
                        continue
                    km = dict(W.monos[k])
                    if not all(km.get(q, 0) >= x for q, x in plm):
                        continue
                    work += len(p.t)
                    if work > budget:
                        break
                    for q, x in plm:
                        km[q] -= x
                        if not km[q]:
                            del km[q]
                    qm = mono_id(tuple(sorted(km.items())))
                    qc = c / plc
                    quo[qm] = quo.get(qm, F0) + qc
                    if log is not None:
                        w_ = Num({qm: F1}, "f") * Num({mono_id(((s, e),)): F1}, "f")
                        log.append((w_ * p, Num({qm: F1}, "f") * (Num({mono_id(((s, e + 1),)): F1}, "f") if e + 1 else F1)))
                    for k2, v in p.t.items():
                        pr = _mul_mono(qm, k2)
                        for k3, z in ((pr, F1),) if type(pr) is int else pr.items():
                            w = rem.get(k3, F0) - qc * v * z
                            if w:
                                rem[k3] = w
                                if k3 not in seen:
                                    seen.add(k3)
                                    heapq.heappush(heap, _Desc(k3))
                            else:
                                rem.pop(k3, None)
                if quo:
                    did = True
                carry = {k: v for k, v in quo.items() if v}
                if rem:
                    for k, v in rem.items():
                        if v:
                            km = _mul_mono(k, mono_id(((s, e),)))
                            if type(km) is int:
                                out[km] = out.get(km, F0) + v
                            else:
                                for k3, z in km.items():
                                    out[k3] = out.get(k3, F0) + v * z
                if work > budget:
                    break
            if work > budget:
                return n
            for t in (carry, groups.get(0, {})):
                for k, v in t.items():
                    out[k] = out.get(k, F0) + v
            if did:
                n = Num({k: v for k, v in out.items() if v}, n.k)
                changed = True
        before = n
        n = _partial_fractions(n, log)
        if n is not before:
            changed = True
        if not changed:
            return n
    return n


def clear_denominators(n, max_terms=20000):
    """(num, den) with all D^-1 multiplied out; den a Num. None if too big."""
    n = _reduce_defs(n)
    neg = {}
    for m in n.t:
        for s, e in W.monos[m]:
            if e < 0:
                neg[s] = min(neg.get(s, 0), e)
    if not neg:
        return n, Num({0: F1}, "f")
    den = Num({0: F1}, "f")
    mult = Num({0: F1}, "f")
    for s, e in neg.items():
        den = den * sym_num(W.syms[s]) ** (-e)
    num = n * den
    for _ in range(20):
        for s in sorted({s for m in num.t for s, e in W.monos[m] if W.syms[s].defn is not None and e > 0}, reverse=True):
            out = Num({}, "f")
            for m, c in num.t.items():
                mono = W.monos[m]
                e = dict(mono).get(s, 0)
                rest = Num({mono_id(tuple(x for x in mono if x[0] != s)): c}, "f")
                out = out + (rest * W.syms[s].defn ** e if e > 0 else Num({m: c}, "f"))
                if len(out.t) > max_terms:
                    return None
            num = out
            break
        else:
            break
    return num, den


# --------------------------------------------------------------------------
ARR = None       # set by symnp: ARR(ufunc_name, a, b)


def _hook(cls):
    names = {"add": "add", "sub": "subtract", "mul": "multiply", "truediv": "true_divide",
             "pow": "power", "floordiv": "floor_divide", "mod": "remainder",
             "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal",
             "eq": "equal", "ne": "not_equal", "and": "logical_and", "or": "logical_or",
             "xor": "logical_xor"}
    for n, uf in names.items():
        for pre in ("__", "__r"):
            nm = pre + n + "__"
            f = cls.__dict__.get(nm)
            if f is None:
                continue
            rev = pre == "__r"
            cmpop = n in ("eq", "ne", "lt", "le", "gt", "ge")

            def g(self, o, *a, _f=f, _uf=uf, _rev=rev, _cmpop=cmpop):
                if isinstance(o, _np.ndarray) and (o.ndim > 0 or type(o).__name__ == "SArr"):
                    return ARR(_uf, o, self) if _rev else ARR(_uf, self, o)
                if type(o) is list and not _cmpop:
                    return ARR(_uf, o, self) if _rev else ARR(_uf, self, o)
                return _f(self, o, *a)
            setattr(cls, nm, g)
    h = cls.__dict__.get("__hash__")


for _c in (Num, Cx, SBool):
    _hook(_c)
