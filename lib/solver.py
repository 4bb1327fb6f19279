"""SMT side: translation to z3, path exploration, property queries."""
from fractions import Fraction as Fr
import math
import random
import time
import z3
import poly
from poly import (Num, Cx, SBool, W, INF, Abort, Unsupported, sand, sor, snot,
                  atom, reduce_defs, clear_denominators)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.atoms = 0

    def dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, solver_s=round(self.time, 3),
                    literals=self.atoms)


STATS = Stats()


def rv(q):
    q = Fr(q)
    return z3.RealVal("%d/%d" % (q.numerator, q.denominator)) if q.denominator != 1 \
        else z3.RealVal(q.numerator)


class Enc:
    """Encoder; mode 'lra': monomials are bounded reals, 'nra': products."""

    def __init__(self, mode):
        self.box = mode == "box"
        self.mode = "lra" if self.box else mode
        self.vars = {}
        self.side = []
        self.syms = {}
        self.pending = []

    def sym(self, s):
        v = self.syms.get(s)
        if v is None:
            sy = W.syms[s]
            v = z3.Real("s%d" % s)
            if sy.sort == "i":
                iv = z3.Int("i%d" % s)
                self.side.append(v == z3.ToReal(iv))
            self.syms[s] = v
            if sy.lo > -INF:
                self.side.append(v >= rv(Fr(sy.lo)))
            if sy.hi < INF:
                self.side.append(v <= rv(Fr(sy.hi)))
            if sy.defn is not None:
                self.side.append(v == self.num(sy.defn))
            if sy.sq is not None:
                self.side.append(v * v == self.num(sy.sq))
            for ax in sy.axioms:
                self.side.append(self.form(ax))
        return v

    def mono(self, m):
        v = self.vars.get(m)
        if v is not None:
            return v
        mono = poly.W.monos[m]
        if self.mode == "nra":
            v = None
            for s, e in mono:
                x = self.sym(s)
                if e < 0:
                    inv = self.vars.get(("inv", s))
                    if inv is None:
                        inv = z3.Real("inv%d" % s)
                        self.side.append(inv * x == 1)
                        self.vars[("inv", s)] = inv
                    x, e = inv, -e
                for _ in range(e):
                    v = x if v is None else v * x
            self.vars[m] = v
            return v
        v = z3.Real("m%d" % m)
        self.vars[m] = v
        lo, hi = poly.mono_interval(m)
        if lo > -INF:
            self.side.append(v >= rv(Fr(lo) - abs(Fr(lo)) / 10 ** 12))
        if hi < INF:
            self.side.append(v <= rv(Fr(hi) + abs(Fr(hi)) / 10 ** 12))
        if len(mono) == 1 and mono[0][1] == 1 and not self.box:
            sy = poly.W.syms[mono[0][0]]
            if sy.sort == "i":
                self.side.append(v == z3.ToReal(z3.Int("i%d" % sy.id)))
            if sy.defn is not None:
                self.side.append(v == self.num(sy.defn))
            for ax in sy.axioms:
                self.side.append(self.form(ax))
        return v

    def num(self, n):
        terms = []
        for m, c in n.t.items():
            if m == 0:
                terms.append(rv(c))
            elif c == 1:
                terms.append(self.mono(m))
            else:
                terms.append(rv(c) * self.mono(m))
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def form(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if f.op == "and":
            return z3.And([self.form(x) for x in f.a])
        if f.op == "or":
            return z3.Or([self.form(x) for x in f.a])
        STATS.atoms += 1
        t = self.num(f.a)
        return {"<": t < 0, "<=": t <= 0, ">": t > 0, ">=": t >= 0,
                "==": t == 0, "!=": t != 0}[f.op]


def _bound(x):
    return x


def check(forms, mode, timeout_ms):
    """-> ('unsat'|'sat'|'unknown', model-or-None, enc)"""
    t0 = time.time()
    enc = Enc(mode)
    s = z3.SolverFor("QF_LRA" if mode == "box" else "QF_LIRA") if mode != "nra" else z3.Solver()
    s.set("timeout", int(timeout_ms))
    for f in forms:
        s.add(enc.form(f))
    n = 0
    while n < len(enc.side):
        s.add(enc.side[n])
        n += 1
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None, enc
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model(), enc
    STATS.unknown += 1
    return "unknown", None, enc


def check_pairs(pairs, limit=12000):
    """negated equalities of pairs whose normal forms agree, as one query"""
    t0 = time.time()
    enc = Enc("lra")
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 20000)
    alts, n = [], 0
    for a, b, t in pairs:
        for x, y in _parts(a, b):
            x, y = poly.lift(x), poly.lift(y)
            if type(x) is not Num or type(y) is not Num:
                continue
            if has_def(x) or has_def(y):
                log = []
                d = reduce_defs(x - y, log=log)
                size = sum(len(u.t) + len(v.t) for u, v in log)
                if size <= 1500 and n + size < limit:
                    n += size
                    for u, v in log:
                        s.add(enc.num(u) == enc.num(v))
                else:
                    x, y = d, poly.lift(0.0)
            n += len(x.t) + len(y.t)
            if n > limit:
                break
            zx, zy, zt = enc.num(x), enc.num(y), enc.num(poly.lift(t))
            alts += [zx - zy > zt, zy - zx > zt]
            STATS.atoms += 2
    s.add(z3.Or(alts) if alts else z3.BoolVal(False))
    k = 0
    while k < len(enc.side):
        s.add(enc.side[k])
        k += 1
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    if r == z3.unsat:
        STATS.unsat += 1
    elif r == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return "unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"


def has_def(n):
    for m in n.t:
        for s, e in W.monos[m]:
            if W.syms[s].defn is not None or W.syms[s].sq is not None:
                return True
    return False


def _parts(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a = a if isinstance(a, Cx) else Cx(poly.lift(a), poly.lift(0.0))
        b = b if isinstance(b, Cx) else Cx(poly.lift(b), poly.lift(0.0))
        return [(a.re, b.re), (a.im, b.im)]
    if isinstance(a, complex) or isinstance(b, complex):
        return []
    if poly._nonfinite(a) or poly._nonfinite(b):
        return []
    return [(a, b)]


def cleared(f):
    """atom with denominators multiplied out (sound for den>0 known sign)"""
    if f is True or f is False:
        return f
    if f.op in ("and", "or"):
        xs = [cleared(x) for x in f.a]
        if any(x is None for x in xs):
            return None
        return sand(*xs) if f.op == "and" else sor(*xs)
    r = clear_denominators(f.a)
    if r is None:
        return None
    num, den = r
    lo, hi = den.interval()
    if lo < 0 and hi > 0 and f.op not in ("==", "!="):
        # square the sign away
        num = num * den
    elif hi <= 0 and f.op not in ("==", "!="):
        num = -num
    return atom(num, f.op)


def weaken(f):
    """formula implied by f whose literals have short coefficients (each
    rounding error, times the bound of its monomial, is added as slack)"""
    if f is True or f is False:
        return f
    if f.op in ("and", "or"):
        xs = [weaken(x) for x in f.a]
        return sand(*xs) if f.op == "and" else sor(*xs)
    if f.op not in (">", ">=", "<", "<="):
        return f
    t, slack = {}, Fr(0)
    for m, c in f.a.t.items():
        if m == 0 or c.denominator.bit_length() + c.numerator.bit_length() < 48:
            t[m] = c
            continue
        lo, hi = poly.mono_interval(m)
        mag = max(abs(lo), abs(hi))
        if mag == INF:
            t[m] = c
            continue
        fl = float(c)
        k = 24 - math.frexp(fl)[1] if fl else 0
        r = Fr(round(c * Fr(2) ** k)) / Fr(2) ** k
        if k > 100:
            r = Fr(0)
        slack += abs(c - r) * Fr(mag)
        if r:
            t[m] = r
    s = float(slack) * (1 + 1e-9)
    s = Fr(math.ceil(s * 2 ** 80)) / 2 ** 80 if s < 1 else slack
    t[0] = t.get(0, Fr(0)) + (s if f.op in (">", ">=") else -s)
    return atom(Num({k: v for k, v in t.items() if v}, "f"), f.op)


# --------------------------------------------------------------------------
class Env:
    """numeric evaluation at a concrete point"""

    def __init__(self, inputs):
        self.inputs = inputs
        self.sv = {}

    def sym(self, s):
        v = self.sv.get(s)
        if v is None:
            sy = W.syms[s]
            if sy.ev is not None:
                v = sy.ev(self)
            elif sy.name in self.inputs:
                v = self.inputs[sy.name]
            else:
                raise KeyError(sy.name)
            self.sv[s] = v
        return v

    def __call__(self, n):
        if isinstance(n, Cx):
            return complex(self(n.re), self(n.im))
        if isinstance(n, SBool):
            return self.form(n)
        if not isinstance(n, Num):
            return n
        tot = 0.0
        monos = W.monos
        for m, c in n.t.items():
            v = c.numerator / c.denominator if c.denominator.bit_length() < 1000 and c.numerator.bit_length() < 1000 else float(c)
            for s, e in monos[m]:
                x = self.sym(s)
                if x == 0 and e < 0:
                    return float("nan")
                v *= x ** e
            tot += v
        return tot

    def form(self, f, slack=0.0):
        if f is True or f is False:
            return f
        if f.op == "and":
            return all(self.form(x, slack) for x in f.a)
        if f.op == "or":
            return any(self.form(x, slack) for x in f.a)
        v = self(f.a)
        if v != v:
            return False
        return {"<": v < 0, "<=": v <= slack, ">": v > 0, ">=": v >= -slack,
                "==": abs(v) <= slack, "!=": v != 0}[f.op]


class Explorer:
    """depth-first symbolic execution by re-running with recorded decisions"""

    def __init__(self, seed=1, max_paths=2000, nra_ms=1500, deadline=None):
        self.rng = random.Random(seed)
        self.max_paths = max_paths
        self.nra_ms = nra_ms
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.deadline = deadline
        self.inputs = []      # ordered input descriptors of current path
        self.aborted = None
        self.cache = {}
        self.truncated = False

    # ---- input declaration
    def declare(self, desc):
        self.inputs.append(desc)

    # ---- decisions
    def decide(self, f):
        if self.aborted:
            raise Abort(self.aborted)
        f = f if isinstance(f, SBool) else bool(f)
        if f is True or f is False:
            return f
        key = f.key()
        if key in self.known:
            return self.known[key]
        self.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            val, forced = self.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                self.aborted = "deadline"
                raise Abort("deadline")
            nf = snot(f)
            ft = self.feasible(f)
            ff = self.feasible(nf) if ft else True
            if ft and ff:
                val, forced = True, False
                self.forks += 1
                self.stack.append(self.trace + [(False, False)])
            else:
                val, forced = ft, True
        self.trace.append((val, forced))
        lit = f if val else snot(f)
        if not forced:
            self.pc.append(lit)
        self.known[key] = val
        nk = snot(f).key()
        self.known[nk] = not val
        return val

    def slice(self, f):
        """constraints of the path that share symbols (transitively) with f"""
        rest = [(x, symbols(x)) for x in self.pc + self.assumed]
        have = set(symbols(f))
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for x, sy in rest:
                if sy & have:
                    out.append(x)
                    have |= sy
                    changed = True
                else:
                    keep.append((x, sy))
            rest = keep
        return out

    def feasible(self, f):
        forms = self.slice(f) + [f]
        key = frozenset(x.key() for x in forms if isinstance(x, SBool))
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._feas(forms)
        self.cache[key] = r
        return r

    def _feas(self, forms):
        st, _, _ = check(forms, "lra", 5000)
        if st == "unsat":
            return False
        if st == "sat" and all(_linear(x) for x in forms):
            return True
        # a concrete witness is a cheap proof of feasibility
        if self.witness(forms, tries=40) is not None:
            return True
        st, _, _ = check(forms, "nra", self.nra_ms)
        if st == "unsat":
            return False
        if st == "unknown":
            cl = [cleared(x) for x in forms]
            if all(c is not None for c in cl):
                if any(c is False for c in cl):
                    return False
                st, _, _ = check([c for c in cl if c is not True], "lra", 4000)
                if st == "unsat":
                    return False
        return True

    # ---- concretisation
    def sample(self, mode):
        env = {}
        for d in self.inputs:
            env[d["name"]] = d["sample"](self.rng, mode)
        return env

    def witness(self, forms, tries=200, extra=None):
        """concrete inputs satisfying forms (numerically) or None"""
        best = None
        for k in range(tries):
            inp = self.sample(k)
            env = Env(inp)
            try:
                if all(env.form(f, 1e-12) for f in forms):
                    return inp
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                continue
        return best

    def model_inputs(self, forms, ms=3000):
        st, model, enc = check(forms, "nra", ms)
        if st != "sat":
            return st, None
        def val(name):
            sy = W.byname.get(name)
            if sy is None or sy.id not in enc.syms:
                return None
            v = model.eval(enc.syms[sy.id], model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            try:
                return float(v.as_fraction())
            except Exception:
                return None
        base = self.sample(0)
        for d in self.inputs:
            x = d["from_model"](val)
            if x is not None:
                base[d["name"]] = x
        return "sat", base

    def find_inputs(self, forms, tries=300):
        w = self.witness(forms, tries=tries)
        if w is not None:
            return w
        st, w = self.model_inputs(forms)
        return w

    # ---- driver
    def run(self, fn, on_path):
        self.stack = [[]]
        while self.stack:
            if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.truncated = True
                break
            self.prefix = self.stack.pop()
            self.trace = []
            self.pc = []
            self.assumed = []
            self.known = {}
            self.inputs = []
            self.aborted = None
            W.explorer = self
            try:
                res = fn()
            except Abort as e:
                if self.aborted == "deadline":
                    self.truncated = True
                    break
                res = ("abort", str(e))
            if self.aborted:
                if self.aborted == "deadline":
                    self.truncated = True
                    break
                res = ("abort", self.aborted)
            self.paths += 1
            on_path(res)

    def assume(self, f):
        f = poly._tob(f)
        if f is True:
            return
        if f is False:
            self.aborted = "assumption false"
            raise Abort("assume")
        self.assumed.append(f)
        self.known[f.key()] = True
        self.known[snot(f).key()] = False


_SYMS = {}


def symbols(f):
    if f is True or f is False:
        return frozenset()
    if _SYMS.get("world") is not W:
        _SYMS.clear()
        _SYMS["world"] = W
    k = f.key()
    r = _SYMS.get(k)
    if r is None:
        todo, seen = [f], set()
        while todo:
            x = todo.pop()
            if x is True or x is False:
                continue
            if isinstance(x, SBool):
                if x.op in ("and", "or"):
                    todo += list(x.a)
                    continue
                x = x.a
            for m in x.t:
                for s, _ in W.monos[m]:
                    if s not in seen:
                        seen.add(s)
                        sy = W.syms[s]
                        if sy.defn is not None:
                            todo.append(sy.defn)
                        if sy.sq is not None:
                            todo.append(sy.sq)
                        todo += list(sy.axioms)
        r = _SYMS[k] = frozenset(seen)
    return r


def _linear(f):
    if f is True or f is False:
        return True
    if f.op in ("and", "or"):
        return all(_linear(x) for x in f.a)
    for m in f.a.t:
        mono = W.monos[m]
        if len(mono) > 1 or (mono and mono[0][1] != 1):
            return False
        if mono:
            sy = W.syms[mono[0][0]]
            if sy.role not in ("in",):
                return False
    return True


# --------------------------------------------------------------------------
def violation_formula(a, b, tol):
    """|a-b| > tol  as a formula (tol: Num/number >= 0)"""
    d = poly.lift(a) - poly.lift(b)
    t = poly.lift(tol)
    if type(d) is Cx:
        return sor(violation_formula(d.re, 0, tol), violation_formula(d.im, 0, tol))
    return sor(atom_raw(d - t, ">"), atom_raw(-d - t, ">"))


def atom_raw(n, op):
    """like atom but kept as a literal for the solver when non-constant"""
    if n.is_const():
        return atom(n, op)
    return SBool(op, n)
