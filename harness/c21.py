"""principal values and directions of symmetric 2x2 tensors"""
from hlib import *
CASES = Cases()
BOUNDS = ("every symmetric tensor with entries in [-1,1] times a scale in [1e-5,1e8] and largest entry above the tolerance; spectral form with every angle; "
          "tolerances 1e-6 (default), 1e-3, 1e-9; fields of one to four tensors with any mixture of zero, diagonal and full tensors, of 12, 140 and 300 tensors with two of them free; integer fields")
OUTSIDE = "rounding in nearly multiple eigenvalues; tensors between 0.99 and 1.01 times the tolerance"


def relations(ctx, lab, a, b, d, out, tol, size):
    """tensor [[a, d], [d, b]]; size bounds its entries"""
    e1, e2, v1, v2 = out
    v1, v2 = ctx.values(v1), ctx.values(v2)
    t = 1.05 * tol
    q = 1.0 / size
    ctx.true(lab + "components", len(v1) == 2 and len(v2) == 2)
    for n, e, v in (("first", e1, v1), ("second", e2, v2)):
        ctx.eq(lab + n + " pair", [q * (a * v[0] + d * v[1] - e * v[0]), q * (d * v[0] + b * v[1] - e * v[1])], [0.0, 0.0], tol=t)
        ctx.eq(lab + n + " unit", v[0] * v[0] + v[1] * v[1], 1.0)
    ctx.eq(lab + "orthogonal", v1[0] * v2[0] + v1[1] * v2[1], 0.0)
    ctx.eq(lab + "trace", q * (e1 + e2), q * (a + b), tol=t)
    ctx.true(lab + "largest first", abs(e1) + 1e-9 * size >= abs(e2))


@CASES("entries", weight=4, args=[("%d" % k, dict(k=k)) for k in range(4)])
def entries(ctx, k):
    """general tensor; sign classes of the diagonal"""
    (alo, ahi), (blo, bhi) = [((0, 1), (0, 1)), ((0, 1), (-1, 0)), ((-1, 0), (0, 1)), ((-1, 0), (-1, 0))][k]
    a, b = ctx.real("a", alo, ahi), ctx.real("b", blo, bhi)
    d = ctx.real("d", -1, 1)
    ctx.assume(a * a + b * b + d * d > .01)
    out = ctx.m.pos.eigvals(ctx.farray([[a, d], [d, b]]))
    relations(ctx, "", a, b, d, out, 1e-6, 1.0)


@CASES("spectral", weight=4, args=[("%d-%s" % (k, t), dict(k=k, t=t)) for k in range(4) for t in ("default", "1e-3", "1e-9")])
def spectral(ctx, k, t):
    """Q diag(p, q) Q' for every angle: the values are p and q in order of size"""
    c, s = ctx.angle("t")
    p, q = [(1.0, .5), (-1.0, .5), (-.5, -1.0), (.5, -1.0)][k]
    p = p * ctx.real("p", 1.5, 3)
    q = q * ctx.real("q", 1.5, 2)
    a, b, d = p * c * c + q * s * s, p * s * s + q * c * c, (p - q) * c * s
    kw = {} if t == "default" else {"tol": float(t)}
    tol = kw.get("tol", 1e-6)
    out = ctx.m.pos.eigvals(ctx.farray([[a, d], [d, b]]), **kw)
    relations(ctx, "", a, b, d, out, tol * 3, 1.0)


@CASES("scaled", weight=4, args=[("%g" % k, dict(k=k)) for k in (2e-5, 1e-3, 1e8)])
def scaled(ctx, k):
    """small and large tensors: relative accuracy"""
    a, b, d = k * ctx.real("a", 1, 2), k * ctx.real("b", -1, .5), k * ctx.real("d", .1, 1)
    out = ctx.m.pos.eigvals(ctx.farray([[a, d], [d, b]]))
    relations(ctx, "", a, b, d, out, 1e-6, k)


@CASES("negligible", weight=2, args=[("default", dict(tol=None)), ("coarse", dict(tol=.01)), ("zero-matrix", dict(tol=None, zero=True))])
def negligible(ctx, tol, zero=False):
    """below the tolerance: zero values and undefined directions"""
    t = .99 * (tol or 1e-6)
    a, b, d = [0.0 if zero else ctx.real(n, -t, t) for n in "abd"]
    kw = {} if tol is None else {"tol": tol}
    k, out = ctx.outcome(ctx.m.pos.eigvals, ctx.farray([[a, d], [d, b]]), **kw)
    ctx.true("returns", k == "ok")
    if k != "ok":
        return
    e1, e2, v1, v2 = out
    ctx.eq("values", [e1, e2], [0.0, 0.0], tol=0, strict=True)
    for n, v in (("first", v1), ("second", v2)):
        v = ctx.values(v)
        ctx.true(n, len(v) == 2 and all(is_nan(x) for x in v))


def is_nan(x):
    try:
        return bool(x != x)
    except Exception:       # noqa
        return False


@CASES("diagonal", weight=3)
def diagonal(ctx):
    """diagonal tensors, equal values included"""
    a, b = ctx.real("a", -2, 2), ctx.real("b", -2, 2)
    ctx.assume(a * a + b * b > 1e-3)
    out = ctx.m.pos.eigvals(ctx.farray([[a, 0.0], [0.0, b]]))
    relations(ctx, "", a, b, 0.0, out, 1e-12, 1.0)


@CASES("integer", weight=3)
def integer(ctx):
    i, j, k = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", -1, 2)), ctx.is_int(ctx.integer("k", 0, 2))
    if i or j or k:
        relations(ctx, "", i, j, k, ctx.m.pos.eigvals(ctx.array([[i, k], [k, j]])), 1e-9, 1.0)


KINDS = {"full": lambda ctx, n: [ctx.real("a" + n, 1, 2), ctx.real("b" + n, -1, .5), ctx.real("d" + n, .25, 1)],
         "diag": lambda ctx, n: [ctx.real("a" + n, -2, -1), ctx.real("b" + n, -1, 1), 0.0],
         "zero": lambda ctx, n: [0.0, ctx.real("z" + n, -5e-7, 5e-7), 0.0],
         "shear": lambda ctx, n: [0.0, 0.0, ctx.real("s" + n, -2, -1)],
         "hydro": lambda ctx, n: (lambda h: [h, h, 0.0])(ctx.real("h" + n, 1, 2))}


@CASES("field", weight=5, args=[("-".join(f), dict(f=f)) for f in (
    ("full",), ("zero", "full"), ("full", "zero", "diag"), ("diag", "shear", "zero", "full"), ("hydro", "shear"), ("shear", "diag", "diag"))])
def field(ctx, f):
    """row by row, without interaction"""
    rows = [KINDS[k](ctx, str(i)) for i, k in enumerate(f)]
    e1, e2, v1, v2 = ctx.m.pos.principal_dirs(ctx.farray(rows))
    n = len(rows)
    ctx.true("shapes", ctx.shape(e1) == (n,) and ctx.shape(e2) == (n,) and ctx.shape(v1) == (n, 2) and ctx.shape(v2) == (n, 2))
    e1, e2, v1, v2 = map(ctx.values, (e1, e2, v1, v2))
    for i, (k, r) in enumerate(zip(f, rows)):
        if k == "zero":
            ctx.eq("row %d values" % i, [e1[i], e2[i]], [0.0, 0.0], tol=0, strict=True)
            ctx.true("row %d directions" % i, all(is_nan(x) for x in v1[i] + v2[i]))
        else:
            relations(ctx, "row %d " % i, r[0], r[1], r[2], (e1[i], e2[i], v1[i], v2[i]), 1e-6, 1.0)


@CASES("asymmetric-storage", weight=2)
def asymmetric(ctx):
    """the field version only needs the three components; input kept"""
    rows = [[ctx.real("a", 1, 2), ctx.real("b", -1, .5), ctx.real("d", .25, 1)]] * 2
    F = ctx.farray(rows)
    A = ctx.m.pos.principal_dirs(F)
    ctx.eq("input", F, rows, tol=0, strict=True)
    for x in A[:2]:
        x = ctx.values(x)
        ctx.eq("same rows", x[0], x[1], tol=1e-12)
    for x in A[2:]:
        x = ctx.values(x)
        ctx.eq("same rows", x[0], x[1], tol=1e-12)


@CASES("long-field", weight=4, args=[(str(n), dict(n=n)) for n in (12, 140, 300)])
def long_field(ctx, n):
    """many rows, all kinds in turn, two of them free; further columns are of no interest"""
    pat = [[2.0, -1.0, .5], [0.0, 0.0, 0.0], [-1.0, 3.0, 0.0], [0.0, 0.0, -2.0], [1.5, 1.5, 0.0], [.25, .25, .75], [-2.0, -1.0, .5]]
    rows = [[2.0 ** (i % 5 - 2) * v for v in pat[i % 7]] for i in range(n)]
    free = {n // 2: "diag", n - 1: "full"}
    for i, k in free.items():
        rows[i] = KINDS[k](ctx, str(i))
    e1, e2, v1, v2 = ctx.m.pos.principal_dirs(ctx.farray(rows))
    ctx.true("shapes", ctx.shape(e1) == (n,) and ctx.shape(e2) == (n,) and ctx.shape(v1) == (n, 2) and ctx.shape(v2) == (n, 2))
    e1, e2, v1, v2 = map(ctx.values, (e1, e2, v1, v2))
    for i, r in enumerate(rows):
        if i % 7 == 1 and i not in free:
            ctx.eq("row %d values" % i, [e1[i], e2[i]], [0.0, 0.0], tol=0, strict=True)
            ctx.true("row %d directions" % i, all(is_nan(x) for x in v1[i] + v2[i]))
        else:
            relations(ctx, "row %d " % i, r[0], r[1], r[2], (e1[i], e2[i], v1[i], v2[i]), 1e-6, 1.0)


@CASES("field-scale", weight=3, args=[("%g" % k, dict(k=k)) for k in (2e-5, 1e6)])
def field_scale(ctx, k):
    """strain-like and stress-like sizes in one field"""
    rows = [[k * ctx.real("a", 1, 2), k * ctx.real("b", -1, .5), k * ctx.real("d", .25, 1)], [1.0, .5, .25], [k * ctx.real("e", 1, 2), 0.0, 0.0]]
    e1, e2, v1, v2 = map(ctx.values, ctx.m.pos.principal_dirs(ctx.farray(rows)))
    for i, r in enumerate(rows):
        relations(ctx, "row %d " % i, r[0], r[1], r[2], (e1[i], e2[i], v1[i], v2[i]), 1e-6, 1.0 if i == 1 else k)


@CASES("integer-field", weight=3)
def integer_field(ctx):
    """a table of integers"""
    i, j = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", -1, 2))
    rows = [[i, j, 1], [2, 1 + j, 0], [1, i, 2]]
    e1, e2, v1, v2 = map(ctx.values, ctx.m.pos.principal_dirs(ctx.array(rows)))
    for q, r in enumerate(rows):
        relations(ctx, "row %d " % q, r[0], r[1], r[2], (e1[q], e2[q], v1[q], v2[q]), 1e-6, 1.0)
