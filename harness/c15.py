"""quadrature rules"""
from hlib import *
from refint import intmono
CASES = Cases()
BOUNDS = ("Gauss-Legendre rules with 2 to 10 points in one dimension, tensor rules with every number of points in one to three dimensions, up to 4 points in four and 2 in five, "
          "triangle rules of order 1 to 7, tetrahedron rules of every order accepted up to 10; every polynomial of the declared degree with coefficients in [-1,1]; "
          "every integer order in [-3,30]")
OUTSIDE = "error of the tabulated digits below 1e-13 (1e-11 on the triangle, whose table has 13 digits)"


def monomials(dim, total=None, per=None):
    if dim == 0:
        return [()]
    out = []
    for head in monomials(dim - 1, total, per):
        top = per if per is not None else total - sum(head)
        out += [head + (k,) for k in range(top + 1)]
    return out


def integral_error(ctx, pts, wts, mons, exact):
    """sum_q w_q p(x_q) for p = sum c_k x^k with symbolic coefficients; both sides"""
    got, ref = 0, 0
    npt = len(pts)
    for n, e in enumerate(mons):
        m = 0
        for p, w in zip(pts, wts):
            v = w
            for x, k in zip(p, e):
                for _ in range(k):
                    v = v * x
            m = m + v
        c = ctx.real("c%d" % n, -1, 1)
        got = got + c * m
        ref = ref + c * ctx.const(exact(e))
    return got, ref


def box(e):
    return intmono("quad", e)


def listed(ctx, x):
    return [list(r) if isinstance(r, (list, tuple)) else r for r in ctx.values(x)] if not isinstance(x, (list, tuple)) else list(x)


@CASES("line", args=[(str(n), dict(n=n)) for n in range(2, 11)])
def line(ctx, n):
    pts, wts = ctx.m.gau.gauss_1d(n)
    pts, wts = listed(ctx, pts), listed(ctx, wts)
    ctx.true("sizes", len(pts) == n and len(wts) == n)
    got, ref = integral_error(ctx, [[x] for x in pts], wts, monomials(1, 2 * n - 1), box)
    ctx.eq("exact", got, ref, tol=1e-13 * 2 * n, strict=True)
    ctx.true("inside", all(bool(abs(x) < 1) for x in pts))
    ctx.true("positive", all(bool(w > 0) for w in wts))
    ctx.true("distinct", all(bool(pts[i] < pts[i + 1]) for i in range(n - 1)))


@CASES("tensor", weight=4, args=[("%d-%d" % (n, d), dict(n=n, d=d)) for d, top in ((1, 10), (2, 10), (3, 10), (4, 4), (5, 2)) for n in range(2, top + 1)])
def tensor(ctx, n, d):
    """points and weights of the tensor rule correspond; integrals for the smaller ones"""
    p1, w1 = ctx.m.gau.gauss_1d(n)
    p1, w1 = listed(ctx, p1), listed(ctx, w1)
    if d == 2:
        k, v = ctx.outcome(ctx.m.gau.gauss_nd, n)       # two dimensions by default
        ctx.true("default dimension", k == "ok" and ctx.shape(v[0]) == (n * n, 2))
    pts, wts = ctx.m.gau.gauss_nd(n, ndim=d)
    ctx.true("shape", ctx.shape(pts) == (n ** d, d) and len(wts) == n ** d)
    P, w = listed(ctx, pts), listed(ctx, wts)
    # order: every combination once; weight of a point is the product of the weights of its coordinates
    seen = set()
    good, pos = True, True
    rows = []
    for q in range(n ** d):
        idx = []
        for x in P[q]:
            j = [i for i in range(n) if bool(p1[i] == x)]
            if len(j) != 1:
                good = False
                break
            idx.append(j[0])
        if not good:
            break
        seen.add(tuple(idx))
        r = 1.0
        for i in idx:
            r = r * w1[i]
        rows.append(r)
    ctx.true("tensor points", good and len(seen) == n ** d)
    if good:
        ctx.eq("tensor weights", w, rows, tol=1e-14, strict=True)
    if n <= {1: 10, 2: 5, 3: 3, 4: 2, 5: 2}[d]:
        got, ref = integral_error(ctx, P, w, monomials(d, per=2 * n - 1), box)
        ctx.eq("exact", got, ref, tol=1e-13 * (2 * n) ** d, strict=True)


@CASES("triangle", args=[(str(n), dict(n=n)) for n in range(1, 8)])
def triangle(ctx, n):
    """weights add up to one; the area factor 1/2 belongs to the caller"""
    pts, wts = ctx.m.gau.gauss_tri(n)
    P, w = listed(ctx, pts), listed(ctx, wts)
    ctx.true("sizes", len(P) == len(w) and all(len(p) == 2 for p in P))
    mons = monomials(2, n)
    got, ref = integral_error(ctx, P, w, mons, lambda e: 2 * intmono("tri", e))
    ctx.eq("exact", got, ref, tol=1.5e-12 * len(mons), strict=True)
    ctx.true("inside", all(bool(p[0] > 0) and bool(p[1] > 0) and bool(p[0] + p[1] < 1) for p in P))


@CASES("triangle-default")
def triangle_default(ctx):
    a, wa = ctx.m.gau.gauss_tri()
    b, wb = ctx.m.gau.gauss_tri(2)
    ctx.eq("points", a, b, tol=0, strict=True)
    ctx.eq("weights", wa, wb, tol=0, strict=True)


@CASES("tetrahedron", weight=3, args=[(str(n), dict(n=n)) for n in range(1, 11)])
def tetrahedron(ctx, n):
    """weights add up to one; the volume factor 1/6 belongs to the caller"""
    pts, wts = ctx.m.gau.gauss_tet(n)
    P, w = listed(ctx, pts), listed(ctx, wts)
    ctx.true("sizes", len(P) == len(w) and all(len(p) == 3 for p in P))
    mons = monomials(3, n)
    got, ref = integral_error(ctx, P, w, mons, lambda e: 6 * intmono("tet", e))
    ctx.eq("exact", got, ref, tol=1e-13 * len(mons), strict=True)
    ctx.true("inside", all(all(bool(x > 0) for x in p) and bool(p[0] + p[1] + p[2] < 1) for p in P))


@CASES("unavailable", args=[(f, dict(f=f)) for f in ("gauss_1d", "gauss_nd", "gauss_tri", "gauss_tet")])
def unavailable(ctx, f):
    lo, hi = {"gauss_1d": (2, 10), "gauss_nd": (2, 10), "gauss_tri": (1, 7), "gauss_tet": (1, 10)}[f]
    n = ctx.integer("n", -3, 30)
    if bool(n >= lo) and bool(n <= hi):
        n = ctx.is_int(n)
        k, v = ctx.outcome(getattr(ctx.m.gau, f), n)
        ctx.true("available %d" % n, k == "ok")
        return
    k, v = ctx.outcome(getattr(ctx.m.gau, f), n)
    ctx.true("rejected", k == "raise" and isinstance(v, ValueError))


@CASES("element-order", args=[("quad4-nd", dict(n=2, d=2)), ("quad9-nd", dict(n=3, d=2)), ("hex8-nd", dict(n=2, d=3))])
def order(ctx, n, d):
    """rules used by the elements integrate any product of the polynomials they need, symbolic point of expansion"""
    pts, wts = ctx.m.gau.gauss_nd(n, ndim=d)
    P, w = listed(ctx, pts), listed(ctx, wts)
    # product of one-dimensional polynomials (x-a)^(2n-1)
    a = [ctx.real("a%d" % i, -1, 1) for i in range(d)]
    k = 2 * n - 1
    got = 0
    for p, q in zip(P, w):
        v = q
        for i in range(d):
            for _ in range(k):
                v = v * (p[i] - a[i])
        got = got + v
    ref = 1.0
    for i in range(d):
        up, dn = 1 - a[i], -1 - a[i]
        u, v = 1.0, 1.0
        for _ in range(k + 1):
            u, v = u * up, v * dn
        ref = ref * ((u - v) * (1 / ctx.const(k + 1)))
    ctx.eq("exact", got, ref, tol=1e-10, strict=True)
