"""mesh import helpers"""
from hlib import *
CASES = Cases()
BOUNDS = ("every assignment of physical tags 1..3 to up to four cells (five for lines), every requested tag 1..3, every connectivity of up to three lines over four nodes, "
          "several cell kinds in one mesh; tables of 11 to 300 cells, 12 to 300 points and boundaries of 7 to 400 lines with three or four free tags; symbolic coordinates, restraint flags, load components, starting numbers, type and material codes")
OUTSIDE = ("loads on a tag without lines (there is nothing to share); cell kinds other than triangle, triangle6, quad; line cells of higher order; "
           "meshio itself")
NN = {"triangle": 3, "triangle6": 6, "quad": 4}


def tags(ctx, n, tag="t", hi=3):
    return [ctx.integer("%s%d" % (tag, i), 1, hi) for i in range(n)]


def cells_of(kind, n, shift=0):
    return [[(7 * e + 3 * i + shift) % 23 for i in range(NN[kind])] for e in range(n)]


@CASES("elements", weight=4, max_paths=2000, args=[("%s-%d" % (k, n), dict(kind=k, n=n)) for k in NN for n in (1, 3, 4)])
def elements(ctx, kind, n):
    conn = [[ctx.integer("c%d_%d" % (e, i), 0, 99) for i in range(NN[kind])] for e in range(n)]
    t = tags(ctx, n)
    want = ctx.integer("want", 1, 3)
    typ, mt, ini = ctx.integer("typ", 1, 9), ctx.integer("mt", 0, 9), ctx.is_int(ctx.integer("ini", 0, 2)) * 50
    C, T = ctx.array(conn), ctx.array(t)
    nf, els = ctx.m.pre.ele_writer({kind: C}, {kind: {"gmsh:physical": T, "gmsh:geometrical": ctx.array([9] * n)}}, kind, want, typ, mt, ini)
    sel = [e for e in range(n) if bool(t[e] == want)]
    ctx.true("shape", ctx.shape(els) == (len(sel), 3 + NN[kind]))
    ctx.true("integers", ctx.dtype_kind(els) == "i")
    if sel:
        ctx.eq("table", els, [[ini + k, typ, mt] + conn[e] for k, e in enumerate(sel)], tol=0, strict=True)
    ctx.eq("next number", nf, ini + len(sel), tol=0, strict=True)
    ctx.eq("connectivity kept", C, conn, tol=0, strict=True)
    ctx.eq("tags kept", T, t, tol=0, strict=True)


@CASES("mixed", weight=3, max_paths=2000)
def mixed(ctx):
    """several kinds of cells; subsets written one after another are numbered consecutively"""
    cells, data, tg = {}, {}, {}
    for kind, n in (("triangle", 2), ("quad", 3), ("line", 1)):
        cells[kind] = ctx.array(cells_of(kind, n) if kind != "line" else [[0, 1]])
        tg[kind] = tags(ctx, n, kind[0], 2)
        data[kind] = {"gmsh:physical": ctx.array(tg[kind])}
    nf, rows, ref = 0, [], []
    for kind, want, typ, mt in (("quad", 2, 1, 0), ("triangle", 1, 3, 1), ("quad", 1, 1, 2)):
        nf, els = ctx.m.pre.ele_writer(cells, data, kind, want, typ, mt, nf)
        rows.append(els)
        src = cells_of(kind, len(tg[kind]))
        ref.append([[typ, mt] + src[e] for e in range(len(tg[kind])) if bool(tg[kind][e] == want)])
    k = 0
    for els, r in zip(rows, ref):
        ctx.true("count", ctx.shape(els)[0] == len(r))
        if r:
            ctx.eq("rows", els, [[k + i] + x for i, x in enumerate(r)], tol=0, strict=True)
        k += len(r)
    ctx.eq("total", nf, k, tol=0, strict=True)


@CASES("nodes", weight=1, args=[("%dd-%d" % (d, n), dict(d=d, n=n)) for d in (2, 3) for n in (1, 4)])
def nodes(ctx, d, n):
    P = [[ctx.real("p%d%d" % (i, j), -10, 10) for j in range(d)] for i in range(n)]
    A = ctx.farray(P)
    N = ctx.m.pre.node_writer(A, {})
    ctx.eq("table", N, [[float(i), P[i][0], P[i][1], 0.0, 0.0] for i in range(n)], tol=0, strict=True)
    N[0, 1] = 77.0
    ctx.eq("points kept", A, P, tol=0, strict=True)


@CASES("integer-points", weight=1)
def int_points(ctx):
    i = ctx.integer("i", -5, 5)
    N = ctx.m.pre.node_writer(ctx.array([[i, 2, 0], [1, 3, 0]]), None)
    ctx.eq("table", N, [[0.0, i, 2.0, 0.0, 0.0], [1.0, 1.0, 3.0, 0.0, 0.0]])
    ctx.true("real numbers", ctx.dtype_kind(N) == "f")


LINES = [[[0, 1], [1, 2], [2, 3]], [[3, 0], [0, 3], [1, 2]], [[2, 1], [0, 1], [3, 1]], [[1, 3], [3, 2], [2, 1]], [[0, 1], [2, 3], [0, 3]]]


def lines(ctx, ln, t):
    return ({"line": ctx.array(ln), "triangle": ctx.array([[0, 1, 2]])},
            {"line": {"gmsh:physical": ctx.array(t)}, "triangle": {"gmsh:physical": ctx.array([1])}})


@CASES("supports", weight=4, max_paths=5000, args=[("%d" % k, dict(k=k)) for k in range(len(LINES))])
def supports(ctx, k):
    t = tags(ctx, 3)
    want = ctx.integer("want", 1, 3)
    bx, by = ctx.integer("bx", -1, 0), ctx.integer("by", -1, 0)
    fl = flags(ctx, 5, 2)
    N = ctx.farray([[i, .5 * i, ctx.real("y%d" % i, -1, 1)] + fl[i] for i in range(5)])
    N0 = ctx.values(N)
    c, d = lines(ctx, LINES[k], t)
    R = ctx.m.pre.boundary_conditions(c, d, want, N, bx, by)
    on = set(v for ln, x in zip(LINES[k], t) if bool(x == want) for v in ln)
    ctx.eq("table", R, [r[:3] + ([bx, by] if i in on else r[3:]) for i, r in enumerate(N0)], tol=0, strict=True)
    ctx.eq("lines kept", c["line"], LINES[k], tol=0, strict=True)


@CASES("supports-any", weight=4, max_paths=20000)
def supports_any(ctx):
    """every pair of lines over four nodes"""
    ln = [[ctx.is_int(ctx.integer("l%d%d" % (e, i), 0, 3)) for i in range(2)] for e in range(2)]
    t = tags(ctx, 2, hi=2)
    N = ctx.farray([[i, 0, 0, 0, -1] for i in range(4)])
    c, d = lines(ctx, ln, t)
    R = ctx.m.pre.boundary_conditions(c, d, 1, N, -1, 0)
    on = set(v for e, x in zip(ln, t) if bool(x == 1) for v in e)
    ctx.eq("table", R, [[i, 0, 0, -1, 0] if i in on else [i, 0, 0, 0, -1] for i in range(4)], tol=0, strict=True)


def check_loads(ctx, L, on, P):
    ctx.true("one row per node", ctx.shape(L) == (len(on), 3))
    V = ctx.values(L)
    seen = [ctx.is_int(r[0]) for r in V]
    ctx.true("nodes", sorted(seen) == sorted(on))
    n = len(on)
    for j in range(2):
        ctx.eq("share %d" % j, [r[1 + j] * n for r in V], [P[j]] * n, scale=10)
        ctx.eq("resultant %d" % j, sum(r[1 + j] for r in V), P[j], scale=10)


@CASES("loads", weight=4, max_paths=5000, args=[("%d" % k, dict(k=k)) for k in range(len(LINES))])
def loads(ctx, k):
    t = tags(ctx, 3)
    want = ctx.integer("want", 1, 3)
    P = [ctx.real("Px", -100, 100), ctx.real("Py", -100, 100)]
    c, d = lines(ctx, LINES[k], t)
    on = set(v for ln, x in zip(LINES[k], t) if bool(x == want) for v in ln)
    ctx.assume(len(on) > 0)
    check_loads(ctx, ctx.m.pre.loading(c, d, want, P[0], P[1]), on, P)


@CASES("loads-any", weight=4, max_paths=20000)
def loads_any(ctx):
    ln = [[ctx.is_int(ctx.integer("l%d%d" % (e, i), 0, 3)) for i in range(2)] for e in range(2)]
    t = tags(ctx, 2, hi=2)
    P = [ctx.integer("Px", -5, 5), ctx.integer("Py", -5, 5)]
    c, d = lines(ctx, ln, t)
    on = set(v for e, x in zip(ln, t) if bool(x == 1) for v in e)
    ctx.assume(len(on) > 0)
    check_loads(ctx, ctx.m.pre.loading(c, d, 1, P[0], P[1]), on, P)


@CASES("five-lines", weight=3, max_paths=5000)
def five(ctx):
    """closed contour of five lines: supports and loads on the same tags"""
    ln = [[i, (i + 1) % 5] for i in range(5)]
    t = tags(ctx, 5, hi=2)
    c, d = lines(ctx, ln, t)
    on = set(v for e, x in zip(ln, t) if bool(x == 2) for v in e)
    ctx.assume(len(on) > 0)
    P = [ctx.real("Px", -100, 100), ctx.real("Py", -100, 100)]
    check_loads(ctx, ctx.m.pre.loading(c, d, 2, P[0], P[1]), on, P)
    R = ctx.values(ctx.m.pre.boundary_conditions(c, d, 2, ctx.farray([[i, 0, 0, 0, 0] for i in range(6)]), -1, -1))
    ctx.eq("supports", R, [[i, 0, 0] + ([-1, -1] if i in on else [0, 0]) for i in range(6)], tol=0, strict=True)


@CASES("into-analysis", weight=2, args=[("%d" % k, dict(k=k)) for k in range(2)])
def into(ctx, k):
    """the tables feed the assembler: resultant of the assembled loads"""
    P = [ctx.real("Px", -100, 100), ctx.real("Py", -100, 100)]
    c, d = lines(ctx, LINES[k], [1, 1, 2])
    pts = ctx.farray([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]])
    N = ctx.m.pre.node_writer(pts, {})
    N = ctx.m.pre.boundary_conditions(c, d, 2, N, 0, -1)
    nf, els = ctx.m.pre.ele_writer({"quad": ctx.array([[0, 1, 2, 3]])}, {"quad": {"gmsh:physical": ctx.array([4])}}, "quad", 4, 1, 0, 0)
    op, bc, neq = ctx.m.ass.DME(N[:, 3:], els)
    L = ctx.m.pre.loading(c, d, 1, P[0], P[1])
    f = ctx.values(ctx.m.ass.loadasem(L, bc, neq))
    B = [[ctx.is_int(v) for v in r] for r in ctx.values(bc)]
    on = set(v for e in LINES[k][:2] for v in e)
    held = set(LINES[k][2])
    ctx.eq("x", sum(f[B[i][0]] for i in range(4)), P[0], scale=10)
    ctx.eq("y", len(on) * sum(f[B[i][1]] for i in range(4) if i not in held), (len(on - held)) * P[1], scale=10)


@CASES("many-cells", weight=4, max_paths=100, args=[("%s-%d" % p, dict(kind=p[0], n=p[1])) for p in (("triangle", 11), ("quad", 30), ("triangle6", 30), ("triangle", 140), ("quad", 300))])
def many_cells(ctx, kind, n):
    """long tables of cells; three of the tags are free"""
    t = [1 + (e * e) % 3 for e in range(n)]
    for e in (0, n // 2, n - 1):
        t[e] = ctx.integer("t%d" % e, 1, 2)
    conn = [[(7 * e + 3 * i) % (2 * n + 9) for i in range(NN[kind])] for e in range(n)]
    mt = ctx.integer("mt", 0, 300)
    want = ctx.is_int(ctx.integer("want", 1, 2))
    ini = ctx.is_int(ctx.integer("ini", 0, 1)) * 1000
    nf, els = ctx.m.pre.ele_writer({kind: ctx.array(conn)}, {kind: {"gmsh:physical": ctx.array(t)}}, kind, want, 7, mt, ini)
    sel = [e for e in range(n) if bool(t[e] == want)]
    ctx.true("shape", ctx.shape(els) == (len(sel), 3 + NN[kind]))
    ctx.eq("table", els, [[ini + k, 7, mt] + conn[e] for k, e in enumerate(sel)], tol=0, strict=True)
    ctx.eq("next number", nf, ini + len(sel), tol=0, strict=True)


@CASES("many-nodes", args=[("%d-%d" % p, dict(n=p[0], d=p[1])) for p in ((12, 3), (150, 2), (300, 3))])
def many_nodes(ctx, n, d):
    """long tables of points; coordinates of any scale"""
    P = [[.1 * i + j for j in range(d)] for i in range(n)]
    for i in (0, n // 2, n - 1):
        P[i] = [ctx.real("p%d%d" % (i, j), -1e9, 1e9) for j in range(d)]
    P[1] = [ctx.real("s%d" % j, -1e-9, 1e-9) for j in range(d)]
    N = ctx.m.pre.node_writer(ctx.farray(P), {})
    ctx.eq("table", N, [[float(i), P[i][0], P[i][1], 0.0, 0.0] for i in range(n)], tol=0, strict=True)


@CASES("many-lines", weight=5, max_paths=300, args=[("%s-%d" % (k, n), dict(k=k, n=n)) for k in ("chain", "backwards", "loop", "scattered") for n in (7, 12, 40, 140)] + [("%s-400" % k, dict(k=k, n=400)) for k in ("chain", "loop")])
def many_lines(ctx, k, n):
    """long boundaries: supports and loads"""
    ln = [[i, i + 1] for i in range(n)]
    nn = 2 * n + 2
    if k == "backwards":
        ln = [[n - i, n - i - 1] for i in range(n)]
    elif k == "loop":
        ln = [[i, (i + 1) % n] for i in range(n)]
    elif k == "scattered":
        ln = [[(2 * i + 1) % n + n * (i % 2), (5 * i) % n] for i in range(n)]
        ln = [[a, b if b != a else (b + 1) % n] for a, b in ln]
    t = [1 + (i % 9 > 5) for i in range(n)]
    for i in (0, n // 3, n - 2, n - 1):
        t[i] = ctx.is_int(ctx.integer("t%d" % i, 1, 2))
    want = ctx.is_int(ctx.integer("want", 1, 2))
    on = set(v for e, x in zip(ln, t) if x == want for v in e)
    ctx.assume(len(on) > 0)
    c = {"line": ctx.array(ln)}
    d = {"line": {"gmsh:physical": ctx.array(t)}}
    P = [ctx.real("Px", -100, 100), ctx.real("Py", -100, 100)]
    check_loads(ctx, ctx.m.pre.loading(c, d, want, P[0], P[1]), on, P)
    fl = [[-(i % 2), -(i % 3 == 0)] for i in range(nn)]
    R = ctx.m.pre.boundary_conditions(c, d, want, ctx.farray([[i, .5, 2.0] + fl[i] for i in range(nn)]), 0, -1)
    ctx.eq("supports", R, [[i, .5, 2.0] + ([0, -1] if i in on else fl[i]) for i in range(nn)], tol=0, strict=True)


@CASES("load-size", weight=2, args=[("small", dict(lo=1e-12, hi=1e-8)), ("large", dict(lo=1e8, hi=1e12))])
def load_size(ctx, lo, hi):
    """resultants of any scale"""
    k = ctx.is_int(ctx.integer("lines", 1, 6))
    P = [ctx.real("Px", lo, hi), ctx.real("Py", -hi, hi)]
    c = {"line": ctx.array([[i + 1, i] for i in range(k)])}
    d = {"line": {"gmsh:physical": ctx.array([3] * k)}}
    V = ctx.values(ctx.m.pre.loading(c, d, 3, P[0], P[1]))
    for j in range(2):
        ctx.eq("share %d" % j, [r[1 + j] * (k + 1) / hi for r in V], [P[j] / hi] * (k + 1))
