"""element dispatch, data retrieval, rejection of invalid requests"""
from hlib import *
CASES = Cases()
BOUNDS = ("every built-in type; meshes of 3 elements with 3 material rows, element and material positions symbolic; "
          "symbolic shifts/sizes of node positions and material values; material rows 0..9 of tables with 1..7 rows; user tables of 7 columns; one element in row 40000 of a table of 40003 with node numbers up to 70000; node tables of 3 to 8 columns; type codes -3..40 and nine codes that are no integers, quadrature orders -3..40")
OUTSIDE = "material rows counted from the end"

SHAPES = {1: ([(0, 0), (2, 0.1), (2.2, 1), (0, 1.2)], "elast_quad4", 3),
          2: ([(0, 0), (2, 0), (0, 1.5), (1, 0), (1, .75), (0, .75)], "elast_tri6", 3),
          3: ([(0, 0), (2, 0.2), (0.3, 1)], "elast_tri3", 3),
          4: ([(0, 0), (2, 0), (2, 1), (0, 1), (1, 0), (2, .5), (1, 1), (0, .5), (1, .5)], "elast_quad9", 3),
          5: ([(0, 0), (3, 4)], "spring", 1), 6: ([(0, 0), (-3, 4)], "truss2D", 3),
          7: ([(0, 0), (3, -4)], "beam2DU", 4), 8: ([(0, 0), (3, 4)], "beam2D", 4)}
NDOF = {1: 8, 2: 12, 3: 6, 4: 18, 5: 4, 6: 4, 7: 6, 8: 6}


def matrow(ctx, k, npar):
    r = [ctx.real("E%d" % k, 1, 10), ctx.real("p%d" % k, .1, .4), ctx.real("d%d" % k, .5, 2), ctx.real("q%d" % k, .5, 2)]
    return r[:npar]


@CASES("builtin", weight=4, args=[("%d%s" % (k, "-flags" if f else ""), dict(typ=k, fl=f))
                                  for k in SHAPES for f in (0, 1)])
def builtin(ctx, typ, fl):
    pts, name, npar = SHAPES[typ]
    n = len(pts)
    s = ctx.real("s", .5, 2)
    # three elements of the same shape at different places, nodes numbered backwards
    xy = []
    for e in range(3):
        dx, dy = (ctx.real("dx%d" % e, -5, 5), ctx.real("dy%d" % e, -5, 5)) if typ < 5 else (e, 2 * e)
        sc = s * (1 + e)
        xy += [[sc * p[0] + dx, sc * p[1] + dy] for p in pts]
    xy = xy[::-1]
    nn = len(xy)
    conn = [[nn - 1 - (e * n + i) for i in range(n)] for e in range(3)]
    mt = [ctx.integer("mt%d" % e, 0, 2) for e in range(2)] + [1]
    ele = ctx.integer("ele", 0, 2)
    mats = [matrow(ctx, k, npar) for k in range(3)]
    els = [[eid(ctx, e), typ, mt[e]] + conn[e] for e in range(3)]
    nodes = [[i] + xy[i] + ([-1.0, 0.0] if fl else []) for i in range(nn)]
    e = ctx.is_int(ele)
    k, m = ctx.m.ass.retriever(ctx.array(els), ctx.farray(mats), ctx.farray(nodes), e)
    par = mats[ctx.is_int(mt[e])]
    k0, m0 = getattr(ctx.m.ue, name)(ctx.farray([xy[i] for i in conn[e]]), ctx.farray(par))
    ctx.eq("stiffness", k, k0, tol=1e-9, scale=100)
    ctx.eq("mass", m, m0, tol=1e-9, scale=100)


@CASES("mixed")
def mixed(ctx):
    """springs, trusses in one mesh: the type of each element decides"""
    ts = [ctx.integer("t%d" % e, 5, 6) for e in range(2)]
    k1 = ctx.real("k1", 1, 10)
    els = ctx.array([[eid(ctx, 0), ts[0], 0, 0, 1], [eid(ctx, 1), ts[1], 1, 1, 2]])
    # the spring reads one column, the truss two: use a one-column table for springs
    nodes = ctx.farray([[0, 0, 0], [1, 3, 4], [2, 0, 8]])
    for e in range(2):
        t = ctx.is_int(ts[e])
        mats = ctx.farray([[k1], [2 * k1]]) if t == 5 else ctx.farray([[k1, 2.0], [2 * k1, 3.0]])
        k, m = ctx.m.ass.retriever(els, mats, nodes, e)
        c = ctx.farray([[0, 0], [3, 4]] if e == 0 else [[3, 4], [0, 8]])
        fn = ctx.m.ue.spring if t == 5 else ctx.m.ue.truss2D
        k0, m0 = fn(c, mats[e])
        ctx.eq("stiffness %d" % e, k, k0)
        ctx.eq("mass %d" % e, m, m0)


@CASES("function-table", args=[(str(k), dict(typ=k)) for k in SHAPES])
def function_table(ctx, typ):
    """type data agree with the routine, and the table gives the documented routine"""
    pts, name, npar = SHAPES[typ]
    ndof, nnod, ngp = ctx.m.fem.eletype(typ)
    par = ctx.farray(matrow(ctx, 0, npar))
    c = ctx.farray([list(p) for p in pts])
    f = ctx.m.ass.ele_fun(typ)
    k, m = f(c, par)
    k0, m0 = getattr(ctx.m.ue, name)(c, par)
    ctx.eq("stiffness", k, k0, scale=100)
    ctx.eq("mass", m, m0, scale=100)
    ctx.eq("type data", [ndof, nnod], [NDOF[typ], len(pts)])
    ctx.true("matrix size", ctx.shape(k) == (ndof, ndof) and ctx.shape(m) == (ndof, ndof))
    if typ < 5:
        ctx.eq("integration points", ngp, {1: 4, 2: 7, 3: 3, 4: 9}[typ])


@CASES("user", weight=2)
def user(ctx):
    """a user routine gets each element's coordinates and material, in order, and its result is used"""
    xy = [[ctx.real("x%d%d" % (i, j), -5, 5) for j in range(3)] for i in range(4)]
    mats = [[ctx.real("m%d%d" % (i, j), 0, 5) for j in range(3)] for i in range(2)]
    conn = ctx.choice("conn", [[2, 0], [0, 3], [3, 1]])
    mt = ctx.integer("mt", 0, 1)
    els = ctx.array([[eid(ctx, 0), 3, mt] + conn, [eid(ctx, 1), 1, 1, 1, 2]])
    nodes = ctx.farray([[i] + xy[i] for i in range(4)])
    seen = []

    def uel(coord, par):
        seen.append((ctx.values(coord), ctx.values(par)))
        return coord[:, :2] * 2.0, coord[:, :2] * 3.0
    for e in range(2):
        k, m = ctx.m.ass.retriever(els, ctx.farray(mats), nodes, e, uel=uel)
        c = conn if e == 0 else [1, 2]
        ctx.eq("coordinates %d" % e, [r[:2] for r in seen[-1][0]], [xy[i][:2] for i in c])
        ctx.eq("columns", [r[-1] for r in seen[-1][0]], [xy[i][2] for i in c])
        ctx.eq("material %d" % e, seen[-1][1], mats[ctx.is_int(mt) if e == 0 else 1])
        ctx.eq("result K", k, [[2 * v for v in xy[i][:2]] for i in c])
        ctx.eq("result M", m, [[3 * v for v in xy[i][:2]] for i in c])
    ctx.eq("calls", len(seen), 2)


@CASES("invalid-type", max_paths=200)
def invalid_type(ctx):
    t = ctx.integer("t", -3, 40)
    els = ctx.array([[0, t, 0, 0, 1]])
    v = ctx.is_int(t)
    k1, r1 = ctx.outcome(ctx.m.fem.eletype, v)
    k2, r2 = ctx.outcome(ctx.m.ass.ele_fun, v)
    k3, r3 = ctx.outcome(ctx.m.ass.DME, ctx.array([[0, 0], [0, 0]]), els)
    good = 1 <= v <= 8
    ctx.true("type data", (k1 == "ok") == good)
    ctx.true("routine", (k2 == "ok") == good)
    if not good:
        ctx.true("numbering rejects", k3 == "raise")
        ctx.true("ValueError", isinstance(r1, ValueError) and isinstance(r2, ValueError))
        k4, _ = ctx.outcome(ctx.m.ass.retriever, els, ctx.array([[1.0, .3]]),
                            ctx.array([[0, 0.0, 0.0], [1, 1.0, 0.0]]), 0)
        ctx.true("retrieval rejects", k4 == "raise")


@CASES("invalid-order", max_paths=400, args=[("1d", dict(w="gauss_1d", lo=2, hi=10)),
                                             ("tri", dict(w="gauss_tri", lo=1, hi=7)),
                                             ("tet", dict(w="gauss_tet", lo=1, hi=10)),
                                             ("nd", dict(w="gauss_nd", lo=2, hi=10))])
def invalid_order(ctx, w, lo, hi):
    n = ctx.is_int(ctx.integer("n", -3, 40))
    fn = getattr(ctx.m.gau, w)
    if w == "gauss_nd":
        k, r = ctx.outcome(lambda: fn(n, ndim=1))
    else:
        k, r = ctx.outcome(fn, n)
    good = lo <= n <= hi
    ctx.true("accepted exactly when available", (k == "ok") == good)
    if not good:
        ctx.true("ValueError", isinstance(r, ValueError))


@CASES("matrix-class")
def matrix_class(ctx):
    a, b = ctx.real("a", 2, 3), ctx.real("b", -1, 1)
    f = ctx.farray([ctx.real("f0", -1, 1), ctx.real("f1", -1, 1)])
    A = ctx.farray([[a, b], [b, 2.0]])
    sol = ctx.m.sol.static_sol
    for lab, M in (("dense", A), ("csr", ctx.csr(A))):
        u = sol(M, f)
        ctx.true(lab + " shape", ctx.shape(u) == (2,))
        r = A.dot(u) if lab == "dense" else A.dot(u)
        ctx.eq(lab + " solves", r, f)
    for lab, M in (("list", [[2.0, 0.0], [0.0, 2.0]]), ("coo", ctx.m.coo_matrix(A)), ("scalar", 2.0),
                   ("tuple", ((2.0, 0.0), (0.0, 2.0))), ("none", None)):
        k, r = ctx.outcome(sol, M, f)
        ctx.true(lab + " rejected", k == "raise" and isinstance(r, TypeError))


@CASES("material-row", weight=2, args=[("%d" % k, dict(typ=k)) for k in (1, 3, 6)])
def material_row(ctx, typ):
    """any number of material rows; a row that does not exist is refused, by the built-in and by user routines"""
    pts, name, npar = SHAPES[typ]
    nm = ctx.is_int(ctx.integer("rows", 1, 7))
    m = ctx.is_int(ctx.integer("m", 0, 9))
    E = [ctx.real("E%d" % k, 1, 10) for k in range(nm)]
    mats = ctx.farray([[E[k], .25, 2.0] for k in range(nm)])
    els = ctx.array([[eid(ctx, 0), typ, m] + list(range(len(pts)))])
    nodes = ctx.farray([[i] + [float(x) for x in p] for i, p in enumerate(pts)])
    k, r = ctx.outcome(ctx.m.ass.retriever, els, mats, nodes, 0)
    seen = []
    k2, r2 = ctx.outcome(lambda: ctx.m.ass.retriever(els, mats, nodes, 0, uel=lambda c, p: (seen.append(ctx.values(p)), seen)))
    ctx.true("accepted exactly when present", (k == "ok") == (m < nm) and (k2 == "ok") == (m < nm))
    if m < nm:
        k0, m0 = getattr(ctx.m.ue, name)(ctx.farray([list(map(float, p)) for p in pts]), ctx.farray([E[m], .25, 2.0]))
        ctx.eq("stiffness", r[0], k0, scale=100)
        ctx.eq("mass", r[1], m0, scale=100)
        ctx.eq("user", seen[0], [E[m], .25, 2.0])


@CASES("user-wide", weight=2)
def user_wide(ctx):
    """user routines get the whole material row (seven columns) and all coordinates (any magnitude), as given"""
    lo, hi = ctx.choice("mag", [(-1e-9, 1e-9), (-5.0, 5.0), (1e6, 1e9)])
    xy = [[ctx.real("x%d%d" % (i, j), lo, hi) for j in range(3)] for i in range(4)]
    mat = [ctx.real("m%d" % j, lo, hi) for j in range(7)]
    nodes = ctx.farray([[i] + xy[i] for i in range(4)])
    els = ctx.array([[eid(ctx, 0), 3, 1, 3, 0, 2]])
    seen = []

    def uel(coord, par):
        seen.append((ctx.values(coord), ctx.values(par)))
        return coord, par
    k, m = ctx.m.ass.retriever(els, ctx.farray([[0.0] * 7, mat]), nodes, 0, uel=uel)
    ctx.eq("coordinates", seen[0][0], [xy[i] for i in (3, 0, 2)], tol=0, strict=True)
    ctx.eq("material", seen[0][1], mat, tol=0, strict=True)
    ctx.eq("result", k, [xy[i] for i in (3, 0, 2)], tol=0, strict=True)
    ctx.eq("result, mass", m, mat, tol=0, strict=True)


@CASES("fractional-type", max_paths=200)
def fractional(ctx):
    """codes that are not whole numbers name no element"""
    t = ctx.choice("t", [.5, 1.5, 2.25, 3.999, 7.5, -1.5, 8.5, "1", None])
    for lab, f in (("type data", ctx.m.fem.eletype), ("routine", ctx.m.ass.ele_fun)):
        k, r = ctx.outcome(f, t)
        ctx.true(lab, k == "raise" and isinstance(r, ValueError))


@CASES("node-columns", weight=3, max_paths=100, args=[(str(k), dict(typ=k)) for k in SHAPES])
def node_columns(ctx, typ):
    """built-in routines get the plane coordinates whatever follows them in the node table"""
    pts, name, npar = SHAPES[typ]
    s = ctx.real("s", .5, 2)
    cols = ctx.is_int(ctx.integer("columns", 3, 8))
    more = [ctx.real("c%d" % j, -5, 5) for j in range(5)]
    xy = [[s * p[0], s * p[1]] for p in pts]
    nodes = [([float(i)] + p + more)[:cols] for i, p in enumerate(xy)]
    par = [ctx.real("E", 1, 10), ctx.real("p", -.4, .4) if typ < 5 else 1.5, 2.0, 3.0][:npar]
    els = ctx.array([[eid(ctx, 0), typ, 0] + list(range(len(pts)))])
    k, m = ctx.m.ass.retriever(els, ctx.farray([par]), ctx.farray(nodes), 0)
    k0, m0 = getattr(ctx.m.ue, name)(ctx.farray(xy), ctx.farray(par))
    ctx.eq("stiffness", k, k0, tol=1e-9, scale=100)
    ctx.eq("mass", m, m0, tol=1e-9, scale=100)


@CASES("huge-table", weight=2, args=[("3", dict(typ=3)), ("6", dict(typ=6))])
def huge_table(ctx, typ):
    """node numbers up to 70000, element row 40000"""
    np = ctx.np
    nn, ne = 70001, 40003
    n = len(SHAPES[typ][0])
    pts = [[p[0] + ctx.real("x%d" % i, -.1, .1), p[1] + ctx.real("y%d" % i, -.1, .1)] for i, p in enumerate([(0, 0), (2, .2), (.3, 1)][:n])]
    who = [nn - 1, 33000, 65540][:n]
    nodes = np.zeros((nn, 5))
    nodes[:, 0] = np.arange(nn)
    for k, p in zip(who, pts):
        nodes[k, 1] = p[0]
        nodes[k, 2] = p[1]
    els = np.zeros((ne, 3 + n), dtype=int)
    els[:, 1] = typ
    for i, k in enumerate(who):
        els[40000, 3 + i] = k
    els[40000, 2] = 1
    els[40000, 0] = -4
    E = ctx.real("E", 1, 10)
    mats = [[1.0, .2, 3.0], [E, .3, 2.0]]
    k, m = ctx.m.ass.retriever(els, ctx.farray(mats), nodes, 40000)
    k0, m0 = getattr(ctx.m.ue, SHAPES[typ][1])(ctx.farray(pts), ctx.farray(mats[1]))
    ctx.eq("stiffness", k, k0, tol=1e-9, scale=100)
    ctx.eq("mass", m, m0, tol=1e-9, scale=100)


@CASES("zero-entries", weight=1, args=[(str(k), dict(typ=k)) for k in SHAPES])
def zero_entries(ctx, typ):
    """entries that are zero are data like any other"""
    pts, name, npar = SHAPES[typ]
    nodes = ctx.farray([[i] + [float(x) for x in p] + [0.0, 0.0] for i, p in enumerate(pts)])
    els = ctx.array([[eid(ctx, 0), typ, 1] + list(range(len(pts)))])
    E = ctx.real("E", 1, 10)
    mats = ctx.farray([[1.0, .5, 2.0, 2.0][:npar], [E, 1.5 if typ > 4 else 0.0, 0.0, 0.0][:npar], [0.0] * npar])
    k, m = ctx.m.ass.retriever(els, mats, nodes, 0)
    if typ == 8:
        k0, m0 = ctx.m.ue.beam2D(ctx.farray(pts), ctx.farray([E, 1.5, 0.0, 0.0]))
    else:
        k0, m0 = getattr(ctx.m.ue, name)(ctx.farray(pts), ctx.farray([E, 1.5 if typ > 4 else 0.0, 0.0, 0.0][:npar]))
    ctx.eq("stiffness", k, k0, tol=1e-9, scale=100)
    ctx.eq("mass", m, m0, tol=1e-9, scale=100)
    if typ < 5:
        ctx.eq("no mass", m, [[0.0] * len(ctx.values(m)) for _ in ctx.values(m)], tol=1e-9)
    seen = []
    ctx.m.ass.retriever(els, mats, nodes, 0, uel=lambda c, p: (seen.append(ctx.values(p)), 0))
    ctx.eq("user", seen[0], [E, 1.5 if typ > 4 else 0.0, 0.0, 0.0][:npar], tol=0, strict=True)
