"""nodal averages of strains and stresses"""
from hlib import *
from elems import *
from refint import shapes, pdiff, peval
CASES = Cases()
BOUNDS = ("patches of one to four 3-node, 6-node triangles or 4-node quadrilaterals, every rotation of the node order of each element; "
          "symbolic affine maps and moved interior nodes, every affine and every nodal displacement field in [-1,1], two to four material rows, material tables with 2 and 3 columns, node tables with 3 to 7; fans of five to eleven elements of any field and of 140 and 270 triangles of any affine field; two elements in a node table of 66003 rows; integer tables")
OUTSIDE = "other large meshes (the average is taken node by node); element types without recovery (4-8)"
TYP = {"quad4": 1, "tri6": 2, "tri3": 3}

# patches: node positions and connectivity (counter-clockwise)
PATCH = {
    "quad4": ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (2, 2)],
              [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7]]),
    "tri3": ([(0, 0), (2, 0), (2, 2), (0, 2), (1, 1)], [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]]),
    "tri6": ([(0, 0), (2, 0), (2, 2), (0, 2), (1, 0), (2, 1), (1, 1), (0, 1), (1, 2)],
             [[0, 1, 2, 4, 5, 6], [0, 2, 3, 6, 8, 7]]),
}
G2 = 0.577350269189625764
A5, B5 = 0.101286507323456338801, 0.797426985353087322398
C5, D5 = 0.470142064105115089770, 0.059715871789769820459
PTS = {"quad4": [(-G2, -G2), (G2, -G2), (G2, G2), (-G2, G2)],
       "tri3": [(1 / 6., 1 / 6.), (2 / 3., 1 / 6.), (1 / 6., 2 / 3.)],
       "tri6": [(A5, A5), (B5, A5), (A5, B5), (C5, D5), (C5, C5), (D5, C5)]}


def rotated(ctx, n, conn, tag):
    """connectivity starting at any corner"""
    m = {"quad4": 4}.get(n, 3)
    k = ctx.is_int(ctx.integer("rot" + tag, 0, m - 1))
    c = conn[:m]
    c = c[k:] + c[:k]
    d = conn[m:]
    return c + d[k:] + d[:k]


def hooke(E, nu, e):
    f = E / (1 - nu * nu)
    return [f * (e[0] + nu * e[1]), f * (nu * e[0] + e[1]), E / (2 * (1 + nu)) * e[2]]


def mats_of(ctx, cols):
    return [[ctx.real("E%d" % k, 1, 10), ctx.real("nu%d" % k, -.5, .45), 2.0][:cols] for k in range(2)]


def table(ctx, xy, cols=5):
    return ctx.farray([[i, p[0], p[1], 0.0, -1.0][:cols] for i, p in enumerate(xy)])


def ref_strain(n, X, u, p):
    """strain at the local point p of an element with nodes X and displacements u (pairs)"""
    N = shapes(n)
    D = [[peval(pdiff(f, d), p) for f in N] for d in range(2)]
    J = [[dot(D[i], [x[j] for x in X]) for j in range(2)] for i in range(2)]
    det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    q = 1 / det
    gx = [q * (J[1][1] * a - J[0][1] * b) for a, b in zip(*D)]
    gy = [q * (J[0][0] * b - J[1][0] * a) for a, b in zip(*D)]
    ux, uy = [w[0] for w in u], [w[1] for w in u]
    return [dot(gx, ux), dot(gy, uy), dot(gy, ux) + dot(gx, uy)]


def expected(n, xy, els, mat, u, ctx):
    """averages over the elements of a node; u as list of pairs"""
    nn = len(xy)
    E = [[0.0] * 3 for _ in range(nn)]
    S = [[0.0] * 3 for _ in range(nn)]
    cnt = [0] * nn
    for m, c in els:
        X = [xy[k] for k in c]
        U = [u[k] for k in c]
        for a, k in enumerate(c):
            e = ref_strain(n, X, U, PTS[n][a])
            s = hooke(mat[m][0], mat[m][1], e)
            E[k] = [x + y for x, y in zip(E[k], e)]
            S[k] = [x + y for x, y in zip(S[k], s)]
            cnt[k] += 1
    inv = [1.0 / c if c else 0 for c in cnt]
    return [[x * w for x in r] for r, w in zip(E, inv)], [[x * w for x in r] for r, w in zip(S, inv)]


def table_els(ctx, n, els):
    return ctx.array([[eid(ctx, e), TYP[n], m] + list(c) for e, (m, c) in enumerate(els)])


@CASES("affine", weight=5, args=[("%s-%d" % (n, c), dict(n=n, cols=c)) for n in TYP for c in (2, 3)])
def affine(ctx, n, cols):
    """linear field on a patch whose central node (or side) is moved: exact strain at every node"""
    P, conn = PATCH[n]
    xy = [[float(x) for x in p] for p in P]
    mv = {"quad4": 4, "tri3": 4, "tri6": 6}[n]
    r = .1 if n == "tri6" else .25
    xy[mv] = [xy[mv][0] + ctx.real("dx", -r, r), xy[mv][1] + ctx.real("dy", -r, r)]
    els = [(e % 2, c) for e, c in enumerate(conn)]
    els[1] = (els[1][0], rotated(ctx, n, conn[1], "1"))
    mat = mats_of(ctx, cols)
    G, c = affine_field(ctx)
    u = [[G[i][0] * p[0] + G[i][1] * p[1] + c[i] for i in range(2)] for p in xy]
    E, S = ctx.m.pos.strain_nodes(table(ctx, xy), table_els(ctx, n, els), ctx.farray(mat), ctx.farray(u))
    e = strain(G)
    ctx.true("shapes", ctx.shape(E) == (len(xy), 3) and ctx.shape(S) == (len(xy), 3))
    ctx.eq("strain", E, [e] * len(xy))
    s = [hooke(m[0], m[1], e) for m in mat]
    ref = []
    for k in range(len(xy)):
        own = [m for m, q in els if k in q]
        ref.append([sum(s[m][j] for m in own) * (1.0 / len(own)) for j in range(3)])
    ctx.eq("stress", S, ref, scale=10)


@CASES("any-field", weight=6, args=[(n, dict(n=n)) for n in TYP])
def any_field(ctx, n):
    """any nodal displacements, rectangle-based geometry of any size"""
    P, conn = PATCH[n]
    a, b = ctx.real("a", .5, 2), ctx.real("b", .5, 2)
    xy = [[a * p[0], b * p[1]] for p in P]
    keep = conn if n != "quad4" else conn[:3]
    els = [((e + 1) % 2, c) for e, c in enumerate(keep)]
    used = sorted(set(k for _, c in els for k in c))
    ren = {k: i for i, k in enumerate(used)}
    xy = [xy[k] for k in used]
    els = [(m, [ren[k] for k in c]) for m, c in els]
    els[0] = (els[0][0], rotated(ctx, n, els[0][1], "0"))
    mat = mats_of(ctx, 3)
    u = [[ctx.real("u%d%s" % (k, "xy"[i]), -1, 1) for i in range(2)] for k in range(len(xy))]
    E, S = ctx.m.pos.strain_nodes(table(ctx, xy), table_els(ctx, n, els), ctx.farray(mat), ctx.farray(u))
    Er, Sr = expected(n, xy, els, mat, u, ctx)
    ctx.eq("strain", E, Er)
    ctx.eq("stress", S, Sr, scale=10)


@CASES("distorted", weight=6, args=[("quad4", dict(n="quad4")), ("tri6", dict(n="tri6")), ("tri3", dict(n="tri3"))])
def distorted_field(ctx, n):
    """one element away from the rectangle, any nodal displacements"""
    if n == "quad4":
        xy = [[-1.0, -1.0], [1.0, -1.25], [1.0 + ctx.real("dx", -.3, .3), 1.0 + ctx.real("dy", -.3, .3)], [-1.0, 1.0]]
    elif n == "tri6":
        xy = [list(map(float, p)) for p in ALL[n]]
        xy[4] = [.5 + ctx.real("dx", -.1, .1), .5 + ctx.real("dy", -.1, .1)]
    else:
        xy = [[ctx.real("x%d" % i, -1, 1) + 3.0 * (i == 1), ctx.real("y%d" % i, -1, 1) + 3.0 * (i == 2)] for i in range(3)]
        d = (xy[1][0] - xy[0][0]) * (xy[2][1] - xy[0][1]) - (xy[2][0] - xy[0][0]) * (xy[1][1] - xy[0][1])
        ctx.assume(d > .2)
    els = [(0, list(range(len(xy))))]
    mat = [[ctx.real("E0", 1, 10), ctx.real("nu0", -.5, .45)]]
    u = [[ctx.real("u%d%s" % (k, "xy"[i]), -1, 1) for i in range(2)] for k in range(len(xy))]
    E, S = ctx.m.pos.strain_nodes(table(ctx, xy), table_els(ctx, n, els), ctx.farray(mat), ctx.farray(u))
    Er, Sr = expected(n, xy, els, mat, u, ctx)
    ctx.eq("strain", E, Er, scale=10)
    ctx.eq("stress", S, Sr, scale=100)


@CASES("positions", weight=3, args=[(n, dict(n=n)) for n in TYP])
def positions(ctx, n):
    """strain points of each element: physical position and strain, in the order of the nodes"""
    pts, J, d = affine2(ctx, n)
    fn = getattr(ctx.m.fem, {"quad4": "str_el4", "tri3": "str_el3", "tri6": "str_el6"}[n])
    u = [[ctx.real("u%d%s" % (k, "xy"[i]), -1, 1) for i in range(2)] for k in range(len(pts))]
    e, x = fn(ctx.farray(pts), ctx.farray([w for r in u for w in r]))
    e, x = ctx.values(e), ctx.values(x)
    nn = len(pts)
    ctx.true("enough", len(e) >= nn and len(x) == len(e))
    N = shapes(n)
    q = PTS[n][:nn]
    ctx.eq("position", x[:nn], [[dot([peval(f, p) for f in N], [X[j] for X in pts]) for j in range(2)] for p in q])
    ctx.eq("strain", e[:nn], [ref_strain(n, pts, u, p) for p in q], scale=10)
    if n == "tri6":
        c = (1 / 3., 1 / 3.)
        ctx.eq("centre", x[6], [dot([peval(f, c) for f in N], [X[j] for X in pts]) for j in range(2)])
        ctx.eq("centre strain", e[6], ref_strain(n, pts, u, c), scale=10)


@CASES("linear", weight=3, args=[(n, dict(n=n)) for n in TYP])
def linear(ctx, n):
    """linear in the displacements; integer tables accepted"""
    P, conn = PATCH[n]
    els = [(0, c) for c in conn[:2]]
    used = sorted(set(k for _, c in els for k in c))
    ren = {k: i for i, k in enumerate(used)}
    xy = [[float(2 * x) for x in P[k]] for k in used]
    els = [(m, [ren[k] for k in c]) for m, c in els]
    k = ctx.real("k", -100, 100)
    u = [[ctx.real("u%d%s" % (j, "xy"[i]), -1, 1) for i in range(2)] for j in range(len(xy))]
    mat = ctx.farray([[2.0, .25, 1.0]])
    T = table_els(ctx, n, els)
    E1, S1 = ctx.m.pos.strain_nodes(table(ctx, xy), T, mat, ctx.farray(u))
    E2, S2 = ctx.m.pos.strain_nodes(table(ctx, xy, 3), T, mat, ctx.farray([[k * w for w in r] for r in u]))
    ctx.eq("strain", E2, [[k * w for w in r] for r in ctx.values(E1)], scale=100)
    ctx.eq("stress", S2, [[k * w for w in r] for r in ctx.values(S1)], scale=100)


def fan(n, k):
    """k elements around the node 0 (a full circle for quadrilaterals, an open one for triangles)"""
    import math
    pol = lambda r, t: [r * math.cos(t), r * math.sin(t)]
    xy = [[0.0, 0.0]]
    if n == "tri3":
        xy += [pol(1 + .1 * (i % 3), 6.0 * i / k) for i in range(k + 1)]
        return xy, [[0, 1 + i, 2 + i] for i in range(k)]
    if n == "tri6":
        xy += [pol(2, 6.0 * i / k) for i in range(k + 1)] + [pol(1, 6.0 * i / k) for i in range(k + 1)]
        o = k + 1
        for i in range(k):
            p, q = xy[1 + i], xy[2 + i]
            xy.append([.5 * (p[0] + q[0]), .5 * (p[1] + q[1])])
        return xy, [[0, 1 + i, 2 + i, 1 + o + i, 1 + 2 * o + i, 2 + o + i] for i in range(k)]
    xy += [pol(1, 6.0 * i / k) for i in range(k + 1)] + [pol(1.6, 6.0 * (i + .5) / k) for i in range(k)]
    return xy, [[0, 1 + i, 2 + k + i, 2 + i] for i in range(k)]


@CASES("fan", weight=5, args=[("%s-%d" % a, dict(n=a[0], k=a[1])) for a in (("tri3", 7), ("tri3", 11), ("quad4", 5), ("quad4", 9), ("tri6", 8))])
def fan_case(ctx, n, k):
    """many elements around a node, several material rows, any displacements"""
    xy, conn = fan(n, k)
    els = [((3 * e + 1) % 4, rotated(ctx, n, c, "0") if e == 1 else c) for e, c in enumerate(conn)]
    mat = [[ctx.real("E%d" % i, 1, 10), ctx.real("nu%d" % i, -.5, .45), 1.0] for i in range(2)] + [[3.0, .125, 2.0], [5.0, -.25, 3.0]]
    u = [[ctx.real("u%d%s" % (j, "xy"[i]), -1, 1) for i in range(2)] for j in range(len(xy))]
    cols = ctx.is_int(ctx.integer("columns", 3, 7))
    tab = ctx.farray([([i, p[0], p[1]] + [0.0, -1.0, 7.0, 2.0])[:cols] for i, p in enumerate(xy)])
    E, S = ctx.m.pos.strain_nodes(tab, table_els(ctx, n, els), ctx.farray(mat), ctx.farray(u))
    Er, Sr = expected(n, xy, els, mat, u, ctx)
    ctx.eq("strain", E, Er, scale=10)
    ctx.eq("stress", S, Sr, scale=100)


@CASES("large-fan", weight=5, args=[("140", dict(k=140)), ("270", dict(k=270))])
def large_fan(ctx, k):
    """more elements around a node than a byte counts; affine field"""
    xy, conn = fan("tri3", k)
    els = [(e % 3, c) for e, c in enumerate(conn)]
    mat = [[1.0, .25], [ctx.real("E", 1, 10), .125], [2.0, 0.0]]
    G, c = affine_field(ctx)
    u = [[G[i][0] * p[0] + G[i][1] * p[1] + c[i] for i in range(2)] for p in xy]
    E, S = ctx.m.pos.strain_nodes(table(ctx, xy), table_els(ctx, "tri3", els), ctx.farray(mat), ctx.farray(u))
    e = strain(G)
    ctx.eq("strain", E, [e] * len(xy), scale=10)
    s = [hooke(m[0], m[1], e) for m in mat]
    own = [[] for _ in xy]
    for m, q in els:
        for j in q:
            own[j].append(m)
    ctx.eq("stress", S, [[sum(s[m][j] for m in o) * (1.0 / len(o)) for j in range(3)] for o in own], scale=100)


@CASES("huge-table", weight=4, args=[(n, dict(n=n)) for n in ("tri3", "quad4")])
def huge_table(ctx, n):
    """node numbers and element rows beyond 16 bits; the nodes of the elements are checked"""
    np = ctx.np
    nn = 66003
    P, conn = PATCH[n]
    conn = conn[:2]
    xy = [[float(p[0]), float(p[1])] for p in P]
    num = {k: nn - 1 - 16300 * i for i, k in enumerate(sorted(set(v for c in conn for v in c))) if i < 5}
    for k in sorted(set(v for c in conn for v in c)):
        num.setdefault(k, 500 + k)
    nodes = np.zeros((nn, 5))
    disp = np.zeros((nn, 2))
    u = {k: [ctx.real("u%d%s" % (k, q), -1, 1) for q in "xy"] for k in num}
    for k, j in num.items():
        for i in range(2):
            nodes[j, 1 + i] = xy[k][i]
            disp[j, i] = u[k][i]
    mat = [[2.0, .25], [ctx.real("E", 1, 10), .125]]
    els = [(e, c) for e, c in enumerate(conn)]
    T = ctx.array([[e, TYP[n], m] + [num[k] for k in c] for e, (m, c) in enumerate(els)])
    E, S = ctx.m.pos.strain_nodes(nodes, T, ctx.farray(mat), disp)
    Er, Sr = expected(n, xy, els, mat, [u.get(k, [0.0, 0.0]) for k in range(len(xy))], ctx)
    ctx.true("shape", ctx.shape(E) == (nn, 3) and ctx.shape(S) == (nn, 3))
    ctx.eq("strain", [[E[num[k], j] for j in range(3)] for k in num], [Er[k] for k in num], scale=10)
    ctx.eq("stress", [[S[num[k], j] for j in range(3)] for k in num], [Sr[k] for k in num], scale=100)


@CASES("integers", weight=3, args=[(n, dict(n=n)) for n in TYP])
def integers(ctx, n):
    """tables of integers"""
    P, conn = PATCH[n]
    s = 4 if n == "tri6" else 1
    xy = [[s * int(x) for x in p] for p in P]
    els = [(e % 2, c) for e, c in enumerate(conn)]
    k, j = ctx.is_int(ctx.integer("k", -1, 2)), ctx.is_int(ctx.integer("j", 0, 1))
    u = [[(k * i + 3 * j) % 5 - 2, (2 * i * i + k) % 7 - 3] for i in range(len(xy))]
    mat = [[3, 0], [1 + 2 * j, 0]]
    Er, Sr = expected(n, xy, els, mat, u, ctx)
    T = table_els(ctx, n, els)
    for lab, N, m, U in (("nodes", ctx.array([[i] + p for i, p in enumerate(xy)]), ctx.farray(mat), ctx.farray(u)),
                         ("materials", table(ctx, xy), ctx.array(mat), ctx.farray(u)),
                         ("displacements", table(ctx, xy), ctx.farray(mat), ctx.array(u)),
                         ("all", ctx.array([[i] + p for i, p in enumerate(xy)]), ctx.array(mat), ctx.array(u))):
        E, S = ctx.m.pos.strain_nodes(N, T, m, U)
        ctx.eq("strain, integer " + lab, E, Er, scale=10)
        ctx.eq("stress, integer " + lab, S, Sr, scale=10)
