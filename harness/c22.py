"""truss stresses and energy"""
from hlib import *
from members import member
CASES = Cases()
BOUNDS = ("one to three members with every position, length in [0.5,4] and orientation, every displacement field, both node orders, "
          "up to six free material rows of two to five columns, any area in [0.1,5]; chains of 5 to 280 members, four members in a node table of 70001 rows, node tables of 3 to 8 columns; all units (stated powers of ten); energies of every real matrix up to 4x4 and of spring chains of 7 to 300 unknowns, dense and sparse")
OUTSIDE = "other large trusses (members are processed one by one)"


def mats_of(ctx, cols, n=2):
    return [[ctx.real("E%d" % k, 1, 10), ctx.real("A%d" % k, .1, 5), ctx.real("rho%d" % k, .1, 5)][:cols] for k in range(n)]


def nodes_of(ctx, xy, cols=5):
    return ctx.farray([[i, p[0], p[1], 0.0, -1.0][:cols] for i, p in enumerate(xy)])


@CASES("member", weight=3, args=[("%d-%s" % (c, o), dict(cols=c, o=o)) for c in (2, 3) for o in ("forward", "reversed")])
def one(ctx, cols, o):
    pts, L, c, s = member(ctx)
    mats = mats_of(ctx, cols)
    u = [[ctx.real("u%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(2)]
    m = ctx.is_int(ctx.integer("m", 0, 1))
    conn = [0, 1] if o == "forward" else [1, 0]
    els = ctx.array([[eid(ctx, 0), 6, m] + conn])
    S = ctx.m.pos.stress_truss(nodes_of(ctx, pts), els, ctx.farray(mats), ctx.farray(u))
    ctx.true("shape", ctx.shape(S) == (1,))
    eps = (c * (u[1][0] - u[0][0]) + s * (u[1][1] - u[0][1])) / L
    ctx.eq("stress", S, [mats[m][0] * eps], scale=10)


@CASES("rigid", weight=2)
def rigid(ctx):
    """no stress in rigid motion; unit stretch gives E"""
    pts, L, c, s = member(ctx)
    mats = mats_of(ctx, 3, 1)
    t = [ctx.real("t%d" % i, -1, 1) for i in range(2)]
    w = ctx.real("w", -1, 1)
    e = ctx.real("e", -1, 1)
    u = [[t[0] - w * p[1] + e * p[0], t[1] + w * p[0] + e * p[1]] for p in pts]
    S = ctx.m.pos.stress_truss(nodes_of(ctx, pts, 3), ctx.array([[0, 6, 0, 0, 1]]), ctx.farray(mats), ctx.farray(u))
    ctx.eq("stress", S, [mats[0][0] * e], scale=10)


CONN = [[[0, 1], [1, 2]], [[2, 1], [0, 2]], [[1, 0], [2, 0]], [[2, 0], [1, 2]]]


@CASES("several", weight=5, args=[(str(k), dict(k=k)) for k in range(len(CONN))])
def several(ctx, k):
    """members share nodes and materials; symbolic size, fixed directions of three- and four-five triangles"""
    a = ctx.real("a", .5, 3)
    x0 = ctx.real("x0", -2, 2)
    xy = [[x0, 0.0], [x0 + 3 * a, 4 * a], [x0 + 3 * a, 0.0]]
    ln = {(0, 1): (5, .6, .8), (1, 2): (4, 0.0, -1.0), (0, 2): (3, 1.0, 0.0)}
    mats = mats_of(ctx, 3, 3)
    u = [[ctx.real("u%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(3)]
    rows, ref = [], []
    for e, c in enumerate(CONN[k] + [[1, 2]]):
        m = ctx.is_int(ctx.integer("m%d" % e, 0, 2))
        rows.append([e + 4, 6, m] + c)
        f, (i, j) = (1, c) if tuple(c) in ln else (-1, c[::-1])
        n, cx, cy = ln[(i, j)]
        ref.append(mats[m][0] * (cx * (u[j][0] - u[i][0]) + cy * (u[j][1] - u[i][1])) / (n * a))
    S = ctx.m.pos.stress_truss(nodes_of(ctx, xy), ctx.array(rows), ctx.farray(mats), ctx.farray(u))
    ctx.eq("stress", S, ref, scale=10)


@CASES("integer-tables")
def integer_tables(ctx):
    """coordinates and materials as integers"""
    k = ctx.is_int(ctx.integer("k", 1, 3))
    u = [[ctx.real("u%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(2)]
    S = ctx.m.pos.stress_truss(ctx.array([[0, k, 0, 0, 0], [1, 4 * k, 4 * k, -1, 0]]), ctx.array([[0, 6, 0, 1, 0]]),
                               ctx.array([[7, 3]]), ctx.farray(u))
    d = .6 * (u[1][0] - u[0][0]) + .8 * (u[1][1] - u[0][1])
    ctx.eq("stress", S, [7 * d * (1.0 / (5 * k))], scale=10)


@CASES("energy", weight=2, args=[("%d" % n, dict(n=n)) for n in (1, 2, 3, 4)])
def energy(ctx, n):
    K = symmat(ctx, n, "k")
    u = [ctx.real("u%d" % i, -10, 10) for i in range(n)]
    ref = -.5 * quadform(u, K, u)
    for lab, A in (("dense", ctx.farray(K)), ("sparse", ctx.csr(ctx.farray(K)))):
        e = ctx.m.pos.energy(ctx.farray(u), A)
        ctx.eq("energy " + lab, e, ref, scale=100)


@CASES("energy-scale")
def energy_scale(ctx):
    """tiny and huge values are not rounded away; integer matrices accepted"""
    s = ctx.real("s", 1e-9, 1e-6)
    K = [[2, -1], [-1, 3]]
    e = ctx.m.pos.energy(ctx.farray([s, 2 * s]), ctx.array(K))
    ctx.eq("energy", e, -5.0 * s * s, rel=1e-9)
    b = ctx.real("b", 1e6, 1e9)
    e = ctx.m.pos.energy(ctx.farray([b, 2 * b]), ctx.array(K))
    ctx.eq("energy", e, -5.0 * b * b, rel=1e-9)


@CASES("consistent", weight=4)
def consistent(ctx):
    """stress of the assembled structure: nodal forces balance A*stress along the members"""
    a = ctx.real("a", .5, 3)
    xy = [[0.0, 0.0], [3 * a, 4 * a], [3 * a, 0.0]]
    mats = mats_of(ctx, 2, 2)
    els = ctx.array([[0, 6, 0, 0, 1], [1, 6, 1, 2, 1], [2, 6, 0, 2, 0]])
    am, bc, neq = ctx.m.ass.DME(ctx.array([[0, 0]] * 3), els)
    K, _ = ctx.m.ass.assembler(els, ctx.farray(mats), nodes_of(ctx, xy, 3), neq, am, sparse=False)
    u = [[ctx.real("u%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(3)]
    S = ctx.values(ctx.m.pos.stress_truss(nodes_of(ctx, xy, 3), els, ctx.farray(mats), ctx.farray(u)))
    T = [S[0] * mats[0][1], S[1] * mats[1][1], S[2] * mats[0][1]]
    f = [-.6 * T[0] - T[2], -.8 * T[0], .6 * T[0], .8 * T[0] + T[1], T[2], -T[1]]
    ctx.eq("forces", matvec(ctx.values(K), [w for r in u for w in r]), f, scale=100)
    e = ctx.m.pos.energy(ctx.farray([w for r in u for w in r]), K)
    L = [5 * a, 4 * a, 3 * a]
    E = [mats[0][0], mats[1][0], mats[0][0]]
    A = [mats[0][1], mats[1][1], mats[0][1]]
    ctx.eq("energy", e, -.5 * sum(s * s * x * l / y for s, x, l, y in zip(S, A, L, E)), scale=100)


@CASES("larger", weight=4, args=[("%d" % n, dict(n=n)) for n in (5, 9, 17, 40, 140, 280)])
def larger(ctx, n):
    """many members and material rows, wide node tables and material rows"""
    a = ctx.real("a", .5, 3)
    xy = [[3 * a * i, 4 * a * (i % 2)] for i in range(n + 1)]
    few = n < 20
    mats = mats_of(ctx, 3, min(n, 6)) if few else [[1.0 + k % 5, .5 + .25 * (k % 3), 1.0] for k in range(n // 2)]
    nm = len(mats)
    cols = ctx.is_int(ctx.integer("columns", 3, 8)) if few else 5
    mc = ctx.is_int(ctx.integer("material columns", 2, 5)) if n < 10 else 3
    tab = ctx.farray([([i, p[0], p[1]] + [0.0, -1.0, 5.0, 2.0, 1.0])[:cols] for i, p in enumerate(xy)])
    if few:
        u = [[ctx.real("u%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(n + 1)]
    else:
        g = [ctx.real("g%d" % i, -1, 1) for i in range(4)]
        u = [[g[0] * (i % 7) + g[1], g[2] * (i % 5) + g[3]] for i in range(n + 1)]
    rows, ref = [], []
    for e in range(n):
        i = (2 * e) % n if n % 2 else e
        m = (3 * e + 1) % nm
        j = i + 1
        rows.append([e, 6, m] + ([i, j] if e % 3 else [j, i]))
        s = .8 if j % 2 else -.8
        ref.append(mats[m][0] * (.6 * (u[j][0] - u[i][0]) + s * (u[j][1] - u[i][1])) / (5 * a))
    S = ctx.m.pos.stress_truss(tab, ctx.array(rows), ctx.farray([(r + [1.0, 7.0])[:mc] for r in mats]), ctx.farray(u))
    ctx.eq("stress", S, ref, scale=10)


@CASES("stress-scale", max_paths=400)
def stress_scale(ctx):
    """materials, areas, sizes and displacements of any scale"""
    sE, sA, sL, sd = [10.0 ** ctx.choice(k, v) for k, v in (("sE", [-6, 0, 9, 11]), ("sA", [-8, -2, 4]), ("sL", [-6, 0, 5]), ("sd", [-9, -4, 0]))]
    E, A, d = [ctx.real(k, 1, 10) for k in ("E", "A", "d")]
    S = ctx.m.pos.stress_truss(nodes_of(ctx, [[0.0, 0.0], [3 * sL, 4 * sL]]), ctx.array([[0, 6, 0, 0, 1]]),
                               ctx.farray([[E * sE, A * sA, 1.0]]), ctx.farray([[0.0, 0.0], [.6 * d * sd, .8 * d * sd]]))
    ctx.eq("stress", ctx.values(S)[0] / (sE * sd / sL), E * d / 5, tol=1e-6)


@CASES("energy-larger", weight=2, args=[(str(n), dict(n=n)) for n in (7, 12, 60, 300)])
def energy_larger(ctx, n):
    """chain of springs, any displacements of a few unknowns"""
    K = [[0.0] * n for _ in range(n)]
    k = [1.0 + i % 3 for i in range(n + 1)]
    for i in range(n):
        K[i][i] = k[i] + k[i + 1]
        if i:
            K[i][i - 1] = K[i - 1][i] = -k[i]
    u = [ctx.real("u%d" % i, -3, 3) if i in (0, 1, n // 2, n - 2, n - 1) else .5 * (i % 4) for i in range(n)]
    ref = -.5 * sum(k[i] * (((u[i] if i < n else 0.0) - (u[i - 1] if i else 0.0)) ** 2) for i in range(n + 1))
    ctx.eq("dense", ctx.m.pos.energy(ctx.farray(u), ctx.farray(K)), ref, scale=100)
    ctx.eq("sparse", ctx.m.pos.energy(ctx.farray(u), ctx.csr(ctx.farray(K))), ref, scale=100)


@CASES("huge-table", weight=3)
def huge_table(ctx):
    """node numbers beyond 16 bits"""
    np = ctx.np
    nn = 70001
    who = [nn - 1, 33000, 12, 65540]
    a = ctx.real("a", .5, 3)
    xy = [[0.0, 0.0], [3 * a, 4 * a], [3 * a, 0.0], [0.0, 4 * a]]
    nodes = np.zeros((nn, 5))
    disp = np.zeros((nn, 2))
    u = [[ctx.real("u%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(4)]
    for k, p, w in zip(who, xy, u):
        for i in range(2):
            nodes[k, 1 + i] = p[i]
            disp[k, i] = w[i]
    E = [ctx.real("E%d" % i, 1, 10) for i in range(2)]
    rows, ref = [], []
    for e, (i, j, L, c, s) in enumerate([(0, 1, 5, .6, .8), (2, 0, 3, -1.0, 0.0), (2, 3, 5, -.6, .8), (1, 3, 3, -1.0, 0.0)]):
        rows.append([e, 6, e % 2, who[i], who[j]])
        ref.append(E[e % 2] * (c * (u[j][0] - u[i][0]) + s * (u[j][1] - u[i][1])) / (L * a))
    S = ctx.m.pos.stress_truss(nodes, ctx.array(rows), ctx.farray([[x, 1.0] for x in E]), disp)
    ctx.eq("stress", S, ref, scale=10)
