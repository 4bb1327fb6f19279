"""a structure without supports: rigid motions, mass and inertia of the whole"""
from hlib import *
from elems import *
import c27
CASES = Cases()
BOUNDS = ("the structures of C27 (two to five elements of eleven kinds, two material rows) without supports: every modulus and stiffness in [1,10], ratio in [-.4,.45] (one of the two materials), density in [0,10] and area in [.5,3], "
          "one node moved by up to 0.2 in both directions (3- and 6-node triangles, 4-node quadrilaterals, springs, trusses), any place of the whole in [-3,3] and two far ones; dense and sparse; inertia also for the structure scaled by 32 and by 2^-6 (members 2^-12); "
          "meshes of up to 60 quadrilaterals of rect_grid and chains of up to 40 members")
OUTSIDE = "mass moments of curved elements; signs of eigenvalues of the whole (energies of elements are decided in C10-C14)"
MOVE = ("tri3", "quad4", "spring", "truss")


def setup(ctx, kind, what):
    M = c27.structure(ctx, kind, loads=False)
    n = len(M.xy)
    M.cons = [[0] * M.nd for _ in range(n)]
    E, rho = ctx.real("E", 1, 10), ctx.real("rho", 0, 10)
    nu = ctx.real("nu", -.4, .45)
    A = ctx.real("A", .5, 3)
    if kind == "spring":
        M.mats[0] = [E]
    elif kind == "truss":
        M.mats = [[E, A, rho], [3.0, .5, 2.0]]
    elif kind == "beam":
        M.mats[0] = [E, 1.5, A, rho]
    elif kind == "beamU":
        M.mats[0] = [E, 1.5, rho, A]
    else:
        M.mats[0] = [E, nu, rho]
    if what == "moved":
        i = {"tri3": 4, "quad4": 4, "spring": 3, "truss": 3}[kind]
        if kind in ("spring", "truss"):
            i = 3
        M.xy[i] = [x + ctx.real("d%d" % j, -.2, .2) for j, x in enumerate(M.xy[i])]
    o = [ctx.real("o%d" % j, -3, 3) for j in range(len(M.xy[0]))] if what in ("plain", "moved") else {"far": [1000., -750., 500.], "near": [0., 0., 0.]}[what]
    M.xy = [[x + o[j] for j, x in enumerate(p)] for p in M.xy]
    return M


def assemble(ctx, M, sparse):
    typ = c27.TYP.get(M.kind, 20)
    T = ctx.array([[eid(ctx, e), typ, m] + c for e, (m, c) in enumerate(M.els)])
    kw, uel = {}, None
    if M.kind in c27.USER:
        k = len(M.els[0][1]) * M.nd
        kw = dict(ndof_el_max=k, ndof_el=lambda t: k)
        uel = getattr(ctx.m.ue, "elast_" + M.kind)
    op, bc, neq = ctx.m.ass.DME(ctx.array(M.cons), T, ndof_node=M.nd, **kw)
    K, W = ctx.m.ass.assembler(T, ctx.farray(M.mats), ctx.farray([[i] + p for i, p in enumerate(M.xy)]), neq, op, sparse=sparse, uel=uel)
    ctx.true("all free", neq == M.nd * len(M.xy))
    return ctx.values(ctx.dense(K)), ctx.values(ctx.dense(W))


def rigid(M, o):
    """translations and rotations as nodal vectors, about the point o"""
    nd = M.nd
    R = []
    if M.kind in ("beam", "beamU"):
        R = [[float(j == k) for _ in M.xy for j in range(3)] for k in range(2)]
        R.append([v for p in M.xy for v in (-(p[1] - o[1]), p[0] - o[0], 1.0)])
        return R, R[:2]
    R = [[float(j == k) for _ in M.xy for j in range(nd)] for k in range(nd)]
    T = list(R)
    for a, b in (((0, 1),) if nd == 2 else ((0, 1), (1, 2), (2, 0))):
        v = []
        for p in M.xy:
            r = [0.0] * nd
            r[a], r[b] = -(p[b] - o[b]), p[a] - o[a]
            v += r
        R.append(v)
    return R, T


def area(P, c):
    c = c[:3] if len(c) in (3, 6) else c[:4]
    s = 0.0
    for a, b in zip(c, c[1:] + c[:1]):
        s = s + P[a][0] * P[b][1] - P[b][0] * P[a][1]
    return s / 2


def total_mass(ctx, M):
    m = 0.0
    for r, c in M.els:
        p = M.mats[r]
        if M.kind == "spring":
            continue
        if M.kind in ("truss", "beam", "beamU"):
            d = [M.xy[c[1]][j] - M.xy[c[0]][j] for j in range(2)]
            L = ctx.sqrt(d[0] * d[0] + d[1] * d[1])
            A, q = {"truss": (1, 2), "beam": (2, 3), "beamU": (3, 2)}[M.kind]
            m = m + L * p[A] * p[q]
        elif M.kind == "tet4":
            m = m + p[2] * c27.vol(M.xy, c) / 6
        elif M.kind == "hex8":
            # the structure's bricks: exact by six tetrahedra about the diagonal for plane faces, else by the trilinear map
            m = m + p[2] * hexvol(M.xy, c)
        else:
            m = m + p[2] * area(M.xy, c)
    return m


def hexvol(P, c):
    """volume of the trilinear map: 2-point rule is exact"""
    g = 1 / 3 ** .5
    S = S3["hex8"]
    v = 0.0
    for a in (-g, g):
        for b in (-g, g):
            for d in (-g, g):
                J = [[0.0] * 3 for _ in range(3)]
                for k, s in zip(c, S):
                    w = [(s[0]) * (1 + b * s[1]) * (1 + d * s[2]) / 8, s[1] * (1 + a * s[0]) * (1 + d * s[2]) / 8, s[2] * (1 + a * s[0]) * (1 + b * s[1]) / 8]
                    for i in range(3):
                        for j in range(3):
                            J[i][j] = J[i][j] + w[j] * P[k][i]
                v = v + det3(J)
    return v


ARGS = [("%s-%s" % (k, w), dict(kind=k, what=w)) for k in c27.ALLK for w in ["plain"] + (["moved"] if k in MOVE else []) + ["far"]]


@CASES("rigid-motions", weight=3, args=ARGS)
def rigid_motions(ctx, kind, what):
    """no forces from motions of the whole; symmetric"""
    M = setup(ctx, kind, what)
    K, W = assemble(ctx, M, ctx.choice("sparse", [True, False]) if kind in ("tri3", "truss") else True)
    o = M.xy[0]
    R, T = rigid(M, o)
    for k, v in enumerate(R):
        ctx.eq("motion %d" % k, matvec(K, v), [0.0] * len(K), tol=1e-6, scale=100)
    n = len(K)
    up = [(i, j) for i in range(n) for j in range(i)]
    ctx.eq("symmetric stiffness", [K[i][j] for i, j in up], [K[j][i] for i, j in up], tol=1e-7, scale=100)
    ctx.eq("symmetric mass", [W[i][j] for i, j in up], [W[j][i] for i, j in up], tol=1e-7, scale=100)
    mass = total_mass(ctx, M)
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    # a beam without axial degrees of freedom carries its mass across only
    if kind != "beamU":
        for a, v in enumerate(T):
            Wv = matvec(W, v)
            for b, w in enumerate(T):
                ctx.eq("mass %d%d" % (a, b), dot(Wv, w), mass if a == b else 0.0, tol=1e-6, scale=100)
    else:
        ctx.eq("mass", sum(dot(matvec(W, v), v) for v in T), mass, tol=1e-6, scale=100)


def tri_moment(P, f):
    """integral of a product of two linear functions given at the corners of a triangle"""
    a = area(P, [0, 1, 2])
    return a / 12 * sum(f[i] * g for i in range(3) for g in f) + a / 12 * sum(x * x for x in f)


@CASES("inertia", weight=2, args=[(k, dict(kind=k)) for k in ("tri3", "tri6", "quad4", "quad9", "quad8", "truss", "beam")])
def inertia(ctx, kind):
    """kinetic energy of a rotation of the whole about its first node, for small and large structures"""
    M = setup(ctx, kind, "near")
    s = ctx.choice("size", [1.0, 2.0 ** (-12 if kind in ("truss", "beam") else -6), 2.0 ** 5])
    M.xy = [[x * s for x in p] for p in M.xy]
    K, W = assemble(ctx, M, True)
    o = M.xy[0]
    R, _ = rigid(M, o)
    v = R[-1]
    J = sum(x * y for x, y in zip(matvec(W, v), v))
    want = 0.0
    for r, c in M.els:
        p = M.mats[r]
        if kind in ("truss", "beam"):
            a, b = ([M.xy[k][j] - o[j] for j in range(2)] for k in c)
            L = ctx.sqrt((b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]))
            A, q = {"truss": (1, 2), "beam": (2, 3)}[kind]
            want = want + p[A] * p[q] * L / 3 * sum(a[j] * a[j] + a[j] * b[j] + b[j] * b[j] for j in range(2))
            continue
        k = c[:3] if kind in ("tri3", "tri6") else c[:4]
        tris = [k] if len(k) == 3 else [[k[0], k[1], k[2]], [k[0], k[2], k[3]]]
        for t in tris:
            P = [[M.xy[i][j] - o[j] for j in range(2)] for i in t]
            for j in range(2):
                want = want + p[2] * tri_moment(P, [q[j] for q in P])
    q = s ** -(3 if kind in ("truss", "beam") else 4)
    ctx.eq("inertia", J * q, want * q, tol=1e-6, scale=1000)
    m = total_mass(ctx, M)
    for k in range(2):
        e = sum(x * y for x, y in zip(matvec(W, R[k]), R[k]))
        q = s ** -(1 if kind in ("truss", "beam") else 2)
        ctx.eq("mass %d" % k, e * q, m * q, tol=1e-6, scale=100)


@CASES("grid", weight=4, args=[("%dx%d" % p, dict(nx=p[0], ny=p[1])) for p in ((3, 2), (10, 6), (1, 12))])
def grid(ctx, nx, ny):
    """meshes of rect_grid of any size and place: a rectangle"""
    l, h = ctx.real("l", .5, 4), ctx.real("h", .5, 4)
    E, rho = ctx.real("E", 1, 10), ctx.real("rho", 0, 10)
    x, y, els = ctx.m.pre.rect_grid(l, h, nx, ny)
    X, Y = ctx.values(x), ctx.values(y)
    n = len(X)
    op, bc, neq = ctx.m.ass.DME(ctx.array([[0, 0]] * n), els)
    K, W = ctx.m.ass.assembler(els, ctx.farray([[E, .25, rho]]), ctx.farray([[i, X[i], Y[i]] for i in range(n)]), neq, op)
    one = [[1.0, 0.0] * n, [0.0, 1.0] * n]
    turn = [v for i in range(n) for v in (-Y[i], X[i])]
    for nm, v in (("x", one[0]), ("y", one[1]), ("turn", turn)):
        ctx.eq("motion " + nm, ctx.values(K.dot(ctx.farray(v))), [0.0] * neq, tol=1e-6, scale=100)
    for nm, v, want in (("x", one[0], rho * l * h), ("y", one[1], rho * l * h), ("turn", turn, rho * l * h * (l * l + h * h) / 12)):
        f = ctx.values(W.dot(ctx.farray(v)))
        ctx.eq("energy " + nm, sum(a * b for a, b in zip(f, v)), want, tol=1e-6, scale=1000)
    # a uniform stretch: energy of plane stress
    s = [v for i in range(n) for v in (X[i], 0.0)]
    f = ctx.values(K.dot(ctx.farray(s)))
    ctx.eq("stretch", sum(a * b for a, b in zip(f, s)), E / (1 - .0625) * l * h, tol=1e-6, scale=1000)


@CASES("chain", weight=3, args=[("%s-%d" % (k, n), dict(kind=k, n=n)) for k in ("spring", "truss", "beam", "beamU") for n in (6, 40)])
def chain(ctx, kind, n):
    """members end to end in a zigzag"""
    P = [[3.0 * i, 4.0 * (i % 2)] for i in range(n + 1)]
    E, A, rho = ctx.real("E", 1, 10), ctx.real("A", .5, 3), ctx.real("rho", 0, 10)
    mats = {"spring": [[E], [2.0]], "truss": [[E, A, rho], [2.0, 1.5, 3.0]], "beam": [[E, 1.5, A, rho], [2.0, 1.5, 1.5, 3.0]], "beamU": [[E, 1.5, rho, A], [2.0, 1.5, 3.0, 1.5]]}[kind]
    els = [(i % 2, [i, i + 1] if i % 3 else [i + 1, i]) for i in range(n)]
    M = c27.Model(kind, P, els, mats, ())
    K, W = assemble(ctx, M, True)
    R, T = rigid(M, P[0])
    for k, v in enumerate(R):
        ctx.eq("motion %d" % k, matvec(K, v), [0.0] * len(K), tol=1e-6, scale=1000)
    dot = lambda a, b: sum(x * y for x, y in zip(a, b))
    ctx.eq("mass", sum(dot(matvec(W, v), v) for v in T), total_mass(ctx, M) * (1 if kind == "beamU" else 2), tol=1e-6, scale=1000)
