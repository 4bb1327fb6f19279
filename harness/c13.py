"""springs and trusses"""
from hlib import *
from members import *
CASES = Cases()
BOUNDS = ("every position in [-3,3]^2, orientation in [-pi,pi], length in [0.5,4] (and [1e-3,1e3] horizontal/vertical), stiffness, modulus and area in [0.1,10] (six directions: length 1e-6 to 1e6, stiffness 1e-6 to 1e12), "
          "any nodal displacements in [-1,1]")
OUTSIDE = "zero-length members"


def build(ctx, kind, pts, dens=None):
    if kind == "spring":
        k = ctx.real("k", .1, 10)
        K, M = ctx.m.ue.spring(ctx.farray(pts), k)
        return K, M, k, None
    E, A = ctx.real("E", .1, 10), ctx.real("A", .1, 10)
    par = [E, A]
    if dens is not None:
        par.append(dens)
    K, M = ctx.m.ue.truss2D(ctx.farray(pts), par)
    return K, M, E * A, A


@CASES("law", args=[(k, dict(kind=k)) for k in ("spring", "truss")])
def law(ctx, kind):
    """end forces from arbitrary displacements"""
    pts, L, c, s = member(ctx)
    K, M, ea, A = build(ctx, kind, pts)
    ctx.true("size", ctx.shape(K) == (4, 4) and ctx.shape(M) == (4, 4))
    k = ea if kind == "spring" else ea / L
    u = [ctx.real("u%d" % i, -1, 1) for i in range(4)]
    V = ctx.values(K)
    f = matvec(V, u)
    el = (u[2] - u[0]) * c + (u[3] - u[1]) * s
    ctx.eq("forces", f, [-k * el * c, -k * el * s, k * el * c, k * el * s], scale=100)
    ctx.eq("equilibrium", [f[0] + f[2], f[1] + f[3]], [0.0, 0.0], scale=100)
    ctx.eq("symmetric", V, transpose(V), scale=100)
    # rigid motions
    ctx.eq("translation", matvec(V, [1.0, 0.0, 1.0, 0.0]) + matvec(V, [0.0, 1.0, 0.0, 1.0]), [0.0] * 8, scale=100)
    ctx.eq("rotation", matvec(V, [-pts[0][1], pts[0][0], -pts[1][1], pts[1][0]]), [0.0] * 4, scale=100)
    ctx.eq("transverse", matvec(V, [0.0, 0.0, -s, c]), [0.0] * 4, scale=100)
    # semidefinite of rank one: the energy is a positive multiple of a square
    ctx.eq("energy", dot(u, f), k * el * el, scale=100)
    if kind == "spring":
        ctx.eq("no mass", M, zeros(4, 4))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@CASES("reversal", args=[(k, dict(kind=k)) for k in ("spring", "truss")])
def reversal(ctx, kind):
    pts, L, c, s = member(ctx)
    K, M, _, _ = build(ctx, kind, pts)
    K2, M2, _, _ = build(ctx, kind, pts[::-1])
    perm = [2, 3, 0, 1]
    V, V2, W, W2 = map(ctx.values, (K, K2, M, M2))
    ctx.eq("stiffness", [[V2[i][j] for j in perm] for i in perm], V, scale=100)
    ctx.eq("mass", [[W2[i][j] for j in perm] for i in perm], W, scale=100)


@CASES("mass", args=[("default", dict(given=False)), ("given", dict(given=True))])
def mass(ctx, given):
    pts, L, c, s = member(ctx)
    rho = ctx.real("rho", .1, 10) if given else 1.0
    K, M, _, A = build(ctx, "truss", pts, rho if given else None)
    ref = zeros(4, 4)
    a = axial_mass(L, rho * A)
    for i in range(2):
        for j in range(2):
            for d in range(2):
                ref[2 * i + d][2 * j + d] = a[i][j]
    ctx.eq("consistent", M, ref, scale=100)
    tot = ctx.values(M)
    ctx.eq("total", sum(tot[i][j] for i in (0, 2) for j in (0, 2)), rho * A * L, scale=100)
    K0, _, _, _ = build(ctx, "truss", pts, None)
    ctx.eq("stiffness without density", K, K0, scale=100)


@CASES("aligned", args=[("%s-%d" % (k, d), dict(kind=k, d=d)) for k in ("spring", "truss") for d in range(4)])
def aligned(ctx, kind, d):
    """members along the axes, very short and very long ones"""
    L = ctx.real("L", 1e-3, 1e3)
    c, s = ((1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0))[d]
    pts = [[0.0, 0.0], [L * c, L * s]]
    K, M, ea, _ = build(ctx, kind, pts)
    k = ea if kind == "spring" else ea / L
    n = [-c, -s, c, s]
    ctx.eq("matrix", [[x * L for x in r] for r in ctx.values(K)], [[k * L * a * b for b in n] for a in n], scale=100)


@CASES("integers", args=[(k, dict(kind=k)) for k in ("spring", "truss")])
def integers(ctx, kind):
    """integer coordinates (3-4-5 member) and parameters, any container"""
    a, b = ctx.choice("d", [(3, 4), (-3, 4), (4, -3), (0, 5), (-5, 0)])
    x = ctx.is_int(ctx.integer("x", -1, 1))
    pts = ctx.array([[x, 2], [x + a, 2 + b]])
    n = [-a / 5., -b / 5., a / 5., b / 5.]
    if kind == "spring":
        K, M = ctx.m.ue.spring(pts, 7)
        k = 7.0
        ctx.eq("matrix", K, [[k * p * q for q in n] for p in n])
        return
    for lab, par in (("list", [7, 2]), ("tuple", (7, 2)), ("array", ctx.farray([7, 2])), ("list3", [7, 2, 3]), ("array3", ctx.array([7, 2, 3]))):
        K, M = ctx.m.ue.truss2D(pts, par)
        ctx.eq("matrix " + lab, K, [[14 / 5. * p * q for q in n] for p in n])
        rho = 3.0 if lab[-1] == "3" else 1.0
        ctx.eq("mass " + lab, ctx.values(M)[0][0], rho * 2 * 5 / 3.)


@CASES("scales", weight=2, args=[("%s-%d-%s" % (k, d, z), dict(kind=k, d=d, z=z)) for k in ("spring", "truss") for d in range(6) for z in ("small", "large")])
def scales(ctx, kind, d, z):
    """members of any size and stiffness, upright and lying ones included"""
    c, s = ((.6, -.8), (-.6, -.8), (0.0, -1.0), (0.0, 1.0), (-1.0, 0.0), (-.8, .6))[d]
    L = ctx.real("L", *((1e-6, 1e-2) if z == "small" else (1e3, 1e6)))
    k = ctx.real("k", *((1e-6, 1.0) if z == "small" else (1e6, 1e12)))
    A = ctx.real("A", 1e-6, 10)
    rho = ctx.real("rho", .1, 1e4)
    x0 = ctx.real("x0", -1, 1)
    pts = ctx.farray([[x0, 2.0], [x0 + L * c, 2.0 + L * s]])
    K, M = ctx.m.ue.spring(pts, k) if kind == "spring" else ctx.m.ue.truss2D(pts, ctx.farray([k, A, rho]))
    n = [-c, -s, c, s]
    V = ctx.values(K)
    if kind == "spring":
        ctx.eq("matrix", [[x / k for x in r] for r in V], [[p * q for q in n] for p in n])
    else:
        ctx.eq("matrix", [[x * L / (k * A) for x in r] for r in V], [[p * q for q in n] for p in n])
        a = [[2, 0, 1, 0], [0, 2, 0, 1], [1, 0, 2, 0], [0, 1, 0, 2]]
        ctx.eq("mass", [[x * 6 / (rho * A * L) for x in r] for r in ctx.values(M)], a)
