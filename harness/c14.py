"""beams"""
from hlib import *
from members import *
CASES = Cases()
BOUNDS = ("every position in [-3,3]^2, orientation in [-pi,pi], length in [0.5,4], modulus, area and inertia in [0.1,10], density in [0.1,10]; axis-aligned members of length 0.01 to 100; six directions with lengths 1e-4 to 1e4 and sections of every magnitude; "
          "any nodal displacements in [-1,1]")
OUTSIDE = "zero-length members; shear deformation"


def section(ctx):
    return ctx.real("E", .1, 10), ctx.real("I", .1, 10), ctx.real("A", .1, 10), ctx.real("rho", .1, 10)


def call(ctx, kind, pts, E, I, A, rho):
    if kind == "beam2DU":
        par = [E, I] if rho is None else [E, I, rho, A]
    else:
        par = [E, I, A] if rho is None else [E, I, A, rho]
    return getattr(ctx.m.ue, kind)(ctx.farray(pts), par)


def reference(kind, L, c, s, E, I, A, rho):
    Tb, Ta = t_bending(c, s), t_axial(c, s, 3)
    k, m = [(bending(L, E * I), Tb)], [(bending_mass(L, rho * A), Tb)]
    if kind == "beam2D":
        k.append((axial(L, E * A), Ta))
        m.append((axial_mass(L, rho * A), Ta))
    return embed(6, k), embed(6, m)


KINDS = [(k, dict(kind=k)) for k in ("beam2DU", "beam2D")]


@CASES("matrices", args=KINDS)
def matrices(ctx, kind):
    """both matrices, every orientation and length, against exact integrals of the Hermite interpolation"""
    pts, L, c, s = member(ctx)
    E, I, A, rho = section(ctx)
    K, M = call(ctx, kind, pts, E, I, A, rho)
    ctx.true("size", ctx.shape(K) == (6, 6) and ctx.shape(M) == (6, 6))
    k, m = reference(kind, L, c, s, E, I, A, rho)
    ctx.eq("stiffness", K, k, scale=1e3)
    ctx.eq("mass", M, m, scale=1e3)
    V, W = ctx.values(K), ctx.values(M)
    ctx.eq("symmetric stiffness", V, transpose(V), scale=1e3)
    ctx.eq("symmetric mass", W, transpose(W), scale=1e3)


@CASES("rigid", args=KINDS)
def rigid(ctx, kind):
    pts, L, c, s = member(ctx)
    E, I, A, rho = section(ctx)
    K, M = call(ctx, kind, pts, E, I, A, rho)
    V = ctx.values(K)
    ctx.eq("translation", matvec(V, [1.0, 0.0, 0.0] * 2) + matvec(V, [0.0, 1.0, 0.0] * 2), [0.0] * 12, scale=1e3)
    u = []
    for x, y in pts:
        u += [-y, x, 1.0]
    ctx.eq("rotation", matvec(V, u), [0.0] * 6, scale=1e4)
    # end forces are in equilibrium for any displacement
    u = [ctx.real("u%d" % i, -1, 1) for i in range(6)]
    f = matvec(V, u)
    ctx.eq("forces", [f[0] + f[3], f[1] + f[4]], [0.0, 0.0], scale=1e3)
    dx, dy = pts[1][0] - pts[0][0], pts[1][1] - pts[0][1]
    ctx.eq("moments", f[2] + f[5] + dx * f[4] - dy * f[3], 0.0, scale=1e4)


@CASES("cubic", args=KINDS)
def cubic(ctx, kind):
    """strain energy and end forces of a cubic deflection (and a linear axial field)"""
    pts, L, c, s = member(ctx)
    E, I, A, rho = section(ctx)
    a = [ctx.real("a%d" % i, -1, 1) for i in range(4)]
    e0, e1 = ctx.real("e0", -1, 1), ctx.real("e1", -1, 1)
    if kind == "beam2DU":
        e1 = 0.0
    K, _ = call(ctx, kind, pts, E, I, A, rho)
    u = []
    for x in (0.0, L):
        w = a[0] + a[1] * x + a[2] * x * x + a[3] * x * x * x
        th = a[1] + 2 * a[2] * x + 3 * a[3] * x * x
        ax = e0 + e1 * x
        u += [ax * c - w * s, ax * s + w * c, th]
    V = ctx.values(K)
    f = matvec(V, u)
    # shear E I w''' and moment E I w'' at the ends
    EI, EA = E * I, E * A
    S = 6 * EI * a[3]
    M0, M1 = 2 * EI * a[2], EI * (2 * a[2] + 6 * a[3] * L)
    N = EA * e1
    ref = [-N * c - S * s, -N * s + S * c, -M0, N * c + S * s, N * s - S * c, M1]
    ctx.eq("end forces", f, ref, scale=1e4)
    en = 4 * a[2] * a[2] * L + 12 * a[2] * a[3] * L * L + 12 * a[3] * a[3] * L * L * L
    ctx.eq("energy", sum(x * y for x, y in zip(u, f)), EI * en + EA * e1 * e1 * L, scale=1e5)


@CASES("reversal", args=KINDS)
def reversal(ctx, kind):
    pts, L, c, s = member(ctx)
    E, I, A, rho = section(ctx)
    V, W = map(ctx.values, call(ctx, kind, pts, E, I, A, rho))
    V2, W2 = map(ctx.values, call(ctx, kind, pts[::-1], E, I, A, rho))
    perm = [3, 4, 5, 0, 1, 2]
    ctx.eq("stiffness", [[V2[i][j] for j in perm] for i in perm], V, scale=1e3)
    ctx.eq("mass", [[W2[i][j] for j in perm] for i in perm], W, scale=1e3)


@CASES("defaults", args=KINDS)
def defaults(ctx, kind):
    """density (and area for the beam without axial stiffness) default to one"""
    pts, L, c, s = member(ctx)
    E, I, A, rho = section(ctx)
    if kind == "beam2DU":
        A = 1.0
    K, M = call(ctx, kind, pts, E, I, A, None)
    k, m = reference(kind, L, c, s, E, I, A, 1.0)
    ctx.eq("stiffness", K, k, scale=1e3)
    ctx.eq("mass", M, m, scale=1e3)


@CASES("aligned", args=[("%s-%d" % (k, d), dict(kind=k, d=d)) for k in ("beam2DU", "beam2D") for d in range(4)])
def aligned(ctx, kind, d):
    L = ctx.real("L", 1e-2, 1e2)
    c, s = ((1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0))[d]
    E, I, A, rho = section(ctx)
    K, M = call(ctx, kind, [[0.0, 0.0], [L * c, L * s]], E, I, A, rho)
    k, m = reference(kind, L, c, s, E, I, A, rho)
    L3 = L * L * L
    ctx.eq("stiffness", [[x * L3 for x in r] for r in ctx.values(K)], [[x * L3 for x in r] for r in k], scale=1e3)
    ctx.eq("mass", M, m, scale=1e3)


@CASES("integers", args=KINDS)
def integers(ctx, kind):
    a, b = ctx.choice("d", [(3, 4), (-3, 4), (4, -3), (0, 5), (-5, 0)])
    pts = [[1, 2], [1 + a, 2 + b]]
    par = [7, 3, 2, 4]
    E, I, A, rho = (7.0, 3.0, 4.0, 2.0) if kind == "beam2DU" else (7.0, 3.0, 2.0, 4.0)
    k, m = reference(kind, 5.0, a / 5., b / 5., E, I, A, rho)
    for lab, p in (("list", par), ("tuple", tuple(par)), ("array", ctx.array(par))):
        K, M = getattr(ctx.m.ue, kind)(ctx.array(pts), p)
        ctx.eq("stiffness " + lab, K, k, scale=1e3)
        ctx.eq("mass " + lab, M, m, scale=1e3)


@CASES("scales", weight=3, args=[("%s-%d-%s" % (k, d, z), dict(kind=k, d=d, z=z)) for k in ("beam2DU", "beam2D") for d in range(6) for z in ("small", "large")])
def scales(ctx, kind, d, z):
    """sizes and sections of any magnitude (slender steel members, tiny specimens)"""
    c, s = ((.6, -.8), (-.6, -.8), (0.0, -1.0), (0.0, 1.0), (-1.0, 0.0), (-.8, .6))[d]
    L = ctx.real("L", *((1e-4, 1e-1) if z == "small" else (10, 1e4)))
    E = ctx.real("E", *((1e-3, 1.0) if z == "small" else (1e6, 1e12)))
    A = ctx.real("A", 1e-6, 1)
    I = A * L * L * ctx.real("slender", 1e-7, 1e-2)
    rho = ctx.real("rho", 1, 1e4)
    x0 = ctx.real("x0", -1, 1)
    V, W = map(ctx.values, call(ctx, kind, [[x0, 2.0], [x0 + L * c, 2.0 + L * s]], E, I, A, rho))
    # unit member: rotations measured in w/L, forces divided by EI/L^3, masses by rho A L
    p = [0, 0, 1] * 2
    sc = [[lpow(L, 3 - p[i] - p[j]) for j in range(6)] for i in range(6)]
    sm = [[lpow(L, -1 - p[i] - p[j]) for j in range(6)] for i in range(6)]
    Tb, Ta = t_bending(c, s), t_axial(c, s, 3)
    kb = embed(6, [(bending(1.0, 1.0), Tb)])
    ka = embed(6, [(axial(1.0, 1.0), Ta)])
    m = embed(6, [(bending_mass(1.0, 1.0), Tb)] + ([(axial_mass(1.0, 1.0), Ta)] if kind == "beam2D" else []))
    EI = E * I
    ctx.eq("mass", [[W[i][j] * sm[i][j] / (rho * A) for j in range(6)] for i in range(6)], m)
    if kind == "beam2DU":
        ctx.eq("stiffness", [[V[i][j] * sc[i][j] / EI for j in range(6)] for i in range(6)], kb)
        return
    # components along and across the member, so that each part is compared on its own scale
    T = Ta + Tb
    S = [[sum(T[a][i] * V[i][j] * T[b][j] for i in range(6) for j in range(6)) for b in range(6)] for a in range(6)]
    ctx.eq("axial", [[S[a][b] * L / (E * A) for b in (0, 1)] for a in (0, 1)], [[1.0, -1.0], [-1.0, 1.0]])
    q = [0, 1, 0, 1]
    ctx.eq("bending", [[S[2 + a][2 + b] * lpow(L, 3 - q[a] - q[b]) / EI for b in range(4)] for a in range(4)], bending(1.0, 1.0))
    ctx.eq("uncoupled", [[S[a][2 + b] * L / (E * A) for b in range(4)] for a in (0, 1)], [[0.0] * 4] * 2)
