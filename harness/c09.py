"""constitutive matrices"""
from hlib import *
CASES = Cases()
BOUNDS = "all E in [0.1, 100] and nu in [-0.9, 0.49]; E in [1, 10] and nu in (-0.9999, -0.9] or [0.49, 0.49999), E in [1e-3, 1e12]; integer moduli with nu = 0"
OUTSIDE = ("nu outside the interval (the limits -1 and 1/2 are singular); the out-of-plane entry of the plane-strain matrix "
           "is only required to be uncoupled from shear")


def mat(ctx):
    return ctx.real("E", .1, 100), ctx.real("nu", -.9, .49)


def spd(ctx, lab, C, n):
    """leading principal minors are positive"""
    def minor(k):
        idx = list(range(k))

        def d(rows, cols):
            if len(rows) == 1:
                return C[rows[0]][cols[0]]
            return sum((-1) ** j * C[rows[0]][cols[j]] * d(rows[1:], cols[:j] + cols[j + 1:]) for j in range(len(cols)))
        return d(idx, idx)
    for k in range(1, min(n, 3) + 1):
        ctx.le("%s minor %d" % (lab, k), 0.0, minor(k))


def scaled(ctx, C, q):
    return [[q * x for x in r] for r in ctx.values(C)]


@CASES("plane-stress")
def plane_stress(ctx):
    E, nu = mat(ctx)
    C = ctx.m.fem.umat((E, nu))
    ctx.true("size", ctx.shape(C) == (3, 3))
    q = 1 - nu * nu
    ctx.eq("entries", scaled(ctx, C, q), [[E, nu * E, 0.0], [nu * E, E, 0.0], [0.0, 0.0, E * (1 - nu) / 2]], scale=100)
    V = ctx.values(C)
    # Hooke: uniaxial stress
    for i in range(2):
        e = [-nu, -nu, 0.0]
        e[i] = 1.0
        ctx.eq("uniaxial %d" % i, matvec(V, e), [E if k == i else 0.0 for k in range(3)], scale=100)
    ctx.eq("shear modulus", V[2][2] * 2 * (1 + nu), E, scale=100)
    # plane stress from the 3-D law: eliminate sigma_zz
    D = ctx.values(ctx.m.fem.elast_mat((E, nu)))
    for i in range(2):
        for j in range(2):
            ctx.eq("condensation %d%d" % (i, j), V[i][j] * D[2][2], D[i][j] * D[2][2] - D[i][2] * D[2][j], scale=1e4)
    spd(ctx, "plane stress", V, 3)


@CASES("plane-strain")
def plane_strain(ctx):
    E, nu = mat(ctx)
    C = ctx.m.fem.elast_mat_2d((E, nu))
    ctx.true("size", ctx.shape(C) == (4, 4))
    V = ctx.values(C)
    # in-plane block: the 3-D law with zero out-of-plane strain
    q = (1 + nu) * (1 - 2 * nu)
    ctx.eq("direct", [[q * V[i][j] for j in range(2)] for i in range(2)], [[E * (1 - nu), E * nu], [E * nu, E * (1 - nu)]], scale=100)
    ctx.eq("shear", [V[2][2] * 2 * (1 + nu), V[2][0], V[2][1], V[0][2], V[1][2], V[2][3], V[3][2]],
           [E, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], scale=100)
    ctx.eq("symmetric", V, transpose(V), scale=100)
    ctx.eq("out of plane", q * V[3][3], E * (1 - nu), scale=100)
    spd(ctx, "plane strain", V, 3)


@CASES("axisymmetric")
def axisymmetric(ctx):
    E, nu = mat(ctx)
    C = ctx.m.fem.elast_mat_axi((E, nu))
    ctx.true("size", ctx.shape(C) == (4, 4))
    V = ctx.values(C)
    for i in (0, 1, 3):
        e = [-nu, -nu, 0.0, -nu]
        e[i] = 1.0
        ctx.eq("uniaxial %d" % i, matvec(V, e), [E if k == i else 0.0 for k in range(4)], scale=1e4)
    ctx.eq("shear modulus", V[2][2] * 2 * (1 + nu), E, scale=100)
    ctx.eq("shear uncoupled", [V[2][k] for k in (0, 1, 3)] + [V[k][2] for k in (0, 1, 3)], [0.0] * 6)
    ctx.eq("symmetric", V, transpose(V), scale=100)
    P = [[V[i][j] for j in (0, 1, 3)] for i in (0, 1, 3)]
    spd(ctx, "axisymmetric", P, 3)
    D = ctx.values(ctx.m.fem.elast_mat((E, nu)))
    ctx.eq("same as 3-D", P, [r[:3] for r in D[:3]], scale=100)


@CASES("solid")
def solid(ctx):
    E, nu = mat(ctx)
    C = ctx.m.fem.elast_mat((E, nu))
    ctx.true("size", ctx.shape(C) == (6, 6))
    V = ctx.values(C)
    for i in range(3):
        e = [-nu] * 3 + [0.0] * 3
        e[i] = 1.0
        ctx.eq("uniaxial %d" % i, matvec(V, e), [E if k == i else 0.0 for k in range(6)], scale=1e4)
        e = [0.0] * 6
        e[3 + i] = 2 * (1 + nu)
        ctx.eq("shear %d" % i, matvec(V, e), [E if k == 3 + i else 0.0 for k in range(6)], scale=100)
    ctx.eq("symmetric", V, transpose(V), scale=100)
    spd(ctx, "solid", [r[:3] for r in V[:3]], 3)


@CASES("containers", args=[("list", dict(kind=list)), ("array", dict(kind=None))])
def containers(ctx, kind):
    """the parameters may be any sequence"""
    E, nu = mat(ctx)
    for name, n in (("umat", 3), ("elast_mat_2d", 4), ("elast_mat_axi", 4), ("elast_mat", 6)):
        f = getattr(ctx.m.fem, name)
        a = f(kind((E, nu)) if kind else ctx.farray([E, nu]))
        b = f((E, nu))
        ctx.eq(name, a, b, scale=100)


LIMITS = {"low": (1, 10, -.9999, -.9), "high": (1, 10, .49, .49999), "soft": (1e-3, 1, 0, .4), "stiff": (1e6, 1e12, 0, .4)}


@CASES("limits", weight=2, args=[(k, dict(k=k)) for k in LIMITS])
def limits(ctx, k):
    """nearly incompressible and strongly auxetic materials, any modulus: every law against the closed form"""
    a, b, c, d = LIMITS[k]
    E, nu = ctx.real("E", a, b), ctx.real("nu", c, d)
    fem = ctx.m.fem
    q = (1 + nu) * (1 - 2 * nu) / E
    mu = (1 - 2 * nu) / 2
    D = [[1 - nu if i == j else nu for j in range(3)] for i in range(3)]
    A = [[q * x for x in r] for r in ctx.values(fem.elast_mat((E, nu)))]
    ctx.eq("solid", A, [D[i] + [0.0] * 3 for i in range(3)] + [[mu if i == j else 0.0 for j in range(6)] for i in (3, 4, 5)])
    A = [[q * x for x in r] for r in ctx.values(fem.elast_mat_axi((E, nu)))]
    w = [0, 1, None, 2]
    ctx.eq("axisymmetric", A, [[(mu if i == j else 0.0) if w[i] is None or w[j] is None else D[w[i]][w[j]] for j in range(4)] for i in range(4)])
    A = [[q * x for x in r[:3]] for r in ctx.values(fem.elast_mat_2d((E, nu)))[:3]]
    ctx.eq("plane strain", A, [[1 - nu, nu, 0.0], [nu, 1 - nu, 0.0], [0.0, 0.0, mu]])
    q = (1 - nu * nu) / E
    A = [[q * x for x in r] for r in ctx.values(fem.umat((E, nu)))]
    ctx.eq("plane stress", A, [[1.0, nu, 0.0], [nu, 1.0, 0.0], [0.0, 0.0, (1 - nu) / 2]])


@CASES("integers", weight=2, args=[(k, dict(kind=k)) for k in ("tuple", "list", "array")])
def integers(ctx, kind):
    """integer moduli (and a vanishing Poisson's ratio) are numbers like any other"""
    E = ctx.is_int(ctx.integer("E", 1, 9))
    for name in ("umat", "elast_mat_2d", "elast_mat_axi", "elast_mat"):
        f = getattr(ctx.m.fem, name)
        p = {"tuple": tuple, "list": list, "array": ctx.array}[kind]([E, 0])
        ctx.eq(name, f(p), f((float(E), 0.0)), scale=100)
