"""axisymmetric 9-node element"""
import math
from hlib import *
from elems import *
from refint import *
CASES = Cases()
BOUNDS = ("sections: every rectangle and parallelogram with inner radius in [0,3] (axis included), half-width and half-height in [0.5,2], both shears in [0,0.3], numbered from any corner; "
          "straight-sided quadrilaterals with one corner anywhere within +-0.2; E in [1,10], nu in [-0.5,0.45], density in [0.1,10]; integer sections and parameters")
OUTSIDE = ("radial fields not proportional to the radius are checked against the documented 3x3 Gauss sum (the integrand is then not polynomial); "
           "materials with nu near 1/2")
G3 = 0.774596669241483377
RULE = [(-G3, 0.555555555555555556), (0.0, 0.888888888888888889), (G3, 0.555555555555555556)]


def section(ctx, shear=True, turn=0):
    """turn: number of quarter turns (the section numbered from another corner)"""
    r0 = ctx.real("r0", 0, 3)
    z0 = ctx.real("z0", -2, 2)
    a, d = ctx.real("a", .5, 2), ctx.real("d", .5, 2)
    b = ctx.real("b", 0, .3) if shear else 0.0
    c = ctx.real("c", 0, .3) if shear else 0.0
    det = a * d - b * c
    rc = r0 + (a + b if turn % 2 == 0 else c + d)
    for _ in range(turn):
        a, b, c, d = -c, -d, a, b
    pts = [[rc + a * p[0] + b * p[1], z0 + c * p[0] + d * p[1]] for p in S2["quad9"]]
    return pts, [[a, b], [c, d]], det, rc


def lame(E, nu):
    return E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))


def material(ctx):
    return ctx.real("E", 1, 10), ctx.real("nu", -.5, .45)


def volume_checks(ctx, pts, K, M, E, nu, rho, vol):
    V, W = ctx.values(K), ctx.values(M)
    ctx.true("size", ctx.shape(K) == (18, 18) and ctx.shape(M) == (18, 18))
    ctx.eq("symmetric", V, transpose(V), tol=1e-8, scale=1e3)
    ez = [0.0, 1.0] * 9
    ctx.eq("axial translation", matvec(V, ez), [0.0] * 18, tol=1e-8, scale=1e3)
    lam, mu = lame(E, nu)
    st = []      # (nodal values, err, ezz, shear, hoop)
    st.append(([x for p in pts for x in (p[0], 0.0)], 1.0, 0.0, 0.0, 1.0))
    st.append(([x for p in pts for x in (0.0, p[0])], 0.0, 0.0, 1.0, 0.0))
    st.append(([x for p in pts for x in (0.0, p[1])], 0.0, 1.0, 0.0, 0.0))
    for i, (u, *e) in enumerate(st):
        Ku = matvec(V, u)
        for j, (v, *f) in enumerate(st):
            tre, trf = e[0] + e[1] + e[3], f[0] + f[1] + f[3]
            w = lam * tre * trf + 2 * mu * (e[0] * f[0] + e[1] * f[1] + e[3] * f[3]) + mu * e[2] * f[2]
            ctx.eq("energy %d-%d" % (i, j), dot(v, Ku), w * vol, tol=1e-8, scale=1e4)
    ctx.eq("axial mass", quadform(ez, W, ez), rho * vol, tol=1e-8, scale=1e4)
    ctx.eq("mass symmetric", W, transpose(W), tol=1e-8, scale=1e3)
    ctx.eq("mass uncoupled", [[W[2 * i][2 * j + 1] for j in range(9)] for i in range(9)], zeros(9, 9))


@CASES("energy", weight=8, args=[("rectangle", dict(shear=False)), ("parallelogram", dict(shear=True))]
       + [("rectangle-turned%d" % t, dict(shear=False, turn=t)) for t in (1, 2, 3)] + [("parallelogram-turned%d" % t, dict(shear=True, turn=t)) for t in (1, 2, 3)])
def energy(ctx, shear, turn=0):
    pts, J, det, rc = section(ctx, shear, turn)
    if shear:
        E, nu = 2.0, ctx.real("nu", -.5, .45)
    else:
        E, nu = material(ctx)
    rho = 1.5
    K, M = ctx.m.ue.elast_axi_quad9(ctx.farray(pts), (E, nu, rho))
    volume_checks(ctx, pts, K, M, E, nu, rho, 2 * math.pi * rc * (4 * det))


@CASES("mass", weight=4, args=[(str(t), dict(turn=t)) for t in range(4)])
def mass(ctx, turn):
    """the exact consistent mass, weight 2 pi r"""
    pts, J, det, rc = section(ctx, turn=turn)
    rho = ctx.real("rho", .1, 10)
    K, M = ctx.m.ue.elast_axi_quad9(ctx.farray(pts), (2.0, .3, rho))
    (a, b), (c, d) = J
    N = shapes("quad9")
    ref = zeros(18, 18)
    q = 2 * math.pi * rho * det
    for i in range(9):
        for j in range(9):
            p = pmul(N[i], N[j])
            m = [float(pint("quad9", pmul(p, w))) for w in ({(0, 0): Fr(1)}, {(1, 0): Fr(1)}, {(0, 1): Fr(1)})]
            v = q * (m[0] * rc + m[1] * a + m[2] * b)
            ref[2 * i][2 * j] = v
            ref[2 * i + 1][2 * j + 1] = v
    ctx.eq("consistent", M, ref, tol=1e-8, scale=1e3)


@CASES("gauss", weight=8, args=[("rectangle", dict(kind=0)), ("parallelogram", dict(kind=1)), ("distorted", dict(kind=2))]
       + [("rectangle-turned%d" % t, dict(kind=0, turn=t)) for t in (1, 2, 3)] + [("distorted-turned%d" % t, dict(kind=2, turn=t)) for t in (1, 2, 3)])
def gauss(ctx, kind, turn=0):
    """documented Gauss sum with hoop terms, any displacement"""
    if kind == 0:
        pts, J, det, rc = section(ctx, False, turn)
    elif kind == 1:
        r0, b = ctx.real("r0", 0, 3), ctx.real("b", 0, .3)
        pts = [[r0 + (p[0] + 1) + b * (p[1] + 1), .25 * p[0] + p[1]] for p in S2["quad9"]]
    else:
        pts = quad(ctx, (2,), turn=turn)
    E, nu = ctx.real("E", 1, 10), .25
    K, _ = ctx.m.ue.elast_axi_quad9(ctx.farray(pts), (E, nu, 1.0))
    lam, mu = lame(E, nu)
    N = shapes("quad9")
    dN = [[pdiff(f, d) for f in N] for d in range(2)]
    ref = zeros(18, 18)
    for r, wr in RULE:
        for s, ws in RULE:
            H = [peval(f, (r, s)) for f in N]
            D = [[peval(f, (r, s)) for f in q] for q in dN]
            J = [[dot(D[i], [p[j] for p in pts]) for j in range(2)] for i in range(2)]
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            x = dot(H, [p[0] for p in pts])
            idet, ix = 1 / det, 1 / x
            g = [[(J[1][1] * D[0][a] - J[0][1] * D[1][a]) for a in range(9)],
                 [(-J[1][0] * D[0][a] + J[0][0] * D[1][a]) for a in range(9)]]
            w = wr * ws * 2 * math.pi
            # x*det*(B'CB): gradient pairs carry x/det, gradient-hoop ones 1, hoop-hoop det/x
            xd, dx = x * idet, det * ix
            for i in range(9):
                for j in range(9):
                    grr, gzz = g[0][i] * g[0][j], g[1][i] * g[1][j]
                    rr = (lam + 2 * mu) * (grr * xd + H[i] * H[j] * dx) + lam * (g[0][i] * H[j] + H[i] * g[0][j]) + mu * gzz * xd
                    rz = lam * (g[0][i] * g[1][j] * xd + H[i] * g[1][j]) + mu * g[1][i] * g[0][j] * xd
                    zr = lam * (g[1][i] * g[0][j] * xd + H[j] * g[1][i]) + mu * g[0][i] * g[1][j] * xd
                    zz = (lam + 2 * mu) * gzz * xd + mu * grr * xd
                    for k, l, v in ((0, 0, rr), (0, 1, rz), (1, 0, zr), (1, 1, zz)):
                        ref[2 * i + k][2 * j + l] = ref[2 * i + k][2 * j + l] + w * v
    ctx.eq("stiffness", K, ref, tol=1e-8, scale=1e4)


def quad(ctx, moved, eps=.2, turn=0):
    C = [[1.0, -1.0], [3.0, -1.25], [3.5, 1.0], [1.25, 1.0]]
    for k in moved:
        C[k] = [C[k][0] + ctx.real("dr%d" % k, -eps, eps), C[k][1] + ctx.real("dz%d" % k, -eps, eps)]
    return straight(C[turn:] + C[:turn])


def straight(C):
    P = list(C) + [[.5 * (C[i][k] + C[(i + 1) % 4][k]) for k in (0, 1)] for i in range(4)]
    return P + [[.25 * sum(c[k] for c in C) for k in (0, 1)]]


@CASES("distorted", weight=8, args=[("%d%s" % (k, "-turned%d" % t if t else ""), dict(k=k, t=t)) for k in range(4) for t in range(4)])
def distorted_section(ctx, k, t):
    pts = quad(ctx, (k,), turn=t)
    E, nu, rho = 2.0, .25, 1.5
    K, M = ctx.m.ue.elast_axi_quad9(ctx.farray(pts), (E, nu, rho))
    s = 0
    for i in range(4):
        (x0, y0), (x1, y1) = pts[i], pts[(i + 1) % 4]
        s = s + (x0 + x1) * (x0 * y1 - x1 * y0)
    volume_checks(ctx, pts, K, M, E, nu, rho, 2 * math.pi * s / 6)


@CASES("negative")
def negative(ctx):
    """sections with negative radii at an integration point are rejected"""
    r0 = ctx.real("r0", -3, -.2)
    pts = [[r0 + .5 * (p[0] + 1), p[1]] for p in S2["quad9"]]
    k, v = ctx.outcome(ctx.m.ue.elast_axi_quad9, ctx.farray(pts), (2.0, .3, 1.0))
    ctx.true("rejected", k == "raise" and isinstance(v, ValueError))


@CASES("inverted")
def inverted(ctx):
    pts, J, det, rc = section(ctx)
    order = [1, 0, 3, 2, 4, 7, 6, 5, 8]
    k, v = ctx.outcome(ctx.m.ue.elast_axi_quad9, ctx.farray([pts[i] for i in order]), (2.0, .3, 1.0))
    ctx.true("rejected", k == "raise" and isinstance(v, ValueError))


@CASES("size", weight=3, args=[("solid", dict(inner=False)), ("hollow", dict(inner=True))])
def size(ctx, inner):
    """small and large sections, moduli and densities over orders of magnitude"""
    s, E, rho = ctx.real("s", 1e-2, 1e3), ctx.real("E", 1e-6, 1e12), ctx.real("rho", 1e-6, 1e6)
    r0 = ctx.real("r0", 0, 3) if inner else 0.0
    pts = [[r0 + 1 + p[0] + .25 * (p[1] + 1), 1.5 * p[1] + .25 * p[0]] for p in S2["quad9"]]
    K, M = ctx.m.ue.elast_axi_quad9(ctx.farray([[s * x for x in p] for p in pts]), (E, .3, rho))
    K1, M1 = ctx.m.ue.elast_axi_quad9(ctx.farray(pts), (1.0, .3, 1.0))
    q, r = 1 / (E * s), 1 / (rho * s * s * s)
    ctx.eq("stiffness", [[q * x for x in r_] for r_ in ctx.values(K)], K1, tol=1e-8, scale=1e3)
    ctx.eq("mass", [[r * x for x in r_] for r_ in ctx.values(M)], M1, tol=1e-8, scale=1e3)


@CASES("integers", weight=2)
def integers(ctx):
    """integer coordinates and parameters"""
    k, j = ctx.is_int(ctx.integer("k", 0, 2)), ctx.is_int(ctx.integer("j", 1, 3))
    pts = [[2 + k + 2 * p[0], p[1] * j] for p in S2["quad9"]]
    pts = [[int(round(v)) for v in p] for p in pts]
    f = ctx.m.ue.elast_axi_quad9
    K0, M0 = f(ctx.farray(pts), (float(j), 0.0, 2.0))
    for lab, par in (("list", [j, 0, 2]), ("array", ctx.array([j, 0, 2])), ("tuple", (j, 0, 2))):
        K, M = f(ctx.array(pts), par)
        ctx.eq("stiffness " + lab, K, K0, tol=1e-9, scale=1e3)
        ctx.eq("mass " + lab, M, M0, tol=1e-9, scale=1e3)
