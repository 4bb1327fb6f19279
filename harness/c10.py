"""continuum element stiffness"""
from hlib import *
from elems import *
from refint import *
CASES = Cases()
BOUNDS = ("seven continuum elements; E in [1,10], nu in [-0.5,0.45]; every affine geometry (2-D: 4 parameters plus "
          "translation; 3-D: 5 parameters in 4 families plus translation) in 8 orientations (quarter and oblique turns), and with sizes per direction in [0.02,50], "
          "against exact rational integrals; every shape also at the sizes and places listed in PLACES (elems.py); moduli in [1e-9,1e12] with nu in [-0.97,0.49]; distorted quadrilaterals and "
          "curved elements with one corner (and one mid node) anywhere within +-0.15")
OUTSIDE = "geometries near degeneracy; all-node distortion of quadratic elements and hexahedra"
NPAR = {"tri3": 2, "tri6": 2, "quad4": 2, "quad9": 2, "quad8": 3, "tet4": 3, "hex8": 3}


def material(ctx, fixed=False):
    if fixed:
        return ctx.real("E", 1, 10), .3
    return ctx.real("E", 1, 10), ctx.real("nu", -.5, .45)


def lame(n, E, nu):
    mu = E / (2 * (1 + nu))
    lam = E * nu / (1 - nu * nu) if n in S2 else E * nu / ((1 + nu) * (1 - 2 * nu))
    return lam, mu


def element(ctx, n, pts, E, nu, rho=None, npar=None):
    par = (E, nu) if (npar or NPAR[n]) == 2 else (E, nu, 1.0 if rho is None else rho)
    return getattr(ctx.m.ue, "elast_" + n)(pts, par)


@CASES("exact", weight=5, args=[(n, dict(n=n)) for n in S2] + [("%s-%d" % (n, f), dict(n=n, f=f)) for n in S3 for f in range(4)])
def exact(ctx, n, f=0, turn=0, stretch=False):
    """affine geometry: the exact integral"""
    if stretch:
        pts, J, det = stretched(ctx, n)
    elif n in S2:
        pts, (a, b, c, d), det = affine2(ctx, n, turn=turn)
        J = [[a, b], [c, d]]
    else:
        pts, J, det = affine3(ctx, n, family=f, turn=turn)
    E, nu = material(ctx)
    K, _ = element(ctx, n, ctx.farray(pts), E, nu)
    nd = len(J) * len(pts)
    ctx.true("size", ctx.shape(K) == (nd, nd))
    lam, mu = lame(n, E, nu)
    ref = stiffness_times_det(n, J, lam, mu)
    q = 1 / det
    ctx.eq("stiffness", K, [[q * x for x in r] for r in ref], tol=1e-8, scale=100)
    V = ctx.values(K)
    ctx.eq("symmetric", V, transpose(V), tol=1e-9, scale=100)


@CASES("turned", weight=5, args=[("%s-%d" % (n, t), dict(n=n, t=t)) for n in S2 for t in range(1, 8)]
       + [("%s-%d" % (n, t), dict(n=n, t=t)) for n in S3 for t in range(1, 8)])
def turned(ctx, n, t):
    """the same after quarter and oblique turns"""
    exact(ctx, n, f=t % 4, turn=t)


@CASES("stretched", weight=5, args=[(n, dict(n=n)) for n in NPAR])
def stretch(ctx, n):
    """slender, flat, small and large elements"""
    exact(ctx, n, stretch=True)


@CASES("materials", weight=4, args=[(n, dict(n=n)) for n in NPAR])
def materials(ctx, n):
    """moduli over orders of magnitude, every Poisson ratio"""
    E, nu = ctx.real("E", 1e-9, 1e12), ctx.real("nu", -.97, .49)
    s = ctx.real("s", .25, 4)
    pts = [[s * x + (.2 * p[1] if i == 0 else 0.0) for i, x in enumerate(p)] for p in ALL[n]]
    J = [[s * (i == j) + .2 * (i == 0 and j == 1) for j in range(len(pts[0]))] for i in range(len(pts[0]))]
    K, _ = element(ctx, n, ctx.farray(pts), E, nu)
    lam, mu = lame(n, 1.0, nu)
    ref = stiffness_times_det(n, J, lam, mu)
    q = 1 / (s * s if len(J) == 2 else s * s * s)
    ctx.eq("stiffness", [[x / E for x in r] for r in ctx.values(K)], [[q * x for x in r] for r in ref], tol=1e-8, scale=1e3)


def polygon(P):
    n = len(P)
    return .5 * sum(P[i][0] * P[(i + 1) % n][1] - P[(i + 1) % n][0] * P[i][1] for i in range(n))


def straight(n, corners):
    """mid nodes half way, centre by bilinear interpolation"""
    if n == "quad4":
        return corners
    P = list(corners) + [[.5 * (corners[i][k] + corners[(i + 1) % 4][k]) for k in (0, 1)] for i in range(4)]
    if n == "quad9":
        P.append([.25 * sum(c[k] for c in corners) for k in (0, 1)])
    return P


def rigid(pts):
    dim = len(pts[0])
    out = []
    for i in range(dim):
        out.append([1.0 if j == i else 0.0 for p in pts for j in range(dim)])
    for i in range(dim):
        for j in range(i):
            v = []
            for p in pts:
                w = [0.0] * dim
                w[i], w[j] = p[j], -p[i]
                v += w
            out.append(v)
    return out


def energy_checks(ctx, n, pts, K, E, nu, vol, scale=100):
    V = ctx.values(K)
    dim = len(pts[0])
    ctx.eq("symmetric", V, transpose(V), tol=1e-9, scale=scale)
    for k, v in enumerate(rigid(pts)):
        ctx.eq("rigid motion %d" % k, matvec(V, v), [0.0] * len(v), tol=1e-8, scale=scale)
    lam, mu = lame(n, E, nu)
    ex = [[1.0, 0.0], [0.0, 0.0]]
    # bilinear strain energies of the unit strain states
    states = []
    for i in range(dim):
        for j in range(i, dim):
            G = [[0.0] * dim for _ in range(dim)]
            G[i][j] = 1.0
            states.append(G)
    us = [nodal(pts, G, [0.0] * dim) for G in states]
    Ku = [matvec(V, u) for u in us]
    for a, Ga in enumerate(states):
        for b, Gb in enumerate(states):
            if b < a:
                continue
            ea = [[.5 * (Ga[i][j] + Ga[j][i]) for j in range(dim)] for i in range(dim)]
            eb = [[.5 * (Gb[i][j] + Gb[j][i]) for j in range(dim)] for i in range(dim)]
            tra, trb = sum(ea[i][i] for i in range(dim)), sum(eb[i][i] for i in range(dim))
            dd = sum(ea[i][j] * eb[i][j] for i in range(dim) for j in range(dim))
            w = lam * tra * trb + 2 * mu * dd
            ctx.eq("energy %d-%d" % (a, b), dot(us[b], Ku[a]), w * vol, tol=1e-8, scale=scale)


@CASES("distorted", weight=8, args=[("%s-%d" % (n, k), dict(n=n, k=k)) for n in ("quad4", "quad8", "quad9") for k in (0, 2)])
def distorted_quad(ctx, n, k):
    """straight-sided quadrilaterals with one corner anywhere"""
    C = [[-1.0, -1.0], [1.25, -1.0], [1.0, 1.0], [-1.0, .75]]
    C[k] = [C[k][0] + ctx.real("dx", -.3, .3), C[k][1] + ctx.real("dy", -.3, .3)]
    pts = straight(n, C)
    E, nu = material(ctx)
    K, _ = element(ctx, n, ctx.farray(pts), E, nu)
    energy_checks(ctx, n, pts, K, E, nu, polygon(C))


@CASES("triangle", weight=4, args=[(n, dict(n=n)) for n in ("tri3", "tri6")])
def triangle(ctx, n):
    """any triangle (six coordinates)"""
    C = [[(-1.0, 1.0, 0.0)[i] + ctx.real("x%d" % i, -.3, .3), (0.0, 0.25, 1.5)[i] + ctx.real("y%d" % i, -.3, .3)] for i in range(3)]
    pts = C if n == "tri3" else C + [[.5 * (C[i][k] + C[(i + 1) % 3][k]) for k in (0, 1)] for i in range(3)]
    E, nu = material(ctx)
    K, _ = element(ctx, n, ctx.farray(pts), E, nu)
    energy_checks(ctx, n, pts, K, E, nu, polygon(C))


@CASES("curved", weight=8, args=[(n, dict(n=n)) for n in ("tri6", "quad8", "quad9")])
def curved(ctx, n):
    """one mid node off its side: rigid motions are still stress free, energy of linear fields exact"""
    pts = [list(map(float, p)) for p in ALL[n]]
    k = {"tri6": 4, "quad8": 5, "quad9": 5}[n]
    dx = ctx.real("dx", -.1, .1)
    dy = ctx.real("dy", -.1, .1)
    pts[k] = [pts[k][0] + dx, pts[k][1] + dy]
    E, nu = material(ctx)
    K, _ = element(ctx, n, ctx.farray(pts), E, nu)
    # area: boundary displaced normally: side length * (2/3) * normal offset
    area = {"tri6": .5 + (2 / 3.) * (dx + dy), "quad8": 4 + (4 / 3.) * dx, "quad9": 4 + (4 / 3.) * dx}[n]
    energy_checks(ctx, n, pts, K, E, nu, area)


@CASES("hexahedron", weight=9, args=[(str(k), dict(k=k)) for k in (0, 3, 6)])
def hexahedron(ctx, k):
    pts = [list(map(float, p)) for p in ALL["hex8"]]
    pts[k] = [pts[k][i] + ctx.real("d%d" % i, -.2, .2) if i < 2 else pts[k][i] for i in range(3)]
    E, nu = material(ctx, fixed=True)
    K, _ = element(ctx, "hex8", ctx.farray(pts), E, nu)
    # volume: 2x2x2 rule on the trilinear map (exact: degree <= 2 per direction)
    g = 3 ** -.5
    dN = [[pdiff(f, d) for f in shapes("hex8")] for d in range(3)]
    vol = 0
    for r in (-g, g):
        for s in (-g, g):
            for t in (-g, g):
                J = [[sum(peval(dN[i][a], (r, s, t)) * pts[a][j] for a in range(8)) for j in range(3)] for i in range(3)]
                vol = vol + det3(J)
    energy_checks(ctx, "hex8", pts, K, E, nu, vol, scale=100)


@CASES("gauss", weight=8, args=[("quad4", dict(n="quad4", order=2)), ("quad4-all", dict(n="quad4", order=2, full=True)), ("quad8", dict(n="quad8", order=3)), ("quad9", dict(n="quad9", order=3))])
def gauss(ctx, n, order, full=False):
    """distorted quadrilaterals: the documented Gauss sum (2x2 and 3x3)"""
    C = [[-1.0, -1.0], [1.0, -1.25], [1.0 + ctx.real("dx", -.3, .3), 1.0 + ctx.real("dy", -.3, .3)], [-1.0, 1.0]]
    pts = distorted(ctx, n, .15) if full else straight(n, C)
    E, nu = ctx.real("E", 1, 10), .25
    K, _ = element(ctx, n, ctx.farray(pts), E, nu)
    g2, g3 = 0.577350269189625764, 0.774596669241483377
    w5, w8 = 0.555555555555555556, 0.888888888888888889
    rule = {2: [(-g2, 1.0), (g2, 1.0)], 3: [(-g3, w5), (0.0, w8), (g3, w5)]}[order]
    lam, mu = lame(n, E, nu)
    nn = len(pts)
    dN = [[pdiff(f, d) for f in shapes(n)] for d in range(2)]
    ref = zeros(2 * nn, 2 * nn)
    for r, wr in rule:
        for s, ws in rule:
            D = [[peval(f, (r, s)) for f in q] for q in dN]
            J = [[dot(D[i], [p[j] for p in pts]) for j in range(2)] for i in range(2)]
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            g = [[(J[1][1] * D[0][a] - J[0][1] * D[1][a]) for a in range(nn)],
                 [(-J[1][0] * D[0][a] + J[0][0] * D[1][a]) for a in range(nn)]]
            w = wr * ws * (1 / det)
            for a in range(nn):
                for b in range(nn):
                    gg = [[g[i][a] * g[j][b] for j in range(2)] for i in range(2)]
                    tr = gg[0][0] + gg[1][1]
                    for i in range(2):
                        for j in range(2):
                            v = lam * gg[i][j] + mu * gg[j][i] + (mu * tr if i == j else 0)
                            ref[2 * a + i][2 * b + j] = ref[2 * a + i][2 * b + j] + v * w
    ctx.eq("stiffness", K, ref, tol=1e-8, scale=100)


@CASES("size", weight=4, args=[(n, dict(n=n)) for n in NPAR])
def size(ctx, n):
    """scaling: 2-D stiffness does not depend on size, 3-D is proportional to it; linear in the modulus; very small and large elements"""
    s = ctx.real("s", .02, 200)
    E = ctx.real("E", 1, 10)
    K, _ = element(ctx, n, ctx.farray([[s * x for x in p] for p in ALL[n]]), E, .3)
    K1, _ = element(ctx, n, ctx.farray([list(map(float, p)) for p in ALL[n]]), 1.0, .3)
    f = E if n in S2 else E * s
    ctx.eq("scaling", K, [[f * x for x in r] for r in ctx.values(K1)], tol=1e-8, scale=f)


@CASES("integer-input", weight=3, args=[(n, dict(n=n)) for n in NPAR])
def integer_input(ctx, n):
    """integer coordinates, integer parameters and 2/3 parameters in lists, tuples and arrays"""
    k = ctx.is_int(ctx.integer("k", 1, 2))
    pts = [[2 * k * int(round(2 * x)) for x in p] for p in ALL[n]]
    K0, M0 = element(ctx, n, ctx.farray(pts), 3.0, .25, rho=2.0, npar=3)
    f = getattr(ctx.m.ue, "elast_" + n)
    for lab, par in (("list", [3, .25, 2]), ("array", ctx.farray([3, .25, 2])), ("tuple", (3, .25, 2))):
        K, M = f(ctx.array(pts), par)
        ctx.eq("stiffness " + lab, K, K0, tol=1e-9, scale=100)
        ctx.eq("mass " + lab, M, M0, tol=1e-9, scale=100)
    if NPAR[n] == 2:
        K, M = f(ctx.array(pts), [3, .25])
        ctx.eq("two parameters", K, K0, scale=100)
        ctx.eq("default density", [[2 * x for x in r] for r in ctx.values(M)], M0, scale=100)


@CASES("scale", weight=2, args=PLACES)
def scale(ctx, n, s, far):
    """elements of any size and place"""
    pts, f = placed(ctx, n, s, far)
    E = ctx.real("E", 1, 10)
    K, _ = element(ctx, n, ctx.farray(pts), E, .25)
    K1, _ = element(ctx, n, ctx.farray([[p[0] + .25 * p[1]] + [float(x) for x in p[1:]] for p in ALL[n]]), 1.0, .25)
    q = 1.0 if n in S2 else s
    g = E if n in S2 else E * f
    ctx.eq("stiffness", [[x / q for x in r] for r in ctx.values(K)], [[g * x for x in r] for r in ctx.values(K1)], tol=1e-6)
