"""element mass matrices"""
from hlib import *
from elems import *
from refint import *
import members
CASES = Cases()
BOUNDS = ("seven continuum elements: every affine geometry (2-D: 4 parameters and translation; 3-D: 5 parameters in 4 families and translation) in 8 orientations and with sizes per direction in [0.02,50], "
          "every corner of straight-sided quadrilaterals and every node of hexahedra and quad4 anywhere within the stated boxes, curved sides; density in [0.1,10], zero or absent; every shape also at the sizes and places listed in PLACES (elems.py); "
          "members: every orientation, length in [0.5,4]")
OUTSIDE = "nearly degenerate geometries; positive semidefiniteness follows from the Gauss sum with positive weights and determinants, which is what is decided"
NPAR = {"tri3": 2, "tri6": 2, "quad4": 2, "quad9": 2, "quad8": 3, "tet4": 3, "hex8": 3}
G2, G3 = 0.577350269189625764, 0.774596669241483377
RULE = {2: [(-G2, 1.0), (G2, 1.0)], 3: [(-G3, 0.555555555555555556), (0.0, 0.888888888888888889), (G3, 0.555555555555555556)]}


def mass(ctx, n, pts, rho, E=2.0, nu=.3):
    par = (E, nu) if rho is None else (E, nu, rho)
    K, M = getattr(ctx.m.ue, "elast_" + n)(ctx.farray(pts), par)
    return M


def density(ctx):
    return ctx.real("rho", .1, 10)


@CASES("exact", weight=3, args=[(n, dict(n=n)) for n in S2] + [("%s-%d" % (n, f), dict(n=n, f=f)) for n in S3 for f in range(4)]
       + [("%s-turned%d" % (n, t), dict(n=n, f=t % 4, turn=t)) for n in ALL for t in range(1, 8)] + [(n + "-stretched", dict(n=n, stretch=True)) for n in ALL])
def exact(ctx, n, f=0, turn=0, stretch=False):
    """affine geometry: the exact consistent matrix"""
    if stretch:
        pts, J, det = stretched(ctx, n)
    elif n in S2:
        pts, J, det = affine2(ctx, n, turn=turn)
    else:
        pts, J, det = affine3(ctx, n, family=f, turn=turn)
    rho = density(ctx)
    M = mass(ctx, n, pts, rho)
    nd = len(pts[0]) * len(pts)
    ctx.true("size", ctx.shape(M) == (nd, nd))
    if stretch:
        q = 1 / det
        ctx.eq("consistent", [[q * x for x in r] for r in ctx.values(M)], mass_matrix(n, 1.0, rho), tol=1e-8, scale=100)
    else:
        ctx.eq("consistent", M, mass_matrix(n, det, rho), tol=1e-8, scale=100)


def gauss_mass(n, pts, order, rho):
    """documented Gauss sum; also the determinants"""
    dim = len(pts[0])
    N = shapes(n)
    dN = [[pdiff(f, d) for f in N] for d in range(dim)]
    nn = len(pts)
    m = zeros(nn, nn)
    dets = []
    grid = [((), 1.0)]
    for _ in range(dim):
        grid = [(p + (r,), w * v) for p, w in grid for r, v in RULE[order]]
    for p, w in grid:
        H = [peval(f, p) for f in N]
        D = [[peval(f, p) for f in q] for q in dN]
        J = [[dot(D[i], [x[j] for x in pts]) for j in range(dim)] for i in range(dim)]
        det = J[0][0] * J[1][1] - J[0][1] * J[1][0] if dim == 2 else det3(J)
        dets.append(det)
        for a in range(nn):
            for b in range(nn):
                m[a][b] = m[a][b] + (rho * w * H[a] * H[b]) * det
    M = zeros(dim * nn, dim * nn)
    for a in range(nn):
        for b in range(nn):
            for d in range(dim):
                M[dim * a + d][dim * b + d] = m[a][b]
    return M, dets


def straight(n, corners):
    if n == "quad4":
        return corners
    P = list(corners) + [[.5 * (corners[i][k] + corners[(i + 1) % 4][k]) for k in (0, 1)] for i in range(4)]
    if n == "quad9":
        P.append([.25 * sum(c[k] for c in corners) for k in (0, 1)])
    return P


@CASES("quad", weight=6, args=[(n, dict(n=n)) for n in ("quad4", "quad8", "quad9")])
def quad(ctx, n):
    """any quadrilateral (eight coordinates)"""
    C = [[x + ctx.real("x%d" % i, -.2, .2), y + ctx.real("y%d" % i, -.2, .2)] for i, (x, y) in enumerate(S2["quad4"])]
    pts = straight(n, C)
    rho = density(ctx)
    M = mass(ctx, n, pts, rho)
    ref, dets = gauss_mass(n, pts, 2 if n == "quad4" else 3, rho)
    ctx.eq("gauss sum", M, ref, tol=1e-8, scale=100)
    ctx.le("positive weights", [0.0] * len(dets), dets)
    total(ctx, n, M, rho, .5 * sum(C[i][0] * C[(i + 1) % 4][1] - C[(i + 1) % 4][0] * C[i][1] for i in range(4)))


def total(ctx, n, M, rho, vol):
    V = ctx.values(M)
    dim = len(ALL[n][0])
    nn = len(ALL[n])
    for d in range(dim):
        for e in range(dim):
            s = 0
            for a in range(nn):
                for b in range(nn):
                    s = s + V[dim * a + d][dim * b + e]
            ctx.eq("total %d%d" % (d, e), s, rho * vol if d == e else 0.0, tol=1e-8, scale=100)
    ctx.eq("symmetric", V, transpose(V), tol=1e-9, scale=100)
    ctx.le("diagonal", [0.0] * len(V), [V[i][i] for i in range(len(V))])


@CASES("curved", weight=5, args=[(n, dict(n=n)) for n in ("tri6", "quad8", "quad9")])
def curved(ctx, n):
    pts = [list(map(float, p)) for p in ALL[n]]
    k = {"tri6": 4, "quad8": 5, "quad9": 5}[n]
    dx, dy = ctx.real("dx", -.1, .1), ctx.real("dy", -.1, .1)
    pts[k] = [pts[k][0] + dx, pts[k][1] + dy]
    rho = density(ctx)
    M = mass(ctx, n, pts, rho)
    area = {"tri6": .5 + (2 / 3.) * (dx + dy), "quad8": 4 + (4 / 3.) * dx, "quad9": 4 + (4 / 3.) * dx}[n]
    total(ctx, n, M, rho, area)


@CASES("hexahedron", weight=8, args=[("a", dict(nodes=(0, 6))), ("b", dict(nodes=(2, 4))), ("c", dict(nodes=(3, 5))), ("d", dict(nodes=(1, 7)))])
def hexahedron(ctx, nodes):
    pts = distorted(ctx, "hex8", .15, nodes=nodes)
    rho = 1.5
    M = mass(ctx, "hex8", pts, rho)
    ref, dets = gauss_mass("hex8", pts, 2, rho)
    ctx.eq("gauss sum", M, ref, tol=1e-8, scale=100)
    V = ctx.values(M)
    ctx.eq("total", sum(V[3 * a][3 * b] for a in range(8) for b in range(8)), rho * sum(dets), tol=1e-8, scale=100)


@CASES("tetrahedron", weight=3, args=[("any", dict(moving=4)), ("fixed-corner", dict(moving=3)), ("one-face", dict(moving=1))])
def tetrahedron(ctx, moving):
    """any tetrahedron (twelve coordinates; nine and three as cheaper variants)"""
    pts = [[(0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0)[3 * i + j] + (ctx.real("x%d%d" % (i, j), -.07, .07) if i >= 4 - moving else .0625 * (i + 2 * j - 2)) for j in range(3)] for i in range(4)]
    rho = density(ctx)
    M = mass(ctx, "tet4", pts, rho)
    J = [[pts[i + 1][j] - pts[0][j] for j in range(3)] for i in range(3)]
    ctx.eq("consistent", M, mass_matrix("tet4", det3(J), rho), tol=1e-8, scale=100)


@CASES("material", weight=2, args=[(n, dict(n=n)) for n in NPAR])
def material(ctx, n):
    """the mass depends on the density alone; size range"""
    s = ctx.real("s", .02, 100)
    rho = density(ctx)
    E, nu = ctx.real("E", .1, 100), ctx.real("nu", -.9, .49)
    pts = [[s * x for x in p] for p in ALL[n]]
    M = mass(ctx, n, pts, rho, E, nu)
    dim = len(pts[0])
    q = s * s if dim == 2 else s * s * s
    iq = 1 / q
    unit = lambda A: [[iq * x for x in r] for r in ctx.values(A)]
    ctx.eq("scaling", unit(M), mass_matrix(n, 1.0, rho), tol=1e-8, scale=100)
    if NPAR[n] == 2:
        ctx.eq("default density", unit(mass(ctx, n, pts, None, E, nu)), mass_matrix(n, 1.0, 1.0), tol=1e-8, scale=100)


@CASES("member", weight=2, args=[(k, dict(kind=k)) for k in ("truss2D", "beam2DU", "beam2D")])
def member(ctx, kind):
    pts, L, c, s = members.member(ctx)
    E, I, A, rho = (ctx.real(k, .1, 10) for k in ("E", "I", "A", "rho"))
    par = {"truss2D": [E, A, rho], "beam2DU": [E, I, rho, A], "beam2D": [E, I, A, rho]}[kind]
    _, M = getattr(ctx.m.ue, kind)(ctx.farray(pts), par)
    V = ctx.values(M)
    m = rho * A * L
    nd = 2 if kind == "truss2D" else 3
    ctx.true("size", ctx.shape(M) == (2 * nd, 2 * nd))
    dirs = {"x": [1.0, 0.0] + [0.0] * (nd - 2), "y": [0.0, 1.0] + [0.0] * (nd - 2)}
    if kind == "beam2DU":
        dirs = {"transverse": [-s, c, 0.0]}
        ctx.eq("no axial mass", matvec(V, [c, s, 0.0] * 2), [0.0] * 6, scale=100)
    for a, u in dirs.items():
        for b, v in dirs.items():
            ctx.eq("total %s%s" % (a, b), quadform(u * 2, V, v * 2), m if a == b else 0.0, scale=1e3)
    ctx.eq("symmetric", V, transpose(V), scale=1e3)
    if kind == "truss2D":
        n = 2
        ax = members.axial_mass(L, rho * A)
        ctx.eq("consistent", V, [[ax[i // 2][j // 2] if i % 2 == j % 2 else 0.0 for j in range(4)] for i in range(4)], scale=100)
    else:
        parts = [(members.bending_mass(L, rho * A), members.t_bending(c, s))]
        if kind == "beam2D":
            parts.append((members.axial_mass(L, rho * A), members.t_axial(c, s, 3)))
        ctx.eq("consistent", V, members.embed(6, parts), scale=1e3)
    if kind != "beam2DU":
        ctx.le("diagonal", [0.0] * (2 * nd), [V[i][i] for i in range(2 * nd)])


@CASES("scale", weight=2, args=PLACES)
def scale(ctx, n, s, far):
    """elements of any size and place, massless ones included"""
    pts, f = placed(ctx, n, s, far)
    rho = ctx.real("rho", 0, 10)
    M = mass(ctx, n, pts, rho)
    q = s ** len(pts[0])
    ctx.eq("mass", [[x / q for x in r] for r in ctx.values(M)], mass_matrix(n, f ** len(pts[0]), rho), tol=1e-6)


@CASES("massless", args=[(k, dict(kind=k)) for k in ("truss2D", "beam2DU", "beam2D")] + [(k, dict(kind=k)) for k in NPAR])
def massless(ctx, kind):
    """density zero is a density"""
    E, I, A = (ctx.real(k, .1, 10) for k in ("E", "I", "A"))
    z = 0.0
    if kind in NPAR:
        M = mass(ctx, kind, [list(map(float, p)) for p in ALL[kind]], z, E)
    else:
        par = {"truss2D": [E, A, z], "beam2DU": [E, I, z, A], "beam2D": [E, I, A, z]}[kind]
        _, M = getattr(ctx.m.ue, kind)(ctx.farray([[0.0, 0.0], [3.0, 4.0]]), par if ctx.choice("list", [0, 1]) else ctx.farray(par))
    V = ctx.values(M)
    ctx.eq("no mass", V, [[0.0] * len(V)] * len(V))
