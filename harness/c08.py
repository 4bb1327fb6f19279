"""strain-displacement operators"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("every evaluation point in [-1,1]^d (or the reference simplex box), every affine field with coefficients in [-1,1]; "
          "geometry: all affine maps (2-D: 6 parameters; 3-D: 9 parameters in 4 families), quadrilaterals with all 8 "
          "coordinates moved +-0.15, the seven shapes at the sizes and places of PLACES (elems.py), triangles with any 3 corners and hexahedra with two nodes moved; integer coordinates and displacements in the strain recovery")
OUTSIDE = "geometries whose Jacobian is near zero; full 24-parameter distorted hexahedra"


def point(ctx, dim):
    return [ctx.real("r%d" % i, -1, 1) for i in range(dim)]


def check2(ctx, n, pts, p, scale=1):
    G, c = affine_field(ctx)
    H, B, det = ctx.m.fem.elast_diff_2d(p[0], p[1], ctx.farray(pts), getattr(ctx.m.fem, "shape_" + n))
    nn = len(pts)
    ctx.true("sizes", ctx.shape(H) == (2, 2 * nn) and ctx.shape(B) == (3, 2 * nn))
    u = nodal(pts, G, c)
    ctx.eq("strain", matvec(ctx.values(B), u), strain(G), scale=scale)
    N, dN = getattr(ctx.m.fem, "shape_" + n)(p[0], p[1])
    N, dN = ctx.values(N), ctx.values(dN)
    X = [dot(N, [q[i] for q in pts]) for i in range(2)]
    ctx.eq("displacement", matvec(ctx.values(H), u), [G[i][0] * X[0] + G[i][1] * X[1] + c[i] for i in range(2)], scale=scale)
    J = [[dot(dN[i], [q[j] for q in pts]) for j in range(2)] for i in range(2)]
    ctx.eq("determinant", det, J[0][0] * J[1][1] - J[0][1] * J[1][0], scale=scale)
    # row structure: direct strains read one component only, shear both
    H = ctx.values(H)
    for i in range(2):
        ctx.eq("H row %d" % i, H[i], [N[k] if q == i else 0.0 for k in range(nn) for q in range(2)])


@CASES("affine-2d", weight=4, args=[(n, dict(n=n)) for n in S2] + [("%s-turned%d" % (n, t), dict(n=n, turn=t)) for n in S2 for t in range(1, 8)])
def affine_2d(ctx, n, turn=0):
    pts, J, d = affine2(ctx, n, turn=turn)
    check2(ctx, n, pts, point(ctx, 2))


@CASES("stretched", weight=4, args=[(n, dict(n=n)) for n in ALL])
def stretched_shape(ctx, n):
    """slender, flat, small and large elements"""
    pts, J, d = stretched(ctx, n)
    if n in S2:
        check2(ctx, n, pts, point(ctx, 2), scale=100)
    else:
        check3(ctx, n, pts, point(ctx, 3), scale=1e4)


@CASES("distorted-quad4", weight=6, args=[("centre", dict(p=(0.0, 0.0))), ("any", dict(p=None)),
                                          ("gauss", dict(p=(-.5773502691896257, .5773502691896257)))])
def distorted_quad4(ctx, p):
    pts = distorted(ctx, "quad4", .15)
    check2(ctx, "quad4", pts, list(p) if p else point(ctx, 2))


@CASES("distorted-quadratic", weight=6, args=[(n, dict(n=n)) for n in ("tri6", "quad8", "quad9")])
def distorted_quadratic(ctx, n):
    """curved sides (one corner and one mid node moved); isoparametric elements still reproduce affine fields"""
    pts = distorted(ctx, n, .08, nodes=(1, {"tri6": 4, "quad8": 6, "quad9": 6}[n]))
    p = [.25, .375]
    check2(ctx, n, pts, p)


@CASES("triangle-any", weight=2)
def triangle_any(ctx):
    X = [[ctx.real("X%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(3)]
    d = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1])
    ctx.assume(d > 1e-3)
    check2(ctx, "tri3", X, point(ctx, 2))


QUAD = [(2, 0), (1, 1), (0, 2)]


@CASES("quadratic-2d", weight=5, args=[(n, dict(n=n)) for n in ("tri6", "quad8", "quad9")])
def quadratic_2d(ctx, n):
    """quadratic fields on affine geometry"""
    pts, J, d = affine2(ctx, n, shift=False)
    p = point(ctx, 2)
    q = [[ctx.real("q%d%d" % (i, k), -1, 1) for k in range(3)] for i in range(2)]

    def val(i, X):
        return q[i][0] * X[0] * X[0] + q[i][1] * X[0] * X[1] + q[i][2] * X[1] * X[1]

    def grad(i, X):
        return [2 * q[i][0] * X[0] + q[i][1] * X[1], q[i][1] * X[0] + 2 * q[i][2] * X[1]]
    H, B, det = ctx.m.fem.elast_diff_2d(p[0], p[1], ctx.farray(pts), getattr(ctx.m.fem, "shape_" + n))
    u = [val(i, X) for X in pts for i in range(2)]
    X = [J[0] * p[0] + J[1] * p[1], J[2] * p[0] + J[3] * p[1]]
    g = [grad(0, X), grad(1, X)]
    ctx.eq("strain", matvec(ctx.values(B), u), strain(g))
    ctx.eq("displacement", matvec(ctx.values(H), u), [val(0, X), val(1, X)])


def check3(ctx, n, pts, p, default=False, scale=1):
    G, c = affine_field(ctx, 3)
    fem = ctx.m.fem
    args = () if default else (getattr(fem, "shape_" + n),)
    H, B, det = fem.elast_diff_3d(p[0], p[1], p[2], ctx.farray(pts), *args)
    nn = len(pts)
    ctx.true("sizes", ctx.shape(H) == (3, 3 * nn) and ctx.shape(B) == (6, 3 * nn))
    u = nodal(pts, G, c)
    ctx.eq("strain", matvec(ctx.values(B), u), strain(G), scale=scale)
    N, dN = getattr(fem, "shape_" + n)(*p)
    N, dN = ctx.values(N), ctx.values(dN)
    H = ctx.values(H)
    for i in range(3):
        ctx.eq("H row %d" % i, H[i], [N[k] if q == i else 0.0 for k in range(nn) for q in range(3)])
    J = [[dot(dN[i], [q[j] for q in pts]) for j in range(3)] for i in range(3)]
    ctx.eq("determinant", det, det3(J), scale=scale)


@CASES("affine-3d", weight=6, args=[("%s-%d" % (n, f), dict(n=n, f=f)) for n in S3 for f in range(4)]
       + [("%s-turned%d" % (n, t), dict(n=n, f=t % 4, turn=t)) for n in S3 for t in range(1, 8)])
def affine_3d(ctx, n, f, turn=0):
    pts, J, d = affine3(ctx, n, family=f, turn=turn)
    check3(ctx, n, pts, point(ctx, 3), default=(n == "hex8" and f == 0))


@CASES("distorted-hex8", weight=6, args=[("one", dict(nodes=(6,), sym=True)), ("two", dict(nodes=(1, 6))),
                                         ("three", dict(nodes=(0, 3, 5))), ("five", dict(nodes=(0, 2, 3, 5, 7), sym=False))])
def distorted_hex8(ctx, nodes, sym=False):
    pts = distorted(ctx, "hex8", .15, nodes=nodes)
    check3(ctx, "hex8", pts, [ctx.real("r0", -1, 1) if sym else -.125, .25, -.5])


@CASES("axisymmetric-small", weight=6, args=[(n, dict(n=n)) for n in ("quad9", "quad4", "tri3")])
def axisymmetric_small(ctx, n):
    """small sections next to the axis"""
    q = ctx.real("q", 1e-3, 1)
    s = [q, q * ctx.real("ratio", .1, 10)]
    r0, z0 = ctx.real("r0", 0, 3), ctx.real("z0", -2, 2)
    b = ctx.real("b", 0, .4)
    lo = 1.0 if n[0] == "q" else 0.0
    pts = [[s[0] * (p[0] + lo + b * (p[1] + lo) + r0), s[1] * p[1] + z0] for p in ALL[n]]
    p = [ctx.real("r0p", -.9, 1), ctx.real("r1p", -1, 1)] if n[0] == "q" else [ctx.real("r0p", .1, 1), ctx.real("r1p", 0, 1)]
    J = [s[0], s[0] * b, 0.0, s[1]]
    axi(ctx, n, pts, p, J, s[0] * (lo + b * lo + r0), z0, s[0] * s[1], scale=1e3)


@CASES("axisymmetric", weight=6, args=[("%s-turned%d" % (n, t) if t else n, dict(n=n, turn=t)) for n in ("quad9", "quad4", "tri3") for t in range(8)])
def axisymmetric(ctx, n, turn=0):
    pts, J, d = affine2(ctx, n, shift=False, turn=turn)
    x0 = ctx.real("x0", 4 if turn else 2.5, 6)
    z0 = ctx.real("z0", -2, 2)
    pts = [[p[0] + x0, p[1] + z0] for p in pts]
    axi(ctx, n, pts, point(ctx, 2), J, x0, z0, d)


def axi(ctx, n, pts, p, J, x0, z0, d, scale=1):
    G, c = affine_field(ctx)
    H, B, det = ctx.m.fem.elast_diff_axi(p[0], p[1], ctx.farray(pts), getattr(ctx.m.fem, "shape_" + n))
    ctx.true("sizes", ctx.shape(H) == (2, 2 * len(pts)) and ctx.shape(B) == (4, 2 * len(pts)))
    u = nodal(pts, G, c)
    X = [J[0] * p[0] + J[1] * p[1] + x0, J[2] * p[0] + J[3] * p[1] + z0]
    disp = [G[i][0] * X[0] + G[i][1] * X[1] + c[i] for i in range(2)]
    e = matvec(ctx.values(B), u)
    ctx.eq("in-plane strain", e[:3], strain(G), scale=scale)
    ctx.eq("hoop strain", e[3] * X[0], disp[0])
    ctx.eq("displacement", matvec(ctx.values(H), u), disp)
    ctx.eq("determinant", det, d)


@CASES("axisymmetric-radius", weight=2)
def radius(ctx):
    """negative radii are rejected, positive ones are not"""
    x0 = ctx.real("x0", -3, 3)
    r = ctx.real("r", -1, 1)
    pts = [[p[0] + x0, p[1]] for p in ALL["quad4"]]
    k, v = ctx.outcome(ctx.m.fem.elast_diff_axi, r, 0.25, ctx.farray(pts), ctx.m.fem.shape_quad4)
    X = x0 + r
    if k == "ok":
        ctx.le("accepted only for non-negative radius", -1e-9, X)
    else:
        ctx.le("rejected only for negative radius", X, 1e-9)


@CASES("axisymmetric-side", weight=3, args=[("%s-%d" % (n, k), dict(n=n, k=k)) for n, m in (("quad4", 4), ("quad9", 4), ("tri3", 3)) for k in range(m)])
def side(ctx, n, k):
    """the radius of the point itself decides, whatever the first node's"""
    m = 4 if n[0] == "q" else 3
    base = list(ALL[n])
    rot = base[k:m] + base[:k]
    if n == "quad9":
        rot = rot + [base[4 + (k + i) % 4] for i in range(4)] + [base[8]]
    x0 = ctx.real("x0", -3, 3)
    a = ctx.real("a", .5, 2)
    pts = [[a * p[0] + x0, p[1]] for p in rot]
    p = [ctx.real("r", -1, 1), .25] if m == 4 else [ctx.real("r", 0, .75), .25]
    H = ctx.values(getattr(ctx.m.fem, "shape_" + n)(p[0], p[1])[0])
    X = dot(H, [q[0] for q in pts])
    kk, v = ctx.outcome(ctx.m.fem.elast_diff_axi, p[0], p[1], ctx.farray(pts), getattr(ctx.m.fem, "shape_" + n))
    if kk == "ok":
        ctx.le("accepted only for non-negative radius", -1e-9, X)
        if bool(X > 1e-3):
            ctx.eq("hoop", [q * X for q in ctx.values(v[1])[3][::2]], H)
    else:
        ctx.le("rejected only for negative radius", X, 1e-9)


@CASES("scale", weight=2, args=PLACES)
def scale(ctx, n, s, far):
    """elements of any size and place"""
    pts, f = placed(ctx, n, s, far)
    dim = len(pts[0])
    p = [.25, .375, .125][:dim]
    p[1] = ctx.real("p1", -.5, .5)
    G, c = affine_field(ctx, dim)
    o = [far * w * s for w in (1.0, -.375, .75)]
    u = [dot(G[i], [(x - o[j]) / s for j, x in enumerate(q)]) + c[i] for q in pts for i in range(dim)]
    H, B, det = getattr(ctx.m.fem, "elast_diff_%dd" % dim)(*p, ctx.farray(pts), getattr(ctx.m.fem, "shape_" + n))
    ctx.eq("strain", [s * x for x in matvec(ctx.values(B), u)], strain(G), tol=1e-6)
    ctx.eq("determinant", det / s ** dim, {"t": 1.0, "q": 1.0, "h": 1.0}[n[0]] * f ** dim, tol=1e-6)


@CASES("integers", weight=2, args=[(n, dict(n=n)) for n in ("tri3", "tri6", "quad4")])
def integers(ctx, n):
    """integer coordinates and displacements in the recovery of strains"""
    k = ctx.is_int(ctx.integer("k", -1, 2))
    pts = [[4 * int(round(2 * x)) for x in p] for p in ALL[n]]
    u = [(k * i + i * i) % 5 - 2 for i in range(2 * len(pts))]
    f = getattr(ctx.m.fem, "str_el" + n[-1])
    e0, x0 = f(ctx.farray(pts), ctx.farray(u))
    for lab, X, U in (("coordinates", ctx.array(pts), ctx.farray(u)), ("displacements", ctx.farray(pts), ctx.array(u)), ("both", ctx.array(pts), ctx.array(u))):
        e, x = f(X, U)
        ctx.eq("strain, integer " + lab, e, e0, scale=10)
        ctx.eq("points, integer " + lab, x, x0, scale=10)
    g = [[1, 2], [-1, 3]]
    v = [g[c][0] * p[0] + g[c][1] * p[1] for p in pts for c in range(2)]
    e, x = f(ctx.array(pts), ctx.array(v))
    ctx.eq("affine", e, [[1.0, 3.0, 1.0]] * (ctx.shape(e)[0]), scale=10)
