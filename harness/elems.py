"""reference data of the element shapes (shared by several harnesses)"""
S2 = {
    "tri3": [(0, 0), (1, 0), (0, 1)],
    "tri6": [(0, 0), (1, 0), (0, 1), (.5, 0), (.5, .5), (0, .5)],
    "quad4": [(-1, -1), (1, -1), (1, 1), (-1, 1)],
    "quad8": [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)],
    "quad9": [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0), (0, 0)],
}
S3 = {
    "tet4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hex8": [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
             (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
}
ALL = dict(S2, **S3)
REFVOL = {"tri3": .5, "tri6": .5, "quad4": 4., "quad8": 4., "quad9": 4., "tet4": 1 / 6., "hex8": 8.}


# proper rotations: quarter turns and oblique ones (exact rational cosines)
TURN2 = {0: (1, 0, 0, 1), 1: (0, -1, 1, 0), 2: (-1, 0, 0, -1), 3: (0, 1, -1, 0),
         4: (.28, -.96, .96, .28), 5: (-.8, -.6, .6, -.8), 6: (-.28, .96, -.96, -.28), 7: (.6, .8, -.8, .6)}
TURN3 = {0: ((1, 0, 0), (0, 1, 0), (0, 0, 1)), 1: ((0, 0, 1), (1, 0, 0), (0, 1, 0)), 2: ((-1, 0, 0), (0, -1, 0), (0, 0, 1)),
         3: ((0, -1, 0), (0, 0, 1), (-1, 0, 0)), 4: ((0, 0, -1), (0, 1, 0), (1, 0, 0)), 5: ((-.8, -.6, 0), (.6, -.8, 0), (0, 0, 1)),
         6: ((.28, 0, -.96), (0, 1, 0), (.96, 0, .28)), 7: ((1, 0, 0), (0, -1, 0), (0, 0, -1))}


def affine2(ctx, shape, tag="", shift=True, shear=True, turn=0):
    """nodes of the shape under a symbolic affine map with positive determinant, then turned"""
    a = ctx.real(tag + "Ja", .5, 2)
    d = ctx.real(tag + "Jd", .5, 2)
    b = ctx.real(tag + "Jb", -.4, .4) if shear else 0.0
    c = ctx.real(tag + "Jc", -.4, .4) if shear else 0.0
    x0 = ctx.real(tag + "x0", -3, 3) if shift else 0.0
    y0 = ctx.real(tag + "y0", -3, 3) if shift else 0.0
    det = a * d - b * c
    if turn:
        p, q, r, s = TURN2[turn]
        a, b, c, d = p * a + q * c, p * b + q * d, r * a + s * c, r * b + s * d
    pts = [[a * p[0] + b * p[1] + x0, c * p[0] + d * p[1] + y0] for p in ALL[shape]]
    return pts, (a, b, c, d), det


def affine3(ctx, shape, tag="", family=0, shift=True, turn=0):
    """3-D affine maps: diagonal plus two symbolic off-diagonal entries (family selects which), then turned"""
    J = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        J[i][i] = ctx.real(tag + "J%d%d" % (i, i), .5, 2)
    off = [((0, 1), (2, 0)), ((1, 2), (1, 0)), ((2, 1), (0, 2)), ((0, 1), (1, 0))][family]
    for (i, j) in off:
        J[i][j] = ctx.real(tag + "J%d%d" % (i, j), -.3, .3)
    x0 = [ctx.real(tag + "x%d" % i, -3, 3) if shift else 0.0 for i in range(3)]
    det = det3(J)
    if turn:
        R = TURN3[turn]
        J = [[sum(R[i][k] * J[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    pts = [[sum(J[i][j] * p[j] for j in range(3)) + x0[i] for i in range(3)] for p in ALL[shape]]
    return pts, J, det


def stretched(ctx, shape, lo=.02, hi=50, shift=True):
    """slender, flat, small and large elements: sizes per direction over orders of magnitude, sheared"""
    dim = len(ALL[shape][0])
    s = [ctx.real("s%d" % i, lo, hi) for i in range(dim)]
    b, c = ctx.real("b", -.4, .4), ctx.real("c", -.4, .4)
    J = [[1.0 * (i == j) for j in range(dim)] for i in range(dim)]
    J[0][1], J[dim - 1][0] = b, c
    J = [[s[i] * v for v in J[i]] for i in range(dim)]
    x0 = [ctx.real("x%d" % i, -3, 3) if shift else 0.0 for i in range(dim)]
    pts = [[sum(J[i][j] * p[j] for j in range(dim)) + x0[i] for i in range(dim)] for p in ALL[shape]]
    det = J[0][0] * J[1][1] - J[0][1] * J[1][0] if dim == 2 else det3(J)
    return pts, J, det


def det3(J):
    return (J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1])
            - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0])
            + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]))


def distorted(ctx, shape, eps=.15, tag="q", nodes=None, size=1.0):
    """every node (or the listed ones) moved within +-eps in each direction"""
    pts = []
    for i, p in enumerate(ALL[shape]):
        if nodes is None or i in nodes:
            pts.append([size * x + ctx.real("%s%d%s" % (tag, i, "xyz"[k]), -eps, eps) for k, x in enumerate(p)])
        else:
            pts.append([size * x for x in p])
    return pts


def affine_field(ctx, dim=2, tag="g", lo=-1, hi=1):
    """gradient matrix and offset of an affine displacement field"""
    G = [[ctx.real("%s%d%d" % (tag, i, j), lo, hi) for j in range(dim)] for i in range(dim)]
    c = [ctx.real("%sc%d" % (tag, i), lo, hi) for i in range(dim)]
    return G, c


def nodal(pts, G, c):
    """nodal values, node by node"""
    dim = len(G)
    return [sum(G[i][j] * p[j] for j in range(dim)) + c[i] for p in pts for i in range(dim)]


def strain(G):
    if len(G) == 2:
        return [G[0][0], G[1][1], G[0][1] + G[1][0]]
    return [G[0][0], G[1][1], G[2][2], G[1][2] + G[2][1], G[0][2] + G[2][0], G[0][1] + G[1][0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def placed(ctx, shape, s, far=0.0):
    """a slightly sheared element of size about s (a free factor of [.5, 2] around it), far away from the origin if asked"""
    f = ctx.real("f", .5, 2)
    P = [[p[0] + .25 * p[1]] + [x for x in p[1:]] for p in ALL[shape]]
    o = [far * w for w in (1.0, -.375, .75)]
    return [[s * (f * x + o[i]) for i, x in enumerate(p)] for p in P], f


SIZES2 = [(1e-3, 0.0), (1e4, 0.0), (1e7, 0.0), (1e11, 0.0), (1.0, 1e6), (1e-3, 1e5), (1e5, 1e4)]
SIZES3 = [(1e-2, 0.0), (1e4, 0.0), (1e7, 0.0), (1e11, 0.0), (1.0, 1e5), (1e5, 1e4)]
PLACES = [("%s-%g-%g" % (n, s, far), dict(n=n, s=s, far=far)) for n in ALL for s, far in (SIZES2 if n in S2 else SIZES3)]
