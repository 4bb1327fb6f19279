"""degenerate or inverted elements are rejected, valid ones are not"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("every 2x2 Jacobian with entries in [-2, 2] and 3x3 in [-1.5, 1.5] (through the routine itself); triangles with "
          "all six coordinates symbolic, quadrilaterals with a symbolic corner, every element mirrored; the seven element routines at the stated sizes and places (PLACES in elems.py: 1e-3 to 1e11, up to 1e6 away); thresholds: "
          "determinants above 2e-8 accepted, below 5e-9 rejected")
OUTSIDE = "determinants between 5e-9 and 2e-8 (the code's absolute tolerance is 1e-8)"


def decide(ctx, lab, d, kind):
    """kind: outcome of the call; d: the true determinant"""
    if kind == "ok":
        ctx.le(lab + ": accepted only when positive", 5e-9, d, tol=0.0)
    else:
        ctx.le(lab + ": rejected only when not positive", d, 2e-8, tol=0.0)


@CASES("jacobian-2d", weight=2)
def jac2(ctx):
    J = [[ctx.real("J%d%d" % (i, j), -2, 2) for j in range(2)] for i in range(2)]
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    k, r = ctx.outcome(ctx.m.fem.jacoper, ctx.np.eye(2), ctx.farray(J))
    decide(ctx, "2-D", d, k)
    if k == "ok":
        ctx.eq("determinant", r[0], d)
        inv = ctx.values(r[1])
        ctx.eq("inverse", [[d * x for x in q] for q in inv], [[J[1][1], -J[0][1]], [-J[1][0], J[0][0]]])
    else:
        ctx.true("ValueError", isinstance(r, ValueError))


@CASES("jacobian-3d", weight=6)
def jac3(ctx):
    J = [[ctx.real("J%d%d" % (i, j), -1.5, 1.5) for j in range(3)] for i in range(3)]
    d = det3(J)
    k, r = ctx.outcome(ctx.m.fem.jacoper, ctx.np.eye(3), ctx.farray(J))
    decide(ctx, "3-D", d, k)
    if k == "ok":
        ctx.eq("determinant", r[0], d)
        inv = ctx.values(r[1])
        cof = [[J[(j + 1) % 3][(i + 1) % 3] * J[(j + 2) % 3][(i + 2) % 3]
                - J[(j + 1) % 3][(i + 2) % 3] * J[(j + 2) % 3][(i + 1) % 3] for j in range(3)] for i in range(3)]
        ctx.eq("inverse", [[d * x for x in q] for q in inv], cof)


@CASES("jacobian-sum", weight=2)
def jacsum(ctx):
    """the Jacobian is the product of derivatives and coordinates (three nodes, free derivatives)"""
    X = [[ctx.real("X%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(3)]
    D = [[-1.0, ctx.real("p", .5, 1), .25], [-1.0, ctx.real("q", -.5, .5), 1.0]]
    J = [[sum(D[i][k] * X[k][j] for k in range(3)) for j in range(2)] for i in range(2)]
    d = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    k, r = ctx.outcome(ctx.m.fem.jacoper, ctx.farray(D), ctx.farray(X))
    decide(ctx, "product", d, k)
    if k == "ok":
        ctx.eq("determinant", r[0], d)


@CASES("triangle", weight=2, args=[(n, dict(n=n)) for n in ("tri3", "tri6")])
def triangle(ctx, n):
    """element routines: any triangle"""
    X = [[ctx.real("X%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(3)]
    d = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1])
    P = list(X)
    if n == "tri6":
        P = X + [[.5 * (X[i][q] + X[j][q]) for q in (0, 1)] for i, j in ((0, 1), (1, 2), (2, 0))]
    k, r = ctx.outcome(getattr(ctx.m.ue, "elast_" + n), ctx.farray(P), (1.0, .25))
    decide(ctx, n, d, k)


@CASES("quadrilateral", weight=8)
def quadrilateral(ctx):
    """quad4 with one corner anywhere: accepted exactly when the Jacobian is positive at all four Gauss points"""
    P = [[-1, -1], [1, -1], [ctx.real("x", -3, 3), ctx.real("y", -3, 3)], [-1, 1]]
    g = 0.577350269189625764
    ds = []
    for r in (-g, g):
        for s in (-g, g):
            dr = [-(1 - s) / 4, (1 - s) / 4, (1 + s) / 4, -(1 + s) / 4]
            dt = [-(1 - r) / 4, -(1 + r) / 4, (1 + r) / 4, (1 - r) / 4]
            J = [[sum(q[k] * P[k][j] for k in range(4)) for j in range(2)] for q in (dr, dt)]
            ds.append(J[0][0] * J[1][1] - J[0][1] * J[1][0])
    k, r = ctx.outcome(ctx.m.ue.elast_quad4, ctx.farray(P), (1.0, .25))
    if k == "ok":
        for d in ds:
            ctx.le("accepted only when positive", 5e-9, d)
    else:
        # rejected: some Gauss point is not clearly positive
        m = None
        for d in ds:
            c = d > 2e-8
            m = c if m is None else (m & c)
        ctx.true("rejected only when some point is not positive", ~m if ctx.mode == "sym" else not m)


MIR = {"tri3": [0, 2, 1], "tri6": [0, 2, 1, 5, 4, 3], "quad4": [0, 3, 2, 1], "quad8": [0, 3, 2, 1, 7, 6, 5, 4],
       "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8], "tet4": [0, 2, 1, 3], "hex8": [4, 5, 6, 7, 0, 1, 2, 3]}


@CASES("mirrored", weight=3, args=[("%s-turned%d" % (n, t) if t else n, dict(n=n, turn=t)) for n in MIR for t in range(8)]
       + [("axi-turned%d" % t if t else "axi", dict(n="quad9", axi=True, turn=t)) for t in range(8)])
def mirrored(ctx, n, axi=False, turn=0):
    """clockwise node order is rejected, the same geometry counter-clockwise accepted; every affine geometry"""
    if n in S3:
        pts, J, d = affine3(ctx, n, family=ctx.choice("fam", [0, 1, 2]) if not turn else turn % 4, shift=False, turn=turn)
    else:
        pts, J, d = affine2(ctx, n, shift=False, turn=turn)
    if axi:
        pts = [[p[0] + 5.0, p[1]] for p in pts]
    fn = getattr(ctx.m.ue, "elast_axi_quad9" if axi else "elast_" + n)
    k, r = ctx.outcome(fn, ctx.farray(pts), (1.0, .25, 1.0))
    ctx.true("valid accepted", k == "ok")
    k, r = ctx.outcome(fn, ctx.farray([pts[i] for i in MIR[n]]), (1.0, .25, 1.0))
    ctx.true("inverted rejected", k == "raise")


@CASES("collapsed", args=[(n, dict(n=n)) for n in MIR])
def collapsed(ctx, n):
    """flat elements in any position are rejected"""
    u = [ctx.real("u%d" % i, -2, 2) for i in range(3)]
    v = [ctx.real("v%d" % i, -2, 2) for i in range(3)]
    if n in S3:
        pts = [[p[0] * u[i] + p[1] * v[i] + p[2] * (u[i] - v[i]) for i in range(3)] for p in ALL[n]]
    else:
        t = ctx.real("t", -2, 2)
        pts = [[(p[0] + t * p[1]) * u[i] for i in range(2)] for p in ALL[n]]
    k, r = ctx.outcome(getattr(ctx.m.ue, "elast_" + n), ctx.farray(pts), (1.0, .25, 1.0))
    ctx.true("flat rejected", k == "raise")


@CASES("scale", args=PLACES)
def scale(ctx, n, s, far):
    """elements of any size and place: orientation decides"""
    pts, f = placed(ctx, n, s, far)
    fn = getattr(ctx.m.ue, "elast_" + n)
    k, r = ctx.outcome(fn, ctx.farray(pts), (1.0, .25, 1.0))
    ctx.true("valid accepted", k == "ok")
    k, r = ctx.outcome(fn, ctx.farray([pts[i] for i in MIR[n]]), (1.0, .25, 1.0))
    ctx.true("inverted rejected", k == "raise" and isinstance(r, ValueError))
