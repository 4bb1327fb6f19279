"""finer and richer meshes; solutions that the elements contain"""
from hlib import *
from elems import *
import c27
from c27 import Model, analyse
from c30 import work
CASES = Cases()
BOUNDS = ("cantilevers of one or two elements of eight kinds, split in two or four or replaced by elements of more nodes, every value in [-10,10] of two load components at two corners; "
          "bars of one to four elements in pure bending (6-node triangles, 8- and 9-node quadrilaterals), beams in one to four pieces, every end force and moment, two- and three-bar trusses, "
          "solid and hollow cylinders of 9-node axisymmetric elements under uniform radial tension, blocks of solid elements under uniform tension, every value of the load")
OUTSIDE = "other shapes and meshes; rounding and conditioning of the linear solver (its result is any vector satisfying the equations handed to it)"
MAT = [[2.0, .25, 1.0]]


class Mesh:
    """nodes numbered as they come"""
    def __init__(self):
        self.P, self.at = [], {}

    def __call__(self, *p):
        if p not in self.at:
            self.at[p] = len(self.P)
            self.P.append([float(x) for x in p])
        return self.at[p]


def cells(kind, xs, ys, flip=False):
    """a grid of elements of a kind -> nodes, connectivity"""
    m, els = Mesh(), []
    for y0, y1 in zip(ys, ys[1:]):
        for x0, x1 in zip(xs, xs[1:]):
            c = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
            if kind.startswith("tri"):
                T = [[0, 1, 3], [1, 2, 3]] if flip else [[0, 1, 2], [0, 2, 3]]
            else:
                T = [[0, 1, 2, 3]]
            for t in T:
                q = [c[i] for i in t]
                if kind in ("tri6", "quad8", "quad9"):
                    q += [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(q, q[1:] + q[:1])]
                if kind == "quad9":
                    q.append(((x0 + x1) / 2, (y0 + y1) / 2))
                els.append([m(*p) for p in q])
    return m.P, els


def cantilever(ctx, kind, nx, ny, P, shear=0.0):
    xy, els = cells(kind, [4.0 * i / nx for i in range(nx + 1)], [2.0 * j / ny for j in range(ny + 1)])
    left = [i for i, p in enumerate(xy) if p[0] == 0]
    tip = [[i for i, p in enumerate(xy) if p == [4.0, y]][0] for y in (0.0, 2.0)]
    M = Model(kind, [[x + shear * y, y] for x, y in xy], [(0, e) for e in els], MAT, left)
    M.loads = [[tip[0], P[0], P[1]], [tip[1], P[1], -.5 * P[0]]]
    return M


FINER = [("tri3", (1, 1), (2, 2)), ("tri3", (2, 1), (4, 2)), ("tri3", (1, 2), (2, 4)), ("tri6", (1, 1), (2, 2)),
         ("quad4", (1, 1), (2, 1)), ("quad4", (1, 1), (1, 2)), ("quad4", (1, 1), (2, 2)), ("quad4", (2, 1), (4, 2)),
         ("quad8", (1, 1), (2, 1)), ("quad8", (1, 1), (1, 2)), ("quad9", (1, 1), (2, 1)), ("quad9", (1, 1), (1, 2))]


@CASES("finer", weight=4, args=[("%s-%dx%d-%dx%d" % ((k,) + a + b), dict(kind=k, a=a, b=b)) for k, a, b in FINER])
def finer(ctx, kind, a, b):
    """a mesh and one with its elements divided (the fields of the first are among those of the second)"""
    P = [ctx.real("P", -10, 10), ctx.real("Q", -10, 10)]
    W = []
    for n in (a, b):
        M = cantilever(ctx, kind, n[0], n[1], P, shear=.25)
        W.append(work(M, analyse(ctx, M)["u"]))
    ctx.le("positive", 0.0, W[0], tol=1e-9)
    ctx.le("not stiffer", W[0], W[1], tol=1e-6)


@CASES("richer", weight=3, args=[("%s-%s-%dx%d" % (a, b, n[0], n[1]), dict(a=a, b=b, n=n)) for a, b in (("tri3", "tri6"), ("quad4", "quad8"), ("quad4", "quad9"), ("quad8", "quad9"))
                                 for n in ((1, 1), (2, 1), (1, 2), (1, 4)) if b != "quad9" or n[1] < 4 and n[0] == 1])
def richer(ctx, a, b, n):
    """the same mesh with elements of more nodes"""
    P = [ctx.real("P", -10, 10), ctx.real("Q", -10, 10)]
    W = []
    for k in (a, b):
        M = cantilever(ctx, k, n[0], n[1], P, shear=.25)
        W.append(work(M, analyse(ctx, M)["u"]))
    ctx.le("positive", 0.0, W[0], tol=1e-9)
    ctx.le("not stiffer", W[0], W[1], tol=1e-6)


XS = {1: [0.0, 4.0], 2: [0.0, 1.5, 4.0], 3: [0.0, .5, 3.0, 4.0]}


@CASES("bending", weight=3, args=[("%s-%d%s" % (k, n, "-flip" if f else ""), dict(kind=k, n=n, f=f)) for k in ("tri6", "quad8", "quad9") for n in (1, 2) for f in (False, True) if k == "tri6" or not f])
def bending(ctx, kind, n, f):
    """a bar bent by couples: quadratic elements contain the solution"""
    k = ctx.real("k", -10, 10)
    E, nu, c = MAT[0][0], MAT[0][1], 1.0
    xy, els = cells(kind, XS[n], [-c, c], flip=f)
    M = Model(kind, xy, [(0, e) for e in els], MAT, ())
    for i, (x, y) in enumerate(xy):
        if x == 0:
            M.cons[i] = [-1, -1 if y == 0 else 0]
        elif x == 4 and y != 0:
            M.loads.append([i, -E * k * c * c / 3 * y, 0.0])
    u = analyse(ctx, M)["u"]
    for i, (x, y) in enumerate(xy):
        ctx.eq("node %d" % i, u[i], [-k * x * y, k * x * x / 2 + nu * k * y * y / 2], tol=1e-6, scale=10)


@CASES("cantilever", weight=3, args=[("%s-%d-%s" % (k, n, d), dict(kind=k, n=n, d=d)) for k in ("beam", "beamU") for n in (1, 2, 3, 4) for d in ("right", "up", "slope", "left")
                                     if k == "beam" or d != "slope"])
def cantilever_beam(ctx, kind, n, d):
    """deflection and rotation along a cantilever with forces and a couple at its end"""
    t = {"right": (1.0, 0.0), "up": (0.0, 1.0), "slope": (.6, .8), "left": (-1.0, 0.0)}[d]
    L, E, I, A = 8.0, 4.0, 2.0, .5
    s = [L * i / n for i in range(n + 1)] if n != 3 else [0.0, 1.0, 5.0, 8.0]
    xy = [[t[0] * x, t[1] * x] for x in s]
    mats = [[E, I, A, 1.0] if kind == "beam" else [E, I, 1.0, A]]
    # members alternately described from either end
    M = Model(kind, xy, [(0, [i, i + 1] if i % 2 == 0 else [i + 1, i]) for i in range(n)], mats, (0,))
    N = ctx.real("N", -10, 10) if kind == "beam" else 0.0
    P, C = ctx.real("P", -10, 10), ctx.real("C", -10, 10)
    if kind == "beamU":
        for c in M.cons:
            c[0 if t[0] else 1] = -1
    M.loads = [[n, N * t[0] - P * t[1], N * t[1] + P * t[0], C]]
    u = analyse(ctx, M)["u"]
    for i, x in enumerate(s):
        v = P * (x * x * (3 * L - x) / (6 * E * I)) + C * (x * x / (2 * E * I))
        th = P * (x * (2 * L - x) / (2 * E * I)) + C * (x / (E * I))
        a = N * (x / (E * A)) if kind == "beam" else 0.0
        ctx.eq("at %g" % x, u[i], [a * t[0] - v * t[1], a * t[1] + v * t[0], th], tol=1e-6, scale=100)


@CASES("beam-midspan", weight=3, args=[("%s-%s" % (k, h), dict(kind=k, hold=h)) for k in ("beam", "beamU") for h in ("hinged", "clamped", "propped")])
def midspan(ctx, kind, hold):
    """a beam loaded at mid-span"""
    L, E, I = 8.0, 4.0, 2.0
    M = Model(kind, [[0., 0.], [L / 2, 0.], [L, 0.]], [(0, [0, 1]), (0, [1, 2])], [[E, I, .5, 1.0] if kind == "beam" else [E, I, 1.0, .5]], ())
    P = ctx.real("P", -10, 10)
    M.cons = [[-1, -1, 0 if hold == "hinged" else -1], [-1, 0, 0], [-1, -1, -1 if hold == "clamped" else 0]]
    M.loads = [[1, 0.0, P, 0.0]]
    u = analyse(ctx, M)["u"]
    f = {"hinged": 1 / 48, "clamped": 1 / 192, "propped": 7 / 768}[hold]
    ctx.eq("deflection", u[1][1], P * (f * L ** 3 / (E * I)), tol=1e-6, scale=100)
    if hold == "hinged":
        ctx.eq("end rotations", [u[0][2], u[1][2], u[2][2]], [P * (L * L / (16 * E * I)), 0.0, P * (-L * L / (16 * E * I))], tol=1e-6, scale=100)


@CASES("bars", weight=2, args=[("two", dict(n=2)), ("three", dict(n=3))])
def bars(ctx, n):
    """a node hung from two inclined bars, and a vertical one"""
    E, A, L = 2.0, 1.5, 5.0
    M = Model("truss", [[-3., 4.], [3., 4.], [0., 0.], [0., 4.]], [(0, [0, 2]), (0, [2, 1])], [[E, A], [4.0, .5]], (0, 1, 3))
    if n == 3:
        M.els.append((1, [3, 2]))
    P, Q = ctx.real("P", -10, 10), ctx.real("Q", -10, 10)
    M.loads = [[2, P, Q]]
    R = analyse(ctx, M)
    k = E * A / L
    kx, ky = 2 * k * .36, 2 * k * .64 + (4.0 * .5 / 4 if n == 3 else 0.0)
    u, v = P / kx, Q / ky
    ctx.eq("displacement", R["u"][2], [u, v], tol=1e-6, scale=10)
    s = [E / L * (.6 * u - .8 * v), E / L * (-.6 * u - .8 * v)] + ([4.0 / 4 * -v] if n == 3 else [])
    ctx.eq("stress", R["N"], s, tol=1e-6, scale=10)


def by_steps(ctx, uel, nd, xy, els, mats, cons, loads):
    k = len(els[0]) * nd
    T = ctx.array([[e, 20, 0] + c for e, c in enumerate(els)])
    op, bc, neq = ctx.m.ass.DME(ctx.array(cons), T, ndof_node=nd, ndof_el_max=k, ndof_el=lambda t: k)
    nodes = ctx.farray([[i] + p for i, p in enumerate(xy)])
    K, _ = ctx.m.ass.assembler(T, ctx.farray(mats), nodes, neq, op, uel=uel)
    b = ctx.m.ass.loadasem(ctx.farray(loads), bc, neq, ndof_node=nd)
    return ctx.values(ctx.m.pos.complete_disp(bc, nodes, ctx.m.sol.static_sol(K, b), ndof_node=nd))


@CASES("cylinder", weight=3, args=[("%s-%s" % (w, m), dict(what=w, mesh=m)) for w in ("solid", "hollow") for m in ("1x1", "2x1", "1x2")])
def cylinder(ctx, what, mesh):
    """a cylinder drawn outwards by a uniform radial tension"""
    E, nu = MAT[0][:2]
    r = ([0.0, 2.0] if mesh[0] == "1" else [0.0, .5, 2.0]) if what == "solid" else ([1.0, 2.0] if mesh[0] == "1" else [1.0, 1.25, 2.0])
    z = [0.0, 1.0] if mesh[2] == "1" else [0.0, .25, 1.0]
    xy, els = cells("quad9", r, z)
    p = ctx.real("p", -10, 10)
    at = {tuple(q): i for i, q in enumerate(xy)}
    loads, pi = [], 3.141592653589793
    for R, sign in ((r[-1], 1.0), (r[0], -1.0)):
        for a, b in zip(z, z[1:]):
            for q, w in ((a, 1 / 6), ((a + b) / 2, 4 / 6), (b, 1 / 6)):
                if R > 0:
                    loads.append([at[R, q], p * (sign * 2 * pi * R * (b - a) * w), 0.0])
    cons = [[-1 if q[0] == 0 else 0, -1 if q[1] == 0 else 0] for q in xy]
    u = by_steps(ctx, ctx.m.ue.elast_axi_quad9, 2, xy, els, MAT, cons, loads)
    for i, q in enumerate(xy):
        ctx.eq("node %d" % i, u[i], [p * ((1 - nu) * q[0] / E), p * (-2 * nu * q[1] / E)], tol=1e-6, scale=10)


@CASES("block", weight=3, args=[("%s-%d" % (k, n), dict(kind=k, n=n)) for k in ("hex8", "tet4") for n in (1, 2)])
def block(ctx, kind, n):
    """a block drawn in one direction"""
    E, nu = MAT[0][:2]
    m, els, loads = Mesh(), [], []
    xs = [0.0, 3.0] if n == 1 else [0.0, 1.0, 3.0]
    p = ctx.real("p", -10, 10)
    for a, b in zip(xs, xs[1:]):
        c = [m(x, y, z) for z in (0.0, 2.0) for x, y in ((a, 0.0), (b, 0.0), (b, 1.0), (a, 1.0))]
        if kind == "hex8":
            els.append(c)
        else:       # six tetrahedra around the diagonal 0-6
            for q in ((1, 2), (2, 3), (3, 7), (7, 4), (4, 5), (5, 1)):
                els.append([c[0], c[q[0]], c[q[1]], c[6]])
    els = [[e[0], e[2], e[1], e[3]] if kind == "tet4" and c27.vol(m.P, e) < 0 else e for e in els]
    share = {}
    if kind == "hex8":
        for q in ((0.0, 0.0), (1.0, 0.0), (1.0, 2.0), (0.0, 2.0)):
            share[m(3.0, *q)] = .25
    else:
        for e in els:
            f = [i for i in e if m.P[i][0] == 3.0]
            if len(f) == 3:
                for i in f:
                    share[i] = share.get(i, 0.0) + 1 / 6
    loads = [[i, p * (2.0 * w), 0.0, 0.0] for i, w in sorted(share.items())]
    cons = [[-1 if q == 0 else 0 for q in P] for P in m.P]
    u = by_steps(ctx, getattr(ctx.m.ue, "elast_" + kind), 3, m.P, els, MAT, cons, loads)
    for i, q in enumerate(m.P):
        ctx.eq("node %d" % i, u[i], [p * (q[0] / E), p * (-nu * q[1] / E), p * (-nu * q[2] / E)], tol=1e-6, scale=10)
