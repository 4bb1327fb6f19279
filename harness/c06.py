"""shape functions: partition of unity, Kronecker property, completeness, exact derivatives"""
from hlib import Cases
CASES = Cases()
BOUNDS = ("all seven sets of shape functions at every point of a box reaching half an edge beyond the reference "
          "element (every coordinate in [-1.5, 1.5]); the Kronecker property at every node")
OUTSIDE = "points farther away (the functions are polynomials, so nothing new happens there)"

REF = {
    "tri3": ([(0, 0), (1, 0), (0, 1)], 2, [(0, 0), (1, 0), (0, 1)], "tri"),
    "tri6": ([(0, 0), (1, 0), (0, 1), (.5, 0), (.5, .5), (0, .5)], 2,
             [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)], "tri"),
    "quad4": ([(-1, -1), (1, -1), (1, 1), (-1, 1)], 2, [(0, 0), (1, 0), (0, 1), (1, 1)], "box"),
    "quad8": ([(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0)], 2,
              [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (1, 2)], "box"),
    "quad9": ([(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0), (0, 0)], 2,
              [(i, j) for i in range(3) for j in range(3)], "box"),
    "tet4": ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], 3,
             [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], "tri"),
    "hex8": ([(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
              (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)], 3,
             [(i, j, k) for i in range(2) for j in range(2) for k in range(2)], "box"),
}


def mono(p, e):
    v = 1
    for x, k in zip(p, e):
        for _ in range(k):
            v = v * x
    return v


def dmono(p, e, d):
    if e[d] == 0:
        return 0
    e2 = list(e)
    e2[d] -= 1
    return e[d] * mono(p, e2)


@CASES("interp", args=[(k, {"kind": k}) for k in REF])
def interp(ctx, kind):
    """for every point of a box around the reference element"""
    pts, dim, basis, dom = REF[kind]
    p = [ctx.real("r%d" % i, -1.5, 1.5) for i in range(dim)]
    fn = getattr(ctx.m.fem, "shape_" + kind)
    N, dN = fn(*p)
    ctx.true("shapes", ctx.shape(N) == (len(pts),) and ctx.shape(dN) == (dim, len(pts)))
    N = ctx.values(N)
    dN = ctx.values(dN)
    for e in basis:
        ctx.eq("reproduces monomial %s" % (e,), sum(n * mono(q, e) for n, q in zip(N, pts)), mono(p, e))
        for d in range(dim):
            ctx.eq("derivative %d of monomial %s" % (d, e),
                   sum(n * mono(q, e) for n, q in zip(dN[d], pts)), dmono(p, e, d))


@CASES("nodes", args=[(k, {"kind": k}) for k in REF])
def nodes(ctx, kind):
    """Kronecker property, and each function lies in the element's polynomial space"""
    pts, dim, basis, dom = REF[kind]
    fn = getattr(ctx.m.fem, "shape_" + kind)
    j = ctx.integer("j", 0, len(pts) - 1)
    j = ctx.is_int(j)
    N, _ = fn(*[float(x) for x in pts[j]])
    N = ctx.values(N)
    ctx.eq("Kronecker", N, [1.0 if i == j else 0.0 for i in range(len(pts))])
