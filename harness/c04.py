"""load vector"""
from hlib import *
CASES = Cases()
BOUNDS = ("3 nodes with 1-3 dof per node, every restraint pattern, 0 to 4 load rows on every position pattern listed "
          "(repeats included) or symbolic positions; real and integer load values")
BOUNDS += "; 4 and 6 dofs per node; up to 150 load rows; node numbers up to 70000"
OUTSIDE = "load values of narrow integer types"


def reference(t, neq, nd, rows):
    f = [0.0] * neq
    for r in rows:
        for j in range(nd):
            e = t[r[0]][j]
            if e >= 0:
                f[e] = f[e] + r[1 + j]
    return f


def check(ctx, fl, nd, pos, kind, bctype="raw"):
    vals = [[(ctx.integer if kind == "int" else ctx.real)("p%d%d" % (i, j), -100, 100) for j in range(nd)]
            for i in range(len(pos))]
    n, t = number(fixed_flags(ctx, fl))
    rows = [[pos[i]] + vals[i] for i in range(len(pos))]
    loads = ctx.farray(rows) if kind == "float" else ctx.array(rows)
    bc = ctx.array(t)
    rhs = ctx.m.ass.loadasem(loads, bc, n, ndof_node=nd) if nd != 2 else ctx.m.ass.loadasem(loads, bc, n)
    ctx.true("size", ctx.shape(rhs) == (n,))
    ctx.true("float", ctx.dtype_kind(rhs) == "f")
    if n:
        ctx.eq("right-hand side", rhs, reference(t, n, nd, rows), rel=1e-9)


@CASES("rows", weight=3, args=[("".join(map(str, p)) + "-" + k, dict(pos=p, kind=k)) for p, k in
                               [((0, 1, 2), "float"), ((1, 1), "float"), ((2, 0, 2), "float"), ((0, 0, 0, 1), "float"),
                                ((2, 1), "int"), ((1,), "float")]])
def rows(ctx, pos, kind):
    check(ctx, flags(ctx, 3, 2), 2, pos, kind)


@CASES("dof", weight=3, args=[("1", dict(nd=1)), ("3", dict(nd=3))])
def dof(ctx, nd):
    fl = flags(ctx, 3, nd) if nd == 1 else flags(ctx, 2, nd) + [[0, 0, -1]]
    check(ctx, fl, nd, (2, 0, 1, 0), "float")


@CASES("free-position", weight=2)
def free_position(ctx):
    """three load rows anywhere on four nodes"""
    pos = [ctx.integer("pos%d" % i, 0, 3) for i in range(3)]
    pos = [ctx.is_int(x) for x in pos]
    check(ctx, [[0, 0], [-1, 0], [0, -1], [0, 0]], 2, pos, "float")


@CASES("tiny")
def tiny(ctx):
    """values of any magnitude are kept"""
    n, t = 3, [[0, -1], [1, 2]]
    v = [ctx.real("a", -1e-12, 1e-12), ctx.real("b", -1e12, 1e12), ctx.real("c", -1e-30, 1e-30)]
    rhs = ctx.m.ass.loadasem(ctx.farray([[0, v[0], 5.0], [1, v[1], v[2]]]), ctx.array(t), n)
    ctx.eq("right-hand side", rhs, v, rel=1e-9)


@CASES("none")
def none(ctx):
    """no loads at all; also all nodes restrained"""
    np = ctx.np
    a = ctx.integer("a", -1, 0)
    n, t = number(fixed_flags(ctx, [[a, 0], [0, -1]]))
    rhs = ctx.m.ass.loadasem(np.zeros((0, 3)), ctx.array(t), n)
    ctx.eq("empty", rhs, [0.0] * n)
    rhs = ctx.m.ass.loadasem(ctx.farray([[0, 1.0, 2.0]]), ctx.array([[-1, -1], [-1, -1]]), 0)
    ctx.true("no equations", ctx.shape(rhs) == (0,))


@CASES("many", weight=8)
def many(ctx):
    """300 nodes, positions beyond small integer ranges"""
    np = ctx.np
    nn = 300
    a = ctx.integer("a", -1, 0)
    cons = np.zeros((nn, 2), dtype=int)
    cons[5, 1] = a
    a = ctx.is_int(a)
    neq, bc = ctx.m.ass.eqcounter(cons)
    v = [ctx.real("v%d" % i, -10, 10) for i in range(4)]
    rhs = ctx.m.ass.loadasem(ctx.farray([[299, v[0], v[1]], [150, v[2], v[3]], [299, v[2], 0]]), bc, neq)
    want = [0.0] * (2 * nn + a)
    want[598 + a] = v[0] + v[2]
    want[599 + a] = v[1]
    want[300 + a] = v[2]
    want[301 + a] = v[3]
    ctx.eq("right-hand side", rhs, want)


@CASES("many-dofs", weight=3, args=[(str(k), dict(nd=k)) for k in (4, 6)])
def many_dofs(ctx, nd):
    fl = [[0, -1, 0, 0, -1, 0][:nd], [0] * nd, [-1, 0, 0, 0, 0, -1][:nd]]
    fl[0][nd - 1] = ctx.integer("f", -1, 0)
    fl[2][2] = ctx.integer("g", -1, 0)
    check(ctx, fl, nd, (2, 0, 2, 1), "float")


@CASES("many-rows", weight=4, args=[("6", dict(nr=6)), ("13", dict(nr=13)), ("40", dict(nr=40)), ("150", dict(nr=150))])
def many_rows(ctx, nr):
    """many load rows, several per node"""
    fl = [[-1 if (i + j) % 4 == 0 else 0 for j in range(2)] for i in range(7)]
    fl[3][1] = ctx.integer("f", -1, 0)
    check(ctx, fl, 2, [(i * i + 3 * (i // 5)) % 7 for i in range(nr)], "float")


@CASES("wide-table", weight=2)
def wide_table(ctx):
    """load tables with more columns than degrees of freedom"""
    v = [[ctx.real("v%d%d" % (i, j), -10, 10) for j in range(4)] for i in range(2)]
    t = [[0, 1], [-1, 2], [3, -1]]
    rhs = ctx.m.ass.loadasem(ctx.farray([[2] + v[0], [1] + v[1]]), ctx.array(t), 4)
    ctx.eq("right-hand side", rhs, [0.0, 0.0, v[1][1], v[0][0]])


@CASES("huge-mesh", weight=4)
def huge_mesh(ctx):
    """node numbers up to 70000"""
    np = ctx.np
    nn = 70001
    bc = np.arange(2 * nn).reshape(nn, 2)
    v = [ctx.real("v%d" % i, -10, 10) for i in range(6)]
    pos = [12345, 70000, 65537]
    rhs = ctx.m.ass.loadasem(ctx.farray([[p, v[2 * i], v[2 * i + 1]] for i, p in enumerate(pos)]), bc, 2 * nn)
    for i, p in enumerate(pos):
        ctx.eq("values", [rhs[2 * p], rhs[2 * p + 1]], v[2 * i:2 * i + 2])
    ctx.eq("elsewhere", [rhs[k] for k in (0, 1, 4464, 4465, 24000, 9000 * 2, 12346 * 2, 12344 * 2 + 1)], [0.0] * 8)
