"""completed displacements"""
from hlib import *
CASES = Cases()
BOUNDS = "meshes of 9 to 700 nodes, and of 20000 and 34000 (six symbolic values, every 311th of the rest); 3-4 nodes with 1-6 dof per node, every restraint pattern, every real solution vector; float/integer vectors"
OUTSIDE = "complex solution vectors"


@CASES("complete", weight=3, args=[("4x2", dict(nn=4, nd=2)), ("5x1", dict(nn=5, nd=1)), ("2x3", dict(nn=2, nd=3)),
                                   ("4x2-int", dict(nn=3, nd=2, kind="int"))])
def complete(ctx, nn, nd, kind="float"):
    fl = flags(ctx, nn, nd)
    n, t = number(fixed_flags(ctx, fl))
    u = [(ctx.integer if kind == "int" else ctx.real)("u%d" % i, -1000, 1000) for i in range(nn * nd)][:n]
    nodes = ctx.farray([[i, 1.0 * i, 2.0, -1, 0] for i in range(nn)])
    sol = ctx.np.zeros(0) if not u else (ctx.array(u) if kind == "int" else ctx.farray(u))
    bc = ctx.array(t)
    full = ctx.m.pos.complete_disp(bc, nodes, sol, ndof_node=nd) if nd != 2 else \
        ctx.m.pos.complete_disp(bc, nodes, sol)
    ctx.true("shape", ctx.shape(full) == (nn, nd))
    ctx.true("float", ctx.dtype_kind(full) == "f")
    want = [[u[t[i][j]] if t[i][j] >= 0 else 0.0 for j in range(nd)] for i in range(nn)]
    ctx.eq("field", full, want, rel=1e-12)


@CASES("renumbered", weight=2)
def renumbered(ctx):
    """any equation numbering, not only the consecutive one (e.g. tied or permuted numbers)"""
    t = [[ctx.integer("t%d%d" % (i, j), -1, 2) for j in range(2)] for i in range(2)]
    tt = fixed_flags(ctx, t)
    u = [ctx.real("u%d" % i, -1e9, 1e9) for i in range(3)]
    full = ctx.m.pos.complete_disp(ctx.array(tt), ctx.farray([[0, 0.0, 0.0], [1, 1.0, 0.0]]), ctx.farray(u))
    ctx.eq("field", full, [[u[k] if k >= 0 else 0.0 for k in r] for r in tt], rel=1e-12)


@CASES("tiny")
def tiny(ctx):
    v = [ctx.real("a", -1e-12, 1e-12), ctx.real("b", -1e-30, 1e-30), ctx.real("c", -1e12, 1e12)]
    full = ctx.m.pos.complete_disp(ctx.array([[2, -1], [0, 1]]), ctx.farray([[0, 0.0, 0.0], [1, 1.0, 0.0]]), ctx.farray(v))
    ctx.eq("field", full, [[v[2], 0.0], [v[0], v[1]]], rel=1e-9)


@CASES("pipeline", weight=3)
def pipeline(ctx):
    """numbering then completion: the projection of the completed field is the vector"""
    fl = flags(ctx, 3, 2)
    neq, bc = ctx.m.ass.eqcounter(ctx.array(fl))
    f = fixed_flags(ctx, fl)
    n, t = number(f)
    u = [ctx.real("u%d" % i, -10, 10) for i in range(6)][:n]
    full = ctx.m.pos.complete_disp(bc, ctx.farray([[i, 0.0, 0.0] for i in range(3)]), ctx.farray(u) if u else ctx.np.zeros(0))
    full = ctx.values(full)
    ctx.eq("projection", [full[i][j] for i in range(3) for j in range(2) if f[i][j] == 0], u)
    ctx.eq("supports", [full[i][j] for i in range(3) for j in range(2) if f[i][j] != 0], [0.0] * (6 - n))


@CASES("many-dofs", weight=2, args=[(str(k), dict(nd=k)) for k in (4, 6)])
def many_dofs(ctx, nd):
    fl = [[0, -1, 0, 0, -1, 0][:nd], [0] * nd, [-1, 0, 0, 0, 0, -1][:nd]]
    fl[0][nd - 1] = ctx.integer("f", -1, 0)
    fl[2][2] = ctx.integer("g", -1, 0)
    n, t = number(fixed_flags(ctx, fl))
    u = [ctx.real("u%d" % i, -1000, 1000) for i in range(3 * nd)][:n]
    full = ctx.m.pos.complete_disp(ctx.array(t), ctx.farray([[i, 1.0, 2.0] for i in range(3)]), ctx.farray(u), ndof_node=nd)
    ctx.eq("field", full, [[u[k] if k >= 0 else 0.0 for k in r] for r in t], rel=1e-12)


@CASES("sizes", weight=4, args=[(str(n), dict(nn=n)) for n in (9, 20, 60, 160, 700)])
def sizes(ctx, nn):
    """larger meshes, consecutive and reversed equation numbers"""
    fl = [[-1 if (7 * i + 3 * j) % 11 == 0 else 0 for j in range(2)] for i in range(nn)]
    fl[nn - 1][0] = ctx.integer("f", -1, 0)
    n, t = number(fixed_flags(ctx, fl))
    u = [ctx.real("u%d" % i, -1000, 1000) for i in range(n)]
    nodes = ctx.farray([[i, 1.0 * i, 2.0] for i in range(nn)])
    full = ctx.m.pos.complete_disp(ctx.array(t), nodes, ctx.farray(u))
    ctx.eq("field", full, [[u[k] if k >= 0 else 0.0 for k in r] for r in t], rel=1e-12)
    t = [[n - 1 - k if k >= 0 else -1 for k in r] for r in t]
    full = ctx.m.pos.complete_disp(ctx.array(t), nodes, ctx.farray(u))
    ctx.eq("reversed numbers", full, [[u[k] if k >= 0 else 0.0 for k in r] for r in t], rel=1e-12)


@CASES("huge-mesh", weight=6, args=[("20000", dict(nn=20000)), ("34000", dict(nn=34000))])
def huge_mesh(ctx, nn):
    """equation numbers beyond 16 bits; symbolic values in selected places"""
    np = ctx.np
    bc = np.arange(2 * nn).reshape(nn, 2)
    bc[nn - 2, 0] = -1
    who = [0, 2 * nn - 1, 33000, 32768, 2 * nn - 3, 17]
    u = [0.0] * (2 * nn)
    v = {k: ctx.real("u%d" % i, -1000, 1000) for i, k in enumerate(who)}
    sol = np.zeros(2 * nn)
    for k in who:
        sol[k] = v[k]
    sol[2 * nn - 4] = 7.0
    nodes = np.zeros((nn, 3))
    full = ctx.m.pos.complete_disp(bc, nodes, sol)
    ctx.true("shape", ctx.shape(full) == (nn, 2))
    ctx.eq("field", [full[k // 2, k % 2] for k in who], [v[k] for k in who])
    rest = [k for k in range(0, 2 * nn, 311) if k not in v] + [2 * nn - 4]
    ctx.eq("elsewhere", [full[k // 2, k % 2] for k in rest], [0.0] * len(rest))
