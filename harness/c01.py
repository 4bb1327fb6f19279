"""equation numbering and assembly operator"""
from hlib import *
CASES = Cases()
BOUNDS = ("every restraint table of 4 nodes x 2 dof, 5 x 1, 3 x 3 (integer or float flags, extra columns); "
          "elements: all built-in types and user types, every restraint pattern of 6-8 chosen dofs, chosen "
          "connectivities symbolic; 4-6 dofs per node with 5 symbolic flags; chains of 7 to 330 nodes with 3 symbolic flags; one mesh of 17000 nodes with symbolic flags at both ends")
OUTSIDE = "flags other than 0/-1 (prescribed nonzero values are not supported by the code)"


def numbering(ctx, nn, nd, isfloat, extra=0):
    fl = flags(ctx, nn, nd)
    rows = [r + [7] * extra for r in fl]
    cons = ctx.farray(rows) if isfloat else ctx.array(rows)
    out = ctx.m.ass.eqcounter(cons, ndof_node=nd) if nd != 2 else ctx.m.ass.eqcounter(cons)
    neq, bc = out
    f = fixed_flags(ctx, fl)
    n, t = number(f)
    ctx.eq("number of equations", neq, n)
    ctx.true("shape", ctx.shape(bc) == (nn, nd + extra))
    ctx.true("integer numbers", ctx.dtype_kind(bc) in "iu")
    ctx.eq("numbering", [r[:nd] for r in ctx.values(bc)], t)
    ctx.eq("input untouched", [r[:nd] for r in ctx.values(cons)], f)


CASES("eqcounter", weight=5, args=[
    ("4x2", dict(nn=4, nd=2, isfloat=False)), ("4x2-float", dict(nn=4, nd=2, isfloat=True)),
    ("5x1", dict(nn=5, nd=1, isfloat=False)), ("3x3", dict(nn=3, nd=3, isfloat=False)),
    ("2x2-float-extra", dict(nn=2, nd=2, isfloat=True, extra=1))])(numbering)

BUILTIN = {1: (4, 2), 2: (6, 2), 3: (3, 2), 4: (9, 2), 5: (2, 2), 6: (2, 2), 7: (2, 3), 8: (2, 3)}


@CASES("operator-builtin", weight=3, args=[(str(k), dict(typ=k)) for k in BUILTIN])
def operator_builtin(ctx, typ):
    """two elements with shared nodes; four symbolic flags; the first node of each element symbolic"""
    npe, nd = BUILTIN[typ]
    nn = npe + 2
    base = [[(3 * i + 2 * j) % 4 == 1 and -1 or 0 for j in range(nd)] for i in range(nn)]
    for (i, j) in ((0, 0), (1, 1), (nn - 1, 0), (nn - 2, nd - 1)):
        base[i][j] = ctx.integer("f%d%d" % (i, j), -1, 0)
    c0 = list(range(npe))
    c1 = [nn - 1 - k for k in range(npe)]
    q = ctx.integer("q", 0, 1)
    if ctx.is_int(q):
        c0, c1 = c1, c0
    els = ctx.array([[eid(ctx, 0), typ, 0] + c0, [eid(ctx, 1), typ, 0] + c1])
    cons = ctx.array(base)
    if nd == 2:
        am, bc, neq = ctx.m.ass.DME(cons, els)
    else:
        am, bc, neq = ctx.m.ass.DME(cons, els, ndof_node=nd)
    n, t = number(fixed_flags(ctx, base))
    ctx.eq("number of equations", neq, n)
    ctx.eq("numbering", bc, t)
    ctx.true("integer operator", ctx.dtype_kind(am) in "iu" and ctx.shape(am)[0] == 2)
    am = ctx.values(am)
    for e, c in enumerate((c0, c1)):
        want = [t[k][j] for k in c for j in range(nd)]
        ctx.eq("operator row %d" % e, am[e][:npe * nd], want)


@CASES("operator-mixed", weight=3)
def operator_mixed(ctx):
    """springs with trusses, in any type order"""
    fl = flags(ctx, 3, 2)
    ts = [ctx.integer("t%d" % e, 5, 6) for e in range(2)]
    ts = [ctx.is_int(x) for x in ts]
    cs = [[2, 0], [1, 2]]
    els = ctx.array([[eid(ctx, e), ts[e], 0] + cs[e] for e in range(2)])
    am, bc, neq = ctx.m.ass.DME(ctx.farray(fl), els)
    n, t = number(fixed_flags(ctx, fl))
    ctx.eq("number of equations", neq, n)
    am = ctx.values(am)
    for e in range(2):
        ctx.eq("operator row %d" % e, am[e][:4], [t[k][j] for k in cs[e] for j in range(2)])


@CASES("operator-user", weight=4, args=[("nd%d" % k, dict(nd=k)) for k in (1, 2, 3)])
def operator_user(ctx, nd):
    """user elements: type-dependent number of dofs, free connectivity"""
    nn = 3
    fl = flags(ctx, nn, nd) if nd < 3 else flags(ctx, 2, nd) + [[0, -1, 0]]
    c0 = ctx.choice("c0", [[0, 1], [2, 0], [1, 2], [1, 0]])
    els = ctx.array([[eid(ctx, 0), 9, 0] + c0, [eid(ctx, 1), 12, 0, 2, 1]])
    asked = []

    def ndof_el(iet):
        asked.append(iet)
        return 2 * nd
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=nd, ndof_el_max=2 * nd, ndof_el=ndof_el)
    n, t = number(fixed_flags(ctx, fl))
    ctx.eq("number of equations", neq, n)
    ctx.eq("numbering", bc, t)
    ctx.eq("asked types", asked, [9, 12])
    ctx.eq("operator", [r[:2 * nd] for r in ctx.values(am)],
           [[t[k][j] for k in c for j in range(nd)] for c in (c0, [2, 1])])


@CASES("large", weight=20, budget=100)
def large(ctx):
    """integer range: 17000 nodes, symbolic flags in the first and last nodes"""
    nn = 17000
    np = ctx.np
    a, b = ctx.integer("a", -1, 0), ctx.integer("b", -1, 0)
    cons = np.zeros((nn, 2), dtype=int)
    cons[0, 0] = a
    cons[nn - 1, 0] = b
    els = ctx.array([[0, 6, 0, 0, nn - 1], [1, 6, 0, nn // 2, nn - 2]])
    am, bc, neq = ctx.m.ass.DME(cons, els)
    a, b = ctx.is_int(a), ctx.is_int(b)
    n = 2 * nn + a + b
    ctx.eq("number of equations", neq, n)
    last = [-1 if b else n - 2, n - 1]
    am = ctx.values(am)
    ctx.eq("first element", am[0][:4], [-1 if a else 0, 1 + a] + last)
    ctx.eq("second element", am[1][:4], [nn + a, nn + 1 + a, 2 * nn - 4 + a, 2 * nn - 3 + a])
    ctx.eq("numbering", [bc[k, j] for k in (1, nn // 3, nn - 1) for j in (0, 1)],
           [2 + a, 3 + a, 2 * (nn // 3) + a, 2 * (nn // 3) + 1 + a] + last)


@CASES("many-dofs", weight=3, args=[(str(k), dict(nd=k)) for k in (4, 5, 6)])
def many_dofs(ctx, nd):
    """four to six degrees of freedom per node (frames and shells of the user)"""
    fl = [[0, -1] * 3, [0] * 6, [-1, 0, 0, -1, 0, 0]]
    fl = [r[:nd] for r in fl]
    for k, (i, j) in enumerate(((0, nd - 1), (1, 0), (1, 3), (2, 2), (2, nd - 1))):
        fl[i][j] = ctx.integer("f%d" % k, -1, 0)
    cs = [[2, 0], [1, 2]]
    els = ctx.array([[eid(ctx, e), 21 + e, 0] + c for e, c in enumerate(cs)])
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=nd, ndof_el_max=2 * nd, ndof_el=lambda t: 2 * nd)
    n, t = number(fixed_flags(ctx, fl))
    ctx.eq("number of equations", neq, n)
    ctx.eq("numbering", bc, t)
    ctx.eq("operator", [r[:2 * nd] for r in ctx.values(am)], [[t[k][j] for k in c for j in range(nd)] for c in cs])


@CASES("sizes", weight=6, args=[(str(n), dict(nn=n)) for n in (7, 13, 24, 41, 70, 130, 330)])
def sizes(ctx, nn):
    """meshes of every order of magnitude: chains of members, restraints at symbolic places"""
    fl = [[-1 if (7 * i + 3 * j) % 11 == 0 else 0 for j in range(2)] for i in range(nn)]
    for k, (i, j) in enumerate(((0, 1), (nn // 2, 0), (nn - 1, 1))):
        fl[i][j] = ctx.integer("f%d" % k, -1, 0)
    cs = [[i, i + 1] if i % 3 else [i + 1, i] for i in range(nn - 1)] + [[nn - 1, 0]]
    els = ctx.array([[7 + 3 * e, 5 + e % 2, 0] + c for e, c in enumerate(cs)])
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els)
    n, t = number(fixed_flags(ctx, fl))
    ctx.eq("number of equations", neq, n)
    ctx.eq("numbering", bc, t)
    ctx.eq("operator", [r[:4] for r in ctx.values(am)], [[t[k][j] for k in c for j in range(2)] for c in cs])


@CASES("user-codes", weight=2, max_paths=400)
def user_codes(ctx):
    """the user's sizes decide for every type code, also those of built-in elements"""
    a, b = ctx.is_int(ctx.integer("a", -1, 12)), ctx.is_int(ctx.choice("b", [3, 8, 17, 30, 101]))
    size = {a: 4, b: 6} if a != b else {a: 4}
    c = [[0, 1], [2, 1, 3] if a != b else [2, 1]]
    f = ctx.integer("f", -1, 0)
    fl = [[0, f], [0, 0], [-1, 0], [0, 0]]
    els = [[0, a, 0] + c[0] + ([1] if a != b else []), [1, b, 0] + c[1]]
    asked = []

    def ndof_el(iet):
        asked.append(iet)
        return 6 if a != b else 4
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), ctx.array(els), ndof_el=ndof_el)
    n, t = number(fixed_flags(ctx, fl))
    ctx.eq("number of equations", neq, n)
    ctx.eq("asked types", asked, [a, b])
    for e in range(2):
        want = [t[k][j] for k in els[e][3:] for j in range(2)]
        ctx.eq("operator row %d" % e, ctx.values(am)[e][:len(want)], want)
