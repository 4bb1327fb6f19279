"""from a mesh with physical groups to the answer"""
from hlib import *
from elems import *
import c27
CASES = Cases()
BOUNDS = ("a rectangle of 1x1 to 3x2 cells (3-, 6-node triangles, 4-node quadrilaterals), one or two surface groups with their own material (in either order), supports on one or two edges and resultant loads on one or two others, "
          "given by line groups; every resultant in [-10,10], place and z coordinate of the points free; extra cells and groups that are not used; arrays and files; "
          "grids of rect_grid of 2x1, 4x2 and 5x2 elements in three sizes, pulled and sheared, and bars of up to 12 cells pulled, where the exact answer is uniform")
OUTSIDE = "other meshes; rounding and conditioning of the linear solver; meshio itself; edges of groups that share nodes with other groups (the last call holds)"
KIND = {"triangle": ("tri3", 3), "triangle6": ("tri6", 2), "quad": ("quad4", 1)}


def mesh(ctx, kind, nx, ny, jag=.125):
    """points (with a free place and height), cells by column, boundary lines by edge; edges do not share corner nodes: left and right whole, others without the ends"""
    P, at = [], {}

    def node(i, j):                     # in half steps
        if (i, j) not in at:
            at[i, j] = len(P)
            inner = 0 < i < 2 * nx and 0 < j < 2 * ny and kind != "triangle6"
            P.append([.5 * i + (jag if inner else 0.0), .5 * j - (jag if inner and i % 4 else 0.0)])
        return at[i, j]
    cells = []
    for r in range(ny):
        for c in range(nx):
            i, j = 2 * c, 2 * r
            a, b, d, e = node(i, j), node(i + 2, j), node(i + 2, j + 2), node(i, j + 2)
            if kind == "quad":
                cells.append((c, [a, b, d, e]))
            elif kind == "triangle":
                cells += [(c, [a, b, d]), (c, [d, e, a])]
            else:
                m = node(i + 1, j + 1)
                cells += [(c, [a, b, d, node(i + 1, j), node(i + 2, j + 1), m]), (c, [d, e, a, node(i + 1, j + 2), node(i, j + 1), m])]
    step = 1 if kind == "triangle6" else 2
    left = [at[0, j] for j in range(0, 2 * ny + 1, step)]
    right = [at[2 * nx, j] for j in range(0, 2 * ny + 1, step)]
    top = [at[i, 2 * ny] for i in range(step, 2 * nx, step)]
    edge = lambda v: [[a, b] if k % 2 else [b, a] for k, (a, b) in enumerate(zip(v, v[1:]))]
    o = [ctx.real("ox", -3, 3), ctx.real("oy", -3, 3), ctx.real("oz", -3, 3)]
    pts = [[p[0] + o[0], p[1] + o[1], o[2] + .25 * k] for k, p in enumerate(P)]
    return pts, cells, {"left": edge(left), "right": edge(right), "top": edge(top)}, {"left": left, "right": right, "top": top}


def same(ctx, lab, got, A):
    u, E, S = got
    ctx.eq(lab + "displacement", u, A["u"], tol=1e-6, scale=10)
    ctx.eq(lab + "strain", E, A["E"], tol=1e-6, scale=10)
    ctx.eq(lab + "stress", S, A["S"], tol=1e-6, scale=10)


CHAIN = [(k, nx, ny, two) for k in KIND for nx, ny in ((1, 1), (2, 1), (3, 2)) for two in (0, 1) if (nx > 1 or not two) and not (k == "triangle6" and nx == 3)]


@CASES("groups", weight=4, budget=110, args=[("%s-%dx%d-%d" % c, dict(kind=c[0], nx=c[1], ny=c[2], two=c[3])) for c in CHAIN])
def groups(ctx, kind, nx, ny, two):
    """tables written by the helpers against the same model by hand"""
    pts, cl, edge, on = mesh(ctx, kind, nx, ny)
    name, typ = KIND[kind]
    order = ctx.choice("order", ["first", "second"]) if two else "first"
    tag = {"left": 300, "right": 200, "top": 100}
    lines, lt = [], []
    for e in ("top", "left", "right"):
        lines += edge[e]
        lt += [tag[e]] * len(edge[e])
    # a second loaded group: a closed contour or separate pieces
    extra = edge["right"][:1] + edge["left"][:1]
    if nx == 1:
        c = cl[0][1][:3 if kind != "quad" else 4]
        extra = [[c[k - 1], c[k]] for k in range(len(c))]
    lines += extra
    lt += [400] * len(extra)
    lines += [[0, 0]]                               # a group that nobody asks for
    lt += [900]
    surf = [1000 + (c % 2 if two else 0) for c, _ in cl]
    cells = {"line": ctx.array(lines), kind: ctx.array([c for _, c in cl]), "vertex": ctx.array([[0]])}
    data = {"line": {"gmsh:physical": ctx.array(lt)}, kind: {"gmsh:physical": ctx.array(surf), "gmsh:geometrical": ctx.array([1] * len(surf))},
            "vertex": {"gmsh:physical": ctx.array([7])}}
    pre = ctx.m.pre
    E = [2.0, 3.0]
    mats = [[7.0, .4, 5.0], [E[1], .125, 1.0], [E[0], .25, 1.0]]
    tabs, n = [], 0
    which = ([(1000, 2), (1001, 1)] if order == "first" else [(1001, 1), (1000, 2)]) if two else [(1000, 2)]
    for g, m in which:
        n, t = pre.ele_writer(cells, data, kind, g, typ, m, n)
        tabs.append(t)
    ctx.eq("elements written", n, len(cl), tol=0, strict=True)
    els = ctx.np.vstack(tabs)
    nodes = pre.node_writer(ctx.farray(pts), {})
    nodes = pre.boundary_conditions(cells, data, 300, nodes, -1, -1)
    P = [ctx.real("Px", -10, 10), ctx.real("Py", -10, 10)]
    loads = pre.loading(cells, data, 200, P[0], P[1])
    Q = None
    if len(edge["top"]) and nx > 1:
        Q = ctx.real("Q", -10, 10)
        loads = ctx.np.vstack((loads, pre.loading(cells, data, 100, 0.0, Q)))
    R = [ctx.real("Rx", -10, 10), ctx.real("Ry", -10, 10)]
    loads = ctx.np.vstack((loads, pre.loading(cells, data, 400, R[0], R[1])))
    D = {"nodes": nodes[:, :3], "cons": nodes[:, 3:], "elements": els, "mats": ctx.farray(mats), "loads": loads}
    # by hand, in the order of the cells
    ref = [(m, c) for g, m in which for (k, c), s in zip(cl, surf) if s == g]
    M = c27.Model(name, [p[:2] for p in pts], ref, mats, on["left"])
    M.loads = [[k, P[0] / len(on["right"]), P[1] / len(on["right"])] for k in on["right"]]
    if Q is not None:
        k = sorted(set(v for e in edge["top"] for v in e))
        M.loads += [[i, 0.0, Q / len(k)] for i in k]
    k = sorted(set(v for e in extra for v in e))
    M.loads += [[i, R[0] / len(k), R[1] / len(k)] for i in k]
    A = c27.analyse(ctx, M)
    same(ctx, "", ctx.m.gui.solids_auto(D, plot_contours=False, compute_strains=True), A)
    F = ctx.files({"nodes.txt": rows(ctx, nodes, (0, 3, 4)), "eles.txt": rows(ctx, els, range(len(ref[0][1]) + 3)), "mater.txt": mats, "loads.txt": rows(ctx, loads, (0,))})
    same(ctx, "files: ", ctx.m.gui.solids_GUI(plot_contours=False, compute_strains=True, folder=F), A)


def rows(ctx, A, ints):
    return [[ctx.is_int(v) if j in ints else v for j, v in enumerate(r)] for r in ctx.values(A)]


@CASES("pulled", weight=3, budget=110, args=[("%s-%d" % (k, n), dict(kind=k, n=n)) for k in KIND for n in (2, 4, 12) if not (k == "triangle6" and n == 12)])
def pulled(ctx, kind, n):
    """a bar one cell high, held on rollers at its left end, pulled by a resultant: uniform for linear elements"""
    pts, cl, edge, on = mesh(ctx, kind, n, 1)
    name, typ = KIND[kind]
    cells = {"line": ctx.array(edge["left"] + edge["right"]), kind: ctx.array([c for _, c in cl])}
    data = {"line": {"gmsh:physical": ctx.array([5] * len(edge["left"]) + [6] * len(edge["right"]))}, kind: {"gmsh:physical": ctx.array([1] * len(cl))}}
    pre = ctx.m.pre
    k, els = pre.ele_writer(cells, data, kind, 1, typ, 0, 0)
    nodes = pre.boundary_conditions(cells, data, 5, pre.node_writer(ctx.farray(pts), {}), -1, 0)
    nodes[on["left"][0], 4] = -1
    P = ctx.real("P", -10, 10)
    L = pre.loading(cells, data, 6, P, 0.0)
    if kind == "triangle6":                          # consistent shares of a quadratic edge
        w = {on["right"][0]: 1 / 6, on["right"][1]: 4 / 6, on["right"][2]: 1 / 6}
        V = ctx.values(L)
        L = ctx.farray([[r[0], r[1] * 3 * w[ctx.is_int(r[0])], 0.0] for r in V])
    u, E, S = ctx.m.gui.solids_auto({"nodes": nodes[:, :3], "cons": nodes[:, 3:], "elements": els, "mats": ctx.farray([[2.0, .25]]), "loads": L},
                                    plot_contours=False, compute_strains=True)
    u, E, S = ctx.values(u), ctx.values(E), ctx.values(S)
    for i, p in enumerate(pts):
        ctx.eq("displacement", u[i], [P / 2 * (p[0] - pts[0][0]), -P / 8 * (p[1] - pts[0][1])], tol=1e-6, scale=10)
        ctx.eq("strain", E[i], [P / 2, -P / 8, 0.0], tol=1e-6, scale=10)
        ctx.eq("stress", S[i], [P, 0.0, 0.0], tol=1e-6, scale=10)


@CASES("grid", weight=3, budget=110, args=[("%dx%d-%s" % (a, b, w), dict(nx=a, ny=b, how=w)) for a, b in ((2, 1), (4, 2), (5, 2)) for w in ("pull", "shear")])
def grid(ctx, nx, ny, how):
    """rect_grid with supports and loads on its edges: uniform stretch, uniform shear"""
    l, h = [float(v) for v in ctx.choice("size", [(2, 1), (8, 4), (3, .5)])]
    x, y, els = ctx.m.pre.rect_grid(l, h, nx, ny)
    X, Y = ctx.values(x), ctx.values(y)
    n = len(X)
    cons = [[0, 0] for _ in range(n)]
    P = ctx.real("P", -10, 10)
    loads = []
    near = lambda a, b: abs(a - b) < 1e-9
    for i in range(n):
        ends = near(abs(Y[i]), h / 2)
        if how == "pull":
            if near(X[i], -l / 2):
                cons[i] = [-1, -1 if near(Y[i], -h / 2) else 0]
            elif near(X[i], l / 2):
                loads.append([i, P * h / ny * (.5 if ends else 1.0), 0.0])
        else:
            if near(X[i], -l / 2) and near(Y[i], -h / 2):
                cons[i] = [-1, -1]
            elif near(X[i], l / 2) and near(Y[i], -h / 2):
                cons[i] = [0, -1]
            f = [0.0, 0.0]
            if near(abs(X[i]), l / 2):
                f[1] = f[1] + P * h / ny * (.5 if ends else 1.0) * (1 if X[i] > 0 else -1)
            if near(abs(Y[i]), h / 2):
                f[0] = f[0] + P * l / nx * (.5 if near(abs(X[i]), l / 2) else 1.0) * (1 if Y[i] > 0 else -1)
            loads.append([i] + f)
    nodes = ctx.farray([[i, X[i], Y[i]] for i in range(n)])
    u, E, S = ctx.m.gui.solids_auto({"nodes": nodes, "cons": ctx.array(cons), "elements": els, "mats": ctx.farray([[2.0, .25]]), "loads": ctx.farray(loads)},
                                    plot_contours=False, compute_strains=True)
    u, E, S = ctx.values(u), ctx.values(E), ctx.values(S)
    g = P / .8                                       # shear modulus 2 / (2 * 1.25)
    for i in range(n):
        if how == "pull":
            ctx.eq("displacement", u[i], [P / 2 * (X[i] + l / 2), -P / 8 * (Y[i] + h / 2)], tol=1e-6, scale=10)
            ctx.eq("stress", S[i], [P, 0.0, 0.0], tol=1e-6, scale=10)
        else:
            ctx.eq("displacement", u[i], [g * (Y[i] + h / 2), 0.0], tol=1e-6, scale=10)
            ctx.eq("strain", E[i], [0.0, 0.0, g], tol=1e-6, scale=10)
            ctx.eq("stress", S[i], [0.0, 0.0, P], tol=1e-6, scale=10)
