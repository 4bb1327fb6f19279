"""figures: which numbers are drawn where"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("fields of one to six and twelve columns and single vectors over meshes of every 2-D continuum type; both drawing styles; titles, window titles, levels and file names given or not; "
          "trusses of one to four members (places and areas partly free: of 7, 20, 60 and 230, three members in a node table of 70001 rows) with symbolic node positions, areas, element numbers and stresses of either sign; the analysis drivers (arrays and files) with and without strains and contours; integer tables, fields and stresses")
OUTSIDE = ("what matplotlib paints for the values it is given (rendering, colour bars, contour levels, writing the file); trusses drawn without stresses (colour); "
           "default window numbers when figures were closed out of order; areas of a truss closer to each other than 1e-5")
ASSUME = ["matplotlib is a recorder in the symbolic runs (lib/plots.py): it keeps the figure, the triangulation and the values handed to it and refuses what the real functions refuse; replays record the calls to the real axes and figures (lib/plots_real.py)"]
TYP = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4, "spring": 5, "truss": 6, "beam": 7, "beamU": 8}
TWO = {"tri3": ([(0, 0), (1, 0), (0, 1), (1, 1)], [[0, 1, 2], [3, 2, 1]]),
       "tri6": ([(0, 0), (1, 0), (0, 1), (.5, 0), (.5, .5), (0, .5), (1, 1), (.5, 1), (1, .5)], [[0, 1, 2, 3, 4, 5], [6, 2, 1, 7, 4, 8]]),
       "quad4": ([(-1, -1), (1, -1), (1, 1), (-1, 1), (3, -1), (3, 1)], [[0, 1, 2, 3], [1, 4, 5, 2]]),
       "quad9": (S2["quad9"], [list(range(9))])}


def mesh(ctx, shape):
    P, C = TWO[shape]
    s, x, y = ctx.real("s", .5, 2), ctx.real("x", -3, 3), ctx.real("y", -3, 3)
    xy = [[s * p[0] + x, s * p[1] + y] for p in P]
    return xy, ctx.farray([[float(i), p[0], p[1]] for i, p in enumerate(xy)]), ctx.array([[eid(ctx, e), TYP[shape], 0] + c for e, c in enumerate(C)])


def on_mesh(ctx, lab, d, xy, nodes, els, values):
    """one drawing: the mesh's triangulation and one value per node"""
    ctx.true(lab + "kind", d["kind"] in ("contourf", "pcolor"))
    if d["kind"] == "line":
        return
    ctx.eq(lab + "x", d["tri"].x, [p[0] for p in xy], tol=0, strict=True)
    ctx.eq(lab + "y", d["tri"].y, [p[1] for p in xy], tol=0, strict=True)
    ref = ctx.m.pos.mesh2tri(nodes, els)
    ctx.true(lab + "triangles", ctx.values(d["tri"].triangles) == ctx.values(ref.triangles))
    ctx.eq(lab + "values", d["z"], values, tol=0, strict=True)


def column(F, k):
    return [r[k] if isinstance(r, list) else r for r in F]


@CASES("field", args=[("%s-%s-%s" % (s, n, kind), dict(shape=s, n=n, kind=kind)) for s, n, kind in (
    ("tri3", 1, "contourf"), ("tri3", 0, "pcolor"), ("tri3", 2, "contourf"), ("quad4", 2, "pcolor"), ("quad4", 3, "contourf"), ("tri6", 2, "contourf"),
    ("quad9", 3, "pcolor"), ("quad9", 0, "contourf"), ("tri3", 5, "contourf"), ("quad4", 6, "pcolor"), ("tri3", 12, "contourf"))])
def _(ctx, shape, n, kind):
    """one figure per column (n = 0: a plain vector)"""
    xy, nodes, els = mesh(ctx, shape)
    k = max(n, 1)
    F = [[ctx.real("v%d_%d" % (i, j), -5, 5) for j in range(k)] for i in range(len(xy))]
    G = F if n else [r[0] for r in F]
    fld = ctx.farray(G)
    kw = {} if kind == "contourf" else {"plt_type": kind}
    named = ctx.choice("named", [0, 1])
    if named:
        kw.update(title=["T%d" % j for j in range(k)], figtitle=["W%d" % j for j in range(k)], levels=7)
    save = ctx.choice("save", [0, 1, 2])
    if save:
        kw["savefigs"] = True
    if save == 2:
        kw["filename"] = ["name_%s.png" % "cabzyxwvutsr"[j] for j in range(k)]
    ctx.m.pos.plot_node_field(fld, nodes, els, **kw)
    figs = ctx.plots()
    ctx.true("one figure per column", len(figs) == k)
    if len(figs) != k:
        return
    for j, f in enumerate(figs):
        ctx.true("one drawing", len(f["draws"]) == 1)
        if len(f["draws"]) != 1:
            return
        d = f["draws"][0]
        ctx.true("style", d["kind"] == kind)
        on_mesh(ctx, "", d, xy, nodes, els, column(F, j))
        ctx.true("title", f["title"] == ("T%d" % j if named else ""))
        if named:
            ctx.true("window", f["label"] == "W%d" % j)
        if kind == "contourf":
            ctx.true("levels", ctx.is_int(d["levels"]) == (7 if named else 12))
        want = [] if not save else ["output%d.pdf" % j] if save == 1 else [kw["filename"][j]]
        ctx.true("saved", sorted(set(q[0] for q in f["saved"])) == want)
        ctx.true("saved after drawing", all(q[1] == 1 for q in f["saved"]))
    ctx.eq("field kept", fld, G, tol=0, strict=True)


@CASES("field-again", args=[("", {})])
def _(ctx):
    """a second field gets figures of its own"""
    xy, nodes, els = mesh(ctx, "tri3")
    F = [[[ctx.real("%s%d_%d" % (t, i, j), -5, 5) for j in range(2)] for i in range(4)] for t in "ab"]
    for q in F:
        ctx.m.pos.plot_node_field(ctx.farray(q), nodes, els)
    figs = ctx.plots()
    ctx.true("four figures", len(figs) == 4 and all(len(f["draws"]) == 1 for f in figs))
    if len(figs) == 4:
        for j, f in enumerate(figs):
            on_mesh(ctx, "", f["draws"][0], xy, nodes, els, column(F[j // 2], j % 2))


@CASES("tri-plot", args=[(k, dict(kind=k)) for k in ("contourf", "pcolor")])
def _(ctx, kind):
    xy, nodes, els = mesh(ctx, "quad4")
    v = [ctx.real("v%d" % i, -5, 5) for i in range(6)]
    tri = ctx.m.pos.mesh2tri(nodes, els)
    save = ctx.choice("save", [0, 1])
    ctx.m.pos.tri_plot(tri, ctx.farray(v), title="T", levels=5, savefigs=bool(save), plt_type=kind, filename="F.pdf")
    figs = ctx.plots()
    ctx.true("figure", len(figs) == 1 and len(figs[0]["draws"]) == 1)
    f = figs[0]
    ctx.true("style", f["draws"][0]["kind"] == kind)
    on_mesh(ctx, "", f["draws"][0], xy, nodes, els, v)
    ctx.true("title", f["title"] == "T")
    ctx.true("levels", kind == "pcolor" or ctx.is_int(f["draws"][0]["levels"]) == 5)
    ctx.true("saved", [q[0] for q in f["saved"]] == (["F.pdf"] if save else []))


NAMES = {"u": ["u_x", "u_y"], "E": ["\\epsilon_{xx}", "\\epsilon_{yy}", "\\gamma_{xy}"], "S": ["\\sigma_{xx}", "\\sigma_{yy}", "\\tau_{xy}"]}


def by_title(ctx, figs, sym):
    hit = [f for f in figs if sym in f["title"]]
    ctx.true("one figure titled " + sym, len(hit) == 1 and len(hit[0]["draws"]) == 1)
    return hit[0] if len(hit) == 1 and len(hit[0]["draws"]) == 1 else None


def check_fields(ctx, xy, nodes, els, given):
    figs = ctx.plots()
    ctx.true("number of figures", len(figs) == sum(len(NAMES[k]) for k in given))
    for k, F in given.items():
        for j, sym in enumerate(NAMES[k]):
            f = by_title(ctx, figs, sym)
            if f is None:
                return
            on_mesh(ctx, k + " ", f["draws"][0], xy, nodes, els, column(F, j))
            ctx.true("not saved", not f["saved"])
    ctx.true("windows told apart", len(set((f["label"], f["number"]) for f in figs)) == len(figs))


@CASES("fields", args=[("%s-%s" % (s, g), dict(shape=s, g=g)) for s in ("tri3", "quad4", "tri6") for g in ("u", "uE", "uS", "uES")])
def _(ctx, shape, g):
    xy, nodes, els = mesh(ctx, shape)
    n = len(xy)
    F = {k: [[ctx.real("%s%d_%d" % (k, i, j), -5, 5) for j in range(len(NAMES[k]))] for i in range(n)] for k in g}
    kw = {n_: ctx.farray(F[k]) for k, n_ in (("E", "E_nodes"), ("S", "S_nodes")) if k in g}
    ctx.m.pos.fields_plot(els, nodes, ctx.farray(F["u"]), **kw)
    check_fields(ctx, xy, nodes, els, F)


@CASES("structural", args=[(t, dict(t=t)) for t in ("spring", "truss", "beam", "beamU")])
def _(ctx, t):
    """meshes with structural members are not drawn as contours"""
    nodes = ctx.farray([[i, ctx.real("x%d" % i, 0, 1) + i, ctx.real("y%d" % i, -1, 1)] for i in range(3)])
    els = ctx.array([[0, TYP[t], 0, 0, 1], [1, ctx.choice("second", [5, 6, 7, 8]), 0, 1, 2]])
    u = [[ctx.real("u%d_%d" % (i, j), -1, 1) for j in range(3)] for i in range(3)]
    d = ctx.farray(u)
    ctx.m.pos.fields_plot(els, nodes, d)
    ctx.true("nothing drawn", not ctx.plots())
    ctx.eq("displacements kept", d, u, tol=0, strict=True)


# ---------------------------------------------------------------- trusses
def truss(ctx, conn, nmat, ids=None, cols=3):
    nn = max(max(c) for c in conn) + 1
    xy = [[ctx.real("x%d" % i, -5, 5), ctx.real("y%d" % i, -5, 5)] for i in range(nn)]
    nodes = ctx.farray([[float(i), p[0], p[1]] + [0.0, -1.0][:cols - 3] for i, p in enumerate(xy)])
    A = [ctx.real("A%d" % k, .1, 5) for k in range(nmat)]
    mats = ctx.farray([[3.0, a] for a in A])
    return xy, nodes, A, mats


def lines(ctx, conn, xy):
    figs = ctx.plots()
    ctx.true("one figure", len(figs) == 1)
    if len(figs) != 1:
        return None
    dr = figs[0]["draws"]
    ctx.true("one line per member", len(dr) == len(conn) and all(d["kind"] == "line" for d in dr))
    if len(dr) != len(conn):
        return None
    for d, c in zip(dr, conn):
        ctx.eq("member x", d["x"], [xy[i][0] for i in c], tol=0, strict=True)
        ctx.eq("member y", d["y"], [xy[i][1] for i in c], tol=0, strict=True)
    return dr


CONN = {1: [[0, 1]], 2: [[0, 1], [2, 1]], 3: [[0, 1], [2, 1], [0, 2]], 4: [[1, 0], [2, 1], [0, 2], [1, 3]]}


@CASES("truss", args=[("%d-%s" % (n, ids), dict(n=n, ids=ids)) for n in (1, 2, 3) for ids in ("consecutive", "other")]
       + [("4-other", dict(n=4, ids="other"))])
def _(ctx, n, ids):
    """places, colours and widths"""
    conn = CONN[n]
    nm = min(n, 3) if n < 4 else 1
    xy, nodes, A, mats = truss(ctx, conn, nm, cols=5)
    mt = [(e + 1) % nm for e in range(n)]
    if ids == "other":
        no = [ctx.integer("id%d" % e, 0, 3 * n + 5) for e in range(n)]
    else:
        no = list(range(n))
    els = ctx.array([[no[e], 6, mt[e]] + c for e, c in enumerate(conn)])
    S = [ctx.real("S%d" % e, -5, 5) for e in range(n)]
    for s in S[:1]:
        ctx.assume((s > 0.001) | (s < -0.001))
    named = ctx.choice("named", [0, 1]) if n != 3 else 1
    kw = dict(title="T", figtitle="W", savefigs=True, filename="F.pdf") if named else {}
    lo, hi = ctx.real("lo", .1, 2), ctx.real("hi", 2.5, 6)
    spread = ctx.choice("spread", [0, 1]) if nm > 1 else 0
    if spread:
        ctx.assume((A[1] - A[0] > 0.001) | (A[0] - A[1] > 0.001))
    else:
        A = [A[0]] * nm
        mats = ctx.farray([[3.0, a] for a in A])
    ctx.m.pos.plot_truss(nodes, els, mats, stresses=ctx.farray(S), max_val=hi, min_val=lo, **kw)
    dr = lines(ctx, conn, xy)
    if dr is None:
        return
    # colour: affine in the stress, symmetric about zero, extreme stress at an end of the map
    c = [ctx.colour_value(d["color"]) for d in dr]
    ctx.true("coloured by the map", all(v is not None for v in c))
    if any(v is None for v in c):
        return
    m = S[0]
    for s in S:
        for q in (s, -s):
            m = ctx.larger(m, q)
    for v, s in zip(c, S):
        ctx.eq("colour", 2 * m * v, s + m)
    w = [d["lw"] for d in dr]
    if spread:
        a0, a1 = A[0], A[0]
        for a in A:
            a1 = ctx.larger(a1, a)
            a0 = -ctx.larger(-a0, -a)
        for v, k in zip(w, mt):
            ctx.eq("width", (v - lo) * (a1 - a0), (hi - lo) * (A[k] - a0), scale=10)
    else:
        for v in w:
            ctx.eq("equal areas, equal widths", v, w[0])
            ctx.le("visible", 1e-3, v)
    f = ctx.plots()[0]
    if named:
        ctx.true("title", f["title"] == "T" and f["label"] == "W")
        ctx.true("saved after drawing", f["saved"] == [("F.pdf", n)])
    else:
        ctx.true("not saved", not f["saved"])


@CASES("truss-unstressed")
def _(ctx):
    """no stress anywhere: neutral colour, in place"""
    conn = CONN[3]
    xy, nodes, A, mats = truss(ctx, conn, 1)
    els = ctx.array([[eid(ctx, e), 6, 0] + c for e, c in enumerate(conn)])
    ctx.m.pos.plot_truss(nodes, els, mats, stresses=ctx.farray([0.0, 0.0, 0.0]))
    dr = lines(ctx, conn, xy)
    if dr is not None:
        for d in dr:
            ctx.eq("neutral", ctx.colour_value(d["color"]), 0.5)


@CASES("truss-plain")
def _(ctx):
    """without stresses: members in place, widths by area"""
    conn = CONN[3]
    xy, nodes, A, mats = truss(ctx, conn, 2)
    ctx.assume(A[1] - A[0] > 0.001)
    els = ctx.array([[eid(ctx, e), 6, e % 2] + c for e, c in enumerate(conn)])
    ctx.m.pos.plot_truss(nodes, els, mats)
    dr = lines(ctx, conn, xy)
    if dr is not None:
        ctx.eq("width", [d["lw"] for d in dr], [.5, 4, .5])


# ---------------------------------------------------------------- the driver
@CASES("driver", args=[("%s-%d" % (s, k), dict(shape=s, k=k)) for s in ("tri3", "quad4") for k in (0, 1)])
def _(ctx, shape, k):
    """the analysis draws the fields it returns"""
    P, C = TWO[shape]
    xy = [[2.0 * p[0] + .25 * p[1], 1.5 * p[1]] for p in P]
    nodes = ctx.farray([[float(i), p[0], p[1]] for i, p in enumerate(xy)])
    els = ctx.array([[eid(ctx, e), TYP[shape], 0] + c for e, c in enumerate(C)])
    free = {"tri3": [(1, 0), (3, 1)], "quad4": [(2, 0), (5, 1)]}[shape]
    cons = ctx.array([[0 if (n, i) in free else -1 for i in range(2)] for n in range(len(P))])
    loads = ctx.farray([[n, ctx.real("P%d" % n, -10, 10), ctx.real("Q%d" % n, -10, 10)] for n, _ in free])
    D = dict(nodes=nodes, cons=cons, elements=els, mats=ctx.farray([[3.0, .25]]), loads=loads)
    r = ctx.m.gui.solids_auto(D, compute_strains=bool(k))
    given = {"u": ctx.values(r[0] if k else r)}
    if k:
        given["E"], given["S"] = ctx.values(r[1]), ctx.values(r[2])
    check_fields(ctx, xy, nodes, els, given)


@CASES("driver-quiet")
def _(ctx):
    xy, nodes, els = mesh(ctx, "tri3")
    cons = ctx.array([[-1, -1], [0, -1], [-1, -1], [-1, 0]])
    D = dict(nodes=nodes, cons=cons, elements=els, mats=ctx.farray([[3.0, .25]]), loads=ctx.farray([[3.0, ctx.real("P", -5, 5), 1.0]]))
    ctx.m.gui.solids_auto(D, plot_contours=False, compute_strains=bool(ctx.choice("k", [0, 1])))
    ctx.true("nothing drawn", not ctx.plots())


@CASES("driver-files", args=[("%s-%d%d" % (s, p, k), dict(shape=s, p=p, k=k)) for s in ("tri3", "quad4") for p in (0, 1) for k in (0, 1)])
def _(ctx, shape, p, k):
    """the analysis of a folder draws the fields it returns, if asked to"""
    P, C = TWO[shape]
    xy = [[2.0 * p[0] + .25 * p[1], 1.5 * p[1]] for p in P]
    free = {"tri3": [(1, 0), (3, 1)], "quad4": [(2, 0), (5, 1)]}[shape]
    cons = [[0 if (n, i) in free else -1 for i in range(2)] for n in range(len(P))]
    E = [[e, TYP[shape], 0] + c for e, c in enumerate(C)]
    fo = ctx.files({"nodes.txt": [[i, q[0], q[1]] + cons[i] for i, q in enumerate(xy)], "eles.txt": E, "mater.txt": [[3.0, .25]],
                    "loads.txt": [[n, ctx.real("P%d" % n, -10, 10), ctx.real("Q%d" % n, -10, 10)] for n, _ in free]})
    r = ctx.m.gui.solids_GUI(plot_contours=bool(p), compute_strains=bool(k), folder=fo)
    if not p:
        ctx.true("nothing drawn", not ctx.plots())
        return
    given = {"u": ctx.values(r[0] if k else r)}
    if k:
        given["E"], given["S"] = ctx.values(r[1]), ctx.values(r[2])
    check_fields(ctx, xy, ctx.farray([[float(i), q[0], q[1]] for i, q in enumerate(xy)]), ctx.array(E), given)


@CASES("truss-larger", args=[(str(n), dict(n=n)) for n in (7, 20, 60, 230)])
def _(ctx, n):
    """many members and material rows: places, colours and widths"""
    xy = [[3.0 * i, 4.0 * (i % 2)] for i in range(n + 1)]
    for i in (0, n // 2, n):
        xy[i] = [ctx.real("x%d" % i, -5, 5), ctx.real("y%d" % i, -5, 5)]
    conn = [[(3 * e) % n, (3 * e) % n + 1][::1 - 2 * (e % 2)] for e in range(n)]
    nm = 2 + n // 3
    A = [.5 + .25 * ((3 * k) % 7) for k in range(nm)]
    A[1], A[0] = ctx.real("Amax", 3, 9), ctx.real("Amin", .1, .4)
    mt = [(2 * e + 1) % nm for e in range(n)]
    els = ctx.array([[(5 * e) % 17, 6, mt[e]] + c for e, c in enumerate(conn)])
    nodes = ctx.farray([[float(i), p[0], p[1], 0.0, -1.0, 3.0][:3 + n % 4] for i, p in enumerate(xy)])
    S = [float((e * 5) % 11 - 5) for e in range(n)]
    S[0], S[n - 1], S[n // 2] = ctx.real("S0", -20, -10), ctx.real("S1", 0, 9), ctx.real("S2", -6, 6)
    ctx.m.pos.plot_truss(nodes, els, ctx.farray([[3.0, a, 1.0] for a in A]), stresses=ctx.farray(S))
    dr = lines(ctx, conn, xy)
    if dr is None:
        return
    for d, s, k in zip(dr, S, mt):
        v = ctx.colour_value(d["color"])
        ctx.true("coloured by the map", v is not None)
        if v is not None:
            ctx.eq("colour", -2 * S[0] * v, s - S[0])
        ctx.eq("width", (d["lw"] - .5) * (A[1] - A[0]), 3.5 * (A[k] - A[0]), scale=10)


@CASES("truss-scale", args=[("small", dict(s=1e-4, q=1e8)), ("large", dict(s=1e4, q=1e-8)), ("tiny-stress", dict(s=1.0, q=1e-8))])
def _(ctx, s, q):
    """areas of any unit above a square millimetre, stresses of any unit"""
    conn = CONN[3]
    xy, nodes, A, _ = truss(ctx, conn, 3)
    ctx.assume((A[0] - A[1] > .1) & (A[1] - A[2] > .1))
    S = [ctx.real("S%d" % e, -5, 5) for e in range(2)] + [ctx.real("S2", 6, 9)]
    els = ctx.array([[eid(ctx, e), 6, e] + c for e, c in enumerate(conn)])
    ctx.m.pos.plot_truss(nodes, els, ctx.farray([[3.0, s * a] for a in A]), stresses=ctx.farray([q * v for v in S]))
    dr = lines(ctx, conn, xy)
    if dr is None:
        return
    for e, d in enumerate(dr):
        v = ctx.colour_value(d["color"])
        ctx.true("coloured by the map", v is not None)
        if v is not None:
            ctx.eq("colour", 2 * S[2] * v, S[e] + S[2], tol=1e-6)
        ctx.eq("width", (d["lw"] - .5) * (A[0] - A[2]), 3.5 * (A[e] - A[2]), tol=1e-6)


@CASES("truss-huge-table")
def _(ctx):
    """node numbers beyond 16 bits"""
    np = ctx.np
    nn = 70001
    conn = [[nn - 1, 33000], [12, 65540], [65540, nn - 1]]
    xy = {k: [ctx.real("x%d" % i, -5, 5), ctx.real("y%d" % i, -5, 5)] for i, k in enumerate((nn - 1, 33000, 12, 65540))}
    nodes = np.zeros((nn, 5))
    for k, p in xy.items():
        nodes[k, 1] = p[0]
        nodes[k, 2] = p[1]
    S = [ctx.real("S%d" % e, -5, 5) for e in range(2)] + [ctx.real("S2", 6, 9)]
    els = ctx.array([[e, 6, e % 2] + c for e, c in enumerate(conn)])
    ctx.m.pos.plot_truss(nodes, els, ctx.farray([[3.0, .5], [2.0, 1.5]]), stresses=ctx.farray(S))
    dr = lines(ctx, conn, xy)
    if dr is None:
        return
    for e, d in enumerate(dr):
        v = ctx.colour_value(d["color"])
        ctx.true("coloured by the map", v is not None)
        if v is not None:
            ctx.eq("colour", 2 * S[2] * v, S[e] + S[2])
        ctx.eq("width", d["lw"], 4.0 if e % 2 else .5)


@CASES("truss-integers")
def _(ctx):
    """stresses, areas and coordinates given as integers"""
    conn = CONN[3]
    i, j = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", 4, 6))
    xy = [[0, 0], [3, 1 + i], [1, j]]
    A = [2, j + 1, 3]
    S = [1, i, -j]
    els = ctx.array([[eid(ctx, e), 6, e] + c for e, c in enumerate(conn)])
    ctx.m.pos.plot_truss(ctx.array([[e] + p for e, p in enumerate(xy)]), els, ctx.array([[7, a] for a in A]), stresses=ctx.array(S))
    dr = lines(ctx, conn, xy)
    if dr is None:
        return
    for d, s, a in zip(dr, S, A):
        v = ctx.colour_value(d["color"])
        ctx.true("coloured by the map", v is not None)
        if v is not None:
            ctx.eq("colour", 2 * j * v, s + j, scale=10)
        ctx.eq("width", (d["lw"] - .5) * (j - 1), 3.5 * (a - 2), scale=10)


@CASES("field-integers")
def _(ctx):
    """a field and a node table of integers"""
    els = ctx.array([[0, 3, 0, 0, 1, 2], [1, 3, 0, 1, 3, 2]])
    i, j = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", 4, 6))
    xy = [[0, 0], [3, 0], [0, j], [3, j + 1]]
    F = [[i, 1], [j, 0], [-1, 2], [0, j]]
    nodes = ctx.array([[e] + p for e, p in enumerate(xy)])
    ctx.m.pos.plot_node_field(ctx.array(F), nodes, els, figtitle=["A", "B"])
    figs = ctx.plots()
    ctx.true("two figures", len(figs) == 2)
    for k, f in enumerate(figs[:2]):
        ctx.true("one drawing", len(f["draws"]) == 1)
        for d in f["draws"]:
            on_mesh(ctx, "component %d " % k, d, xy, nodes, els, column(F, k))
