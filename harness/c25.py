"""inputs kept, no aliasing, independence of earlier calls"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("every public numerical routine; histories call(A), call(B) (also compared with a session that saw no earlier call), a third call chosen among four (thorough: twelve) others, for the larger elements one (thorough: twelve), overwriting of the returned arrays, call(A) again, "
          "call(A) on fresh copies; B's values written into A's arrays and the call compared with a fresh session; symbolic coordinates, parameters, displacements, loads; one shape of input per listed variant")
OUTSIDE = "the coordinate arrays of a plot triangulation (they refer to the node table by design of matplotlib); plotting state of matplotlib; concurrent calls; routines changed from outside (monkey patching)"
R = {}


def reg(name, **kw):
    def deco(f):
        R[name] = f
        return f
    return deco


def pts(ctx, shape, t, dim=None):
    s, x, y = ctx.real("s" + t, .5, 2), ctx.real("x" + t, -2, 2), ctx.real("y" + t, -2, 2)
    sh = [x, y, 0.5]
    return [[s * v + sh[k] for k, v in enumerate(p)] for p in ALL[shape]]


def par(ctx, t, n=3):
    return [ctx.real("E" + t, 1, 10), ctx.real("nu" + t, .1, .4), ctx.real("rho" + t, .5, 2), ctx.real("A" + t, .5, 2)][:n]


for _n in (2, 3, 5):
    R["gauss_1d-%d" % _n] = lambda ctx, t, n=_n: (ctx.m.gau.gauss_1d, [n if t == "a" else n + 1])
for _n, _d in ((2, 2), (3, 2), (2, 3)):
    R["gauss_nd-%d-%d" % (_n, _d)] = lambda ctx, t, n=_n, d=_d: (ctx.m.gau.gauss_nd, [n if t == "a" else n % 3 + 2, d])
for _n in (1, 2, 3, 7):
    R["gauss_tri-%d" % _n] = lambda ctx, t, n=_n: (ctx.m.gau.gauss_tri, [n if t == "a" else 3])
for _n in (1, 2, 3):
    R["gauss_tet-%d" % _n] = lambda ctx, t, n=_n: (ctx.m.gau.gauss_tet, [n if t == "a" else 2])
for _n in range(1, 9):
    R["eletype-%d" % _n] = lambda ctx, t, n=_n: (ctx.m.fem.eletype, [n if t == "a" else 9 - n])
for _n in ("tri3", "tri6", "quad4", "quad8", "quad9"):
    R["shape-" + _n] = lambda ctx, t, n=_n: (getattr(ctx.m.fem, "shape_" + n), [ctx.real("r" + t, -1, 1), ctx.real("s" + t, -1, 1)])
for _n in ("tet4", "hex8"):
    R["shape-" + _n] = lambda ctx, t, n=_n: (getattr(ctx.m.fem, "shape_" + n), [ctx.real(k + t, -1, 1) for k in "rst"])
for _n in ("tri3", "tri6", "quad4", "quad8", "quad9"):
    R["diff-" + _n] = lambda ctx, t, n=_n: (ctx.m.fem.elast_diff_2d, [.25, .125 if t == "a" else .5, ctx.farray(pts(ctx, n, t)), getattr(ctx.m.fem, "shape_" + n)])
for _n in ("tri3", "quad4"):
    R["diff-axi-" + _n] = lambda ctx, t, n=_n: (ctx.m.fem.elast_diff_axi, [.25, .125 if t == "a" else .5, ctx.farray([[p[0] + 5.0, p[1]] for p in pts(ctx, n, t)]), getattr(ctx.m.fem, "shape_" + n)])
for _n in ("tet4", "hex8"):
    R["diff3-" + _n] = lambda ctx, t, n=_n: (ctx.m.fem.elast_diff_3d, [.25, .125, .25 if t == "a" else .5, ctx.farray(pts(ctx, n, t)), getattr(ctx.m.fem, "shape_" + n)])


@reg("jacoper")
def _(ctx, t):
    N, dN = ctx.m.fem.shape_quad4(.25, .5)
    return ctx.m.fem.jacoper, [dN, ctx.farray(pts(ctx, "quad4", t))]


for _n in ("umat", "elast_mat_2d", "elast_mat_axi", "elast_mat"):
    R[_n] = lambda ctx, t, n=_n: (getattr(ctx.m.fem, n), [ctx.farray(par(ctx, t, 2))])
for _n, _s in (("str_el3", "tri3"), ("str_el4", "quad4"), ("str_el6", "tri6")):
    R[_n] = lambda ctx, t, n=_n, s=_s: (getattr(ctx.m.fem, n), [ctx.farray(pts(ctx, s, t)), ctx.farray([ctx.real("u%d%s" % (i, t), -1, 1) for i in range(2 * len(ALL[s]))])])
for _n in ("elast_tri3", "elast_tri6", "elast_quad4", "elast_quad9", "elast_quad8"):
    for _k in (2, 3) if _n != "elast_quad8" else (3,):
        R["%s-%d" % (_n, _k)] = lambda ctx, t, n=_n, k=_k: (getattr(ctx.m.ue, n), [ctx.farray(pts(ctx, n[6:], t)), ctx.farray(par(ctx, t, k))])
R["elast_axi_quad9"] = lambda ctx, t: (ctx.m.ue.elast_axi_quad9, [ctx.farray([[p[0] + 5.0, p[1]] for p in pts(ctx, "quad9", t)]), ctx.farray(par(ctx, t))])
for _n in ("tet4", "hex8"):
    R["elast_" + _n] = lambda ctx, t, n=_n: (getattr(ctx.m.ue, "elast_" + n), [ctx.farray(pts(ctx, n, t)), ctx.farray([3.0, .25, 2.0] if n == "hex8" else par(ctx, t))])


def bar(ctx, t):
    return ctx.farray([[ctx.real("x" + t, -2, 2), 0.0], [3.0, 4.0 + ctx.real("y" + t, -1, 1)]])


for _n, _k in (("truss2D", 2), ("truss2D", 3), ("beam2DU", 4), ("beam2D", 4)):
    R["%s-%d" % (_n, _k)] = lambda ctx, t, n=_n, k=_k: (getattr(ctx.m.ue, n), [bar(ctx, t), ctx.farray([ctx.real("p%d%s" % (i, t), .5, 2) for i in range(k)])])
R["spring"] = lambda ctx, t: (ctx.m.ue.spring, [bar(ctx, t), ctx.real("k" + t, 1, 5)])


# ---- meshes: quad pair
def cons(ctx, t):
    return [[-1, 0], [0, 0], [0, -1], [-1, -1], [0, 0], [0, 0]] if t == "a" else [[-1, -1], [0, 0], [0, 0], [0, 0], [0, 0], [0, -1]]


ELS = [[0, 1, 0, 0, 1, 2, 3], [1, 1, 1, 1, 4, 5, 2]]
ELS_B = [[0, 1, 1, 1, 4, 5, 2], [1, 1, 0, 0, 1, 2, 3]]


def els(ctx, t):
    return ctx.array(ELS if t == "a" else ELS_B)


def mats(ctx, t):
    return ctx.farray([[ctx.real("Em%d%s" % (i, t), 1, 5), .25, 2.0] for i in range(2)])


def nodes(ctx, t, cols=3):
    s = ctx.real("sn" + t, .5, 2)
    xy = [[0, 0], [2, 0], [2, 1], [0, 1], [4, .5], [4, 2]]
    return ctx.farray([[i, s * p[0], s * p[1], 0.0, -1.0][:cols] for i, p in enumerate(xy)])


@reg("eqcounter")
def _(ctx, t):
    return ctx.m.ass.eqcounter, [ctx.array(cons(ctx, t))]


@reg("eqcounter-float")
def _(ctx, t):
    return ctx.m.ass.eqcounter, [ctx.farray(cons(ctx, t))]


@reg("DME")
def _(ctx, t):
    return ctx.m.ass.DME, [ctx.array(cons(ctx, t)), els(ctx, t)]


@reg("DME-float")
def _(ctx, t):
    return ctx.m.ass.DME, [ctx.farray(cons(ctx, t)), els(ctx, t)]


@reg("retriever")
def _(ctx, t):
    return ctx.m.ass.retriever, [els(ctx, t), mats(ctx, t), nodes(ctx, t), 0 if t == "a" else 1]


def _assem(name, sparse=None):
    def f(ctx, t):
        op, bc, neq = ctx.m.ass.DME(ctx.array(cons(ctx, t)), els(ctx, t))
        a = [els(ctx, t), mats(ctx, t), nodes(ctx, t), neq, op]
        g = getattr(ctx.m.ass, name)
        return (g if sparse is None else lambda *x: g(*x, sparse=sparse)), a
    return f


R["assembler"] = _assem("assembler")
R["assembler-dense"] = _assem("assembler", False)
R["dense_assem"] = _assem("dense_assem")
R["sparse_assem"] = _assem("sparse_assem")


@reg("loadasem")
def _(ctx, t):
    op, bc, neq = ctx.m.ass.DME(ctx.array(cons(ctx, t)), els(ctx, t))
    return ctx.m.ass.loadasem, [ctx.farray([[1, ctx.real("P" + t, -5, 5), 2.0], [4, 1.0, ctx.real("Q" + t, -5, 5)]]), bc, neq]


@reg("complete_disp")
def _(ctx, t):
    op, bc, neq = ctx.m.ass.DME(ctx.array(cons(ctx, t)), els(ctx, t))
    return ctx.m.pos.complete_disp, [bc, nodes(ctx, t), ctx.farray([ctx.real("u%d%s" % (i, t), -1, 1) for i in range(neq)])]


def disp(ctx, t, n=6):
    return ctx.farray([[ctx.real("u%d%d%s" % (i, j, t), -1, 1) for j in range(2)] for i in range(n)])


@reg("strain_nodes")
def _(ctx, t):
    return ctx.m.pos.strain_nodes, [nodes(ctx, t), els(ctx, t), mats(ctx, t), disp(ctx, t)]


@reg("strain_nodes-tri3")
def _(ctx, t):
    e = [[0, 3, 0, 0, 1, 2], [1, 3, 1, 2, 3, 0]]
    return ctx.m.pos.strain_nodes, [ctx.farray([[0, 0, 0], [1, ctx.real("x" + t, 1, 2), 0], [2, 2, 2], [3, 0, 2]]), ctx.array(e if t == "a" else [[0, 3, 1, 0, 1, 3], [1, 3, 0, 1, 2, 3]]), mats(ctx, t), disp(ctx, t, 4)]


@reg("stress_truss")
def _(ctx, t):
    return ctx.m.pos.stress_truss, [ctx.farray([[0, 0, 0], [1, 3, 4], [2, ctx.real("x" + t, 4, 5), 0]]), ctx.array([[0, 6, 0, 0, 1], [1, 6, 1, 2, 1]]),
                                    ctx.farray([[2.0, ctx.real("A" + t, 1, 2)], [1.0, 3.0]]), disp(ctx, t, 3)]


@reg("complete_disp-all-free")
def _(ctx, t):
    return ctx.m.pos.complete_disp, [ctx.array([[0], [1], [2]]), ctx.farray([[i, 1.0 * i, 0.0] for i in range(3)]), ctx.farray([ctx.real("u%d%s" % (i, t), -1, 1) for i in range(3)]), 1]


@reg("loading-same-tag")
def _(ctx, t):
    return ctx.m.pre.loading, [{"line": ctx.array([[0, 1], [1, 2], [4, 5]])}, {"line": {"gmsh:physical": ctx.array([1, 1, 2] if t == "a" else [1, 2, 1])}}, 1, ctx.real("P" + t, -5, 5), 1.0]


def drawn(ctx, f):
    """f, returning what it draws"""
    def g(*a):
        old = {id(d) for fig in ctx.plots() for d in fig["draws"]}
        f(*a)
        r = []
        for fig in ctx.plots():
            for d in fig["draws"]:
                if id(d) not in old:
                    if d["kind"] == "line":
                        r.append([list(d["x"]), list(d["y"]), d["lw"]])
                    else:
                        r.append([list(ctx.values(d["tri"].x)), list(ctx.values(d["tri"].y)), [list(q) for q in ctx.values(d["tri"].triangles)], list(d["z"])])
        return r
    return g


@reg("plot_node_field")
def _(ctx, t):
    return drawn(ctx, ctx.m.pos.plot_node_field), [disp(ctx, t), nodes(ctx, t), els(ctx, t)]


@reg("fields_plot")
def _(ctx, t):
    return drawn(ctx, ctx.m.pos.fields_plot), [els(ctx, t), nodes(ctx, t), disp(ctx, t)]


@reg("plot_truss")
def _(ctx, t):
    return drawn(ctx, ctx.m.pos.plot_truss), [ctx.farray([[0, 0, 0], [1, 3, 4], [2, 4, ctx.real("x" + t, 1, 2)]]), ctx.array([[0, 6, 0, 0, 1], [1, 6, 1, 2, 1]]),
                                  ctx.farray([[2.0, ctx.real("A" + t, 1, 2)], [1.0, 3.0]]), ctx.farray([1.0, ctx.real("s" + t, -3, -2)])]


@reg("principal_dirs-tiny")
def _(ctx, t):
    return ctx.m.pos.principal_dirs, [ctx.farray([[3.0, -1.0, 1e-9 * ctx.real("q" + t, .5, 2)], [1e-9, 2e-9 * ctx.real("p" + t, .5, 2), 1e-12], [1.0, 1e-14, 1e-15]])]


@reg("loadasem-tiny")
def _(ctx, t):
    return ctx.m.ass.loadasem, [ctx.farray([[1, 1e-13 * ctx.real("P" + t, 1, 5), 2.0], [0, 1.0, 1e-20]]), ctx.array([[0, -1], [1, 2]]), 3]


@reg("eigvals")
def _(ctx, t):
    q = ctx.real("q" + t, .5, 2)
    return ctx.m.pos.eigvals, [ctx.farray([[3.0, q], [q, -1.0]])]


@reg("principal_dirs")
def _(ctx, t):
    return ctx.m.pos.principal_dirs, [ctx.farray([[3.0, -1.0, ctx.real("q" + t, .5, 2)], [1.0, 2.0, .5]])]


@reg("energy")
def _(ctx, t):
    return ctx.m.pos.energy, [ctx.farray([ctx.real("u0" + t, -1, 1), ctx.real("u1" + t, -1, 1)]), ctx.farray([[2.0, -1.0], [-1.0, ctx.real("k" + t, 1, 3)]])]


@reg("energy-sparse")
def _(ctx, t):
    return ctx.m.pos.energy, [ctx.farray([ctx.real("u0" + t, -1, 1), ctx.real("u1" + t, -1, 1)]), ctx.csr(ctx.farray([[2.0, -1.0], [-1.0, ctx.real("k" + t, 1, 3)]]))]


@reg("mesh2tri")
def _(ctx, t):
    return ctx.m.pos.mesh2tri, [nodes(ctx, t), els(ctx, t)]


@reg("node_writer")
def _(ctx, t):
    return ctx.m.pre.node_writer, [ctx.farray([[ctx.real("x" + t, -1, 1), 1.0, 0.0], [2.0, 3.0, ctx.real("z" + t, .1, 1)]]), {}]


@reg("ele_writer")
def _(ctx, t):
    return ctx.m.pre.ele_writer, [{"quad": ctx.array([[0, 1, 2, 3], [1, 4, 5, 2]])}, {"quad": {"gmsh:physical": ctx.array([1, 2 if t == "a" else 1])}}, "quad", 1, 1, 0, 5]


@reg("loading")
def _(ctx, t):
    return ctx.m.pre.loading, [{"line": ctx.array([[0, 1], [1, 2], [4, 5]])}, {"line": {"gmsh:physical": ctx.array([1, 1, 2])}}, 1 if t == "a" else 2, ctx.real("P" + t, -5, 5), 1.0]


@reg("rect_grid")
def _(ctx, t):
    return ctx.m.pre.rect_grid, [ctx.real("l" + t, 1, 5), ctx.real("h" + t, 1, 5), 2, 1 if t == "a" else 2]


@reg("readin")
def _(ctx, t):
    return (lambda: ctx.m.pre.readin(folder=ctx.files({"nodes.txt": [[0, 0, ctx.real("y" + t, 1, 2), -1, 0]], "mater.txt": [[ctx.real("E" + t, 1, 2), .25]],
                                                       "eles.txt": [[0, 3, 0, 0, 1, 2]], "loads.txt": [[0, 1, 2]]}))), []


@reg("reassign")
def _(ctx, t):
    return ctx.m.bloch.reassign_dof_bloch, [5, [4, 2] if t == "a" else [1, 3], [0, 1] if t == "a" else [0, 2]]


@reg("reassign-arrays")
def _(ctx, t):
    return ctx.m.bloch.reassign_dof_bloch, [5, ctx.array([4, 2] if t == "a" else [1, 3]), ctx.array([0, 1] if t == "a" else [0, 2])]


@reg("bloch_transform")
def _(ctx, t):
    X = ctx.farray([[0.0, 0.0], [ctx.real("x" + t, 1, 2), .5], [0.0, 1.0]])
    return ctx.m.bloch.bloch_transform_mat, [ctx.farray([ctx.real("k" + t, -2, 2), 1.0]), X, 3, [0, 0], [1, 2], [0, 0], [1, 2], {0: [0]}, {1: [1], 2: [2]},
                                             ctx.array([0, 0, 0])]


@reg("static_sol")
def _(ctx, t):
    return ctx.m.sol.static_sol, [ctx.farray([[2.0, -1.0], [-1.0, 3.0]]), ctx.farray([ctx.real("b" + t, -1, 1), 1.0])]


@reg("static_sol-sparse")
def _(ctx, t):
    return ctx.m.sol.static_sol, [ctx.csr(ctx.farray([[2.0, -1.0], [-1.0, 3.0]])), ctx.farray([ctx.real("b" + t, -1, 1), 1.0])]


def _auto(strains):
    def f(ctx, t):
        n = nodes(ctx, t)
        c = cons(ctx, t)
        c[3] = [-1, -1]
        c[0] = [-1, -1]
        d = {"nodes": ctx.farray([[i, x, y] for i, (x, y) in enumerate([[0, 0], [2, 0], [2, 1], [0, 1], [4, .5], [4, 2]])]), "cons": ctx.array(c), "elements": els(ctx, t),
             "mats": ctx.farray([[3.0, .25, 1.0], [5.0, .25, 1.0]]),
             "loads": ctx.farray([[4, ctx.real("P" + t, -5, 5), ctx.real("Q" + t, -5, 5)]])}
        return (lambda x: ctx.m.gui.solids_auto(x, plot_contours=strains, compute_strains=strains)), [d]
    return f


R["solids_auto"] = _auto(False)
R["solids_auto-all"] = _auto(True)

OTHERS = ["elast_quad4-3", "assembler", "strain_nodes", "gauss_tri-7", "gauss_nd-3-2", "elast_tri6-2", "diff-quad9", "DME", "principal_dirs", "umat", "rect_grid",
          "solids_auto"]


def leaves(ctx, x):
    """arrays inside arguments or results"""
    if hasattr(x, "triangles"):
        return [x.x, x.y, x.triangles]
    if isinstance(x, dict):
        return [y for k in sorted(x, key=str) for y in leaves(ctx, x[k])]
    if isinstance(x, (list, tuple)):
        return [y for k in x for y in leaves(ctx, k)]
    return [x]


def snap(ctx, xs):
    r = []
    for x in leaves(ctx, xs):
        r.append(ctx.values(x) if ctx.is_sparse(x) or hasattr(x, "shape") and ctx.shape(x) != () else x)
    return r


def same(ctx, lab, xs, ref):
    got = snap(ctx, xs)
    ctx.true(lab + ": count", len(got) == len(ref))
    for i, (a, b) in enumerate(zip(got, ref)):
        if callable(a) or a is None or isinstance(a, (str, bool)):
            ctx.true("%s %d" % (lab, i), a is b or a == b)
        else:
            ctx.eq("%s %d" % (lab, i), a, b, tol=1e-12, strict=True)


def elsewhere(ctx, name, t):
    """the result in another session"""
    def run():
        f, A = R[name](ctx, t)
        return snap(ctx, f(*A))
    return ctx.pristine(run)


def rewrite(ctx, a, b):
    """b's values in a's arrays, dictionaries and lists, as far as these can hold them"""
    if isinstance(a, dict) and isinstance(b, dict) and sorted(a, key=str) == sorted(b, key=str):
        for k in a:
            a[k] = rewrite(ctx, a[k], b[k])
        return a
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        a[:] = [rewrite(ctx, x, y) for x, y in zip(a, b)]
        return a
    if ctx.is_sparse(a) and ctx.is_sparse(b) and ctx.shape(a.data) == ctx.shape(b.data):
        ctx.assign(a.data, b.data)
        return a
    if hasattr(a, "shape") and hasattr(b, "shape") and ctx.shape(a) != () and ctx.shape(a) == ctx.shape(b) and a.dtype == b.dtype:
        ctx.assign(a, b)
        return a
    return b


def spoil(ctx, xs):
    # the coordinates of a plot triangulation are those of the node table itself
    for x in [xs.triangles] if hasattr(xs, "triangles") else leaves(ctx, xs):
        if ctx.is_sparse(x):
            x.data[:] = 7
        elif hasattr(x, "shape") and ctx.shape(x) != ():
            ctx.overwrite(x)
    spoil_lists(xs)


def spoil_lists(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        for y in x:
            spoil_lists(y)
        if isinstance(x, list):
            x[:] = [7 for y in x]


@CASES("history", weight=4, args=[(n, dict(name=n)) for n in R])
def history(ctx, name):
    f, A = R[name](ctx, "a")
    a0 = snap(ctx, A)
    r1 = f(*A)
    s1 = snap(ctx, r1)
    same(ctx, "inputs after the call", A, a0)
    g, B = R[name](ctx, "b")
    b0 = snap(ctx, B)
    rb = g(*B)
    sb = snap(ctx, rb)
    same(ctx, "second result as in another session", rb, elsewhere(ctx, name, "b"))
    same(ctx, "first result after a second call", r1, s1)
    many = OTHERS[:4] if ctx.tier == "quick" else OTHERS
    o = ctx.choice("other", many) if ctx.tier != "quick" or name not in HEAVY else OTHERS[len(name) % 4]
    h, C = R[o](ctx, "c")
    rc = h(*C)
    spoil(ctx, rc)
    same(ctx, "first result after other calls", r1, s1)
    same(ctx, "second result after other calls", rb, sb)
    spoil(ctx, r1)
    same(ctx, "inputs after overwriting the result", A, a0)
    same(ctx, "other inputs after overwriting the result", B, b0)
    same(ctx, "second result after overwriting the first", rb, sb)
    same(ctx, "call repeated", f(*A), s1)
    f2, A2 = R[name](ctx, "a")
    same(ctx, "fresh copies", f2(*A2), s1)
    same(ctx, "inputs at the end", A, a0)


HEAVY = {n for n in R if n[:8] in ("elast_he", "elast_ax", "elast_qu", "elast_te", "elast_tr", "beam2D-4", "beam2DU-") or n == "solids_auto-all"}


@CASES("rewritten", weight=3, args=[(n, dict(name=n)) for n in R if n not in ("readin",)])
def rewritten(ctx, name):
    """other values written into the same arrays"""
    f, A = R[name](ctx, "a")
    f(*A)
    f(*A)
    g, B = R[name](ctx, "b")
    A = [rewrite(ctx, a, b) for a, b in zip(A, B)]
    same(ctx, "result", g(*A), elsewhere(ctx, name, "b"))


@CASES("inputs-later", weight=2, args=[(n, dict(name=n)) for n in R if n not in ("readin", "energy", "spring", "mesh2tri") and n[:5] not in ("gauss", "elety", "shape", "rect_")])
def later(ctx, name):
    """overwriting the inputs after a call does not change its result"""
    f, A = R[name](ctx, "a")
    r = f(*A)
    s = snap(ctx, r)
    for x in leaves(ctx, A):
        if ctx.is_sparse(x):
            x.data[:] = 7
        elif hasattr(x, "shape") and ctx.shape(x) != ():
            ctx.overwrite(x)
    same(ctx, "result", r, s)


@CASES("node-table", weight=1)
def node_table(ctx):
    """the documented exception: boundary conditions are written into the node table; cells are kept"""
    N = nodes(ctx, "a", 5)
    n0 = ctx.values(N)
    c = {"line": ctx.array([[0, 1], [1, 2]])}
    d = {"line": {"gmsh:physical": ctx.array([1, 2])}}
    M = ctx.m.pre.boundary_conditions(c, d, 1, N, -1, 0)
    m0 = ctx.values(M)
    ctx.eq("lines", c["line"], [[0, 1], [1, 2]], tol=0)
    ctx.eq("tags", d["line"]["gmsh:physical"], [1, 2], tol=0)
    N2 = ctx.farray(n0)
    ctx.eq("again", ctx.m.pre.boundary_conditions(c, d, 1, N2, -1, 0), m0, tol=0, strict=True)


@CASES("user-routine", weight=2)
def user(ctx):
    """arrays handed to a user element routine are its own: overwriting them leaves the tables"""
    op, bc, neq = ctx.m.ass.DME(ctx.array(cons(ctx, "a")), els(ctx, "a"))

    def uel(coord, params):
        k, m = ctx.m.ue.elast_quad4(coord, params)
        ctx.overwrite(coord)
        return k, m
    E, M, N = els(ctx, "a"), mats(ctx, "a"), nodes(ctx, "a")
    a0 = snap(ctx, [E, N, op])
    for s in (True, False):
        K1 = ctx.values(ctx.m.ass.assembler(E, M, N, neq, op, sparse=s, uel=uel)[0])
        K2 = ctx.values(ctx.m.ass.assembler(E, M, N, neq, op, sparse=s)[0])
        ctx.eq("stiffness %s" % s, K1, K2, scale=10)
        same(ctx, "tables %s" % s, [E, N, op], a0)


@CASES("twice-assembled", weight=2, max_paths=50)
def twice(ctx):
    """models assembled alternately do not mix"""
    ra = {}
    order = ctx.choice("order", ["aab", "abab", "ba", "bba"])
    for t in order:
        f, A = R["assembler" if order != "ba" else "assembler-dense"](ctx, t)
        r = f(*A)
        s = snap(ctx, r)
        if t in ra:
            same(ctx, "model " + t, r, ra[t][1])
        ra[t] = (r, s)
    for t in ra:
        same(ctx, "kept " + t, ra[t][0], ra[t][1])
