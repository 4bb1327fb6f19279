"""the complete analysis: equilibrium, restraints, options, files and data"""
from hlib import *
from elems import *
from refint import stiffness_times_det
from members import embed, t_axial
CASES = Cases()
BOUNDS = ("models of one to three elements of every type with two degrees of freedom per node (3- and 6-node triangles, 4- and 9-node quadrilaterals, "
          "springs, trusses), one to eight unknowns; chains of 5 to 90 springs, tables of up to 230 rows; symbolic loads in [-10,10] (several rows, loads on supports), moduli, node positions "
          "(every parallelogram or triangle shape where stated), all option combinations, file folders of every table of the model; integer tables and systems")
OUTSIDE = ("displacements above 1e6; rounding and conditioning of the linear solver (its result is any vector satisfying the equations handed to it); singular systems and systems without unknowns; "
           "figures; layouts of the files other than the listed comments, blank lines and separators; elements with rotations (the driver handles two degrees of freedom per node)")
TYP = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4, "spring": 5, "truss": 6}


class Model:
    """nodes xy, flags, elements (type, material row, nodes), reference stiffness per element"""

    def __init__(self):
        self.xy, self.cons, self.els, self.mats, self.loads, self.K = [], [], [], [], [], []

    def data(self, ctx, cols=3):
        nodes = [[float(i), p[0], p[1]] + ([float(f) for f in c] if cols == 5 else [])
                 for i, (p, c) in enumerate(zip(self.xy, self.cons))]
        return {"nodes": ctx.farray(nodes), "cons": ctx.array(self.cons), "elements": ctx.array(self.table(ctx)),
                "mats": ctx.farray(self.mats), "loads": ctx.farray(self.loads)}

    def table(self, ctx):
        return [[eid(ctx, e), TYP[t], m] + list(c) for e, (t, m, c) in enumerate(self.els)]

    def files(self, ctx):
        nodes = [[i, p[0], p[1], c[0], c[1]] for i, (p, c) in enumerate(zip(self.xy, self.cons))]
        return ctx.files({"nodes.txt": nodes, "eles.txt": self.table(ctx), "mater.txt": self.mats, "loads.txt": self.loads})

    def residual(self, u):
        """internal minus applied forces, node by node (scaled where stated)"""
        f = [[0.0, 0.0] for _ in self.xy]
        for (t, m, c), k in zip(self.els, self.K):
            ue = [u[n][i] for n in c for i in range(2)]
            fe = matvec(k, ue)
            for a, n in enumerate(c):
                for i in range(2):
                    f[n][i] = f[n][i] + fe[2 * a + i]
        for r in self.loads:
            n = int(r[0])
            for i in range(2):
                f[n][i] = f[n][i] - r[1 + i]
        return f


def continuum(ctx, shape, sym):
    """one or two elements; sym selects what is symbolic besides the loads"""
    M = Model()
    E = [ctx.real("E%d" % k, 1, 5) if "E" in sym else 3.0 + k for k in range(2)]
    nu = ctx.real("nu", -.4, .4) if "n" in sym else (-.25 if shape in ("quad4", "tri6") else .25)
    M.mats = [[e, nu, 1.0] for e in E]
    if "J" in sym:
        a, d = ctx.real("Ja", .5, 2), ctx.real("Jd", .5, 2)
        b = .25 if shape == "tri6" else ctx.real("Jb", -.4, .4)
        J = [[a, b], [0.25, d]]
    else:
        J = [[1.25, .25], [-.25, 1.5]]
    det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
    if shape == "tri3":
        P = [(0, 0), (1, 0), (0, 1), (1, 1)]
        conn = [[0, 1, 2], [3, 2, 1]]
        sg = [1, -1]
    elif shape == "tri6":
        P = [(0, 0), (1, 0), (0, 1), (.5, 0), (.5, .5), (0, .5), (1, 1), (.5, 1), (1, .5)]
        conn = [[0, 1, 2, 3, 4, 5], [6, 2, 1, 7, 4, 8]]
        sg = [1, -1]
    elif shape == "quad4":
        P = [(-1, -1), (1, -1), (1, 1), (-1, 1), (3, -1), (3, 1)]
        conn = [[0, 1, 2, 3], [1, 4, 5, 2]]
        sg = [1, 1]
    else:
        P = list(S2["quad9"])
        conn = [list(range(9))]
        sg = [1]
    M.xy = [[J[0][0] * p[0] + J[0][1] * p[1], J[1][0] * p[0] + J[1][1] * p[1]] for p in P]
    q = 1 / det
    for e, c in enumerate(conn):
        m = (e + 1) % 2
        lam, mu = E[m] * nu / (1 - nu * nu), E[m] / (2 * (1 + nu))
        Je = [[x * sg[e] for x in r] for r in J]
        k = stiffness_times_det(shape, Je, lam, mu)
        M.els.append((shape, m, c))
        M.K.append([[v * q for v in r] for r in k])
    return M


def support(ctx, M, free):
    """everything restrained but the listed (node, direction)"""
    M.cons = [[0 if (n, i) in free else -1 for i in range(2)] for n in range(len(M.xy))]
    nodes = sorted(set(n for n, _ in free))
    M.loads = [[n, ctx.real("P%d" % n, -10, 10), ctx.real("Q%d" % n, -10, 10)] for n in nodes[::-1]]
    M.loads.append([nodes[0], ctx.real("P", -10, 10), ctx.real("Q", -10, 10)])


FREE = {"tri3": [(1, 0), (1, 1), (3, 1)], "tri6": [(3, 1), (4, 0), (6, 0), (6, 1)], "quad4": [(2, 0), (2, 1), (4, 1), (5, 0)],
        "quad9": [(8, 0), (8, 1), (5, 0), (2, 1)]}
ONE = {"tri3": [(3, 0)], "tri6": [(4, 1)], "quad4": [(2, 0)], "quad9": [(8, 1)]}


def springs(ctx, typ, n=3):
    M = Model()
    M.xy = [[0.0, 0.0], [3.0, 4.0], [3.0, -1.0], [7.0, 1.0]][:n + 1]
    dirs = {(0, 1): (.6, .8), (1, 2): (0.0, -1.0), (2, 3): (4 / (20 ** .5), 2 / (20 ** .5)), (0, 2): None}
    for k, c in enumerate([(0, 1), (2, 1), (2, 3)][:n]):
        s = ctx.real("k%d" % k, 1, 5)
        A = ctx.real("A%d" % k, .5, 2)
        x, y = M.xy[c[0]], M.xy[c[1]]
        d = [y[0] - x[0], y[1] - x[1]]
        L2 = d[0] * d[0] + d[1] * d[1]
        L = ctx.sqrt(L2)
        T = t_axial(d[0] / L, d[1] / L)
        kk = s if typ == "spring" else s * A / L
        M.mats.append([s] if typ == "spring" else [s, A])
        M.els.append((typ, k, list(c)))
        M.K.append(embed(4, [([[kk, -kk], [-kk, kk]], T)]))
    return M


def check(ctx, M, u, lab=""):
    ctx.true(lab + "shape", ctx.is_array(u) and ctx.shape(u) == (len(M.xy), 2))
    u = ctx.values(u)
    for r in u:
        for x in r:
            ctx.assume((x <= 1e6) & (x >= -1e6))
    f = M.residual(u)
    for n, c in enumerate(M.cons):
        for i in range(2):
            if c[i] == -1:
                ctx.eq(lab + "restrained", u[n][i], 0.0, tol=0, strict=True)
            else:
                ctx.eq(lab + "equilibrium", f[n][i], 0.0, tol=1e-7)
    return u


def build(ctx, what, sym="", free=None):
    if what in ("spring", "truss"):
        M = springs(ctx, what)
        M.cons = [[-1, -1], [0, -1], [0, 0], [-1, -1]]
        M.loads = [[2, ctx.real("P2", -10, 10), ctx.real("Q2", -10, 10)], [1, ctx.real("P1", -10, 10), ctx.real("Q1", -10, 10)],
                   [2, ctx.real("P3", -10, 10), 0.0]]
        return M
    M = continuum(ctx, what, sym)
    support(ctx, M, free or FREE[what])
    return M


KINDS = [("spring", "", None), ("truss", "", None)] + [
    (s, sym, fr) for s in FREE for sym, fr in (("", "FREE"), ("E", "FREE"), ("EJ" if s == "tri3" else "J", "ONE"), ("En", "ONE"))]


@CASES("equilibrium", weight=6, args=[("-".join(x for x in (s, y, f) if x), dict(s=s, y=y, f=f)) for s, y, f in KINDS])
def equilibrium(ctx, s, y, f):
    M = build(ctx, s, y, ONE[s] if f == "ONE" else None)
    u = ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False, compute_strains=False)
    check(ctx, M, u)


@CASES("options", weight=5, args=[("%s-%d%d" % (s, p, c), dict(s=s, p=p, c=c)) for s in ("tri3", "quad4", "tri6") for p in (0, 1) for c in (0, 1)])
def options(ctx, s, p, c):
    """results for every option; strains and stresses are those of the displacement"""
    M = build(ctx, s)
    D = M.data(ctx)
    r = ctx.m.gui.solids_auto(D, plot_contours=bool(p), compute_strains=bool(c))
    if c:
        ctx.true("three results", type(r) is tuple and len(r) == 3)
        u, E, S = r
        E0, S0 = ctx.m.pos.strain_nodes(D["nodes"], D["elements"], D["mats"], u)
        ctx.eq("strains", E, E0, scale=10)
        ctx.eq("stresses", S, S0, scale=10)
    else:
        u = r
    check(ctx, M, u)
    base = ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False)
    ctx.eq("same result", u, base, scale=10)


@CASES("defaults", weight=3, args=[(s, dict(s=s)) for s in ("tri3", "spring", "truss", "quad9")])
def defaults(ctx, s):
    """no options given: the displacement alone is returned; plots of any supported mesh do not fail"""
    M = build(ctx, s)
    check(ctx, M, ctx.m.gui.solids_auto(M.data(ctx)))
    fo = M.files(ctx)
    check(ctx, M, ctx.m.gui.solids_GUI(folder=fo), "files ")


@CASES("old-flags", weight=1, args=[(s, dict(s=s)) for s in ("tri3", "truss")])
def old_flags(ctx, s):
    """the restraints are those of the restraint table, whatever further columns the node table has"""
    M = build(ctx, s)
    D = M.data(ctx)
    D["nodes"] = ctx.farray([[float(i)] + list(p) + [0.0, 0.0] for i, p in enumerate(M.xy)])
    D["comment"] = "not used"
    check(ctx, M, ctx.m.gui.solids_auto(D, plot_contours=False))


@CASES("files", weight=6, args=[("%s-%d%d" % (s, p, c), dict(s=s, p=p, c=c)) for s, o in
                                (("tri3", (0, 1)), ("quad4", (0, 1)), ("tri6", (0, 1)), ("quad9", (0,)), ("spring", (0,)), ("truss", (0,)))
                                for p in (0, 1) for c in o])
def files(ctx, s, p, c):
    """folder of files against the equivalent arrays"""
    M = build(ctx, s)
    a = ctx.m.gui.solids_GUI(plot_contours=bool(p), compute_strains=bool(c), folder=M.files(ctx))
    b = ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False, compute_strains=bool(c))
    if c:
        ctx.true("three results", type(a) is tuple and len(a) == 3)
        ctx.eq("strains", a[1], b[1], scale=10)
        ctx.eq("stresses", a[2], b[2], scale=10)
        a, b = a[0], b[0]
    ctx.eq("displacements", a, b, scale=10)
    check(ctx, M, a)


@CASES("files-one", weight=2, args=[("tri3", dict(s="tri3")), ("truss", dict(s="truss"))])
def files_one(ctx, s):
    """one row in every table"""
    M = Model()
    if s == "truss":
        k, A = ctx.real("k", 1, 5), ctx.real("A", .5, 2)
        M.xy, M.cons = [[0.0, 0.0], [2.0, 0.0]], [[-1, -1], [0, -1]]
        M.mats, M.els = [[k, A]], [("truss", 0, [0, 1])]
        q = k * A / 2
        M.K = [embed(4, [([[q, -q], [-q, q]], t_axial(1.0, 0.0))])]
        M.loads = [[1, ctx.real("P", -10, 10), 0.0]]
    else:
        M = continuum(ctx, "tri3", "E")
        M.els, M.K = M.els[:1], M.K[:1]
        M.els[0] = ("tri3", 0, M.els[0][2])
        lam = M.mats[0][0] / M.mats[1][0]
        M.K = [[[v * lam for v in r] for r in M.K[0]]]
        M.mats, M.xy = M.mats[:1], M.xy[:3]
        M.cons = [[-1, -1], [0, -1], [-1, -1]]
        M.loads = [[1, ctx.real("P", -10, 10), 0.0]]
    check(ctx, M, ctx.m.gui.solids_GUI(plot_contours=False, folder=M.files(ctx)))
    nodes, mats, els, loads = ctx.m.pre.readin(folder=M.files(ctx))
    ctx.true("tables", [ctx.shape(x) for x in (nodes, mats, els, loads)]
             == [(len(M.xy), 5), (1, len(M.mats[0])), (1, 3 + len(M.els[0][2])), (1, 3)])
    ctx.true("integers", ctx.dtype_kind(els) == "i")
    ctx.eq("nodes", nodes, [[i, p[0], p[1], c[0], c[1]] for i, (p, c) in enumerate(zip(M.xy, M.cons))])
    ctx.eq("mats", mats, M.mats)
    ctx.eq("loads", loads, M.loads)
    ctx.eq("elements", els, M.table(ctx))


@CASES("asked-folder", weight=2)
def asked(ctx):
    """without a folder, the one asked for is read"""
    M = build(ctx, "spring")
    fo = M.files(ctx)
    ctx.m.pre.initial_params = lambda: fo
    u = ctx.m.gui.solids_GUI(plot_contours=False)
    check(ctx, M, u)


@CASES("linear", weight=4, args=[(s, dict(s=s)) for s in ("tri3", "quad4", "quad9", "tri6")])
def linear(ctx, s):
    """superposition of load cases and scaling, at every node"""
    M = continuum(ctx, s, "")
    support(ctx, M, FREE[s])
    A = M.loads
    B = [[r[0], ctx.real("B%d" % i, -10, 10), ctx.real("C%d" % i, -10, 10)] for i, r in enumerate(A[:2])]
    t = ctx.real("t", -3, 3)

    def run(loads):
        M.loads = loads
        return ctx.values(ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False))
    ua, ub = run(A), run(B)
    uc = run([[r[0], t * r[1], t * r[2]] for r in A] + B)
    for i in range(len(M.xy)):
        for j in range(2):
            ctx.eq("superposition", uc[i][j], t * ua[i][j] + ub[i][j], scale=10)


@CASES("flags", weight=4, max_paths=300, args=[("tri3", dict(s="tri3")), ("quad4", dict(s="quad4"))])
def any_support(ctx, s):
    """every choice of restraints of the last node, with at least the base held"""
    M = continuum(ctx, s, "")
    n = len(M.xy)
    hold = {"tri3": (0, 2), "quad4": (0, 3)}[s]
    last = {"tri3": (1, 3), "quad4": (2, 5)}[s]
    M.cons = [[0, 0] for _ in range(n)]
    for k in hold:
        M.cons[k] = [-1, -1]
    for k in last:
        M.cons[k] = [ctx.is_int(ctx.integer("f%d%d" % (k, i), -1, 0)) for i in range(2)]
    ctx.assume(any(0 in c for c in M.cons))
    M.loads = [[k, ctx.real("P%d" % k, -10, 10), ctx.real("Q%d" % k, -10, 10)] for k in range(n)]
    check(ctx, M, ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False))


@CASES("solver-types", weight=2)
def solver_types(ctx):
    """sparse and dense systems; anything else is refused"""
    k = [ctx.real("k%d" % i, 1, 5) for i in range(3)]
    K = [[k[0] + k[1], -k[1]], [-k[1], k[1] + k[2]]]
    b = [ctx.real("b%d" % i, -5, 5) for i in range(2)]
    for name, A in (("dense", ctx.farray(K)), ("sparse", ctx.csr(ctx.farray(K)))):
        u = ctx.m.sol.static_sol(A, ctx.farray(b))
        ctx.true(name + " shape", ctx.shape(u) == (2,))
        ctx.eq(name + " solution", matvec(K, ctx.values(u)), b)
    for bad in (K, "x", ctx.m.coo_matrix(ctx.farray(K))):
        r, e = ctx.outcome(ctx.m.sol.static_sol, bad, ctx.farray(b))
        ctx.true("refused", r == "raise" and type(e).__name__ == "TypeError")


@CASES("solver-general", weight=2, args=[("%s%d" % (k, n), dict(kind=k, n=n)) for k in ("dense", "sparse") for n in (1, 2, 3)])
def solver_general(ctx, kind, n):
    """systems that are not symmetric; the system is left as it was"""
    K = [[(3.0 + ctx.real("k%d%d" % (i, i), 0, 5)) if i == j else ctx.real("k%d%d" % (i, j), -1, 1) for j in range(n)] for i in range(n)]
    b = [ctx.real("b%d" % i, -5, 5) for i in range(n)]
    A, f = ctx.farray(K), ctx.farray(b)
    A = A if kind == "dense" else ctx.csr(A)
    u = ctx.m.sol.static_sol(A, f)
    ctx.true("shape", ctx.shape(u) == (n,))
    ctx.eq("solution", matvec(K, ctx.values(u)), b, scale=10)
    ctx.eq("matrix unchanged", ctx.dense(A), K, tol=0, strict=True)
    ctx.eq("load unchanged", f, b, tol=0, strict=True)


@CASES("solver-scales", weight=2, args=[("%s-%s" % (k, o), dict(kind=k, order=o)) for k in ("dense", "sparse") for o in ("stiff", "soft")])
def solver_scales(ctx, kind, order):
    """a very stiff part beside a very soft one"""
    big, small = ctx.real("k0", 1e7, 2e7), ctx.real("k1", 1e-4, 2e-4)
    o = [ctx.real("o%d" % i, -1e-5, 1e-5) for i in range(2)]
    K = [[big, o[0]], [o[1], small]] if order == "stiff" else [[small, o[0]], [o[1], big]]
    b = [ctx.real("b%d" % i, -5, 5) for i in range(2)]
    A = ctx.farray(K)
    u = ctx.m.sol.static_sol(A if kind == "dense" else ctx.csr(A), ctx.farray(b))
    ctx.eq("solution", matvec(K, ctx.values(u)), b, tol=1e-6)


LAYOUT = {"header": ("# table", "", " "), "tabs": ("", "", "\t"), "wide": ("", "", "    "), "blank": ("", "", " "),
          "last": ("", "# end of file", " "), "two": ("# one\n#two", "", "  ")}


@CASES("layout", weight=3, args=[(k, dict(k=k)) for k in LAYOUT])
def layout(ctx, k):
    """comment lines, blank lines and the space between columns do not matter"""
    M = build(ctx, "tri3")
    head, foot, sep = LAYOUT[k]

    def dress(rows):
        return [{"sep": sep}] + head.split("\n") + rows[:1] + ([""] if k == "blank" else []) + rows[1:] + [foot]
    nodes = [[i, p[0], p[1], c[0], c[1]] for i, (p, c) in enumerate(zip(M.xy, M.cons))]
    fo = ctx.files({"nodes.txt": dress(nodes), "eles.txt": dress(M.table(ctx)), "mater.txt": dress(M.mats), "loads.txt": dress(M.loads)})
    check(ctx, M, ctx.m.gui.solids_GUI(plot_contours=False, folder=fo))


@CASES("spatial-nodes", weight=2, args=[("tri3", dict(s="tri3")), ("truss", dict(s="truss"))])
def spatial(ctx, s):
    """node files with a third coordinate: the flags are the last two columns"""
    M = build(ctx, s)
    nodes = [[i, p[0], p[1], ctx.real("z%d" % i, -1, 1), c[0], c[1]] for i, (p, c) in enumerate(zip(M.xy, M.cons))]
    fo = ctx.files({"nodes.txt": nodes, "eles.txt": M.table(ctx), "mater.txt": M.mats, "loads.txt": M.loads})
    check(ctx, M, ctx.m.gui.solids_GUI(plot_contours=False, folder=fo))


@CASES("identifiers", weight=2, args=[("tri3", dict(s="tri3")), ("quad4", dict(s="quad4"))])
def identifiers(ctx, s):
    """the first column of the node table is a label: rows are nodes"""
    M = build(ctx, s)
    n = len(M.xy)
    lab = [ctx.integer("no%d" % i, 0, 40) for i in range(n)]
    nodes = [[lab[i], p[0], p[1], c[0], c[1]] for i, (p, c) in enumerate(zip(M.xy, M.cons))]
    fo = ctx.files({"nodes.txt": nodes, "eles.txt": M.table(ctx), "mater.txt": M.mats, "loads.txt": M.loads})
    u = check(ctx, M, ctx.m.gui.solids_GUI(plot_contours=False, folder=fo))
    D = M.data(ctx)
    D["nodes"] = ctx.farray([r[:3] for r in nodes])
    v, E, S = ctx.m.gui.solids_auto(D, plot_contours=False, compute_strains=True)
    ctx.eq("same", v, u, scale=10)
    E0, S0 = ctx.m.pos.strain_nodes(M.data(ctx)["nodes"], D["elements"], D["mats"], v)
    ctx.eq("strains", E, E0, scale=10)


def ladder(ctx, n, nm):
    """springs in line, several material rows"""
    M = Model()
    M.mats = [[ctx.real("k%d" % e, 1, 5) if e < 2 else 1.0 + e] for e in range(nm)]
    M.xy = [[1.0 * i, 0.0] for i in range(n + 1)]
    M.cons = [[-1, -1]] + [[0, -1] for _ in range(n)]
    for e in range(n):
        m = (3 * e + 1) % nm
        k = M.mats[m][0]
        M.els.append(("spring", m, [e, e + 1] if e % 2 else [e + 1, e]))
        M.K.append(embed(4, [([[k, -k], [-k, k]], t_axial(1.0, 0.0))]))
    M.loads = [[i, ctx.real("P%d" % i, -10, 10) if n < 10 or i % 30 < 3 else .5 * (i % 5), 1.0] for i in range(n, 0, -1)]
    return M


@CASES("large-tables", weight=4, args=[("%d" % n, dict(n=n)) for n in (30, 230)])
def large_tables(ctx, n):
    """few unknowns; many parallel springs, materials, restrained nodes and loads"""
    M = Model()
    M.mats = [[ctx.real("k%d" % e, 1, 5) if e in (1, n - 1) else 1.0 + e % 4] for e in range(n)]
    M.xy = [[1.0 * i, 0.0] for i in range(n)]
    M.cons = [[-1, -1]] + [[0, -1] for _ in range(3)] + [[-1, -1] for _ in range(n - 4)]
    for e in range(n):
        m, i = (7 * e + 1) % n, e % 3
        k = M.mats[m][0]
        M.els.append(("spring", m, [i, i + 1] if e % 2 else [i + 1, i]))
        M.K.append(embed(4, [([[k, -k], [-k, k]], t_axial(1.0, 0.0))]))
    M.loads = [[3 - i % 3, ctx.real("P%d" % i, -10, 10) if i in (0, n - 1) else .5 * (i % 5), 1.0] for i in range(n)]
    check(ctx, M, ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False))
    check(ctx, M, ctx.m.gui.solids_GUI(plot_contours=False, folder=M.files(ctx)), "files ")


@CASES("longer", weight=5, args=[("%d-%d" % p, dict(n=p[0], nm=p[1])) for p in ((5, 3), (8, 6), (30, 7), (90, 11))])
def longer(ctx, n, nm):
    """more members, more materials"""
    M = ladder(ctx, n, nm)
    check(ctx, M, ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False))
    check(ctx, M, ctx.m.gui.solids_GUI(plot_contours=False, folder=M.files(ctx)), "files ")


@CASES("load-scale", weight=2, args=[("%s%s" % (n, f), dict(lo=-t, hi=t, f=f)) for n, t in (("small", 1e-9), ("mixed", 1e-7)) for f in ("", "-files")])
def load_scale(ctx, lo, hi, f):
    """tiny loads, alone or next to large ones, have their effect"""
    M = Model()
    M.mats = [[2.0]]
    M.xy = [[0.0, 0.0], [3.0, 4.0], [6.0, 0.0]]
    M.els = [("spring", 0, [0, 1]), ("spring", 0, [1, 2])]
    M.cons = [[-1, -1], [0, 0], [-1, -1]]
    P, Q = ctx.real("P", lo, hi), ctx.real("Q", 1e5, 1e6) if lo < -1e-8 else ctx.real("Q", lo, hi)
    M.loads = [[1, P, Q]]
    u = ctx.values(ctx.m.gui.solids_GUI(plot_contours=False, folder=M.files(ctx)) if f else
                   ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False))
    # stiffness 2 in two directions (.6, .8) and (.6, -.8): 1.44 and 2.56
    ctx.eq("horizontal", u[1][0] / hi * 1.44, P / hi, tol=1e-3)
    q = 1e6 if lo < -1e-8 else hi
    ctx.eq("vertical", u[1][1] / q * 2.56, Q / q, tol=1e-6)


@CASES("stiffness-scale", weight=2, args=[("auto", dict(f="")), ("files", dict(f="-files"))])
def stiffness_scale(ctx, f):
    """a very stiff structure beside a very soft one, joined by nothing or by a soft spring"""
    M = Model()
    big, small = ctx.real("k", 1e7, 2e7), ctx.real("j", 1e-4, 2e-4)
    M.mats = [[big], [small]]
    M.xy = [[0.0, 0.0], [3.0, 4.0], [6.0, 0.0], [0.0, 10.0], [3.0, 14.0], [6.0, 10.0]]
    M.els = [("spring", 0, [0, 1]), ("spring", 0, [1, 2]), ("spring", 1, [3, 4]), ("spring", 1, [4, 5])]
    M.cons = [[-1, -1], [0, 0], [-1, -1]] * 2
    P = [[ctx.real("%s%d" % (d, i), -10, 10) for d in "PQ"] for i in range(2)]
    M.loads = [[1] + P[0], [4] + P[1]]
    u = ctx.values(ctx.m.gui.solids_GUI(plot_contours=False, folder=M.files(ctx)) if f else
                   ctx.m.gui.solids_auto(M.data(ctx), plot_contours=False))
    for n, k, p in ((1, big, P[0]), (4, small, P[1])):
        for d, c in ((0, .72), (1, 1.28)):
            ctx.eq("node %d direction %d" % (n, d), u[n][d] * c * k, p[d], tol=1e-7)


@CASES("several-right-hand-sides", weight=2, args=[("%s%d" % (k, m), dict(kind=k, m=m)) for k in ("dense", "sparse") for m in (1, 2, 3)])
def several_rhs(ctx, kind, m):
    """load cases as columns"""
    K = [[3.0 + ctx.real("k%d%d" % (i, i), 0, 5) if i == j else ctx.real("k%d%d" % (i, j), -1, 1) for j in range(2)] for i in range(2)]
    b = [[ctx.real("b%d%d" % (i, j), -5, 5) for j in range(m)] for i in range(2)]
    A = ctx.farray(K)
    u = ctx.m.sol.static_sol(A if kind == "dense" else ctx.csr(A), ctx.farray(b))
    u = ctx.values(u)
    if m == 1:
        u = [[r] if not isinstance(r, list) else r for r in u]
    ctx.true("columns", len(u) == 2 and all(len(r) == m for r in u))
    ctx.eq("solution", matmul(K, u), b, scale=10)


@CASES("integers", weight=3, args=[(s, dict(s=s)) for s in ("dense", "sparse")])
def integers(ctx, s):
    """integer matrices and loads in the solver; integer tables in the analysis"""
    i, j = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", 1, 3))
    K = [[2 + j, -1, 0], [-1, 3, -1], [0, -1, 2]]
    b = [1, i, 3]
    R = [ctx.real("r%d" % k, -5, 5) for k in range(3)]
    for lab, A, f, want in (("matrix", ctx.array(K), ctx.farray(R), R), ("both", ctx.array(K), ctx.array(b), b), ("load", ctx.farray(K), ctx.array(b), b)):
        u = ctx.m.sol.static_sol(A if s == "dense" else ctx.csr(A), f)
        ctx.eq("solution, integer " + lab, matvec(K, ctx.values(u)), want, scale=10)
    D = dict(nodes=ctx.array([[k, k, 0] for k in range(4)]), cons=ctx.array([[-1, -1], [0, -1], [0, -1], [0, -1]]),
             elements=ctx.array([[k, 5, k % 2, k, k + 1] for k in range(3)]), mats=ctx.array([[3], [j]]), loads=ctx.array([[3, 1, 0], [2, i, 5]]))
    u = ctx.values(ctx.m.gui.solids_auto(D, plot_contours=False))
    F = [1 + i, 1 + i, 1]
    e = [F[k] / (3.0 if k % 2 == 0 else float(j)) for k in range(3)]
    ctx.eq("analysis", u, [[sum(e[:k]), 0.0] for k in range(4)], scale=10)
