"""the same structure described in another way"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("two to nine elements of one kind (3-, 6-node triangles, 4-, 9-node quadrilaterals, springs, trusses, frames with and without axial stiffness; tetrahedra, hexahedra and 8-node quadrilaterals "
          "as user elements) of the stated geometry with two material rows, every value of the loads in [-10,10] on every free node; four numberings of the nodes, three orders of the elements, every starting node, "
          "both member directions, quarter and 3-4-5 turns, mirror images, places 1000 away, units of length 1e-3 to 1000, of stiffness 1e-3 to 1e9; members in two to four pieces, parallel members in up to three")
OUTSIDE = "other structures and numberings; rounding and conditioning of the linear solver (its result is any vector satisfying the equations handed to it)"
TYP = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4, "spring": 5, "truss": 6, "beamU": 7, "beam": 8}
FLAT = ("tri3", "quad4", "tri6", "quad9")
USER = {"quad8": 2, "tet4": 3, "hex8": 3}


class Model:
    def __init__(self, kind, xy, els, mats, hold):
        self.kind, self.xy, self.els, self.mats = kind, xy, els, mats
        self.nd = 3 if kind in ("beam", "beamU", "tet4", "hex8") else 2
        self.cons = [[-1] * self.nd if i in hold else [0] * self.nd for i in range(len(xy))]
        self.loads = []

    def copy(self):
        M = Model(self.kind, [list(p) for p in self.xy], [(m, list(c)) for m, c in self.els], [list(r) for r in self.mats], ())
        M.cons = [list(r) for r in self.cons]
        M.loads = [list(r) for r in self.loads]
        return M


QUAD = [[0., 0.], [2., -.25], [4., 0.], [.25, 2.], [2., 2.25], [4., 1.75]]


def mid(a, b):
    return [(x + y) / 2 for x, y in zip(a, b)]


def structure(ctx, kind, loads=True):
    """the structure, with free loads at every free node"""
    E = [2.0, 3.0]
    solid = [[E[0], .25, 1.0], [E[1], .125, 2.0]]
    if kind == "tri3":
        M = Model(kind, [[0., 0.], [4., 0.], [4., 3.], [0., 3.], [1.75, 1.5]], [(0, [0, 1, 4]), (1, [1, 2, 4]), (0, [2, 3, 4]), (1, [3, 0, 4])], solid, (0, 1))
    elif kind == "quad4":
        M = Model(kind, [list(p) for p in QUAD], [(1, [0, 1, 4, 3]), (0, [1, 2, 5, 4])], solid, (0, 3))
    elif kind in ("quad8", "quad9"):
        P = [list(p) for p in QUAD]
        rows, seen = [], {}
        for m, c in ((1, [0, 1, 4, 3]), (0, [1, 2, 5, 4])):
            r = list(c)
            for a, b in zip(c, c[1:] + c[:1]):
                k = (min(a, b), max(a, b))
                if k not in seen:
                    seen[k] = len(P)
                    P.append(mid(P[a], P[b]))
                r.append(seen[k])
            if kind == "quad9":
                P.append([sum(P[i][j] for i in c) / 4 for j in range(2)])
                r.append(len(P) - 1)
            rows.append((m, r))
        M = Model(kind, P, rows, solid, (0, 3, seen[0, 3], seen[0, 1], 5) + ((seen[3, 4], 4) if kind == "quad9" else ()))
    elif kind == "tri6":
        P = [[0., 0.], [4., 0.], [4., 3.], [0., 3.]]
        P += [mid(P[0], P[1]), mid(P[1], P[2]), mid(P[0], P[2]), mid(P[2], P[3]), mid(P[3], P[0])]
        M = Model(kind, P, [(0, [0, 1, 2, 4, 5, 6]), (1, [0, 2, 3, 6, 7, 8])], solid, (0, 3, 8))
    elif kind in ("spring", "truss"):
        par = [[2.0], [3.0]] if kind == "spring" else [[2.0, 1.5], [3.0, .5]]
        M = Model(kind, [[0., 0.], [15., 20.], [30., 0.], [15., 0.]], [(0, [0, 1]), (1, [2, 1]), (1, [1, 3]), (0, [0, 3]), (0, [3, 2])], par, (0, 2))
    elif kind in ("beam", "beamU"):
        par = [[2.0, 1.5, 3.0, 1.0], [3.0, 2.5, .5, 1.0]]
        if kind == "beamU":         # modulus, inertia, density, area
            par = [[2.0, 1.5, 1.0, 3.0], [3.0, 2.5, 1.0, .5]]
            M = Model(kind, [[0., 0.], [15., 20.], [40., 20.], [15., 0.]], [(0, [0, 1]), (1, [2, 1]), (1, [3, 1])], par, (0, 2, 3))
        else:
            M = Model(kind, [[0., 0.], [15., 20.], [30., 20.], [30., 0.]], [(0, [0, 1]), (1, [2, 1]), (0, [2, 3])], par, (0, 3))
    elif kind == "tet4":
        P = [[0., 0., 0.], [4., 0., 0.], [0., 4., 0.], [0., 0., 4.], [1.0, 1.25, .75]]
        M = Model(kind, P, [(0, [0, 1, 2, 4]), (1, [0, 3, 1, 4]), (0, [0, 2, 3, 4]), (1, [1, 3, 2, 4])], solid, (0, 1, 2))
        M.els = [(m, [c[0], c[2], c[1], c[3]]) if vol(P, c) < 0 else (m, c) for m, c in M.els]
    else:
        P = [[x, y, z] for z in (0., 2.) for y in (0., 2.) for x in (0., 2., 4.)]
        P[10] = [2.25, 1.75, 2.]
        at = [[0, 1, 4, 3, 6, 7, 10, 9], [1, 2, 5, 4, 7, 8, 11, 10]]
        M = Model(kind, P, [(0, at[0]), (1, at[1])], solid, (0, 3, 6, 9, 1, 2, 5, 7))
    free = [i for i, c in enumerate(M.cons) if 0 in c]
    big = kind in ("hex8", "quad9", "tri6", "quad8")
    for i in (free[-3:] if big else free) if loads else ():
        M.loads.append([i] + [ctx.real("P%d%s" % (i, "xyz"[j]), -10, 10) for j in range(M.nd)])
    return M


def vol(P, c):
    v = [[P[c[k]][j] - P[c[0]][j] for j in range(3)] for k in (1, 2, 3)]
    return det3(v)


def analyse(ctx, M, how="auto", dense=False):
    """displacements [node][dof], and strains and stresses where there are any"""
    typ = TYP.get(M.kind, 20)
    T = ctx.array([[e, typ, m] + c for e, (m, c) in enumerate(M.els)])
    nodes = ctx.farray([[i] + p for i, p in enumerate(M.xy)])
    mats, loads, cons = ctx.farray(M.mats), ctx.farray(M.loads), ctx.array(M.cons)
    R = {}
    if how == "auto" and M.kind in FLAT + ("spring", "truss"):
        D = {"nodes": nodes, "cons": cons, "elements": T, "mats": mats, "loads": loads}
        if M.kind in FLAT:
            u = ctx.m.gui.solids_auto(D, plot_contours=False, compute_strains=M.kind != "quad9")
            if M.kind != "quad9":
                u, E, S = u
                R["E"], R["S"] = ctx.values(E), ctx.values(S)
        else:
            u = ctx.m.gui.solids_auto(D, plot_contours=False, compute_strains=False)
            if M.kind == "truss":
                R["N"] = ctx.values(ctx.m.pos.stress_truss(nodes, T, mats, u))
    else:
        kw, uel = {}, None
        if M.kind in USER:
            n = len(M.els[0][1]) * M.nd
            kw = dict(ndof_el_max=n, ndof_el=lambda t: n)
            uel = getattr(ctx.m.ue, "elast_" + M.kind)
        op, bc, neq = ctx.m.ass.DME(cons, T, ndof_node=M.nd, **kw)
        K, _ = ctx.m.ass.assembler(T, mats, nodes, neq, op, sparse=not dense, uel=uel)
        b = ctx.m.ass.loadasem(loads, bc, neq, ndof_node=M.nd)
        u = ctx.m.pos.complete_disp(bc, nodes, ctx.m.sol.static_sol(K, b), ndof_node=M.nd)
    R["u"] = ctx.values(u)
    return R


def same(ctx, lab, A, B, node=None, u=None, t=None, el=None, fu=1.0, fe=1.0, fs=1.0):
    """B's results against A's: node[i] the number in B of node i of A, u and t how vectors and tensors turn"""
    node = node or list(range(len(A["u"])))
    u = u or (lambda v: v)
    t = t or (lambda v, eng: v)
    for i, v in enumerate(A["u"]):
        ctx.eq(lab + " displacement", B["u"][node[i]], [fu * x for x in u(v)], tol=1e-6, scale=10)
    if "E" in A:
        for i in range(len(A["u"])):
            ctx.eq(lab + " strain", B["E"][node[i]], [fe * x for x in t(A["E"][i], True)], tol=1e-6, scale=10)
            ctx.eq(lab + " stress", B["S"][node[i]], [fs * x for x in t(A["S"][i], False)], tol=1e-6, scale=10)
    if "N" in A:
        el = el or list(range(len(A["N"])))
        for e, x in enumerate(A["N"]):
            ctx.eq(lab + " axial", B["N"][el[e]], fs * x, tol=1e-6, scale=10)


ALLK = FLAT + ("spring", "truss", "beam", "beamU", "quad8", "tet4", "hex8")
K = lambda names: [(k, dict(kind=k)) for k in names]


def orders(n):
    return {"reversed": list(range(n))[::-1], "rotated": [(i + 1) % n for i in range(n)],
            "odd-even": list(range(1, n, 2)) + list(range(0, n, 2)), "swap": [n - 1] + list(range(1, n - 1)) + [0]}


@CASES("numbering", weight=3, args=[("%s-%s" % (k, o), dict(kind=k, o=o)) for k in ALLK for o in (("reversed", "rotated", "odd-even", "swap") if k in ("tri3", "quad4", "truss", "beam") else ("reversed", "odd-even"))])
def numbering(ctx, kind, o):
    """node numbers"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    n = len(M.xy)
    p = orders(n)[o]
    N = M.copy()
    for i in range(n):
        N.xy[p[i]], N.cons[p[i]] = list(M.xy[i]), list(M.cons[i])
    N.els = [(m, [p[i] for i in c]) for m, c in M.els]
    N.loads = [[p[r[0]]] + r[1:] for r in M.loads]
    same(ctx, o, A, analyse(ctx, N), node=p)


@CASES("element-order", weight=3, args=K(ALLK))
def element_order(ctx, kind):
    """order of elements, loads and material rows; repeated and unused material rows"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    o = ctx.choice("o", ["reversed", "rotated", "odd-even"][:1 if kind in ("hex8", "quad8", "quad9") else 3])
    p = orders(len(M.els))[o]
    N = M.copy()
    for e, x in enumerate(M.els):
        N.els[p[e]] = (x[0], list(x[1]))
    N.loads = M.loads[::-1]
    same(ctx, "elements", A, analyse(ctx, N), el=p)
    N = M.copy()
    extra = [x + 40.0 for x in M.mats[0]]
    N.mats = [extra, M.mats[1], M.mats[0], M.mats[1]] if o == "reversed" else [M.mats[1], M.mats[0], extra]
    row = {0: 2, 1: 3} if o == "reversed" else {0: 1, 1: 0}
    N.els = [(row[m] if o != "reversed" or m == 0 or e % 3 else 1, c) for e, (m, c) in enumerate(M.els)]
    same(ctx, "materials", A, analyse(ctx, N))


CYC = {"tri3": [[1, 2, 0], [2, 0, 1]], "quad4": [[1, 2, 3, 0], [2, 3, 0, 1], [3, 0, 1, 2]],
       "tri6": [[1, 2, 0, 4, 5, 3], [2, 0, 1, 5, 3, 4]], "quad9": [[1, 2, 3, 0, 5, 6, 7, 4, 8], [3, 0, 1, 2, 7, 4, 5, 6, 8]],
       "quad8": [[1, 2, 3, 0, 5, 6, 7, 4], [2, 3, 0, 1, 6, 7, 4, 5]], "spring": [[1, 0]], "truss": [[1, 0]], "beam": [[1, 0]], "beamU": [[1, 0]],
       "tet4": [[1, 2, 0, 3], [3, 1, 0, 2]], "hex8": [[1, 2, 3, 0, 5, 6, 7, 4], [4, 7, 6, 5, 0, 3, 2, 1]]}


@CASES("starting-node", weight=3, args=[("%s-%d" % (k, i), dict(kind=k, i=i)) for k in ALLK for i in range(len(CYC[k]))])
def starting(ctx, kind, i):
    """first node of elements, direction of members (all or one of them)"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    c = CYC[kind][i]
    w = ctx.choice("which", ["all", "last"])
    N = M.copy()
    N.els = [(m, [n[j] for j in c]) if w == "all" or e == len(M.els) - 1 else (m, n) for e, (m, n) in enumerate(M.els)]
    same(ctx, "start", A, analyse(ctx, N))


def moved(M, pos, vec):
    N = M.copy()
    N.xy = [pos(p) for p in M.xy]
    N.loads = [[r[0]] + vec(r[1:]) for r in M.loads]
    return N


FLIP = {"tri3": [0, 2, 1], "quad4": [0, 3, 2, 1], "tri6": [0, 2, 1, 5, 4, 3], "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8], "quad8": [0, 3, 2, 1, 7, 6, 5, 4],
        "tet4": [0, 2, 1, 3], "hex8": [0, 3, 2, 1, 4, 7, 6, 5]}


def turned(R, flip):
    """vectors (two translations, and a rotation if there are three) and plane tensors"""
    a, b, c, d = R

    def vec(v):
        return [a * v[0] + b * v[1], c * v[0] + d * v[1]] + [x * (-1.0 if flip else 1.0) for x in v[2:]]

    def ten(v, eng):
        xy = v[2] / 2 if eng else v[2]
        q = [[v[0], xy], [xy, v[1]]]
        Q = [[a, b], [c, d]]
        r = matmul(matmul(Q, q), transpose(Q))
        return [r[0][0], r[1][1], r[0][1] * (2 if eng else 1)]
    return vec, ten


MOVES = {"quarter": (0., -1., 1., 0.), "half": (-1., 0., 0., -1.), "oblique": (.6, -.8, .8, .6), "mirror-x": (-1., 0., 0., 1.), "mirror-diagonal": (0., 1., 1., 0.)}


@CASES("moved", weight=3, args=[("%s-%s" % (k, m), dict(kind=k, mv=m)) for k in FLAT + ("spring", "truss", "beam", "beamU", "quad8") for m in list(MOVES) + ["away"]])
def moved_case(ctx, kind, mv):
    """turned, mirrored or placed elsewhere"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    if mv == "away":
        same(ctx, mv, A, analyse(ctx, moved(M, lambda p: [p[0] + 1000., p[1] - 750.], lambda v: v)))
        return
    flip = mv.startswith("mirror")
    vec, ten = turned(MOVES[mv], flip)
    if mv == "oblique":
        pos = lambda p: [(3 * p[0] - 4 * p[1]) / 5, (4 * p[0] + 3 * p[1]) / 5]
    else:
        pos = vec
    N = moved(M, pos, vec)
    if flip and kind in FLIP:
        N.els = [(m, [c[j] for j in FLIP[kind]]) for m, c in M.els]
    same(ctx, mv, A, analyse(ctx, N), u=vec, t=ten)


@CASES("moved-solid", weight=3, args=[("%s-%s" % (k, m), dict(kind=k, mv=m)) for k in ("tet4", "hex8") for m in ("axes", "turn", "mirror", "away")])
def moved_solid(ctx, kind, mv):
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    f = {"axes": lambda v: [v[2], v[0], v[1]], "turn": lambda v: [-v[1], v[0], v[2]], "mirror": lambda v: [v[0], v[1], -v[2]], "away": lambda v: v}[mv]
    N = moved(M, f if mv != "away" else (lambda p: [p[0] + 100., p[1] - 75., p[2] + 50.]), f)
    if mv == "mirror":
        N.els = [(m, [c[j] for j in FLIP[kind]]) for m, c in M.els]
    same(ctx, mv, A, analyse(ctx, N), u=f)


@CASES("units", weight=3, args=[("%s-%g-%g" % (k, s, e), dict(kind=k, s=s, e=e)) for k in ALLK for s, e in ((1e-2 if k in ("tet4", "hex8") else 1e-3, 1.0), (1000.0, 1.0), (1.0, 1e9), (1.0, 1e-3), (12.0, 64.0)) if k not in ("hex8", "quad8") or s < 1 or (s, e) in ((1.0, 1e9), (12.0, 64.0))])
def units(ctx, kind, s, e):
    """other units of length and stiffness; loads in the unit that keeps them in proportion"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    flat = M.nd == 2 and kind not in ("spring", "truss")
    # moduli times e, lengths times s; forces times e s^2 (plane: per thickness, e s)
    N = M.copy()
    N.xy = [[s * x for x in p] for p in M.xy]
    N.mats = [{"spring": lambda r: [r[0] * e], "truss": lambda r: [r[0] * e, r[1] * s * s],
               "beam": lambda r: [r[0] * e, r[1] * s ** 4, r[2] * s * s, r[3]], "beamU": lambda r: [r[0] * e, r[1] * s ** 4, r[2], r[3] * s * s]}.get(
                   kind, lambda r: [r[0] * e] + r[1:])(r) for r in M.mats]
    f = e * s if flat or kind == "spring" else e * s * s
    m = kind in ("beam", "beamU")
    N.loads = [[r[0]] + [f * x * (s if m and j == 2 else 1.0) for j, x in enumerate(r[1:])] for r in M.loads]
    B = analyse(ctx, N)
    B["u"] = [[x / (1.0 if m and j == 2 else s) for j, x in enumerate(r)] for r in B["u"]]
    B["S"] = [[x / e for x in r] for r in B.get("S", [])]
    B["N"] = [x / e for x in B.get("N", [])]
    same(ctx, "units", A, B)


@CASES("load-history", weight=2, args=K(ALLK))
def load_history(ctx, kind):
    """loads in several rows, with rows of zeros, loads on supports"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    N = M.copy()
    z = [0.0] * M.nd
    N.loads = []
    held = [i for i, c in enumerate(M.cons) if 0 not in c]
    for k, r in enumerate(M.loads):
        h = [x / 4 for x in r[1:]]
        N.loads.insert(0, [r[0]] + h)
        N.loads.append([r[0]] + [2 * x for x in h])
        N.loads.append([r[0]] + h)
        N.loads.append([held[k % len(held)]] + [5.0 + k + j for j in range(M.nd)])
        N.loads.insert(1, [r[0]] + z)
    same(ctx, "rows", A, analyse(ctx, N))


@CASES("superposition", weight=3, args=K(ALLK))
def superposition(ctx, kind):
    """linear in the loads; reciprocity; the work of the stated loads is not negative"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    t = ctx.choice("t", [-2.0, .5, 1e3][:1 if kind in ("hex8", "quad8", "quad9") else 3])
    N = M.copy()
    one = [[float(i + 1 - 2 * j) for j in range(M.nd)] for i in range(len(M.loads))]
    N.loads = [[r[0]] + v for r, v in zip(M.loads, one)]
    B = analyse(ctx, N)
    N.loads = [[r[0]] + [t * x + y for x, y in zip(r[1:], v)] for r, v in zip(M.loads, one)]
    C = analyse(ctx, N)
    for k in A:
        if k == "N":
            ctx.eq("axial", C[k], [t * x + y for x, y in zip(A[k], B[k])], tol=1e-6, scale=1000)
            continue
        for a, b, c in zip(A[k], B[k], C[k]):
            ctx.eq(k, c, [t * x + y for x, y in zip(a, b)], tol=1e-6, scale=1000)
    w1 = sum(x * y for r, v in zip(M.loads, one) for x, y in zip(v, A["u"][r[0]]))
    w2 = sum(x * y for r in M.loads for x, y in zip(r[1:], B["u"][r[0]]))
    ctx.eq("reciprocity", w1, w2, tol=1e-6, scale=1000)
    ctx.le("work of the loads", 0.0, sum(x * y for r, v in zip(M.loads, one) for x, y in zip(v, B["u"][r[0]])), tol=0.0)


@CASES("storage", weight=2, args=K(ALLK))
def storage(ctx, kind):
    """the driver, and the steps by hand with dense and sparse matrices"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    for d in (False, True):
        B = analyse(ctx, M, "steps", d)
        same(ctx, "dense" if d else "sparse", {"u": A["u"]}, B)


@CASES("pieces", weight=3, args=[("%s-%d" % (k, n), dict(kind=k, n=n)) for k in ("beam", "beamU", "truss") for n in (2, 3, 4)])
def pieces(ctx, kind, n):
    """members in several pieces of different lengths (trusses and beams without axial stiffness: the horizontal ones, guided)"""
    M = structure(ctx, kind)
    A = analyse(ctx, M)
    N = M.copy()
    cut = [0, 1, 3, 4][:n] + [5]
    N.els, where = [], []
    for e, (m, c) in enumerate(M.els):
        a, b = M.xy[c[0]], M.xy[c[1]]
        whole = e == 1 if kind == "beam" else a[1] != b[1]
        last, w = c[0], []
        for k in range(1 if whole else n):
            new = c[1]
            if not whole and k < n - 1:
                new = len(N.xy)
                q = cut[k + 1]
                N.xy.append([(a[j] * (5 - q) + b[j] * q) / 5 for j in range(2)])
                N.cons.append({"truss": [0, -1], "beam": [0, 0, 0], "beamU": [-1, 0, 0]}[kind])
            w.append(len(N.els))
            N.els.append((m, [last, new] if (k + e) % 2 else [new, last]))
            last = new
        where.append(w)
    B = analyse(ctx, N)
    for i, v in enumerate(A["u"]):
        ctx.eq("displacement", B["u"][i], v, tol=1e-6, scale=100)
    if "N" in A:
        for e, w in enumerate(where):
            ctx.eq("axial", [B["N"][q] for q in w], [A["N"][e]] * len(w), tol=1e-6, scale=100)


@CASES("parallel", weight=2, args=[("%s-%d" % (k, n), dict(kind=k, n=n)) for k in ALLK for n in (2, 3)])
def parallel(ctx, kind, n):
    """n elements in the same place act as one of n times the stiffness"""
    M = structure(ctx, kind)
    N = M.copy()
    N.els = [(m, list(c)) for k in range(n) for m, c in M.els]
    B = analyse(ctx, N)
    P = M.copy()
    P.mats = [[n * r[0]] + r[1:] for r in M.mats]
    A = analyse(ctx, P)
    for i, v in enumerate(A["u"]):
        ctx.eq("displacement", B["u"][i], v, tol=1e-6, scale=10)
    if "E" in A:
        ctx.eq("strain", B["E"], A["E"], tol=1e-6, scale=10)
        ctx.eq("stress", [[n * x for x in r] for r in B["S"]], A["S"], tol=1e-6, scale=10)
    if "N" in A:
        ctx.eq("axial", [n * x for x in B["N"]], A["N"] * n, tol=1e-6, scale=10)


@CASES("halves", weight=2, args=[(k, dict(kind=k)) for k in FLAT])
def halves(ctx, kind):
    """half of a symmetric structure, held on the axis, moves as the whole"""
    M = structure(ctx, kind)
    right = max(p[0] for p in M.xy)
    on = [i for i, p in enumerate(M.xy) if p[0] == right]
    H = M.copy()
    for i in on:
        H.cons[i][0] = -1
    A = analyse(ctx, H)
    N = M.copy()
    img = {}
    for i, p in enumerate(M.xy):
        if i in on:
            img[i] = i
        else:
            img[i] = len(N.xy)
            N.xy.append([2 * right - p[0], p[1]])
            N.cons.append(list(M.cons[i]))
    N.els += [(m, [img[c[j]] for j in FLIP[kind]]) for m, c in M.els]
    N.loads = []
    for r in M.loads:
        if r[0] in on:
            N.loads.append([r[0], 0.0, 2 * r[2]])
        else:
            N.loads += [list(r), [img[r[0]], -r[1], r[2]]]
    B = analyse(ctx, N)
    for i, v in enumerate(A["u"]):
        ctx.eq("half", B["u"][i], v, tol=1e-6, scale=10)
        ctx.eq("image", B["u"][img[i]], [-v[0], v[1]], tol=1e-6, scale=10)
    if "E" in A:
        for i in range(len(M.xy)):
            if i not in on:
                ctx.eq("strain", B["E"][i], A["E"][i], tol=1e-6, scale=10)
                ctx.eq("image strain", B["E"][img[i]], [A["E"][i][0], A["E"][i][1], -A["E"][i][2]], tol=1e-6, scale=10)
