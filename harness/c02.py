"""global assembly is the exact scatter-add of the element matrices"""
from hlib import *
CASES = Cases()
BOUNDS = ("user elements of 2 nodes with 1-3 dof per node: every real 2x2/4x4/6x6 element matrix pair, every restraint "
          "pattern and ten connectivity pairs over 3 nodes; rings of 9 to 140 elements with 3 symbolic matrix pairs; grids of up to 528 four-node elements with three matrix pairs, one of them symbolic in 16 entries; 4 and 6 dofs per node; three elements far apart in meshes of 20000 and 70001 nodes (sparse storage, selected entries); built-in types 1-8, two elements, symbolic materials and scale")
OUTSIDE = "other large meshes: more than 528 elements, or more nodes than that with more than three elements"


def uel_of(ctx, ks, ms):
    def uel(coord, par):
        e = uel.n
        uel.n += 1
        return ks[e], ms[e]
    uel.n = 0
    return uel


def run(ctx, els, neq, am, uelf, mats=None, nodes=None, **want):
    ass = ctx.m.ass
    mats = ctx.array([[1.0]]) if mats is None else mats
    nodes = ctx.array([[0, 0.0, 0.0], [1, 1.0, 0.0], [2, 0.0, 1.0]]) if nodes is None else nodes
    for sparse in want.get("modes", (True, False, None)):
        kw = {} if sparse is None else {"sparse": sparse}
        K, M = ass.assembler(els, mats, nodes, neq, am, uel=uelf() if uelf else None, **kw)
        sp = sparse is not False
        ctx.true("storage", ctx.is_sparse(K) == sp and ctx.is_sparse(M) == sp)
        for nm, A in (("stiffness", K), ("mass", M)):
            lab = "%s %s" % (nm, "sparse" if sp else "dense")
            ctx.true(lab + " size", ctx.shape(A) == (neq, neq))
            if neq:
                if "where" in want:
                    eq_sparse(ctx, lab, ctx.values(ctx.dense(A)), want[nm], want["where"], rel=1e-9)
                else:
                    ctx.eq(lab, ctx.dense(A), want[nm], rel=1e-9)


PAIRS = [(a, b) for a in ((0, 1), (2, 1)) for b in ((0, 1), (1, 0), (1, 2), (2, 0), (0, 2))]


@CASES("connectivity", weight=5, args=[("%d%d-%d%d" % (p + q), dict(p=p, q=q)) for p, q in PAIRS])
def connectivity(ctx, p, q):
    nn, nd = 3, 2
    fl = flags(ctx, nn, nd)
    els = ctx.array([[eid(ctx, 0), 7, 0, *p], [eid(ctx, 1), 7, 0, *q]])
    ks = [symmat(ctx, 4, "k%d" % e) for e in range(2)]
    ms = [symmat(ctx, 4, "m%d" % e) for e in range(2)]
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=2, ndof_el_max=4, ndof_el=lambda t: 4)
    n, t = number(fixed_flags(ctx, fl))
    dofs = [[t[k][j] for k in c for j in range(nd)] for c in (p, q)]
    run(ctx, els, n, am, lambda: uel_of(ctx, [ctx.farray(k) for k in ks], [ctx.farray(k) for k in ms]),
        stiffness=scatter(n, list(zip(dofs, ks))), mass=scatter(n, list(zip(dofs, ms))))


@CASES("small", weight=3)
def small(ctx):
    """all magnitudes: one entry pair, huge and tiny values"""
    k = symmat(ctx, 2, "k", -1e12, 1e12)
    m = symmat(ctx, 2, "m", -1e12, 1e12)
    els = ctx.array([[0, 7, 0, 0, 1]])
    am = ctx.array([[1, 0]])
    run(ctx, els, 2, am, lambda: uel_of(ctx, [ctx.farray(k)], [ctx.farray(m)]),
        stiffness=[[k[1][1], k[1][0]], [k[0][1], k[0][0]]], mass=[[m[1][1], m[1][0]], [m[0][1], m[0][0]]])


@CASES("tiny", weight=3)
def tiny(ctx):
    """magnitudes down to 1e-30"""
    k = symmat(ctx, 2, "k", -1e-9, 1e-9)
    m = symmat(ctx, 2, "m", -1e-20, 1e-20)
    els = ctx.array([[0, 7, 0, 0, 1], [1, 7, 0, 1, 0]])
    am = ctx.array([[0, 1], [-1, 1]])
    z = [[0.0, 0.0], [0.0, 0.0]]
    run(ctx, els, 2, am, lambda: uel_of(ctx, [ctx.farray(k), ctx.farray(k)], [ctx.farray(m), ctx.farray(m)]),
        stiffness=[[k[0][0], k[0][1]], [k[1][0], k[1][1] + k[1][1]]],
        mass=[[m[0][0], m[0][1]], [m[1][0], m[1][1] + m[1][1]]])


@CASES("ndof", weight=4, args=[("1", dict(nd=1)), ("3", dict(nd=3))])
def ndof(ctx, nd):
    """1 and 3 dofs per node, three elements, integer-valued element matrices too"""
    nn = 3
    fl = flags(ctx, nn, nd) if nd == 1 else flags(ctx, 1, nd) + [[0, -1, 0], [ctx.integer("g", -1, 0), 0, 0]]
    cs = [[0, 1], [1, 2], [2, 0]]
    els = ctx.array([[eid(ctx, e), 3, 0] + c for e, c in enumerate(cs)])
    n_ = 2 * nd
    ks = [symmat(ctx, n_, "k%d" % e) if e < 2 else [[i * 3 - j for j in range(n_)] for i in range(n_)] for e in range(3)]
    ms = [symmat(ctx, n_, "m%d" % e) if e != 1 else [[i - 2 * j for j in range(n_)] for i in range(n_)] for e in range(3)]
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=nd, ndof_el_max=n_ + 2, ndof_el=lambda t: n_)
    n, t = number(fixed_flags(ctx, fl))
    dofs = [[t[k][j] for k in c for j in range(nd)] for c in cs]
    run(ctx, els, n, am, lambda: uel_of(ctx, [ctx.array(k) for k in ks], [ctx.array(k) for k in ms]),
        stiffness=scatter(n, list(zip(dofs, ks))), mass=scatter(n, list(zip(dofs, ms))))


SH = {1: ([(0, 0), (2, 0), (2, 1), (0, 1), (4, 0), (4, 1.5)], [[0, 1, 2, 3], [5, 2, 1, 4]]),
      2: ([(0, 0), (2, 0), (0, 2), (1, 0), (1, 1), (0, 1), (2, 2), (2, 1), (1, 2)],
          [[0, 1, 2, 3, 4, 5], [6, 2, 1, 8, 4, 7]]),
      3: ([(0, 0), (2, 0), (0, 1), (2, 2)], [[0, 1, 2], [3, 2, 1]]),
      4: ([(x * .5, y * .5) for y in range(3) for x in range(5)],
          [[0, 2, 12, 10, 1, 7, 11, 5, 6], [14, 12, 2, 4, 13, 7, 3, 9, 8]])}
MEM = [(0, 0), (3, 0), (3, 4), (0, 1.5)]
ELM = {5: [[0, 1], [2, 1], [3, 0]], 6: [[1, 0], [1, 2], [0, 3]], 7: [[0, 1], [2, 1], [3, 0]], 8: [[1, 0], [2, 1], [0, 3]]}


@CASES("builtin", weight=6, args=[(str(k), dict(typ=k)) for k in range(1, 9)])
def builtin(ctx, typ):
    """built-in elements with symbolic size and materials, against the element routines themselves"""
    ue = ctx.m.ue
    pts, els = SH[typ] if typ in SH else (MEM, ELM[typ])
    s = ctx.real("s", .5, 2)
    nd = 3 if typ > 6 else 2
    npar = {5: 1, 6: 3, 7: 4, 8: 4}.get(typ, 3)
    mats = [[ctx.real("E%d" % k, 1, 10), ctx.real("p%d" % k, .1, .4), ctx.real("d%d" % k, .5, 2),
             ctx.real("q%d" % k, .5, 2)][:npar] for k in range(2)]
    fn = {1: ue.elast_quad4, 2: ue.elast_tri6, 3: ue.elast_tri3, 4: ue.elast_quad9, 5: ue.spring, 6: ue.truss2D,
          7: ue.beam2DU, 8: ue.beam2D}[typ]
    xy = [[s * p[0], s * p[1]] for p in pts]
    fl = [[-1 if (i * 5 + j * 3) % 7 == 0 else 0 for j in range(nd)] for i in range(len(pts))]
    n, t = number(fl)
    rows = [[eid(ctx, e), typ, e % 2] + c for e, c in enumerate(els)]
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), ctx.array(rows), ndof_node=nd)
    loc = [fn(ctx.farray([xy[k] for k in c]), ctx.farray(mats[e % 2])) for e, c in enumerate(els)]
    dofs = [[t[k][j] for k in c for j in range(nd)] for c in els]
    nodes = ctx.farray([[i] + xy[i] + [0.0] * 2 for i in range(len(xy))])
    K = scatter(n, [(d, ctx.values(l[0])) for d, l in zip(dofs, loc)])
    M = scatter(n, [(d, ctx.values(l[1])) for d, l in zip(dofs, loc)])
    run(ctx, ctx.array(rows), n, am, None, mats=ctx.farray(mats), nodes=nodes, stiffness=K, mass=M)


@CASES("chain", weight=12, budget=200, args=[("%d-%d" % (n, d), dict(ne=n, nd=d)) for n, d in
                                  ((9, 2), (18, 2), (45, 1), (140, 1))])
def chain(ctx, ne, nd):
    """many elements in a closed ring: every element uses one of three symbolic matrix pairs"""
    nn = ne
    fl = [[-1 if (7 * i + 3 * j) % 13 == 0 else 0 for j in range(nd)] for i in range(nn)]
    fl[1][0] = ctx.integer("f", -1, 0)
    ks = [symmat(ctx, 2 * nd, "k%d" % e) for e in range(3)]
    ms = [symmat(ctx, 2 * nd, "m%d" % e) for e in range(3)]
    cs = [[i, (i + 1) % nn] if i % 2 else [(i + 1) % nn, i] for i in range(ne)]
    els = ctx.array([[e + 5, 9, e % 3] + c for e, c in enumerate(cs)])
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=nd, ndof_el_max=2 * nd, ndof_el=lambda t: 2 * nd)
    n, t = number(fixed_flags(ctx, fl))
    dofs = [[t[k][j] for k in c for j in range(nd)] for c in cs]
    K = [ctx.farray(k) for k in ks]
    M = [ctx.farray(k) for k in ms]

    def uel(coord, par):
        e = int(ctx.values(par)[0])
        return K[e], M[e]
    nodes = ctx.farray([[i, 1.0 * i, 0.5 * i] for i in range(nn)])
    run(ctx, els, n, am, lambda: uel, mats=ctx.array([[0], [1], [2]]), nodes=nodes,
        stiffness=scatter(n, [(d, ks[e % 3]) for e, d in enumerate(dofs)]),
        mass=scatter(n, [(d, ms[e % 3]) for e, d in enumerate(dofs)]), modes=(True, False), where=positions(dofs))


@CASES("dofs", weight=6, args=[("4", dict(nd=4)), ("6", dict(nd=6))])
def dofs_many(ctx, nd):
    """four and six dofs per node; the sparsity of the element matrices differs between stiffness and mass"""
    fl = [[-1 if (i + 2 * j) % 5 == 0 else 0 for j in range(nd)] for i in range(3)]
    fl[1][nd - 1] = ctx.integer("f", -1, 0)
    n_ = 2 * nd
    ks = [[[0.0 if (i + j + e) % 3 == 0 else ctx.real("k%d_%d_%d" % (e, i, j), -5, 5) for j in range(n_)] for i in range(n_)] for e in range(2)]
    ms = [[[0.0 if (i + j + e) % 3 else ctx.real("m%d_%d_%d" % (e, i, j), -5, 5) for j in range(n_)] for i in range(n_)] for e in range(2)]
    cs = [[2, 0], [1, 2]]
    els = ctx.array([[eid(ctx, e), 31, 0] + c for e, c in enumerate(cs)])
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=nd, ndof_el_max=n_, ndof_el=lambda t: n_)
    n, t = number(fixed_flags(ctx, fl))
    dd = [[t[k][j] for k in c for j in range(nd)] for c in cs]
    run(ctx, els, n, am, lambda: uel_of(ctx, [ctx.farray(k) for k in ks], [ctx.farray(k) for k in ms]),
        stiffness=scatter(n, list(zip(dd, ks))), mass=scatter(n, list(zip(dd, ms))))


@CASES("user-mass", weight=5)
def user_mass(ctx):
    """elements of the user: the same shape and material at different places may differ"""
    x = [ctx.real("x%d" % i, -3, 3) for i in range(3)]
    a, b = ctx.real("a", .5, 2), ctx.real("b", .5, 2)
    nodes = ctx.farray([[i, x[i] if i < 3 else 1.0, 2.0 * i] for i in range(4)])
    cs = [[0, 1], [1, 2], [2, 3]]
    els = ctx.array([[eid(ctx, e), 3, e % 2] + c for e, c in enumerate(cs)])
    fl = [[0], [0], [ctx.integer("f", -1, 0)], [0]]
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=1, ndof_el_max=2, ndof_el=lambda t: 2)
    n, t = number(fixed_flags(ctx, fl))

    def uel(coord, par):
        v = ctx.values(coord)
        p = ctx.values(par)
        k = [[p[0] * (v[0][0] + 4.0), v[0][1]], [v[1][1], p[1] * v[1][0]]]
        return ctx.farray(k), ctx.farray([[2.0 * q for q in r] for r in k])
    P = [[a, b], [b, 3.0]]
    X = [x[0], x[1], x[2], 1.0]
    ks = [[[P[e % 2][0] * (X[c[0]] + 4.0), 2.0 * c[0]], [2.0 * c[1], P[e % 2][1] * X[c[1]]]] for e, c in enumerate(cs)]
    dd = [[t[k][0] for k in c] for c in cs]
    run(ctx, els, n, am, lambda: uel, mats=ctx.farray(P), nodes=nodes, stiffness=scatter(n, list(zip(dd, ks))),
        mass=scatter(n, [(d, [[2.0 * q for q in r] for r in k]) for d, k in zip(dd, ks)]))


@CASES("grid", weight=10, budget=200, args=[("%dx%d" % p, dict(a=p[0], b=p[1])) for p in ((12, 12), (3, 40), (24, 22))])
def grid(ctx, a, b):
    """many four-node elements: three matrix pairs, one of them free"""
    nn = (a + 1) * (b + 1)
    nd = 2
    fl = [[-1 if i % (a + 1) == 0 and (i + j) % 3 == 0 else 0 for j in range(nd)] for i in range(nn)]
    ks = [[[((3 * i + 5 * j + 7 * e) % 11 - 5) / 8 + 2.0 ** -30 for j in range(8)] for i in range(8)] for e in range(3)]
    ms = [[[((5 * i + 2 * j + 3 * e) % 13) / 8 + 2.0 ** -30 for j in range(8)] for i in range(8)] for e in range(3)]
    for i in range(8):
        ks[1][i][(i + 1) % 8] = ctx.real("k%d" % i, -5, 5)
        ms[1][i][(i + 3) % 8] = ctx.real("m%d" % i, -5, 5)
    cs = []
    for r in range(b):
        for c in range(a):
            k = r * (a + 1) + c
            cs.append([k, k + 1, k + a + 2, k + a + 1])
    cs = cs[1::2] + cs[::2]
    kind = [1 if e % 60 in (7, 8) or e == len(cs) - 1 else 2 * (e % 2) for e in range(len(cs))]
    els = ctx.array([[e, 9, m] + c for e, (m, c) in enumerate(zip(kind, cs))])
    am, bc, neq = ctx.m.ass.DME(ctx.array(fl), els, ndof_node=nd, ndof_el_max=8, ndof_el=lambda t: 8)
    n, t = number(fl)
    dofs = [[t[k][j] for k in c for j in range(nd)] for c in cs]
    K, M = [ctx.farray(k) for k in ks], [ctx.farray(k) for k in ms]

    def uel(coord, par):
        e = int(ctx.values(par)[0])
        return K[e], M[e]
    nodes = ctx.farray([[i, 1.0 * (i % (a + 1)), .5 * (i // (a + 1))] for i in range(nn)])
    run(ctx, els, n, am, lambda: uel, mats=ctx.array([[0], [1], [2]]), nodes=nodes,
        stiffness=scatter(n, [(d, ks[m]) for m, d in zip(kind, dofs)]),
        mass=scatter(n, [(d, ms[m]) for m, d in zip(kind, dofs)]), modes=(True, False) if a < 20 else (True,), where=positions(dofs))


@CASES("huge-mesh", weight=4, args=[(str(n), dict(nn=n)) for n in (20000, 70001)])
def huge_mesh(ctx, nn):
    """equation numbers beyond 16 and 17 bits, sparse storage"""
    np = ctx.np
    cs = [[5, nn - 1], [nn - 1, nn // 2], [16400, 5]]
    els = ctx.array([[e, 9, e % 2] + c for e, c in enumerate(cs)])
    cons = np.zeros((nn, 2), dtype=int)
    cons[0, 0] = -1
    cons[nn - 2, 1] = -1
    am, bc, neq = ctx.m.ass.DME(cons, els, ndof_node=2, ndof_el_max=4, ndof_el=lambda t: 4)
    x = np.zeros((nn, 3))
    x[:, 0] = np.arange(nn)
    x[:, 1] = np.arange(nn) * .5
    ks = [symmat(ctx, 4, "k%d" % e) for e in range(2)]
    ms = [symmat(ctx, 4, "m%d" % e) for e in range(2)]

    def uel(coord, par):
        e = int(ctx.values(par)[0])
        return ctx.farray(ks[e]), ctx.farray(ms[e])
    K, M = ctx.m.ass.assembler(els, ctx.array([[0], [1]]), x, neq, am, uel=uel)
    n = 2 * nn - 2
    ctx.true("size", ctx.shape(K) == (n, n) and ctx.shape(M) == (n, n))
    eq = lambda k, j: 2 * k + j - 1 - (k == nn - 1)
    dofs = [[eq(k, j) for k in c for j in range(2)] for c in cs]
    for nm, A, loc in (("stiffness", K, ks), ("mass", M, ms)):
        want = {}
        for e, d in enumerate(dofs):
            for a, i in enumerate(d):
                for b, j in enumerate(d):
                    want[i, j] = want.get((i, j), 0.0) + loc[e % 2][a][b]
        for k in range(n - 65536 - 3, n, 9973):
            want.setdefault((k, k), 0.0)
        for i, j in list(want)[:40]:
            for q in (32768, 65536):
                if i >= q and j >= q:
                    want.setdefault((i - q, j - q), 0.0)
        pos = sorted(p for p in want if p[0] >= 0)
        ctx.eq(nm, [A[i, j] for i, j in pos], [want[p] for p in pos], rel=1e-9)
