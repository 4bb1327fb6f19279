"""forces, moments and energy of a solved structure"""
from hlib import *
from elems import *
import c27, c28
CASES = Cases()
BOUNDS = ("the supported structures of C27 (two to five elements of eleven kinds), every value in [-10,10] of the loads on every free node (the last three for elements of many nodes) and on one support; "
          "a further support, a stiffer material (any factor up to 8 for members) and a doubled element, each for every value of two load components")
OUTSIDE = "other structures; rounding and conditioning of the linear solver (its result is any vector satisfying the equations handed to it); energies recovered from the strains of 9-node quadrilaterals and user elements"
ENDS = ("spring", "truss", "beam", "beamU")


def table(ctx, M):
    return ctx.array([[e, c27.TYP.get(M.kind, 20), m] + c for e, (m, c) in enumerate(M.els)])


def system(ctx, M, cons):
    """stiffness and numbering for the given restraints"""
    kw, uel = {}, None
    if M.kind in c27.USER:
        k = len(M.els[0][1]) * M.nd
        kw = dict(ndof_el_max=k, ndof_el=lambda t: k)
        uel = getattr(ctx.m.ue, "elast_" + M.kind)
    T = table(ctx, M)
    op, bc, neq = ctx.m.ass.DME(ctx.array(cons), T, ndof_node=M.nd, **kw)
    K, _ = ctx.m.ass.assembler(T, ctx.farray(M.mats), ctx.farray([[i] + p for i, p in enumerate(M.xy)]), neq, op, uel=uel)
    return K, bc, neq


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def applied(M):
    f = [[0.0] * M.nd for _ in M.xy]
    for r in M.loads:
        for j in range(M.nd):
            f[r[0]][j] = f[r[0]][j] + r[1 + j]
    return f


def loaded_support(ctx, M):
    i = [k for k, c in enumerate(M.cons) if 0 not in c][-1]
    M.loads.append([i] + [ctx.real("S%s" % "xyz"[j], -10, 10) for j in range(M.nd)])
    # further rows for nodes that have one already
    M.loads.append([i] + [1.5 - j for j in range(M.nd)])
    M.loads.append([M.loads[0][0]] + [ctx.real("R%s" % "xyz"[j], -10, 10) for j in range(M.nd)])


@CASES("reactions", weight=3, args=[(k, dict(kind=k)) for k in c27.ALLK])
def reactions(ctx, kind):
    """the forces on the supports balance the loads, in every direction and about every axis"""
    M = c27.structure(ctx, kind)
    loaded_support(ctx, M)
    u = c27.analyse(ctx, M)["u"]
    K, _, _ = system(ctx, M, [[0] * M.nd for _ in M.xy])
    flat = [x for r in u for x in r]
    F = matvec(ctx.values(ctx.dense(K)), flat)
    F = [F[M.nd * i:M.nd * (i + 1)] for i in range(len(M.xy))]
    f = applied(M)
    R = [[x - y for x, y in zip(a, b)] for a, b in zip(F, f)]
    for i, c in enumerate(M.cons):
        for j in range(M.nd):
            if c[j] == 0:
                ctx.eq("free node", R[i][j], 0.0, tol=1e-6, scale=10)
            else:
                ctx.eq("support", u[i][j], 0.0, tol=0, strict=True)
    V, _ = c28.rigid(M, [.5] * len(M.xy[0]))
    r, g = [x for a in R for x in a], [x for a in f for x in a]
    for k, v in enumerate(V):
        ctx.eq("balance %d" % k, dot(r, v), -dot(g, v), tol=1e-6, scale=100)


def free(M, u):
    return [u[i][j] for i, c in enumerate(M.cons) for j in range(M.nd) if c[j] == 0]


def work(M, u):
    return sum(dot(a, b) for a, b in zip(applied(M), u))


def hooke(p, e):
    E, nu = p[:2]
    s = [E / (1 - nu * nu) * (e[0] + nu * e[1]), E / (1 - nu * nu) * (e[1] + nu * e[0]), E / (2 * (1 + nu)) * e[2]]
    return dot(s, e)


def stored(ctx, M, u):
    """twice the energy from the strains at the integration points of the plane elements, from member forces of trusses and springs"""
    s = 0.0
    w6 = [.1259391805448] * 3 + [.1323941527885] * 3 + [.225]
    g = 3 ** -.5
    for m, c in M.els:
        p = M.mats[m]
        xy = [M.xy[k] for k in c]
        ue = [v for k in c for v in u[k]]
        if M.kind in ("spring", "truss"):
            d = [xy[1][j] - xy[0][j] for j in range(2)]
            L2 = d[0] * d[0] + d[1] * d[1]
            L = L2 ** .5
            e = sum(d[j] * (u[c[1]][j] - u[c[0]][j]) for j in range(2))
            s = s + (p[0] if M.kind == "spring" else p[0] * p[1] / L) * e * e / L2
            continue
        E, _ = getattr(ctx.m.fem, {"tri3": "str_el3", "tri6": "str_el6", "quad4": "str_el4"}[M.kind])(ctx.farray(xy), ctx.farray(ue))
        E = ctx.values(E)
        if M.kind == "quad4":
            for (r, t), e in zip(((-g, -g), (g, -g), (g, g), (-g, g)), E):
                a = [(xy[1][j] - xy[0][j]) * (1 - t) / 4 + (xy[2][j] - xy[3][j]) * (1 + t) / 4 for j in range(2)]
                b = [(xy[3][j] - xy[0][j]) * (1 - r) / 4 + (xy[2][j] - xy[1][j]) * (1 + r) / 4 for j in range(2)]
                s = s + (a[0] * b[1] - a[1] * b[0]) * hooke(p, e)
        else:
            a = c28.area(M.xy, c)
            w = [1 / 3] * 3 if M.kind == "tri3" else w6
            s = s + sum(a * w[k] * hooke(p, e) for k, e in enumerate(E))
    return s


@CASES("work", weight=3, args=[(k, dict(kind=k)) for k in c27.ALLK])
def work_of_loads(ctx, kind):
    """the work of the loads is twice the energy, however this is computed and whichever node elements start with"""
    M = c27.structure(ctx, kind)
    turn = c27.CYC[kind]
    M.els = [(m, [c[i] for i in turn[e % len(turn)]] if e or kind not in ("tri3", "truss") else c) for e, (m, c) in enumerate(M.els)]
    loaded_support(ctx, M)
    u = c27.analyse(ctx, M)["u"]
    W = work(M, u)
    pos, ass = ctx.m.pos, ctx.m.ass
    K, _, _ = system(ctx, M, M.cons)
    ctx.eq("energy", pos.energy(ctx.farray(free(M, u)), K), -.5 * W, tol=1e-6, scale=1000)
    ctx.eq("energy, dense", pos.energy(ctx.farray(free(M, u)), ctx.dense(K)), -.5 * W, tol=1e-6, scale=1000)
    K, _, _ = system(ctx, M, [[0] * M.nd for _ in M.xy])
    ctx.eq("energy of the whole", pos.energy(ctx.farray([x for r in u for x in r]), K), -.5 * W, tol=1e-6, scale=1000)
    T, mats, nodes = table(ctx, M), ctx.farray(M.mats), ctx.farray([[i] + p for i, p in enumerate(M.xy)])
    uel = getattr(ctx.m.ue, "elast_" + kind) if kind in c27.USER else None
    s = 0.0
    for e, (m, c) in enumerate(M.els):
        k, _ = ass.retriever(T, mats, nodes, e, uel=uel)
        s = s + pos.energy(ctx.farray([v for n in c for v in u[n]]), k)
    ctx.eq("energy of the elements", s, -.5 * W, tol=1e-6, scale=1000)
    if kind in ("tri3", "tri6", "quad4", "spring", "truss"):
        ctx.eq("energy of the strains", stored(ctx, M, u), W, tol=1e-6, scale=1000)


def loads2(ctx, M):
    n = [i for i, c in enumerate(M.cons) if 0 in c][-1]
    j = M.cons[n].index(0)
    a = [0.0] * M.nd
    a[j] = ctx.real("P", -10, 10)
    k = [i for i, c in enumerate(M.cons) if 0 in c][0]
    b = [0.0] * M.nd
    b[1] = ctx.real("Q", -10, 10)
    M.loads = [[n] + a, [k] + b]


@CASES("stiffer", weight=3, args=[("%s-%s" % (k, w), dict(kind=k, what=w)) for k in c27.ALLK for w in ("support", "material", "element")
                                  if k not in ("hex8", "quad9", "quad8") or w == "material"])
def stiffer(ctx, kind, what):
    """loads do positive work, and less of it on a stiffer structure"""
    M = c27.structure(ctx, kind, loads=False)
    loads2(ctx, M)
    W = work(M, c27.analyse(ctx, M)["u"])
    ctx.le("positive", 0.0, W, tol=1e-9)
    N = M.copy()
    if what == "support":
        i = [i for i, c in enumerate(M.cons) if 0 in c][-1]
        N.cons[i][0] = -1
        if kind in ENDS:
            N.cons[i][1] = -1
    elif what == "material":
        N.mats[0][0] = (ctx.real("f", 1, 8) if kind in ENDS else 2) * N.mats[0][0]
    else:
        N.els.append(N.els[-1])
    V = work(N, c27.analyse(ctx, N)["u"])
    ctx.le("positive, stiffer", 0.0, V, tol=1e-9)
    ctx.le("less", V, W, tol=1e-9)
