"""patch test on assembled meshes"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("cubes of 12 tetrahedra (free centre) and 8 hexahedra, and 8-node quadrilaterals as user elements; sizes 1e-2 to 1e8 and places 1e5 away; patches of two to five 3-, 6-node triangles, 4- and 9-node quadrilaterals; inner nodes anywhere within 0.1-0.25 of the middle, "
          "outer size and skew of the patch symbolic where stated; every displacement gradient in [-1,1]^4 and offset; two material rows with the same "
          "elastic constants in [1,10] x [0,0.4] (stated cases), every starting node of an element; grids of up to 162 elements with a moved inner node or straight sides")
OUTSIDE = "other large patches (equilibrium of a node involves its own elements only); outer boundaries with curved sides"
TYP = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4}


def patch(ctx, n, sym):
    """nodes, elements, boundary loop (corner nodes with the mid nodes between)"""
    if n == "tri3":
        c = [1.0 + ctx.real("dx", -.25, .25), 1.0 + ctx.real("dy", -.25, .25)]
        xy = [[0., 0.], [2., 0.], [2., 2.], [0., 2.], c]
        return xy, [[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]], [[0, 1], [1, 2], [2, 3], [3, 0]]
    if n == "tri3-fan":
        c = [1.0 + ctx.real("dx", -.25, .25), .75 + ctx.real("dy", -.25, .25)]
        xy = [c, [0., 0.], [3., 0.25], [.5, 2.]]
        return xy, [[0, 1, 2], [3, 0, 2], [3, 1, 0]], [[1, 2], [2, 3], [3, 1]]
    if n == "quad4":
        c = [1.0 + ctx.real("dx", -.25, .25), 1.0 + ctx.real("dy", -.25, .25)]
        xy = [[0., 0.], [1., 0.], [2., 0.], [0., 1.], c, [2., 1.], [0., 2.], [1., 2.], [2., 2.]]
        return xy, [[0, 1, 4, 3], [1, 2, 5, 4], [3, 4, 7, 6], [4, 5, 8, 7]], \
            [[0, 1], [1, 2], [2, 5], [5, 8], [8, 7], [7, 6], [6, 3], [3, 0]]
    if n == "quad4-ring":
        # five elements, four inner nodes (the classical patch)
        q = [[.5, .5], [1.5, .625], [1.75, 1.5], [.625, 1.375]]
        q[0] = [q[0][0] + ctx.real("dx", -.1, .1), q[0][1] + ctx.real("dy", -.1, .1)]
        xy = [[0., 0.], [2., 0.], [2., 2.], [0., 2.]] + q
        return xy, [[4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]], [[0, 1], [1, 2], [2, 3], [3, 0]]
    if n == "tri6":
        m = [1.0 + ctx.real("dx", -.1, .1), 1.0 + ctx.real("dy", -.1, .1)]
        xy = [[0., 0.], [2., 0.], [2., 2.], [0., 2.], [1., 0.], [2., 1.], m, [0., 1.], [1., 2.]]
        return xy, [[0, 1, 2, 4, 5, 6], [0, 2, 3, 6, 8, 7]], [[0, 4, 1], [1, 5, 2], [2, 8, 3], [3, 7, 0]]
    xy = [[0., 0.], [2., 0.], [4., 0.], [0., 2.], [2., 2.], [4., 2.],
          [1., 0.], [3., 0.], [1., 2.], [3., 2.], [0., 1.], [2., 1.], [4., 1.], [1., 1.], [3., 1.]]
    mv = {"quad9": 11, "quad9-centre": 13}[n]
    xy[mv] = [xy[mv][0] + ctx.real("dx", -.1, .1), xy[mv][1] + ctx.real("dy", -.1, .1)]
    return xy, [[0, 1, 4, 3, 6, 11, 8, 10, 13], [1, 2, 5, 4, 7, 12, 9, 11, 14]], \
        [[0, 6, 1], [1, 7, 2], [2, 12, 5], [5, 9, 4], [4, 8, 3], [3, 10, 0]]


def rot(ctx, n, c, tag):
    k = {"t": 3, "q": 4}[n[0]]
    r = ctx.is_int(ctx.integer("rot" + tag, 0, k - 1))
    a, b, rest = c[:k], c[k:2 * k], c[2 * k:]
    return a[r:] + a[:r] + (b[r:] + b[:r] if b else []) + rest


def traction(xy, loop, s, nn):
    """nodal forces of the constant stress s = (xx, yy, xy) on the boundary"""
    f = [0.0] * (2 * nn)
    for sd in loop:
        a, b = xy[sd[0]], xy[sd[-1]]
        t = (s[0] * (b[1] - a[1]) - s[2] * (b[0] - a[0]), s[2] * (b[1] - a[1]) - s[1] * (b[0] - a[0]))
        for k, w in zip(sd, (.5, .5) if len(sd) == 2 else (1, 4, 1)):
            for i in range(2):
                f[2 * k + i] = f[2 * k + i] + (t[i] * w if len(sd) == 2 else t[i] * w / 6)
    return f


def assembled(ctx, n, xy, els, mats, which):
    nn = len(xy)
    E = ctx.array([[eid(ctx, e), TYP[n], which[e]] + c for e, c in enumerate(els)])
    op, bc, neq = ctx.m.ass.DME(ctx.array([[0, 0]] * nn), E)
    K, M = ctx.m.ass.assembler(E, ctx.farray(mats), ctx.farray([[i] + p for i, p in enumerate(xy)]), neq, op)
    ctx.true("size", ctx.shape(K) == (2 * nn, 2 * nn))
    return ctx.values(K)


def stress(E, nu, e):
    f = E / (1 - nu * nu)
    return [f * (e[0] + nu * e[1]), f * (nu * e[0] + e[1]), E / (2 * (1 + nu)) * e[2]]


def field(xy, G, c):
    return [sum(G[i][j] * p[j] for j in range(2)) + c[i] for p in xy for i in range(2)]


def patch_test(ctx, n, mat, r):
    kind = n.split("-")[0]
    xy, els, loop = patch(ctx, n, None)
    if r:
        els = [rot(ctx, n, c, str(e)) if e == r - 1 else c for e, c in enumerate(els)]
    if mat:
        E, nu = ctx.real("E", 1, 10), ctx.real("nu", 0, .4)
    else:
        E, nu = 3.0, .25
    V = assembled(ctx, kind, xy, els, [[E, nu, 1.0], [E, nu, 2.0]], [e % 2 for e in range(len(els))])
    G, c = affine_field(ctx)
    f = matvec(V, field(xy, G, c))
    ctx.eq("forces", f, traction(xy, loop, stress(E, nu, strain(G)), len(xy)), scale=100)
    return V


NAMES = ["tri3", "tri3-fan", "quad4", "quad4-ring", "tri6", "quad9", "quad9-centre"]


@CASES("patch", weight=8, args=[("%s%s" % (n, "-material" if m else ""), dict(n=n, m=m)) for n in NAMES for m in (0, 1)])
def plain_patch(ctx, n, m):
    V = patch_test(ctx, n, m, 0)
    if not m:
        ctx.eq("symmetric", V, transpose(V), scale=100)


@CASES("rotated", weight=8, args=[("%s-%d" % (n, e), dict(n=n, e=e)) for n in ("tri3", "quad4", "tri6", "quad9") for e in (1, 2)])
def rotated(ctx, n, e):
    patch_test(ctx, n, 0, e)


@CASES("whole", weight=6, args=[(n, dict(n=n)) for n in ("tri3", "quad4", "tri6", "quad9")])
def whole(ctx, n):
    """the patch as a whole of any size, skew and place; two different materials share the rigid motions"""
    kind = n.split("-")[0]
    class Z:
        def real(self, *a):
            return 0.0625
    xy0, els, loop = patch(Z(), n, None)
    a, b, d = ctx.real("Ja", .5, 2), ctx.real("Jb", -.4, .4), ctx.real("Jd", .5, 2)
    x0, y0 = ctx.real("x0", -3, 3), ctx.real("y0", -3, 3)
    if kind in ("quad9", "tri6"):
        # straight sides: the mid nodes in place
        xy0 = [[round(2 * v) / 2 for v in p] for p in xy0]
    xy = [[a * p[0] + b * p[1] + x0, d * p[1] + y0] for p in xy0]
    V = assembled(ctx, kind, xy, els, [[3.0, .25, 1.0], [5.0, .125, 2.0]], [e % 2 for e in range(len(els))])
    w, c = ctx.real("w", -1, 1), [ctx.real("c0", -1, 1), ctx.real("c1", -1, 1)]
    ctx.eq("rigid motion", matvec(V, field(xy, [[0.0, w], [-w, 0.0]], c)), [0.0] * (2 * len(xy)), scale=100)
    V = assembled(ctx, kind, xy, els, [[3.0, .25, 1.0]], [0] * len(els))
    G, c = affine_field(ctx)
    ctx.eq("forces", matvec(V, field(xy, G, c)), traction(xy, loop, stress(3.0, .25, strain(G)), len(xy)), scale=100)


@CASES("restrained", weight=4, max_paths=100, args=[(n, dict(n=n)) for n in ("tri3", "quad4")])
def restrained(ctx, n):
    """a field that vanishes at the supports: the reduced system gives the same forces"""
    kind = n
    xy, els, loop = patch(ctx, n, None)
    nn = len(xy)
    left = [i for i in range(nn) if type(xy[i][0]) is float and xy[i][0] == 0.0]
    cons = [[-1, -1] if i in left else [0, 0] for i in range(nn)]
    E = ctx.array([[eid(ctx, e), TYP[kind], 0] + c for e, c in enumerate(els)])
    op, bc, neq = ctx.m.ass.DME(ctx.array(cons), E)
    K, M = ctx.m.ass.assembler(E, ctx.farray([[3.0, .25, 1.0]]), ctx.farray([[i] + p for i, p in enumerate(xy)]), neq, op)
    g = [ctx.real("g0", -1, 1), ctx.real("g1", -1, 1)]
    u = field(xy, [[g[0], 0.0], [g[1], 0.0]], [0.0, 0.0])
    f = traction(xy, loop, stress(3.0, .25, [g[0], 0.0, g[1]]), nn)
    free = [2 * i + k for i in range(nn) for k in range(2) if cons[i][k] == 0]
    ctx.true("unknowns", neq == len(free))
    ctx.eq("forces", matvec(ctx.values(K), [u[d] for d in free]), [f[d] for d in free], scale=100)


def grid_mesh(n, k):
    """k by k cells over the square of side 2k, slightly skewed, sides of the elements straight"""
    h = 1 if n in ("tri3", "quad4") else 2
    m = h * k
    P = lambda i, j: [2.0 * i / h + .125 * j / h, 2.0 * j / h - .0625 * i / h]
    xy = [P(i, j) for j in range(m + 1) for i in range(m + 1)]
    no = lambda i, j: j * (m + 1) + i
    els = []
    for j in range(0, m, h):
        for i in range(0, m, h):
            if n == "quad4":
                els.append([no(i, j), no(i + 1, j), no(i + 1, j + 1), no(i, j + 1)])
            elif n == "tri3":
                els += [[no(i, j), no(i + 1, j), no(i + 1, j + 1)], [no(i, j), no(i + 1, j + 1), no(i, j + 1)]]
            elif n == "tri6":
                els += [[no(i, j), no(i + 2, j), no(i + 2, j + 2), no(i + 1, j), no(i + 2, j + 1), no(i + 1, j + 1)],
                        [no(i, j), no(i + 2, j + 2), no(i, j + 2), no(i + 1, j + 1), no(i + 1, j + 2), no(i, j + 1)]]
            else:
                els.append([no(i, j), no(i + 2, j), no(i + 2, j + 2), no(i, j + 2), no(i + 1, j), no(i + 2, j + 1), no(i + 1, j + 2), no(i, j + 1),
                            no(i + 1, j + 1)])
    loop = []
    for a in range(0, m, h):
        for s in ([no(a + t, 0) for t in range(h + 1)], [no(m, a + t) for t in range(h + 1)],
                  [no(m - a - t, m) for t in range(h + 1)], [no(0, m - a - t) for t in range(h + 1)]):
            loop.append(s)
    return xy, els, loop


@CASES("grid", weight=7, args=[("%s-%d" % (n, k), dict(n=n, k=k)) for n, k in (("tri3", 4), ("tri3", 9), ("quad4", 4), ("quad4", 9), ("tri6", 3), ("tri6", 5), ("quad9", 2), ("quad9", 4))])
def grid_case(ctx, n, k):
    """many elements, several material rows with the same constants, elements listed out of order"""
    xy, els, loop = grid_mesh(n, k)
    els = els[::2] + els[1::2][::-1]
    if n in ("tri3", "quad4"):
        mid = (len(xy) - 1) // 2 + (0 if k % 2 == 0 else k // 2 + 1)
        inner = [i for i in range(len(xy)) if all(i not in s for s in loop)]
        mid = inner[len(inner) // 2]
        xy[mid] = [xy[mid][0] + ctx.real("dx", -.3, .3), xy[mid][1] + ctx.real("dy", -.3, .3)]
    E = ctx.real("E", 1, 10)
    V = assembled(ctx, n, xy, els, [[E, .25, 1.0], [E, .25, 2.0], [E, .25, 1.0], [E, .25, 3.0]], [(3 * e) % 4 for e in range(len(els))])
    G, c = affine_field(ctx)
    ctx.eq("forces", matvec(V, field(xy, G, c)), traction(xy, loop, stress(E, .25, strain(G)), len(xy)), scale=100)


@CASES("scale", weight=4, args=[("%s-%g-%g" % (n, s, far), dict(n=n, s=s, far=far)) for n in ("tri3", "quad4", "tri6", "quad9") for s, far in ((1e-2, 0.0), (1e4, 0.0), (1e8, 0.0), (1.0, 1e5))])
def scale_case(ctx, n, s, far):
    """patches of any size and place"""
    xy, els, loop = patch(ctx, n, None)
    o = [far, -.375 * far]
    xs = [[s * (p[j] + o[j]) for j in range(2)] for p in xy]
    V = assembled(ctx, n, xs, els, [[3.0, .25, 1.0], [3.0, .25, 2.0]], [e % 2 for e in range(len(els))])
    G, c = affine_field(ctx)
    f = matvec(V, field(xy, G, c))
    ctx.eq("forces", f, traction(xy, loop, stress(3.0, .25, strain(G)), len(xy)), tol=1e-5)


def solid_patch(ctx, n, s):
    """cube of tetrahedra around a moved centre, or 2x2x2 hexahedra with a moved centre: nodes, elements, outer faces"""
    if n == "tet4":
        xy = [[x, y, z] for z in (0., 2.) for y in (0., 2.) for x in (0., 2.)]
        xy.append([1.0 + ctx.real("dx", -.25, .25), .875, 1.0 + ctx.real("dz", -.25, .25)])
        quads = [[0, 2, 3, 1], [4, 5, 7, 6], [0, 1, 5, 4], [2, 6, 7, 3], [0, 4, 6, 2], [1, 3, 7, 5]]
        faces = [f for a, b, c, d in quads for f in ([a, b, c], [a, c, d])]
        els = [[a, c, b, 8] for a, b, c in faces]
    else:
        xy = [[x, y, z] for z in (0., 1., 2.) for y in (0., 1., 2.) for x in (0., 1., 2.)]
        xy[13] = [1.125, .875, 1.0625]
        at = lambda i, j, k: i + 3 * j + 9 * k
        els = [[at(i, j, k), at(i + 1, j, k), at(i + 1, j + 1, k), at(i, j + 1, k), at(i, j, k + 1), at(i + 1, j, k + 1), at(i + 1, j + 1, k + 1), at(i, j + 1, k + 1)]
               for k in (0, 1) for j in (0, 1) for i in (0, 1)]
        faces = []
        for d in range(3):
            for side in (0, 2):
                for a in (0, 1):
                    for b in (0, 1):
                        q = []
                        for u, v in ((0, 0), (1, 0), (1, 1), (0, 1)):
                            p = [0, 0, 0]
                            p[d], p[(d + 1) % 3], p[(d + 2) % 3] = side, a + u, b + v
                            q.append(at(*p))
                        faces.append(q if side else q[::-1])
    return [[s * x for x in p] for p in xy], els, faces


@CASES("solid", weight=6, args=[("%s-%g" % (n, s), dict(n=n, s=s)) for n in ("tet4", "hex8") for s in (1.0, 1e6)])
def solid(ctx, n, s):
    """three-dimensional elements, given as user elements with three degrees of freedom per node"""
    xy, els, faces = solid_patch(ctx, n, s)
    nn, ne = len(xy), len(els)
    E, nu = 3.0, .25
    T = ctx.array([[eid(ctx, e), 11, e % 2] + c for e, c in enumerate(els)])
    nd = 3 * len(els[0])
    op, bc, neq = ctx.m.ass.DME(ctx.array([[0, 0, 0]] * nn), T, ndof_node=3, ndof_el_max=nd, ndof_el=lambda t: nd)
    K, M = ctx.m.ass.assembler(T, ctx.farray([[E, nu, 1.0], [E, nu, 2.0]]), ctx.farray([[i] + p for i, p in enumerate(xy)]), neq, op,
                               uel=getattr(ctx.m.ue, "elast_" + n))
    G, c = affine_field(ctx, 3)
    u = [sum(G[i][j] * p[j] for j in range(3)) / s + c[i] for p in xy for i in range(3)]
    lam, mu = E * nu / (1 + nu) / (1 - 2 * nu), E / 2 / (1 + nu)
    tr = G[0][0] + G[1][1] + G[2][2]
    S = [[mu * (G[i][j] + G[j][i]) + (lam * tr if i == j else 0.0) for j in range(3)] for i in range(3)]
    f = [0.0] * (3 * nn)
    for q in faces:
        v = [[xy[k][j] - xy[q[0]][j] for j in range(3)] for k in (q[1], q[-1])]
        a = [v[0][1] * v[1][2] - v[0][2] * v[1][1], v[0][2] * v[1][0] - v[0][0] * v[1][2], v[0][0] * v[1][1] - v[0][1] * v[1][0]]
        w = 1.0 / 6 if len(q) == 3 else .25
        for k in q:
            for i in range(3):
                f[3 * k + i] = f[3 * k + i] + w * dot(S[i], a) / (s * s)
    g = matvec(ctx.values(K), u)
    ctx.eq("forces", [x / s for x in g], f, tol=1e-6)


@CASES("user-quad8", weight=4)
def user_quad8(ctx):
    """8-node quadrilaterals as user elements"""
    xy, els, loop = patch(ctx, "quad9", None)
    keep = [k for k in range(len(xy)) if k not in (13, 14)]
    els = [c[:8] for c in els]
    nn = len(keep)
    xy = [xy[k] for k in keep]
    T = ctx.array([[eid(ctx, e), 10, e % 2] + c for e, c in enumerate(els)])
    op, bc, neq = ctx.m.ass.DME(ctx.array([[0, 0]] * nn), T, ndof_el_max=16, ndof_el=lambda t: 16)
    K, M = ctx.m.ass.assembler(T, ctx.farray([[3.0, .25, 1.0], [3.0, .25, 2.0]]), ctx.farray([[i] + p for i, p in enumerate(xy)]), neq, op,
                               uel=ctx.m.ue.elast_quad8)
    G, c = affine_field(ctx)
    f = matvec(ctx.values(K), field(xy, G, c))
    ctx.eq("forces", f, traction(xy, loop, stress(3.0, .25, strain(G)), nn), scale=100)
