"""triangulation used for plots"""
from hlib import *
from elems import *
CASES = Cases()
BOUNDS = ("every node of 3- and 6-node triangles, 4- and 9-node quadrilaterals with corners moved up to 0.3 (of side 2) or 0.2 (of side 1) in both directions "
          "and mid nodes in the straight position, any size and place, both orientations, every starting corner; meshes of two and three elements, mixtures "
          "of 4-, 6- and 9-node elements in one table; nodes not referred to by the elements; 10 to 300 elements of one kind of several sizes, fans of 9 and 150 elements, sizes 1e-9 to 1e9, node tables of 3 to 7 columns, one element in a node table of 70001 rows")
OUTSIDE = "curved sides; mixed tables with 3-node triangles (their row is used whole); structural elements"
TYP = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4}
NC = {"quad4": 4, "tri6": 3, "tri3": 3, "quad9": 4}
NODES = {"quad4": 4, "tri6": 6, "tri3": 3, "quad9": 9}


def straight(n, c):
    """all nodes from the corners"""
    k = len(c)
    r = [list(p) for p in c]
    if n in ("tri6", "quad9"):
        for i in range(k):
            a, b = c[i], c[(i + 1) % k]
            r.append([(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
    if n == "quad9":
        r.append([sum(p[0] for p in c) / 4, sum(p[1] for p in c) / 4])
    return r


def corners(ctx, n, tag, dx=0.0, dy=0.0, s=1.0, moved=True):
    base = [(0, 0), (1, 0), (0, 1)] if n[:3] == "tri" else [(-1, -1), (1, -1), (1, 1), (-1, 1)]
    e = .2 if n[:3] == "tri" else .3
    r = []
    for i, p in enumerate(base):
        q = [ctx.real("%s%d%s" % (tag, i, k), -e, e) for k in "xy"] if moved else [0.0, 0.0]
        r.append([s * (p[0] + q[0]) + dx, s * (p[1] + q[1]) + dy])
    return r


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])


def outline(n, c):
    """directed boundary sides of an element (node numbers)"""
    k = NC[n]
    if n in ("tri3", "quad4"):
        return [(c[i], c[(i + 1) % k]) for i in range(k)]
    r = []
    for i in range(k):
        r += [(c[i], c[k + i]), (c[k + i], c[(i + 1) % k])]
    return r


def tiles(ctx, lab, tris, n, c, xy, sign=1, size2=1.0):
    """the triangles tile the element with node list c"""
    area = sum(xy[c[i]][0] * xy[c[(i + 1) % NC[n]]][1] - xy[c[(i + 1) % NC[n]]][0] * xy[c[i]][1] for i in range(NC[n]))
    tot = 0.0
    side = []
    for t in tris:
        ctx.true(lab + "own nodes", all(v in c for v in t) and len(set(t)) == 3)
        if not all(v in c for v in t):
            return
        d = cross(*[xy[v] for v in t])
        ctx.le(lab + "orientation", 1e-6 * size2, sign * d)
        tot = tot + d
        side += [(t[i], t[(i + 1) % 3]) for i in range(3)]
    ctx.eq(lab + "area", tot, area, scale=100)
    ctx.true(lab + "no repeated side", len(set(side)) == len(side))
    outer = sorted(s for s in side if (s[1], s[0]) not in side)
    ctx.true(lab + "outline", outer == sorted(outline(n, c)))
    ctx.true(lab + "every node", sorted(set(v for s in side for v in s)) == sorted(c))


def run(ctx, els, xy, size=None, cols=3):
    """els: list of (kind, nodes); -> triangles of each element"""
    w = size or max(len(c) for _, c in els)
    E = ctx.array([[eid(ctx, e), TYP[n], 0] + list(c) + [0] * (w - len(c)) for e, (n, c) in enumerate(els)])
    N = ctx.farray([[float(i), p[0], p[1], 0.0, -1.0, 8.0, 9.0][:cols] for i, p in enumerate(xy)])
    E0, N0 = ctx.values(E), ctx.values(N)
    tri = ctx.m.pos.mesh2tri(N, E)
    ctx.eq("x", tri.x, [p[0] for p in xy], tol=0, strict=True)
    ctx.eq("y", tri.y, [p[1] for p in xy], tol=0, strict=True)
    ctx.eq("elements kept", E, E0, tol=0, strict=True)
    ctx.eq("nodes kept", N, N0, tol=0, strict=True)
    T = [[ctx.is_int(v) for v in r] for r in ctx.values(tri.triangles)]
    return T


def split(ctx, T, els):
    """triangles belong to one element each"""
    out = [[] for _ in els]
    for t in T:
        own = [k for k, (_, c) in enumerate(els) if all(v in c for v in t)]
        ctx.true("within one element", len(own) == 1)
        if own:
            out[own[0]].append(t)
    return out


@CASES("single", weight=3, args=[(n, dict(n=n)) for n in TYP])
def single(ctx, n):
    s = ctx.real("s", .1, 10)
    xy = straight(n, corners(ctx, n, "c", s=s, dx=ctx.real("dx", -5, 5), dy=ctx.real("dy", -5, 5)))
    c = list(range(len(xy)))
    T = run(ctx, [(n, c)], xy)
    tiles(ctx, "", T, n, c, xy, size2=.01)


@CASES("clockwise", weight=2, args=[(n, dict(n=n)) for n in TYP])
def clockwise(ctx, n):
    """the orientation of the element is kept"""
    xy = [[p[0], -p[1]] for p in straight(n, corners(ctx, n, "c"))]
    c = list(range(len(xy)))
    T = run(ctx, [(n, c)], xy, cols=5)
    tiles(ctx, "", T, n, c, xy, sign=-1)


@CASES("renumbered", weight=3, args=[(n, dict(n=n)) for n in TYP])
def renumbered(ctx, n):
    """any starting corner, nodes numbered backwards, unused nodes in the table"""
    loc = straight(n, corners(ctx, n, "c"))
    k, m = NC[n], len(loc)
    rot = ctx.is_int(ctx.integer("rot", 0, k - 1))
    order = [(i + rot) % k for i in range(k)]
    order = order + [k + i for i in order] if m > k else order
    if m == 9:
        order.append(8)
    xy = [[9.0, 9.0]] + [None] * m + [[-9.0, 3.0]]
    num = {}
    for i in range(m):
        num[i] = m - i
        xy[m - i] = loc[i]
    c = [num[i] for i in order]
    T = run(ctx, [(n, c)], xy)
    tiles(ctx, "", T, n, c, xy)


@CASES("mesh", weight=3, args=[(n, dict(n=n)) for n in TYP])
def mesh(ctx, n):
    """three separate elements of one kind"""
    xy, els = [], []
    for e in range(3):
        p = straight(n, corners(ctx, n, "c%d" % e, dx=4.0 * e, dy=-3.0 * e, moved=e == 1))
        els.append((n, list(range(len(xy), len(xy) + len(p)))))
        xy += p
    T = run(ctx, els[::-1], xy)
    for k, (t, (kind, c)) in enumerate(zip(split(ctx, T, els), els)):
        tiles(ctx, "%d " % k, t, kind, c, xy)


@CASES("neighbours", weight=2, args=[(n, dict(n=n)) for n in ("tri3", "quad4")])
def neighbours(ctx, n):
    """elements sharing a side: the union is tiled too"""
    xy = [[0.0, 0.0], [2.0 + ctx.real("a", -.3, .3), ctx.real("b", -.3, .3)], [2.0 + ctx.real("c", -.3, .3), 2.0], [0.0, 2.0], [4.0, 0.0], [4.0, 2.0]]
    els = [(n, [0, 1, 2, 3]), (n, [2, 1, 4, 5])] if n == "quad4" else [(n, [0, 1, 3]), (n, [2, 3, 1]), (n, [1, 4, 2])]
    T = run(ctx, els, xy)
    for k, (t, (kind, c)) in enumerate(zip(split(ctx, T, els), els)):
        tiles(ctx, "%d " % k, t, kind, c, xy)


MIX = [(a, b) for a in ("quad4", "tri6", "quad9") for b in ("quad4", "tri6", "quad9") if a != b]


@CASES("mixed", weight=3, args=[("%s-%s" % p, dict(a=p[0], b=p[1])) for p in MIX])
def mixed(ctx, a, b):
    xy, els = [[-7.0, -7.0]], []
    for e, n in enumerate((a, b)):
        p = straight(n, corners(ctx, n, "c%d" % e, dx=4.0 * e, dy=1.0))
        els.append((n, list(range(len(xy), len(xy) + len(p)))))
        xy += p
    T = run(ctx, els, xy, size=9 if ctx.tier != "quick" else None)
    for k, (t, (kind, c)) in enumerate(zip(split(ctx, T, els), els)):
        tiles(ctx, "%d " % k, t, kind, c, xy)


@CASES("any-order", weight=3, max_paths=2000)
def any_order(ctx):
    """three elements of symbolic kinds in a padded table"""
    xy, els = [], []
    for e in range(3):
        n = ctx.choice("k%d" % e, ["quad4", "tri6", "quad9"])
        p = straight(n, corners(ctx, n, "c%d" % e, dx=4.0 * e, moved=False))
        els.append((n, list(range(len(xy), len(xy) + len(p)))))
        xy += p
    T = run(ctx, els, xy, size=9)
    for k, (t, (kind, c)) in enumerate(zip(split(ctx, T, els), els)):
        tiles(ctx, "%d " % k, t, kind, c, xy)


@CASES("larger", weight=4, args=[("%s-%d" % (n, k), dict(n=n, k=k)) for n, k in
                                 (("tri3", 12), ("tri3", 60), ("tri3", 300), ("tri6", 10), ("tri6", 45), ("quad4", 12), ("quad4", 70), ("quad9", 10), ("quad9", 40))])
def larger(ctx, n, k):
    """many elements of one kind, several sizes and places, one of them moved; tables with more columns"""
    xy, els = [], []
    for e in range(k):
        s = 10.0 ** (e % 5 - 2)
        p = straight(n, corners(ctx, n, "c%d" % e, s=s, dx=4.0 * e * e, dy=-3.0 * e, moved=e in (0, k // 2, k - 1)))
        els.append((n, list(range(len(xy), len(xy) + len(p)))))
        xy += p
    els = els[k // 3:] + els[:k // 3]
    T = run(ctx, els, xy, cols=4 + k % 4)
    for e, (t, (kind, c)) in enumerate(zip(split_by(ctx, T, els), els)):
        q = {v: (xy[v][0] - xy[c[0]][0], xy[v][1] - xy[c[0]][1]) for v in c}
        tiles(ctx, "%d " % e, t, kind, c, q, size2=1e-4)


def split_by(ctx, T, els):
    """triangles of each element, elements do not share nodes"""
    own = {v: e for e, (_, c) in enumerate(els) for v in c}
    out = [[] for _ in els]
    for t in T:
        ctx.true("known nodes", all(v in own for v in t))
        if t[0] in own:
            out[own[t[0]]].append(t)
    return out


@CASES("size", weight=3, args=[("%s-%s" % (n, k), dict(n=n, k=k)) for n in TYP for k in ("small", "large")])
def size_case(ctx, n, k):
    """the size of the element does not matter"""
    s = ctx.real("s", 1e-9, 1e-5) if k == "small" else ctx.real("s", 1e5, 1e9)
    loc = straight(n, corners(ctx, n, "c"))
    t = [ctx.real("t%d" % i, -3, 3) for i in range(2)]
    xy = [[s * (p[0] + t[0]), s * (p[1] + t[1])] for p in loc]
    c = list(range(len(xy)))
    T = run(ctx, [(n, c)], xy, cols=5)
    tiles(ctx, "", T, n, c, loc, size2=.01)


@CASES("fan", weight=3, args=[("%s-%d" % (n, k), dict(n=n, k=k)) for n, k in (("tri3", 9), ("tri3", 150), ("tri6", 9), ("quad4", 9))])
def fan_case(ctx, n, k):
    """many elements around a node"""
    from c16 import fan
    xy, els = fan(n, k)
    s = ctx.real("s", .1, 10)
    xy = [[s * p[0], s * p[1]] for p in xy]
    els = [(n, c) for c in els]
    T = run(ctx, els, xy)
    own = [set(c) for _, c in els]
    out = [[] for _ in els]
    per = {"tri3": 1, "tri6": 4, "quad4": 2}[n]
    ctx.true("count", len(T) == per * k)
    for t in T:
        o = [e for e in range(k) if set(t) <= own[e]]
        ctx.true("within one element", len(o) == 1)
        if o:
            out[o[0]].append(t)
    for e, (t, (kind, c)) in enumerate(zip(out, els)):
        tiles(ctx, "%d " % e, t, kind, c, xy, size2=1e-5)


@CASES("huge-table", weight=3, args=[(n, dict(n=n)) for n in TYP])
def huge_table(ctx, n):
    """node numbers beyond 16 bits"""
    np = ctx.np
    nn = 70001
    p = straight(n, corners(ctx, n, "c"))
    num = [(nn - 1 - 8100 * i) if i != 4 else 33 for i in range(len(p))]
    nodes = np.zeros((nn, 5))
    for k, q in zip(num, p):
        nodes[k, 1] = q[0]
        nodes[k, 2] = q[1]
    tri = ctx.m.pos.mesh2tri(nodes, ctx.array([[0, TYP[n], 0] + num]))
    T = [[ctx.is_int(v) for v in t] for t in ctx.values(tri.triangles)]
    tiles(ctx, "", T, n, num, dict(zip(num, p)))
    ctx.true("places", len(tri.x) == nn and len(tri.y) == nn)
    ctx.eq("node places", [[tri.x[k], tri.y[k]] for k in num], p, tol=0, strict=True)
