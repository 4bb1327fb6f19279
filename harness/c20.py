"""Bloch conditions"""
from hlib import *
CASES = Cases()
BOUNDS = ("every assignment of up to five degrees of freedom to non-image references, images listed in ascending, descending and rotated order; "
          "transformations with every such node assignment of up to four nodes, one or two degrees of freedom per node, "
          "every wavevector in [-10,10]^d and coordinates in [-5,5]^d for d = 1, 2, 3; several image nodes per reference; numberings of 12 to 300 degrees of freedom with one free image; square cells of 4x4, 5x5, 7x7 and 11x11 nodes and a brick of any size and wavevector; integer wavevectors and coordinates")
OUTSIDE = "images whose reference is itself an image; more than five (thorough: eight) degrees of freedom, nine in the listed cells (rows are written one by one)"


def assignment(ctx, n, tag="r"):
    """for each item: -1 (kept) or its reference, never an image"""
    r = []
    for i in range(n):
        r.append(ctx.is_int(ctx.integer("%s%d" % (tag, i), -1, n - 1)))
    ctx.assume(all(x == -1 or (x != i and r[x] == -1) for i, x in enumerate(r)))
    return r


def numbering(r):
    new, k = [], 0
    for x in r:
        new.append(k if x == -1 else None)
        k += x == -1
    return [new[x] if x != -1 else v for x, v in zip(r, new)]


def ordered(ima, order):
    if order == "descending":
        return ima[::-1]
    if order == "rotated":
        return ima[1:] + ima[:1]
    if order == "swapped":
        return ima[1::2] + ima[::2]
    return ima


@CASES("numbering", weight=3, max_paths=5000, args=[("%d-%s" % (n, o), dict(n=n, order=o)) for n in (2, 3, 4) for o in ("ascending", "descending", "rotated", "swapped")])
def num(ctx, n, order):
    r = assignment(ctx, n)
    ima = ordered([i for i in range(n) if r[i] != -1], order)
    ref = [r[i] for i in ima]
    a, b = list(ima), list(ref)
    new = ctx.m.bloch.reassign_dof_bloch(n, a, b)
    ctx.eq("numbers", [float(x) for x in new], [float(x) for x in numbering(r)], tol=0, strict=True)
    ctx.true("inputs kept", a == ima and b == ref)


@CASES("numbering-many", weight=4, max_paths=20000, args=[("%s" % o, dict(order=o)) for o in ("ascending", "rotated")])
def num5(ctx, order):
    """five (thorough: to eight) degrees of freedom, three images, two references"""
    n = ctx.is_int(ctx.integer("n", 5, 5 if ctx.tier == "quick" else 8))
    r = [-1] * n
    i, j, k = [ctx.is_int(ctx.integer(t, 0, n - 1)) for t in "ijk"]
    a, b = ctx.is_int(ctx.integer("a", 0, n - 1)), ctx.is_int(ctx.integer("b", 0, n - 1))
    ctx.assume(i < j and j != k and i != k and a not in (i, j, k) and b not in (i, j, k))
    r[i], r[j], r[k] = a, b, a
    ima = ordered(sorted((i, j, k)), order)
    new = ctx.m.bloch.reassign_dof_bloch(n, ima, [r[x] for x in ima])
    ctx.eq("numbers", [float(x) for x in new], [float(x) for x in numbering(r)], tol=0, strict=True)


def dofs_of(node, nd, layout, nn):
    return [node * nd + k for k in range(nd)] if layout == "nodes" else [k * nn + node for k in range(nd)]


def transform(ctx, r, dim, nd, order, layout="nodes", kind="array"):
    nn = len(r)
    X = [[ctx.real("x%d%s" % (i, "xyz"[k]), -5, 5) for k in range(dim)] for i in range(nn)]
    kv = [ctx.real("k%s" % "xyz"[j], -10, 10) for j in range(dim)]
    ima = ordered([i for i in range(nn) if r[i] != -1], order)
    ref = [r[i] for i in ima]
    D = [dofs_of(i, nd, layout, nn) for i in range(nn)]
    rd = [-1] * (nn * nd)
    for i in range(nn):
        if r[i] != -1:
            for a, b in zip(D[i], D[r[i]]):
                rd[a] = b
    dima = [d for i in ima for d in D[i]]
    dref = [rd[d] for d in dima]
    new = ctx.m.bloch.reassign_dof_bloch(nn * nd, list(dima), list(dref))
    w = ctx.farray(kv) if kind == "array" else tuple(kv) if kind == "tuple" else list(kv)
    T = ctx.m.bloch.bloch_transform_mat(w, ctx.farray(X), nn * nd, list(ref), list(ima), dref, dima,
                                        {i: D[i] for i in sorted(set(ref))}, {i: D[i] for i in ima}, new)
    kept = [d for d in range(nn * nd) if rd[d] == -1]
    ctx.true("shape", ctx.shape(T) == (nn * nd, len(kept)))
    ctx.true("sparse", ctx.is_sparse(T))
    want = [[0.0] * len(kept) for _ in range(nn * nd)]
    for i in range(nn):
        for q in range(nd):
            d = D[i][q]
            if rd[d] == -1:
                want[d][kept.index(d)] = 1.0
            else:
                j = r[i]
                ph = ctx.cexp(0.0, sum(kv[t] * (X[i][t] - X[j][t]) for t in range(dim)))
                want[d][kept.index(rd[d])] = ph
    if kept:
        ctx.eq("entries", ctx.dense(T), want, tol=1e-9)
        V = ctx.values(T)
        for d in range(nn * nd):
            ctx.eq("row %d modulus" % d, sum(abs2(x) for x in V[d]), 1.0)


def abs2(x):
    return x.real * x.real + x.imag * x.imag


@CASES("transform", weight=5, max_paths=5000, args=[("%d-%dd-%d" % (n, d, k), dict(n=n, d=d, nd=k)) for n, d, k in ((2, 2, 1), (2, 3, 2), (3, 1, 1), (3, 2, 1), (3, 2, 2), (4, 2, 1))])
def transform_all(ctx, n, d, nd):
    transform(ctx, assignment(ctx, n), d, nd, "ascending")


@CASES("order", weight=4, args=[(o, dict(o=o)) for o in ("descending", "rotated", "swapped")])
def order(ctx, o):
    transform(ctx, assignment(ctx, 3), 2, 1, o)


@CASES("square", weight=4, args=[("%s-%s-%d" % (o, l, d), dict(o=o, l=l, d=d)) for o in ("ascending", "swapped") for l in ("nodes", "components") for d in (2, 3)])
def square(ctx, o, l, d):
    """corner nodes of a cell, centre node kept; degrees of freedom node by node or component by component"""
    transform(ctx, [-1, 0, 0, 0, -1], d, 2, o, layout=l)


@CASES("cell", weight=4)
def cell(ctx):
    """sides linked to sides, corners to one corner"""
    transform(ctx, [-1, -1, 0, -1, -1, 3, 0, 1, 0], 2, 1, "swapped")


@CASES("wavevector", weight=2, args=[(k, dict(k=k)) for k in ("tuple", "list", "array")])
def wavevector(ctx, k):
    transform(ctx, [-1, 0, 0], 2, 1, "ascending", kind=k)


@CASES("real-wave", weight=2)
def real_wave(ctx):
    """vanishing wavevector: entries 0 and 1 for any coordinates; integer tables"""
    i, j = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", -2, 2))
    X = ctx.array([[0, 0], [i, j], [2, 1]])
    T = ctx.m.bloch.bloch_transform_mat(ctx.array([0, 0]), X, 3, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0, 1])
    ctx.eq("entries", ctx.dense(T), [[1.0, 0.0], [1.0, 0.0], [0.0, 1.0]])
    k = ctx.real("k", -3, 3)
    T = ctx.m.bloch.bloch_transform_mat(ctx.farray([k, 0.0]), X, 3, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0, 1])
    ctx.eq("entries", ctx.dense(T), [[1.0, 0.0], [ctx.cexp(0.0, k * i), 0.0], [0.0, 1.0]])


@CASES("reduced", weight=3)
def reduced(ctx):
    """congruence with the transformation: a chain of springs gives 2 k (1 - cos(k a)) on one cell"""
    a, q, s = ctx.real("a", .5, 2), ctx.real("q", -3, 3), ctx.real("s", 1, 5)
    X = ctx.farray([[0.0], [a]])
    T = ctx.values(ctx.m.bloch.bloch_transform_mat(ctx.farray([q]), X, 2, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0]))
    t = [T[0][0], T[1][0]]
    c = [x.real for x in t], [x.imag for x in t]
    K = [[s, -s], [-s, s]]
    e = quadform(c[0], K, c[0]) + quadform(c[1], K, c[1])
    ctx.eq("dispersion", e, 2 * s * (1 - ctx.cexp(0.0, q * a).real))


@CASES("numbering-large", weight=4, max_paths=400, args=[("%d-%s" % (n, o), dict(n=n, order=o)) for n in (12, 40, 150, 300) for o in ("ascending", "descending", "shuffled")])
def num_large(ctx, n, order):
    """many degrees of freedom, every seventh an image, one image and its reference free"""
    r = [-1] * n
    for i in range(3, n, 7):
        r[i] = (i * 5) % n
    kept = [i for i in range(n) if r[i] == -1]
    ref = set(x for x in r if x != -1)
    for i in range(n):
        if r[i] != -1 and r[r[i]] != -1:
            r[i] = kept[i % len(kept)]
    i = ctx.choice("i", [k for k in kept if k not in ref][:3] + [n - 1] * (n - 1 in kept and n - 1 not in r))
    j = ctx.choice("j", [kept[1], kept[-2], kept[len(kept) // 2]])
    if j != i and i not in r:
        r[i] = j
    ima = [k for k in range(n) if r[k] != -1]
    ima = ima[::-1] if order == "descending" else sorted(ima, key=lambda k: (k * 37) % 101) if order == "shuffled" else ima
    new = ctx.m.bloch.reassign_dof_bloch(n, list(ima), [r[k] for k in ima])
    ctx.eq("numbers", [float(x) for x in new], [float(x) for x in numbering(r)], tol=0, strict=True)


def grid_cell(n):
    """n x n nodes: right and top sides are images of left and bottom, corners of the first node"""
    r = [-1] * (n * n)
    for k in range(n):
        r[k * n + n - 1] = k * n
        r[(n - 1) * n + k] = k
    for k in (n - 1, n * n - n, n * n - 1):
        r[k] = 0
    return r


@CASES("grid", weight=5, args=[("%d-%d-%s" % (n, k, o), dict(n=n, nd=k, o=o)) for n, k in ((4, 2), (5, 1), (7, 2)) for o in ("ascending", "descending", "rotated")] + [("11-2-rotated", dict(n=11, nd=2, o="rotated"))])
def grid_case(ctx, n, nd, o):
    """square cell with corners and sides; regular nodes, any wavevector and size"""
    a, b = ctx.real("a", .1, 3), ctx.real("b", .1, 3)
    transform_at(ctx, grid_cell(n), [[a * (k % n), b * (k // n)] for k in range(n * n)], nd, o)


def transform_at(ctx, r, X, nd, order):
    nn, dim = len(r), len(X[0])
    kv = [ctx.real("k%s" % "xyz"[j], -10, 10) for j in range(dim)]
    ima = ordered([i for i in range(nn) if r[i] != -1], order)
    ref = [r[i] for i in ima]
    D = [dofs_of(i, nd, "nodes", nn) for i in range(nn)]
    dima = [d for i in ima for d in D[i]]
    dref = [d for i in ima for d in D[r[i]]]
    new = ctx.m.bloch.reassign_dof_bloch(nn * nd, list(dima), list(dref))
    T = ctx.m.bloch.bloch_transform_mat(ctx.farray(kv), ctx.farray(X), nn * nd, ref, ima, dref, dima,
                                        {i: D[i] for i in sorted(set(ref))}, {i: D[i] for i in ima}, new)
    kept = [d for i in range(nn) if r[i] == -1 for d in D[i]]
    col = {d: k for k, d in enumerate(kept)}
    want = [[0.0] * len(kept) for _ in range(nn * nd)]
    for i in range(nn):
        for q in range(nd):
            if r[i] == -1:
                want[D[i][q]][col[D[i][q]]] = 1.0
            else:
                want[D[i][q]][col[D[r[i]][q]]] = ctx.cexp(0.0, sum(k * (x - y) for k, x, y in zip(kv, X[i], X[r[i]])))
    ctx.true("shape", ctx.shape(T) == (nn * nd, len(kept)))
    ctx.eq("entries", ctx.dense(T), want, tol=1e-9)


@CASES("cube", weight=3, args=[(o, dict(o=o)) for o in ("ascending", "descending")])
def cube(ctx, o):
    """corners of a brick and its centre: three-component wavevector"""
    s = [ctx.real("s%d" % i, .1, 3) for i in range(3)]
    X = [[s[0] * (k & 1), s[1] * (k >> 1 & 1), s[2] * (k >> 2)] for k in range(8)] + [[.5 * v for v in s]]
    transform_at(ctx, [-1] + [0] * 7 + [-1], X, 3, o)


@CASES("far", weight=2)
def far(ctx):
    """the phase depends on the difference of positions alone"""
    c = [ctx.real("c%d" % i, -1000, 1000) for i in range(2)]
    k = [ctx.real("k%d" % i, -3, 3) for i in range(2)]
    d = [ctx.real("d%d" % i, -2, 2) for i in range(2)]
    X = [c, [x + y for x, y in zip(c, d)]]
    T = ctx.m.bloch.bloch_transform_mat(ctx.farray(k), ctx.farray(X), 2, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0])
    ctx.eq("entries", ctx.dense(T), [[1.0], [ctx.cexp(0.0, k[0] * d[0] + k[1] * d[1])]], tol=1e-6)


@CASES("short-waves", weight=2, args=[("long", dict(hi=1e-6)), ("short", dict(hi=1e4))])
def waves(ctx, hi):
    """wave numbers of any scale"""
    k = ctx.real("k", -1, 1)
    a = ctx.real("a", .5, 2)
    X = ctx.farray([[0.0, 0.0], [a / hi, 0.0]])
    T = ctx.m.bloch.bloch_transform_mat(ctx.farray([k * hi, 0.0]), X, 2, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0])
    ctx.eq("entries", ctx.dense(T), [[1.0], [ctx.cexp(0.0, k * a)]], tol=1e-8)


@CASES("integers", weight=2, args=[(k, dict(k=k)) for k in ("array", "list", "tuple")])
def integers(ctx, k):
    """integer wavevectors with any coordinates, integer coordinates with any wavevector"""
    i, j = ctx.is_int(ctx.integer("i", -2, 2)), ctx.is_int(ctx.integer("j", 1, 2))
    X = [[ctx.real("x%d%d" % (a, b), -2, 2) for b in range(2)] for a in range(3)]
    w = {"array": ctx.array, "list": list, "tuple": tuple}[k]([i, j])
    T = ctx.m.bloch.bloch_transform_mat(w, ctx.farray(X), 3, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0, 1])
    ctx.eq("integer wavevector", ctx.dense(T), [[1.0, 0.0], [ctx.cexp(0.0, i * (X[1][0] - X[0][0]) + j * (X[1][1] - X[0][1])), 0.0], [0.0, 1.0]], tol=1e-9)
    q = [ctx.real("q%d" % a, -3, 3) for a in range(2)]
    T = ctx.m.bloch.bloch_transform_mat(ctx.farray(q) if k == "array" else type(w)(q), ctx.array([[1, 2], [1 + i, 2 + j], [0, 0]]), 3, [0], [1], [0], [1], {0: [0]}, {1: [1]}, [0, 0, 1])
    ctx.eq("integer coordinates", ctx.dense(T), [[1.0, 0.0], [ctx.cexp(0.0, q[0] * i + q[1] * j), 0.0], [0.0, 1.0]], tol=1e-9)
