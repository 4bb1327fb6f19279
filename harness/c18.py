"""structured rectangle meshes"""
from hlib import *
CASES = Cases()
BOUNDS = "every length and height in [1e-9, 1e9]; every nx, ny in 1..8 (thorough: 1..14) and 12x11, 30x2, 3x25, 40x1, 1x40, 99x1, 1x130, 64x2, 20x17, 260x1; selected nodes and elements of 1x16500, 33000x1 and 260x130; integer sizes 1..6"
OUTSIDE = "other numbers of divisions (the loop body is the same for every element); rounding of the node positions"


def size(ctx, kind):
    if kind == "int":
        return ctx.integer("l", 1, 6), ctx.integer("h", 1, 6)
    return ctx.real("l", 1e-9, 1e9), ctx.real("h", 1e-9, 1e9)


def mesh(ctx, nx, ny, l, h):
    x, y, els = ctx.m.pre.rect_grid(l, h, nx, ny)
    n = (nx + 1) * (ny + 1)
    ctx.true("sizes", ctx.shape(x) == (n,) and ctx.shape(y) == (n,) and ctx.shape(els) == (nx * ny, 7))
    ctx.true("integer table", ctx.dtype_kind(els) == "i")
    return ctx.values(x), ctx.values(y), [[ctx.is_int(v) for v in r] for r in ctx.values(els)]


@CASES("grid", weight=4, max_paths=5000, args=[("real", dict(kind="real")), ("int", dict(kind="int")), ("large", dict(kind="large"))])
def grid(ctx, kind):
    top = (8 if kind == "real" else 3) if ctx.tier == "quick" else (14 if kind == "real" else 5)
    if kind == "large":
        nx, ny = ctx.choice("n", [(12, 11), (30, 2), (3, 25), (40, 1), (1, 40), (99, 1), (1, 130), (64, 2), (20, 17), (260, 1)])
    else:
        nx, ny = ctx.is_int(ctx.integer("nx", 1, top)), ctx.is_int(ctx.integer("ny", 1, top))
    l, h = size(ctx, kind)
    x, y, els = mesh(ctx, nx, ny, l, h)
    ctx.eq("x", [v / l for v in x], [i / nx - .5 for j in range(ny + 1) for i in range(nx + 1)])
    ctx.eq("y", [v / h for v in y], [j / ny - .5 for j in range(ny + 1) for i in range(nx + 1)])
    w = nx + 1
    want = [[r * nx + c, 1, 0, r * w + c, r * w + c + 1, (r + 1) * w + c + 1, (r + 1) * w + c] for r in range(ny) for c in range(nx)]
    ctx.eq("elements", els, want, tol=0, strict=True)


@CASES("tiling", weight=4, max_paths=5000)
def tiling(ctx):
    """positive orientation, areas, and shared sides, from the returned tables alone"""
    top = 4 if ctx.tier == "quick" else 6
    nx, ny = ctx.is_int(ctx.integer("nx", 1, top)), ctx.is_int(ctx.integer("ny", 1, top))
    l, h = size(ctx, "real")
    x, y, els = mesh(ctx, nx, ny, l, h)
    x, y, l, h = [v / l for v in x], [v / h for v in y], 1.0, 1.0      # relative to the size
    total = 0.0
    sides = {}
    for e, r in enumerate(els):
        ctx.true("number", r[0] == e and r[1] == 1)
        c = r[3:]
        for k in range(4):
            a, b, d = c[k], c[(k + 1) % 4], c[k - 1]
            ctx.eq("corner", ((x[b] - x[a]) * (y[d] - y[a]) - (x[d] - x[a]) * (y[b] - y[a])) * (nx * ny), l * h, scale=1)
            ctx.true("side once", (a, b) not in sides)
            sides[a, b] = e
        area = sum(x[c[k]] * y[c[(k + 1) % 4]] - x[c[(k + 1) % 4]] * y[c[k]] for k in range(4)) / 2
        total = total + area
    ctx.eq("area", total, l * h, scale=1)
    outer = [s for s in sides if (s[1], s[0]) not in sides]
    ctx.true("conforming", len(sides) - len(outer) == 2 * ((nx - 1) * ny + (ny - 1) * nx) and len(outer) == 2 * (nx + ny))
    for a, b in outer:
        for k in (a, b):
            ctx.eq("boundary", (4 * x[k] * x[k] - l * l) * (4 * y[k] * y[k] - h * h), 0.0, scale=1)
    ctx.true("every node used", sorted(set(v for r in els for v in r[3:])) == list(range((nx + 1) * (ny + 1))))


@CASES("assembled", weight=2, args=[("%d%d" % p, dict(nx=p[0], ny=p[1])) for p in ((1, 1), (2, 1), (1, 3))])
def assembled(ctx, nx, ny):
    """the tables work with the rest of the package: weight of the uniform plate under rigid translation"""
    l, h = ctx.real("l", .5, 4), ctx.real("h", .5, 4)
    x, y, els = ctx.m.pre.rect_grid(l, h, nx, ny)
    n = (nx + 1) * (ny + 1)
    xs, ys = ctx.values(x), ctx.values(y)
    nodes = ctx.farray([[i, xs[i], ys[i]] for i in range(n)])
    op, bc, neq = ctx.m.ass.DME(ctx.array([[0, 0]] * n), els)
    rho = ctx.real("rho", .5, 2)
    K, M = ctx.m.ass.assembler(els, ctx.farray([[2.0, .25, rho]]), nodes, neq, op)
    V = ctx.values(M)
    t = [[1.0, 0.0] * n, [0.0, 1.0] * n]
    ctx.eq("mass", quadform(t[0], V, t[0]), rho * l * h, scale=100)
    ctx.eq("mass y", quadform(t[1], V, t[1]), rho * l * h, scale=100)
    ctx.eq("mixed", quadform(t[0], V, t[1]), 0.0, scale=100)


@CASES("repeat", weight=1)
def repeat(ctx):
    """another call does not change an earlier mesh"""
    l, h = size(ctx, "real")
    x, y, els = ctx.m.pre.rect_grid(l, h, 2, 1)
    x0, y0, e0 = ctx.values(x), ctx.values(y), ctx.values(els)
    ctx.m.pre.rect_grid(2 * l, h, 2, 1)
    ctx.eq("x", x, x0)
    ctx.eq("y", y, y0)
    ctx.eq("els", els, e0)
    els[0, 3] = 7
    ctx.eq("again", ctx.m.pre.rect_grid(l, h, 2, 1)[2], e0)


@CASES("huge", weight=6, args=[("1x16500", dict(nx=1, ny=16500)), ("33000x1", dict(nx=33000, ny=1)), ("260x130", dict(nx=260, ny=130))])
def huge(ctx, nx, ny):
    """node numbers beyond 16 bits; selected nodes and elements are checked"""
    l, h = size(ctx, "real")
    x, y, els = ctx.m.pre.rect_grid(l, h, nx, ny)
    w = nx + 1
    n = w * (ny + 1)
    ctx.true("sizes", ctx.shape(x) == (n,) and ctx.shape(y) == (n,) and ctx.shape(els) == (nx * ny, 7))
    k = sorted(set(list(range(0, n, 997)) + [0, nx, n - 1, n - nx - 1, 32767, 32768, n // 2, n - 2]))
    ctx.eq("x", [x[i] / l for i in k], [(i % w) / nx - .5 for i in k])
    ctx.eq("y", [y[i] / h for i in k], [(i // w) / ny - .5 for i in k])
    e = sorted(set(list(range(0, nx * ny, 499)) + [nx * ny - 1, nx * ny - 2, nx - 1, nx * (ny - 1), nx * ny // 2]))
    want = []
    for i in e:
        r, c = i // nx, i % nx
        want.append([i, 1, 0, r * w + c, r * w + c + 1, (r + 1) * w + c + 1, (r + 1) * w + c])
    ctx.eq("elements", [[els[i, j] for j in range(7)] for i in e], want, tol=0, strict=True)
