"""shared by the harnesses (imported under both interpreters)"""
from fractions import Fraction as Fr


class Cases(list):
    def __call__(self, name, **kw):
        """decorator: one case; keyword 'args' is a list of (suffix, dict)"""
        variants = kw.pop("args", [("", {})])

        def deco(fn):
            for suf, a in variants:
                d = dict(name=name + ("-" + suf if suf else ""), fn=fn, args=a)
                d.update(kw)
                self.append(d)
            return fn
        return deco


def eid(ctx, e):
    """identifier of element e: any number, not its row"""
    return ctx.integer("id%d" % e, -3, 60)


def flags(ctx, nn, nd, tag="f"):
    """symbolic restraint flags, one of 0 / -1 per degree of freedom"""
    return [[ctx.integer("%s%d_%d" % (tag, i, j), -1, 0) for j in range(nd)] for i in range(nn)]


def pattern(nn, nd, restrained):
    return [[-1 if (i, j) in restrained else 0 for j in range(nd)] for i in range(nn)]


def fixed_flags(ctx, fl):
    """concrete value of every flag on this path"""
    return [[ctx.is_int(x) for x in r] for r in fl]


def number(fl):
    """reference numbering -> (neq, table)"""
    n = 0
    t = []
    for r in fl:
        row = []
        for x in r:
            if x == 0:
                row.append(n)
                n += 1
            else:
                row.append(-1)
        t.append(row)
    return n, t


def zeros(n, m):
    return [[0.0] * m for _ in range(n)]


def scatter(neq, entries):
    """entries: list of (equation numbers, matrix as nested lists)"""
    K = zeros(neq, neq)
    for dofs, k in entries:
        for a, i in enumerate(dofs):
            if i < 0:
                continue
            for b, j in enumerate(dofs):
                if j >= 0:
                    K[i][j] = K[i][j] + k[a][b]
    return K


def matvec(A, x):
    return [sum(a * b for a, b in zip(r, x)) for r in A]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def transpose(A):
    return [list(c) for c in zip(*A)]


def quadform(x, A, y):
    return sum(x[i] * sum(A[i][j] * y[j] for j in range(len(y))) for i in range(len(x)))


def symmat(ctx, n, tag, lo=-10, hi=10, sym=False):
    k = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if sym and j < i:
                k[i][j] = k[j][i]
            else:
                k[i][j] = ctx.real("%s_%d_%d" % (tag, i, j), lo, hi)
    return k


def eq_sparse(ctx, lab, A, ref, where, **kw):
    """entries at the listed positions, and one sum of squares for all the others"""
    n = len(ref)
    ctx.true(lab + " size", len(A) == n and all(len(r) == n for r in A))
    rest = 0.0
    for i in range(n):
        for j in range(n):
            if (i, j) not in where:
                x = A[i][j]
                if not (isinstance(x, (int, float)) and x == 0 or getattr(x, "t", True) == {}):
                    rest = rest + x * x
    pos = sorted(where)
    ctx.eq(lab, [A[i][j] for i, j in pos], [ref[i][j] for i, j in pos], **kw)
    ctx.eq(lab + " elsewhere", rest, 0.0, **kw)


def positions(dofs):
    return {(i, j) for d in dofs for i in d for j in d if i >= 0 and j >= 0}
