"""reference member matrices built from Hermite / linear interpolation by exact
polynomial integration (independent of the code under test)"""
from fractions import Fraction as Fr

# polynomials in xi = x/L as coefficient lists; nodal rotations are scaled by L
HERM = [[1, 0, -3, 2], [0, 1, -2, 1], [0, 0, 3, -2], [0, 0, -1, 1]]
HPOW = [0, 1, 0, 1]                 # power of L of each function
LIN = [[1, -1], [0, 1]]


def pdiff(p):
    return [Fr(k) * c for k, c in enumerate(p)][1:]


def pint(p, q):
    return sum((Fr(a) * Fr(b) / (i + j + 1) for i, a in enumerate(p) for j, b in enumerate(q)), Fr(0))


def member(ctx, tag="", hi=4.0, lo=.5):
    """nodes of a member with any position, orientation and length"""
    x0, y0 = ctx.real(tag + "x0", -3, 3), ctx.real(tag + "y0", -3, 3)
    L = ctx.real(tag + "L", lo, hi)
    c, s = ctx.angle(tag + "t")
    return [[x0, y0], [x0 + L * c, y0 + L * s]], L, c, s


def bending(L, EI):
    """4x4: EI int w''^2, dofs w1 th1 w2 th2"""
    d2 = [pdiff(pdiff(p)) for p in HERM]
    return [[EI * float(pint(d2[i], d2[j])) * lpow(L, HPOW[i] + HPOW[j] - 3) for j in range(4)] for i in range(4)]


def bending_mass(L, m):
    """m: mass per unit length"""
    return [[m * float_exact(pint(HERM[i], HERM[j]), lpow(L, HPOW[i] + HPOW[j] + 1)) for j in range(4)] for i in range(4)]


def float_exact(q, x):
    return x * q.numerator / q.denominator


def lpow(L, n):
    r = 1.0
    for _ in range(abs(n)):
        r = r * L
    return 1 / r if n < 0 else r


def axial(L, EA):
    d = [pdiff(p) for p in LIN]
    return [[EA * float(pint(d[i], d[j])) / L for j in range(2)] for i in range(2)]


def axial_mass(L, m):
    return [[m * float_exact(pint(LIN[i], LIN[j]), L) for j in range(2)] for i in range(2)]


def embed(n, parts):
    """sum of T' k T with parts = (k, T rows)"""
    K = [[0.0] * n for _ in range(n)]
    for k, T in parts:
        for a in range(len(k)):
            for b in range(len(k)):
                for i in range(n):
                    for j in range(n):
                        if type(T[a][i]) is not int or type(T[b][j]) is not int or T[a][i] * T[b][j]:
                            K[i][j] = K[i][j] + T[a][i] * k[a][b] * T[b][j]
    return K


def t_axial(c, s, ndof=2):
    z = [0] * ndof
    r = [c, s] + [0] * (ndof - 2)
    return [r + z, z + r]


def t_bending(c, s):
    w = [-s, c, 0]
    t = [0, 0, 1]
    z = [0, 0, 0]
    return [w + z, t + z, z + w, z + t]
