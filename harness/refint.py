"""exact reference integrals over the reference elements (rational arithmetic,
independent of the code under test)"""
from fractions import Fraction as Fr
from elems import ALL

BASIS = {
    "tri3": [(0, 0), (1, 0), (0, 1)],
    "tri6": [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)],
    "quad4": [(0, 0), (1, 0), (0, 1), (1, 1)],
    "quad8": [(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (2, 1), (1, 2)],
    "quad9": [(i, j) for i in range(3) for j in range(3)],
    "tet4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "hex8": [(i, j, k) for i in range(2) for j in range(2) for k in range(2)],
}
_cache = {}


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


def intmono(shape, e):
    if shape[:3] in ("tri", "tet"):
        num = 1
        for k in e:
            num *= fact(k)
        return Fr(num, fact(sum(e) + len(e)))
    r = Fr(1)
    for k in e:
        r *= Fr(0) if k % 2 else Fr(2, k + 1)
    return r


def padd(p, q, c=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, Fr(0)) + c * v
    return r


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = tuple(i + j for i, j in zip(a, b))
            r[k] = r.get(k, Fr(0)) + x * y
    return r


def pdiff(p, d):
    r = {}
    for k, v in p.items():
        if k[d]:
            k2 = list(k)
            k2[d] -= 1
            r[tuple(k2)] = r.get(tuple(k2), Fr(0)) + v * k[d]
    return r


def pint(shape, p):
    return sum((v * intmono(shape, k) for k, v in p.items()), Fr(0))


def CONST(q):
    """exact constant; replaced by the symbolic context"""
    return float(q)


def peval(p, pt):
    if all(type(x) in (int, float) for x in pt):
        t = Fr(0)
        for k, v in p.items():
            for x, e in zip(pt, k):
                v = v * Fr(x) ** e
            t += v
        return CONST(t)
    t = 0
    for k, v in p.items():
        m = float(v)
        for x, e in zip(pt, k):
            for _ in range(e):
                m = m * x
        t = t + m
    return t


def shapes(shape):
    """shape functions as exact polynomials {exponents: coefficient}"""
    if ("N", shape) in _cache:
        return _cache["N", shape]
    pts = [[Fr(x).limit_denominator(10) for x in p] for p in ALL[shape]]
    bas = BASIS[shape]
    n = len(pts)
    A = []
    for p in pts:
        row = []
        for e in bas:
            v = Fr(1)
            for x, k in zip(p, e):
                v *= x ** k
            row.append(v)
        A.append(row)
    M = [A[i] + [Fr(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        pv = next(r for r in range(c, n) if M[r][c])
        M[c], M[pv] = M[pv], M[c]
        d = M[c][c]
        M[c] = [x / d for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    inv = [r[n:] for r in M]          # coefficients[basis][node]
    N = [{bas[k]: inv[k][a] for k in range(n) if inv[k][a]} for a in range(n)]
    _cache["N", shape] = N
    return N


def gradint(shape):
    """G[p][q][a][b] = integral of d_p N_a d_q N_b over the reference element"""
    if ("G", shape) in _cache:
        return _cache["G", shape]
    N = shapes(shape)
    dim = len(ALL[shape][0])
    dN = [[pdiff(f, d) for f in N] for d in range(dim)]
    G = [[[[pint(shape, pmul(dN[p][a], dN[q][b])) for b in range(len(N))] for a in range(len(N))]
          for q in range(dim)] for p in range(dim)]
    _cache["G", shape] = G
    return G


def massint(shape):
    if ("M", shape) in _cache:
        return _cache["M", shape]
    N = shapes(shape)
    M = [[pint(shape, pmul(a, b)) for b in N] for a in N]
    _cache["M", shape] = M
    return M


def cofactor(J):
    """transposed inverse times determinant: A with A[i][k] = det * d xi_k / d x_i"""
    if len(J) == 2:
        return [[J[1][1], -J[1][0]], [-J[0][1], J[0][0]]]
    c = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = (i + 1) % 3, (i + 2) % 3
            p, q = (j + 1) % 3, (j + 2) % 3
            c[i][j] = J[a][p] * J[b][q] - J[a][q] * J[b][p]
    return c


def stiffness_times_det(shape, J, lam, mu):
    """det(J) * exact stiffness of the affine element x = J xi, isotropic law
    sigma = lam tr(eps) I + 2 mu eps (lam: the effective one for plane stress)"""
    G = gradint(shape)
    dim = len(J)
    A = cofactor(J)
    nn = len(ALL[shape])
    # gx[i][j][a][b] = det^2/det * int dN_a/dx_i dN_b/dx_j  (times det once)
    K = [[0.0] * (dim * nn) for _ in range(dim * nn)]
    coef = [[[(p, q, A[i][p] * A[j][q]) for p in range(dim) for q in range(dim)] for j in range(dim)] for i in range(dim)]
    for a in range(nn):
        for b in range(nn):
            g = [[sum(w * float(G[p][q][a][b]) for p, q, w in coef[i][j] if G[p][q][a][b]) for j in range(dim)]
                 for i in range(dim)]
            tr = sum(g[k][k] for k in range(dim))
            for i in range(dim):
                for j in range(dim):
                    v = lam * g[i][j] + mu * g[j][i]
                    if i == j:
                        v = v + mu * tr
                    K[dim * a + i][dim * b + j] = v
    return K


def mass_matrix(shape, det, rho):
    M0 = massint(shape)
    dim = len(ALL[shape][0])
    nn = len(M0)
    M = [[0.0] * (dim * nn) for _ in range(dim * nn)]
    for a in range(nn):
        for b in range(nn):
            for i in range(dim):
                M[dim * a + i][dim * b + i] = rho * det * float(M0[a][b])
    return M
