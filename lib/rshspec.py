"""Real spherical harmonics, sphere moments and angular-momentum matrices from their definitions."""
from fractions import Fraction as Fr
from functools import lru_cache
from math import comb, factorial
import spec


def pmul(p, q):
    r = {}
    for (a, b, c), x in p.items():
        for (d, e, f), y in q.items():
            k = (a + d, b + e, c + f); r[k] = r.get(k, 0) + x * y
    return r


@lru_cache(None)
def ptab(m, lmax):
    """Pi_{l,m}(rho^2, z) homogeneous of degree l-m with r^2 = rho^2 + z^2: {l: {(j, t): c}} meaning rho^(2j) z^t"""
    def z(p, k): return {(j, t + 1): k * c for (j, t), c in p.items()}
    def r2(p, k):
        o = {}
        for (j, t), c in p.items():
            o[j + 1, t] = o.get((j + 1, t), 0) + k * c; o[j, t + 2] = o.get((j, t + 2), 0) + k * c
        return o
    T = {m: {(0, 0): Fr(spec.dfact(2 * m - 1))}}
    if lmax > m: T[m + 1] = z(T[m], Fr(2 * m + 1))
    for l in range(m + 1, lmax):
        p = z(T[l], Fr(2 * l + 1, l - m + 1))
        for k, c in r2(T[l - 1], Fr(-(l + m), l - m + 1)).items(): p[k] = p.get(k, 0) + c
        T[l + 1] = {k: c for k, c in p.items() if c}
    return T


_PC = {}


def poly(l, m):
    """unnormalised homogeneous polynomial {(i,j,k): c} of S_lm: Pi_{l|m|} times Re or Im (x+iy)^|m|"""
    if (l, m) in _PC: return _PC[l, m]
    M = abs(m); P = ptab(M, ((l + 7) // 8) * 8 if l > M else l + 1 if l == M else l)[l] if True else None
    xy = {}
    for k in range(M + 1):      # (x+iy)^M = sum C(M,k) x^(M-k) i^k y^k
        if (m >= 0) == (k % 2 == 0): xy[M - k, k] = comb(M, k) * (-1) ** (k // 2)
    o = {}
    for (j, t), c in P.items():
        for k in range(j + 1):
            f = c * comb(j, k)
            for (a, b), e in xy.items():
                key = (a + 2 * k, b + 2 * (j - k), t); o[key] = o.get(key, 0) + f * e
    _PC[l, m] = {k: c for k, c in o.items() if c}; return _PC[l, m]


def norm2(l, m):
    """square of the normalisation, times pi"""
    return Fr(2 * l + 1, 2) * Fr(factorial(l - abs(m)), factorial(l + abs(m))) / (2 if m == 0 else 1)


def norm(R, l, m): return R.sqrt(R.lift(norm2(l, m)) / R.pi())


def mono(i, j, k):
    """integral of x^i y^j z^k over the unit sphere, divided by 4 pi"""
    if i % 2 or j % 2 or k % 2: return Fr(0)
    return Fr(spec.dfact(i - 1) * spec.dfact(j - 1) * spec.dfact(k - 1), spec.dfact(i + j + k + 1))


def rsh(R, l, m, u):
    """S_lm at the unit vector u"""
    p = [spec.powers(x, l, R.lift(1)) for x in u]; s = R.lift(0)
    for (i, j, k), c in poly(l, m).items(): s = s + R.lift(c) * p[0][i] * p[1][j] * p[2][k]
    return s * norm(R, l, m)


def unit(R, k):
    n = R.sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]); return [x / n for x in k]


def legendre(l):
    a, b = {0: Fr(1)}, {1: Fr(1)}
    if l == 0: return a
    for n in range(1, l):
        c = {k + 1: v * Fr(2 * n + 1, n + 1) for k, v in b.items()}
        for k, v in a.items(): c[k] = c.get(k, 0) - v * Fr(n, n + 1)
        a, b = b, c
    return b


def ang1(R, lam, I, J, K, u):
    """(2 lam+1)/(4 pi) int P_lam(u.Omega) x^I y^J z^K dOmega  (addition theorem)"""
    p = [spec.powers(x, lam, R.lift(1)) for x in u]; s = R.lift(0)
    for n, c in legendre(lam).items():
        for a in range(n + 1):
            for b in range(n + 1 - a):
                d = n - a - b; mo = mono(I + a, J + b, K + d)
                if mo and c: s = s + R.lift(c * mo * factorial(n) / (factorial(a) * factorial(b) * factorial(d))) * p[0][a] * p[1][b] * p[2][d]
    return s * (2 * lam + 1)


def ang2(R, lam, L, m, a, b, c, rv):
    """sum_mu rv[mu] int S_lam,mu S_Lm x^a y^b z^c dOmega"""
    q = {(i + a, j + b, k + c): v for (i, j, k), v in poly(L, m).items()}; s = R.lift(0); nL = norm(R, L, m)
    for mu in range(-lam, lam + 1):
        t = Fr(0)
        for (i, j, k), v in poly(lam, mu).items():
            for (x, y, z), w in q.items():
                mo = mono(i + x, j + y, k + z)
                if mo: t += v * w * mo
        if t: s = s + rv[mu + lam] * norm(R, lam, mu) * R.lift(t)
    return s * nL * 4 * R.pi()


def inner(p, q):
    t = Fr(0)
    for (i, j, k), v in p.items():
        for (x, y, z), w in q.items():
            if not ((i + x) % 2 or (j + y) % 2 or (k + z) % 2): t += v * w * mono(i + x, j + y, k + z)
    return t * 4      # times pi


def lmat(R, L):
    """matrices A of -(r x grad): l = i A with l = -i r x grad"""
    def d(p, ax):
        o = {}
        for k, v in p.items():
            if k[ax]: q = list(k); q[ax] -= 1; o[tuple(q)] = o.get(tuple(q), 0) + v * k[ax]
        return o
    def x(p, ax): return {tuple(e + (1 if n == ax else 0) for n, e in enumerate(k)): v for k, v in p.items()}
    out = []
    for ax in range(3):
        b, c = (ax + 1) % 3, (ax + 2) % 3; rows = []
        for m2 in range(-L, L + 1):
            p = poly(L, m2); o = {}
            for k, v in x(d(p, c), b).items(): o[k] = o.get(k, 0) - v
            for k, v in x(d(p, b), c).items(): o[k] = o.get(k, 0) + v
            rows.append({k: v for k, v in o.items() if v})
        M = []
        for m1 in range(-L, L + 1):
            for m2 in range(-L, L + 1):
                t = inner(poly(L, m1), rows[m2 + L])
                M.append(R.sqrt(R.lift(norm2(L, m1))) * R.sqrt(R.lift(norm2(L, m2))) * R.lift(t) if t else R.lift(0))
        out.append(M)
    return out
