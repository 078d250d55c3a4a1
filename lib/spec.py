"""Specification functions, generic over the ring (fingerprints or multiprecision reals).
They are written from the definitions of the integrals (binomial expansion and Gaussian
moments), not from the recurrences used by the code."""
from fractions import Fraction as Fr
from math import comb, factorial


def dfact(n):
    r = 1
    while n > 1: r *= n; n -= 2
    return r


def carts(L):
    return [(n, l, L - n - l) for n in range(L, -1, -1) for l in range(L - n, -1, -1)]


def norm(R, a, L):
    """(2a/pi)^(3/4) (4a)^(L/2)"""
    s = R.sqrt(R.sqrt(2 * a / R.pi())); t = R.sqrt(4 * a)
    return s * s * s * t ** L


def powers(x, n, one):
    r = [one]
    for _ in range(n): r.append(r[-1] * x)
    return r


def overlap1d(R, a, b, A, B, imax, jmax, exponential=True):
    """table of int (x-A)^i (x-B)^j exp(-a(x-A)^2-b(x-B)^2) dx"""
    p = a + b; X = A - B
    PA = -(b / p) * X; PB = (a / p) * X          # P-A, P-B
    one = R.lift(1); zero = R.lift(0)
    pa = powers(PA, imax, one); pb = powers(PB, jmax, one)
    h = 1 / (2 * p); hp = powers(h, (imax + jmax) // 2 + 1, one)
    m = [hp[k // 2] * dfact(k - 1) if k % 2 == 0 else None for k in range(imax + jmax + 1)]
    pre = R.sqrt(R.pi() / p)
    if exponential: pre = pre * R.exp(-(a * b / p) * X * X)
    T = []
    # x-A = y + PA ; x-B = y + PB ; moments of y^k
    ca = [[comb(i, u) * pa[i - u] for u in range(i + 1)] for i in range(imax + 1)]
    cb = [[comb(j, u) * pb[j - u] for u in range(j + 1)] for j in range(jmax + 1)]
    for i in range(imax + 1):
        row = []
        for j in range(jmax + 1):
            s = zero
            for u in range(i + 1):
                for w in range(u & 1, j + 1, 2):
                    s = s + ca[i][u] * cb[j][w] * m[u + w]
            row.append(pre * s)
        T.append(row)
    return T


def overlap_prim(R, LA, LB, a, b, A, B):
    T = [overlap1d(R, a, b, A[c], B[c], LA, LB) for c in range(3)]
    N = norm(R, a, LA) * norm(R, b, LB)
    return [[N * T[0][ca[0]][cb[0]] * T[1][ca[1]][cb[1]] * T[2][ca[2]][cb[2]] for cb in carts(LB) for ca in (ca_,)] for ca_ in carts(LA) for ca in (ca_,)]


def _prod(T, ca, cb): return T[0][ca[0]][cb[0]] * T[1][ca[1]][cb[1]] * T[2][ca[2]][cb[2]]


def kinetic_prim(R, LA, LB, a, b, A, B):
    T = [overlap1d(R, a, b, A[c], B[c], LA, LB + 2) for c in range(3)]
    N = norm(R, a, LA) * norm(R, b, LB) * Fr(-1, 2) if R.numeric is False else norm(R, a, LA) * norm(R, b, LB) * R.lift(Fr(-1, 2))
    D = [[[None] * (LB + 1) for _ in range(LA + 1)] for c in range(3)]
    for c in range(3):
        for i in range(LA + 1):
            for j in range(LB + 1):
                t = 4 * b * b * T[c][i][j + 2] - 2 * b * (2 * j + 1) * T[c][i][j]
                if j >= 2: t = t + j * (j - 1) * T[c][i][j - 2]
                D[c][i][j] = t
    out = []
    for ca in carts(LA):
        row = []
        for cb in carts(LB):
            s = [T[c][ca[c]][cb[c]] for c in range(3)]; d = [D[c][ca[c]][cb[c]] for c in range(3)]
            row.append(N * (d[0] * s[1] * s[2] + s[0] * d[1] * s[2] + s[0] * s[1] * d[2]))
        out.append(row)
    return out


def momentum_prim(R, LA, LB, a, b, A, B):
    T = [overlap1d(R, a, b, A[c], B[c], LA, LB + 1) for c in range(3)]
    N = -norm(R, a, LA) * norm(R, b, LB)     # imaginary part of <A| -i d/dx |B>
    D = [[[-2 * b * T[c][i][j + 1] + (j * T[c][i][j - 1] if j else 0) for j in range(LB + 1)] for i in range(LA + 1)] for c in range(3)]
    out = [[], [], []]
    for x in range(3):
        for ca in carts(LA):
            row = []
            for cb in carts(LB):
                t = N
                for c in range(3): t = t * (D if c == x else T)[c][ca[c]][cb[c]]
                row.append(t)
            out[x].append(row)
    return out


# ---------------------------------------------------------------- one-centre operators on Gaussian products
def hermite_E(R, q, QA, QB, imax, jmax):
    """E[i][j][t]: (x-A)^i (x-B)^j exp(-q(x-Q)^2) = sum_t E_t (d/dQ)^t exp(-q(x-Q)^2); QA=Q-A, QB=Q-B"""
    one = R.lift(1); zero = R.lift(0)
    pa = powers(QA, imax, one); pb = powers(QB, jmax, one); iq = powers(1 / (2 * q), imax + jmax, one)
    # y^a = sum_k a!/(k!(a-2k)!) 2^-a q^(k-a) Lambda_(a-2k) = sum_k a!/(k!(a-2k)!) 2^-k (1/2q)^(a-k) Lambda
    M = [[(a - 2 * k, iq[a - k] * Fr(factorial(a), factorial(k) * factorial(a - 2 * k) * 2 ** k) if not R.numeric else iq[a - k] * R.lift(Fr(factorial(a), factorial(k) * factorial(a - 2 * k) * 2 ** k)))
          for k in range(a // 2 + 1)] for a in range(imax + jmax + 1)]
    E = []
    for i in range(imax + 1):
        row = []
        for j in range(jmax + 1):
            mono = [zero] * (i + j + 1)
            for u in range(i + 1):
                cu = comb(i, u) * pa[i - u]
                for w in range(j + 1): mono[u + w] = mono[u + w] + cu * (comb(j, w) * pb[j - w])
            e = [zero] * (i + j + 1)
            for a in range(i + j + 1):
                for t, c in M[a]: e[t] = e[t] + mono[a] * c
            row.append(e)
        E.append(row)
    return E


def radial_derivs(R, X, h, N):
    """T[t][u][v] = d^t/dX d^u/dY d^v/dZ h(X^2+Y^2+Z^2), h[m] the m-th derivative of h"""
    one = R.lift(1); zero = R.lift(0); d = []
    for c in range(3):
        p2 = powers(2 * X[c], N, one)
        # coefficient of h^(t-k): t!/(k!(t-2k)!) (2X)^(t-2k)
        d.append([[(t - k, p2[t - 2 * k] * (factorial(t) // (factorial(k) * factorial(t - 2 * k)))) for k in range(t // 2 + 1)] for t in range(N + 1)])
    T = []
    for t in range(N + 1):
        T1 = []
        for u in range(N + 1 - t):
            xy = {}
            for m1, c1 in d[0][t]:
                for m2, c2 in d[1][u]: xy[m1 + m2] = xy.get(m1 + m2, zero) + c1 * c2
            T2 = []
            for v in range(N + 1 - t - u):
                s = zero
                for m3, c3 in d[2][v]:
                    q = zero
                    for m, c in xy.items(): q = q + c * h[m + m3]
                    s = s + q * c3
                T2.append(s)
            T1.append(T2)
        T.append(T1)
    return T


def contract_E(R, E, T, LA, LB):
    """sum_tuv Ex Ey Ez T_tuv for all components of the shells"""
    zero = R.lift(0); W = {}; out = []
    V = {}
    for ca in carts(LA):
        row = []
        for cb in carts(LB):
            ky = (ca[1], cb[1], ca[2], cb[2]); v = V.get(ky)
            nx = ca[0] + cb[0]
            if v is None:
                kz = (ca[2], cb[2]); w = W.get(kz)
                if w is None:
                    ez = E[2][ca[2]][cb[2]]; w = {}
                    nxy = LA + LB - ca[2] - cb[2]
                    for t in range(nxy + 1):
                        for u in range(nxy + 1 - t):
                            s = zero; Ttu = T[t][u]
                            for q in range(len(ez)): s = s + ez[q] * Ttu[q]
                            w[t, u] = s
                    W[kz] = w
                ey = E[1][ca[1]][cb[1]]; v = []
                for t in range(nx + 1):
                    s = zero
                    for u in range(len(ey)): s = s + ey[u] * w[t, u]
                    v.append(s)
                V[ky] = v
            ex = E[0][ca[0]][cb[0]]; s = zero
            for t in range(nx + 1): s = s + ex[t] * v[t]
            row.append(s)
        out.append(row)
    return out


def type1_prim(R, LA, LB, a, b, A, B, C, z, n, F):
    """<x_A^.. e^(-a r_A^2) | r_C^(n-2) e^(-z r_C^2) | ...> with the shell norms.
    F(kind, x, nmax): values of the Boys functions ('boys') or of g_n(x)=int_0^1 t^2n e^(-x(1-t^2)) dt ('gfun')"""
    q = a + b + z; N = LA + LB
    Q = [(a * A[c] + b * B[c] + z * C[c]) / q for c in range(3)]
    X = [Q[c] - C[c] for c in range(3)]
    def d2(U, V): return sum(((U[c] - V[c]) ** 2 for c in range(1, 3)), (U[0] - V[0]) ** 2)
    K = R.exp(-(a * b * d2(A, B) + a * z * d2(A, C) + b * z * d2(B, C)) / q)
    E = [hermite_E(R, q, Q[c] - A[c], Q[c] - B[c], LA, LB) for c in range(3)]
    s = X[0] * X[0] + X[1] * X[1] + X[2] * X[2]; x = q * s; pi = R.pi(); zero = R.lift(0)
    if n == 2:
        h = [R.sqrt(pi / q) ** 3] + [zero] * N
    elif n == 1:
        f = F('boys', x, N); h = [2 * pi / q * (-q) ** m * f[m] for m in range(N + 1)]
    else:
        g = F('gfun', x, N); h = []; pre = 2 * pi * R.sqrt(pi / q)
        for m in range(N + 1):
            t = zero
            for j in range(m + 1): t = t + comb(m, j) * (-1) ** (m - j) * g[j]
            h.append(pre * q ** m * t)
    T = radial_derivs(R, X, h, N)
    M = contract_E(R, E, T, LA, LB); f = K * norm(R, a, LA) * norm(R, b, LB)
    return [[f * e for e in row] for row in M]


def special(R):
    """F for type1_prim"""
    if R.numeric:
        m = R.m; pt = getattr(R, 'perturb', None)
        if pt:
            import random
            rnd = random.Random(pt[0])
            def g(kind, x, nmax): return [v + pt[1] * rnd.choice((-1, 1)) for v in f(kind, x, nmax)]
        def f(kind, x, nmax):
            if kind == 'boys':
                if x == 0: return [m.mpf(1) / (2 * n + 1) for n in range(nmax + 1)]
                return [m.gammainc(n + m.mpf(1) / 2, 0, x) / (2 * x ** (n + m.mpf(1) / 2)) for n in range(nmax + 1)]
            # g_n = e^-x/(2n+1) 1F1(n+1/2; n+3/2; x) = 1/(2n+1) 1F1(1; n+3/2; -x)
            return [m.hyp1f1(1, n + m.mpf(3) / 2, -x) / (2 * n + 1) for n in range(nmax + 1)]
        return g if pt else f
    def f(kind, x, nmax):
        import dvlib
        if x.is0():
            from fractions import Fraction
            return [R.lift(Fraction(1, 2 * n + 1)) for n in range(nmax + 1)]
        return [R.uf('%s_%d' % (kind, n), [x]) for n in range(nmax + 1)]
    return f


def overlap_grad_prim(R, LA, LB, a, b, A, B, move):
    """derivative of the overlap matrix under a displacement of the functions named in `move` (subset of 'AB')"""
    T = [overlap1d(R, a, b, A[c], B[c], LA + 1, LB + 1) for c in range(3)]
    N = norm(R, a, LA) * norm(R, b, LB); out = [[], [], []]
    D = [[[None] * (LB + 1) for _ in range(LA + 1)] for c in range(3)]
    for c in range(3):
        for i in range(LA + 1):
            for j in range(LB + 1):
                s = R.lift(0)
                if 'A' in move: s = s + 2 * a * T[c][i + 1][j] - (i * T[c][i - 1][j] if i else 0)
                if 'B' in move: s = s + 2 * b * T[c][i][j + 1] - (j * T[c][i][j - 1] if j else 0)
                D[c][i][j] = s
    for x in range(3):
        for ca in carts(LA):
            row = []
            for cb in carts(LB):
                t = N
                for c in range(3): t = t * (D if c == x else T)[c][ca[c]][cb[c]]
                row.append(t)
            out[x].append(row)
    return out
