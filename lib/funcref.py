"""Multiprecision references of the one-dimensional special functions (defining integrals / series)."""
import mpmath as mp
from mpmath import mpf


def boys(x, nmax, dps=50):
    """F_n(x) = int_0^1 t^(2n) exp(-x t^2) dt, n=0..nmax"""
    with mp.workdps(dps):
        x = mpf(x)
        if x == 0: return [mpf(1) / (2 * n + 1) for n in range(nmax + 1)]
        if x > 150:      # upward, with enough digits
            e = mp.exp(-x); f = mp.sqrt(mp.pi / x) / 2 * mp.erf(mp.sqrt(x)); r = [f]
            for n in range(nmax): r.append(((2 * n + 1) * r[-1] - e) / (2 * x))
            return r
        N = nmax; p, q = float(x).as_integer_ratio(); B = 260; s = 0; t = (1 << B) // (2 * N + 1); k = 0
        while True:      # exp(-x) sum (2x)^k / ((2N+1)(2N+3)...(2N+2k+1)), fixed point with 260 bits
            s += t; k += 1; t = t * 2 * p // (q * (2 * N + 2 * k + 1))
            if t << 200 < s: break
        e = mp.exp(-x); f = e * mp.ldexp(mpf(s), -B); r = [f]
        for n in range(N, 0, -1): f = (2 * x * f + e) / (2 * n - 1); r.append(f)
        return r[::-1]


def gfun(x, nmax, dps=50):
    """G_n(x) = int_0^1 t^(2n) exp(-x(1-t^2)) dt"""
    with mp.workdps(dps + int(float(x) * 0.9) % 60):
        x = mpf(x)
        if x > 400:
            with mp.workdps(dps + 3 * nmax):
                g0 = mp.mpf(0); t = mpf(1) / (2 * x); k = 0
                while abs(t) > mpf(10) ** (-dps - 3 * nmax) and (2 * k + 1) < 2 * x: g0 += t; k += 1; t = t * (2 * k - 1) / (2 * x)
                r = [g0]
                for n in range(nmax): r.append((1 - (2 * n + 1) * r[-1]) / (2 * x))
                return r
        # series for G_N, downward
        N = nmax; s = mpf(0); t = mp.exp(-x); k = 0
        while True:
            c = t / (2 * N + 2 * k + 1); s += c; k += 1; t = t * x / k
            if c < s * mpf(10) ** (-mp.mp.dps + 5) and k > x: break
        r = [s]; g = s
        if x < nmax + 20:
            for n in range(N, 0, -1): g = (1 - 2 * x * g) / (2 * n - 1); r.append(g)
            # error amplification of the downward recursion is covered by the extra digits
            return [v for v in r[::-1]]
        out = []
        for n in range(nmax + 1):
            s = mpf(0); t = mp.exp(-x); k = 0
            while True:
                c = t / (2 * n + 2 * k + 1); s += c; k += 1; t = t * x / k
                if c < s * mpf(10) ** (-30) and k > x: break
            out.append(s)
        return out


def bessel(x, nmax, dps=50):
    """K_n(x) = exp(-x) i_n(x), modified spherical Bessel functions of the first kind"""
    with mp.workdps(dps):
        x = mpf(x)
        if x == 0: return [mpf(1)] + [mpf(0)] * nmax
        N = nmax + 60 + int(2 * x ** 0.5) + int(x if x < 100 else 0)
        if x > 100:
            with mp.workdps(dps + 40):
                return [mp.sqrt(mp.pi / (2 * x)) * mp.besseli(n + mpf(1) / 2, x) * mp.exp(-x) for n in range(nmax + 1)]
        if x < 1e-5:     # ascending series
            r = []
            for n in range(nmax + 1):
                t = x ** n / mp.fac2(2 * n + 1); r.append(mp.exp(-x) * t * (1 + x * x / 2 / (2 * n + 3) * (1 + x * x / 4 / (2 * n + 5))))
            return r
        p, q = float(x).as_integer_ratio(); a, b = 0, 1 << 260; v = [0] * (N + 1)
        for n in range(N, -1, -1):
            v[n] = b; a, b = b, a + (2 * n + 1) * q * b // p      # i_{n-1} = i_{n+1} + (2n+1)/x i_n
        sc = -mp.expm1(-2 * x) / (2 * x) / mpf(v[0])
        return [mpf(v[n]) * sc for n in range(nmax + 1)]


def dawson(x, dps=40):
    with mp.workdps(dps):
        x = mpf(x); return mp.sqrt(mp.pi) / 2 * mp.exp(-x * x) * mp.erfi(x)


_ETA = {}


def eta(j):
    if j not in _ETA:
        with mp.workdps(60): _ETA[j] = mp.altzeta(j)
    return _ETA[j]


def fermi_sk(k, x, dps=40):
    """S_k(x) = sum_{n>=1} (-1)^n exp(n x) / n^k, x <= 0"""
    with mp.workdps(dps):
        x = mpf(x); s = mpf(0)
        if x < -1:
            n = 1; q = mp.exp(x); t = q
            while t > mpf(10) ** (-dps + 8): s += (-1) ** n * t / mpf(n) ** k; n += 1; t *= q
            return s
        t = mpf(1)       # Taylor series about 0: d^m S_k = S_{k-m}, S_j(0) = -eta(j), radius pi
        for m in range(90): s -= eta(k - m) * t; t = t * x / (m + 1)
        return s
