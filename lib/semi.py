"""Semilocal operators (type-2 averaged and spin-orbit): contracts of the helpers, symbolic
specification, and an independent numerical reference (angular and radial quadrature)."""
import math
from fractions import Fraction as Fr
from math import comb
import numpy as np
import dvlib, spec, rshspec, cases, kinds
from dvlib import *
from layout import View
from kinds import Kind, KINDS, setup_shells, lift_ABCU, nsize

ENV = {}


def vkey(x): return (x.v, x.w)


def isz(x): return x.v == 0 and x.w == 0


def allowed(lam, L, s): return (lam + L + s) % 2 == 0 and abs(L - s) <= lam <= L + s if s <= L else (lam + L + s) % 2 == 0 and lam <= L + s


# ------------------------------------------------------------------ contracts
def c_true(S, a): return S.int(1)


def bad(msg): ENV.setdefault('bad', []).append(msg)


def c_tabulate(S, a):
    """requires: squared distances of the two centres from the operator; result: the table of Q(l1,l2,n)"""
    if len(a) != 8: return NotImplemented
    o = S.new(64, 'radial table'); key = (tuple(x.i for x in a[:3]), vkey(a[3]), vkey(a[4]), (a[5].a, a[5].i), (a[6].a, a[6].i), (a[7].a, a[7].i))
    ENV.setdefault('tables', {})[o] = key; ENV.setdefault('open', set()).add(o)
    return S.ptr(o)


def qval(R, c1, f1, l1, c2, f2, l2, n, pot):
    """Q as an uninterpreted function of the two functions, their distances, the orders and the potential (symmetric)"""
    if (l1 and c1 == (0, 0)) or (l2 and c2 == (0, 0)): return F(0, 0)
    if ENV.get('qzero') and (l1 * 7 + l2 * 5 + n * 3 + ENV['qzero']) % 3 == 0: return F(0, 0)
    k = sorted([(f1, c1, l1), (f2, c2, l2)])
    return R.uf('Q%s%s%d' % (k, pot, n), [], 0.6 * 0.9 ** (l1 + l2) / (1 + n) + 0.01)


def c_get(S, a):
    if len(a) != 4 or a[0].a not in ENV.get('tables', {}): return NotImplemented
    (m1, m2, mn), c1, c2, pot, bra, ket = ENV['tables'][a[0].a]; l1, l2, n = a[1].i, a[2].i, a[3].i
    if not (0 <= l1 <= m1 and 0 <= l2 <= m2 and 0 <= n <= mn): bad('radial integral Q(%d,%d,%d) requested outside the table (%d,%d,%d)' % (l1, l2, n, m1, m2, mn))
    return qval(S.R, c1, bra, l1, c2, ket, l2, n, pot)


def c_del(S, a):
    if len(a) != 1 or a[0].a not in ENV.get('open', ()): return NotImplemented
    ENV['open'].discard(a[0].a); return None


def c_rsh(S, a):
    """S_lm at direction k for all m, as uninterpreted functions of the direction"""
    if len(a) != 3: return NotImplemented
    l = a[0].i; k = [v2f(S.cread(a[1], 8 * t)) for t in range(3)]; side = direction_of(k)
    if side is None: return NotImplemented
    for m in range(2 * l + 1): S.cwrite(a[2], 8 * m, svalue(S.R, side, l, m))
    return None


def direction_of(k):
    """which of the known directions (names to vectors) is k parallel to"""
    if all(isz(x) for x in k): return '0'
    for nm, u in ENV.get('dirs', {}).items():
        if all(isz(x) for x in u): continue
        if all((k[i] * u[j] - k[j] * u[i]).v == 0 for i, j in ((0, 1), (1, 2), (0, 2))) and sum(x.x * y.x for x, y in zip(k, u)) > 0: return nm
    return None


def svalue(R, side, l, m):
    if side == '0': return F(0, 0) if l else rshspec.norm(R, 0, 0)
    if l == 0: return rshspec.norm(R, 0, 0)
    return R.uf('S%s_%d_%d' % (side, l, m), [], 0.31 - 0.017 * m + 0.01 * l)


def omega(R, side, lam, L, m, a, b, c):
    if side == '0' and lam or not allowed(lam, L, a + b + c): return F(0, 0)
    if lam == 0: side = ''
    return R.uf('om%s_%d_%d_%d_%d_%d_%d' % (side, lam, L, m, a, b, c), [], 0.21 + 0.011 * m - 0.01 * lam + 0.007 * a)


def c_ang2(S, a):
    if len(a) != 7 or a[6].kind != K_PTR: return NotImplemented
    lam, L, m, x, y, z = [t.i for t in a[:6]]
    return omega(S.R, row_side(S, a[6], lam), lam, L, m, x, y, z)


def row_side(S, p, lam):
    """which direction the array of harmonics belongs to"""
    vals = tuple(S.read_reals(p.a, 2 * lam + 1, p.i)[0]); side = ENV['rows'].get((lam, vals))
    if side is None:
        for nm in list(ENV['dirs']) + ['0']:
            s = '0' if nm in ENV['dirs'] and all(isz(t) for t in ENV['dirs'][nm]) else nm
            if tuple(svalue(S.R, s, lam, k).v for k in range(2 * lam + 1)) == vals: side = s; break
        else: bad('angular integral called with harmonics of another order or direction (lambda=%d)' % lam); side = '?'
        ENV['rows'][lam, vals] = side
    return side


def angsum(R, L, k1, k2, so):
    """k = (side, lambda, a, b, c): sum_m omega_m omega_m  or  sum_mm' omega_m l_x,y,z[m,m'] omega_m'"""
    key = ('sum', L, k1, k2, so)
    if key not in ENV:
        v = []
        for s, lam, a, b, c in (k1, k2):
            ck = ('om', s, lam, L, a, b, c)
            if ck not in ENV: ENV[ck] = [omega(R, s, lam, L, m, a, b, c) for m in range(-L, L + 1)]
            v.append(ENV[ck])
        ENV[key] = []
        for M in coupling(R, L, so):
            t = F(0, 0)
            for i, j, e in M: t = t + (v[0][i] * v[1][j] if e is None else v[0][i] * v[1][j] * e)
            ENV[key].append(t)
    return ENV[key]


def coupling(R, L, so):
    """nonzero elements of the coupling of the two projections"""
    if ('M', L, so) not in ENV:
        nm = 2 * L + 1; mats = rshspec.lmat(R, L) if so else None
        ENV['M', L, so] = [[(i, j, mats[x][i * nm + j]) for i in range(nm) for j in range(nm) if not isz(mats[x][i * nm + j])] for x in range(3)] if so else [[(i, i, None) for i in range(nm)]]
    return ENV['M', L, so]


def c_sum2(S, a):
    if len(a) != 13 or a[11].kind != K_PTR or a[12].kind != K_PTR: return NotImplemented
    k1 = (row_side(S, a[11], a[1].i), a[1].i, a[2].i, a[3].i, a[4].i); k2 = (row_side(S, a[12], a[6].i), a[6].i, a[7].i, a[8].i, a[9].i)
    return angsum(S.R, a[0].i, k1, k2, False)[0]


def c_sum3(S, a):
    if len(a) != 17 or a[8].kind != K_PTR or a[13].kind != K_PTR: return NotImplemented
    L = a[0].i; k1 = (row_side(S, a[8], a[4].i), a[4].i, a[5].i, a[6].i, a[7].i); k2 = (row_side(S, a[13], a[9].i), a[9].i, a[10].i, a[11].i, a[12].i)
    if ('Lm', L) not in ENV:       # requires: the three matrices of the angular momentum
        n = (2 * L + 1) ** 2; m = rshspec.lmat(S.R, L)
        for x in range(3):
            if S.read_reals(a[1 + x].a, n, a[1 + x].i)[0] != [F.lift(e).v for e in m[x]]: bad('matrix of l_%s passed to the angular sum is wrong' % 'xyz'[x])
        ENV['Lm', L] = True
    for x, v in enumerate(angsum(S.R, L, k1, k2, True)): S.cwrite(a[14 + x], 0, v)
    return None


def radial_contracts(S):
    ENV.clear(); ENV['rows'] = {}
    S.contract('libgrpp_is_initialized', c_true)
    ok = [S.contract('tabulate_radial_type2_integrals', c_tabulate), S.contract('get_radial_type2_integral', c_get), S.contract('delete_radial_type2_integrals', c_del)]
    return all(ok)


def modular_contracts(S):
    radial_contracts(S); S.contract('evaluate_real_spherical_harmonics_array', c_rsh); S.contract('angular_type2_integral', c_ang2)
    S.contract('type2_angular_sum', c_sum2); S.contract('type3_angular_sum', c_sum3)


# ------------------------------------------------------------------ symbolic specification
def set_first(S, sh, nm, x):
    p = View(S, 'libgrpp_shell_t', sh['ptr']).get('alpha')
    if dvlib.L.dv_obj_range(p.a) >= 0:
        v = f2v(S.sym('first_' + nm, x, True)); dvlib.L.dv_sym_first(p.a, C.byref(v))


def restrict(S, sh, sub):
    """keep only the components `sub` of a shell"""
    v = View(S, 'libgrpp_shell_t', sh['ptr']); cl = v.get('cart_list'); c = spec.carts(sh['L'])
    for k, j in enumerate(sub):
        for d in range(3): x = S.int(c[j][d]); x.size = 4; S.cwrite(cl, 4 * (3 * k + d), x, 4)
    x = S.int(len(sub)); x.size = 4; S.cwrite(v.p, v.o['cart_size'], x, 4)
    sh['sub'] = list(sub)


def setup_semi(fn):
    base = kinds.setup_ABCU(fn)
    def f(S, inp, cfg):
        name, p, args, q = base(S, inp, cfg)
        for nm in 'AB':
            set_first(S, p[nm], nm, 0.77)
            if cfg.get('sub'): restrict(S, p[nm], cfg['sub']['AB'.index(nm)])
        for nm in 'AB':
            x = sum(((p['C'][k] - p[nm]['origin'][k]) ** 2 for k in (1, 2)), (p['C'][0] - p[nm]['origin'][0]) ** 2)
            if x.v and pow(x.v, (dvlib._P - 1) // 2, dvlib._P) != 1: raise Reseed()
        d = {nm: [p['C'][k] - p[nm]['origin'][k] for k in range(3)] for nm in 'AB'}
        ENV['dirs'] = {nm: [-x for x in d[nm]] for nm in 'AB'}
        if all((x - y).v == 0 for x, y in zip(d['A'], d['B'])): del ENV['dirs']['B']
        p['modular'] = cfg.get('modular'); ENV['qzero'] = cfg.get('qzero'); p['ptrs'] = [(a.a, a.i) for a in args]
        return name, p, args, q
    return f


def comps(sh): c = spec.carts(sh['L']); return [c[k] for k in sh['sub']] if sh.get('sub') is not None else c


def side_terms(R, p, nm, L):
    """{component: [(a,b,c), factor, {lambda: [omega_m]}]}"""
    sh = p[nm]; Cn = [p['C'][k] - sh['origin'][k] for k in range(3)]; zero = all(isz(x) for x in Cn); pw = [spec.powers(x, sh['L'], R.lift(1)) for x in Cn]
    dirs = ENV['dirs']; side = '0' if zero else (nm if nm in dirs else 'A'); om = {}; out = []; rows = {}
    if not p['modular']:
        if not zero: u = rshspec.unit(R, [-x for x in Cn])
        for lam in range(L + sh['L'] + 1):
            rows[lam] = ([rshspec.norm(R, 0, 0)] if lam == 0 else [F(0, 0)] * (2 * lam + 1)) if zero else [rshspec.rsh(R, lam, m, u) for m in range(-lam, lam + 1)]
    def get(a, b, c):
        if (a, b, c) not in om:
            o = {}
            for lam in range(L + a + b + c + 1):
                if not allowed(lam, L, a + b + c) or (zero and lam): continue
                if p['modular']: o[lam] = (side, lam, a, b, c)
                else: o[lam] = [rshspec.ang2(R, lam, L, m, a, b, c, rows[lam]) for m in range(-L, L + 1)]
            om[a, b, c] = o
        return om[a, b, c]
    for (n, l, m) in comps(sh):
        t = []
        for a in range(n + 1):
            for b in range(l + 1):
                for c in range(m + 1):
                    f = comb(n, a) * comb(l, b) * comb(m, c) * pw[0][n - a] * pw[1][l - b] * pw[2][m - c]
                    if not isz(f): t.append(((a, b, c), f, get(a, b, c)))
        out.append(t)
    c2 = sum((x * x for x in Cn[1:]), Cn[0] * Cn[0])
    return out, vkey(c2), p['ptrs']['AB'.index(nm)]


def semi_spec(R, p, ab, so):
    L = p['pot']['L']; tA, cA, fA = side_terms(R, p, 'A', L); tB, cB, fB = side_terms(R, p, 'B', L); pot = p['ptrs'][3]
    M = coupling(R, L, so)
    cache = {}; Q = {}; pre = 16 * R.pi() ** 2; out = [[] for _ in M]
    for ta in tA:
        for tb in tB:
            s = [R.lift(0)] * len(M)
            for ka, fa, oa in ta:
                for kb, fb, ob in tb:
                    if (ka, kb) not in cache:
                        w = [R.lift(0)] * len(M); N = sum(ka) + sum(kb)
                        for l1, v1 in oa.items():
                            for l2, v2 in ob.items():
                                q = Q.get((l1, l2, N))
                                if q is None: q = Q[l1, l2, N] = qval(R, cA, fA, l1, cB, fB, l2, N, pot)
                                if isz(q): continue
                                if p['modular']: ts = angsum(R, L, v1, v2, so)
                                else:
                                    ts = []
                                    for x in range(len(M)):
                                        t = R.lift(0)
                                        for i, j, e in M[x]: t = t + (v1[i] * v2[j] if e is None else v1[i] * v2[j] * e)
                                        ts.append(t)
                                for x in range(len(M)): w[x] = w[x] + q * ts[x]
                        cache[ka, kb] = w
                    w = cache[ka, kb]
                    for x in range(len(M)): s[x] = s[x] + fa * fb * w[x]
            for x in range(len(M)): out[x].append(pre * s[x])
    return out


# ------------------------------------------------------------------ numerical reference
def dfact(n): return spec.dfact(n)


def gnorm(L, a): return (2 * a / math.pi) ** 0.75 * (4 * a) ** (L / 2)


_GL = {}


def gl(n):
    if n not in _GL: _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


_SC = {}


def rsh_coeffs(l):
    if l not in _SC:
        _SC[l] = [(float(math.sqrt(rshspec.norm2(l, m) / Fr(math.pi))), [(k, float(c)) for k, c in rshspec.poly(l, m).items()]) for m in range(-l, l + 1)]
    return _SC[l]


def rsh_num(l, X):
    """[2l+1, npts] real harmonics at unit vectors X[3, npts]"""
    pw = [[X[c] ** n for n in range(l + 1)] for c in range(3)]
    return np.array([n * sum(c * pw[0][i] * pw[1][j] * pw[2][k] for (i, j, k), c in t) for n, t in rsh_coeffs(l)])


def frame(d):
    d = np.array(d, float); n = np.linalg.norm(d)
    if n == 0: return np.eye(3)
    e = d / n; t = np.eye(3)[np.argmin(abs(e))]; u = np.cross(e, t); u /= np.linalg.norm(u); return np.array([u, np.cross(e, u), e])   # rows; third along d


def project(Cc, A, alpha, trips, Ls, r, nphi=None):
    """{L: array[r, 2L+1, trips]}: int dOmega S_LM(Omega) prod (x-A)^n exp(-alpha |x-A|^2) at x = C + r Omega"""
    d = np.array([a - c for a, c in zip(A, Cc)], float); R0 = np.linalg.norm(d); fr = frame(d)
    maxn = max(sum(t) for t in trips); Lm = max(Ls); nph = nphi or (maxn + Lm + 2); ph = 2 * math.pi * (np.arange(nph) + 0.5) / nph
    x, w = gl(48 if maxn + Lm < 18 else 64); out = {L: np.zeros((len(r), 2 * L + 1, len(trips))) for L in Ls}
    for ir, rr in enumerate(r):
        kap = 2 * alpha * rr * R0
        # cos(theta) in [-1,1]; integrand exp(kap (cos-1)): restrict to the effective range
        lo = max(-1.0, 1 - (45.0 + 2 * maxn) / kap) if kap > 0 else -1.0
        if kap > 1: edges = [1.0, 1 - (1 - lo) * 0.05, 1 - (1 - lo) * 0.25, lo]
        else: edges = [1.0, lo]
        cs, ws = [], []
        for hi, l in zip(edges, edges[1:]): cs.append((hi + l) / 2 + (hi - l) / 2 * x); ws.append((hi - l) / 2 * w)
        c = np.concatenate(cs); wt = np.concatenate(ws); s = np.sqrt(np.maximum(0, 1 - c * c))
        X = np.array([np.outer(s, np.cos(ph)), np.outer(s, np.sin(ph)), np.outer(c, np.ones(nph))]).reshape(3, -1); U = fr.T @ X
        g = np.repeat(wt * np.exp(kap * (c - 1)), nph) * (2 * math.pi / nph) * math.exp(-alpha * (rr - R0) ** 2)
        P = [[(rr * U[k] - d[k]) ** n for n in range(max(t[k] for t in trips) + 1)] for k in range(3)]
        Fv = np.array([P[0][t[0]] * P[1][t[1]] * P[2][t[2]] for t in trips]) * g
        for L in Ls: out[L][ir] = rsh_num(L, U) @ Fv.T
    return out


def rgrid(r0, p, n=40, extra=()):
    """radial nodes for a factor exp(-p (r-r0)^2) x slowly varying: composite Gauss-Legendre"""
    h = 6.5 / math.sqrt(p); lo, hi = max(0.0, r0 - h), r0 + h + 2 / math.sqrt(p)
    if lo == 0: e = [0, 0.002 * hi, 0.02 * hi, 0.08 * hi, 0.2 * hi, 0.45 * hi, 0.7 * hi, hi]
    else: e = list(np.linspace(lo, hi, 6))
    for x in extra:
        if lo < x < hi: e.append(x)
    e = sorted(set(e)); x, w = gl(n); rs, ws = [], []
    for a, b in zip(e, e[1:]): rs.append((a + b) / 2 + (b - a) / 2 * x); ws.append((b - a) / 2 * w)
    return np.concatenate(rs), np.concatenate(ws)


def dist(a, b): return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def ders(trips, alpha, d):
    """derivative of a Gaussian with respect to its centre: list of [(factor, triple)]"""
    out = []
    for axis in range(3):
        col = []
        for t in trips:
            up = list(t); up[axis] += 1; e = [(2 * alpha, tuple(up))]
            if t[axis]: dn = list(t); dn[axis] -= 1; e.append((-float(t[axis]), tuple(dn)))
            col.append(e)
        out.append(col)
    return out


def expand(trips, alpha, d):
    """d=None: the functions themselves; d=0..2: derivative along the axis; as combinations of monomials"""
    return [[(1.0, t)] for t in trips] if d is None else ders(trips, alpha, d)[d]


def ncomps(sh):
    c = spec.carts(sh['L']); return [c[j] for j in sh['perm']] if sh.get('perm') else c


def semi_matrix(q, couple, pot, derA=None, derB=None, n=40):
    """sum over primitives of int r^n e^(-zeta r^2) sum couple[x][m,m'] a_m b_m' dr; returns list of matrices and scale"""
    A, B, Cc, L = q['A'], q['B'], q['C'], pot['L']; tA, tB = ncomps(A), ncomps(B); out = [np.zeros((len(tA), len(tB))) for _ in couple]; sc = [0.0] * len(couple)
    dA, dB = dist(A['origin'], Cc), dist(B['origin'], Cc)
    for ca, aa in zip(A['coeffs'], A['alpha']):
        EA = expand(tA, aa, derA); mA = sorted({t for e in EA for _, t in e})
        for cb, bb in zip(B['coeffs'], B['alpha']):
            EB = expand(tB, bb, derB); mB = sorted({t for e in EB for _, t in e})
            for cu, z, pw in zip(pot['coeffs'], pot['alpha'], pot['powers']):
                p = aa + bb + z; r, w = rgrid((aa * dA + bb * dB) / p, p, n, (dA, dB)); f = w * r ** pw * np.exp(-z * r * r)
                a = project(Cc, A['origin'], aa, mA, [L], r)[L]; b = project(Cc, B['origin'], bb, mB, [L], r)[L]
                TA = np.array([[dict((t, c) for c, t in e).get(m, 0.0) for m in mA] for e in EA]); TB = np.array([[dict((t, c) for c, t in e).get(m, 0.0) for m in mB] for e in EB])
                a = a @ TA.T; b = b @ TB.T; k = ca * cb * cu * gnorm(A['L'], aa) * gnorm(B['L'], bb)
                G = np.einsum('r,rma,rnb->mnab', f, a, b); Ga = np.einsum('r,rma,rnb->mnab', f, abs(a), abs(b))
                for x, M in enumerate(couple):
                    out[x] += k * np.einsum('mn,mnab->ab', M, G); sc[x] += abs(k) * np.einsum('mn,mnab->ab', abs(M), Ga).max()
    return [m.reshape(-1).tolist() for m in out], sc


_LM = {}


def lmats(L):
    if L not in _LM:
        R = MPRing(30); _LM[L] = [np.array([float(x) for x in m]).reshape(2 * L + 1, 2 * L + 1) for m in rshspec.lmat(R, L)]
    return _LM[L]


def oracle_type2(q): return semi_matrix(q, [np.eye(2 * q['pot']['L'] + 1)], q['pot'])
def oracle_so(q): return semi_matrix(q, lmats(q['pot']['L']), q['pot'])


def atol(q):
    """absolute thresholds of the screening tests (1e-13 .. 1e-16) times the size of the terms they multiply"""
    x = 1.0
    for nm in 'AB': x *= (1 + sum(abs(a - c) for a, c in zip(q[nm]['origin'], q['C']))) ** q[nm]['L']
    return 3e-11 * x


def fail(): return '; '.join(ENV['bad'][:3]) if ENV.get('bad') else None


def _kind(name, nout, fn, so, contracts, native):
    K = Kind(name, nout, setup_semi(fn), lambda R, p, ab: semi_spec(R, p, ab, so), lift_ABCU, contracts, native=native, tol=1e-9)
    K.oracle = oracle_so if so else oracle_type2; K.fail = fail; K.atol = atol; return K


for _n, _o, _f, _s in (('type2', 1, 'libgrpp_type2_integrals', False), ('spin_orbit', 3, 'libgrpp_spin_orbit_integrals', True)):
    _kind(_n, _o, _f, _s, radial_contracts, _n); _kind(_n + '_mod', _o, _f, _s, modular_contracts, _n)
