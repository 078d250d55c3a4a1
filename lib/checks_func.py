"""C12-C14: real spherical harmonics, angular integrals, angular-momentum matrices, special functions."""
import math, random
from fractions import Fraction as Fr
from verify import *
from scen import *
import spec, rshspec, funcref
from rshspec import poly

I, D, P = C.c_int, C.c_double, C.c_void_p
MPR = None


def mpr():
    global MPR
    if MPR is None: MPR = MPRing(40)
    return MPR


def tables(S, lmax):
    """build the coefficient tables up to lmax by the library's own initialisation code"""
    if S.has('create_real_spherical_harmonic_coeffs_tables'): S.call('create_real_spherical_harmonic_coeffs_tables', lmax)
    else: S.call('libgrpp_init')


# ------------------------------------------------------------------ C12, contracts in the engine
def e_coef(S, l):
    pr = []
    for m in range(-l, l + 1):
        p = poly(l, m); n = rshspec.norm(S.R, l, m)
        for (i, j, k) in spec.carts(l): pr += fdiff('coefficient l=%d m=%d x%d y%d z%d' % (l, m, i, j, k), S.call('spherical_to_cartesian_coef', l, m, i, j, k), n * p.get((i, j, k), 0))
        if pr: break
    return pr


def direction(S, zero=False):
    k = [F(0, 0), F(0, 0), F(0, 0)] if zero else [S.sym('k' + c, x) for c, x in zip('xyz', (0.7, -1.1, 0.4))]
    return k, S.reals(k, 'k')


def e_rsh(S, l, table=None, single=True, zero=False):
    if table: tables(S, table)
    k, ko = direction(S, zero); pr = []
    if zero: exp = [rshspec.norm(S.R, 0, 0)] if l == 0 else [F(0, 0)] * (2 * l + 1)
    else: u = rshspec.unit(S.R, k); exp = [rshspec.rsh(S.R, l, m, u) for m in range(-l, l + 1)]
    out = S.garbage(2 * l + 1, 'rsh'); p, _, _ = fr(frame_out(S, [out], 'evaluate_real_spherical_harmonics_array', l, S.ptr(ko), S.ptr(out))); pr += p
    v = S.read_reals(out, 2 * l + 1)[0]; pr += ['S_{%d,%d} differs' % (l, m - l) for m in range(2 * l + 1) if v[m] != exp[m].v]
    if single:
        for m in range(-l, l + 1):
            p, r, _ = frame_call(S, 'evaluate_real_spherical_harmonic', l, m, S.ptr(ko)); pr += p + fdiff('S_{%d,%d}' % (l, m), r, exp[m + l])
    return pr


def fr(x): return x


def frame_out(S, outs, fn, *args): return frame_call(S, fn, *args)


def e_ang1(S, lam, trip):
    k, ko = direction(S); u = rshspec.unit(S.R, k); pr = []
    for (i, j, m) in trip:
        p, r, _ = frame_call(S, 'angular_type1_integral', lam, i, j, m, S.ptr(ko)); pr += p + fdiff('angular_type1_integral(%d,%d,%d,%d)' % (lam, i, j, m), r, rshspec.ang1(S.R, lam, i, j, m, u))
    return pr


def e_ang2(S, tup):
    pr = []
    for (lam, L, m, a, b, c) in tup:
        cp = S.checkpoint(); rv = [S.sym('s%d' % k, 0.3 - 0.07 * k) for k in range(2 * lam + 1)]; ro = S.reals(rv, 'rsh')
        p, r, _ = frame_call(S, 'angular_type2_integral', lam, L, m, a, b, c, S.ptr(ro))
        pr += p + fdiff('angular_type2_integral(%s)' % ((lam, L, m, a, b, c),), r, rshspec.ang2(S.R, lam, L, m, a, b, c, rv)); S.undo(cp)
        if pr: break
    return pr


def e_usp(S, n):
    pr = []
    for i in range(n + 1):
        for j in range(n + 1 - i):
            for k in range(n + 1 - i - j): pr += fdiff('moment(%d,%d,%d)' % (i, j, k), S.call('integrate_unitary_sphere_polynomial', i, j, k), 4 * S.R.pi() * rshspec.mono(i, j, k))
    return pr


def spec_selfcheck(lmax):
    """the reference harmonics are orthonormal (exact rational arithmetic)"""
    out = []
    for l in range(lmax + 1):
        for m in range(-l, l + 1):
            for l2 in (l, l + 2):
                for m2 in range(-l2, l2 + 1):
                    v = rshspec.inner(poly(l, m), poly(l2, m2)); e = 1 if (l, m) == (l2, m2) else 0
                    if v and not (e and v * rshspec.norm2(l, m) == 1) or (e and not v): out.append((l, m, l2, m2))
    return out


# ------------------------------------------------------------------ C12, native twins
def more_tables(lib, l):
    if l > 20: lib.l.create_real_spherical_harmonic_coeffs_tables(I(max(l, 20)))


def n_rsh(lib, l, k):
    pr = []; R = mpr(); more_tables(lib, l); f = lib.l.evaluate_real_spherical_harmonic; f.restype = D; f.argtypes = [I, I, P]
    g = lib.l.evaluate_real_spherical_harmonics_array; g.restype = None; g.argtypes = [I, P, P]
    kk = native.da(k); out = native.da([native.GARB] * (2 * l + 3)); g(l, kk, out)
    zero = all(x == 0 for x in k)
    if not zero: u = rshspec.unit(R, [R.lift(x) for x in k]); ua = [abs(x) for x in u]; pw = [[float(x) ** n for n in range(l + 1)] for x in ua]
    for m in range(-l, l + 1):
        if zero: e, sc = (1 / math.sqrt(4 * math.pi) if l == 0 else 0.0), 1.0
        else:
            n = rshspec.norm(R, l, m); e = float(rshspec.rsh(R, l, m, u)); sc = float(n) * sum(abs(float(c)) * pw[0][i] * pw[1][j] * pw[2][t] for (i, j, t), c in poly(l, m).items())
        tol = 1e-13 + 4e-15 * max(sc, 2.42 ** l)
        for nm, v in (('array', out[m + l]), ('single', f(l, m, kk))):
            if not abs(v - e) <= tol: pr.append('S_{%d,%d}(%s) [%s] is %.15g, expected %.15g' % (l, m, list(k), nm, v, e))
    if out[2 * l + 1] != native.GARB: pr.append('writes beyond the 2l+1 values')
    if list(kk) != [float(x) for x in k]: pr.append('the direction vector was changed')
    return pr[:4]


def n_ang(lib, tup, k):
    R = mpr(); pr = []; f = lib.l.angular_type1_integral; f.restype = D; f.argtypes = [I, I, I, I, P]; kk = native.da(k); u = rshspec.unit(R, [R.lift(x) for x in k])
    g = lib.l.angular_type2_integral; g.restype = D; g.argtypes = [I] * 6 + [P]
    for t in tup:
        if len(t) == 4: v = f(*t, kk); e = float(rshspec.ang1(R, *t, u)); nm = 'angular_type1_integral'; tol = 1e-11
        else:
            r = random.Random(str(t)); rv = [round(r.uniform(-1, 1), 6) for _ in range(2 * t[0] + 1)]; more_tables(lib, t[0]); v = g(*t, native.da(rv)); e = float(rshspec.ang2(R, *t, [R.lift(x) for x in rv])); nm = 'angular_type2_integral'; tol = 1e-12 * 10 ** (0.4 * max(0, t[0] + t[1] - 6))
        if not abs(v - e) <= tol: pr.append('%s(%s) is %.15g, expected %.15g' % (nm, t, v, e))
    return pr[:4]


def ang2_tuples(r, n, lmax, Lmax, amax):
    out = set()
    while len(out) < n:
        L = r.randint(0, Lmax); s = r.randint(0, amax); a = r.randint(0, s); b = r.randint(0, s - a); c = s - a - b
        lam = r.randint(0, min(lmax, L + s))
        if (lam + L + s) % 2 and r.random() < .9: continue
        out.add((lam, L, r.randint(-L, L), a, b, c))
    return sorted(out)


def C12():
    chk = Check('C12'); S = session(); T = []; r = random.Random(SEED); quick = TIER == 'quick'
    tables(S, 22)
    bad = spec_selfcheck(8)
    chk.ob('reference harmonics orthonormal for l<=8 (exact)', 'proved' if not bad else 'undecided', bad or None)
    rv = lambda: (round(r.uniform(-1, 1), 5), round(r.uniform(-1, 1), 5), round(r.uniform(-1, 1), 5))
    dirs = [(0, 0, 1), (0, 0, -2.5), (1, 0, 0), (0, -3, 0), (1e-9, 0, 0), (1e-5, 2e-5, -1e-5), (1e3, -2e3, 500.), (0, 0, 0), rv(), rv(), (3, 0, -4)]
    for l in range(0, 21 if quick else 41): T.append(scen('expansion coefficients of S_lm, l=%d' % l, e_coef, dict(l=l), cost=l * l * (10 if l > 22 else 1), timeout=200))
    for l in range(0, 23): T.append(scen('S_lm at any direction, l=%d' % l, e_rsh, dict(l=l), n_rsh, [(l, d) for d in (dirs if l < 14 else dirs[::3])], cost=l * l))
    for l in (range(23, 41) if not quick else (40,)): T.append(scen('S_lm at any direction, l=%d (tables to 40)' % l, e_rsh, dict(l=l, table=40), n_rsh, [(l, rv())], cost=9000, timeout=300))
    if quick:
        for l in (25, 30, 35): T.append(scen('S_lm l=%d [native]' % l, None, None, n_rsh, [(l, rv()), (l, (0, 0, 1))]))
    for l in range(0, 4): T.append(scen('S_lm of the zero vector, l=%d' % l, e_rsh, dict(l=l, zero=True)))
    for l in (9, 20): T.append(scen('S_lm of the zero vector, l=%d' % l, e_rsh, dict(l=l, zero=True)))
    T.append(scen('S_lm under the address sanitizer', None, None, n_rsh, [(l, rv()) for l in (0, 1, 5, 12, 20)], lib='asan'))
    if S.has('integrate_unitary_sphere_polynomial'):
        T.append(scen('moments of the sphere, i+j+k<=40', e_usp, dict(n=40), cost=300))
    for lam in range(0, 9 if quick else 13):
        tr = [(i, j, s - i - j) for s in range(0, 13) for i in range(s + 1) for j in range(s + 1 - i)]; tr = [t for t in tr if sum(t) <= 4] + r.sample([t for t in tr if sum(t) > 4], 8 if quick else 60)
        if lam > 5 and quick: tr = r.sample(tr, 15)
        T.append(scen('type-1 angular integrals, lambda=%d' % lam, e_ang1, dict(lam=lam, trip=tr), n_ang, [([(lam,) + t for t in tr[::3]], rv())], cost=lam ** 4, timeout=200))
    # type 2: all l=0..4 exhaustively in (m, monomial) for small orders, sampled above
    small = [(lam, L, m, a, b, c) for L in range(0, 3) for s in range(0, 4) for a in range(s + 1) for b in range(s + 1 - a) for c in [s - a - b] for lam in range(0, L + s + 1) for m in range(-L, L + 1) if (lam + L + s) % 2 == 0]
    for k in range(0, len(small), 80): T.append(scen('type-2 angular integrals, L<=2, a+b+c<=3 (block %d)' % (k // 80), e_ang2, dict(tup=small[k:k + 80]), n_ang, [(small[k:k + 80:4], rv())], cost=20, timeout=200))
    big = ang2_tuples(r, 240 if quick else 2400, 21, 10, 11)
    for k in range(0, len(big), 12): T.append(scen('type-2 angular integrals, sampled orders (block %d)' % (k // 12), e_ang2, dict(tup=big[k:k + 12]), n_ang, [(big[k:k + 12:4], rv())], cost=200, timeout=300))
    T.append(scen('angular integrals under the address sanitizer', None, None, n_ang, [(big[:10] + small[::40] + [(4, 2, 1, 1), (6, 3, 3, 2)], rv())], lib='asan', timeout=200))
    run_tasks(chk, T, chk.t0 + (420 if quick else 3000))
    chk.assumptions = ['orders (l, m, monomial powers) are enumerated: all coefficients for l<=%d, values at any direction for l<=22 and l=40; type-1 and type-2 angular integrals for all small orders and a random sample up to lambda=21, L=10, a+b+c=11' % (20 if quick else 40), 'thresholds of 1e-14 below which a coefficient or harmonic is skipped are treated as zero tests']
    return chk


# ------------------------------------------------------------------ C13
def e_lmat(S, L):
    n = (2 * L + 1) ** 2; o = [S.garbage(n, 'l' + c) for c in 'xyz']
    dvlib.L.dv_clear_events(); mark = dvlib.L.dv_nobj(); S.call('construct_angular_momentum_matrices_rsh', L, *[S.ptr(x) for x in o])
    pr = ['%s in %s: %s' % (e['kind'], e['func'], e['msg']) for e in S.events()]
    if S.live(mark): pr.append('blocks not released')
    exp = rshspec.lmat(S.R, L)
    for ax in range(3):
        v = S.read_reals(o[ax], n)[0]; b = [k for k in range(n) if v[k] != F.lift(exp[ax][k]).v]
        if b: pr.append('l_%s element (%d,%d) differs' % ('xyz'[ax], b[0] // (2 * L + 1) - L, b[0] % (2 * L + 1) - L))
    return pr


def e_algebra(S, L):
    """the matrices returned by the code (as values) obey the algebra: antisymmetry, commutators, Casimir"""
    d = 2 * L + 1; o = [S.garbage(d * d, 'l' + c) for c in 'xyz']; S.call('construct_angular_momentum_matrices_rsh', L, *[S.ptr(x) for x in o])
    A = []
    for x in o:
        A.append([[v2f(S.read(x, 8 * (i * d + j))) for j in range(d)] for i in range(d)])
    mul = lambda X, Y: [[sum((X[i][k] * Y[k][j] for k in range(d)), F(0, 0)) for j in range(d)] for i in range(d)]
    pr = []
    for M, n in zip(A, 'xyz'):
        if any((M[i][j] + M[j][i]).v for i in range(d) for j in range(d)): pr.append('l_%s not antisymmetric' % n)
    for a in range(3):      # [l_a, l_b] = i l_c with l = iA:  [A_a, A_b] = A_c
        X, Y, Z = A[a], A[(a + 1) % 3], A[(a + 2) % 3]; p, q = mul(X, Y), mul(Y, X)
        if any((p[i][j] - q[i][j] - Z[i][j]).v for i in range(d) for j in range(d)): pr.append('commutator [%s,%s] wrong' % ('xyz'[a], 'yzx'[a]))
    q = [mul(M, M) for M in A]
    if any((q[0][i][j] + q[1][i][j] + q[2][i][j] + (L * (L + 1) if i == j else 0)).v for i in range(d) for j in range(d)): pr.append('total square is not L(L+1)')
    return pr


def n_lmat(lib, L):
    R = mpr(); d = 2 * L + 1; o = [native.da([native.GARB] * (d * d + 2)) for _ in range(3)]; lib.l.construct_angular_momentum_matrices_rsh(I(L), *o); e = rshspec.lmat(R, L); pr = []
    for ax in range(3):
        if o[ax][d * d] != native.GARB: pr.append('writes beyond the matrix')
        for k in range(d * d):
            if not abs(o[ax][k] - float(e[ax][k])) <= 1e-13 * (L + 1): pr.append('l_%s element (%d,%d) is %.15g, expected %.15g' % ('xyz'[ax], k // d - L, k % d - L, o[ax][k], float(e[ax][k])))
    return pr[:4]


def C13():
    chk = Check('C13'); session(); T = []
    for L in range(0, 12):
        T.append(scen('matrices of l in the real basis, L=%d' % L, e_lmat, dict(L=L), n_lmat, [(L,)], cost=L ** 3))
        T.append(scen('algebra of the produced matrices, L=%d' % L, e_algebra, dict(L=L), n_lmat, [(L,)], lib='asan' if L in (0, 1, 5, 10) else None, cost=L ** 3))
    run_tasks(chk, T, chk.t0 + 300)
    chk.assumptions = ['the matrix elements are algebraic numbers (square roots of integers) compared in the image field; the roots follow the sign convention sqrt(x)>=0 of the engine']
    return chk


# ------------------------------------------------------------------ C14: piecewise polynomial functions
from scipy.special import comb as _comb


def n_eval(lib, fn, ns, xs):
    """values fn(n, x) of the compiled library"""
    l = lib.l
    if fn in ('boys_values', 'gfun_values'):
        f = getattr(l, fn); f.restype = None; f.argtypes = [D, I, P]; out = []
        for x in xs:
            b = (D * (max(ns) + 2))(*([native.GARB] * (max(ns) + 2))); f(x, max(ns), b)
            if b[max(ns) + 1] != native.GARB: raise MemoryError('%s writes beyond the requested orders' % fn)
            out.append([b[n] for n in ns])
        return out
    f = getattr(l, fn); f.restype = D
    if ns is None: f.argtypes = [D]; return [[f(x)] for x in xs]
    f.argtypes = [I, D]; return [[f(n, x) for n in ns] for x in xs]


def nat_eval(fn, ns, xs, out, lib=None):
    st, v = native.run_batch([('py', dict(f=n_eval, args=(fn, ns, xs)))], 100, lib=lib)[0]; out['native'] += len(xs)
    return (v, None) if st == 'ok' else (None, (st, v))


def eng_eval(S, fn, ns, x):
    if fn in ('boys_values', 'gfun_values'):
        o = S.garbage(max(ns) + 1, 'values'); S.call(fn, x, max(ns), S.ptr(o)); v = S.read_reals(o, max(ns) + 1); return [F(v[0][n], 0, v[1][n]) for n in ns]
    if ns is None: return [v2f(S.call(fn, x))]
    return [v2f(S.call(fn, n, x)) for n in ns]


def ref(fn, ns, x):
    if fn in ('boys_values', 'boys_function'): r = funcref.boys(x, max(ns)); return [r[n] for n in ns]
    if fn == 'gfun_values': r = funcref.gfun(x, max(ns)); return [r[n] for n in ns]
    if fn == 'modified_bessel_scaled': r = funcref.bessel(x, max(ns)); return [r[n] for n in ns]
    if fn in ('specfunc_fermi_sk', 'fermi_model_Sk'): return [funcref.fermi_sk(n, x) for n in ns]
    if fn == 'Dawsons_Integral': return [funcref.dawson(x)]
    raise ValueError(fn)


def cheb(lo, hi, n): return [(lo + hi) / 2 + (hi - lo) / 2 * math.cos(math.pi * (2 * k + 1) / (2 * n)) for k in range(n)]


def inside(x, lo, hi): return min(max(x, math.nextafter(lo, 1e9)), math.nextafter(hi, -1e9))


def known_region(fn, n, x, got):
    """the listed finding: is this deviation exactly the omitted term?"""
    if fn != 'modified_bessel_scaled' or n < 10 or not 16 < x < 19: return False
    with funcref.mp.workdps(40):
        e = funcref.bessel(x, n)[n]; X = funcref.mpf(x)
        drop = (-1) ** (n + 1) * funcref.mp.exp(-2 * X) * sum(funcref.mpf(math.factorial(n + k)) / (math.factorial(k) * math.factorial(n - k)) / (2 * X) ** k for k in range(n + 1)) / (2 * X)
        return abs(got - (e - drop)) <= 1e-12


def compare_values(fn, ns, xs, v, tol):
    worst = 0.0; bad = None; known = 0
    for x, row in zip(xs, v):
        e = ref(fn, ns, x)
        for k, n in enumerate(ns or [0]):
            t = tol(n) if callable(tol) else tol; d = abs(float(e[k] - row[k])) if row[k] == row[k] else float('inf')
            if not d <= t:
                if known_region(fn, n, x, row[k]): known += 1; continue
                if bad is None or d > bad[0]: bad = (d, dict(native='%s(%s, %r) = %.17g, exact value %.17g' % (fn, n, x, row[k], float(e[k])), input=dict(function=fn, order=n, x=x)))
            worst = max(worst, d / t)
    return worst, bad and bad[1], known


def compare_native(fn, ns, xs, tol, out, lib=None):
    """native values against the references; returns (worst error relative to the tolerance, violation or None, known)"""
    v, err = nat_eval(fn, ns, xs, out, lib)
    if err:
        if err[0] == 'crash': return None, dict(native='the function crashes or aborts: ' + err[1][-300:], input=dict(function=fn, orders=ns, x=xs[:50])), 0
        out['notes'].append('native %s: %s' % (fn, err[1][-200:])); return None, None, 0
    return compare_values(fn, ns, xs, v, tol)


def cell_task(task):
    """on every cell [lo,hi) the function is a polynomial of degree <= deg in x (finite-difference identity at a
    random point of the field), and its values at deg+1 nodes agree with the exact ones: so does the polynomial"""
    fn, ns, cells, deg, tol, tag = task['cell']; out = dict(obs=[], safety=0, native=0, notes=[], functions=[]); S = session(); dvlib.L.dv_reset_calls()
    XS = [[inside(x, lo, hi) for x in cheb(lo, hi, deg + 1)] + [math.nextafter(lo, 1e9), lo, math.nextafter(hi, -1e9), hi] for lo, hi in cells]
    v, err = nat_eval(fn, ns, [x for xs in XS for x in xs], out); p = 0
    for (lo, hi), xs in zip(cells, XS):
        nm = '%s on [%g,%g)%s' % (fn, lo, hi, tag); pr = None
        def prove(S):
            h = Fr((hi - lo) * 0.94 / (deg + 1)).limit_denominator(10 ** 10); x0 = lo + 0.03 * (hi - lo); X = S.sym('x', x0); acc = None
            for j in range(deg + 2):
                f = eng_eval(S, fn, ns, X + h * j); c = (-1) ** j * math.comb(deg + 1, j)
                acc = [c * y for y in f] if acc is None else [a + c * y for a, y in zip(acc, f)]
            return ['order %s is not a polynomial of degree %d in x' % (n, deg) for n, a in zip(ns or [0], acc) if a.v]
        st, pr, sf = run_scen(S, prove, {}); out['safety'] += sf
        if v is not None: w, bad, kn = compare_values(fn, ns, xs, v[p:p + len(xs)], tol); p += len(xs)
        else: w, bad, kn = compare_native(fn, ns, xs, tol, out)
        if bad: out['obs'].append((nm, 'violation', dict(obligation=pr, native=bad['native']), dict(kind='native call', input=bad['input'])))
        elif w is None or kn: out['obs'].append((nm, 'undecided', 'no native values', None))
        elif st == 'ok' and w * 2.6 <= 1: out['obs'].append((nm, 'proved', None, None))
        elif st == 'ok': out['obs'].append((nm, 'bounded', 'node error %.2g of the tolerance: bound from the nodes alone insufficient' % w, None))
        else: out['obs'].append((nm, 'undecided', '%s (%s)' % (pr[:2], st), None))
    out['functions'] = S.executed(); return out


def cells(name, fn, ns, cl, deg, tol, block, tag=''):
    return [dict(fn=cell_task, cell=(fn, ns, cl[k:k + block], deg, tol, tag), cost=50) for k in range(0, len(cl), block)]


def native_sample_task(task):
    fn, ns, xs, tol, lib, name = task['ns']; out = dict(obs=[], safety=0, native=0, notes=[], functions=[])
    w, bad, kn = compare_native(fn, ns, xs, tol, out, native.build_native(True) if lib else None)
    if bad: out['obs'].append((name, 'violation', dict(native=bad['native']), dict(kind='native call', input=bad['input'])))
    elif w is None: out['obs'].append((name, 'undecided', 'no native values', None))
    else: out['obs'].append((name, 'bounded', '%d arguments, worst error %.2g of the tolerance' % (len(xs), w), None))
    if kn: out['known'] = kn
    return out


def nsample(name, fn, ns, xs, tol, lib=None): return dict(fn=native_sample_task, ns=(fn, ns, xs, tol, lib, name), cost=100)


# ---- closed forms and recurrences
def cd(x): v = Val(); dvlib.L.dv_const(float(x), C.byref(v)); return v2f(v)


def e_boys_asym(S, nmax, x0):
    x = S.sym('x', x0, True); v = eng_eval(S, 'boys_values', list(range(nmax + 1)), x); s = S.R.sqrt(x); pr = []
    for n in range(nmax + 1): pr += fdiff('F_%d' % n, f2v(v[n]), F.lift(Fr(spec.dfact(2 * n - 1), 2 ** (n + 1))) * S.R.sqrt(S.R.pi()) / (x ** n * s))
    return pr


def e_bessel_asym(S, nmax, x0):
    x = S.sym('x', x0, True); pr = []
    for n in range(nmax + 1):
        e = F.lift(0)
        for k in range(n + 1):
            c = Fr(math.factorial(n + k), math.factorial(k) * math.factorial(n - k) * 2 ** k); e = e + cd(float(c)) * (-1) ** k / x ** k
        pr += fdiff('K_%d' % n, S.call('modified_bessel_scaled', n, x), e / (2 * x))
    return pr


def e_fermi_tail(S, x0, terms):
    x = S.sym('x', x0); E = S.R.exp(x); pr = []
    for k in range(2, 8): pr += fdiff('S_%d' % k, S.call('specfunc_fermi_sk', k, x), sum((F.lift(Fr((-1) ** n, n ** k)) * E ** n for n in range(1, terms + 1)), F.lift(0)))
    return pr


def e_partial(S, fn, args, term, kmax, x0, name, kmin=1):
    """the result is a partial sum of the defining series"""
    x = S.sym('x', x0); v = v2f(S.call(fn, *[x if a == 'x' else a for a in args])); s = F.lift(0); t = term(S, x)
    for k in range(kmax):
        s = s + t(k)
        if k >= kmin and s == v: return []
    return ['%s: not a partial sum of the defining series' % name]


def t_fermi_model(k):
    def f(S, x): E = S.R.exp(x); return lambda n: F.lift(Fr((-1) ** (n + 1), (n + 1) ** k)) * E ** (n + 1)
    return f


def t_daw_power(S, x): return lambda j: x * (x * x * -2) ** j * F.lift(Fr(1, spec.dfact(2 * j + 1)))
def t_daw_asym(S, x): return lambda j: F.lift(Fr(spec.dfact(2 * j - 1))) / (x * x * 2) ** j / (2 * x)


def e_gfun_down(S, n, x0):
    """x <= 12: g_n is a partial sum of its series, the others follow by the recurrence"""
    x = S.sym('x', x0, True); g = eng_eval(S, 'gfun_values', list(range(n + 1)), x); pr = []; E = S.R.exp(-x); s = F.lift(0); ok = 0; t = E
    for k in range(100):
        s = s + t / (2 * n + 2 * k + 1); t = t * x / (k + 1)
        if s == g[n]: ok = k + 1; break
    if not ok: pr.append('G_%d is not a partial sum of its series' % n)
    for m in range(n, 0, -1):
        if not (g[m - 1] * (2 * m - 1) == F.lift(1) - 2 * x * g[m]): pr.append('recurrence G_%d from G_%d fails' % (m - 1, m))
    return pr


def e_gfun_up(S, n, x0):
    x = S.sym('x', x0, True); calls = []
    def daw(S, a): calls.append(v2f(a[0])); return S.R.uf('dawson', [v2f(a[0])], float(funcref.dawson(math.sqrt(x0))))
    if not S.contract('Dawsons_Integral', daw): raise Unsupported('no Dawsons_Integral')
    g = eng_eval(S, 'gfun_values', list(range(n + 1)), x); s = S.R.sqrt(x); pr = []
    if not (g[0] == S.R.uf('dawson', [s]) / s): pr.append('G_0 is not daw(sqrt x)/sqrt x')
    for m in range(n):
        if not (g[m + 1] * 2 * x == F.lift(1) - g[m] * (2 * m + 1)): pr.append('recurrence G_%d from G_%d fails' % (m + 1, m))
    return pr


def around(x, k=3):
    o = [x]; a = b = x
    for _ in range(k): a = math.nextafter(a, -1e300); b = math.nextafter(b, 1e300); o += [a, b]
    return o + [x * (1 - 1e-9), x * (1 + 1e-9), x * (1 - 1e-5), x * (1 + 1e-5)]


def C14():
    chk = Check('C14'); S = session(); T = []; r = random.Random(SEED); quick = TIER == 'quick'
    ub = lambda lo, hi, n: [r.uniform(lo, hi) for _ in range(n)]
    if S.has('pretabulate_bessel'): S.call('pretabulate_bessel')
    else: S.call('libgrpp_init')
    dvlib.L.dv_clear_events()
    # Boys function
    NB = list(range(25)); tb = 1e-13
    bc = [(max(0.0, 0.1 * i - 0.05), min(30.0, 0.1 * i + 0.05)) for i in range(301)]
    T += cells('boys', 'boys_values', NB, bc, 6, tb, 12)
    for x0 in (30.5, 31., 95., 2000., 1e7): T.append(scen('Boys asymptotic form at any x > 30 (path of x=%g)' % x0, e_boys_asym, dict(nmax=32, x0=x0)))
    T.append(nsample('Boys function around the switch and over the range', 'boys_values', list(range(33)), around(30.0) + around(0.05) + ub(0, 30, 60) + ub(30, 33, 20) + [10 ** r.uniform(1.5, 12) for _ in range(40)] + [0.0, 1e-300, 1e-20, 1e-8] + [k * 0.1 + 0.05 for k in range(0, 300, 17)], tb))
    T.append(nsample('single Boys function', 'boys_function', list(range(33)), [0.0, .03, 7.77, 29.99999, 30.0, 30.01, 1e4], tb))
    T.append(nsample('Boys function under the address sanitizer', 'boys_values', list(range(34)), [0.0, 0.04999, 29.949, 29.951, 30.0, 30.0000001, 1e5], tb, True))
    # modified spherical Bessel functions
    NK = list(range(22)); tk = 5e-13
    kc = [(max(1e-7, 0.01 * i - 0.005), min(16.0, 0.01 * i + 0.005)) for i in range(1601)]
    T += cells('bessel', 'modified_bessel_scaled', NK, kc, 4, tk, 40)
    T += cells('bessel', 'modified_bessel_scaled', NK, [(0.0, 1e-7)], 3, tk, 1)
    for x0 in (16.2, 18., 25., 400., 1e6): T.append(scen('asymptotic form of K_n at any x > 16 (path of x=%g)' % x0, e_bessel_asym, dict(nmax=22, x0=x0)))
    T.append(nsample('K_n around the switches and over the range', 'modified_bessel_scaled', NK, around(16.0) + around(1e-7) + around(0.005) + ub(0, 16, 60) + ub(16, 20, 30) + ub(20, 100, 20) + [10 ** r.uniform(2, 8) for _ in range(20)] + [10 ** r.uniform(-30, -1) for _ in range(30)] + [0.0], 1e-12))
    T.append(nsample('K_n under the address sanitizer', 'modified_bessel_scaled', list(range(40)) , [0.0, 1e-7, 2e-7, 0.0049, 0.0051, 15.9949, 15.9951, 16.0], 1e-10, True))
    # G_n
    tg = 1e-10
    for n in (list(range(0, 25, 3)) + [22]):
        for x0 in ((0.003, 2.1, 11.7) if quick else (0.003, 0.5, 2.1, 5., 8., 10.5, 11.7)): T.append(scen('G_n series and downward recurrence, n<=%d (path of x=%g)' % (n, x0), e_gfun_down, dict(n=n, x0=x0)))
    for x0 in (12.3, 40., 1e4): T.append(scen('G_n upward recurrence from Dawson (path of x=%g)' % x0, e_gfun_up, dict(n=24, x0=x0)))
    for n in (0, 1, 3, 6, 10, 14, 18, 22): T.append(nsample('G_n, n<=%d, around the switch and over the range' % n, 'gfun_values', list(range(n + 1)), around(12.0) + ub(0, 12, 25) + ub(12, 60, 20) + [10 ** r.uniform(1.2, 9) for _ in range(10)] + [0.0, 1e-300, 1e-12, 1e-6], tg))
    T.append(nsample('G_n under the address sanitizer', 'gfun_values', list(range(25)), [0.0, 1.0, 12.0, 12.01, 1e5], tg, True))
    # Dawson
    dc = [(1.0, 1.75), (1.75, 2.5), (2.5, 3.25), (3.25, 4.25), (4.25, 5.5), (5.5, 7.25)]
    for c in dc: T += cells('dawson', 'Dawsons_Integral', None, [c], 40, 1e-14, 1)
    for x0 in (0.0001, 0.1, 0.3, 0.5, 0.8, 0.99, -0.4): T.append(scen('Dawson power series (path of x=%g)' % x0, e_partial, dict(fn='Dawsons_Integral', args=['x'], term=t_daw_power, kmax=80, x0=x0, name='Dawson', kmin=0)))
    for x0 in (7.3, 8., 10., 30., 1000.): T.append(scen('Dawson asymptotic series (path of x=%g)' % x0, e_partial, dict(fn='Dawsons_Integral', args=['x'], term=t_daw_asym, kmax=60, x0=x0, name='Dawson', kmin=0)))
    T.append(nsample('Dawson integral around the switches and over the range', 'Dawsons_Integral', None, sum([around(x) for x in (1., 1.75, 2.5, 3.25, 4.25, 5.5, 7.25)], []) + ub(0, 8, 200) + ub(8, 100, 20) + [10 ** r.uniform(2, 8) for _ in range(10)] + [0.0, -1.3, -0.2, 1e-10, -8.], 1e-14))
    # Fermi S_k
    ks = list(range(2, 8)); tf = 4e-11
    fc = [(-10.0 + 0.005 * i, -10.0 + 0.005 * (i + 1)) for i in range(2000)]
    T += cells('fermi', 'specfunc_fermi_sk', ks, fc, 3, tf, 50)
    for x0, n in ((-10.5, 3), (-13.9, 3), (-14.5, 2), (-29., 2), (-31., 1), (-200., 1)): T.append(scen('S_k tail with %d terms (path of x=%g)' % (n, x0), e_fermi_tail, dict(x0=x0, terms=n)))
    T.append(nsample('S_k around the switches and over the range', 'specfunc_fermi_sk', ks, around(-10.) + around(-14.) + around(-30.) + ub(-10, 0, 60) + ub(-40, -10, 20) + [0.0, -1e-9, -1e-300, -0.005, -700., -1e4], tf))
    T.append(nsample('S_k under the address sanitizer', 'specfunc_fermi_sk', ks, [0.0, -1e-12, -0.0049, -9.9999, -10.0, -1e5], tf, True))
    if S.has('fermi_model_Sk'):
        for k in range(2, 8):
            for x0 in (-30., -9., -2.): T.append(scen('fermi_model_Sk partial sum, k=%d (path of x=%g)' % (k, x0), e_partial, dict(fn='fermi_model_Sk', args=[k, 'x'], term=t_fermi_model(k), kmax=200, x0=x0, name='S_%d' % k, kmin=0)))
        T.append(nsample('fermi_model_Sk over the range', 'fermi_model_Sk', ks, ub(-60, -0.5, 40) + [-0.3, -1e3], 3e-12))
    res = run_tasks(chk, T, chk.t0 + (500 if quick else 3000))
    kn = sum(t.get('known', 0) for t in res if t); listed = [l for l in open(os.path.join(dvlib.VERIF, 'known_findings.txt')) if l.startswith('finding: property=C14 bessel-dropped-exponential')]
    if kn and listed: chk.known.append('modified_bessel_scaled(n >= 10, 16 < x < 19) omits the exp(-2x) term of its closed form (%d sampled arguments)' % kn)
    elif kn: chk.violation('K_n for 16 < x < 19', 'the exp(-2x) term is missing', dict(kind='native call', input=dict(function='modified_bessel_scaled', order=20, x=16.05)))
    chk.assumptions = ['inside one table cell every argument takes the same path (the cell index is a monotone function of x); arguments at and next to every cell boundary are evaluated on the compiled library',
                       'truncation remainders: Boys degree 6 on cells of 0.1 below 2e-16, K_n degree 4 on cells of 0.01 below 1e-14, S_k degree 3 on cells of 0.005 below 6e-14 (derivative bounds of the exact functions); Boys tail beyond x=30 below 2e-14',
                       'values at the nodes and around switches come from the compiled library (double precision) and multiprecision references', 'G_n and Dawson series: the truncation depth is that of the sampled path; between sampled paths native samples only (bounded)',
                       'tolerances (absolute): Boys 1e-13, K_n 5e-13, G_n 1e-10, Dawson 1e-14, S_k 4e-11']
    return chk
