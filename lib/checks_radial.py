"""C25: radial integral tables (type 1 and type 2)."""
import math
import numpy as np
from scipy import special as sps
from verify import *
from scen import *
import spec, semi
from fractions import Fraction as Fr
from cases import Inp
from layout import View, layout

I, D, P = C.c_int, C.c_double, C.c_void_p


# ------------------------------------------------------------------ reference functions
def kbes(l, x):
    """exp(-x) i_l(x) (numpy array x >= 0)"""
    x = np.asarray(x, float); y = np.where(x < .3, 1.0, x); big = sps.ive(l + .5, y) * np.sqrt(np.pi / (2 * y)); t = s = np.ones_like(x)
    z = np.minimum(x, 1.0)
    for k in range(1, 9): t = t * z * z / (2 * k * (2 * l + 2 * k + 1)); s = s + t
    return np.where(x < .3, np.exp(-x) * x ** l / float(spec.dfact(2 * l + 1)) * s, big)


def c_bessel(S, a):
    """contract of modified_bessel_scaled (C14)"""
    if len(a) != 2 or a[0].kind != K_INT or a[1].kind != K_REAL: return NotImplemented
    return bes(S.R, a[0].i, v2f(a[1]))


def bes(R, l, x):
    if x.is0(): return F(1, 1, 1.0) if l == 0 else F(0, 0)
    return R.uf('bes%d' % l, [x], float(kbes(l, max(0.0, x.x))))


def c_shrink(S, a): return None if dvlib.L.dv_obj_range(View(S, 'libgrpp_shell_t', a[0]).get('alpha').a) >= 0 else NotImplemented


def c_shrink_pot(S, a):
    """contract of libgrpp_shrink_potential for generic (non-zero) coefficients: an equal copy"""
    v = View(S, 'libgrpp_potential_t', a[0])
    if dvlib.L.dv_obj_range(v.get('alpha').a) < 0: return NotImplemented
    return S.call('libgrpp_new_potential', v.get('L'), v.get('J'), v.get('num_primitives'), v.get('powers'), v.get('coeffs'), v.get('alpha'))


def log3(R, nr):
    """points and weights of the Log3 rule, R=5, with nr points"""
    out = []
    for i in range(1, nr + 1):
        x = Fr(i, nr + 1); x3 = x * x * x; ln = R.log(R.lift(1 - x3))
        out.append((-5 * ln, R.lift(3 * 125 * x * x / ((1 - x3) * (nr + 1))) * ln * ln))
    return out


_RULE = {}


def rule(R, nr):
    k = (id(R), R.S.salt if hasattr(R, 'S') else 0, nr)
    if k not in _RULE: _RULE[k] = log3(R, nr)
    return _RULE[k]


def level_check(nm, got, terms, levels, tol, accept=()):
    """terms(nr): (value, shadow sum, shadow scale) of the full rule; levels the refinements in order"""
    prev = None; ok = []
    for nr in levels:
        v, x, sc = terms(nr)
        if got.v == v.v:
            if v.v == 0 and x == 0: return []
            if nr == levels[-1] or prev is not None and abs(x - prev) <= tol + 1e-13 * sc: return []
            return ['%s is taken at %d points where successive refinements differ by %.2g' % (nm, nr, abs(x - prev) if prev is not None else abs(x))]
        prev = x
    for a in accept:
        if got.v == F.lift(a).v: return []
    return ['%s (%.12g) is not the value of the rule at any refinement (%.12g at %d points)' % (nm, got.x, prev, levels[-1])]


# ------------------------------------------------------------------ type 2, engine
def e_rad2(S, LA=0, LB=0, l1=1, l2=1, nmax=1, prim='sym', powers=2, screen='fail', centre='gen', seed=0, maxlev=8191):
    S.contract('modified_bessel_scaled', c_bessel)
    if prim == 'sym': S.contract('libgrpp_shell_shrink', c_shrink); S.contract('libgrpp_shrink_potential', c_shrink_pot)
    inp = Inp(S, 'gen', cases.Sample(seed)); R = S.R
    A = inp.shell('A', LA, prim); B = inp.shell('B', LB, prim); U = inp.pot('U', 1, 1, prim, powers)
    z = F(0, 0); CA = z if centre in ('A', 'AB') else S.sym('CA', 0.8, True); CB = z if centre in ('B', 'AB') else S.sym('CB', 1.1 if centre != 'far' else 30.0, True)
    scr = S.sym('screened', {'fail': 0.5, 'big': 0.3, 'tiny': 3e-17, 'ratio': 1e12}[screen])
    def c_screen(S, a):
        S.cwrite(a[8], 0, scr); return S.int(1 if screen == 'fail' else 0)
    S.contract('screening_radial_type2', c_screen)
    dvlib.L.dv_clear_events(); mark = dvlib.L.dv_nobj(); dvlib.L.dv_frame_check(1)
    try: t = S.call('tabulate_radial_type2_integrals', l1, l2, nmax, CA * CA, CB * CB, U['ptr'], A['ptr'], B['ptr'])
    finally: dvlib.L.dv_frame_check(0)
    pr = ['%s in %s line %s: %s' % (e['kind'], e['func'], e['line'], e['msg']) for e in S.events() if e['kind'] in ('FRAME', 'OOB', 'UNINIT', 'FREE', 'UAF')]
    got = {(a, b, n): v2f(S.call('get_radial_type2_integral', t, a, b, n)) for a in range(l1 + 1) for b in range(l2 + 1) for n in range(nmax + 1)}
    S.call('delete_radial_type2_integrals', t)
    if S.live(mark): pr.append('memory is not released')
    CA, CB = (x if x.is0() else R.sqrt(x * x) for x in (CA, CB))   # the same root in both components
    norm = lambda sh: [(w * c * spec.norm(R, al, sh['L']), al) for w, c, al in sh['terms']]
    TA, TB = norm(A), norm(B)
    if centre == 'AB':
        for (a, b, n), g in got.items():
            e = z
            if a == 0 and b == 0:
                for ca, aa in TA:
                    for cb, ab in TB:
                        for w, c, zeta, pw in U['terms']: e = e + ca * cb * w * c * gauss_int(R, pw + n, aa + ab + zeta)
            pr += fdiff('Q(%d,%d,%d), one centre' % (a, b, n), g, e)
        return pr
    levels = [31]
    while levels[-1] * 2 + 1 <= 8191: levels.append(levels[-1] * 2 + 1)
    cols = {}
    def column(nr):
        if nr not in cols:
            rows = []
            for r, w in rule(R, nr):
                f = []
                for lmax, T, CX in ((l1, TA, CA), (l2, TB, CB)):
                    E = [c * R.exp(-(al * (r - CX) * (r - CX))) for c, al in T]; f.append([sum((e * bes(R, l, 2 * al * CX * r) for e, (c, al) in zip(E[1:], T[1:])), E[0] * bes(R, l, 2 * T[0][1] * CX * r)) for l in range(lmax + 1)])
                u = sum((wt * c * r ** (pw - 2) * R.exp(-(zeta * r * r)) for wt, c, zeta, pw in U['terms']), z)
                rows.append((w * u, f[0], f[1], r))
            cols[nr] = rows
        return cols[nr]
    for (a, b, n), g in got.items():
        def terms(nr):
            s = z; sc = 0.0
            for u, f1, f2, r in column(nr):
                t = u * f1[a] * f2[b] * r ** n; s = s + t; sc += abs(t.x)
            return s, s.x, sc
        q = 'Q(%d,%d,%d)' % (a, b, n)
        if screen == 'tiny':
            if g.v == scr.v or g.v == 0: continue
        lv = levels
        if screen == 'ratio':
            p = level_check(q, g, terms, [8191], 0, ())
            if p: pr += ['with a large estimate: ' + p[0]]
        else: pr += level_check(q, g, terms, [x for x in lv if x <= maxlev] if maxlev else lv, 1e-16)
        if pr: break
    return pr


def gauss_int(R, n, a):
    """int_0^inf r^n exp(-a r^2) dr"""
    if n % 2: return R.lift(Fr(math.factorial((n - 1) // 2), 2)) / a ** ((n + 1) // 2)
    return R.lift(Fr(spec.dfact(n - 1), 2 ** (n // 2 + 1))) / a ** (n // 2) * R.sqrt(R.pi() / a)


# ------------------------------------------------------------------ type 2, native
def radial2(q):
    """all Q(l1,l2,n) and natural scales"""
    out = {}; A, B, U = q['A'], q['B'], q['pot']
    for ca, aa in zip(A['coeffs'], A['alpha']):
        for cb, ab in zip(B['coeffs'], B['alpha']):
            for cu, ze, pw in zip(U['coeffs'], U['alpha'], U['powers']):
                p = aa + ab + ze; r0 = (aa * q['CA'] + ab * q['CB']) / p; r, w = semi.rgrid(r0, p, 40, (q['CA'], q['CB'])); k = ca * cb * cu * semi.gnorm(A['L'], aa) * semi.gnorm(B['L'], ab)
                f = w * r ** pw * np.exp(-ze * r * r - aa * (r - q['CA']) ** 2 - ab * (r - q['CB']) ** 2)
                KA = [kbes(l, 2 * aa * q['CA'] * r) for l in range(q['l1'] + 1)]; KB = [kbes(l, 2 * ab * q['CB'] * r) for l in range(q['l2'] + 1)]
                for a in range(q['l1'] + 1):
                    for b in range(q['l2'] + 1):
                        for n in range(q['n'] + 1):
                            v = k * float(np.sum(f * KA[a] * KB[b] * r ** n)); o = out.setdefault((a, b, n), [0.0, 0.0]); o[0] += v; o[1] += abs(v)
    return out


def n_rad2(lib, q):
    l = lib.l; f = l.tabulate_radial_type2_integrals; f.restype = P; f.argtypes = [I, I, I, D, D, P, P, P]; g = l.get_radial_type2_integral; g.restype = D; g.argtypes = [P, I, I, I]
    z = [0.0, 0.0, 0.0]; A = lib.shell(dict(q['A'], origin=z)); B = lib.shell(dict(q['B'], origin=z)); U = lib.pot(q['pot'])
    t = f(q['l1'], q['l2'], q['n'], q['CA'] ** 2, q['CB'] ** 2, U, A, B); pr = []
    ref = radial2(q)
    for (a, b, n), (e, sc) in ref.items():
        v = g(t, a, b, n)
        if not abs(v - e) <= 2e-11 * sc + 2e-14 * max(1.0, ref[0, 0, n][1]): pr.append('Q(%d,%d,%d) is %.15g, expected %.15g (scale %.2g)' % (a, b, n, v, e, sc))
    h = l.delete_radial_type2_integrals; h.argtypes = [P]; h.restype = None; h(t)
    return pr[:4]


def rad2_input(seed, mode, nprim, l1, l2, n, kind='gen'):
    sm = cases.Sample(seed, mode); r = sm.r
    sh = lambda nm: dict(L=r.randint(0, 4), coeffs=[sm.coef(nm) for _ in range(nprim)], alpha=[sm.alpha(nm) for _ in range(nprim)])
    q = dict(A=sh('A'), B=sh('B'), pot=dict(L=1, J=0, powers=[r.choice((0, 1, 2)) for _ in range(nprim)], coeffs=[sm.coef('U') for _ in range(nprim)], alpha=[sm.alpha('U') for _ in range(nprim)]), l1=l1, l2=l2, n=n,
             CA=round(r.uniform(.2, 3), 4), CB=round(r.uniform(.2, 3), 4))
    if kind == 'AC': q['CA'] = 0.0
    if kind == 'AB': q['CA'] = q['CB'] = 0.0
    if kind == 'sharp':     # narrow peaks away from the origin
        for s in 'AB': q[s]['alpha'] = [round(10 ** r.uniform(2, 4), 2) for _ in q[s]['alpha']]
        q['CB'] = q['CA'] = round(r.uniform(.5, 4), 4); q['pot']['alpha'] = [round(r.uniform(.05, 1), 3) for _ in q['pot']['alpha']]
    if kind == 'tiny': q['CA'] = 10 ** r.uniform(-9, -4); q['CB'] = round(10 ** r.uniform(-6, 0), 9)
    if q['CA'] < 1e-7 and q['CB'] < 1e-7: pass
    return q


# ------------------------------------------------------------------ type 1
def e_rad1(S, lmax=1, seed=0, maxlev=8191):
    """arbitrary potential function: contract of a Gaussian model potential through the library's own callback"""
    S.contract('modified_bessel_scaled', c_bessel); R = S.R
    sy = lambda nm, x: S.sym(nm, x, True)
    CA2, CB2, aA, aB, k, pre = sy('CA2', .7), sy('CB2', .4), sy('aA', .9), sy('aB', .6), sy('k', 1.1), sy('pre', 1.3); Z = sy('Z', 3.0); par = S.reals([Z], 'params')
    if not S.has('wrapper_coulomb_potential_point'): raise Unsupported('no potential function')
    fn = Val(); fn.kind = K_FUNC; fn.a = dvlib.L.dv_func(b'wrapper_coulomb_potential_point'); fn.i = fn.a
    S.contract('wrapper_coulomb_potential_point', lambda S, a: R.uf('V', [v2f(a[0]), v2f(S.cread(a[1], 0))], math.exp(-.5 * v2f(a[0]).x)))
    g = dvlib.L.dv_global(b'libgrpp_params')
    dvlib.L.dv_clear_events(); mark = dvlib.L.dv_nobj(); dvlib.L.dv_frame_check(1)
    try: t = S.call('tabulate_radial_type1_integrals', lmax, lmax, CA2, CB2, aA, aB, k, pre, fn, S.ptr(par))
    finally: dvlib.L.dv_frame_check(0)
    pr = ['%s in %s line %s: %s' % (e['kind'], e['func'], e['line'], e['msg']) for e in S.events() if e['kind'] in ('FRAME', 'OOB', 'UNINIT', 'FREE', 'UAF')]
    got = {(a, n): v2f(S.call('get_radial_type1_integral', t, a, n)) for a in range(lmax + 1) for n in range(lmax + 1)}
    S.call('delete_radial_type1_integrals', t)
    if S.live(mark): pr.append('memory is not released')
    tol = S.read(g, layout()['libgrpp_parameters_t']['radial_tolerance']).x if g >= 0 else 1e-16; cols = {}
    def column(nr):
        if nr not in cols: cols[nr] = [(w * pre * R.uf('V', [r, Z], math.exp(-.5 * r.x)) * R.exp(k * r - (aA + aB) * r * r - aA * CA2 - aB * CB2), [bes(R, l, k * r) for l in range(lmax + 1)], r) for r, w in rule(R, nr)]
        return cols[nr]
    for (a, n), v in got.items():
        def terms(nr):
            s = F(0, 0); sc = 0.0
            for u, f, r in column(nr):
                t = u * f[a] * r ** n; s = s + t; sc += abs(t.x)
            return s, s.x, sc
        pr += level_check('Q(%d,%d)' % (a, n), v, terms, [31, 63, 127, 255, 511, 1023, 2047, 4095, 8191], 1e-15)
        if pr: break
    return pr


def n_rad1(lib, q):
    """numerical table against direct quadrature, potential exp(-p r^2) r^m supplied through the callback"""
    l = lib.l; FT = C.CFUNCTYPE(D, D, P); m, p = q['m'], q['p']; cb = FT(lambda r, _: r ** m * math.exp(-p * r * r))
    f = l.tabulate_radial_type1_integrals; f.restype = P; f.argtypes = [I, I, D, D, D, D, D, D, FT, P]; g = l.get_radial_type1_integral; g.restype = D; g.argtypes = [P, I, I]
    t = f(q['l'], q['l'], q['CA2'], q['CB2'], q['aA'], q['aB'], q['k'], q['pre'], cb, None); pr = []; s = q['aA'] + q['aB'] + p; r0 = q['k'] / (2 * s); r, w = semi.rgrid(r0, s, 60)
    # type-1 integrals carry the volume element r^2 in N or in the weights: determined by n = N (+2 in the caller)
    for a in range(q['l'] + 1):
        for n in range(q['l'] + 1):
            e = q['pre'] * float(np.sum(w * r ** (m + n + 2) * np.exp(q['k'] * r - s * r * r - q['aA'] * q['CA2'] - q['aB'] * q['CB2']) * kbes(a, q['k'] * r))); v = g(t, a, n)
            if not abs(v - e) <= (1e-11 + 1e-15 * q['k'] * r0) * abs(e) + 1e-15: pr.append('Q(%d,%d) is %.15g, expected %.15g' % (a, n, v, e))
    h = l.delete_radial_type1_integrals; h.argtypes = [P]; h.restype = None; h(t)
    return pr[:4]


def C25():
    chk = Check('C25'); session(); T = []; r = random.Random(SEED); quick = TIER == 'quick'
    n2 = lambda *ks: [(rad2_input(SEED * 50 + k, mode, np_, a, b, n, kd),) for k, (mode, np_, a, b, n, kd) in enumerate(ks)]
    for pw in (0, 1, 2): T.append(scen('type-2 table, contracted functions, potential power %d' % pw, e_rad2, dict(powers=pw, l1=1, l2=2, nmax=1, seed=pw), n_rad2, n2(('mid', 2, 2, 3, 2, 'gen'), ('mid', 3, 1, 0, 3, 'gen')), cost=1e4))
    T.append(scen('type-2 table, orders up to 3', e_rad2, dict(l1=3, l2=2, nmax=3, LA=2, LB=1, seed=5), cost=1e5))
    T.append(scen('type-2 table, orders (0,3)', e_rad2, dict(l1=0, l2=3, nmax=2, LA=1, LB=3, seed=6), cost=1e4))
    T.append(scen('type-2 table, orders (4,0)', e_rad2, dict(l1=4, l2=0, nmax=0, LA=0, LB=0, seed=7), cost=1e4))
    T.append(scen('type-2 table, zero coefficients', e_rad2, dict(prim=['n', 'z', 'n'], powers=[0, 1, 2], seed=8), cost=1e4, bounded='three primitives'))
    for c in ('A', 'B', 'AB'):
        T.append(scen('type-2 table, operator on %s' % c, e_rad2, dict(centre=c, l1=2, l2=1, nmax=2, LA=1, LB=2, seed=9), n_rad2, n2(('mid', 2, 2, 2, 4, 'AC' if c != 'AB' else 'AB')), cost=1e4))
    T.append(scen('type-2 table, one-centre, many orders', e_rad2, dict(centre='AB', l1=3, l2=3, nmax=20, LA=1, LB=2, seed=9), n_rad2, n2(('mid', 2, 3, 3, 20, 'AB')), cost=1e3))
    for s in ('big', 'tiny'): T.append(scen('type-2 table, screening estimate %s' % s, e_rad2, dict(screen=s, seed=3), cost=1e4))
    T.append(scen('type-2 table, estimate much larger than the sum: finest grid', e_rad2, dict(screen='ratio', l1=0, l2=0, nmax=0, seed=3), n_rad2, [(rad2_input(SEED * 70 + k, 'mid', 1, 1, 1, 1, 'sharp'),) for k in range(24)], cost=1e6))
    for k in range(8 if quick else 40): T.append(scen('type-2 table [native %d]' % k, None, None, n_rad2, [(rad2_input(SEED * 90 + 10 * k + j, 'mid', 1 + j, r.randint(0, 12), r.randint(0, 6), r.randint(0, 10), kd),) for j, kd in enumerate(('gen', 'AC', 'gen'))], cost=2e4))
    T.append(scen('type-2 table, small distances [native]', None, None, n_rad2, [(rad2_input(SEED * 91 + j, 'mid', 1, 3, 3, 3, 'tiny'),) for j in range(6)]))
    T.append(scen('type-2 table under the address sanitizer', None, None, n_rad2, n2(('mid', 2, 3, 2, 4, 'gen'), ('mid', 2, 0, 5, 0, 'AC'), ('mid', 2, 2, 2, 3, 'AB')), lib='asan'))
    rq = lambda l: dict(l=l, CA2=r.uniform(0, 2), CB2=r.uniform(0, 2), aA=r.uniform(.2, 3), aB=r.uniform(.2, 3), k=r.uniform(0, 4), pre=r.uniform(.5, 2), m=r.choice((-1, 0, 1)), p=r.uniform(0, 2))
    T.append(scen('type-1 table, orders up to 1', e_rad1, dict(lmax=1), n_rad1, [(rq(l),) for l in (0, 1, 2, 5, 8)], cost=1e6))
    def sharp():
        # as narrow as the finest grid (8191 points) still resolves
        r0 = r.uniform(.5, 6); x3 = 1 - math.exp(-r0 / 5); h = 15 * x3 ** (2 / 3) / (1 - x3) / 8192; a = 10 ** r.uniform(-1.6, -.6) / h / h / 2
        return dict(l=1, CA2=r0 * r0, CB2=r0 * r0, aA=a, aB=a, k=4 * a * r0, pre=8 * a ** 1.5 * r.choice((1, 10, 1e-2, 1e-4, 1e-6, 1e-8)), m=0, p=0.0)
    T.append(scen('type-1 table, narrow integrands [native]', None, None, n_rad1, [(sharp(),) for _ in range(40)], cost=1e5))
    T.append(scen('type-1 table, order 0', e_rad1, dict(lmax=0), cost=1e5))
    if not quick: T.append(scen('type-1 table, orders up to 3', e_rad1, dict(lmax=3), n_rad1, [(rq(l),) for l in (10, 15, 20)], cost=1e7, timeout=300))
    T.append(scen('type-1 table under the address sanitizer', None, None, n_rad1, [(rq(l),) for l in (0, 3, 7)], lib='asan'))
    run_tasks(chk, T, chk.t0 + 480)
    chk.assumptions = ['modified_bessel_scaled has its contract (C14); screening estimates are arbitrary values of the estimator (their quality is only sampled natively)', 'the number of refinements is decided by the sampled values; each refinement level is verified as an identity',
                       'requires lambda_max = n_max for type-1 tables (the only way the library calls it)']
    return chk
