"""C06, C07: semilocal (type-2) and spin-orbit integrals."""
from verify import *
from scen import *
import math
import semi, spec, checks_func, rshspec


def e_sum(S, so, cases_):
    """the sum over projections, against the contract of the angular integral"""
    fn = 'type3_angular_sum' if so else 'type2_angular_sum'
    pr = []; dvlib.L.dv_zero_tests(1)
    for (L, l1, a, b, c, l2, d, e, f) in cases_:
        cp = S.checkpoint(); semi.ENV.clear(); semi.ENV['rows'] = {}
        dirs = semi.ENV['dirs'] = {nm: [S.sym(nm + x, v) for x, v in zip('xyz', (.3, .4, -.2))] for nm in 'AB'}
        S.contract('angular_type2_integral', semi.c_ang2); rows = []
        for nm, lam in (('A', l1), ('B', l2)): rows.append(S.ptr(S.reals([semi.svalue(S.R, nm, lam, m) for m in range(2 * lam + 1)], 'rsh ' + nm)))
        exp = semi.angsum(S.R, L, ('A', l1, a, b, c), ('B', l2, d, e, f), so)
        if so:
            M = [S.ptr(S.reals(m, 'lmat')) for m in rshspec.lmat(S.R, L)]; o = S.garbage(3, 'sums')
            p, _, _ = frame_call(S, fn, L, *M, l1, a, b, c, rows[0], l2, d, e, f, rows[1], S.ptr(o), S.ptr(o, 8), S.ptr(o, 16)); got = [v2f(S.read(o, 8 * k)) for k in range(3)]
        else:
            k = [S.ptr(S.reals(dirs[nm], 'k' + nm)) for nm in 'AB']; p, r, _ = frame_call(S, fn, L, l1, a, b, c, k[0], l2, d, e, f, k[1], rows[0], rows[1]); got = [v2f(r)]
        pr += p + ['%s(L=%d, %s) differs' % (fn, L, (l1, a, b, c, l2, d, e, f)) for x, y in zip(got, exp) if x.v != y.v]
        if semi.fail(): pr.append(semi.fail())
        S.undo(cp); S.uncontract()
        if pr: break
    dvlib.L.dv_zero_tests(0); return pr


def subset(r, L, k):
    n = cases.nsize(L); c = spec.carts(L)
    return sorted(r.sample(range(n), min(n, k)))


def small_comp(r, L, k):
    """components with few monomials below them"""
    c = spec.carts(L); n = sorted(range(len(c)), key=lambda j: ((c[j][0] + 1) * (c[j][1] + 1) * (c[j][2] + 1), r.random())); return sorted(n[:k])


def high(kind, LA, LB, L, k):
    """fixed inputs at a distance where the integrals are of order one and the library is accurate to 1e-9"""
    r = random.Random(k); u = [r.gauss(0, 1) for _ in range(3)]; n = math.sqrt(sum(x * x for x in u)); d = r.uniform(2.2, 3.2); o = [x * d / n for x in u]
    sh = lambda L, o: dict(L=L, origin=o, coeffs=[1.0], alpha=[round(r.uniform(.6, 1.2), 4)])
    A = sh(LA, o); B = sh(LB, [x + r.uniform(-.5, .5) for x in o])
    return dict(kind=kind, cfg=dict(LA=LA, LB=LB, L=L), tag='high %d' % k, cost=1e9, q=dict(A=A, B=B, C=[0.0] * 3, atol=1e-7, pot=dict(L=L, J=0, powers=[2], coeffs=[1.0], alpha=[.7])))


def plan(chk, kind):
    so = kind == 'spin_orbit'; T = []; r = random.Random(SEED); quick = TIER == 'quick'
    for L in range(3):
        for LA, LB in pairs(range(3)):
            c = dict(LA=LA, LB=LB, L=L); cost = (2 * L + 1) ** (4 if so else 3) * (LA + 1) ** 4 * (LB + 1) ** 4
            T.append(dict(kind=kind, cfg=c, cost=cost))
            for g in ('AB', 'AC', 'BC', 'ABC'):
                if LA + LB + L < 5 or g == 'ABC': T.append(dict(kind=kind, cfg=dict(c, geom=g), cost=cost / 2))
            for ax in ('z', 'xy', 'xz'):
                if LA + LB + L < 5: T.append(dict(kind=kind, cfg=dict(c, axis=ax), cost=cost / 3))
    for LA, LB, L in ((3, 1, 1), (1, 3, 2), (3, 2, 1), (0, 3, 3), (4, 0, 2), (0, 4, 1)): T.append(dict(kind=kind, cfg=dict(LA=LA, LB=LB, L=L), cost=5000))
    M = kind + '_mod'
    for L in range(11):
        for LA, LB in pairs(range(11)):
            s = LA + LB + L; c = dict(LA=LA, LB=LB, L=L, modular=1)
            if s <= 7 and max(LA, LB) <= 3: k = None
            elif LA <= 4 and LB <= 4 and L <= 4: k = 3
            elif (LA, LB, L) in ((10, 10, 10), (10, 0, 10), (0, 10, 10), (10, 3, 2), (3, 10, 2), (5, 5, 10)): k = 1
            elif r.random() < (0.04 if quick else 0.5): k = 2
            else: continue
            if k: c['sub'] = [subset(r, x, k) if x <= 5 else small_comp(r, x, k) for x in (LA, LB)]
            T.append(dict(kind=M, cfg=c, modular=True, cost=(3000 if s > 15 else 1) * s ** 2))
            if s <= 4 or r.random() < .1: T.append(dict(kind=M, cfg=dict(c, qzero=1 + r.randrange(3)), modular=True, cost=s))
            if s <= 3 or r.random() < .1: T.append(dict(kind=M, cfg=dict(c, geom=r.choice(['AB', 'AC', 'BC', 'ABC'])), modular=True, cost=s))
            if s <= 3 or r.random() < .1: T.append(dict(kind=M, cfg=dict(c, axis=r.choice(['x', 'yz', 'y', 'xy'])), modular=True, cost=s))
    if session().has('type3_angular_sum' if so else 'type2_angular_sum'):
        for L in range(11):
            cs = []
            for _ in range(6 if quick else 40):
                t = [r.randint(0, 10) for _ in range(2)]; q = []
                for n in t:
                    a = r.randint(0, n); b = r.randint(0, n - a); q += [r.choice([l for l in range(0, L + n + 1) if semi.allowed(l, L, n)]), a, b, n - a - b]
                cs.append((L, *q))
            T.append(scen('sum over projections, L=%d' % L, e_sum, dict(so=so, cases_=cs), cost=L))
    xs = [dict(LA=a, LB=b, L=l) for a, b, l in ((0, 0, 0), (1, 0, 1), (0, 1, 2), (1, 1, 1), (2, 0, 1), (0, 2, 2), (1, 2, 0))]
    T += extremes(kind, xs, 33 if quick else 330, kind)
    for L in range(3): T += [dict(kind=kind, cfg=dict(LA=L, LB=1, L=(L + 1) % 3, prim=1, primU=['n', 'e', 'd', 'n', 'e'], powers=[2, 0, 0, 1, 1]))]
    for L in range(3): T += aliased(kind, (0, 1, 2) if L < 2 else (0, 1), L=L)
    T += aliased(kind, (0, 1, 2), SEED, num=True, L=1)
    # bounded: the compiled library against numerical quadrature
    nat = [(0, 0, 0), (1, 0, 1), (1, 1, 1), (2, 1, 2), (1, 3, 1), (2, 2, 3), (0, 4, 2), (3, 3, 2), (5, 4, 4)]
    for k in range(36 if quick else 250):
        LA, LB, L = nat[k % 9]; c = dict(LA=LA, LB=LB, L=L, geom=list(cases.GEOMS)[(0, 1, 2, 0, 3, 4)[k % 6]]); mode = 'wide' if k % 4 == 3 else 'mid'
        T.append(dict(kind=kind, cfg=c, q=rand_q(kind, c, SEED * 77 + k, mode, 1 + (k // 9) % 3 if LA + LB < 6 else 1), tag='%s %d' % (mode, k), cost=1e5))
    T += linearity(kind, [dict(LA=a, LB=b, L=c) for a, b, c in ((0, 0, 1), (1, 1, 1), (2, 1, 2), (0, 3, 2))], SEED * 77, -20)
    T += [high(kind, *a, 1) for a in (((9, 0, 8), (0, 9, 9), (0, 10, 10), (8, 1, 4)) if not so else ((9, 0, 8), (0, 7, 10), (6, 1, 4)))]
    for k, (LA, LB, L) in enumerate(((6, 1, 3), (2, 6, 6), (7, 0, 10), (0, 10, 2)) + (() if quick else ((10, 10, 10), (8, 8, 3), (10, 4, 8)))):
        c = dict(LA=LA, LB=LB, L=L); T.append(dict(kind=kind, cfg=c, q=rand_q(kind, c, SEED * 77 + 900 + k, 'mid', 1), tag='high %d' % k, cost=1e8))
    return T


def semi_check(prop, kind):
    chk = Check(prop); checks_func.tables(session(), 22)
    run_tasks(chk, plan(chk, kind), chk.t0 + 480)
    chk.assumptions = ['radial integrals Q(l1,l2,n) are the contract of property C25 (opaque, symmetric function of the two functions); real spherical harmonics and angular integrals have their contracts of property C12 in the modular obligations (inlined for L, L_A, L_B <= 2)',
                       'for large angular momenta a random subset of the Cartesian components is verified (component list of the shell restricted)', 'screening thresholds (1e-13 .. 1e-16) are zero tests']
    return chk


def C06(): return semi_check('C06', 'type2')
def C07(): return semi_check('C07', 'spin_orbit')
