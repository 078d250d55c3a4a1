"""C08: outercore (non-local) integrals."""
import math
from fractions import Fraction as Fr
import numpy as np
from verify import *
from scen import *
import spec, semi, rshspec, checks_func, kinds
from kinds import Kind, setup_shells, nsize
from layout import View

ENV = {}


def bad(m): ENV.setdefault('bad', []).append(m)


# ------------------------------------------------------------------ contracts
def elems(S, p, n, real=True, size=8):
    """contents of an array: list, or ('sym', value) for one of symbolic length"""
    if dvlib.L.dv_obj_range(p.a) >= 0:
        w = Val()
        if dvlib.L.dv_sym_get(p.a, 0, size, C.byref(w)): return None
        return ('sym', dvlib.L.dv_obj_range(p.a), w.v if real else w.i)
    if n.kind != K_INT: return None
    return [(S.cread(p, size * k, size, real).v if real else S.cread(p, size * k, size, False).i) for k in range(n.i)]


def shell_content(S, p):
    v = View(S, 'libgrpp_shell_t', p); n = v.get('num_primitives')
    return (v.int('L'), str(elems(S, v.get('coeffs'), n)), str(elems(S, v.get('alpha'), n)))


def pot_content(S, p):
    v = View(S, 'libgrpp_potential_t', p); n = v.get('num_primitives')
    return (v.int('L'), v.int('J'), str(elems(S, v.get('powers'), n, False, 4)), str(elems(S, v.get('coeffs'), n)), str(elems(S, v.get('alpha'), n)))


def shell_id(S, p):
    p_ = ENV['p']
    for nm in 'AB':
        if (p.a, p.i) == (p_[nm]['ptr'].a, p_[nm]['ptr'].i): return nm
    c = shell_content(S, p); v = View(S, 'libgrpp_shell_t', p); o = [v.get('origin', k).v for k in range(3)]
    if c not in ENV['shells']: bad('integrals requested with a shell that is none of the arguments'); return '?'
    if o != [x.v for x in p_['C']]: bad('an outercore shell is not placed at the origin of the pseudopotential')
    return ENV['shells'][c]


def pot_id(S, p):
    c = pot_content(S, p)
    if c not in ENV['pots']: bad('integrals requested with a potential that is none of the arguments'); return '?'
    return ENV['pots'][c]


def clist(S, p):
    v = View(S, 'libgrpp_shell_t', p); n = v.int('cart_size'); cl = v.get('cart_list')
    return [tuple(S.cread(cl, 4 * (3 * k + d), 4, False).i for d in range(3)) for k in range(n)]


def elem(R, what, x, cx, y, cy):
    (a, ca), (b, cb) = sorted([(x, cx), (y, cy)])
    return R.uf('%s_%s%s_%s%s' % (what, a, ca, b, cb), [], 0.4 + .03 * ca[0] - .02 * cb[1] + .05 * cb[2] * ca[1])


def fill(S, what, a, b, out):
    x, y = shell_id(S, a), shell_id(S, b); cx, cy = clist(S, a), clist(S, b)
    for i, p in enumerate(cx):
        for j, q in enumerate(cy): S.cwrite(out, 8 * (i * len(cy) + j), elem(S.R, what, x, p, y, q))


def c_overlap(S, a):
    if len(a) != 3: return NotImplemented
    fill(S, 'S', a[0], a[1], a[2]); return None


def c_type1(S, a):
    if len(a) != 5: return NotImplemented
    if [S.cread(a[2], 8 * k).v for k in range(3)] != [x.v for x in ENV['p']['C']]: bad('local potential integrals at another origin')
    fill(S, 'U%s' % pot_id(S, a[3]), a[0], a[1], a[4]); return None


def dval(R, x, y, u): a, b = sorted((x, y)); return R.uf('delta_%s_%s_%s' % (a, b, u), [], 0.7)


def c_delta(S, a):
    if len(a) != 3 or a[0].kind != K_PTR: return NotImplemented
    return dval(S.R, shell_id(S, a[0]), shell_id(S, a[1]), pot_id(S, a[2]))


def contracts(S):
    ENV.clear(); S.contract('libgrpp_is_initialized', lambda S, a: S.int(1)); S.contract('libgrpp_overlap_integrals', c_overlap); S.contract('libgrpp_type1_integrals', c_type1)


def contracts_mod(S): contracts(S); S.contract('analytic_one_center_rpp_integral_contracted', c_delta)
def contracts_inl(S): ENV.clear(); kinds.type1_contracts(S)


# ------------------------------------------------------------------ symbolic set-up
def setup_oc(S, inp, cfg):
    ENV.pop('bad', None); p, q = setup_shells(S, inp, cfg); C_ = p['C'] = inp.point('C'); p['oc'] = []; q.update(C=[c.x for c in C_], oc=[])
    shells, pots = [], []; ENV.update(p=p, shells={}, pots={}, inl=cfg.get('inl'))
    for k, (L, J, pw) in enumerate(cfg['oc']):
        pr = cfg.get('primO', cfg.get('prim', 'sym'))
        if not cfg.get('inl'): inp.groups = {}
        inp.geom = dict(inp.geom, **{'O%d' % k: 'D%d' % k}); sh = inp.shell('O%d' % k, L, pr); po = inp.pot('U%d' % k, L, J, cfg.get('primU', pr), pw)
        shells.append(sh['ptr']); pots.append(po['ptr']); p['oc'].append((po, sh)); q['oc'].append((po['native'], sh['native']))
        ENV['shells'].setdefault(shell_content(S, sh['ptr']), 'O%d' % k); ENV['pots'].setdefault(pot_content(S, po['ptr']), str(k))
    a = [p['A']['ptr'], p['B']['ptr'], S.ptr(S.reals(C_, 'origin C')), S.int(len(shells)), S.ptr(S.ptrs(pots, 'potentials')), S.ptr(S.ptrs(shells, 'outercore shells'))]
    return 'libgrpp_outercore_potential_integrals', p, a, q


# ------------------------------------------------------------------ specification
def radnorm(R, L, a):
    """N with int (N r^L exp(-a r^2))^2 r^2 dr = 1: fourth root of the square of 2^(2L+7/2) a^(L+3/2) / ((2L+1)!! sqrt(pi))"""
    return R.sqrt(R.sqrt(R.lift(Fr(2) ** (4 * L + 7) / Fr(spec.dfact(2 * L + 1)) ** 2) / R.pi() * a ** (2 * L + 3)))


def rad_int(R, m, a):
    """int_0^inf r^m exp(-a r^2) dr"""
    if m % 2: k = (m - 1) // 2; return R.lift(Fr(math.factorial(k), 2)) / a ** (k + 1)
    k = m // 2; return R.lift(Fr(spec.dfact(2 * k - 1), 2 ** (k + 1))) / a ** k * R.sqrt(R.pi() / a)


def delta_spec(R, L, f, g, U):
    t = R.lift(0)
    for wa, ca, a in f['terms']:
        for wb, cb, b in g['terms']:
            for wu, cu, z, n in U['terms']: t = t + wa * wb * wu * ca * cb * cu * radnorm(R, L, a) * radnorm(R, L, b) * rad_int(R, 2 * L + n, a + b + z)
    return t


def sph(R, L):
    """real solid harmonics of the normalised radial function in terms of the normalised Cartesian components: {m: [(comp, coef)]}"""
    f = R.sqrt(R.lift(Fr(4, spec.dfact(2 * L + 1))) * R.pi())
    return [[(c, f * rshspec.norm(R, L, m) * R.lift(v)) for c, v in rshspec.poly(L, m).items()] for m in range(-L, L + 1)]


def oc_terms(R, p, name):
    """S[k][comp][m], U[k][comp][m] for the shell `name`"""
    X = p[name]; inl = ENV.get('inl'); ids = lambda k: ENV['shells'][ENV['sc'][k]] ; out = []
    for k, (po, sh) in enumerate(p['oc']):
        L = sh['L']; T = sph(R, L); cx = spec.carts(X['L']); cl = spec.carts(L)
        if inl:
            Fs = spec.special(R); O = dict(sh, origin=p['C'])
            s = cases.contract(X, O, lambda a, b: [spec.overlap_prim(R, X['L'], L, a, b, X['origin'], p['C'])])[0]
            u = cases.contract(X, O, lambda a, b, t: [spec.type1_prim(R, X['L'], L, a, b, X['origin'], p['C'], p['C'], t[2], t[3], Fs)], po['terms'])[0]
            g = lambda M, i, c: M[i * len(cl) + cl.index(c)]
            mk = lambda M: [[sum((f * g(M, i, c) for c, f in T[m]), R.lift(0)) for m in range(2 * L + 1)] for i in range(len(cx))]
            out.append((mk(s), mk(u)))
        else:
            o = p['ids'][k]; mk = lambda w: [[sum((f * elem(R, w, X['name'], ci, o[0], c) for c, f in T[m]), R.lift(0)) for m in range(2 * L + 1)] for ci in cx]
            out.append((mk('S'), mk('U' + o[1])))
    return out


def oc_spec(R, p, ab):
    p['ids'] = [(ENV['shells'].get(shell_content(R.S, sh['ptr'])), ENV['pots'].get(pot_content(R.S, po['ptr']))) for po, sh in p['oc']]
    tA, tB = oc_terms(R, p, 'A'), oc_terms(R, p, 'B'); nA, nB = nsize(p['A']['L']), nsize(p['B']['L']); out = [[R.lift(0)] * (nA * nB) for _ in range(4)]
    def mul(X, Y, M=None):
        """X[i][m] (M[m][m'] or 1) Y[j][m']"""
        r = []
        if M is not None:
            n = len(X[0]); nz = [(i, j, M[i * n + j]) for i in range(n) for j in range(n) if not M[i * n + j].is0()]
        for x in X:
            if M is not None:
                z = [R.lift(0)] * n
                for i, j, e in nz: z[j] = z[j] + x[i] * e
                x = z
            for y in Y: r.append(sum((a * b for a, b in zip(x, y)), R.lift(0)))
        return r
    def acc(L, J, f, X, Y):
        w = R.lift(Fr(L, 2 * L + 1) if J < 2 * L else Fr(L + 1, 2 * L + 1)); ws = R.lift(Fr(-2 if J < 2 * L else 2, 2 * L + 1)); lm = rshspec.lmat(R, L)
        for t, (wt, M) in enumerate([(w, None)] + [(ws, M) for M in lm]): out[t] = [o + f * wt * e for o, e in zip(out[t], mul(X, Y, M))]
    for k, (po, sh) in enumerate(p['oc']):
        L, J = sh['L'], po['J']; acc(L, J, R.lift(1), tA[k][0], tB[k][1]); acc(L, J, R.lift(1), tA[k][1], tB[k][0])
        for j, (po2, sh2) in enumerate(p['oc']):
            if (po2['L'], po2['J']) != (po['L'], po['J']): continue
            if ENV.get('mod'): d = R.lift(Fr(1, 2)) * (dval(R, p['ids'][k][0], p['ids'][j][0], p['ids'][k][1]) + dval(R, p['ids'][k][0], p['ids'][j][0], p['ids'][j][1]))
            else: d = R.lift(Fr(1, 2)) * (delta_spec(R, L, sh, sh2, po) + delta_spec(R, L, sh, sh2, po2))
            acc(L, J, -d, tA[k][0], tB[j][0])
    return out


# ------------------------------------------------------------------ numerical reference
def radn(L, a): return 2 ** (L + 1.75) * a ** (L / 2 + .75) / math.sqrt(spec.dfact(2 * L + 1)) / math.pi ** .25


def proj_su(sh, Cc, po, oc, n=40, der=None):
    """<m f|chi>, <m f U|chi> for the radial function f of the outercore shell: arrays [comp, m]"""
    t = semi.ncomps(sh); L = oc['L']; S = np.zeros((len(t), 2 * L + 1)); U = S * 0; d = semi.dist(sh['origin'], Cc); a_ = [S * 0, S * 0]
    for c, a in zip(sh['coeffs'], sh['alpha']):
        E = semi.expand(t, a, der); mm = sorted({m for e in E for _, m in e}); TA = np.array([[sum(c_ for c_, m in e if m == x) for x in mm] for e in E])
        for co, al in zip(oc['coeffs'], oc['alpha']):
            k = c * co * semi.gnorm(sh['L'], a) * radn(L, al)
            for ov, zs, cu, pw in [(1, 0.0, 1.0, 2)] + [(0, *x) for x in zip(po['alpha'], po['coeffs'], po['powers'])]:
                p = a + al + zs; r, w = semi.rgrid(a * d / p, p, n, (d,)); g = semi.project(Cc, sh['origin'], a, mm, [L], r)[L] @ TA.T
                f = w * r ** (L + pw) * np.exp(-(al + zs) * r * r); v = k * cu * np.einsum('r,rmc->cm', f, g); av = abs(k * cu) * np.einsum('r,rmc->cm', f, abs(g))
                if ov: S += v; a_[0] += av
                else: U += v; a_[1] += av
    return S, U, a_[0], a_[1]


def oc_oracle(q, derA=None, derB=None):
    Cc = q['C']; oc = q['oc']; A = [proj_su(q['A'], Cc, po, sh, der=derA) for po, sh in oc]; B = [proj_su(q['B'], Cc, po, sh, der=derB) for po, sh in oc]
    nA, nB = len(semi.ncomps(q['A'])), len(semi.ncomps(q['B'])); out = [np.zeros((nA, nB)) for _ in range(4)]; sc = [0.0] * 4
    def rad(L, f, g, U):
        t = ta = 0.0
        for a, ca in zip(f['alpha'], f['coeffs']):
            for b, cb in zip(g['alpha'], g['coeffs']):
                for z, cu, n in zip(U['alpha'], U['coeffs'], U['powers']):
                    m = 2 * L + n; x = ca * cb * cu * radn(L, a) * radn(L, b) * math.gamma((m + 1) / 2) / (2 * (a + b + z) ** ((m + 1) / 2)); t += x; ta += abs(x)
        return t, ta
    def acc(L, J, f, X, Y, aX, aY):
        w = L / (2 * L + 1) if J < 2 * L else (L + 1) / (2 * L + 1); ws = (-2 if J < 2 * L else 2) / (2 * L + 1)
        for t, (wt, M) in enumerate([(w, np.eye(2 * L + 1))] + [(ws, M) for M in semi.lmats(L)]): out[t] += f[0] * wt * X @ M @ Y.T; sc[t] += float((abs(f[1] * wt) * aX @ abs(M) @ aY.T).max())
    for k, (po, sh) in enumerate(oc):
        L, J = sh['L'], po['J']; acc(L, J, (1, 1), A[k][0], B[k][1], A[k][2], B[k][3]); acc(L, J, (1, 1), A[k][1], B[k][0], A[k][3], B[k][2])
        for j, (po2, sh2) in enumerate(oc):
            if (po2['L'], po2['J']) != (po['L'], po['J']): continue
            d1, d2 = rad(L, sh, sh2, po), rad(L, sh, sh2, po2); acc(L, J, (-.5 * (d1[0] + d2[0]), .5 * (d1[1] + d2[1])), A[k][0], B[j][0], A[k][2], B[j][2])
    return [m.reshape(-1).tolist() for m in out], sc


def num_oc(q, cfg, point, shell, pot, sm):
    q['C'] = list(point('C')); q['oc'] = []
    for k, (L, J, pw) in enumerate(cfg['oc']): q['oc'].append((pot(L, J, pw if isinstance(pw, list) else None), shell('O%d' % k, L, 'D%d' % k)))


def fail(): return '; '.join(ENV['bad'][:3]) if ENV.get('bad') else None


def mod_setup(S, inp, cfg): r = setup_oc(S, inp, cfg); ENV['mod'] = True; return r
def plain_setup(S, inp, cfg): r = setup_oc(S, inp, cfg); ENV['mod'] = False; return r


def oc_atol(q):
    """products of contraction coefficients below 1e-13 may be screened out"""
    x = 1.0
    for nm in 'AB': x *= (1 + sum(abs(a - c) for a, c in zip(q[nm]['origin'], q['C']))) ** q[nm]['L']
    return 3e-12 * x


for nm, su, con in (('outercore', plain_setup, contracts), ('outercore_mod', mod_setup, contracts_mod), ('outercore_inl', plain_setup, contracts_inl)):
    K_ = Kind(nm, 4, su, oc_spec, None, con, native='outercore', numeric=num_oc, tol=1e-9); K_.oracle = oc_oracle; K_.atol = oc_atol; K_.fail = fail


# ------------------------------------------------------------------ radial one-centre integrals
def e_delta(S, L, n, same):
    """contract of analytic_one_center_rpp_integral_contracted(bra, ket, pot)"""
    inp = cases.Inp(S, 'gen', cases.Sample(3)); f = inp.shell('A', L, 'sym'); g = inp.shell('B', L, 'sym'); U = inp.pot('U', L, 2 * L + 1, 'sym', n)
    pr, v, _ = frame_call(S, 'analytic_one_center_rpp_integral_contracted', f['ptr'], g['ptr'], U['ptr'])
    return pr + fdiff('one-centre radial integral', v, delta_spec(S.R, L, f, g, U))


def n_delta(lib, L, n, a, b, z):
    """<f|U|f> from a one-shell outercore evaluation is checked by the oracle; here the scalar helper if it exists"""
    try: f = lib.l.analytic_one_center_rpp_integral_primitive
    except AttributeError: return []
    f.restype = C.c_double; v = f(C.c_int(L), C.c_double(a), C.c_double(b), C.c_int(n), C.c_double(z)); m = 2 * L + n; e = math.gamma((m + 1) / 2) / (2 * (a + b + z) ** ((m + 1) / 2))
    return [] if abs(v - e) <= 1e-12 * e else ['one-centre radial integral (L=%d, n=%d, %g, %g, %g) is %.16g, expected %.16g' % (L, n, a, b, z, v, e)]


def C08():
    chk = Check('C08'); session(); checks_func.tables(session(), 22); T = []; r = random.Random(SEED); quick = TIER == 'quick'
    J = lambda L, s: 2 * L + s if L else 1
    for L in range(11):
        for s in (1, -1):
            if L == 0 and s < 0: continue
            for LA, LB in ((0, 0), (1, 2), (2, 1)) + (((4, 4),) if L < 5 else ()) + (((0, 3), (3, 3)) if L < 4 else ()):
                c = dict(LA=LA, LB=LB, oc=[(L, J(L, s), 2)], prim='sym'); cost = (L + 1) ** 4 * (LA + 1) * (LB + 1) * 3
                T.append(dict(kind='outercore_mod', cfg=c, modular=True, cost=cost))
            for n in (0, 1, 2): T.append(dict(kind='outercore', cfg=dict(LA=1, LB=1, oc=[(L, J(L, s), n)], prim=1), cost=(L + 1) ** 4))
    two = [[(1, 3, 2), (1, 3, 1)], [(1, 3, 1), (1, 1, 2)], [(0, 1, 1), (0, 1, 2)], [(2, 5, 1), (2, 5, 1), (2, 3, 1)], [(0, 1, 1), (1, 1, 1), (1, 3, 1), (2, 3, 1)], [], [(3, 7, 1), (1, 3, 1), (3, 7, 2)]]
    for oc in two:
        for LA, LB in ((0, 0), (1, 0), (0, 2), (1, 1)) + (() if quick else ((3, 2), (2, 4))):
            T.append(dict(kind='outercore_mod', cfg=dict(LA=LA, LB=LB, oc=oc, prim='sym'), modular=True, cost=2000)); T.append(dict(kind='outercore', cfg=dict(LA=LA, LB=LB, oc=[(a, b, 1) for a, b, _ in oc], prim=2), cost=1000))
    for LA, LB in ((0, 0), (1, 0), (0, 1), (1, 1)):
        for oc in ([(0, 1, 1)], [(1, 3, 1)], [(1, 1, 2)], [(1, 3, 1), (1, 3, 1)]):
            for g in ('gen', 'AB', 'AC', 'BC', 'ABC'):
                if g == 'gen' or LA + LB: T.append(dict(kind='outercore_inl', cfg=dict(LA=LA, LB=LB, oc=oc, inl=1, prim=1, geom=g), cost=5000))
    if session().has('analytic_one_center_rpp_integral_contracted'):
        for L in range(11):
            for n in (0, 1, 2): T.append(scen('one-centre radial integral of contracted shells, L=%d, n=%d, any number of primitives' % (L, n), e_delta, dict(L=L, n=n, same=False), n_delta, [(L, n, .7, 1.3, .4), (L, n, 40.0, .02, 3.0)]))
    xs = [dict(LA=a, LB=b, wprim=1, oc=[(0, 1, 1)] if k % 2 else [(1, 3, 2), (1, 1, 1)]) for k, (a, b) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1), (2, 0)))]
    T += extremes('outercore', xs, 33 if quick else 330, 'outercore')
    for oc in ([(1, 3, 1)], [(0, 1, 1), (1, 1, 2)]): T += aliased('outercore', (0, 1, 2), oc=oc)
    T += aliased('outercore', (0, 1, 2), SEED, num=True, oc=[(1, 3, 0)])
    nat = [[(1, 3, 0)], [(0, 1, 0)], [(2, 3, 0), (2, 5, 0)], [(1, 1, 0), (1, 1, 0)], [], [(3, 7, 0), (0, 1, 0), (3, 7, 0)], [(4, 9, 0)], [(2, 5, 0), (2, 5, 0), (1, 3, 0)]]
    for k in range(32 if quick else 200):
        LA, LB = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (2, 2), (3, 1)][k % 7]; c = dict(LA=LA, LB=LB, oc=nat[k % 8], geom=list(cases.GEOMS)[(0, 1, 2, 0, 3, 4)[k % 6]])
        T.append(dict(kind='outercore', cfg=c, q=rand_q('outercore', c, SEED * 77 + k, 'wide' if k % 5 == 3 else 'mid', 1 + (k // 8) % 2), tag=str(k), cost=1e4))
    for LA, LB, oc in ((5, 4, [(6, 13, 0)]), (6, 2, [(10, 19, 0)])) + (() if quick else ((10, 10, [(10, 21, 0)]),)):
        c = dict(LA=LA, LB=LB, oc=oc); T.append(dict(kind='outercore', cfg=c, q=rand_q('outercore', c, SEED * 77 + 900, 'mid', 1), tag='high', cost=1e8))
    T += linearity('outercore', [dict(LA=a, LB=b, oc=[(1, 3, 0)]) for a, b in ((0, 0), (1, 1), (2, 1))], SEED * 77, -20)
    run_tasks(chk, T, chk.t0 + 480)
    chk.assumptions = ['overlap and local-potential integrals have their contracts of C01 and C04 (opaque, symmetric functions of the two shells) in all obligations but the inlined ones; Boys function of C14', 'two-shell obligations with symbolic numbers of primitives use the contract of the one-centre radial integral, proved separately for two distinct shells']
    return chk
