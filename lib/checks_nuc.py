"""C15: nuclear charge models; C05: nuclear attraction integrals."""
import math, random
from fractions import Fraction as Fr
from verify import *
from scen import *
import spec, semi, funcref, checks_func
import numpy as np
from cases import Inp
from layout import View

I, D, P = C.c_int, C.c_double, C.c_void_p


# ------------------------------------------------------------------ reference: the models from their densities
class Fermi:
    """potential, density and moments of rho0 (1 + k r^2/c^2) / (1 + exp((r-c)/a)), derived from the Poisson equation
    (r V)'' = 4 pi r rho, r V -> 0 at 0, r V -> -Z at infinity, C1 at r = c.  Sk(j, x) = sum (-1)^n exp(n x)/n^j"""

    def __init__(s, R, Sk, Z, c, a, k, zeta=None):
        s.R, s.Sk, s.Z, s.c, s.a = R, Sk, Z, c, a; s.K = k / (c * c); l = R.lift; pi2 = R.pi() * R.pi()
        s.S0 = {2: -pi2 / l(12), 4: -pi2 * pi2 * l(Fr(7, 720)), 6: -pi2 * pi2 * pi2 * l(Fr(31, 30240))}
        In, Out = s.poly(1), s.poly(-1); II = lambda p, g: s.integ(s.integ(p, g), g)
        s.in2, s.in1 = II(In, 1), s.integ(In, 1); s.out2, s.out1 = II(Out, -1), s.integ(Out, -1)
        c2 = c * c; s.alpha = -s.val(s.in2, 0, 1)
        s.beta = s.val(s.out1, c, -1) * -1 - c2 / l(2) - s.K * c2 * c2 / l(4) - s.val(s.in1, c, 1)
        s.D = Z / (-s.val(s.out2, c, -1) - s.inner(c)); s.rho0 = s.D / (l(4) * R.pi())

    def poly(s, g): return {(1, 0): s.R.lift(1), (3, 0): s.K}

    def integ(s, p, g):
        """antiderivative of sum coef r^m S_j(g (r-c)/a)"""
        out = {}
        for (m, j), q in p.items():
            f = s.a * s.R.lift(g)
            while True:
                j += 1; q = q * f; out[m, j] = out.get((m, j), s.R.lift(0)) + q
                if m == 0: break
                q = q * s.R.lift(-m); m -= 1
        return out

    def S(s, j, r, g):
        if r is s.c: return s.S0[j] if j in s.S0 else s.Sk(j, s.R.lift(0))
        return s.Sk(j, ((r - s.c) if g > 0 else (s.c - r)) / s.a)

    def val(s, p, r, g):
        r = r if r is s.c else s.R.lift(r); t = s.R.lift(0)
        zero = not isinstance(r, np.ndarray) and (isinstance(r, int) or (hasattr(r, 'is0') and r.is0()) or (not hasattr(r, 'is0') and r == 0))
        for (m, j), q in p.items():
            if zero and m: continue
            t = t + q * (r ** m if m else s.R.lift(1)) * s.S(j, r, g)
        return t

    def inner(s, r): return r * r * r / s.R.lift(6) + s.K * r ** 5 / s.R.lift(20) + s.val(s.in2, r, 1) + s.alpha + s.beta * r
    def V(s, r, inside): return s.D * s.inner(r) / r if inside else (-s.Z - s.D * s.val(s.out2, r, -1)) / r
    def moment(s, m):
        """int_0^inf r^m / (1 + exp((r-c)/a)) dr"""
        one = {(m, 0): s.R.lift(1)}; Ji, Jo = s.integ(one, 1), s.integ(one, -1)
        return s.c ** (m + 1) / s.R.lift(m + 1) + s.val(Ji, s.c, 1) - s.val(Ji, 0, 1) + s.val(Jo, s.c, -1)
    def rms2(s): return s.D / s.Z * (s.moment(4) + s.K * s.moment(6))
    def density(s, r): return s.rho0 * (1 + s.K * r * r) / (1 + s.R.exp((r - s.c) / s.a))


def sk_num(k, x):
    if x > -0.5: return float(funcref.fermi_sk(k, x, 30)) if False else float(sk_mp(k, x))
    t = 0.0
    for n in range(1, 90): t += (-1) ** n * math.exp(n * x) / n ** k
    return t


def sk_mp(k, x):
    import mpmath
    return mpmath.polylog(k, -mpmath.exp(mpmath.mpf(x)))


def c_sk(S, a):
    if len(a) != 2 or a[0].kind != K_INT or a[1].kind != K_REAL: return NotImplemented
    return sk_uf(S.R, a[0].i, v2f(a[1]))


def sk_uf(R, k, x): return R.uf('Sk%d' % k, [x], sk_num(k, min(0.0, x.x)))


MODELS = {'ball': ('R',), 'gaussian': ('R',), 'fermi': ('c', 'a'), 'fermi_bubble': ('c', 'a', 'k')}


def V_spec(R, Sk, model, Z, p, r, inside):
    l = R.lift
    if model == 'point': return -Z / r
    if model == 'ball':
        if not inside: return -Z / r
        R0 = R.sqrt(l(Fr(5, 3))) * p[0]; return -Z / (2 * R0) * (3 - r * r / (R0 * R0))
    if model == 'gaussian': return -Z / r * R.erf(R.sqrt(3 / (2 * p[0] * p[0])) * r)
    return Fermi(R, Sk, Z, p[0], p[1], p[2] if model == 'fermi_bubble' else l(0)).V(r, inside)


def rho_spec(R, Sk, model, Z, p, r, inside):
    l = R.lift
    if model == 'ball':
        R0 = R.sqrt(l(Fr(5, 3))) * p[0]; return 3 * Z / (4 * R.pi() * R0 * R0 * R0) if inside else l(0)
    if model == 'gaussian':
        xi = 3 / (2 * p[0] * p[0]); t = R.sqrt(xi / R.pi()); return Z * t * t * t * R.exp(-(xi * r * r))
    return Fermi(R, Sk, Z, p[0], p[1], p[2] if model == 'fermi_bubble' else l(0)).density(r)


def radius(model, p): return math.sqrt(5 / 3) * p[0] if model in ('ball', 'gaussian') else p[0]


# ------------------------------------------------------------------ C15 engine
def e_model(S, model, what, ratio, par=None, seed=0):
    """potential / density at r = ratio * (switching radius), everything symbolic"""
    S.contract('specfunc_fermi_sk', c_sk); R = S.R; r0 = random.Random(seed); num = par or {'R': 1.3, 'c': 2.1, 'a': 0.37, 'k': 0.8}
    p = [S.sym(n, num[n], True) for n in MODELS[model]]; Z = S.sym('Z', 7.0, True); r = S.sym('r', ratio * radius(model, [x.x for x in p]), True)
    fn = 'libgrpp_%s_%s' % ('coulomb_potential' if what == 'V' else 'charge_density', model)
    pr, g, _ = frame_call(S, fn, r, Z, *p); e = (V_spec if what == 'V' else rho_spec)(R, lambda j, x: sk_uf(R, j, x), model, Z, p, r, ratio < 1)
    return pr + fdiff(fn, g, e)


def e_lemma(S, bubble):
    """the reference itself: unit normalisation of the density it was derived for"""
    R = S.R; Z, c, a, k = (S.sym(n, x, True) for n, x in (('Z', 7.), ('c', 2.1), ('a', .37), ('k', .8)))
    f = Fermi(R, lambda j, x: sk_uf(R, j, x), Z, c, a, k if bubble else R.lift(0)); return fdiff('charge of the density', f2v(f.D * (f.moment(2) + f.K * f.moment(4))), Z)


def e_rms(S, model, Z):
    S.contract('specfunc_fermi_sk', c_sk); R = S.R; num = {'c': 2.1, 'a': 0.37, 'k': 0.8}; p = [S.sym(n, num[n], True) for n in MODELS[model]]
    pr, g, _ = frame_call(S, 'libgrpp_rms_radius_' + model, Z, *p); f = Fermi(R, lambda j, x: sk_uf(R, j, x), R.lift(Z), p[0], p[1], p[2] if len(p) > 2 else R.lift(0)); g = v2f(g)
    return pr + fdiff('square of the rms radius', f2v(g * g), f.rms2()) + ([] if g.x > 0 else ['the rms radius is not positive'])


def e_est(S, Rv):
    R = S.R; rr = S.sym('R_rms', Rv, True); o = [S.garbage(1, n) for n in 'ca']; pr, g, _ = frame_call(S, 'libgrpp_estimate_fermi_model_parameters', rr, S.ptr(o[0]), S.ptr(o[1]))
    a = R.lift(Fr(23, 10)) / (4 * R.log(R.lift(3))); c2 = R.lift(Fr(5, 3)) * rr * rr - R.lift(Fr(7, 3)) * R.pi() * R.pi() * a * a
    pr += idiff('return value', g, -1 if c2.x < 0 else 1)
    if c2.x >= 0:
        pr += fdiff('a', S.read(o[1], 0), a); c = v2f(S.read(o[0], 0)); pr += fdiff('c*c', f2v(c * c), c2) + ([] if c.x > 0 else ['c is not positive'])
    return pr


# ------------------------------------------------------------------ C15 native
def ref_fermi(Z, c, a, k, dps=40):
    import mpmath
    R = MPRing(dps); m = mpmath.mpf; return Fermi(R, lambda j, x: mpmath.polylog(j, -mpmath.exp(x)) if x > -60 else -mpmath.exp(x), m(Z), m(c), m(a), m(k))


def n_model(lib, model, Z, p, rs, tol):
    R = MPRing(40); pr = []; mp = R.m.mpf; np_ = len(p); vs = getattr(lib.l, 'libgrpp_coulomb_potential_' + model); ds = getattr(lib.l, 'libgrpp_charge_density_' + model)
    for f in (vs, ds): f.restype = D; f.argtypes = [D] * (2 + np_)
    F = ref_fermi(Z, p[0], p[1], p[2] if np_ > 2 else 0) if 'fermi' in model else None; r0 = radius(model, p)
    for r in rs:
        ins = r <= r0; v, d = vs(r, Z, *p), ds(r, Z, *p)
        if F: ev, ed = float(F.V(mp(r), ins)), float(F.density(mp(r)))
        else: q = [mp(x) for x in p]; ev, ed = float(V_spec(R, None, model, mp(Z), q, mp(r), ins)), float(rho_spec(R, None, model, mp(Z), q, mp(r), ins))
        # density scale of a nucleus, potential scale Z/max(r, r0) with loss of digits at small r
        sv = abs(Z) / max(r, r0) * (1 + abs(p[2]) if np_ > 2 else 1); nn = 1 / abs(float(F.D) * r0 ** 3 / 3 / Z) if F else 1
        if not abs(v - ev) <= sv * (tol + 4e-15 * r0 / r / min(1, nn)): pr.append('potential(%s; r=%.17g, Z=%g, %s) is %.15g, expected %.15g' % (model, r, Z, p, v, ev))
        if not abs(d - ed) <= tol * 10 * max(abs(ed), 1e-30) + (1e-12 * abs(ed) * abs(r - r0) / p[1] if F else 0): pr.append('density(%s; r=%.17g, Z=%g, %s) is %.15g, expected %.15g' % (model, r, Z, p, d, ed))
    if F:
        f = getattr(lib.l, 'libgrpp_rms_radius_' + model); f.restype = D; f.argtypes = [I] + [D] * np_; g = f(int(Z), *p); e2 = float(F.rms2())
        if e2 > 0 and not abs(g - math.sqrt(e2)) <= 1e-11 * math.sqrt(e2): pr.append('rms radius(%s; %s) is %.15g, expected %.15g' % (model, p, g, math.sqrt(e2)))
    return pr[:4]


def n_poisson(lib, model, Z, p):
    """the compiled density and potential against each other: the potential is the integral of the density (Gauss-Legendre panels)"""
    np_ = len(p); vs = getattr(lib.l, 'libgrpp_coulomb_potential_' + model); ds = getattr(lib.l, 'libgrpp_charge_density_' + model); pr = []; r0 = radius(model, p)
    for f in (vs, ds): f.restype = D; f.argtypes = [D] * (2 + np_)
    if model == 'ball': cuts = [0, r0]
    elif model == 'gaussian': cuts = [x * r0 for x in (0, .25, .5, .75, 1, 1.5, 2, 2.5, 3, 4, 5, 7)]
    else: a = p[1]; cuts = sorted({0.0} | {max(0.0, r0 + j * a) for j in range(-40, 41)} | {r0 * j / 8 for j in range(9) if r0 * j / 8 < r0 - 40 * a} | {r0 + 45 * a})
    x, w = np.polynomial.legendre.leggauss(16); pts = []
    for lo, hi in zip(cuts, cuts[1:]):
        if hi > lo: pts += [((lo + hi) / 2 + t * (hi - lo) / 2, u * (hi - lo) / 2, lo) for t, u in zip(x, w)]
    rho = [(r, u, ds(r, Z, *p), lo) for r, u, lo in pts]; q = 4 * math.pi * sum(u * r * r * d for r, u, d, _ in rho)
    if not abs(q - Z) <= 1e-10 * abs(Z): pr.append('the density of %s %s integrates to %.14g, not %g' % (model, p, q, Z))
    for cut in cuts[1:]:
        inn = 4 * math.pi * sum(u * r * r * d for r, u, d, _ in rho if r < cut); out = 4 * math.pi * sum(u * r * d for r, u, d, _ in rho if r > cut); e = -(inn / cut + out); v = vs(cut, Z, *p)
        if not abs(v - e) <= 1e-9 * abs(Z) / max(cut, r0) * (1 + r0 / cut * 1e-4): pr.append('potential of %s %s at r=%.10g is %.13g, the density gives %.13g' % (model, p, cut, v, e))
    if 'fermi' in model:
        f = getattr(lib.l, 'libgrpp_rms_radius_' + model); f.restype = D; f.argtypes = [I] + [D] * np_; g = f(int(Z), *p); e = math.sqrt(max(0.0, 4 * math.pi * sum(u * r ** 4 * d for r, u, d, _ in rho) / Z))
        if e > 0 and not abs(g - e) <= 1e-9 * e: pr.append('rms radius of %s %s is %.13g, the density gives %.13g' % (model, p, g, e))
    return pr[:4]


def n_cont(lib, model, Z, p):
    """continuity at the switch"""
    vs = getattr(lib.l, 'libgrpp_coulomb_potential_' + model); vs.restype = D; vs.argtypes = [D] * (2 + len(p)); r0 = radius(model, p); v = [vs(r0 * (1 + e), Z, *p) for e in (-1e-13, -1e-15, 0, 1e-15, 1e-13)]
    return ['potential of %s %s jumps at r=%.10g: %s' % (model, p, r0, v)] if max(v) - min(v) > (2e-9 if 'fermi' in model else 1e-12) * max(map(abs, v)) * (1 + (abs(p[2]) if len(p) > 2 else 0)) else []


def n_est(lib, Rs):
    pr = []; f = lib.l.libgrpp_estimate_fermi_model_parameters; f.argtypes = [D, P, P]; f.restype = I; a0 = 2.3 / (4 * math.log(3))
    for r in Rs:
        c, a = D(native.GARB), D(native.GARB); g = f(r, C.byref(c), C.byref(a)); c2 = 5 / 3 * r * r - 7 / 3 * math.pi ** 2 * a0 * a0
        if abs(c2) < 1e-9: continue
        if g != (-1 if c2 < 0 else 1): pr.append('estimate(%g) returns %d' % (r, g))
        elif c2 > 0 and not (abs(a.value - a0) < 1e-13 and abs(c.value - math.sqrt(c2)) < 1e-12 * (1 + 1 / c2)): pr.append('estimate(%g) gives c=%.15g a=%.15g' % (r, c.value, a.value))
        elif c2 > 0:
            h = lib.l.libgrpp_rms_radius_fermi; h.restype = D; h.argtypes = [I, D, D]; b = c.value / a0
            if b > 3 and not abs(h(50, c.value, a.value) - r) <= 3 * math.exp(-b) * r + 12 * r * b ** -4 / 1: pr.append('the rms radius of the estimated parameters is %.12g, requested %.12g' % (h(50, c.value, a.value), r))
    return pr[:4]


def n_radius(lib, As):
    pr = []
    for nm, s, t in (('johnson_1985', .836, .570), ('golovko_2008', .77, .98)):
        f = getattr(lib.l, 'libgrpp_estimate_nuclear_rms_radius_' + nm); f.restype = D; f.argtypes = [I]
        for A in As:
            v, e = f(A), s * A ** (1 / 3) + t
            if not abs(v - e) <= 1e-13 * e: pr.append('%s(%d) is %.15g, expected %.15g' % (nm, A, v, e))
    return pr[:4]


def params(r, model):
    fm = r.choice((1.0, 1.8897261e-5)) if r.random() < .7 else 10 ** r.uniform(-6, 1); c = r.uniform(2, 8) * fm
    if model in ('ball', 'gaussian'): return (c,)
    a = c / 10 ** r.uniform(.2, 1.6)
    if model == 'fermi': return (c, a)
    return (c, a, r.choice((0.0, 1.0, -.5, 2.5, r.uniform(-.4, 3))))


def C15():
    chk = Check('C15'); session(); T = []; r = random.Random(SEED); quick = TIER == 'quick'
    for m in MODELS:
        def pick(n): return [params(r, m) for _ in range(n)]
        rs = lambda p: sorted({radius(m, p) * x for x in (1e-3, .01, .1, .5, .9, 1, 1.1, 1.5, 2, 5, 50, 1e4)} | {radius(m, p) * (1 + s * 10 ** -e) for s in (-1, 1) for e in (1.5, 3, 6, 9, 12, 15)} | {radius(m, p) * r.uniform(0.01, 2.5) for _ in range(8)})
        tol = 2e-9 if 'fermi' in m else 1e-13
        nat = [(m, float(r.choice((1, 8, 57, 80, 114))), p, rs(p), tol) for p in pick(6 if quick else 60)]
        for k, q in enumerate((.3, .97, 1.02, 2.4)):
            T.append(scen('potential of %s %s the switching radius' % (m, 'inside' if q < 1 else 'outside') + ' (r=%g)' % q, e_model, dict(model=m, what='V', ratio=q), n_model, nat[k % len(nat):][:2]))
            T.append(scen('density of %s %s the switching radius' % (m, 'inside' if q < 1 else 'outside') + ' (r=%g)' % q, e_model, dict(model=m, what='rho', ratio=q), n_model, nat[k % len(nat):][:2]))
        T.append(scen('%s [native]' % m, None, None, n_model, nat))
        T.append(scen('%s: density against potential [native]' % m, None, None, n_poisson, [(m, float(r.choice((1, 8, 57, 114))), p) for p in pick(6 if quick else 60)]))
        T.append(scen('%s: continuity [native]' % m, None, None, n_cont, [(m, 50.0, p) for p in pick(30)]))
    for m in ('fermi', 'fermi_bubble'):
        T.append(scen('lemma: the reference %s density carries the charge Z' % m, e_lemma, dict(bubble=m != 'fermi')))
        for Z in (1, 57): T.append(scen('rms radius of %s, Z=%d' % (m, Z), e_rms, dict(model=m, Z=Z)))
    for Rv in (0.5, 1.5, 1.9, 2.1, 5.0, 40.0): T.append(scen('estimated Fermi parameters, R_rms=%g' % Rv, e_est, dict(Rv=Rv), n_est, [([Rv, Rv * 1.01],)]))
    T.append(scen('estimated Fermi parameters [native]', None, None, n_est, [([r.uniform(.1, 9) for _ in range(60)],)]))
    T.append(scen('radius estimates [native, all mass numbers to 400]', None, None, n_radius, [(list(range(1, 401)),)]))
    run_tasks(chk, T, chk.t0 + 300)
    chk.assumptions = ['the function S_k (specfunc_fermi_sk) has its contract of property C14', 'exp, erf, sqrt, log, pow of the C library are exact', 'for a bubble the normalisation factor is positive (k not so negative that the density integrates to 0)']
    return chk


# ================================================================== C05
import kinds
from kinds import Kind, setup_shells, nsize
MODEL_ID = {'point': 0, 'ball': 1, 'gaussian': 2, 'fermi': 3, 'fermi_bubble': 4, 'point_numerical': 5}
NPAR = {'point': 0, 'ball': 1, 'gaussian': 1, 'fermi': 2, 'fermi_bubble': 3, 'point_numerical': 0}
ENV = {}


def bad(m): ENV.setdefault('bad', []).append(m)


def c_vmodel(model):
    def f(S, a):
        if len(a) != 2 + (NPAR[model] if model != 'point' else 0): return NotImplemented
        return S.R.uf('V_' + model, [v2f(x) for x in a], -1.0 / (1 + abs(v2f(a[0]).x)))
    return f


def c_tab1(S, a):
    """contract of tabulate_radial_type1_integrals at this call: the arguments describe the given centres, exponents
    and the potential of the requested model; the result is the table of prefactor * Q(lambda, N)"""
    if len(a) != 10 or a[8].kind != K_FUNC: return NotImplemented
    p = ENV['p']; l, n = a[0].i, a[1].i; CA2, CB2, aA, aB, k, pre = [v2f(x) for x in a[2:8]]
    d = [[c - o for c, o in zip(p['C'], p[s]['origin'])] for s in 'AB']; kv = [-2 * (aA * x + aB * y) for x, y in zip(*d)]; sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    if l != n: bad('radial table with different maximal orders')
    if CA2.v != sq(d[0]).v or CB2.v != sq(d[1]).v: bad('wrong distances passed to the radial integrals')
    if (k * k).v != sq(kv).v or k.x < 0: bad('wrong |k| passed to the radial integrals')
    R = S.R; r = R.uf('probe', [], 0.7); m = p['model']; e = ENV.get('Vexp')
    if e is None: e = ENV['Vexp'] = R.uf('V_' + m.replace('_numerical', ''), [r, F.lift(p['Z'])] + p['par'], 0.0).v
    g = v2f(S.call(a[8].a if a[8].a else a[8].i, r, a[9]))
    if g.v != e: bad('the potential passed to the radial integrals is not that of the %s model with the given charge and parameters' % m)
    o = S.new(64, 'radial table'); ENV['tables'][o] = (l, n, aA, aB, pre); ENV['open'].add(o); return S.ptr(o)


def q1(R, aA, aB, l, n): return R.uf('Q1_%d_%d' % (l, n), sorted([aA, aB], key=lambda x: x.v), 0.4 * 0.8 ** l / (1 + n))


def c_get1(S, a):
    if len(a) != 3 or a[0].a not in ENV['tables']: return NotImplemented
    L, N, aA, aB, pre = ENV['tables'][a[0].a]; l, n = a[1].i, a[2].i
    if not (0 <= l <= L and 0 <= n <= N): bad('radial integral Q(%d,%d) requested outside the table' % (l, n))
    return pre * q1(S.R, aA, aB, l, n)


def c_del1(S, a):
    if len(a) != 1 or a[0].a not in ENV['open']: return NotImplemented
    ENV['open'].discard(a[0].a); return None


def om1(R, p, lam, i, j, k, u): return R.uf('om1_%d_%d_%d_%d' % (lam, i, j, k), list(u), 0.2 + .01 * i - .007 * lam) if (lam + i + j + k) % 2 == 0 and lam <= i + j + k else F(0, 0)


def c_ang1(S, a):
    """angular_type1_integral depends on the direction of k only (C12)"""
    if len(a) != 5 or a[4].kind != K_PTR: return NotImplemented
    k = [v2f(S.cread(a[4], 8 * t)) for t in range(3)]; l = a[0].i
    if all(x.is0() for x in k): return NotImplemented
    return om1(S.R, None, l, a[1].i, a[2].i, a[3].i, [F(x.v, 0, x.x) for x in k])


def fin_contracts(S, mod=False):
    ENV.clear(); ENV.update(tables={}, open=set())
    S.contract('libgrpp_is_initialized', lambda S, a: S.int(1))
    ok = [S.contract('tabulate_radial_type1_integrals', c_tab1), S.contract('get_radial_type1_integral', c_get1), S.contract('delete_radial_type1_integrals', c_del1)]
    for m in ('point', 'ball', 'gaussian', 'fermi', 'fermi_bubble'): S.contract('libgrpp_coulomb_potential_' + m, c_vmodel(m))
    if mod: S.contract('angular_type1_integral', c_ang1)


def setup_nuc(S, inp, cfg):
    ENV.clear(); ENV.update(tables={}, open=set()); p, q = setup_shells(S, inp, cfg); C_ = inp.point('C'); m = cfg.get('model', 'point'); p.update(C=C_, Z=cfg.get('Z', 7), model=m)
    p['par'] = [S.sym('par%d' % k, x, True) for k, x in zip(range(NPAR[m]), (0.6, 0.17, 0.4))]; par = S.reals(p['par'], 'model parameters') if p['par'] else None
    q.update(C=[c.x for c in C_], Z=p['Z'], model=MODEL_ID[m], params=[x.x for x in p['par']] or [0.0], mname=m); ENV['p'] = p
    return 'libgrpp_nuclear_attraction_integrals', p, [p['A']['ptr'], p['B']['ptr'], S.ptr(S.reals(C_, 'origin C')), S.int(p['Z']), S.int(MODEL_ID[m]), S.ptr(par) if par else S.null], q


def point_spec(R, p, ab):
    Fs = spec.special(R); A, B = p['A'], p['B']
    return cases.contract(A, B, lambda a, b, t: [spec.type1_prim(R, A['L'], B['L'], a, b, A['origin'], B['origin'], p['C'], R.lift(0), 1, Fs)], [(R.lift(-p['Z']), R.lift(1))], ab)


def point_mod_spec(R, p, ab):
    A, B = p['A'], p['B']; n = nsize(A['L']) * nsize(B['L'])
    return cases.contract(A, B, lambda a, b, t: [[[R.uf('mmd1_%d' % k, [a, b, R.lift(0)]) for k in range(n)]]], [(R.lift(-p['Z']), R.lift(1))], ab)


def binE(R, ca, cb, imax, jmax):
    """(x - A)^i (x - B)^j in powers of x - C"""
    pa, pb = spec.powers(ca, imax, R.lift(1)), spec.powers(cb, jmax, R.lift(1)); E = []
    for i in range(imax + 1):
        row = []
        for j in range(jmax + 1):
            e = [R.lift(0)] * (i + j + 1)
            for u in range(i + 1):
                for w in range(j + 1): e[u + w] = e[u + w] + math.comb(i, u) * math.comb(j, w) * pa[i - u] * pb[j - w]
            row.append(e)
        E.append(row)
    return E


def fin_prim(R, p, a, b, mod):
    import rshspec
    A, B, Cc = p['A'], p['B'], p['C']; LA, LB = A['L'], B['L']; N = LA + LB; d = [[c - o for c, o in zip(Cc, X['origin'])] for X in (A, B)]; kv = [-2 * (a * x + b * y) for x, y in zip(*d)]
    zero = all(x.is0() for x in kv); u = None if zero else ([F(x.v, 0, x.x) for x in kv] if mod else rshspec.unit(R, kv))
    T = [[[R.lift(0)] * (N + 1) for _ in range(N + 1)] for _ in range(N + 1)]
    for i in range(N + 1):
        for j in range(N + 1 - i):
            for k in range(N + 1 - i - j):
                n = i + j + k; t = R.lift(0)
                for lam in range(n % 2, n + 1, 2):
                    if zero and lam: continue
                    key = ('ang', lam, i, j, k, (kv[0].v, kv[1].v, kv[2].v))
                    if key not in ENV: ENV[key] = (R.lift(rshspec.mono(i, j, k)) if zero else om1(R, p, lam, i, j, k, u) if mod else rshspec.ang1(R, lam, i, j, k, u))
                    t = t + ENV[key] * q1(R, a, b, lam, n)
                T[i][j][k] = t
    M = spec.contract_E(R, [binE(R, d[0][c], d[1][c], LA, LB) for c in range(3)], T, LA, LB); f = 4 * R.pi() * spec.norm(R, a, LA) * spec.norm(R, b, LB)
    return [[f * e for e in row] for row in M]


def fin_spec(mod): return lambda R, p, ab: cases.contract(p['A'], p['B'], lambda a, b: [fin_prim(R, p, a, b, mod)])


# ------------------------------------------------------------------ C05 native reference
class NPR:
    numeric = True
    def lift(s, x): return x if isinstance(x, np.ndarray) else float(x)
    def pi(s): return math.pi
    def exp(s, x): return np.exp(np.minimum(x, 700.0))
    def sqrt(s, x): return np.sqrt(x)
    def erf(s, x):
        from scipy import special; return special.erf(x)
    def log(s, x): return np.log(x)


_ETA = {}


def sk_np(k, x):
    x = np.atleast_1d(np.asarray(x, float)); y = np.minimum(x, -1.0); out = sum((-1) ** n * np.exp(n * y) / n ** k for n in range(1, 45))
    if (x > -1).any():
        for m in range(k - 60, k + 1):
            if m not in _ETA: _ETA[m] = float(funcref.eta(m))
        t = np.ones_like(x); s = np.zeros_like(x); z = np.maximum(x, -1.0)
        for m in range(60): s -= _ETA[k - m] * t; t = t * z / (m + 1)
        out = np.where(x > -1, s, out)
    return out


def V_np(model, Z, p, r):
    R = NPR(); r = np.asarray(r, float)
    if model in ('point', 'point_numerical'): return -Z / r
    if model == 'gaussian': return V_spec(R, None, model, Z, p, r, True)
    if model == 'ball': return np.where(r <= radius(model, p), V_spec(R, None, model, Z, p, r, True), -Z / r)
    f = Fermi(R, sk_np, float(Z), p[0], p[1], p[2] if len(p) > 2 else 0.0); c = p[0]
    return np.where(r < c, f.V(np.minimum(r, c * (1 - 1e-15)), True), f.V(np.maximum(r, c * (1 + 1e-15)), False))


def local_matrix(q, V, cuts=()):
    """int chi_A chi_B V(|r - C|): spherical quadrature about C"""
    A, B, Cc = q['A'], q['B'], np.array(q['C'], float); tA, tB = semi.ncomps(A), semi.ncomps(B); out = np.zeros((len(tA), len(tB))); sc = 0.0
    oA, oB = np.array(A['origin'], float), np.array(B['origin'], float)
    for ca, aa in zip(A['coeffs'], A['alpha']):
        for cb, ab in zip(B['coeffs'], B['alpha']):
            p = aa + ab; Q = (aa * oA + ab * oB) / p; d = Q - Cc; R0 = np.linalg.norm(d); K = ca * cb * semi.gnorm(A['L'], aa) * semi.gnorm(B['L'], ab) * math.exp(-aa * ab / p * float(np.sum((oA - oB) ** 2)))
            r, w = semi.rgrid(R0, p, 40, tuple(cuts) + (R0,)); v = V(r) * w * r * r; fr = semi.frame(d); nph = A['L'] + B['L'] + 2; ph = 2 * math.pi * (np.arange(nph) + .5) / nph; x, gw = semi.gl(48)
            for rr, vv in zip(r, v):
                kap = 2 * p * rr * R0; lo = max(-1.0, 1 - 70.0 / kap) if kap > 0 else -1.0; edges = [1.0, 1 - (1 - lo) * .05, 1 - (1 - lo) * .25, lo] if kap > 1 else [1.0, lo]
                c = np.concatenate([(h + l) / 2 + (h - l) / 2 * x for h, l in zip(edges, edges[1:])]); wt = np.concatenate([(h - l) / 2 * gw for h, l in zip(edges, edges[1:])]); s = np.sqrt(np.maximum(0, 1 - c * c))
                U = fr.T @ np.array([np.outer(s, np.cos(ph)), np.outer(s, np.sin(ph)), np.outer(c, np.ones(nph))]).reshape(3, -1); g = np.repeat(wt * np.exp(kap * (c - 1)), nph) * (2 * math.pi / nph) * math.exp(-p * (rr - R0) ** 2) * vv
                X = rr * U + Cc[:, None]; PA = np.array([(X[0] - oA[0]) ** t[0] * (X[1] - oA[1]) ** t[1] * (X[2] - oA[2]) ** t[2] for t in tA]); PB = np.array([(X[0] - oB[0]) ** t[0] * (X[1] - oB[1]) ** t[1] * (X[2] - oB[2]) ** t[2] for t in tB])
                out += K * (PA * g) @ PB.T; sc += abs(K) * ((abs(PA) * abs(g)) @ abs(PB).T).max()
    return [out.reshape(-1).tolist()], [sc]


def nuc_oracle(q):
    v, sc = nuc_oracle_(q); tiny = 0.0; A, B = q['A'], q['B']      # products of coefficients below 1e-13 are skipped by the code
    for ca, aa in zip(A['coeffs'], A['alpha']):
        for cb, ab in zip(B['coeffs'], B['alpha']):
            if 0 < abs(ca * cb) < 1e-12 and (len(A['alpha']) > 1 or len(B['alpha']) > 1): tiny += max(nuc_oracle_(dict(q, A=dict(A, coeffs=[ca], alpha=[aa]), B=dict(B, coeffs=[cb], alpha=[ab])))[1])
            elif 0 < abs(ca * cb) < 1e-12: tiny += max(sc)
    return v, [x + tiny / 1e-9 for x in sc]


def nuc_oracle_(q):
    m = q['mname']; par = q['params']
    if m in ('point', 'point_numerical'):
        R = MPRing(30); p = kinds.lift_AB(R, q); p.update(C=[R.lift(x) for x in q['C']], Z=q['Z']); return [[float(x) for x in M] for M in point_spec(R, p, False)], [max(abs(float(x)) for x in M) for M in point_spec(R, p, True)]
    c = radius(m, par); cuts = [c * t for t in (.25, .5, 1, 1.5, 2, 4, 8, 16, 64, 256, 1024)] if 'fermi' not in m else sorted({max(0, c + j * par[1]) for j in (-30, -15, -8, -4, -2, 0, 2, 4, 8, 15, 30, 60)} | {c * t for t in (.25, .5, .75, 2, 4, 16, 64, 256, 1024)})
    return local_matrix(q, lambda r: V_np(m, q['Z'], par, r), cuts)


def num_nuc(q, cfg, point, shell, pot, sm):
    m = cfg.get('model', 'point'); q.update(C=list(point('C')), Z=cfg.get('Z', 7), model=MODEL_ID[m], mname=m); r = sm.r; big = r.random() < .5
    c = r.uniform(.2, 1) if big else 10 ** r.uniform(-5, -2); q['params'] = [c, c / r.uniform(2, 9), r.uniform(-.3, 2)][:NPAR[m]] or [0.0]


def nuc_atol(q): return abs(q['Z']) * 3e-13 * max(abs(c) for s in 'AB' for c in q[s]['coeffs']) ** 2 * max(1.0, *[1 + abs(a - c) for s in 'AB' for a, c in zip(q[s]['origin'], q['C'])]) ** (q['A']['L'] + q['B']['L']) + 1e-13


def nuc_known(q, d):
    """listed finding: the radial grid of the numerical models ends at 39.6 bohr, the tail of very diffuse functions is lost"""
    if q['mname'] == 'point' or not listed('C05', 'diffuse-tail'): return False
    s = min(q['A']['alpha']) + min(q['B']['alpha'])
    return s < 0.02 and abs(d['got'] - d['expected']) <= 1e3 * d['scale'] * math.exp(-s * 39.6 ** 2)


for nm, sp, con in (('nuclear_point', point_spec, kinds.type1_contracts), ('nuclear_point_mod', point_mod_spec, kinds.type1_mod_contracts), ('nuclear_fin', fin_spec(False), fin_contracts), ('nuclear_fin_mod', fin_spec(True), lambda S: fin_contracts(S, True))):
    K_ = Kind(nm, 1, setup_nuc, sp, None, con, native='nuclear', numeric=num_nuc, tol=1e-9); K_.oracle = nuc_oracle; K_.atol = nuc_atol; K_.known = nuc_known
    K_.fail = lambda: '; '.join(ENV['bad'][:2]) if ENV.get('bad') else None


# ------------------------------------------------------------------ C05: entry points of the models
WRAP = {'point_charge': ('point', 0), 'charged_ball': ('ball', 1), 'gaussian_model': ('gaussian', 1), 'fermi_model': ('fermi', 2), 'fermi_bubble_model': ('fermi_bubble', 3)}


def e_wrap(S, name):
    m, n = WRAP[name]; calls = []
    def c_gen(S, a):
        if len(a) != 7: return NotImplemented
        par = [v2f(S.cread(a[5], 8 * k)).v for k in range(n)] if n else []
        calls.append(([(x.kind, x.a, x.i) for x in a[:3]], a[3].i, a[4].i, par, (a[6].a, a[6].i))); S.cwrite(a[6], 0, S.R.uf('matrix', [], 1.5)); return None
    S.contract('libgrpp_nuclear_attraction_integrals', c_gen); par = [S.sym('p%d' % k, .3 + k, True) for k in range(n)]; ob = [S.new(64, x) for x in ('A', 'B')] + [S.reals([S.sym('x' + c, .1) for c in 'xyz'], 'C')]; out = S.garbage(1, 'matrix')
    pr, _, _ = frame_call_out(S, 'libgrpp_nuclear_attraction_integrals_' + name, *[S.ptr(o) for o in ob], S.int(13), *par, S.ptr(out))
    if len(calls) != 1: raise Unsupported('does not call the general routine once')
    c = calls[0]
    if c[0] != [(K_PTR, o, 0) for o in ob]: pr.append('shells or origin are not passed on')
    if c[1] != 13 or c[2] != MODEL_ID[m]: pr.append('charge %d, model %d passed on' % (c[1], c[2]))
    if c[3] != [x.v for x in par]: pr.append('model parameters are not passed on in order')
    if c[4] != (out, 0): pr.append('output matrix is not passed on')
    return pr


def frame_call_out(S, fn, *args):
    dvlib.L.dv_clear_events(); r = S.call(fn, *args); return ['%s in %s line %s: %s' % (e['kind'], e['func'], e['line'], e['msg']) for e in S.events() if e['kind'] in ('OOB', 'UNINIT', 'FREE', 'UAF')], r, 0


def n_wrap(lib, name, q):
    v = lib.run('nuclear_wrap', dict(q, name=name, params=q['params'][:WRAP[name][1]])); d = kinds.deviates('nuclear_fin', q, v); pr = ['%s: %s' % (name, d)] if d else []
    g = lib.run('nuclear', q); return pr + (['%s differs from the general routine' % name] if g != v else [])


def C05():
    chk = Check('C05'); session(); checks_func.tables(session(), 22); T = []; r = random.Random(SEED); quick = TIER == 'quick'
    for LA, LB in pairs(range(11)):
        c = dict(LA=LA, LB=LB); cost = ((LA + 1) * (LB + 1)) ** 2 * (LA + LB + 1) ** 3
        if LA + LB <= 4: T.append(dict(kind='nuclear_point', cfg=dict(c, prim='sym'), cost=cost))
        elif LA + LB <= 8 or (LA, LB) in ((10, 0), (0, 10), (8, 2)) or not quick: T.append(dict(kind='nuclear_point', cfg=dict(c, prim=1), cost=cost))
        T.append(dict(kind='nuclear_point_mod', cfg=dict(c, prim='sym', Z=r.choice((1, 92, -3))), modular=True, cost=1))
        if LA + LB <= 3:
            for g in ('AB', 'AC', 'BC', 'ABC'): T.append(dict(kind='nuclear_point', cfg=dict(c, prim='sym', geom=g)))
            T.append(dict(kind='nuclear_point', cfg=dict(c, prim='sym', axis='xz'))); T.append(dict(kind='nuclear_point', cfg=dict(c, prim=['z', 'n', 'n'], primB=['n', 'z']))); T.append(dict(kind='nuclear_point', cfg=dict(c, prim='sym', Z=0)))
    for k, (LA, LB) in enumerate(pairs(range(11))):
        m = list(MODEL_ID)[1 + k % 5]; c = dict(LA=LA, LB=LB, model=m, prim='sym'); s = LA + LB
        if s <= 3:
            for m in list(MODEL_ID)[1:]: T.append(dict(kind='nuclear_fin', cfg=dict(c, model=m), cost=10 ** s))
            for g in ('AB', 'AC', 'BC', 'ABC'): T.append(dict(kind='nuclear_fin', cfg=dict(c, geom=g), cost=10 ** s))
            T.append(dict(kind='nuclear_fin', cfg=dict(c, axis='x'), cost=10 ** s)); T.append(dict(kind='nuclear_fin', cfg=dict(c, prim=['z', 'n'], primB=['n', 'z']), cost=10 ** s))
        if s <= 8 or (LA, LB) in ((10, 0), (0, 10)) or not quick: T.append(dict(kind='nuclear_fin_mod', cfg=dict(c, prim='sym' if s <= 5 else 1), modular=True, cost=2 ** s))
    xs = [dict(LA=a, LB=b) for a, b in ((0, 0), (1, 0), (0, 2), (1, 1), (2, 1))]; n = 33 if quick else 330
    T += extremes('nuclear_point', xs, n) + extremes('nuclear_point_mod', xs, n, modular=1) + extremes('nuclear_fin', [dict(c, model=list(MODEL_ID)[1 + k % 5]) for k, c in enumerate(xs * 6)], n, 'nuclear_fin')
    T += aliased('nuclear_point', (0, 1, 2)) + [t for k, m in enumerate(list(MODEL_ID)[1:]) for t in aliased('nuclear_fin', (0, 1) if k % 2 else (1,), model=m)] + aliased('nuclear_fin', (0, 1, 2), SEED, num=True, model=list(MODEL_ID)[1 + SEED % 5])
    nat = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (2, 2), (3, 1), (0, 4)]
    for k in range(36 if quick else 250):
        LA, LB = nat[k % 8]; m = list(MODEL_ID)[k % 6]; c = dict(LA=LA, LB=LB, model=m, geom=list(cases.GEOMS)[(0, 1, 2, 0, 3, 4)[k % 6]], Z=r.choice((1, 6, 80)))
        T.append(dict(kind='nuclear_fin', cfg=c, q=rand_q('nuclear_fin', c, SEED * 77 + k, 'wide' if k % 4 == 3 and m == 'point' else 'mid', 1 + (k // 8) % 2), tag=str(k), cost=1e4))
    for LA, LB, m in ((5, 4, 'gaussian'), (6, 2, 'ball'), (6, 6, 'point')) + (() if quick else ((10, 10, 'fermi'), (10, 10, 'point'))):
        c = dict(LA=LA, LB=LB, model=m); T.append(dict(kind='nuclear_fin', cfg=c, q=rand_q('nuclear_fin', c, SEED * 77 + 900, 'mid', 1), tag='high', cost=1e8))
    dif = dict(A=dict(L=0, origin=[0.0, 0.0, 0.0], coeffs=[1.0], alpha=[0.001]), B=dict(L=0, origin=[0.0, 0.0, 0.5], coeffs=[1.0], alpha=[0.002]), C=[0.0, 0.0, 0.0], Z=10, model=MODEL_ID['point_numerical'], mname='point_numerical', params=[0.0])
    T.append(dict(kind='nuclear_fin', cfg=dict(LA=0, LB=0, model='point_numerical'), q=dif, tag='diffuse functions'))
    for nm in WRAP: T.append(scen('libgrpp_nuclear_attraction_integrals_%s' % nm, e_wrap, dict(name=nm), n_wrap, [(nm, slim(rand_q('nuclear_fin', dict(LA=1, LB=2, model=WRAP[nm][0], Z=5), SEED * 31 + k, 'mid', 2))) for k in range(2)], cost=1e5))
    T += linearity('nuclear_fin', [dict(LA=a, LB=b, model=m) for k, (a, b) in enumerate(((0, 0), (1, 1), (2, 1))) for m in list(MODEL_ID)[k:k + 4]], SEED * 77)
    run_tasks(chk, T, chk.t0 + 480)
    if chk.nknown: chk.known.append('numerically integrated models with exponent sums below 0.02: the part of the integrand beyond 39.6 bohr (end of the radial grid) is lost (%d sampled inputs, e.g. s functions of exponents 0.001 and 0.002)' % chk.nknown)
    chk.assumptions = ['the potentials of the models are those of property C15; radial type-1 tables have the contract of C25; Boys function of C14; angular integrals of C12 in the modular obligations', 'L_A+L_B > 8 of the finite models and L_A+L_B > 8 of the point charge: contraction loops only in the quick tier']
    return chk
