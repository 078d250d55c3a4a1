"""C09: full GRPP integrals; C11: pseudopotential gradients."""
import copy
from verify import *
from scen import *
import spec, semi, kinds, checks_func, checks_oc
import numpy as np
from fractions import Fraction as Fr
from kinds import Kind, setup_shells, nsize
from checks_oc import pot_content, shell_content, clist
from layout import View

ENV = {}


def bad(m): ENV.setdefault('bad', []).append(m)


# ------------------------------------------------------------------ contracts of the parts: linear in the coefficients of both shells
def sterms(S, p):
    v = View(S, 'libgrpp_shell_t', p); n = v.get('num_primitives'); c, a = v.get('coeffs'), v.get('alpha')
    if dvlib.L.dv_obj_range(a.a) >= 0:
        x, y = Val(), Val(); r = dvlib.L.dv_obj_range(a.a)
        if dvlib.L.dv_obj_range(c.a) != r or dvlib.L.dv_sym_get(c.a, 0, 8, C.byref(x)) or dvlib.L.dv_sym_get(a.a, 0, 8, C.byref(y)): raise Unsupported('coefficients of the shell are not filled')
        return [(S.omega(r), v2f(x), v2f(y))]
    if n.kind != K_INT: raise Unsupported('number of primitives')
    return [(F(1, 1, 1.0), v2f(S.cread(c, 8 * k)), v2f(S.cread(a, 8 * k))) for k in range(n.i)]


def sinfo(S, p, side):
    v = View(S, 'libgrpp_shell_t', p)
    if [v.get('origin', k).v for k in range(3)] != [x.v for x in ENV['p'][side]['origin']]: bad('integrals requested with a wrong %s centre' % ('bra' if side == 'A' else 'ket'))
    return dict(L=v.int('L'), terms=sterms(S, p), comps=clist(S, p))


def prim(R, what, a, ci, b, cj): return R.uf('%s_%s_%s' % (what, ci, cj), [a, b], 0.3 + .05 * ci[0] - .04 * cj[1] + .02 * ci[2] * cj[0])


def matrix(R, what, X, Y):
    """sum over the primitives of two shells of normalised products times a function of the exponents"""
    if what.endswith('_EMPTY'): return [R.lift(0)] * (len(X['comps']) * len(Y['comps']))
    w = [(wa * wb * ca * cb * spec.norm(R, a, X['L']) * spec.norm(R, b, Y['L']), a, b) for wa, ca, a in X['terms'] for wb, cb, b in Y['terms']]
    return [sum((f * prim(R, what, a, ci, b, cj) for f, a, b in w), R.lift(0)) for ci in X['comps'] for cj in Y['comps']]


def addto(M, f, N): return [x + f * y for x, y in zip(M, N)] if M is not None else [f * y for y in N]


def put(S, p, M):
    for k, x in enumerate(M): S.cwrite(p, 8 * k, x)


def origin_ok(S, p):
    if [S.cread(p, 8 * k).v for k in range(3)] != [x.v for x in ENV['p']['C']]: bad('integrals requested at another origin of the pseudopotential')


def pid(S, p):
    n = View(S, 'libgrpp_potential_t', p).get('num_primitives')
    if n.kind == K_INT and n.i == 0: return 'EMPTY'
    c = pot_content(S, p)
    if c not in ENV['pots']: bad('integrals requested with a potential that is not part of the operator'); return '?'
    return ENV['pots'][c]


def sid(S, p):
    c = shell_content(S, p)
    if c not in ENV['shells']: bad('an outercore shell that is not part of the operator'); return '?'
    return ENV['shells'][c]


def isnull(p): return p.kind == K_PTR and p.a == 0 and p.i == 0 or p.kind == K_INT and p.i == 0


def part(S, kind, nout):
    def f(S, a):
        if len(a) != 4 + nout or a[0].kind != K_PTR: return NotImplemented
        origin_ok(S, a[2]); X, Y = sinfo(S, a[0], 'A'), sinfo(S, a[1], 'B'); R = S.R
        for x in range(nout):
            if isnull(a[3]): put(S, a[4 + x], [R.lift(0)] * (len(X['comps']) * len(Y['comps'])))
            else: put(S, a[4 + x], matrix(R, '%s%d_%s' % (kind, x, pid(S, a[3])), X, Y))
        return None
    return f


def plist(S, p, n):
    """[(weight, pointer)] of a list of pointers"""
    if n.kind == K_INT and n.i == 0: return []
    if dvlib.L.dv_obj_range(p.a) >= 0:
        v = Val(); r = dvlib.L.dv_obj_range(p.a)
        if dvlib.L.dv_sym_get(p.a, 0, 8, C.byref(v)): raise Unsupported('list')
        return [(S.omega(r), v)]
    if n.kind != K_INT: raise Unsupported('length of a list')
    return [(F(1, 1, 1.0), S.cread(p, 8 * k, 8, False)) for k in range(n.i)]


def octag(S, n, pots, shells):
    a, b = plist(S, pots, n), plist(S, shells, n); return 'oc' + ','.join('%s/%s' % (pid(S, x), sid(S, y)) for (_, x), (_, y) in zip(a, b))


def c_oc(S, a):
    if len(a) != 10: return NotImplemented
    origin_ok(S, a[2]); X, Y = sinfo(S, a[0], 'A'), sinfo(S, a[1], 'B'); n = a[3]; t = octag(S, n, a[4], a[5])
    for x in range(4): put(S, a[6 + x], matrix(S.R, 'oc%d_%s' % (x, t), X, Y) if t != 'oc' else [S.R.lift(0)] * (len(X['comps']) * len(Y['comps'])))
    return None


def full_matrices(S, X, Y, g):
    """the full operator from its contents: local, averaged, spin-orbit, outercore parts"""
    R = S.R; n = len(X['comps']) * len(Y['comps']); out = [[R.lift(0)] * n for _ in range(4)]
    if g['local'] is not None: out[0] = addto(out[0], R.lift(1), matrix(R, 't10_%s' % g['local'], X, Y))
    for w, i in g['arep']: out[0] = addto(out[0], w, matrix(R, 't20_%s' % i, X, Y))
    for w, i, L in g['esop']:
        for x in range(3): out[1 + x] = addto(out[1 + x], w * R.lift(Fr(2, 2 * L + 1)), matrix(R, 'so%d_%s' % (x, i), X, Y))
    if g['oc'] != 'oc':
        for x in range(4): out[x] = addto(out[x], R.lift(1), matrix(R, 'oc%d_%s' % (x, g['oc']), X, Y))
    return out


def grpp_content(S, p):
    v = View(S, 'libgrpp_grpp_t', p); U = v.get('U_L')
    return dict(local=None if isnull(U) else pid(S, U), arep=[(w, pid(S, q)) for w, q in plist(S, v.get('U_arep'), v.get('n_arep'))],
                esop=[(w, pid(S, q), View(S, 'libgrpp_potential_t', q).int('L')) for w, q in plist(S, v.get('U_esop'), v.get('n_esop'))], oc=octag(S, v.get('n_oc_shells'), v.get('U_oc'), v.get('oc_shells')))


def c_full(S, a):
    if len(a) != 8: return NotImplemented
    origin_ok(S, a[3]); M = full_matrices(S, sinfo(S, a[0], 'A'), sinfo(S, a[1], 'B'), grpp_content(S, a[2]))
    for x in range(4): put(S, a[4 + x], M[x])
    return None


def contracts(S, full=True):
    ENV.clear(); S.contract('libgrpp_is_initialized', lambda S, a: S.int(1))
    S.contract('libgrpp_type1_integrals', part(S, 't1', 1)); S.contract('libgrpp_type2_integrals', part(S, 't2', 1)); S.contract('libgrpp_spin_orbit_integrals', part(S, 'so', 3)); S.contract('libgrpp_outercore_potential_integrals', c_oc)
    if full: S.contract('libgrpp_full_grpp_integrals', c_full)


# ------------------------------------------------------------------ set-up
EMPTY = 100 # entries EMPTY + L of the lists of an operator stand for a potential of order L without terms


def add_pot(S, inp, nm, L, J, prim_, pw, p):
    if L >= EMPTY: u = inp.pot(nm, L - EMPTY, J, 0, pw); u['id'] = 'EMPTY'; return u
    u = inp.pot(nm, L, J, prim_, pw); k = pot_content(S, u['ptr']); ENV['pots'].setdefault(k, nm); u['id'] = ENV['pots'][k]; return u


def setup_grpp(S, inp, cfg, p, q):
    g = cfg['grpp']; pr = cfg.get('primU', 'sym'); d = dict(local=None, arep=[], esop=[], oc='oc'); nat = dict(local=None, arep=[], esop=[], oc=[]); ptr = S.call('libgrpp_new_grpp'); v = View(S, 'libgrpp_grpp_t', ptr); one = F(1, 1, 1.0)
    if g.get('local'): u = add_pot(S, inp, 'UL', max(2, g['local']), 0, pr, 1, p); S.call('libgrpp_grpp_set_local_potential', ptr, u['ptr']); d['local'] = u['id']; nat['local'] = u['native']
    for f, add, fld in (('arep', 'libgrpp_grpp_add_averaged_potential', 'U_arep'), ('esop', 'libgrpp_grpp_add_spin_orbit_potential', 'U_esop')):
        x = g.get(f, [])
        if x and x[0] == 'sym':         # any number of terms: one generic element
            u = add_pot(S, inp, 'U' + f, x[1], 0, pr, 2, p); r = S.range('n_' + f); o = dvlib.L.dv_new_symobj(r, 8, OF_INPUT, f.encode()); w = u['ptr'].copy(); dvlib.L.dv_sym_set(o, 0, 8, C.byref(w))
            n = S.nsym(r); n.size = 4; S.cwrite(ptr, v.o['n_' + f], n, 4); S.cwrite(ptr, v.o[fld], S.ptr(o), 8); d[f] = [(S.omega(r), u['id']) + ((x[1],) if f == 'esop' else ())]; nat[f] = [u['native']]
            continue
        for k, L in enumerate(x):
            u = add_pot(S, inp, 'U%s%d' % (f, k), L, 0, pr, k % 3, p); S.call(add, ptr, u['ptr']); d[f].append((one, u['id']) + ((L % EMPTY,) if f == 'esop' else ())); nat[f].append(u['native'])
    ids = []
    for k, (L, J) in enumerate(g.get('oc', [])):
        inp.geom = dict(inp.geom, **{'O%d' % k: 'D%d' % k}); sh = inp.shell('O%d' % k, L % EMPTY, pr); c = shell_content(S, sh['ptr']); ENV['shells'].setdefault(c, 'O%d' % k); u = add_pot(S, inp, 'V%d' % k, L, J, pr, 2 - k % 3, p)
        S.call('libgrpp_grpp_add_outercore_potential', ptr, u['ptr'], sh['ptr']); ids.append('%s/%s' % (u['id'], ENV['shells'][c])); nat['oc'].append((u['native'], sh['native'])); p.setdefault('ocs', []).append((u, sh))
    d['oc'] += ','.join(ids); p['g'] = d; q['grpp'] = nat; return ptr


def setup_base(S, inp, cfg):
    for k in ('bad', 'p'): ENV.pop(k, None)
    ENV.update(pots={}, shells={}); p, q = setup_shells(S, inp, cfg); p['C'] = inp.point('C'); q['C'] = [c.x for c in p['C']]; inp.groups = {}; ENV['p'] = p; p['S'] = S
    if '/' in cfg.get('geom', '') or cfg.get('grad'): p['P'] = inp.point('P'); q['point'] = [c.x for c in p['P']]
    return p, q


def setup_full(grad):
    def f(S, inp, cfg):
        p, q = setup_base(S, inp, cfg); g = setup_grpp(S, inp, cfg, p, q); a = [p['A']['ptr'], p['B']['ptr'], g, S.ptr(S.reals(p['C'], 'origin C'))]
        if grad: a.append(S.ptr(S.reals(p['P'], 'point')))
        return 'libgrpp_full_grpp_integrals' + ('_gradient' if grad else ''), p, a, q
    return f


def setup_part(fn, key):
    def f(S, inp, cfg):
        p, q = setup_base(S, inp, cfg); one = F(1, 1, 1.0); pr = cfg.get('primU', 'sym'); L = cfg.get('L', 0); d = p['g'] = dict(local=None, arep=[], esop=[], oc='oc'); oc = S.ptr(S.reals(p['C'], 'origin C')); P = S.ptr(S.reals(p['P'], 'point'))
        if key != 'oc':
            u = add_pot(S, inp, 'U', L, 0, pr, 2, p); q['pot'] = u['native']; a = [p['A']['ptr'], p['B']['ptr'], oc, u['ptr'], P]
            if key == 'local': d['local'] = u['id']
            else: d[key] = [(one, u['id']) + ((L,) if key == 'esop' else ())]; p['scale'] = R_scale(S, L) if key == 'esop' else None
        else:
            ps, ss, ids = [], [], []; q['oc'] = []
            for k, (l, J) in enumerate(cfg['oc']):
                inp.geom = dict(inp.geom, **{'O%d' % k: 'D%d' % k}); sh = inp.shell('O%d' % k, l, pr); c = shell_content(S, sh['ptr']); ENV['shells'].setdefault(c, 'O%d' % k); u = add_pot(S, inp, 'V%d' % k, l, J, pr, 2, p); ps.append(u['ptr']); ss.append(sh['ptr']); ids.append('%s/%s' % (u['id'], ENV['shells'][c])); q['oc'].append((u['native'], sh['native']))
            d['oc'] += ','.join(ids); a = [p['A']['ptr'], p['B']['ptr'], oc, S.int(len(ps)), S.ptr(S.ptrs(ps, 'potentials')), S.ptr(S.ptrs(ss, 'outercore shells')), P]
        return fn, p, a, q
    return f


def R_scale(S, L): return S.R.lift(Fr(2 * L + 1, 2))


# ------------------------------------------------------------------ specifications
def info(p, nm): return dict(L=p[nm]['L'], terms=p[nm]['terms'], comps=spec.carts(p[nm]['L']))


def full_spec(R, p, ab): return full_matrices(p['S'], info(p, 'A'), info(p, 'B'), p['g'])


def dmat(R, what, X, Y, side, ax):
    """derivative of a matrix with respect to the centre of one shell"""
    if what.endswith('_EMPTY'): return [R.lift(0)] * (len(X['comps']) * len(Y['comps']))
    Z = X if side == 'A' else Y; out = []; w = [(wa * wb * ca * cb * spec.norm(R, a, X['L']) * spec.norm(R, b, Y['L']), a, b) for wa, ca, a in X['terms'] for wb, cb, b in Y['terms']]
    sh = lambda c, s: tuple(e + (s if k == ax else 0) for k, e in enumerate(c))
    for ci in X['comps']:
        for cj in Y['comps']:
            t = R.lift(0); c = ci if side == 'A' else cj
            for f, a, b in w:
                e = a if side == 'A' else b; g = lambda s: prim(R, what, a, sh(ci, s) if side == 'A' else ci, b, sh(cj, s) if side == 'B' else cj)
                t = t + f * (2 * e * g(1) - (c[ax] * g(-1) if c[ax] else R.lift(0)))
            out.append(t)
    return out


def grad_spec(which):
    """which matrices (0 scalar, 1..3 spin-orbit) are returned"""
    def f(R, p, ab):
        S = p['S']; X, Y = info(p, 'A'), info(p, 'B'); g = p['g']; mv = kinds.moved(R, p); n = len(X['comps']) * len(Y['comps']); fa = ('A' in mv) - ('C' in mv); fb = ('B' in mv) - ('C' in mv); out = []
        # pieces[x]: [(weight, name)]
        P = [[] for _ in range(4)]
        if g['local'] is not None: P[0].append((R.lift(1), 't10_%s' % g['local']))
        P[0] += [(w, 't20_%s' % i) for w, i in g['arep']]
        for w, i, L in g['esop']:
            for x in range(3): P[1 + x].append((w * R.lift(Fr(2, 2 * L + 1)), 'so%d_%s' % (x, i)))
        if g['oc'] != 'oc':
            for x in range(4): P[x].append((R.lift(1), 'oc%d_%s' % (x, g['oc'])))
        for x in which:
            for ax in range(3):
                M = [R.lift(0)] * n
                for w, nm in P[x]:
                    for side, s in (('A', fa), ('B', fb)):
                        if s: M = addto(M, w * R.lift(s) * (p.get('scale') or R.lift(1)), dmat(R, nm, X, Y, side, ax))
                out.append(M)
        return out
    return f


# ------------------------------------------------------------------ numerical reference
def o_type1(q):
    R = MPRing(30); p = kinds.lift_ABCU(R, q); return [[float(x) for x in M] for M in kinds.type1_spec(R, p, False)], [max([float(x) for x in M] + [0.0]) for M in kinds.type1_spec(R, p, True)]


def o_full(q):
    n = nsize(q['A']['L']) * nsize(q['B']['L']); v = [np.zeros(n) for _ in range(4)]; sc = [0.0] * 4; g = q['grpp']
    def add(r, idx, f):
        for m, s, x in zip(r[0], r[1], idx): v[x] += f * np.array(m); sc[x] += abs(f) * s
    if g['local'] is not None: add(o_type1(dict(q, pot=g['local'])), [0], 1)
    for u in g['arep']: add(semi.oracle_type2(dict(q, pot=u)), [0], 1)
    for u in g['esop']: add(semi.oracle_so(dict(q, pot=u)), [1, 2, 3], 2 / (2 * u['L'] + 1))
    if g['oc']: add(checks_oc.oc_oracle(dict(q, oc=g['oc'])), [0, 1, 2, 3], 1)
    return [x.tolist() for x in v], sc


def changed(sh, up):
    """the shell of angular momentum L +- 1 in the derivative of a Gaussian with respect to its centre"""
    L = sh['L']; M = L + 1 if up else L - 1
    return dict(sh, L=M, coeffs=[c * (2 * a if up else 1) * semi.gnorm(L, a) / semi.gnorm(M, a) for c, a in zip(sh['coeffs'], sh['alpha'])])


def deriv(base, q, side):
    """derivative of the matrices of `base` with respect to the centre of shell `side`: [axis][matrix], scale"""
    L = q[side]['L']; up = base(dict(q, **{side: changed(q[side], True)})); dn = base(dict(q, **{side: changed(q[side], False)})) if L else None; cs = spec.carts(L); cu = {c: k for k, c in enumerate(spec.carts(L + 1))}; cd = {c: k for k, c in enumerate(spec.carts(L - 1))} if L else {}
    n = len(up[0]); other = 'B' if side == 'A' else 'A'; m = nsize(q[other]['L']); out = []
    arr = lambda r, x, k: np.array(r[0][x]).reshape((k, m) if side == 'A' else (m, k))
    for ax in range(3):
        row = []
        for x in range(n):
            U = arr(up, x, len(cu)); D = arr(dn, x, len(cd)) if L else None
            if side == 'B': U = U.T; D = D.T if L else None
            M = np.zeros((len(cs), m))
            for i, c in enumerate(cs):
                sh = lambda s: tuple(e + (s if k == ax else 0) for k, e in enumerate(c))
                M[i] = U[cu[sh(1)]] - (c[ax] * D[cd[sh(-1)]] if c[ax] else 0)
            row.append((M if side == 'A' else M.T).reshape(-1))
        out.append(row)
    return out, [u + L * (dn[1][x] if L else 0) for x, u in enumerate(up[1])]


def o_grad(base):
    def f(q):
        pt = q['point']; mv = [nm for nm in 'ABC' if (q[nm]['origin'] if nm != 'C' else q['C']) == pt]; fa = ('A' in mv) - ('C' in mv); fb = ('B' in mv) - ('C' in mv); v = None; sc = None
        same = q['A']['origin'] == q['C'] and q['B']['origin'] == q['C']
        for side, s in (('A', fa), ('B', fb)):
            d, z = deriv(base, q, side) if s else ([None] * 3, None)
            if not s: continue
            d = [[s * m for m in r] for r in d]; v = d if v is None else [[a + b for a, b in zip(x, y)] for x, y in zip(v, d)]; sc = z if sc is None else [a + b for a, b in zip(sc, z)]
        if v is None: n = nsize(q['A']['L']) * nsize(q['B']['L']); k = len(base(dict(q, A=dict(q['A'], coeffs=[0.0] * len(q['A']['coeffs']))))[0]) if False else f.nmat; return [[0.0] * n for _ in range(3 * k)], [1.0] * k
        return [v[ax][x].tolist() for x in range(len(v[0])) for ax in range(3)], sc
    return f


def num_part(key):
    def f(q, cfg, point, shell, pot, sm):
        q['C'] = list(point('C')); q['point'] = list(point('P'))
        if key == 'pot': q['pot'] = pot(cfg.get('L', 0), 0)
        elif key == 'oc': q['oc'] = [(pot(L, J), shell('O%d' % k, L, 'D%d' % k)) for k, (L, J) in enumerate(cfg['oc'])]
        else:
            g = cfg['grpp']; pot_ = pot
            def pot(L, J):
                u = pot_(L % EMPTY, J)
                return dict(u, coeffs=[], alpha=[], powers=[]) if L >= EMPTY else u
            q['grpp'] = dict(local=pot(max(2, g['local']), 0) if g.get('local') else None, arep=[pot(L, 0) for L in g.get('arep', []) if L != 'sym'], esop=[pot(L, 0) for L in g.get('esop', []) if L != 'sym'], oc=[(pot(L, J), shell('O%d' % k, L % EMPTY, 'D%d' % k)) for k, (L, J) in enumerate(g.get('oc', []))])
            for k in ('arep', 'esop'):
                if g.get(k) and g[k][0] == 'sym': q['grpp'][k] = [pot(g[k][1], 0) for _ in range(2)]
    return f


def atol(q):
    x = 1.0
    for nm in 'AB': x *= (2 + sum(abs(a - c) for a, c in zip(q[nm]['origin'], q['C']))) ** (q[nm]['L'] + 1) * max(1.0, *q[nm]['alpha']) ** .5
    return 1e-10 * x


def fail(): return '; '.join(ENV['bad'][:3]) if ENV.get('bad') else None


def patched(K, n): # number of outputs given by n groups of three gradient matrices
    K.outgroups = [3] * n; return K


for nm, nout, su, sp, con, num, orc in (
        ('full', 4, setup_full(False), full_spec, lambda S: contracts(S, False), num_part('grpp'), o_full),
        ('full_gradient', 12, setup_full(True), grad_spec((0, 1, 2, 3)), contracts, num_part('grpp'), o_grad(o_full)),
        ('type1_gradient', 3, setup_part('libgrpp_type1_integrals_gradient', 'local'), grad_spec((0,)), contracts, num_part('pot'), o_grad(o_type1)),
        ('type2_gradient', 3, setup_part('libgrpp_type2_integrals_gradient', 'arep'), grad_spec((0,)), contracts, num_part('pot'), o_grad(semi.oracle_type2)),
        ('spin_orbit_gradient', 9, setup_part('libgrpp_spin_orbit_integrals_gradient', 'esop'), grad_spec((1, 2, 3)), contracts, num_part('pot'), o_grad(semi.oracle_so)),
        ('outercore_gradient', 12, setup_part('libgrpp_outercore_potential_integrals_gradient', 'oc'), grad_spec((0, 1, 2, 3)), contracts, num_part('oc'), o_grad(checks_oc.oc_oracle))):
    K_ = Kind(nm, nout, su, sp, None, con, native=nm, numeric=num, tol=1e-9); K_.oracle = orc; K_.atol = atol; K_.fail = fail
    if 'gradient' in nm: K_.outgroups = True; orc.nmat = nout // 3


def C09():
    chk = Check('C09'); session(); T = []; quick = TIER == 'quick'
    for L in range(11):
        for LA, LB in ((0, 0), (1, 2)) + (((3, 1), (2, 4)) if L < 3 else ()):
            for f in ('arep', 'esop'): T.append(dict(kind='full', cfg=dict(LA=LA, LB=LB, grpp={'local': L % 2, f: ['sym', L], ('esop' if f == 'arep' else 'arep'): ['sym', 10 - L]}, prim='sym'), cost=LA + LB))
    E = EMPTY; ops = [dict(), dict(local=1), dict(arep=[0]), dict(esop=[1]), dict(oc=[(1, 3)]), dict(local=1, arep=[0, 1, 2], esop=[1, 2], oc=[(0, 1), (1, 1), (1, 3)]), dict(arep=[3, 1, 1, 0], esop=[2, 1]), dict(esop=[0, 3, 2, 1, 4]), dict(local=1, oc=[(2, 3), (2, 5)]), dict(arep=[0] * 7, esop=[1] * 5), dict(local=1, arep=[2, 0], esop=[3]),
           # potentials without terms anywhere in the lists
           dict(local=1, arep=[E + 2, 0, E + 1, 1], esop=[E + 1, 2, E + 2, 1]), dict(esop=[E + 1, 2]), dict(esop=[1, E + 2, 3, E]), dict(arep=[E, 1]), dict(local=E + 2, arep=[1, E], esop=[E + 3]), dict(local=1, oc=[(E + 1, 1), (1, 3)]), dict(oc=[(1, 1), (E + 1, 3), (0, 1)])]
    for o in ops:
        for LA, LB in ((0, 0), (1, 0), (0, 3), (2, 2), (1, 4)): T.append(dict(kind='full', cfg=dict(LA=LA, LB=LB, grpp=o, prim='sym'), cost=10))
    for o in (dict(arep=[1] * 101, esop=[2] * 103, local=1), dict(arep=[0] * 201)): T.append(dict(kind='full', cfg=dict(LA=0, LB=1, grpp=o, prim='sym', primU=1), cost=100))
    for LA, LB in ((10, 10), (10, 0), (0, 10), (5, 7), (11, 1), (1, 11)): T.append(dict(kind='full', cfg=dict(LA=LA, LB=LB, grpp=ops[5], prim='sym'), cost=100))
    for g in ('AB', 'AC', 'BC', 'ABC'): T.append(dict(kind='full', cfg=dict(LA=1, LB=1, grpp=ops[5], geom=g, prim='sym'), cost=10))
    T += extremes('full', [dict(LA=a, LB=b, grpp=ops[k]) for a, b, k in ((0, 0, 5), (1, 0, 10), (0, 1, 9), (1, 1, 8), (2, 0, 6))], 33 if quick else 330)
    for o in (ops[1], ops[5]): T += aliased('full', (0, 1, 2), grpp=o)
    T += aliased('full', (0, 1), SEED, num=True, grpp=dict(local=1, arep=[1], esop=[1], oc=[(1, 3)]))
    for k in range(36 if quick else 200):
        LA, LB = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1)][k % 5]; c = dict(LA=LA, LB=LB, grpp=ops[k % len(ops)], geom=list(cases.GEOMS)[(0, 1, 2, 0, 3, 4)[k % 6]])
        T.append(dict(kind='full', cfg=c, q=rand_q('full', c, SEED * 77 + k, 'mid', 1 + k % 2), tag=str(k), cost=1e4))
    T += linearity('full', [dict(LA=a, LB=b, grpp=dict(local=1, arep=[1], esop=[1], oc=[(1, 3)])) for a, b in ((0, 0), (1, 1))], SEED * 77, -20)
    run_tasks(chk, T, chk.t0 + 480)
    chk.assumptions = ['the four parts enter by contract: opaque functions of their potentials, linear in the coefficients of the shells (C04, C06, C07, C08)', 'lists of averaged and spin-orbit potentials of any (symbolic) length with terms of one order; mixed orders and outercore lists for enumerated lengths']
    return chk


PG = ['gen', 'gen/A', 'gen/B', 'gen/C', 'AB', 'AB/A', 'AB/C', 'AC', 'AC/A', 'AC/B', 'BC', 'BC/A', 'BC/B', 'ABC', 'ABC/A']


def C11():
    chk = Check('C11'); session(); T = []; quick = TIER == 'quick'; r = random.Random(SEED)
    G = dict(local=1, arep=[0, 2], esop=[1], oc=[(1, 3)])
    for LA, LB in pairs(range(11)):
        s = LA + LB
        for g in PG if s <= 4 else r.sample(PG, 1 if quick else 4) + ['gen/C'] * (s < 9):
            if s > 8 and quick and r.random() < .6 and (LA, LB) not in ((10, 10), (0, 10), (10, 0)): continue
            T.append(dict(kind='full_gradient', cfg=dict(LA=LA, LB=LB, geom=g, grad=1, grpp=G, prim='sym' if s < 9 else 1), cost=s ** 3))
    for LA, LB in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (0, 3), (2, 2)):
        for g in PG:
            if LA + LB > 2 and g not in ('gen', 'gen/A', 'gen/B', 'gen/C', 'AB/A', 'AB/C', 'AC/A', 'BC/B', 'ABC/A'): continue
            b = dict(LA=LA, LB=LB, geom=g, grad=1, prim='sym'); L = r.randint(0, 10)
            for k in ('type1', 'type2', 'spin_orbit'): T.append(dict(kind=k + '_gradient', cfg=dict(b, L=L), cost=1))
            T.append(dict(kind='outercore_gradient', cfg=dict(b, oc=r.choice([[(1, 3)], [], [(0, 1), (2, 5)], [(1, 1), (1, 3), (0, 1)]])), cost=1))
    for LA, LB in ((10, 10), (9, 10), (6, 5), (0, 10)):
        for k in ('type1', 'type2', 'spin_orbit', 'outercore'):
            b = dict(LA=LA, LB=LB, geom=r.choice(['gen/A', 'gen/B', 'gen/C', 'AB/A', 'AC/B', 'BC/A']), grad=1, prim=1)
            T.append(dict(kind=k + '_gradient', cfg=dict(b, oc=[(1, 3)]) if k[0] == 'o' else dict(b, L=r.randint(1, 10)), cost=(LA + LB) ** 2))
    for L in range(11): T.append(dict(kind='spin_orbit_gradient', cfg=dict(LA=1, LB=1, geom='gen/A', grad=1, prim='sym', L=L), cost=1))
    T.append(dict(kind='full_gradient', cfg=dict(LA=1, LB=1, geom='gen/C', grad=1, grpp=dict(arep=['sym', 1], esop=['sym', 2]), prim='sym'), cost=1))
    T.append(dict(kind='full_gradient', cfg=dict(LA=2, LB=1, geom='gen/A', grad=1, grpp=G, prim=3), cost=1))
    E = EMPTY
    for k, o in enumerate((dict(local=1, arep=[E, 2], esop=[E + 1, 2]), dict(local=E + 2, arep=[1, E + 1], esop=[2, E + 1]), dict(local=1, oc=[(E + 1, 1), (1, 3)]))):
        for g in ('gen/A', 'gen/C'): T.append(dict(kind='full_gradient', cfg=dict(LA=1, LB=1, geom=g, grad=1, grpp=o, prim='sym'), cost=1)); c = dict(LA=k % 2, LB=1, geom=g, grad=1, grpp=o); T.append(dict(kind='full_gradient', cfg=c, q=rand_q('full_gradient', c, SEED * 77 + 900 + k, 'mid', 1), tag='empty%d' % k, cost=1e5))
    xs = [dict(LA=a, LB=b, geom=g, grad=1) for a, b, g in ((0, 0, 'gen/A'), (1, 0, 'gen/C'), (0, 1, 'gen/B'), (1, 1, 'gen/C'), (2, 0, 'gen/A'))]; n = 33 if quick else 330
    T += extremes('full_gradient', [dict(c, grpp=dict(local=1, arep=[1], esop=[1], oc=[(1, 3)])) for c in xs], n)
    for k in ('type1', 'type2', 'spin_orbit'): T += extremes(k + '_gradient', [dict(c, L=j % 4) for j, c in enumerate(xs)], n)
    T += extremes('outercore_gradient', [dict(c, oc=[(1, 3)]) for c in xs], n)
    T += aliased('full_gradient', (0, 1, 2, 3), grad=1, grpp=G)
    for k in ('type1', 'type2', 'spin_orbit'): T += aliased(k + '_gradient', (0, 1, 2), grad=1, L=1) + aliased(k + '_gradient', (1,), SEED, grad=1, num=True, L=1)
    T += aliased('outercore_gradient', (0, 1, 2), grad=1, oc=[(1, 3)])
    for k in range(45 if quick else 300):
        LA, LB = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (1, 3)][k // 5 % 6]; kd = ['full', 'type1', 'type2', 'spin_orbit', 'outercore'][k % 5] + '_gradient'; c = dict(LA=LA, LB=LB, geom=PG[k % 13 if k % 3 else 1 + k % 3], grad=1)
        if kd[0] == 'f': c['grpp'] = dict(local=1, arep=[1], esop=[1], oc=[(1, 3)])
        elif kd[0] == 'o': c['oc'] = [(1, 1)] if k % 2 else [(0, 1), (2, 5)]
        else: c['L'] = k % 4
        T.append(dict(kind=kd, cfg=c, q=rand_q(kd, c, SEED * 77 + k, 'mid', 1 + (k // 15) % 2), tag=str(k), cost=1e5))
    T += linearity('full_gradient', [dict(LA=1, LB=1, geom='gen/A', grad=1, grpp=dict(local=1, arep=[1], esop=[1], oc=[(1, 3)]))], SEED * 77, -20)
    for k in ('type1', 'type2', 'spin_orbit'): T += linearity(k + '_gradient', [dict(LA=a, LB=b, L=1, geom=g, grad=1) for a, b, g in ((0, 0, 'gen/A'), (1, 1, 'gen/C'), (0, 2, 'gen/B'))], SEED * 77, -42 if k == 'type1' else -20)
    run_tasks(chk, T, chk.t0 + 480)
    chk.assumptions = ['integrals over the operator enter by contract: opaque functions of the exponents, linear in the contraction coefficients (C04, C06-C09); translational invariance of the operator is used for derivatives with respect to its centre', 'coinciding centres have identical coordinates']
    return chk
