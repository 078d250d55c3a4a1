"""C26: bra/ket exchange and linearity, as relations between runs of the real routines over contracts of their helpers."""
import random
from verify import *
from scen import *
import spec, semi, kinds, checks_func, checks_oc, checks_nuc, checks_full
from checks_full import sterms, plist
from checks_oc import clist
from layout import View
from kinds import Kind, KINDS, nsize
import numpy as np

SIGN = dict(overlap=[1], kinetic=[1], momentum=[-1] * 3, type1=[1], type2=[1], spin_orbit=[-1] * 3, nuclear=[1], outercore=[1, -1, -1, -1], full=[1, -1, -1, -1])
ENV = {}


# ------------------------------------------------------------------ contracts: symmetric, and linear in every coefficient
def content(S, p):
    """terms of a function: [(weight * coefficient, key of the primitive)]"""
    v = View(S, 'libgrpp_shell_t', p); L = v.int('L'); o = tuple(v.get('origin', k).v for k in range(3)); return [(w * c, (L, o, a.v)) for w, c, a in sterms(S, p)]


def pterms(S, p):
    v = View(S, 'libgrpp_potential_t', p); n = v.get('num_primitives'); c, a, w = v.get('coeffs'), v.get('alpha'), v.get('powers'); x, y, z = Val(), Val(), Val()
    if dvlib.L.dv_obj_range(a.a) >= 0:
        r = dvlib.L.dv_obj_range(a.a)
        if dvlib.L.dv_sym_get(c.a, 0, 8, C.byref(x)) or dvlib.L.dv_sym_get(a.a, 0, 8, C.byref(y)) or dvlib.L.dv_sym_get(w.a, 0, 4, C.byref(z)): raise Unsupported('potential')
        return [(S.omega(r) * v2f(x), (y.v, z.i))]
    if n.kind != K_INT: raise Unsupported('number of primitives')
    return [(v2f(S.cread(c, 8 * k)), (S.cread(a, 8 * k).v, S.cread(w, 4 * k, 4, False).i)) for k in range(n.i)]


def c_tabulate(S, a):
    if len(a) != 8: return NotImplemented
    o = S.new(64, 'radial table'); u, f, g = pterms(S, a[5]), content(S, a[6]), content(S, a[7])
    semi.ENV.setdefault('tables', {})[o] = (tuple(x.i for x in a[:3]), a[3].v, a[4].v, f, g, u); semi.ENV.setdefault('open', set()).add(o); return S.ptr(o)


def c_get(S, a):
    if len(a) != 4 or a[0].a not in semi.ENV.get('tables', {}): return NotImplemented
    _, cA, cB, f, g, u = semi.ENV['tables'][a[0].a]; l1, l2, n = a[1].i, a[2].i, a[3].i
    if l1 and not cA or l2 and not cB: return F(0, 0)
    key = ('Q', a[0].a, l1, l2, n)
    if key not in ENV:
        t = F(0, 0)
        for wf, kf in f:
            for wg, kg in g:
                for wu, ku in u: t = t + wf * wg * wu * S.R.uf('Q%s%s%d' % (sorted([(kf, cA, l1), (kg, cB, l2)]), ku, n), [], 0.6 * 0.9 ** (l1 + l2) / (1 + n) + 0.01)
        ENV[key] = t
    return ENV[key]


def c_elements(nargs, pot, out):
    """matrix of a symmetric one-electron operator, linear in the coefficients of both functions (and of the potential)"""
    def f(S, a):
        if len(a) != nargs: return NotImplemented
        X, Y = content(S, a[0]), content(S, a[1]); cx, cy = clist(S, a[0]), clist(S, a[1]); us = [(F(1, 1, 1.0), 'S')] if not pot else [(w, ('U', k, tuple(S.cread(a[2], 8 * t).v for t in range(3)))) for w, k in pterms(S, a[3])]
        w = [(wx * wy * wu, kx, ky, ku) for wx, kx in X for wy, ky in Y for wu, ku in us]
        for i, ci in enumerate(cx):
            for j, cj in enumerate(cy):
                t = F(0, 0)
                for f_, kx, ky, ku in w: t = t + f_ * S.R.uf('%s%s' % (ku, sorted([(kx, ci), (ky, cj)])), [], .4 + .03 * ci[0] - .02 * cj[1])
                S.cwrite(a[out], 8 * (i * len(cy) + j), t)
        return None
    return f


def install(S, base):
    K = KINDS[base]; S.uncontract(); ENV.clear()
    if K.contracts: K.contracts(S)
    if base in ('type2', 'type2_mod', 'spin_orbit', 'spin_orbit_mod'): S.contract('tabulate_radial_type2_integrals', c_tabulate); S.contract('get_radial_type2_integral', c_get)
    if base == 'outercore': S.contract('libgrpp_overlap_integrals', c_elements(3, False, 2)); S.contract('libgrpp_type1_integrals', c_elements(5, True, 4))


def swap_env(base):
    if base.startswith('nuclear_fin'): p = checks_nuc.ENV['p']; checks_nuc.ENV['p'] = dict(p, A=p['B'], B=p['A'])


# ------------------------------------------------------------------ runs
def set_coefs(S, p, struct, vals):
    c = View(S, struct, p).get('coeffs')
    if dvlib.L.dv_obj_range(c.a) >= 0: v = f2v(vals[0]); dvlib.L.dv_sym_set(c.a, 0, 8, C.byref(v)); return
    for k, x in enumerate(vals): S.cwrite(c, 8 * k, x)


def public(base): return 'nuclear' if base.startswith('nuclear') else base.split('_mod')[0]


def e_rel(S, base, cfg, what):
    """what: swap, or the object whose coefficients are varied (A, B, U, V0..)"""
    install(S, base); K = KINDS[base]; inp = cases.Inp(S, cfg.get('geom', 'gen'), cases.Sample(cfg.get('seed', 0)), cfg.get('axis', '')); fn, p, args, nat = K.setup(S, inp, cfg)
    nA, nB = cases_n(p['A']), cases_n(p['B']); sg = SIGN[public(base)]; pr = []
    def run(args, tag):
        ENV.clear(); outs = [S.garbage(nA * nB, '%s %d' % (tag, k)) for k in range(K.nout)]; S.call(fn, *args, *[S.ptr(o) for o in outs])
        return [S.read_reals(o, nA * nB)[0] for o in outs]
    if what == 'swap':
        x = run(args, 'AB'); swap_env(base); y = run([args[1], args[0]] + args[2:], 'BA')
        for m, s in enumerate(sg):
            w = [(i, j) for i in range(nA) for j in range(nB) if (x[m][i * nB + j] - s * y[m][j * nA + i]) % dvlib._P]
            if w: pr.append('%s: matrix %d is not the %s of the matrix with bra and ket exchanged (%d of %d elements, first [%d,%d])' % (fn, m, 'transpose' if s == 1 else 'negative transpose', len(w), nA * nB, *w[0])); break
        return pr
    obj = p[what] if what in 'AB' else p['pot'] if what == 'U' else None
    objs = [(obj, 'libgrpp_shell_t' if what in 'AB' else 'libgrpp_potential_t')] if obj is not None else [(po, 'libgrpp_potential_t') for po, sh in p['oc']]
    s, t = S.sym('s', .7), S.sym('t', -1.2); v1 = [[c for _, c, *_ in o['terms']] for o, _ in objs]; v2 = [[S.sym('d%d_%d' % (i, k), c.x * .8 + .1) for k, c in enumerate(v)] for i, v in enumerate(v1)]
    r = []
    for k, v in enumerate((v1, v2, [[s * a + t * b for a, b in zip(x, y)] for x, y in zip(v1, v2)])):
        for (o, st), x in zip(objs, v): set_coefs(S, o['ptr'], st, x)
        r.append(run(args, 'run %d' % k))
    for m in range(K.nout):
        w = [k for k in range(nA * nB) if (s.v * r[0][m][k] + t.v * r[1][m][k] - r[2][m][k]) % dvlib._P]
        if w: pr.append('%s: matrix %d is not linear in the coefficients of %s (%d of %d elements, first %d)' % (fn, m, what, len(w), nA * nB, w[0])); break
    return pr


def cases_n(sh): return cases.ncomp(sh) if hasattr(cases, 'ncomp') else kinds.ncomp(sh)


# ------------------------------------------------------------------ the same relations on the compiled library
def relations(lib, kind, q, seed):
    import copy
    nat = {}
    def scale():       # natural scale (sum of absolute contributions) of the reference
        if 's' not in nat:
            K = KINDS[{'nuclear': 'nuclear_fin'}.get(kind, kind)]; nat['s'] = max((K.oracle(q) if K.oracle else kinds.oracle(kind, q))[1])
            if kind in ('overlap', 'kinetic', 'momentum'):      # rounding is relative to the norms of the two functions
                d = [np.array(lib.run('overlap', dict(A=q[x], B=q[x]))[0]).reshape(nsize(q[x]['L']), -1).diagonal().max() * (1 + max(q[x]['alpha'])) ** 2 for x in 'AB']; nat['s'] = max(nat['s'], 1e-2 * (d[0] * d[1]) ** .5)
        return nat['s'] * 10
    run = lambda q: [np.array(m) for m in lib.run(kind, q)]; r = random.Random(seed); pr = []; nA, nB = nsize(q['A']['L']), nsize(q['B']['L']); sg = SIGN[kind]
    at = (KINDS[{'nuclear': 'nuclear_fin'}.get(kind, kind)].atol or (lambda q: 0.0))(q)
    x = run(q); sc = max(np.abs(m).max() for m in x)
    sq = dict(q, A=q['B'], B=q['A']); y = run(sq)
    for m, s in enumerate(sg):
        d = np.abs(x[m].reshape(nA, nB) - s * y[m].reshape(nB, nA).T)
        if not d.max() <= 1e-8 * sc + at and not d.max() <= 1e-9 * scale() + at: i = np.unravel_index(d.argmax(), d.shape); pr.append('%s: matrix %d element %s is %.15g, with bra and ket exchanged %.15g' % (kind, m, tuple(int(z) for z in i), x[m].reshape(nA, nB)[i], s * y[m].reshape(nB, nA).T[i]))
    objs = [('A',), ('B',)] + ([('pot',)] if q.get('pot') else []) + ([('oc',)] if q.get('oc') else [])
    for o in objs:
        s, t = r.uniform(.5, 1.5), r.uniform(-1.5, -.5); new = [lambda c: c, lambda c: [u * w for u, w in zip(c, W)], None]; ms = []; k_ = o[0]
        base = [q[k_]] if k_ != 'oc' else [u for u, _ in q['oc']]; Ws = [[r.uniform(.5, 2) * r.choice([-1, 1]) for _ in b['coeffs']] for b in base]
        for how in range(3):
            nb = [dict(b, coeffs=list(b['coeffs']) if how == 0 else [c * w for c, w in zip(b['coeffs'], W)] if how == 1 else [s * c + t * c * w for c, w in zip(b['coeffs'], W)]) for b, W in zip(base, Ws)]
            ms.append(run(dict(q, **({k_: nb[0]} if k_ != 'oc' else {'oc': [(n, sh) for n, (_, sh) in zip(nb, q['oc'])]}))))
        S_ = max(abs(s) * np.abs(a).max() + abs(t) * np.abs(b).max() for a, b in zip(ms[0], ms[1]))
        for m in range(len(x)):
            d = np.abs(s * ms[0][m] + t * ms[1][m] - ms[2][m])
            if not d.max() <= 1e-8 * S_ + at * 4 and not d.max() <= 1e-9 * scale() + at * 4: i = int(d.argmax()); pr.append('%s: matrix %d is not linear in the coefficients of %s: element %d is %.15g, combination %.15g' % (kind, m, k_, i, ms[2][m][i], (s * ms[0][m] + t * ms[1][m])[i]))
    return pr[:3]


def n_rel(lib, kind, cfg, seed, mode='mid', nprim=2):
    q = rand_q({'nuclear': 'nuclear_fin'}.get(kind, kind), cfg, seed, mode, nprim)
    if kind == 'full':
        for x in ('arep', 'esop'): pass
    return relations(lib, kind, q, seed)


def C26():
    chk = Check('C26'); S = session(); checks_func.tables(S, 22); quick = TIER == 'quick'; r = random.Random(SEED); T = []
    def add(base, cfg, whats, cost=None, nat=None):
        for w in whats:
            c = dict(cfg); k = public(base); nc = {x: v for x, v in c.items() if x not in ('prim', 'sub', 'modular', 'primU')}; big = c['LA'] + c['LB'] + c.get('L', 0) > 9
            T.append(scen('%s: %s %s' % (k, 'exchange' if w == 'swap' else 'linear in ' + w, {x: v for x, v in c.items() if x != 'sub'}), e_rel, dict(base=base, cfg=c, what=w), n_rel if nat else None, [(k, nc, SEED * 13 + 1 + z, 'mid', 1 + z % 2) for z in range(nat)] if nat else None, cost=cost or (c['LA'] + c['LB']) ** 3, timeout=60))
    lin = lambda k: 'AB' if k % 2 else 'BA'
    for LA, LB in pairs(range(11)):
        if LA > LB and quick and LA + LB > 6: continue
        for b in ('overlap', 'kinetic', 'momentum'): add(b, dict(LA=LA, LB=LB, prim='sym' if LA + LB < 14 else 1), ['swap'] + ['A', 'B'] * (LA + LB < 6) + [r.choice('AB')] * (6 <= LA + LB), nat=1 if r.random() < .12 else 0)
    for LA, LB in pairs(range(8)):
        s = LA + LB
        if s <= 4: add('type1', dict(LA=LA, LB=LB, prim='sym', powers=r.randint(0, 2)), ['swap', 'A', 'B', 'U'], nat=1)
        elif s <= 7 and LA <= LB: add('type1', dict(LA=LA, LB=LB, prim=1, powers=r.randint(0, 2)), ['swap'] + [r.choice('ABU')] * (s < 6), cost=s ** 5)
        if s <= 3: add('nuclear_point', dict(LA=LA, LB=LB, prim='sym', model='point'), ['swap', 'A', 'B'])
        if s <= 4: add('nuclear_fin', dict(LA=LA, LB=LB, prim='sym' if s < 3 else 1, model=r.choice(['ball', 'gaussian', 'fermi', 'fermi_bubble', 'point_numerical'])), ['swap'] + ['A', 'B'] * (s < 3), nat=1)
        elif s <= 6 and LA <= LB: add('nuclear_fin_mod', dict(LA=LA, LB=LB, prim=1, model=r.choice(['ball', 'gaussian', 'fermi', 'fermi_bubble'])), ['swap'], cost=s ** 5)
    for L in range(11):
        for LA, LB in pairs(range(11)):
            s = LA + LB + L
            for b in ('type2', 'spin_orbit'):
                if LA <= 2 and LB <= 2 and L <= 2 and s <= 4: add(b, dict(LA=LA, LB=LB, L=L, prim='sym'), ['swap', 'A', 'B', 'U'], nat=1 if s < 3 or r.random() < .3 else 0, cost=1e4)
                elif max(LA, LB) <= 3 and s <= 7 or r.random() < (.02 if quick else .3):
                    c = dict(LA=LA, LB=LB, L=L, modular=1, prim='sym')
                    if s > 5: c['sub'] = [sorted(sorted(range(nsize(x)), key=lambda j: ((np.array(spec.carts(x)[j]) + 1).prod(), r.random()))[:2]) for x in (LA, LB)]
                    add(b + '_mod', c, ['swap'] + [r.choice('ABU')], cost=s ** 3)
    for oc in ([(0, 1)], [(1, 1)], [(1, 3)], [(2, 3), (2, 5)], [(1, 1), (1, 1)], [(0, 1), (1, 3), (1, 3)], [(3, 5), (3, 5), (2, 5)], [(5, 9)], [(10, 21)]):
        oc = [(L, J, k % 3) for k, (L, J) in enumerate(oc)]
        for LA, LB in ((0, 0), (1, 0), (0, 2), (1, 1), (2, 1), (3, 3), (4, 1)):
            if oc[0][0] > 4 and LA + LB > 2: continue
            add('outercore', dict(LA=LA, LB=LB, oc=oc, prim='sym', primO=1, primU=1 if len(oc) > 1 or oc[0][0] > 4 else 2), ['swap', 'A', 'B', 'V'], cost=1e3 * len(oc), nat=1 if LA + LB < 3 and oc[0][0] < 4 else 0)
    G = dict(local=1, arep=[0, 1], esop=[1, 2], oc=[(1, 1), (1, 3)])
    for k in range(8 if quick else 60):
        LA, LB = [(0, 1), (1, 1), (2, 0), (1, 2)][k % 4]
        T.append(scen('full operator on the compiled library %d' % k, None, None, n_rel, [('full', dict(LA=LA, LB=LB, grpp=G, geom=list(cases.GEOMS)[k % 5]), SEED + k, 'mid', 1)], cost=1e5))
    for k, (kd, c) in enumerate([(kd, dict(LA=LA, LB=LB, L=L, model='gaussian', oc=[(L % 4, 2 * (L % 4) + 1, 2)], geom=list(cases.GEOMS)[L % 5])) for kd in ('overlap', 'kinetic', 'momentum', 'type1', 'type2', 'spin_orbit', 'nuclear', 'outercore') for LA, LB, L in ((3, 5, 2), (6, 2, 4), (0, 7, 1), (10, 1, 0), (4, 4, 3), (2, 3, 8))]):
        T.append(scen('%s on the compiled library L=%d,%d/%d' % (kd, c['LA'], c['LB'], c['L']), None, None, n_rel, [(kd, c, SEED * 7 + k, 'mid', 1)], cost=1e5, timeout=100))
    T = [t for t in T if not (t['scen'][3] and t['scen'][4] and t['scen'][4][0][0] == 'nuclear' and t['scen'][4][0][1]['LA'] > 8)]     # too slow
    run_tasks(chk, T, chk.t0 + 480)
    chk.assumptions = ['contracts of the helpers used here: radial integrals symmetric under exchange of the two functions and linear in all coefficients (C25); overlap and local matrices inside the outercore routine likewise (established here for those routines themselves); model potentials and angular integrals are functions of their arguments',
                       'linearity holds up to the screening thresholds of the code, which are zero tests here']
    return chk
