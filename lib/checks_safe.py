"""C20, C21: memory contracts and frame conditions of every public integral and gradient routine.
Each configuration is executed symbolically (any contraction lengths, coefficients, exponents, positions); every
access carries a built-in obligation (inside a live block, initialised, not an input nor library-wide state).
The helper routines that enter by contract have the same obligations of their own."""
import math, random
from verify import *
from scen import *
import checks_analytic, checks_oc, checks_full, checks_nuc, checks_semi, checks_func, checks_radial, semi, purity

MEM = ('OOB', 'UNINIT', 'NULL', 'NULLDEREF', 'LEAK', 'BADFREE', 'DOUBLE_FREE', 'USE_AFTER_FREE', 'ABORT', 'ASSERT', 'UNREACHABLE', 'OUTPUT', 'INTOVERFLOW')
FRM = ('FRAME', 'GARBAGE_BRANCH')


def nk(kind):
    k = kinds.KINDS[kind].native or kind
    return k


def show(e): return '%s in %s line %s: %s' % (e['kind'], e.get('func'), e.get('line'), e.get('msg'))


# ------------------------------------------------------------------ native confirmation
def n_uninit(kind, qs):
    """do the results depend on the contents of uninitialised storage?"""
    out = []
    for v in ('zero', 'pattern'): out.append(native.run_batch([('py', dict(f=purity.n_value, args=(kind, q))) for q in qs], 60, lib=native.build_native(variant=v)))
    pr = []
    for q, (s1, a), (s2, b) in zip(qs, *out):
        if s1 != 'ok' and s1 != 'crash' or s2 not in ('ok', 'crash'): pr.append(None); continue
        if s1 != s2: pr.append('the routine fails or not depending on uninitialised storage: %s' % (a if s1 == 'crash' else b)); continue
        if s1 == 'crash': pr.append('the routine crashes: ' + a); continue
        sc = max([abs(x) for m in a for x in m] + [1e-30]); d = None
        for k, (m, n) in enumerate(zip(a, b)):
            for j, (x, y) in enumerate(zip(m, n)):
                if not abs(x - y) <= 1e-9 * sc + 1e-13 and d is None: d = 'matrix %d element %d is %.15g or %.15g depending on the contents of uninitialised storage' % (k, j, x, y)
        pr.append(d)
    return pr


def crash(qs, kind, lib, timeout=100):
    out = []
    for st, v in native.run_batch([(kind, q) for q in qs], timeout, lib=lib): out.append(v if st == 'crash' else None)
    return out


def py(f, kind, qs, lib=None, timeout=100):
    out = []
    for st, v in native.run_batch([('py', dict(f=f, args=(kind, q))) for q in qs], timeout, lib=lib):
        out.append(v if st == 'crash' else '; '.join(v) if st == 'ok' and v else None)
    return out


def replay(prop, kind, qs, what):
    """(q, problem) of the first input on which the compiled library breaks the memory contract / is not pure"""
    T = []
    if prop == 'C20':
        if what & {'UNINIT', 'OUTPUT'}: T.append(lambda x: n_uninit(kind, x))
        T.append(lambda x: crash(x, kind, native.build_native(True)))
        if 'LEAK' in what: T.append(lambda x: py(purity.n_leak, kind, x))
    else: T.append(lambda x: py(purity.n_pure, kind, x, native.build_native(variant='now')))
    for t in T:
        for q, p in zip(qs, t(qs)):
            if p: return q, p
    return None


# ------------------------------------------------------------------ engine obligation
def t_safe(task):
    prop, kind, cfg = task['prop'], task['kind'], task['cfg']; out = dict(obs=[], safety=0, native=0, elements=0, sites=[], cfg=cfg, functions=[], notes=[]); nm = label(kind, cfg); res = None; unsup = None
    dvlib.L.dv_reset_calls(); ladder = [cfg]
    if cfg.get('prim', 'sym') == 'sym': ladder += [dict(cfg, prim=2), dict(cfg, prim=1)]
    for c in ladder:
        try: res = kinds.run(session(), kind, c, value=False); break
        except Unsupported as e: unsup = unsup or str(e)[:300]
    out['functions'] = session().executed()
    if res is None:
        out['obs'].append((nm, 'bounded' if task.get('modular') else 'undecided', 'outside the verifier: %s; native samples only' % unsup, None)); return out
    out['safety'] = res.get('safety', 0); ev = list(res.get('events', []))
    if isinstance(res.get('fatal'), dict) and res['fatal'] not in ev: ev.append(res['fatal'])
    want = MEM if prop == 'C20' else FRM; hit = [e for e in ev if e['kind'] in want]
    if prop == 'C21' and res.get('garb'): hit.append(dict(kind='GARBAGE', func=kind, line=0, msg='the result depends on the previous contents of the output matrices'))
    if not hit:
        if res.get('fatal'): out['obs'].append((nm, 'undecided', 'execution stops: %s' % (res['fatal'],), None)); return out
        out['obs'].append((nm, 'bounded' if c is not cfg else 'proved', None if c is cfg else 'number of primitives fixed: %s' % unsup, None)); return out
    sc = strip_cfg(cfg); s = cfg['LA'] + cfg['LB'] + cfg.get('L', 0); k = nk(kind); qs = [q for q in (res.get('native'),) if q and not cfg.get('sub')]
    for j in range(3 if s < 12 else 1):
        try: qs.append(rand_q(kind, sc, j + 1, 'mid', 1 + j % 3))
        except Exception: pass
    r = replay(prop, k, qs, {e['kind'] for e in hit}); out['native'] += len(qs)
    if r: out['obs'].append((nm, 'violation', dict(obligation=[show(e) for e in hit[:3]], native=r[1]), dict(kind=k, input=slim(r[0]))))
    else: out['obs'].append((nm, 'undecided', '; '.join(show(e) for e in hit[:2]) + ' (not confirmed on the compiled library)', None))
    return out


def e_only(S, prop, fn, args):
    """the memory (frame) obligations of a helper's contract; its value is the business of another property"""
    want = MEM + ('FREE', 'UAF') if prop == 'C20' else FRM
    return [p for p in fn(S, **args) if p.split(' ')[0] in want or prop == 'C20' and ('released' in p or 'unwritten' in p)]


# ------------------------------------------------------------------ helpers
def e_calls(S, fn, calls, out=0):
    """a helper on sampled orders and symbolic real arguments: accesses only"""
    pr = []; L_ = dvlib.L
    for c in calls:
        cp = S.checkpoint(); a = [S.sym('x%d' % k, x) if isinstance(x, float) else x for k, x in enumerate(c)]; o = S.garbage(out(c), 'out') if out else None
        p, _, _ = frame_call(S, fn, *a, *([S.ptr(o)] if out else [])); pr += p; S.undo(cp)
        if pr: break
    return pr


def e_radtab(S, l1, l2, n, screen):
    """the radial tables at any distances: only accesses inside the tables and grids"""
    S.contract('modified_bessel_scaled', checks_radial.c_bessel); inp = cases.Inp(S, 'gen', cases.Sample(3)); A = inp.shell('A', 2, 1); B = inp.shell('B', 1, 1); U = inp.pot('U', 1, 1, 1, 1); x = S.sym('CA', .8, True); y = S.sym('CB', 1.1, True); scr = S.sym('screened', .5)
    def c_screen(S, a): S.cwrite(a[8], 0, scr); return S.int(1)
    S.contract('screening_radial_type2', c_screen); pr, t, mark = frame_call(S, 'tabulate_radial_type2_integrals', l1, l2, n, x * x, y * y, U['ptr'], A['ptr'], B['ptr'])
    for a in range(l1 + 1):
        for b in range(l2 + 1):
            for m in range(n + 1): p, _, _ = frame_call(S, 'get_radial_type2_integral', t, a, b, m); pr += p
    S.call('delete_radial_type2_integrals', t)
    if S.live(mark): pr.append('LEAK: memory of the radial table is not released')
    return pr


# ------------------------------------------------------------------ the domain
PRM = dict(local=1, arep=[1], esop=[2], oc=[(1, 3)])


def domain(r, quick):
    """(kind, cfg, modular) over the documented domain"""
    D = []; add = lambda k, c, m=False: D.append((k, c, m)); P = ['gen', 'gen/A', 'gen/B', 'AB', 'AB/A', 'AB/C']
    full = lambda s, p=.25: not quick or s <= 5 or r.random() < p
    for LA, LB in pairs(range(11)):
        c = dict(LA=LA, LB=LB); s = LA + LB; edge = (LA, LB) in ((10, 10), (10, 0), (0, 10), (9, 10), (10, 9))
        for k in ('overlap', 'kinetic', 'momentum'): add(k, dict(c, prim='sym' if s < 12 else 1))
        for g in (P if s < 4 else [r.choice(P[1:3])] + ([r.choice(P)] if edge else [])): add('overlap_gradient', dict(c, geom=g, prim='sym' if s < 12 else 1))
        add('type1_mod', dict(c, prim='sym', powers=r.randint(0, 2)), True); add('nuclear_point_mod', dict(c, prim='sym', model='point'), True)
        if s <= 7 and full(s): add('type1', dict(c, prim='sym' if s < 5 else 1, powers=r.randint(0, 2)))
        elif (LA, LB) in ((10, 0), (0, 10), (1, 9), (8, 2), (5, 5)): add('type1', dict(c, prim=1, powers=2 * (LA > LB)))
        if s <= 3 or s <= 6 and full(s): add('nuclear_fin', dict(c, prim='sym' if s < 3 else 1, model=r.choice(('ball', 'gaussian', 'fermi', 'fermi_bubble', 'point_numerical'))))
        if s <= 8 and full(s) or (LA, LB) in ((10, 0), (0, 10)): add('nuclear_fin_mod', dict(c, prim=1, model=r.choice(('ball', 'gaussian'))), True)
        if s <= 6 or edge or full(s): add('full', dict(c, grpp=PRM, prim='sym'))
        for g in (checks_full.PG if s <= 2 else ['gen/A', r.choice(checks_full.PG)] if s < 7 or edge else []): add('full_gradient', dict(c, geom=g, grad=1, grpp=PRM, prim='sym' if s < 9 else 1))
    for g in ('AB', 'AC', 'BC', 'ABC'):
        for k, x in (('overlap', {}), ('kinetic', {}), ('momentum', {}), ('type1', dict(powers=1)), ('type2', dict(L=1)), ('spin_orbit', dict(L=1)), ('nuclear_fin', dict(model='fermi')), ('outercore', dict(oc=[(1, 3, 1)])), ('full', dict(grpp=PRM))):
            add(k, dict(x, LA=1, LB=2 if k[0] in 'okm' else 1, geom=g, prim='sym' if k in ('overlap', 'kinetic', 'momentum') else 1))
    for L in range(11):
        for LA, LB in pairs(range(11)):
            s = LA + LB + L
            for k in ('type2', 'spin_orbit'):
                if max(LA, LB, L) <= 2 and s <= 4: add(k, dict(LA=LA, LB=LB, L=L, prim='sym'))
                if s <= 5 or (LA, LB, L) in ((10, 10, 10), (10, 0, 10), (0, 10, 10), (10, 10, 0), (0, 0, 10), (0, 0, 9), (5, 5, 10), (7, 3, 9)) or r.random() < (.03 if quick else .4):
                    c = dict(LA=LA, LB=LB, L=L, modular=1, prim='sym')
                    if s > 4: c['sub'] = [checks_semi.small_comp(r, x, 2 if s < 15 else 1) for x in (LA, LB)]
                    add(k + '_mod', c, True)
                    if s <= 3 or r.random() < .1: add(k + '_mod', dict(c, geom=r.choice(['AB', 'AC', 'BC', 'ABC'])), True)
                    if s <= 3 or r.random() < .1: add(k + '_mod', dict(c, qzero=1 + r.randrange(3)), True)
        for s in (1, -1):
            if L == 0 and s < 0: continue
            J = 2 * L + s if L else 1
            for LA, LB in ((0, 0), (1, 2), (2, 1)) + (((4, 4),) if L < 4 else ()): add('outercore_mod', dict(LA=LA, LB=LB, oc=[(L, J, 2)], prim='sym'), True)
            add('outercore', dict(LA=1, LB=1, oc=[(L, J, r.randint(0, 2))], prim=1))
    for oc in ([], [(1, 3, 2), (1, 3, 1)], [(0, 1, 1), (1, 1, 1), (1, 3, 1), (2, 3, 1)], [(3, 7, 1), (1, 3, 1), (3, 7, 2)]): add('outercore_mod', dict(LA=1, LB=1, oc=oc, prim='sym'), True); add('outercore', dict(LA=0, LB=1, oc=[(a, b, 1) for a, b, _ in oc], prim=2))
    for oc in ([(0, 1, 1)], [(1, 3, 1), (1, 3, 1)]): add('outercore_inl', dict(LA=1, LB=0, oc=oc, inl=1, prim=1))
    for LA, LB in ((0, 0), (1, 0), (1, 1), (2, 1)):
        for g in ('gen/A', 'gen/B', 'gen/C', 'AB/A', 'AB/C', 'AC/A', 'BC/B', 'ABC/A', 'gen'):
            b = dict(LA=LA, LB=LB, geom=g, grad=1, prim='sym')
            for k in ('type1', 'type2', 'spin_orbit'): add(k + '_gradient', dict(b, L=r.randint(0, 10)))
            add('outercore_gradient', dict(b, oc=r.choice([[(1, 3)], [], [(1, 1), (1, 3), (0, 1)]])))
    for LA, LB in ((10, 10), (6, 5), (0, 10)):
        for k in ('type1', 'type2', 'spin_orbit', 'outercore'):
            b = dict(LA=LA, LB=LB, geom=r.choice(['gen/A', 'gen/B', 'gen/C']), grad=1, prim=1); add(k + '_gradient', dict(b, oc=[(1, 3)]) if k[0] == 'o' else dict(b, L=r.randint(1, 10)))
    for o in (dict(), dict(local=1), dict(arep=['sym', 3], esop=['sym', 10]), dict(local=1, arep=[3, 1, 1, 0], esop=[2, 1]), dict(oc=[(10, 21), (2, 3)])):
        add('full', dict(LA=1, LB=2, grpp=o, prim='sym')); add('full_gradient', dict(LA=1, LB=1, geom='gen/C', grad=1, grpp=o, prim='sym'))
    # extreme values
    for k, b in (('overlap', {}), ('kinetic', {}), ('momentum', {}), ('overlap_gradient', dict(geom='gen/A')), ('type1', dict(powers=1)), ('type2', dict(L=1)), ('spin_orbit', dict(L=1)), ('outercore', dict(oc=[(1, 3, 1)])), ('nuclear_fin', dict(model='gaussian')), ('full', dict(grpp=PRM)), ('full_gradient', dict(grpp=PRM, geom='gen/A', grad=1))):
        for j in range(len(cases.EXT) if not quick else 6): add(k, dict(b, LA=j % 2, LB=(j + 1) % 3 if k[0] != 'n' else 1, prim=2 if k != 'outercore' else 1, seed=SEED * 13 * len(cases.EXT) + (j * 5 if quick else j) + len(k), mode='ext'))
    return D


def helpers(prop, r, quick):
    """memory obligations of the routines that enter the others by contract"""
    T = []; h = lambda nm, fn, args, nat=None, nc=None, cost=1e3, bounded=None: T.append(scen(nm, e_only, dict(prop=prop, fn=fn, args=args), nat if prop == 'C20' else None, nc if prop == 'C20' else None, lib='asan' if nat else None, cost=cost, bounded=bounded))
    v = lambda: [round(r.uniform(-2, 2), 3) for _ in range(3)]; q = lambda mod, fn, *a: ('checks_' + mod, fn, a)
    for l in list(range(0, 13)) + [16, 20, 22]: h('real spherical harmonics, l=%d' % l, checks_func.e_rsh, dict(l=l, single=l < 5), purity.n_quiet, [q('func', 'n_rsh', l, tuple(v())), q('func', 'n_rsh', l, (0.0, 0.0, 0.0))])
    for l in (20, 21): h('harmonics at the operator centre, l=%d' % l, checks_func.e_rsh, dict(l=l, single=False, zero=True))
    tr = [(lam, a, b, n - a - b) for lam in range(0, 21) for n in (r.randint(0, 20),) for a in (r.randint(0, n),) for b in (r.randint(0, n - a),)]; h('type-1 angular integrals', checks_func.e_ang1, dict(lam=3, trip=[(a, b, c) for a in range(4) for b in range(4) for c in range(3)]), purity.n_quiet, [q('func', 'n_ang', tuple(tr), tuple(v()))])
    tu = checks_func.ang2_tuples(r, 8, 20, 10, 10) + [(20, 10, 10, 10, 0, 0), (20, 10, -10, 0, 0, 10)]; h('type-2 angular integrals', checks_func.e_ang2, dict(tup=checks_func.ang2_tuples(r, 20, 8, 4, 4)), purity.n_quiet, [q('func', 'n_ang', tuple(tu), tuple(v()))])
    h('type-2 angular integrals, high orders', checks_func.e_ang2, dict(tup=checks_func.ang2_tuples(r, 3, 20, 10, 10)))
    for L in range(11): h('matrices of l, L=%d' % L, checks_func.e_lmat, dict(L=L), purity.n_quiet, [q('func', 'n_lmat', L)])
    xs = dict(boys_values=[0.01, 3.3, 29.949, 29.97, 30.0, 30.5, 1e5], gfun_values=[0.001, 2.1, 11.9, 12.3, 1e4])
    for fn in xs: h('%s, orders to 22' % fn, e_calls, dict(fn=fn, calls=[(x, n) for x in xs[fn] for n in (0, 1, 5, 22)], out=lambda c: c[1] + 1), purity.n_quiet, [q('func', 'n_eval', fn, (0, n), tuple(xs[fn] + [0.0, 29.9999999])) for n in (0, 1, 7, 22)])
    for fn, ns, x in (('modified_bessel_scaled', (0, 1, 2, 9, 20, 21, 22), [0.0, 5e-8, 1e-7, .003, 7.7, 15.9951, 16.0, 16.01, 1e4]), ('specfunc_fermi_sk', (2, 3, 7), [-1e-9, -.0051, -3.3, -9.99999, -10.0, -13.9, -15.0, -31.0])):
        h('%s over its range' % fn, e_calls, dict(fn=fn, calls=[(n, t) for t in x for n in ns]), purity.n_quiet, [q('func', 'n_eval', fn, ns, tuple(x))])
    h('Dawson integral over its range', e_calls, dict(fn='Dawsons_Integral', calls=[(t,) for t in (0.0001, .5, 1.01, 1.8, 3.0, 4.0, 5.0, 7.0, 7.3, 1e3)]), purity.n_quiet, [q('func', 'n_eval', 'Dawsons_Integral', None, (0.0, .5, 1.0, 1.75, 3.0, 4.0, 5.0, 7.0, 7.25, 1e3))])
    for l1, l2, n, s in ((0, 0, 0, 'x'), (2, 1, 3, 'x'), (1, 4, 2, 'x')): h('type-2 radial table (%d,%d,%d)' % (l1, l2, n), e_radtab, dict(l1=l1, l2=l2, n=n, screen=s), cost=1e5)
    rq = [checks_radial.rad2_input(SEED * 50 + k, 'mid', 2, a, b, n, kd) for k, (a, b, n, kd) in enumerate(((20, 20, 20, 'gen'), (0, 7, 0, 'AC'), (3, 3, 20, 'AB'), (20, 0, 1, 'tiny')))]
    h('radial tables, highest orders', checks_radial.e_rad2, dict(centre='AB', l1=3, l2=3, nmax=20, LA=1, LB=2, seed=9), purity.n_quiet, [('checks_radial', 'n_rad2', (x,)) for x in rq])
    h('type-1 radial table', checks_radial.e_rad1, dict(lmax=0), purity.n_quiet, [('checks_radial', 'n_rad1', (dict(l=l, CA2=.4, CB2=1.1, aA=.7, aB=1.9, k=2.2, pre=1.0, m=0, p=.4),)) for l in (0, 1, 20)])
    return T


# ------------------------------------------------------------------ native samples
def samples(r, quick):
    """(kind, cfg, q): every routine, high orders, all placements, several contraction lengths"""
    out = []; G = list(cases.GEOMS)
    def add(k, c, mode='mid', n=1): out.append((nk(k), rand_q(k, c, SEED * 97 + len(out), mode, n)))
    ge = ['gen', 'AB', 'AC', 'BC', 'ABC']
    for j, (LA, LB) in enumerate(((10, 10), (9, 10), (0, 10), (10, 1), (3, 2), (0, 0))):
        for k in ('overlap', 'kinetic', 'momentum'): add(k, dict(LA=LA, LB=LB, geom=ge[j % 2]), 'mid', 1 + j % 3)
        add('overlap_gradient', dict(LA=LA, LB=LB, geom=('gen/A', 'gen/B', 'AB/A', 'gen')[j % 4]), 'mid', 1 + j % 2)
    for j, (LA, LB) in enumerate(((10, 10), (6, 5), (0, 10), (2, 3), (1, 0))): add('type1', dict(LA=LA, LB=LB, geom=ge[j % 5]), 'mid', 1 + j % 2 if LA + LB < 12 else 1)
    for L in range(11):
        for k in ('type2', 'spin_orbit'): add(k, dict(LA=L % 3, LB=(L + 1) % 2, L=L, geom=ge[L % 5]), 'mid', 1 + L % 3)
    for k, t in (('type2', ((7, 0, 10), (0, 8, 9), (4, 5, 3))), ('spin_orbit', ((5, 0, 10), (0, 6, 9), (3, 4, 3)))) if quick else (('type2', ((10, 0, 10), (0, 10, 9), (5, 6, 3))), ('spin_orbit', ((10, 0, 10), (0, 10, 9), (4, 5, 3)))):
        for LA, LB, L in t: add(k, dict(LA=LA, LB=LB, L=L))
    for L in range(11): add('outercore', dict(LA=L % 2, LB=1, oc=[(L, 2 * L + 1, 0)], geom=ge[L % 5]), 'mid', 1 + L % 2)
    add('outercore', dict(LA=2, LB=2, oc=[])); add('outercore', dict(LA=10, LB=0, oc=[(1, 3, 0), (1, 1, 0), (0, 1, 0)])); add('outercore', dict(LA=0, LB=10, oc=[(3, 7, 0)]))
    for j, m in enumerate(checks_nuc.MODEL_ID): add('nuclear_fin', dict(LA=(2, 0, 1, 3, 0, 1)[j % 6], LB=j % 3, model=m, geom=ge[j % 5]), 'mid', 1 + j % 2)
    add('nuclear_fin', dict(LA=10, LB=10, model='point')); add('nuclear_fin', dict(LA=6, LB=1, model='gaussian'))
    for j, o in enumerate((dict(), dict(local=1), dict(arep=[0, 1, 2], esop=[1]), dict(oc=[(1, 3), (2, 3)]), PRM)):
        add('full', dict(LA=j % 3, LB=1, grpp=o, geom=ge[j]), 'mid', 1 + j % 2); add('full_gradient', dict(LA=j % 3, LB=1, grpp=o, geom=checks_full.PG[j + 1], grad=1), 'mid', 1)
    add('full', dict(LA=4, LB=0, grpp=PRM)); add('full_gradient', dict(LA=0, LB=3, grpp=PRM, geom='gen/C', grad=1))
    for j, g in enumerate(('gen/A', 'gen/B', 'gen/C', 'AB/A', 'AC/B', 'ABC')):
        for k in ('type1', 'type2', 'spin_orbit'): add(k + '_gradient', dict(LA=j % 3, LB=1, L=(j * 2) % 11, geom=g, grad=1), 'mid', 1 + j % 2)
        add('outercore_gradient', dict(LA=j % 2, LB=1, oc=[(j % 4, 2 * (j % 4) + 1)], geom=g, grad=1))
    for j in range(12 if quick else 60):
        k, c = (('overlap', dict(LA=2, LB=3)), ('type1', dict(LA=1, LB=2)), ('type2', dict(LA=1, LB=1, L=2)), ('spin_orbit', dict(LA=1, LB=2, L=1)), ('outercore', dict(LA=0, LB=1, oc=[(1, 1, 0)])), ('nuclear_fin', dict(LA=1, LB=1, model='point')))[j % 6]; add(k, c, ('wide', 'ext')[j // 6 % 2], 2)
    for j, (k, c) in enumerate((('overlap', {}), ('kinetic', {}), ('momentum', {}), ('type1', {}), ('type2', dict(L=1)), ('spin_orbit', dict(L=1)), ('outercore', dict(oc=[(1, 3, 0)])), ('nuclear_fin', dict(model='gaussian')), ('full', dict(grpp=dict(local=1, arep=[1], esop=[1], oc=[(1, 3)]))))):
        add(k, dict(c, LA=1 + j % 2, LB=1 + j % 2, alias='same', geom='AB'), 'mid', 1)
    return out


def n_task(task):
    what, items = task['what'], task['items']; out = dict(obs=[], native=0, notes=[]); byk = {}
    for k, q in items: byk.setdefault(k, []).append(q)
    for k, qs in byk.items():
        if what == 'asan': p = crash(qs, k, native.build_native(True), 200)
        elif what == 'plain': p = crash(qs, k, None, 200)
        elif what == 'leak': p = py(purity.n_leak, k, qs)
        elif what == 'uninit': p = n_uninit(k, qs)
        elif what == 'pure':
            oth = task.get('others', [])
            p = [(v if st == 'crash' else '; '.join(v) if st == 'ok' and v else None) for st, v in native.run_batch([('py', dict(f=purity.n_pure, args=(k, q, oth))) for q in qs], 120, lib=native.build_native(variant='now'))]
        out['native'] += len(qs)
        for q, x in zip(qs, p):
            nm = '%s L=%d,%d [native, %s]' % (k, q['A']['L'], q['B']['L'], what)
            if x: out['obs'].append((nm, 'violation', dict(native=x), dict(kind=k, input=slim(q))))
            else: out['obs'].append((nm, 'bounded', None, None))
    return out


def n_conc(lib, items): return purity.n_threads(lib, items)


def ntask(what, items, cost=1e6, **kw): return dict(kw, fn=n_task, what=what, items=items, cost=cost)


def groups(items, n):
    return [items[k::n] for k in range(n)]


def size(q): return q['A']['L'] + q['B']['L'] + (q['pot']['L'] if q.get('pot') else 0) + sum(x[0]['L'] for x in q.get('oc', []))


def check(prop):
    chk = Check(prop); S = session(); checks_func.tables(S, 22); dvlib.L.dv_clear_events(); quick = TIER == 'quick'; r = random.Random(SEED * 7 + 1); T = []
    for kind, cfg, mod in domain(r, quick):
        s = cfg['LA'] + cfg['LB'] + cfg.get('L', 0); c = dict(fn=t_safe, prop=prop, kind=kind, cfg=cfg, modular=mod, cost=(s + 1) ** 3)
        T.append(c)
    T += helpers(prop, r, quick); it = samples(r, quick)
    if prop == 'C20':
        for a in (True, None): native.build_native(a)
        for v in ('zero', 'pattern'): native.build_native(variant=v)
        for g in groups(it, 12): T.append(ntask('asan', g)); T.append(ntask('plain', g, 1e5))
        small = [x for x in it if size(x[1]) < 8]
        for g in groups(small, 8): T.append(ntask('leak', g, 1e5)); T.append(ntask('uninit', g, 1e5))
    else:
        native.build_native(variant='now'); small = [x for x in it if size(x[1]) < 8]; oth = [x for x in small if size(x[1]) < 4][:6]
        for g in groups([x for x in it if size(x[1]) < 12], 12): T.append(ntask('pure', g, others=oth))
        for g in groups([x for x in small if size(x[1]) < 5], 4): T.append(scen('concurrent calls on shared inputs', None, None, n_conc, [(g,)], cost=1e6, timeout=120))
    run_tasks(chk, T, chk.t0 + (480 if quick else 3000))
    chk.assumptions = ['angular momenta and the orders of potentials are enumerated up to the documented limit (all pairs of the two-centre routines; a sample of the triples and of the components for the semilocal ones); numbers of primitives are symbolic where the engine follows them',
                       'radial tables, angular integrals and special functions enter the semilocal and nuclear routines by contract and carry the same obligations on their own, at sampled orders',
                       'malloc and calloc succeed; stack depth is not modelled (native runs at L=10 only)'] + (['absence of data races follows from the frame condition (no writes to shared objects); the OpenMP and C runtime are trusted'] if prop == 'C21' else [])
    return chk


def C20(): return check('C20')
def C21(): return check('C21')
