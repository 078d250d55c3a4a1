"""C22: the Fortran entry points against the C interface.  For every entry point the C routine it stands for is
replaced by its contract (an opaque function of the contents of its arguments); the wrapper must produce what the
C construction followed by the C routine produces, change nothing else and release everything."""
import random, ctypes
from verify import *
from scen import *
import spec
from layout import View
from native import GARB, da, ia
from checks_oc import clist, pot_content

# tokens: A B shells; C P points; U1 U UJ potentials (without L / with L / with L and J); V1 V2 outercore (L J potential, shell); UO potential + shell
#         Z charge (int), M nuclear model with parameters, rN real scalars; mN output matrices
G2, N = 'libgrpp_%s_integrals%s', 'libgrpp_nuclear_attraction_integrals'
MAT = {
    'libgrpp_type1_integrals_': ('A B C U1 m1', 'libgrpp_type1_integrals', 'A B C U1 m1'),
    'libgrpp_type2_integrals_': ('A B C U m1', 'libgrpp_type2_integrals', 'A B C U m1'),
    'libgrpp_spin_orbit_integrals_': ('A B C U m3', 'libgrpp_spin_orbit_integrals', 'A B C U m3'),
    'libgrpp_outercore_potential_integrals_part_1_': ('A B C UO m4', 'libgrpp_outercore_potential_integrals_part_1', 'A B C V1 m4'),
    'libgrpp_outercore_potential_integrals_part_2_': ('A B C V1 V2 m4', 'libgrpp_outercore_potential_integrals_part_2', 'A B C V1 V2 m4'),
    'libgrpp_type1_integrals_gradient_': ('A B C U1 P m3', 'libgrpp_type1_integrals_gradient', 'A B C U1 P g1'),
    'libgrpp_type2_integrals_gradient_': ('A B C U P m3', 'libgrpp_type2_integrals_gradient', 'A B C U P g1'),
    'libgrpp_spin_orbit_integrals_gradient_': ('A B C U P m9', 'libgrpp_spin_orbit_integrals_gradient', 'A B C U P g3'),
    'libgrpp_overlap_integrals_': ('A B m1', 'libgrpp_overlap_integrals', 'A B m1'),
    'libgrpp_kinetic_energy_integrals_': ('A B m1', 'libgrpp_kinetic_energy_integrals', 'A B m1'),
    'libgrpp_momentum_integrals_': ('A B m3', 'libgrpp_momentum_integrals', 'A B m3'),
    N + '_': ('A B C Z M m1', N, 'A B C Z M m1'),
    N + '_point_charge_': ('A B C Z m1', N + '_point_charge', 'A B C Z m1'),
    N + '_charged_ball_': ('A B C Z r1 m1', N + '_charged_ball', 'A B C Z r1 m1'),
    N + '_gaussian_model_': ('A B C Z r1 m1', N + '_gaussian_model', 'A B C Z r1 m1'),
    N + '_fermi_model_': ('A B C Z r2 m1', N + '_fermi_model', 'A B C Z r2 m1'),
    N + '_fermi_bubble_model_': ('A B C Z r3 m1', N + '_fermi_bubble_model', 'A B C Z r3 m1'),
    'evaluate_overlap_integral_contracted_': ('a b m1', 'libgrpp_overlap_integrals', 'A B m1'),
}
# scalar routines: argument kinds -> (C routine, its result: d/i, number of output references of the C routine)
SCAL = {'libgrpp_estimate_nuclear_rms_radius_johnson_1985': ('i', 'd', 0), 'libgrpp_estimate_nuclear_rms_radius_golovko_2008': ('i', 'd', 0), 'libgrpp_estimate_fermi_model_parameters': ('d', 'i', 2),
        'libgrpp_charge_density_ball': ('ddd', 'd', 0), 'libgrpp_charge_density_gaussian': ('ddd', 'd', 0), 'libgrpp_charge_density_fermi': ('dddd', 'd', 0), 'libgrpp_charge_density_fermi_bubble': ('ddddd', 'd', 0),
        'libgrpp_coulomb_potential_point': ('dd', 'd', 0), 'libgrpp_coulomb_potential_ball': ('ddd', 'd', 0), 'libgrpp_coulomb_potential_gaussian': ('ddd', 'd', 0), 'libgrpp_coulomb_potential_fermi': ('dddd', 'd', 0),
        'libgrpp_coulomb_potential_fermi_bubble': ('ddddd', 'd', 0), 'libgrpp_rms_radius_fermi': ('idd', 'd', 0), 'libgrpp_rms_radius_fermi_bubble': ('iddd', 'd', 0)}
SETS = {'libgrpp_set_default_parameters': '', 'libgrpp_set_radial_tolerance': 'd', 'libgrpp_set_angular_screening_tolerance': 'd', 'libgrpp_set_modified_bessel_tolerance': 'd', 'libgrpp_set_cartesian_order': 'i', 'libgrpp_init': '', 'libgrpp_finalize': ''}
NPAR = {0: 0, 1: 1, 2: 1, 3: 2, 4: 3, 5: 0}


# ------------------------------------------------------------------ symbolic
def shell_key(S, p):
    from checks_oc import elems
    v = View(S, 'libgrpp_shell_t', p); n = v.get('num_primitives')
    return str((v.int('L'), [v.get('origin', k).v for k in range(3)], (n.kind, n.a, n.i), elems(S, v.get('coeffs'), n), elems(S, v.get('alpha'), n)))


def pot_key(S, p):
    v = View(S, 'libgrpp_potential_t', p); n = v.get('num_primitives'); return str((pot_content(S, p), (n.kind, n.a, n.i)))


def c_routine(name, toks, st):
    """contract of a C integral routine: every element is an opaque function of the contents of the arguments and its two components"""
    def f(S, a):
        st['calls'] += 1; k = 0; key = [name]; X = []; outs = []; model = None
        for t in toks.split():
            if t in 'AB': key.append(shell_key(S, a[k])); X.append(clist(S, a[k])); k += 1
            elif t in 'CP': key.append(str([S.cread(a[k], 8 * x).v for x in range(3)])); k += 1
            elif t[0] == 'U': key.append(pot_key(S, a[k])); k += 1
            elif t[0] == 'V': key += [pot_key(S, a[k]), shell_key(S, a[k + 1])]; k += 2
            elif t == 'Z': key.append('Z%d' % a[k].i); k += 1
            elif t == 'M': key.append('M%d %s' % (a[k].i, [S.cread(a[k + 1], 8 * x).v for x in range(NPAR.get(a[k].i, 0))])); k += 2
            elif t[0] == 'r': key += [str(v2f(a[k + x]).v) for x in range(int(t[1]))]; k += int(t[1])
            elif t[0] == 'm': outs += [a[k + x] for x in range(int(t[1]))]; k += int(t[1])
            elif t[0] == 'g': outs += [S.cread(a[k + x], 8 * y, 8, False) for x in range(int(t[1])) for y in range(3)]; k += int(t[1])
        tag = '|'.join(key)
        for m, o in enumerate(outs):
            for i, ci in enumerate(X[0]):
                for j, cj in enumerate(X[1]): S.cwrite(o, 8 * (i * len(X[1]) + j), S.R.uf('%s#%d%s%s' % (tag, m, ci, cj), [], .4 + .01 * m - .03 * ci[0] + .02 * cj[1]))
        return None
    return f


def e_matrix(S, fn, cfg):
    """run the entry point and the C construction on the same symbolic data"""
    ft, cn, ct = MAT[fn]; st = dict(calls=0)
    if not S.has(fn): raise Unsupported('no entry point ' + fn)
    S.contract('libgrpp_is_initialized', lambda S, a: S.int(1))
    if not S.contract(cn, c_routine(cn, ct, st)): raise Unsupported('no routine ' + cn)
    inp = cases.Inp(S, 'gen', cases.Sample(cfg.get('seed', 0))); L = dict(A=cfg['LA'], B=cfg['LB']); pr = cfg['prim']; fa = []; cob = {}; dead = []
    iref = lambda x, nm: S.ptr(S.ints([x] if isinstance(x, int) else x, nm))
    def vref(n):
        if isinstance(n, int): return iref(n, 'n')
        if n.kind == K_INT: return iref(n.i, 'n')
        o = S.new(4, 'n', OF_INPUT); v = n.copy(); v.size = 4; S.cwrite(S.ptr(o), 0, v, 4); return S.ptr(o)
    def terms(nm): inp.groups = {}; return inp.terms(nm, pr)
    def powers(n, nm, val):
        if n.kind == K_INT: return S.ints([(val + k) % 3 for k in range(n.i)], nm)
        o = dvlib.L.dv_new_symobj(inp.ranges[nm], 4, OF_INPUT, b'powers'); v = S.int(val); v.size = 4; dvlib.L.dv_sym_set(o, 0, 4, C.byref(v)); return o
    made = {}
    def shell_args(nm, comp=None):
        o = S.reals(inp.point(nm), 'origin ' + nm); _, n, co, ao = terms(nm); made[nm] = (o, L[nm], n, co, ao); l = iref(L[nm], 'L') if comp is None else None
        return [S.ptr(o)] + ([l] if comp is None else [iref(x, 'nlm') for x in comp]) + [vref(n), S.ptr(co), S.ptr(ao)]
    def pot_args(t):
        _, n, co, ao = terms(t); po = powers(n, t, cfg.get('power', 2)); made[t] = (cfg['L'] if t != 'U1' else 0, cfg['J'] if t in ('UO', 'V1', 'V2') else 0, n, po, co, ao)
        if t == 'V2': made[t] = (cfg['L2'], cfg['J2']) + made[t][2:]
        h = [] if t == 'U1' else [iref(made[t][0], 'L')] if t == 'U' else [iref(made[t][0], 'L'), iref(made[t][1], 'J')]
        a = h + [vref(n), S.ptr(po), S.ptr(co), S.ptr(ao)]
        if t in ('UO', 'V1', 'V2'): _, n, co, ao = terms('S' + t); made['S' + t] = (None, made[t][0], n, co, ao); a += [vref(n), S.ptr(co), S.ptr(ao)]
        return a
    if 'comp' in cfg: L = dict(A=sum(cfg['comp'][0]), B=sum(cfg['comp'][1]))
    for t in ft.split():
        if t in 'AB': fa += shell_args(t)
        elif t in 'ab': fa += shell_args(t.upper(), cfg['comp']['ab'.index(t)])
        elif t in 'CP': made[t] = S.reals(inp.point(t), t); fa.append(S.ptr(made[t]))
        elif t[0] in 'UV': fa += pot_args(t)
        elif t == 'Z': fa.append(iref(cfg.get('Z', 79), 'charge'))
        elif t == 'M': made['M'] = S.reals([S.sym('par%d' % k, .1 + .2 * k, True) for k in range(NPAR[cfg['M']])], 'model parameters'); fa += [iref(cfg['M'], 'nuclear model'), S.ptr(made['M'])]
        elif t[0] == 'r': made['r'] = [S.sym('par%d' % k, .1 + .2 * k, True) for k in range(int(t[1]))]; fa += [S.ptr(S.reals([x], 'parameter')) for x in made['r']]
    nout = int(ft.split()[-1][1:]); nA, nB = cases.nsize(L['A']), cases.nsize(L['B']); sz = 1 if 'comp' in cfg else nA * nB
    outs = [S.garbage(sz, 'output %d' % k) for k in range(nout)]; res = {}
    try: cases.guarded_call(S, res, fn, *fa, *[S.ptr(o) for o in outs])
    except Violation: return ['execution of %s stops: %s' % (fn, res.get('fatal'))]
    pr_ = ['%s in %s line %s: %s' % (e['kind'], e['func'], e['line'], e['msg']) for e in res['events']]
    if not st['calls']: raise Unsupported('%s does not call %s' % (fn, cn))
    got = [S.read_reals(o, sz)[0] for o in outs]
    # the C side
    def cshell(d, org=None): return S.call('libgrpp_new_shell', S.ptr(org if org is not None else d[0]), d[1], d[2], S.ptr(d[3]), S.ptr(d[4]))
    def cpot(d): return S.call('libgrpp_new_potential', d[0], d[1], d[2], S.ptr(d[3]), S.ptr(d[4]), S.ptr(d[5]))
    ca = []; cz = nA * nB; couts = [S.garbage(cz, 'C output %d' % k) for k in range(nout)]; src = {'V1': 'UO'} if 'UO' in ft else {}
    for t in ct.split():
        if t in 'AB': ca.append(cshell(made[t]))
        elif t in 'CP': ca.append(S.ptr(made[t]))
        elif t[0] == 'U': ca.append(cpot(made[t]))
        elif t[0] == 'V': u = src.get(t, t); ca += [cpot(made[u]), cshell(made['S' + u], made['C'])]
        elif t == 'Z': ca.append(cfg.get('Z', 79))
        elif t == 'M': ca += [cfg['M'], S.ptr(made['M'])]
        elif t[0] == 'r': ca += made['r']
        elif t[0] == 'm': ca += [S.ptr(o) for o in couts]
        elif t[0] == 'g': ca += [S.ptr(S.ptrs(couts[3 * k:3 * k + 3], 'gradient')) for k in range(int(t[1]))]
    S.call(cn, *ca); exp = [S.read_reals(o, cz)[0] for o in couts]
    if 'comp' in cfg:
        i, j = [spec.carts(L[x]).index(tuple(c)) for x, c in zip('AB', cfg['comp'])]; exp = [[m[i * nB + j]] for m in exp]
    bad = [(m, k) for m, (g, e) in enumerate(zip(got, exp)) for k, (x, y) in enumerate(zip(g, e)) if x != y]
    if bad: pr_.append('%s differs from %s in %d of %d elements, first: matrix %d element %d' % (fn, cn, len(bad), nout * sz, *bad[0]))
    return pr_


def e_scalar(S, fn):
    kinds_, ret, nout = SCAL[fn]; st = []
    if not S.has(fn + '_') or not S.has(fn): raise Unsupported('no entry point ' + fn)
    for code in ((0,) if ret == 'd' else (0, 1, 7)):
        cp = S.checkpoint(); st.clear()
        def c(S, a):
            vals = [a[k].i if t == 'i' else v2f(a[k]).v for k, t in enumerate(kinds_)]; st.append(vals)
            for k in range(nout): S.cwrite(a[len(kinds_) + k], 0, S.R.uf('%s%s#%d' % (fn, vals, k), [], .5))
            return S.R.uf('%s%s' % (fn, vals), [], .7) if ret == 'd' else S.int(code)
        S.contract(fn, c); sy = [S.int(137 + k) if t == 'i' else S.sym('x%d' % k, .6 + .3 * k, True) for k, t in enumerate(kinds_)]
        refs = [S.ptr(S.ints([x.i], 'int')) if t == 'i' else S.ptr(S.reals([x], 'real')) for x, t in zip(sy, kinds_)]
        outs = [S.garbage(1, 'o%d' % k) for k in range(nout)]; res = {}
        ro = S.garbage(1, 'result') if ret == 'd' else S.new(4, 'error code', OF_OUTPUT)
        cases.guarded_call(S, res, fn + '_', *refs, *[S.ptr(o) for o in outs], S.ptr(ro))
        pr = [str(e) for e in res['events']]; n0 = len(st)
        if not n0: raise Unsupported('%s_ does not call %s' % (fn, fn))
        rc = [S.garbage(1, 'c%d' % k) for k in range(nout)]; v = S.call(fn, *sy, *[S.ptr(o) for o in rc])
        if ret == 'd': pr += fdiff(fn + '_', S.read(ro, 0), v2f(v))
        else: pr += idiff(fn + '_ code', S.read(ro, 0, 4, False), code)
        for a, b in zip(outs, rc): pr += fdiff(fn + '_ output', S.read(a, 0), v2f(S.read(b, 0)))
        S.undo(cp); S.uncontract()
        if pr: return pr
    return []


def e_setter(S, fn):
    if not S.has(fn + '_') or not S.has(fn): raise Unsupported('no entry point ' + fn)
    pr = []
    for val in ((0, 1, 5) if SETS[fn] == 'i' else (0,)):
        cp = S.checkpoint(); st = []
        def c(S, a): st.append([x.i if x.kind == K_INT else v2f(x).v for x in a]); return None
        S.contract(fn, c); sy = [] if not SETS[fn] else [S.int(val)] if SETS[fn] == 'i' else [S.sym('tol', 1e-7, True)]
        refs = [S.ptr(S.ints([val], 'order') if SETS[fn] == 'i' else S.reals(sy, 'value')) for x in sy]; res = {}
        cases.guarded_call(S, res, fn + '_', *refs); pr += [str(e) for e in res['events']]
        exp = [[val if SETS[fn] == 'i' else sy[0].v]] if sy else [[]]
        if not st: raise Unsupported('%s_ does not call %s' % (fn, fn))
        if st != exp: pr.append('%s_ calls %s with %s' % (fn, fn, 'the wrong arguments' if len(st) == 1 else '%d times' % len(st)))
        S.undo(cp); S.uncontract()
    return pr


def e_norm(S, L, prim):
    """radial_gto_norm_factor_: norm^2 * <x^L|x^L> = (2L-1)!!"""
    fn = 'radial_gto_norm_factor_'; st = dict(calls=0)
    if not S.has(fn): raise Unsupported('no entry point')
    def c(S, a):
        st['calls'] += 1; X, Y = clist(S, a[0]), clist(S, a[1]); ka, kb = shell_key(S, a[0]), shell_key(S, a[1])
        for i, ci in enumerate(X):
            for j, cj in enumerate(Y):
                t = '%s|%s#%s%s' % (ka, kb, ci, cj)
                for z in range(99):         # a value with a square root
                    v = S.R.uf('%s~%d' % (t, z), [], .4)
                    if cases.is_sq(v): break
                S.cwrite(a[2], 8 * (i * len(Y) + j), v)
    S.contract('libgrpp_overlap_integrals', c); inp = cases.Inp(S); _, n, co, ao = inp.terms('A', prim)
    no = S.new(4, 'n', OF_INPUT); v = n.copy(); v.size = 4; S.cwrite(S.ptr(no), 0, v, 4); o = S.garbage(1, 'norm'); res = {}
    cases.guarded_call(S, res, fn, S.ptr(S.ints([L], 'L')), S.ptr(no), S.ptr(co), S.ptr(ao), S.ptr(o)); pr = [str(e) for e in res['events']]
    if not st['calls']: raise Unsupported('does not call the overlap routine')
    z = S.reals([F(0, 0)] * 3, 'zero'); sh = [S.call('libgrpp_new_shell', S.ptr(z), L, n, S.ptr(co), S.ptr(ao)) for _ in range(2)]; m = S.garbage(cases.nsize(L) ** 2, 'overlap'); S.call('libgrpp_overlap_integrals', sh[0], sh[1], S.ptr(m))
    i = spec.carts(L).index((L, 0, 0)); s = v2f(S.read(m, 8 * (i * cases.nsize(L) + i))); x = v2f(S.read(o, 0)); df = 1
    for k in range(2 * L - 1, 0, -2): df *= k
    return pr + fdiff('norm^2 * overlap', x * x * s, F.lift(df))


# ------------------------------------------------------------------ native twin
class Buf:
    """an argument block with guard words, compared bitwise after the call"""
    def __init__(s, t, vals, out=False):
        s.n = len(vals); s.t = t; s.a = (t * (s.n + 4))(*(list(vals) + [77] * 4)); s.out = out; s.b = bytes(s.a)
    def p(s): return ctypes.byref(s.a)
    def ok(s): return bytes(s.a)[(ctypes.sizeof(s.t) * s.n if s.out else 0):] == s.b[(ctypes.sizeof(s.t) * s.n if s.out else 0):]
    def vals(s): return list(s.a[:s.n])


def leak(l, f, n=20):
    """blocks allocated by the library and not released during n calls (0 if fewer than one per call)"""
    live = ctypes.c_long.in_dll(l, 'dv_live'); f(); f(); a = live.value
    for _ in range(n): f()
    d = live.value - a
    return d if d >= n else 0


def n_matrix(lib, fn, cfg, seed):
    from native import Shell
    I, D, P = ctypes.c_int, ctypes.c_double, ctypes.c_void_p; l = lib.l; r = random.Random(seed); f = getattr(l, fn); f.restype = None; ft, cn, ct = MAT[fn]; c = getattr(l, cn); c.restype = None
    L = dict(A=cfg['LA'], B=cfg['LB']); bufs = []; made = {}; fa = []
    if 'comp' in cfg: L = dict(A=sum(cfg['comp'][0]), B=sum(cfg['comp'][1]))
    def ib(*v): b = Buf(I, v); bufs.append(b); return b
    def db(*v): b = Buf(D, v); bufs.append(b); return b
    def terms(n): return n, [r.uniform(-1.5, 1.5) for _ in range(n)], [r.uniform(.4, 2) for _ in range(n)]
    def np_(): return r.choice([1, 1, 2, 3]) if not cfg.get('np') else cfg['np']
    for t in ft.split():
        if t in 'ABab':
            nm = t.upper(); o = [r.uniform(-1, 1) for _ in range(3)]; n, cs, al = terms(np_()); made[nm] = dict(L=L[nm], origin=o, coeffs=cs, alpha=al)
            fa += [db(*o)] + ([ib(L[nm])] if t in 'AB' else [ib(x) for x in cfg['comp']['ab'.index(t)]]) + [ib(n), db(*cs), db(*al)]
        elif t in 'CP':
            v = [r.uniform(-1, 1) for _ in range(3)] if t == 'C' else list(made[r.choice('AB')]['origin']) if r.random() < .7 else list(made['C']); made[t] = v; fa.append(db(*v))
        elif t[0] in 'UV':
            n, cs, al = terms(np_()); pw = [r.choice([0, 1, 2]) for _ in range(n)]; Lp, Jp = (0, 0) if t == 'U1' else (cfg['L2'], cfg['J2']) if t == 'V2' else (cfg['L'], cfg['J'] if t != 'U' else 0)
            made[t] = dict(L=Lp, J=Jp, powers=pw, coeffs=cs, alpha=al); fa += ([] if t == 'U1' else [ib(Lp)] if t == 'U' else [ib(Lp), ib(Jp)]) + [ib(n), ib(*pw), db(*cs), db(*al)]
            if t in ('UO', 'V1', 'V2'): n, cs, al = terms(np_()); made['S' + t] = dict(L=Lp, coeffs=cs, alpha=al, origin=made['C']); fa += [ib(n), db(*cs), db(*al)]
        elif t == 'Z': fa.append(ib(cfg.get('Z', 79)))
        elif t == 'M': made['M'] = [[], [.02], [.02], [.1, .01], [.1, .01, .5], []][cfg['M']]; fa += [ib(cfg['M']), db(*made['M'])]
        elif t[0] == 'r': made['r'] = [.1, .01, .5][:int(t[1])]; fa += [db(x) for x in made['r']]
    nout = int(ft.split()[-1][1:]); nA, nB = cases.nsize(L['A']), cases.nsize(L['B']); cz = nA * nB; sz = 1 if 'comp' in cfg else cz
    ini = .375 if 'part' in fn else GARB      # the two outercore parts are added to the matrices
    outs = [Buf(D, [ini] * sz, True) for _ in range(nout)]; bufs += outs; f(*[b.p() for b in fa], *[b.p() for b in outs])
    pr = []
    if not all(b.ok() for b in bufs): pr.append('%s changes an input argument or writes past the end of an array' % fn)
    src = {'V1': 'UO'} if 'UO' in ft else {}; ca = []; couts = [da([ini] * cz) for _ in range(nout)]; keep = []
    for t in ct.split():
        if t in 'AB': ca.append(lib.shell(made[t]))
        elif t in 'CP': ca.append(da(made[t]))
        elif t[0] == 'U': ca.append(lib.pot(made[t]))
        elif t[0] == 'V': u = src.get(t, t); ca += [lib.pot(made[u]), lib.shell(made['S' + u])]
        elif t == 'Z': ca.append(I(cfg.get('Z', 79)))
        elif t == 'M': ca += [I(cfg['M']), da(made['M'])]
        elif t[0] == 'r': ca += [D(x) for x in made['r']]
        elif t[0] == 'm': ca += couts
        elif t[0] == 'g': ca += [(P * 3)(*[ctypes.addressof(x) for x in couts[3 * k:3 * k + 3]]) for k in range(int(t[1]))]
    c(*ca); exp = [list(m) for m in couts]; got = [b.vals() for b in outs]
    if 'comp' in cfg:
        i, j = [spec.carts(L[x]).index(tuple(q)) for x, q in zip('AB', cfg['comp'])]; exp = [[m[i * nB + j]] for m in exp]
    for m, (g, e) in enumerate(zip(got, exp)):
        s = max([abs(x) for x in e] + [1e-30]) if m or 1 else 0; s = max([abs(x) for q in exp for x in q] + [1e-30])
        w = [(abs(x - y), k) for k, (x, y) in enumerate(zip(g, e)) if not abs(x - y) <= 1e-10 * s]
        if w: pr.append('%s differs from %s: matrix %d element %d: %.17g, C interface %.17g' % (fn, cn, m, w[0][1], g[w[0][1]], e[w[0][1]])); break
    if not pr and cfg.get('leak'):
        d = leak(l, lambda: f(*[b.p() for b in fa], *[b.p() for b in outs])); d0 = d and leak(l, lambda: c(*ca))
        if d > d0 + 1000: pr.append('%s leaks memory: %d bytes in 100 calls (C routine: %d)' % (fn, d, d0))
    return pr


def n_scalar(lib, fn, seed):
    I, D = ctypes.c_int, ctypes.c_double; l = lib.l; r = random.Random(seed); k, ret, nout = SCAL[fn]; pr = []
    for t in range(40):
        if 'density' in fn or 'coulomb' in fn: v = [10 ** r.uniform(-4, 1), float(r.randint(1, 118)), r.uniform(.01, .2), r.uniform(.005, .02), r.uniform(0, 1)][:len(k)]
        elif 'rms_radius_fermi' in fn: v = [r.randint(1, 118), r.uniform(.05, .2), r.uniform(.005, .02), r.uniform(0, 1)][:len(k)]
        elif k == 'i': v = [r.randint(1, 300)]
        else: v = [10 ** r.uniform(-6, -3) if t % 2 else r.uniform(1.0, 9.0)]
        bufs = [Buf(I if q == 'i' else D, [x]) for q, x in zip(k, v)]; outs = [Buf(D, [GARB], True) for _ in range(nout)]; ro = Buf(D if ret == 'd' else I, [-5], True)
        f = getattr(l, fn + '_'); f.restype = None; f(*[b.p() for b in bufs + outs], ro.p())
        c = getattr(l, fn); c.restype = D if ret == 'd' else I; c.argtypes = [I if q == 'i' else D for q in k] + [ctypes.c_void_p] * nout; co = [da([GARB]) for _ in range(nout)]; e = c(*v, *co)
        if not all(b.ok() for b in bufs + outs + [ro]): pr.append('%s_ changes an input argument' % fn)
        for g, x in [(ro.vals()[0], e)] + [(a.vals()[0], b[0]) for a, b in zip(outs, co)]:
            if not (g == x or abs(g - x) <= 1e-13 * abs(x) or g != g and x != x): pr.append('%s_%s returns %.17g, C interface %.17g' % (fn, v, g, x))
        if pr: break
    return pr


def n_setter(lib, fn, seed):
    """parameters after the Fortran setter = parameters after the C setter"""
    l = lib.l; I, D = ctypes.c_int, ctypes.c_double; sz = layout()['libgrpp_parameters_t']['']
    try: g = (ctypes.c_char * sz).in_dll(l, 'libgrpp_params')
    except ValueError: return []
    d0 = bytes(g); k = SETS[fn]; pr = []
    for val in (1e-3, 1e-7, 1e-30) if k == 'd' else (1, 0) if k == 'i' else (0,):
        for start in (0, 1):
            def prep(): ctypes.memmove(g, d0, sz); start and (l.libgrpp_set_radial_tolerance(D(.25)), l.libgrpp_set_angular_screening_tolerance(D(.125)), l.libgrpp_set_modified_bessel_tolerance(D(.5)), l.libgrpp_set_cartesian_order(I(1)))
            prep(); a = Buf(I if k == 'i' else D, [val if k == 'd' else int(val)]); getattr(l, fn + '_')(*([a.p()] if k else [])); x = bytes(g)
            prep(); getattr(l, fn)(*([I(int(val)) if k == 'i' else D(val)] if k else [])); y = bytes(g)
            if x != y or not a.ok(): pr.append('%s_(%s) does not set the parameters as the C routine does' % (fn, val))
    ctypes.memmove(g, d0, sz); return pr


def n_norm(lib, L, seed):
    I, D = ctypes.c_int, ctypes.c_double; r = random.Random(seed); n = r.randint(1, 4); cs = [r.uniform(.1, 1.5) for _ in range(n)]; al = [r.uniform(.4, 2) for _ in range(n)]
    b = [Buf(I, [L]), Buf(I, [n]), Buf(D, cs), Buf(D, al), Buf(D, [GARB], True)]; f = lib.l.radial_gto_norm_factor_; f.restype = None; f(*[x.p() for x in b])
    if not all(x.ok() for x in b): return ['radial_gto_norm_factor_ changes an input argument']
    q = dict(L=L, origin=[0., 0., 0.], coeffs=cs, alpha=al); m = lib.run('overlap', dict(A=q, B=q))[0]; N = cases.nsize(L); i = spec.carts(L).index((L, 0, 0)); df = 1.0
    for k in range(2 * L - 1, 0, -2): df *= k
    x = b[4].vals()[0] ** 2 * m[i * N + i]
    return [] if abs(x - df) <= 1e-10 * df else ['radial_gto_norm_factor_: norm^2 * <x^L|x^L> = %.15g, expected %.15g' % (x, df)]


def C22():
    chk = Check('C22'); session(); r = random.Random(SEED); quick = TIER == 'quick'; T = []
    Ls = [(a, b) for a in range(4) for b in range(4)] + [(10, 10), (0, 10), (10, 1), (6, 5), (3, 8)] + ([] if quick else [(a, b) for a in range(11) for b in range(11)])
    for fn, (ft, cn, ct) in MAT.items():
        for k, (LA, LB) in enumerate(Ls):
            c = dict(LA=LA, LB=LB, L=r.randint(0, 10), J=0, L2=r.randint(0, 10), J2=0, power=k % 3, prim='sym', Z=r.choice([r.randint(1, 118), 300, 70000, -3])); c['J'] = 2 * c['L'] + r.choice([-1, 1] if c['L'] else [1]); c['J2'] = 2 * c['L2'] + r.choice([-1, 1] if c['L2'] else [1])
            if LA + LB > 12: c['prim'] = 1
            if 'M' in ft.split(): c['M'] = k % 6
            if 'a' in ft.split():
                rc = lambda L: r.choice(spec.carts(L)); c['comp'] = [rc(LA), rc(LB)]
            T.append(scen('%s %s' % (fn, {k: v for k, v in c.items()}), e_matrix, dict(fn=fn, cfg=c), cost=(LA + LB) ** 2))
        for pr in (1, 2, 3, 0):
            c = dict(LA=1, LB=2, L=2, J=5, L2=1, J2=1, prim=pr, Z=26, M=3)
            if 'a' in ft.split(): c['comp'] = [(1, 0, 0), (0, 1, 1)]
            T.append(scen('%s with %d primitives' % (fn, pr), e_matrix, dict(fn=fn, cfg=c)))
        nat = []
        for k in range(7 if quick else 40):
            LA, LB = [(0, 0), (1, 0), (1, 2), (2, 1), (0, 3), (2, 2), (3, 1)][k % 7]; L = k % 4; c = dict(LA=LA, LB=LB, L=L, J=2 * L + (1 if k % 2 or not L else -1), L2=L, J2=2 * L + (1 if k % 2 or not L else -1), M=k % 5, Z=(11, 300, 100, -70000, 47, 118, 1)[k % 7], leak=k == 0)
            if k % 4 == 3: c['L2'] = L + 1; c['J2'] = 2 * L + 1
            if 'a' in ft.split(): c['comp'] = [r.choice(spec.carts(LA)), r.choice(spec.carts(LB))]
            nat.append((fn, c, SEED * 100 + k))
        T.append(scen('%s on the compiled library' % fn, None, None, n_matrix, nat, cost=1e5)); T.append(scen('%s under the address sanitizer' % fn, None, None, n_matrix, [(a, dict(b, leak=False), s) for a, b, s in nat[1:4]], lib='asan', cost=1e5, timeout=100))
    for fn in SCAL: T.append(scen(fn + '_', e_scalar, dict(fn=fn), n_scalar, [(fn, SEED)], cost=10))
    for fn in SETS: T.append(scen(fn + '_', e_setter, dict(fn=fn), n_setter, [(fn, SEED)], cost=10))
    for L in range(11):
        for pr in ('sym', 1, 3): T.append(scen('radial_gto_norm_factor_ L=%d primitives %s' % (L, pr), e_norm, dict(L=L, prim=pr), n_norm, [(L, SEED)] if pr == 'sym' else [], cost=10))
    known = set(MAT) | {x + '_' for x in list(SCAL) + list(SETS)} | {'radial_gto_norm_factor_'}; S = session()
    new = [n for n in (dvlib.L.dv_func_name(k).decode() for k in range(dvlib.L.dv_nfuncs())) if n.endswith('_') and n not in known and not n.startswith('llvm')]
    if new: chk.notes.append('entry points without a contract: %s' % new)
    run_tasks(chk, T, chk.t0 + 480)
    chk.assumptions = ['the C routines enter by contract: opaque functions of the contents of their arguments (their values are the subject of C01-C11, C15)', 'Fortran passes addresses of integer(4) and real(8) objects']
    return chk
