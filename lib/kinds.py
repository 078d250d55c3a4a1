"""The public integral routines: how to call each one symbolically and natively, and the
specification (postcondition) of its result.  One Kind per routine."""
import math
import dvlib, spec, cases
from dvlib import *
from cases import Inp, Sample, nsize, contract

KINDS = {}


class Kind:
    def __init__(s, name, nout, setup, spec, lift=None, contracts=None, tol=1e-9, native=None, numeric=None):
        s.oracle = s.atol = s.fail = s.known = None; s.outgroups = None; s.native = native; s.numeric = numeric; s.name = name; s.nout = nout; s.setup = setup; s.spec = spec; s.lift = lift or lift_AB; s.contracts = contracts; s.tol = tol; KINDS[name] = s


def lift_shell(R, d):
    return dict(L=d['L'], origin=[R.lift(x) for x in d['origin']], terms=[(R.lift(1), R.lift(c), R.lift(a)) for c, a in zip(d['coeffs'], d['alpha'])])


def lift_pot(R, d):
    if d is None: return None
    return dict(L=d['L'], J=d.get('J', 0), terms=[(R.lift(1), R.lift(c), R.lift(a), n) for c, a, n in zip(d['coeffs'], d['alpha'], d['powers'])])


def lift_AB(R, q): return dict(A=lift_shell(R, q['A']), B=lift_shell(R, q['B']))


def lift_ABCU(R, q):
    p = lift_AB(R, q); p['C'] = [R.lift(x) for x in q['C']]; p['pot'] = lift_pot(R, q['pot']); return p


def setup_shells(S, inp, cfg):
    A = inp.shell('A', cfg['LA'], cfg.get('prim', 'sym')); B = inp.shell('B', cfg['LB'], cfg.get('primB', cfg.get('prim', 'sym')))
    return dict(A=A, B=B), dict(A=A['native'], B=B['native'])


def setup_AB(fn):
    def f(S, inp, cfg):
        p, q = setup_shells(S, inp, cfg)
        return fn, p, [p['A']['ptr'], p['B']['ptr']], q
    return f


def setup_ABCU(fn, L=None):
    def f(S, inp, cfg):
        p, q = setup_shells(S, inp, cfg)
        C_ = inp.point('C'); oc = S.reals(C_, 'origin C')
        if cfg.get('nopot'): pot = dict(ptr=S.null, native=None); p['pot'] = None
        else: pot = p['pot'] = inp.pot('U', cfg.get('L', 0), cfg.get('J', 0), cfg.get('primU', cfg.get('prim', 'sym')), cfg.get('powers', 2))
        p['C'] = C_; q.update(C=[c.x for c in C_], pot=pot['native'])
        return fn, p, [p['A']['ptr'], p['B']['ptr'], S.ptr(oc), pot['ptr']], q
    return f


def kspec(prim):
    return lambda R, p, ab: contract(p['A'], p['B'], lambda a, b: prim(R, p['A'], p['B'], a, b), ab=ab)


Kind('overlap', 1, setup_AB('libgrpp_overlap_integrals'), kspec(lambda R, A, B, a, b: [spec.overlap_prim(R, A['L'], B['L'], a, b, A['origin'], B['origin'])]))
Kind('kinetic', 1, setup_AB('libgrpp_kinetic_energy_integrals'), kspec(lambda R, A, B, a, b: [spec.kinetic_prim(R, A['L'], B['L'], a, b, A['origin'], B['origin'])]))
Kind('momentum', 3, setup_AB('libgrpp_momentum_integrals'), kspec(lambda R, A, B, a, b: spec.momentum_prim(R, A['L'], B['L'], a, b, A['origin'], B['origin'])))


def same_point(R, a, b):
    """are two centres the same point?  (coinciding centres share their coordinates)"""
    if R.numeric: return all(x == y for x, y in zip(a, b))
    return all((x - y).is0() for x, y in zip(a, b))


def moved(R, p):
    return ''.join(n for n in ('A', 'B', 'C') if n in p and same_point(R, p[n]['origin'] if n != 'C' else p[n], p['P']))


def ograd_spec(R, p, ab):
    A, B = p['A'], p['B']; mv = moved(R, p)
    if mv in ('', 'AB'): return [[R.lift(0)] * (nsize(A['L']) * nsize(B['L']))] * 3
    return contract(A, B, lambda a, b: spec.overlap_grad_prim(R, A['L'], B['L'], a, b, A['origin'], B['origin'], mv), ab=ab)


def ograd_setup(S, inp, cfg):
    p, q = setup_shells(S, inp, cfg); P = p['P'] = inp.point('P'); q['point'] = [c.x for c in P]
    return 'libgrpp_overlap_integrals_gradient', p, [p['A']['ptr'], p['B']['ptr'], S.ptr(S.reals(P, 'point'))], q


def lift_ABP(R, q): p = lift_AB(R, q); p['P'] = [R.lift(x) for x in q['point']]; return p


def num_P(q, cfg, point, shell, pot, sm): q['point'] = list(point('P'))


Kind('overlap_gradient', 3, ograd_setup, ograd_spec, lift_ABP, numeric=num_P)
KINDS['overlap_gradient'].outgroups = [3]


def type1_spec(R, p, ab):
    A, B = p['A'], p['B']
    if p['pot'] is None or not p['pot']['terms']: return [[R.lift(0)] * (nsize(A['L']) * nsize(B['L']))]
    Fs = spec.special(R)
    return contract(A, B, lambda a, b, t: [spec.type1_prim(R, A['L'], B['L'], a, b, A['origin'], B['origin'], p['C'], t[2], t[3], Fs)], p['pot']['terms'], ab)


def c_special(kind):
    """contract of boys_values / gfun_values: out[n] = F_n(x) (g_n(x)), n = 0..nmax"""
    def f(S, a):
        x = v2f(a[0]); n = a[1].i
        if x.x < 0 and not x.is0(): pass
        vals = spec.special(S.R)(kind, x, n); num = special_num(kind, max(0.0, x.x), n)
        for k in range(n + 1): vals[k].x = num[k]; S.cwrite(a[2], 8 * k, vals[k])
        return None
    return f


def special_num(kind, x, n):
    from scipy import special as sp
    k = np_arange(n + 1)
    if kind == 'boys': return sp.hyp1f1(k + 0.5, k + 1.5, -x) / (2 * k + 1)
    return sp.hyp1f1(1.0, k + 1.5, -x) / (2 * k + 1)


def np_arange(n):
    import numpy; return numpy.arange(n)


def prim_contract(tag, which=(1, 3, 5), nout=1):
    """contract of a primitive shell-pair routine f(shellA, alphaA, shellB, alphaB, origin, zeta, out):
    out[k] is a function of (alphaA, alphaB, zeta) only -- its value is established separately"""
    def f(S, a):
        if len(a) != 7 or a[1].kind != K_REAL or a[6].kind != K_PTR: return NotImplemented
        LA = S.cread(a[0], 0, 4, False).i; LB = S.cread(a[2], 0, 4, False).i
        for k in range(nsize(LA) * nsize(LB)): S.cwrite(a[6], 8 * k, S.R.uf('%s_%d' % (tag, k), [v2f(a[i]) for i in which], 0.3 + k))
        return None
    return f


MMD = ['evaluate_rpp_type1_mmd_n%d_primitive_shell_pair' % n for n in (0, 1, 2)]


def type1_mod_contracts(S):
    S.contract('libgrpp_is_initialized', lambda S, a: S.int(1))
    for n in (0, 1, 2): S.contract(MMD[n], prim_contract('mmd%d' % n))


def type1_mod_spec(R, p, ab):
    A, B = p['A'], p['B']; n = nsize(A['L']) * nsize(B['L'])
    return contract(A, B, lambda a, b, t: [[[R.uf('mmd%d_%d' % (t[3], k), [a, b, t[2]]) for k in range(n)]]], p['pot']['terms'], ab)


def type1_contracts(S):
    S.contract('boys_values', c_special('boys')); S.contract('gfun_values', c_special('gfun'))
    S.contract('libgrpp_is_initialized', lambda S, a: S.int(1))


Kind('type1', 1, setup_ABCU('libgrpp_type1_integrals'), type1_spec, lift_ABCU, type1_contracts)


Kind('type1_mod', 1, setup_ABCU('libgrpp_type1_integrals'), type1_mod_spec, lift_ABCU, type1_mod_contracts, native='type1')


# ------------------------------------------------------------------ shells with another component order
def mk_perm(seed, L, nm):
    import random
    r = random.Random('%s%s%s' % (seed, L, nm)); p = list(range(nsize(L))); r.shuffle(p); return p


def gen_perm(seed, L): return mk_perm(seed, L, 'g')


def set_generator(S, seed):
    """a caller-supplied component order: for every L a permutation of the components"""
    for stand_in in ('libgrpp_daxpy', 'libgrpp_dot_product', 'cartesian_generator_turbomole', 'libgrpp_finalize'):
        f = dvlib.L.dv_func(stand_in.encode())
        if f >= 0: break
    else: raise Unsupported('no function to stand for the generator')
    def g(S, a):
        if len(a) != 2 or a[1].kind != K_PTR: return NotImplemented
        c = spec.carts(a[0].i); pm = gen_perm(seed, a[0].i)
        for k, j in enumerate(pm):
            for d in range(3): v = S.int(c[j][d]); v.size = 4; S.cwrite(a[1], 4 * (3 * k + d), v, 4)
        return S.int(len(c))
    S.contract(stand_in, g); v = Val(); v.kind = K_FUNC; v.a = f; v.i = f; S.call('libgrpp_set_cartesian_generator', v)


def gen_native(q):
    """the same order as permutations attached to the shells of a native input"""
    if not q.get('gen'): return q
    return dict(q, **{nm: dict(q[nm], perm=gen_perm(q['gen'], q[nm]['L'])) for nm in 'AB'})


def permute_cart(S, sh, perm):
    """replace the component list of a shell by a permutation of it"""
    from layout import View
    cl = View(S, 'libgrpp_shell_t', sh['ptr']).get('cart_list'); c = spec.carts(sh['L'])
    for k, j in enumerate(perm):
        for d in range(3): v = S.int(c[j][d]); v.size = 4; S.cwrite(cl, 4 * (3 * k + d), v, 4)


def permuted(q, v):
    pa, pb = q['A'].get('perm'), q['B'].get('perm')
    if not pa: return v
    nb = len(pb)
    return [[m[i * nb + j] for i in pa for j in pb] for m in v]


# ------------------------------------------------------------------ symbolic run of one configuration
def ncomp(sh): return len(sh['sub']) if sh.get('sub') is not None else nsize(sh['L'])


def run(S, kind, cfg, value=True):
    """symbolically execute the routine in one configuration.  Returns a result dictionary:
    native (numeric inputs of this sample), events (safety), mism/n (postcondition), sites (path conditions)"""
    K = KINDS[kind]; S.uncontract()
    if K.contracts: K.contracts(S)

    def go():
        res = dict(kind=kind, cfg=cfg)
        if cfg.get('gen'): set_generator(S, cfg['gen'])
        inp = Inp(S, cfg.get('geom', 'gen'), Sample(cfg.get('seed', 0), cfg.get('mode', 'mid')), cfg.get('axis', ''), cfg.get('alias'))
        fn, prob, args, nat = K.setup(S, inp, cfg)
        if cfg.get('perm'):
            for nm in 'AB': nat[nm]['perm'] = mk_perm(cfg['perm'], prob[nm]['L'], nm); permute_cart(S, prob[nm], nat[nm]['perm'])
        if cfg.get('gen'): nat['gen'] = cfg['gen']
        n = ncomp(prob['A']) * ncomp(prob['B']); outs = [S.garbage(n, 'output matrix %d' % k) for k in range(K.nout)]
        res['native'] = nat
        for site, val in cfg.get('force', {}).items(): dvlib.L.dv_force(site, val)
        oargs = [S.ptr(o) for o in outs]
        if K.outgroups: oargs = [S.ptr(S.ptrs(outs[3 * g:3 * g + 3], 'gradient pointers')) for g in range(len(outs) // 3)]
        try: cases.guarded_call(S, res, fn, *args, *oargs)
        except Violation: res['sites'] = S.sites(); return res
        finally: dvlib.L.dv_unforce()
        try: got = [S.read_reals(o, n) for o in outs]
        except Violation:
            res['fatal'] = dict(S.events()[-1], kind='OUTPUT', msg='an element of the output matrix is left unwritten'); res['sites'] = S.sites(); return res
        res['sites'] = S.sites()
        if value:
            exp = permuted(gen_native(nat), K.spec(S.R, prob, False))
            res['mism'] = cases.compare([g[0] for g in got], exp)
            if K.fail and K.fail(): res['fatal'] = K.fail()
        res['n'] = n * K.nout
        res['garb'] = any(f & F_GARB for g in got for f in g[2])
        return res
    dvlib.L.dv_zero_tests(1)
    try: return cases.with_retries(S, go)
    finally: dvlib.L.dv_zero_tests(0)


def oracle(kind, q, dps=30, perturb=None):
    """specification at numeric inputs: (values, natural scale)"""
    K = KINDS[kind]; R = MPRing(dps); R.perturb = perturb; p = K.lift(R, q)
    v = permuted(gen_native(q), K.spec(R, p, False)); a = K.spec(R, p, True)
    return [[float(x) for x in m] for m in v], [max([float(x) for x in m] + [0.0]) for m in a]


def shifted(q, d):
    """the same input with every distinct centre displaced by d (coinciding centres are displaced separately)"""
    import copy, random
    r = random.Random(5); q = copy.deepcopy(q)
    def mv(o): return [x + d * r.uniform(-1, 1) for x in o]
    pt = q.get('point')
    for k in ('A', 'B'):
        o = q[k]['origin']; q[k]['origin'] = mv(o)
        if pt == o: q['point'] = q[k]['origin']       # a gradient with respect to this centre
    if 'C' in q:
        o = q['C']; q['C'] = mv(o)
        if pt == o: q['point'] = q['C']
    return q


def deviates(kind, q, nat, dps=30):
    """compare a native result with the specification: None or a description of the worst element.
    Tolerance: tol times the natural scale, plus the effect of rounding the coordinates"""
    K = KINDS[kind]
    if K.oracle:
        w = None; v, sc = K.oracle(q); v = permuted(gen_native(q), v) if q.get('gen') else v
        for m, (mv, mn) in enumerate(zip(v, nat)):
            for k, (e, g) in enumerate(zip(mv, mn)):
                d = abs(e - g)
                if not d <= K.tol * max(sc) + (q['atol'] if 'atol' in q else K.atol(q) if K.atol else 1e-300) and (w is None or not d <= w[0]): w = (d, dict(matrix=m, element=k, expected=e, got=g, scale=max(sc)))
        return w[1] if w else None
    v, sc = oracle(kind, q, dps)
    def worst(tol):
        w = None
        for m, (mv, mn) in enumerate(zip(v, nat)):
            for k, (e, g) in enumerate(zip(mv, mn)):
                d = abs(e - g)
                if not d <= tol:
                    if w is None or not d <= w[0]: w = (d, dict(matrix=m, element=k, expected=e, got=g, scale=max(sc)))
        return w
    tol = K.tol * max(sc) + 1e-300; w = worst(tol)
    if not w: return None
    al = max(t for s_ in (q['A'], q['B']) for t in s_['alpha']) + 1; X = max(abs(x) for s_ in (q['A'], q['B']) for x in s_['origin']) + 1e-3
    d = 1e-3 / al / (1 + X); v2, sc2 = oracle(kind, shifted(q, d), dps)
    cond = max(abs(x - y) for a, b in zip(v, v2) for x, y in zip(a, b)) / d * X
    sens = 0.0
    for seed in (1, 2, 3):      # effect of the accuracy of the auxiliary functions (5e-12 absolute, see C14)
        v3, _ = oracle(kind, q, dps, (seed, 5e-12)); sens = max(sens, max(abs(x - y) for a, b in zip(v, v3) for x, y in zip(a, b)))
    w = worst(tol + 1e-12 * cond + 4 * sens)
    return w[1] if w else None
