"""C16-C19, C23, C24: shells, potentials, the GRPP container, component order, combinatorics, parameters."""
import itertools, math
from fractions import Fraction as Fr
from verify import *
from scen import *
import spec
from cases import nsize

TH = 1e-14
I, D, P = C.c_int, C.c_double, C.c_void_p


# ------------------------------------------------------------------ engine helpers
def vals_for(S, name, pattern):
    """coefficients following a pattern: n normal symbol, z zero, t tiny (below threshold), b just above, m negative, e exactly the threshold"""
    c = {'z': 0.0, 't': 3e-15, 'b': 1.01e-14, 'u': -3e-15, 'v': -1.01e-14, 'e': 1e-14}
    out = []
    for k, p in enumerate(pattern):
        if p in c: r = Val(); dvlib.L.dv_const(c[p], C.byref(r)); out.append(v2f(r))
        else: out.append(S.sym('%s%d' % (name, k), -0.7 if p == 'm' else 0.3 + 0.1 * k))
    return out


def keep_shell(p): return p in 'nmbv'


def objs_of(S, kind, p, ptrs): return [View(S, kind, p).get(f).a for f in ptrs]


def partitions(n):
    """all ways to identify n items with one another, as strings: '0', '00', '01', '000', ..."""
    out = ['']
    for _ in range(n): out = [p + str(k) for p in out for k in range((max(map(int, p)) + 1 if p else 0) + 1)]
    return out


def mk_inputs(S, n, pattern=None, share=''):
    """coefficient and exponent arrays: symbolic length (n='sym') or following the pattern; share: which exponents coincide"""
    if n == 'sym':
        r = S.range('n_prim'); c = S.sym('c', 0.7); a = S.sym('a', 1.3, True)
        return S.nsym(r), S.symarr(r, c, 'coeffs'), S.symarr(r, a, 'alpha'), [c], [a], r
    cs = vals_for(S, 'c', pattern); al = [S.sym('a%d' % k, 0.5 + 0.2 * k, True) for k in range(len(cs))]
    if share: al = [al[int(c)] for c in share]
    return S.int(len(cs)), S.reals(cs, 'coeffs'), S.reals(al, 'alpha'), cs, al, None


def check_reals(S, name, ptr, exp, rng, fresh):
    pr = []
    o = ptr.a
    if rng is not None:
        v = Val()
        if dvlib.L.dv_obj_range(o) != rng: return ['%s has the wrong length' % name]
        if ptr.i != 0: return ['%s does not point to the start of its block' % name]
        if dvlib.L.dv_sym_get(o, 0, 8, C.byref(v)): return ['%s is not filled' % name]
        pr += fdiff(name + '[i]', v, exp[0])
    else:
        for k, e in enumerate(exp): pr += fdiff('%s[%d]' % (name, k), S.cread(ptr, 8 * k), e)
    if o in fresh: pr.append('%s shares the storage of its source' % name)
    return pr


def check_shell(S, p, L, org, n, cs, al, rng, foreign):
    v = View(S, 'libgrpp_shell_t', p); nc = nsize(L); pr = []
    pr += idiff('L', v.get('L'), L) + idiff('cart_size', v.get('cart_size'), nc)
    if rng is not None: pr += [] if v.get('num_primitives').kind == K_SYM and (v.get('num_primitives').a, v.get('num_primitives').i) == (n.a, n.i) else ['num_primitives wrong']
    else: pr += idiff('num_primitives', v.get('num_primitives'), len(cs))
    for k in range(3): pr += fdiff('origin[%d]' % k, v.get('origin', k), org[k])
    pr += check_reals(S, 'coeffs', v.get('coeffs'), cs, rng, foreign) + check_reals(S, 'alpha', v.get('alpha'), al, rng, foreign)
    cl = v.get('cart_list')
    for k, c in enumerate(spec.carts(L)):
        for d in range(3): pr += idiff('cart_list[%d][%d]' % (k, d), S.cread(cl, 4 * (3 * k + d), 4, False), c[d])
    if cl.a in foreign: pr.append('cart_list shares the storage of its source')
    if len({v.get('coeffs').a, v.get('alpha').a, cl.a}) < 3: pr.append('two fields share storage')
    return pr


def e_new_shell(S, L, n, pattern='', copy=False):
    nv, co, ao, cs, al, rng = mk_inputs(S, n, pattern); org = [S.sym('o%d' % k, 0.1 * k + 0.2) for k in range(3)]; oo = S.reals(org, 'origin')
    pr, p, mark = frame_call(S, 'libgrpp_new_shell', S.ptr(oo), L, nv, S.ptr(co), S.ptr(ao))
    foreign = [oo, co, ao]
    if copy:
        src = p; foreign += [src.a] + objs_of(S, 'libgrpp_shell_t', src, ['coeffs', 'alpha', 'cart_list'])
        pr2, p, mark = frame_call(S, 'libgrpp_shell_deep_copy', src); pr += pr2
        pr += check_shell(S, src, L, org, nv, cs, al, rng, [])
        if p.a == src.a: pr.append('the copy is the source itself')
    pr += check_shell(S, p, L, org, nv, cs, al, rng, foreign)
    pr += idiff('libgrpp_get_shell_size', S.call('libgrpp_get_shell_size', p), nsize(L))
    pr += e_delete(S, 'libgrpp_delete_shell', p, mark, {co: (cs, rng), ao: (al, rng), oo: (org, None)})
    if copy: pr += check_shell(S, src, L, org, nv, cs, al, rng, [])
    return pr


def e_delete(S, fn, p, mark, inputs):
    pr, _ = free_call(S, fn, p)
    live = S.live(mark)
    if live: pr.append('%s leaves %d blocks allocated' % (fn, len(live)))
    for o, (v, rng) in inputs.items(): pr += ['input changed: ' + x for x in check_reals(S, dvlib.L.dv_obj_name(o).decode(), S.ptr(o), v, rng, [])]
    return pr


def e_shrink_shell(S, n, pattern='', L=1):
    nv, co, ao, cs, al, rng = mk_inputs(S, n, pattern); org = [S.sym('o%d' % k, 0.1 * k + 0.2) for k in range(3)]; oo = S.reals(org, 'origin')
    mark = dvlib.L.dv_nobj(); p = S.call('libgrpp_new_shell', S.ptr(oo), L, nv, S.ptr(co), S.ptr(ao))
    pr, _ = free_call(S, 'libgrpp_shell_shrink', p)
    keep = [k for k in range(len(cs)) if n == 'sym' or keep_shell(pattern[k])]
    pr += check_shell(S, p, L, org, nv, [cs[k] for k in keep], [al[k] for k in keep], rng, [co, ao])
    pr += e_delete(S, 'libgrpp_delete_shell', p, mark, {co: (cs, rng), ao: (al, rng)})
    return pr


def e_norm_shell(S, n, L, pattern=''):
    nv, co, ao, cs, al, rng = mk_inputs(S, n, pattern); org = [S.sym('o%d' % k, 0.1 * k + 0.2) for k in range(3)]; oo = S.reals(org, 'origin')
    mark = dvlib.L.dv_nobj(); p = S.call('libgrpp_new_shell', S.ptr(oo), L, nv, S.ptr(co), S.ptr(ao))
    pr, _ = free_call(S, 'libgrpp_shell_mult_normcoef', p)
    pr += check_shell(S, p, L, org, nv, [c * spec.norm(S.R, a, L) for c, a in zip(cs, al)], al, rng, [co, ao])
    pr += e_delete(S, 'libgrpp_delete_shell', p, mark, {co: (cs, rng), ao: (al, rng)})
    return pr


# ------------------------------------------------------------------ native twins
def ng(p, kind, f):
    o = layout()[kind][f]; a = (p.value if hasattr(p, 'value') else p) + o
    return {4: I, 8: P}[View.SZ.get(f, 8)].from_address(a).value


def ndbl(p, n): return list((D * n).from_address(p)) if n else []


def n_shell_problems(l, p, L, org, cs, al):
    k = 'libgrpp_shell_t'; pr = []
    for f, e in (('L', L), ('cart_size', nsize(L)), ('num_primitives', len(cs))):
        if ng(p, k, f) != e: pr.append('%s is %d, expected %d' % (f, ng(p, k, f), e))
    if pr: return pr
    if ndbl(p.value + layout()[k]['origin'], 3) != list(org): pr.append('origin differs')
    for f, e in (('coeffs', cs), ('alpha', al)):
        g = ndbl(ng(p, k, f), len(e))
        if any(not (abs(x - y) <= 1e-13 * abs(y)) for x, y in zip(g, e)): pr.append('%s is %s, expected %s' % (f, g, e))
    cl = list((I * (3 * nsize(L))).from_address(ng(p, k, 'cart_list')))
    if cl != [x for c in spec.carts(L) for x in c]: pr.append('cart_list is %s' % cl)
    return pr


def n_shell(lib, L, cs, al, org, op):
    l = lib.l; l.libgrpp_shell_deep_copy.restype = P; l.libgrpp_shell_deep_copy.argtypes = [P]
    for f in ('libgrpp_shell_shrink', 'libgrpp_shell_mult_normcoef', 'libgrpp_get_shell_size'): getattr(l, f).argtypes = [P]
    co, ao, oo = native.da(cs), native.da(al), native.da(org); pr = []
    p = P(l.libgrpp_new_shell(oo, L, len(cs), co, ao)); kill = [p]
    if op == 'copy': src = p; p = P(l.libgrpp_shell_deep_copy(src)); kill.append(p)
    ec, ea = list(cs), list(al)
    if op == 'shrink':
        l.libgrpp_shell_shrink(p); ec = [c for c in cs if abs(c) > TH]; ea = [a for c, a in zip(cs, al) if abs(c) > TH]
    if op == 'norm': l.libgrpp_shell_mult_normcoef(p); ec = [c * (2 * a / math.pi) ** .75 * (4 * a) ** (L / 2) for c, a in zip(cs, al)]
    pr += n_shell_problems(l, p, L, org, ec, ea)
    if l.libgrpp_get_shell_size(p) != nsize(L): pr.append('libgrpp_get_shell_size is %d' % l.libgrpp_get_shell_size(p))
    # later changes of the source do not show; the source keeps its contents
    if list(co)[:len(cs)] != list(cs) or list(ao)[:len(al)] != list(al) or list(oo) != list(org): pr.append('an input array was changed')
    if op == 'copy':
        pr += ['source: ' + x for x in n_shell_problems(l, src, L, org, cs, al)]; l.libgrpp_delete_shell(src); kill.pop(0)
    for a in (co, ao, oo):
        for k in range(len(a)): a[k] = -77.0
    pr += n_shell_problems(l, p, L, org, ec, ea)
    for p in kill: l.libgrpp_delete_shell(p)
    return pr[:6]


def rnd_c(r, pat): return [{'z': 0.0, 't': 3e-15, 'u': -9e-15, 'b': 1.01e-14, 'v': -1.01e-14, 'e': 1e-14, 'm': -r.uniform(.1, 3)}.get(p, r.uniform(.1, 3)) for p in pat]


def C16():
    chk = Check('C16'); session(); T = []; r = random.Random(SEED)
    def natin(L, pat, op): return (L, rnd_c(r, pat), [r.uniform(.1, 9) for _ in pat], [r.uniform(-2, 2) for _ in range(3)], op)
    for L in range(12):
        for cp in (False, True):
            op = 'copy' if cp else 'new'; nm = 'libgrpp_shell_deep_copy' if cp else 'libgrpp_new_shell'
            T.append(scen('%s, L=%d, any number of primitives' % (nm, L), e_new_shell, dict(L=L, n='sym', copy=cp), n_shell, [natin(L, p, op) for p in ('n', 'nzm', 'nmtbn')], lib='asan'))
            T.append(scen('%s, L=%d, zero coefficients' % (nm, L), e_new_shell, dict(L=L, n=3, pattern='nzt', copy=cp)))
        T.append(scen('libgrpp_shell_mult_normcoef, L=%d, any number of primitives' % L, e_norm_shell, dict(L=L, n='sym'), n_shell, [natin(L, p, 'norm') for p in ('n', 'nzmmn')]))
        T.append(scen('libgrpp_shell_mult_normcoef, L=%d, zero coefficients' % L, e_norm_shell, dict(L=L, n=4, pattern='nztm')))
    T.append(scen('libgrpp_shell_shrink, any number of non-zero coefficients', e_shrink_shell, dict(n='sym')))
    nmax = 6 if TIER == 'quick' else 9
    pats = [''.join(p) for n in range(1, nmax + 1) for p in itertools.product('nz', repeat=n)] + [''.join(p) for n in range(1, 4) for p in itertools.product('ntbumve', repeat=n)]
    for k in range(0, len(pats), 40):
        def batch(S, pp):
            out = []
            for p in pp:
                cp = S.checkpoint(); pr = e_shrink_shell(S, 0, p); S.undo(cp)
                out += ['%s: %s' % (p, x) for x in pr]
            return out
        T.append(scen('libgrpp_shell_shrink, coefficient patterns %s..%s' % (pats[k], pats[min(k + 39, len(pats) - 1)]), batch, dict(pp=pats[k:k + 40]), n_shell, [natin(r.choice([0, 1, 3]), p, 'shrink') for p in pats[k:k + 40:3]], bounded='all patterns of at most %d primitives' % nmax, lib='asan'))
    T.append(scen('shells with 1000 primitives', None, nat=n_shell, natcfg=[natin(2, ''.join(r.choice('nzmtb') for _ in range(1000)), op) for op in ('new', 'copy', 'shrink', 'norm')], lib='asan'))
    run_tasks(chk, T, chk.t0 + 300)
    chk.assumptions = ['for a symbolic number of primitives all coefficients are non-zero; mixed patterns are covered exhaustively up to %d primitives (bounded)' % nmax]
    return chk


# ------------------------------------------------------------------ C17 potentials
def pot_inputs(S, n, pattern, powers, share=''):
    nv, co, ao, cs, al, rng = mk_inputs(S, n, pattern, share)
    if rng is not None:
        po = dvlib.L.dv_new_symobj(rng, 4, OF_INPUT, b'powers'); v = S.int(powers); v.size = 4; dvlib.L.dv_sym_set(po, 0, 4, C.byref(v)); pw = [powers]
    else:
        pw = [(powers + k) % 3 for k in range(len(cs))] if isinstance(powers, int) else list(powers); po = S.ints(pw, 'powers')
    return nv, po, co, ao, pw, cs, al, rng


def check_pot(S, p, L, J, nv, pw, cs, al, rng, foreign):
    v = View(S, 'libgrpp_potential_t', p); pr = idiff('L', v.get('L'), L) + idiff('J', v.get('J'), J)
    if rng is not None:
        g = v.get('num_primitives'); pr += [] if g.kind == K_SYM and (g.a, g.i) == (nv.a, nv.i) else ['num_primitives wrong']
        w = Val(); o = v.get('powers').a
        if dvlib.L.dv_sym_get(o, 0, 4, C.byref(w)): pr.append('powers not filled')
        else: pr += idiff('powers[i]', w, pw[0])
        if o in foreign: pr.append('powers shares the storage of its source')
    else:
        pr += idiff('num_primitives', v.get('num_primitives'), len(cs))
        for k, e in enumerate(pw): pr += idiff('powers[%d]' % k, S.cread(v.get('powers'), 4 * k, 4, False), e)
        if v.get('powers').a in foreign: pr.append('powers shares the storage of its source')
    pr += check_reals(S, 'coeffs', v.get('coeffs'), cs, rng, foreign) + check_reals(S, 'alpha', v.get('alpha'), al, rng, foreign)
    if len({v.get(f).a for f in ('powers', 'coeffs', 'alpha')}) < 3: pr.append('two fields share storage')
    return pr


def e_pot(S, n, pattern='', powers=0, L=2, J=5, shrink=False, share=''):
    nv, po, co, ao, pw, cs, al, rng = pot_inputs(S, n, pattern, powers, share)
    pr, p, mark = frame_call(S, 'libgrpp_new_potential', L, J, nv, S.ptr(po), S.ptr(co), S.ptr(ao)); foreign = [po, co, ao]
    keep = [k for k in range(len(cs)) if rng is not None or pattern[k] in 'nmbv']
    sub = lambda x: [x[k] for k in keep]
    src = None
    if shrink:
        # overwrite the (already compacted) source with coefficients that still contain zeros
        src = p; v = View(S, 'libgrpp_potential_t', src)
        if rng is None:
            nv, po, co, ao, pw, cs0, al, rng = pot_inputs(S, n, 'n' * len(pattern), powers, share); src = S.call('libgrpp_new_potential', L, J, nv, S.ptr(po), S.ptr(co), S.ptr(ao)); v = View(S, 'libgrpp_potential_t', src)
            for k, c in enumerate(cs): S.cwrite(v.get('coeffs'), 8 * k, c)
        foreign += [src.a] + objs_of(S, 'libgrpp_potential_t', src, ['powers', 'coeffs', 'alpha'])
        mk = dvlib.L.dv_nobj(); pr2, p, _ = frame_call(S, 'libgrpp_shrink_potential', src); pr += pr2
        pr += check_pot(S, src, L, J, nv, pw, cs, al, rng, [])
        if len(S.live(mk)) > 4: pr.append('libgrpp_shrink_potential leaves temporary blocks allocated')
        mark = mk
    pr += check_pot(S, p, L, J, nv, sub(pw), sub(cs), sub(al), rng, foreign)
    # value at a symbolic r > 0
    r = S.sym('r', 0.83, True); pr2, val, _ = frame_call(S, 'libgrpp_potential_value', p, r); pr += pr2
    e = F.lift(0); om = S.omega(rng) if rng is not None else 1
    for k in keep: e = e + om * cs[k] * r ** (pw[k] - 2) * S.R.exp(-al[k] * r * r)
    pr += fdiff('potential value', val, e)
    pr2, _ = free_call(S, 'libgrpp_delete_potential', p); pr += pr2
    if S.live(mark): pr.append('libgrpp_delete_potential leaves %d blocks allocated' % len(S.live(mark)))
    if src is not None: pr += check_pot(S, src, L, J, nv, pw, cs, al, rng, [])
    return pr


def e_pot_null(S):
    pr, _ = free_call(S, 'libgrpp_delete_potential', S.null); return pr


def n_pot_problems(p, L, J, pw, cs, al):
    k = 'libgrpp_potential_t'; pr = []
    for f, e in (('L', L), ('J', J), ('num_primitives', len(cs))):
        if ng(p, k, f) != e: pr.append('%s is %d, expected %d' % (f, ng(p, k, f), e))
    if pr: return pr
    if list((I * len(pw)).from_address(ng(p, k, 'powers'))) != list(pw) if pw else False: pr.append('powers differ')
    for f, e in (('coeffs', cs), ('alpha', al)):
        if ndbl(ng(p, k, f), len(e)) != list(e): pr.append('%s is %s, expected %s' % (f, ndbl(ng(p, k, f), len(e)), e))
    return pr


def n_pot(lib, L, J, pw, cs, al, op, rs):
    l = lib.l; l.libgrpp_shrink_potential.restype = P; l.libgrpp_shrink_potential.argtypes = [P]; pr = []
    l.libgrpp_delete_potential(None)
    if op == 'shrink':
        po, co, ao = native.ia(pw), native.da([1.0] * len(cs)), native.da(al); src = P(l.libgrpp_new_potential(L, J, len(cs), po, co, ao))
        a = ng(src, 'libgrpp_potential_t', 'coeffs'); m = (D * len(cs)).from_address(a)
        for k in range(len(cs)): m[k] = cs[k]
        p = P(l.libgrpp_shrink_potential(src)); pr += ['source: ' + x for x in n_pot_problems(src, L, J, pw, cs, al)]
    else:
        po, co, ao = native.ia(pw), native.da(cs), native.da(al); p = P(l.libgrpp_new_potential(L, J, len(cs), po, co, ao)); src = None
        if list(po)[:len(pw)] != list(pw) or list(co)[:len(cs)] != list(cs) or list(ao)[:len(al)] != list(al): pr.append('an input array was changed')
    if src: l.libgrpp_delete_potential(src)
    for a in (po, co, ao):
        for k in range(len(a)): a[k] = 7
    kp = [k for k in range(len(cs)) if abs(cs[k]) > TH]; s = lambda x: [x[k] for k in kp]
    pr += n_pot_problems(p, L, J, s(pw), s(cs), s(al))
    for r in rs:
        e = math.fsum(cs[k] * r ** (pw[k] - 2) * math.exp(-al[k] * r * r) for k in kp); sc = sum(abs(cs[k]) * r ** (pw[k] - 2) * math.exp(-al[k] * r * r) for k in kp); g = l.libgrpp_potential_value(p, r)
        if not abs(g - e) <= 1e-12 * sc + 1e-300: pr.append('value at r=%g is %.17g, expected %.17g' % (r, g, e))
    l.libgrpp_delete_potential(p)
    return pr[:6]


def C17():
    chk = Check('C17'); session(); T = []; r = random.Random(SEED + 1)
    def natin(pat, op): return (r.randint(0, 10), r.randint(-3, 21), [r.choice([0, 1, 2]) for _ in pat], rnd_c(r, pat), [r.uniform(.05, 9) for _ in pat], op, [r.uniform(.01, 4) for _ in range(4)] + [1e-3, 0.5, 10.0])
    def natmix(m, op):
        a = [r.uniform(.05, 3) for _ in m[0]]; return (r.randint(0, 10), r.randint(-3, 21), list(m[1]), rnd_c(r, m[0]), [a[int(c)] for c in m[2]], op, [r.uniform(.01, 4) for _ in range(4)] + [1e-3, 0.5])
    for sh_ in (False, True):
        nm = 'libgrpp_shrink_potential' if sh_ else 'libgrpp_new_potential'; op = 'shrink' if sh_ else 'new'
        for pw in (0, 1, 2):
            for L, J in ((0, 0), (1, 3), (10, 21)):
                T.append(scen('%s, value and destructor, any number of primitives, n=%d, L=%d, J=%d' % (nm, pw, L, J), e_pot, dict(n='sym', powers=pw, L=L, J=J, shrink=sh_), n_pot, [natin(p, op) for p in ('n', 'nmn', 'ztnzm', 'zz')], lib='asan'))
        nmax = 6 if TIER == 'quick' else 9
        pats = [''.join(p) for n in range(0, nmax + 1) for p in itertools.product('nz', repeat=n)] + [''.join(p) for n in range(1, 4) for p in itertools.product('ntbumv', repeat=n)]
        for k in range(0, len(pats), 40):
            T.append(scen('%s, coefficient patterns %s..%s' % (nm, pats[k], pats[min(k + 39, len(pats) - 1)]), e_pot_batch, dict(pp=pats[k:k + 40], shrink=sh_), n_pot, [natin(p, op) for p in pats[k:k + 40:3]], bounded='all patterns of at most %d primitives' % nmax, lib='asan'))
        # terms which share exponents and powers in every combination
        mix = [(''.join(c), pw, sh) for n in (2, 3) for c in itertools.product('nz' if n == 2 or TIER != 'quick' else 'n', repeat=n) for pw in itertools.product((0, 1, 2), repeat=n) for sh in partitions(n) if sh != '012'[:n]]
        mix += [(c, pw, sh) for c in ('znn', 'nzn', 'nnz', 'nmn', 'nnm') for pw in itertools.product((0, 1, 2), repeat=3) for sh in ('000',)]
        for k in range(0, len(mix), 40):
            T.append(scen('%s, coinciding exponents and powers, combinations %d..%d' % (nm, k, min(k + 39, len(mix) - 1)), e_pot_mix, dict(mix=mix[k:k + 40], shrink=sh_), n_pot, [natmix(m, op) for m in mix[k:k + 40]], bounded='at most 3 primitives', lib='asan'))
        T.append(scen('%s, 1000 primitives' % nm, None, nat=n_pot, natcfg=[natin(''.join(r.choice('nzmtb') for _ in range(1000)), op)], lib='asan'))
    T.append(scen('libgrpp_delete_potential(NULL)', e_pot_null))
    run_tasks(chk, T, chk.t0 + 300)
    chk.assumptions = ['for a symbolic number of primitives all coefficients are non-zero; mixed patterns are covered exhaustively up to %d primitives (bounded)' % nmax]
    return chk


def e_pot_batch(S, pp, shrink):
    out = []
    for p in pp:
        cp = S.checkpoint(); pr = e_pot(S, 0, p, shrink=shrink); S.undo(cp); out += ['%s: %s' % (p, x) for x in pr]
    return out


def e_pot_mix(S, mix, shrink):
    out = []
    for p, pw, sh in mix:
        cp = S.checkpoint(); pr = e_pot(S, 0, p, powers=pw, shrink=shrink, share=sh); S.undo(cp); out += ['%s, powers %s, exponents %s: %s' % (p, pw, sh, x) for x in pr]
    return out


# ------------------------------------------------------------------ C18 the GRPP container
class GModel:
    """specification state of a GRPP object"""
    def __init__(s): s.loc = None; s.arep = []; s.esop = []; s.oc = []


def e_grpp(S, ops):
    """ops: string over l (set local), n (set local to NULL), a, s, o (add), each checked against the model; then delete"""
    mark = dvlib.L.dv_nobj(); g = S.call('libgrpp_new_grpp'); m = GModel(); owned = []; pr = []
    c = S.reals([F.lift(1)], 'c'); a = S.reals([F.lift(1)], 'a'); pw = S.ints([2], 'n'); oo = S.reals([F.lift(0)] * 3, 'o')
    def pot(): return S.call('libgrpp_new_potential', 1, 0, 1, S.ptr(pw), S.ptr(c), S.ptr(a))
    def state():
        v = View(S, 'libgrpp_grpp_t', g); q = idiff('n_arep', v.get('n_arep'), len(m.arep)) + idiff('n_esop', v.get('n_esop'), len(m.esop)) + idiff('n_oc_shells', v.get('n_oc_shells'), len(m.oc))
        if q: return q
        same = lambda x, y: x.kind == K_PTR and (x.a, x.i) == (y.a, y.i)
        if not same(v.get('U_L'), m.loc or S.null) and not (m.loc is None and v.get('U_L').kind == K_INT and v.get('U_L').i == 0): q.append('local potential is not the one set last')
        for f, l in (('U_arep', m.arep), ('U_esop', m.esop), ('U_oc', [x[0] for x in m.oc]), ('oc_shells', [x[1] for x in m.oc])):
            b = v.get(f) if l else None
            for k, e in enumerate(l):
                if not same(S.cread(b, 8 * k, 8, False), e): q.append('%s[%d] is not the term added' % (f, k)); break
        return q
    pr += state()
    for n, op in enumerate(ops):
        dvlib.L.dv_clear_events()
        if op in 'ln':
            p = pot() if op == 'l' else S.null; old = m.loc; S.call('libgrpp_grpp_set_local_potential', g, p); m.loc = p if op == 'l' else None
            if old is not None and dvlib.L.dv_obj_alive(old.a): pr.append('replacing the local potential does not release the previous one')
            if op == 'l' and not dvlib.L.dv_obj_alive(p.a): pr.append('the potential just set was released')
        elif op == 'a': p = pot(); S.call('libgrpp_grpp_add_averaged_potential', g, p); m.arep.append(p)
        elif op == 's': p = pot(); S.call('libgrpp_grpp_add_spin_orbit_potential', g, p); m.esop.append(p)
        elif op == 'o':
            p = pot(); sh_ = S.call('libgrpp_new_shell', S.ptr(oo), 1, 1, S.ptr(c), S.ptr(a)); S.call('libgrpp_grpp_add_outercore_potential', g, p, sh_); m.oc.append((p, sh_))
        for e in S.events(): pr.append('after %d operations: %s %s' % (n + 1, e['kind'], e['msg']))
        if n < 8 or n % 37 == 0 or n == len(ops) - 1 or n % 100 in (0, 1, 99): pr += ['after %d operations: %s' % (n + 1, x) for x in state()]
        if pr: return pr
    terms = [p for p in m.arep + m.esop + [x for t in m.oc for x in t] + ([m.loc] if m.loc else [])]
    for t in terms:
        if not dvlib.L.dv_obj_alive(t.a): pr.append('a term was released before the object was deleted'); return pr
    pr2, _ = free_call(S, 'libgrpp_delete_grpp', g); pr += pr2
    if S.live(mark): pr.append('libgrpp_delete_grpp leaves %d blocks allocated' % len(S.live(mark)))
    return pr


def e_grpp_batch(S, words):
    out = []
    for w in words:
        cp = S.checkpoint(); pr = e_grpp(S, w); S.undo(cp); out += ['%s: %s' % (w, x) for x in pr]
    return out


def n_grpp(lib, ops):
    l = lib.l; pr = []
    fs = dict(l='libgrpp_grpp_set_local_potential', n='libgrpp_grpp_set_local_potential', a='libgrpp_grpp_add_averaged_potential', s='libgrpp_grpp_add_spin_orbit_potential')
    for f in fs.values(): getattr(l, f).argtypes = [P, P]; getattr(l, f).restype = None
    l.libgrpp_grpp_add_outercore_potential.argtypes = [P, P, P]; l.libgrpp_grpp_add_outercore_potential.restype = None
    g = l.libgrpp_new_grpp(); m = GModel(); k = 'libgrpp_grpp_t'; cnt = 0
    def pot(): return lib.pot(dict(L=1, J=cnt, coeffs=[1.0 + cnt], alpha=[1.0], powers=[2])).value
    for op in ops:
        cnt += 1
        if op == 'n': l.libgrpp_grpp_set_local_potential(g, None); m.loc = None; continue
        p = pot()
        if op == 'o': sh_ = lib.shell(dict(L=1, origin=[0, 0, 0], coeffs=[1.0], alpha=[1.0])).value; l.libgrpp_grpp_add_outercore_potential(g, p, sh_); m.oc.append((p, sh_)); continue
        getattr(l, fs[op])(g, p)
        if op == 'l': m.loc = p
        if op == 'a': m.arep.append((p, cnt))
        if op == 's': m.esop.append((p, cnt))
    for f, e in (('n_arep', len(m.arep)), ('n_esop', len(m.esop)), ('n_oc_shells', len(m.oc))):
        if ng(g, k, f) != e: pr.append('%s is %d, expected %d' % (f, ng(g, k, f), e))
    if pr: return pr
    if ng(g, k, 'U_L') != m.loc: pr.append('the local potential is not the one set last')
    for f, e in (('U_arep', [x[0] for x in m.arep]), ('U_esop', [x[0] for x in m.esop]), ('U_oc', [x[0] for x in m.oc]), ('oc_shells', [x[1] for x in m.oc])):
        if e:
            got = list((P * len(e)).from_address(ng(g, k, f)))
            if got != e: pr.append('%s differs from the terms added (first at %d)' % (f, [x == y for x, y in zip(got, e)].index(False)))
    for f, ts in (('U_arep', m.arep), ('U_esop', m.esop)):
        for j, (p, c) in enumerate(ts):
            if ng(p, 'libgrpp_potential_t', 'J') != c: pr.append('%s[%d] was overwritten' % (f, j)); break
    l.libgrpp_delete_grpp(g); return pr


def n_grpp_leak(lib, ops):
    """repeat a history and look for memory growth or blocks released that belong to nobody"""
    import gc
    try: cur = lib.l.__sanitizer_get_current_allocated_bytes
    except AttributeError: return []
    cur.restype = C.c_size_t; n = 400
    gc.collect(); gc.disable()
    def rep():
        for _ in range(n): n_grpp(lib, ops)
        gc.collect(); return cur()
    try: a = rep(); b = rep(); c = rep(); d = rep()
    finally: gc.enable()
    return ['memory grows by %d bytes per history' % ((d - a) // (3 * n))] if min(b - a, c - b, d - c) >= 8 * n else []


def C18():
    chk = Check('C18'); session(); T = []; r = random.Random(SEED + 2)
    n = 4 if TIER == 'quick' else 6
    words = [''.join(w) for k in range(n + 1) for w in itertools.product('lnaso', repeat=k)]
    step = 120
    for k in range(0, len(words), step):
        T.append(scen('histories %s..%s (exhaustive)' % (words[k], words[min(k + step - 1, len(words) - 1)]), e_grpp_batch, dict(words=words[k:k + step]), n_grpp, [(w,) for w in words[k:k + step:11]], bounded='all histories of at most %d operations' % n, lib='asan'))
    N = 330
    for w in ('a' * N, 's' * N, 'o' * N, 'aso' * N, 'l' * 50 + 'a' * 101, ''.join(r.choice('lnaso') for _ in range(1500))):
        T.append(scen('history of %d operations (%s...)' % (len(w), w[:6]), e_grpp, dict(ops=w), n_grpp, [(w,)], bounded='%d operations' % len(w), lib='asan', cost=50))
    for w in ('a', 's', 'o', 'll', 'laso', 'a' * 101, 'o' * 101, 's' * 101, 'nlna'):
        T.append(scen('memory use of history %s' % w[:5], None, nat=n_grpp_leak, natcfg=[(w,)], lib='asan', timeout=100))
    T.append(scen('a deleted NULL object', lambda S: free_call(S, 'libgrpp_delete_grpp', S.null)[0]))
    for op in 'aso':
        T.append(scen('histories of 100000 operations', None, nat=n_grpp, natcfg=[(op * 3000,)], lib='asan', timeout=100))
    import cbmcx; T += cbmcx.tasks()
    run_tasks(chk, T, chk.t0 + 400)
    chk.back_end = 'CBMC 6.11 code contracts (goto-instrument loop contracts) with z3 / cvc5: every obligation of each routine in one condition, decided unsat; histories additionally in dv (bounded)'
    chk.trusted = ['goto-cc, goto-instrument and cbmc (C semantics, loop contracts, verification conditions)', 'z3 and cvc5', 'the contract of realloc in /verif/contracts/grpp.c (stated for one arbitrary element of each block)', 'the step from the contracts of the single routines to histories (induction over the operations; dv checks all short histories)'] + chk.trusted[:2]
    chk.assumptions = ['distinct objects are added (adding one potential twice is a caller error)', 'allocation succeeds', 'fewer than 2*10^9 terms of each kind', 'a container holding n terms has room for 100*ceil(n/100) of them: the representation invariant, proved of libgrpp_new_grpp and preserved by every adding routine',
                       'libgrpp_delete_potential and libgrpp_delete_shell are replaced by ghost accounting here (their contracts: C16, C17)']
    return chk


# ------------------------------------------------------------------ C19 component order
def funcptr(S, name):
    f = dvlib.L.dv_func(name.encode())
    if f < 0: raise Unsupported('no function ' + name)
    v = Val(); v.kind = K_FUNC; v.a = f; return v


def set_order(S, which):
    if which == 'default': S.call('libgrpp_set_default_parameters')
    elif which == 'initial': pass
    elif which == 'custom': S.call('libgrpp_set_cartesian_generator', funcptr(S, 'libgrpp_daxpy'))
    else: S.call('libgrpp_set_cartesian_order', which)


def rev_contract(S, a):
    """a caller-supplied generator: the components in reverse order"""
    L_ = a[0].i; cs = spec.carts(L_)[::-1]
    for k, c in enumerate(cs):
        for d in range(3): v = S.int(c[d]); v.size = 4; S.cwrite(a[1], 4 * (3 * k + d), v, 4)
    return S.int(len(cs))


def e_order(S, which, L):
    S.contract('libgrpp_daxpy', rev_contract); set_order(S, which); exp = spec.carts(L); pr = []
    if which == 'custom': exp = exp[::-1]
    c = S.reals([F.lift(1)], 'c'); a = S.reals([F.lift(1)], 'a'); oo = S.reals([F.lift(0)] * 3, 'o')
    pr2, p, _ = frame_call(S, 'libgrpp_generate_shell_cartesians', L); pr += pr2
    sh_ = S.call('libgrpp_new_shell', S.ptr(oo), L, 1, S.ptr(c), S.ptr(a)); v = View(S, 'libgrpp_shell_t', sh_); pr += idiff('cart_size', v.get('cart_size'), len(exp))
    sh2 = S.call('libgrpp_shell_deep_copy', sh_); cp = View(S, 'libgrpp_shell_t', sh2).get('cart_list')
    for nm, q in (('libgrpp_generate_shell_cartesians', p), ('new shell', v.get('cart_list')), ('copied shell', cp)):
        for k, e in enumerate(exp):
            g = tuple(S.cread(q, 4 * (3 * k + d), 4, False).i for d in range(3))
            if g != e: pr.append('%s: component %d is %s, expected %s' % (nm, k, g, e)); break
    # a later change of the order leaves existing shells alone
    for w in ('default', 'custom', 1, 0):
        set_order(S, w)
        if tuple(S.cread(v.get('cart_list'), 4 * d, 4, False).i for d in range(3)) != exp[0]: pr.append('changing the order alters an existing shell')
    set_order(S, 'default'); return pr


def n_order(lib, which, L):
    l = lib.l; pr = []; exp = spec.carts(L)
    GEN = C.CFUNCTYPE(I, I, C.POINTER(I))
    @GEN
    def rev(L_, out):
        cs = spec.carts(L_)[::-1]
        for k, c in enumerate(cs):
            for d in range(3): out[3 * k + d] = c[d]
        return len(cs)
    if which == 'custom': exp = exp[::-1]; l.libgrpp_set_cartesian_generator(rev)
    elif which == 'default': l.libgrpp_set_cartesian_generator(rev); l.libgrpp_set_default_parameters()
    elif which != 'initial': l.libgrpp_set_cartesian_order(which)
    sh_ = lib.shell(dict(L=L, origin=[0, 0, 0], coeffs=[1.0], alpha=[1.0])); l.libgrpp_shell_deep_copy.restype = P; l.libgrpp_shell_deep_copy.argtypes = [P]; s2 = l.libgrpp_shell_deep_copy(sh_)
    for nm, q in (('new shell', sh_.value), ('copied shell', s2)):
        g = list((I * (3 * len(exp))).from_address(ng(q, 'libgrpp_shell_t', 'cart_list')))
        if g != [x for c in exp for x in c]: pr.append('%s: components %s' % (nm, g[:12]))
        if ng(q, 'libgrpp_shell_t', 'cart_size') != len(exp): pr.append('cart_size')
    l.libgrpp_set_default_parameters(); return pr


def C19():
    import checks_func
    chk = Check('C19'); S = session(); T = []
    try: checks_func.tables(S, 22)
    except Unsupported as e: chk.ob('tables of spherical harmonics', 'undecided', str(e))
    for w in ('initial', 'default', 0, 1, 'custom'):
        for L in range(13):
            T.append(scen('component list, order=%s, L=%d' % (w, L), e_order, dict(which=w, L=L), n_order, [(w, L)]))
    # every integral routine indexes its matrices by the lists of the shells it is given
    for kind in ('overlap', 'kinetic', 'momentum', 'overlap_gradient', 'type1'):
        for k, (LA, LB) in enumerate(pairs(range(4)) + [(5, 4), (4, 6)]):
            c = dict(LA=LA, LB=LB, perm=1 + k, prim=1, geom='gen')
            if kind == 'type1': c['powers'] = k % 3
            gs = ('gen/A', 'gen/B') if 'gradient' in kind else ('gen',)
            for g in gs: T.append(dict(kind=kind, cfg=dict(c, geom=g, prim='sym' if LA + LB < 5 else 1)))
            if k % 4 == 1 or k == 14: T.append(dict(kind=kind, cfg=dict(c, geom=gs[-1]), q=rand_q(kind, dict(c, geom=gs[-1]), SEED * 7 + k), tag='permuted components'))
    T += more_perm()
    run_tasks(chk, T, chk.t0 + 400)
    chk.assumptions = ['the index contract is checked for one random permutation of the component list per routine and pair of L values, and for one caller-supplied generator (a random permutation for every L) governing the whole library']
    return chk


def more_perm():
    """the whole library under a caller-supplied order; the numerically integrated kinds with permuted shells"""
    import checks_full, checks_semi, checks_nuc, checks_oc
    T = []; G = dict(local=1, arep=[0, 2], esop=[1], oc=[(1, 3)]); quick = TIER == 'quick'; n = 100
    def add(kind, c, native=None, **kw):
        nonlocal n
        n += 1; c = dict(c, gen=n); T.append(dict(kind=kind, cfg=c, **kw))
        if native: d = {k: v for k, v in c.items() if k not in ('prim', 'inl')}; T.append(dict(kind=native, cfg=d, q=rand_q(native, d, SEED * 13 + n, 'mid', 1), tag='caller-supplied order', cost=1e4))
    for k, (LA, LB) in enumerate(pairs(range(4)) + [(5, 4), (4, 6), (10, 2)]):
        c = dict(LA=LA, LB=LB, prim='sym' if LA + LB < 5 else 1, geom='gen'); nat = LA + LB < 4 and k % 3 == 1
        for kind in ('overlap', 'kinetic', 'momentum'): add(kind, c, kind)
        if LA + LB < 9: add('type1', dict(c, powers=k % 3), 'type1' if nat else None)
        for g in ('gen/A', 'gen/B'): add('overlap_gradient', dict(c, geom=g), 'overlap_gradient')
        for g in ('gen/A', 'gen/B', 'gen/C'):
            c2 = dict(c, geom=g, grad=1)
            add('full_gradient', dict(c2, grpp=G), 'full_gradient' if nat and LA + LB < 3 else None)
            for kd in ('type1', 'type2', 'spin_orbit'): add(kd + '_gradient', dict(c2, L=k % 4), kd + '_gradient' if nat else None)
            add('outercore_gradient', dict(c2, oc=[(1, 3)]), 'outercore_gradient' if nat else None)
        add('full', dict(c, grpp=G), 'full' if nat else None)
        if LA + LB < 5:
            add('nuclear_point', dict(c, prim=1), 'nuclear_fin' if nat else None); add('nuclear_fin', dict(c, prim=1, model='gaussian')); T[-1]['cfg']['gen'] = n
            for kd in ('type2', 'spin_orbit'):
                if LA + LB < 4: add(kd, dict(c, L=k % 3, prim=1), kd if nat else None, cost=1000)
            add('outercore_mod', dict(c, oc=[(k % 3, 2 * (k % 3) + 1, 2)]), None); T[-1]['modular'] = True
            add('outercore', dict(c, prim=1, oc=[(1, 3, 1), (1, 3, 1), (2, 5, 2)]), 'outercore' if nat else None)
    return T


# ------------------------------------------------------------------ C23 combinatorics
def exact_dfact(n): return 1 if n <= 0 else spec.dfact(n)


COMB = {'factorial': (lambda n: math.factorial(n) if n > 0 else Fr(1), 'i', 'd', [(n,) for n in range(-1, 101)]),
        'double_factorial': (exact_dfact, 'i', 'd', [(n,) for n in range(-1, 121)]),
        'factorial_ratio': (lambda n, m: Fr(math.factorial(n), math.factorial(m)), 'ii', 'd', [(n, m) for n in range(0, 85) for m in range(0, 85)]),
        'binomial': (lambda n, k: math.comb(n, k) if k <= n else 0, 'll', 'l', [(n, k) for n in range(0, 62) for k in range(0, 64)])}


def comb_bad(exact, got):
    e = Fr(exact)
    if e == 0: return got != 0
    if abs(e) < 2 ** 53 and e.denominator == 1: return Fr(got) != e
    return not (abs(Fr(got) - e) <= abs(e) * Fr(1, 10 ** 13))


def e_comb(S, fn):
    ex, sig, ret, args = COMB[fn]; pr = []
    for a in args:
        v = S.call(fn, *[S.int(x) for x in a]); e = Fr(ex(*a))
        if ret == 'd':
            if v2f(v) != F.lift(e): pr.append('%s%s is not the exact value %s (%.17g)' % (fn, a, str(e)[:40], v.x))
            elif comb_bad(e, v.x): pr.append('%s%s = %.17g is not accurate' % (fn, a, v.x))
        elif v.i % 2 ** 64 != e: pr.append('%s%s = %s, expected %s' % (fn, a, v.i, e))
        if len(pr) > 3: break
    return pr


def n_comb(lib, fn, a):
    ex, sig, ret, _ = COMB[fn]; f = getattr(lib.l, fn); f.restype = D if ret == 'd' else C.c_uint64; f.argtypes = [C.c_uint64 if t == 'l' else I for t in sig]
    out = []
    for x in a:
        g = f(*x)
        if comb_bad(Fr(ex(*x)), g): out.append('%s%s = %r, expected %s' % (fn, x, g, ex(*x)))
    return out[:4]


def C23():
    chk = Check('C23'); session(); T = []
    for fn, (ex, sig, ret, args) in COMB.items():
        T.append(scen('%s is exact for all %d arguments %s..%s' % (fn, len(args), args[0], args[-1]), e_comb, dict(fn=fn), n_comb, [(fn, args[k:k + 500]) for k in range(0, len(args), 500)], cost=10))
    run_tasks(chk, T, chk.t0 + 300); chk.elements = sum(len(c[3]) for c in COMB.values())
    chk.notes.append('finite domain enumerated completely: %d argument tuples' % chk.elements)
    chk.assumptions = ['arguments reachable from the documented domain: factorial n<=100, double factorial n<=120, ratio n,m<=84, binomial n<=61']
    return chk


# ------------------------------------------------------------------ C24 initialisation and parameters
PF = [('libgrpp_set_radial_tolerance', 'radial_tolerance'), ('libgrpp_set_angular_screening_tolerance', 'angular_screening_tolerance'), ('libgrpp_set_modified_bessel_tolerance', 'modified_bessel_tolerance')]
DEFAULTS = dict(radial_tolerance=1e-16, angular_screening_tolerance=1e-16, modified_bessel_tolerance=1e-16)


def params(S):
    g = dvlib.L.dv_global(b'libgrpp_params')
    if g < 0: raise Unsupported('no libgrpp_params')
    v = View(S, 'libgrpp_parameters_t', S.ptr(g)); r = {f: v2f(v.get(f)) for _, f in PF}; q = v.get('cartesian_generator'); r['cartesian_generator'] = (q.kind, q.a); return r


def pdiff(g, e): return ['%s is %s, expected %s' % (f, g[f], e[f]) for f in e if (g[f] != e[f])]


def cdbl(x): v = Val(); dvlib.L.dv_const(x, C.byref(v)); return v2f(v)


def e_params(S):
    pr = []; base = params(S); dflt = {f: cdbl(x) for f, x in DEFAULTS.items()}
    pr += ['initial: ' + x for x in pdiff(base, dflt)]
    gd = base['cartesian_generator']
    # each setter, from an arbitrary state, changes exactly its own parameter to the given value
    state = {}
    for k, (fn, f) in enumerate(PF): state[f] = S.sym('init_' + f, 1e-3 * (k + 1))
    g = dvlib.L.dv_global(b'libgrpp_params'); o = layout()['libgrpp_parameters_t']
    for f in state: S.cwrite(S.ptr(g), o[f], state[f])
    S.call('libgrpp_set_cartesian_generator', funcptr(S, 'libgrpp_daxpy')); state['cartesian_generator'] = (K_FUNC, dvlib.L.dv_func(b'libgrpp_daxpy'))
    pr += ['set_cartesian_generator: ' + x for x in pdiff(params(S), state)]
    for rnd in range(2):
        for k, (fn, f) in enumerate(PF):
            state[f] = S.sym('%s_%d' % (f, rnd), 1e-7 * (k + 1)); S.call(fn, state[f]); pr += ['%s: %s' % (fn, x) for x in pdiff(params(S), state)]
    kinds_ = []
    for order in (1, 0, 1):
        S.call('libgrpp_set_cartesian_order', order); p = params(S); state['cartesian_generator'] = p['cartesian_generator']; kinds_.append(p['cartesian_generator'])
        pr += ['set_cartesian_order(%d): %s' % (order, x) for x in pdiff(p, state)]
        if p['cartesian_generator'][0] != K_FUNC or p['cartesian_generator'][1] == dvlib.L.dv_func(b'libgrpp_daxpy'): pr.append('set_cartesian_order(%d) does not select a generator' % order)
    S.call('libgrpp_set_default_parameters'); pr += ['set_default_parameters: ' + x for x in pdiff(params(S), dict(dflt, cartesian_generator=gd))]
    return pr


ORDER_OPS = 'd01ce'       # defaults; predefined order 0, 1; a caller-supplied generator; another one


def e_orders(S, words):
    """the generator in force after any history is the one selected last; the tolerances are not touched by it"""
    pr = []; gd = params(S)['cartesian_generator']; cp = S.checkpoint(); which = {'d': gd}
    for o in (0, 1): S.call('libgrpp_set_cartesian_order', o); which[str(o)] = params(S)['cartesian_generator']
    S.undo(cp)
    for c, fn in (('c', 'libgrpp_daxpy'), ('e', 'libgrpp_finalize')): which[c] = (K_FUNC, funcptr(S, fn).a)
    for w in words:
        cp = S.checkpoint(); st = {}
        for k, op in enumerate(w):
            if op == 'd': S.call('libgrpp_set_default_parameters'); st = {f: cdbl(x) for f, x in DEFAULTS.items()}
            elif op in '01': S.call('libgrpp_set_cartesian_order', int(op))
            elif op in 'ce': S.call('libgrpp_set_cartesian_generator', funcptr(S, 'libgrpp_daxpy' if op == 'c' else 'libgrpp_finalize'))
            else: S.call('libgrpp_init' if op == 'i' else 'libgrpp_finalize'); continue
        p = params(S); last = [op for op in w if op in which]
        if last and p['cartesian_generator'] != which[last[-1]]: pr.append('after %s the component generator is not the one selected by %r' % (w, last[-1]))
        pr += ['after %s: %s' % (w, x) for x in pdiff(p, {f: cdbl(x) for f, x in DEFAULTS.items()})]
        S.undo(cp)
        if pr: break
    return pr


GEN = C.CFUNCTYPE(I, I, C.POINTER(I))


def n_params(lib, word):
    """word: sequence of (setter index or 'd', value)"""
    l = lib.l; pr = []; o = layout()['libgrpp_parameters_t']; base = C.addressof(C.c_char.in_dll(l, 'libgrpp_params'))
    def get(): return {f: D.from_address(base + o[f]).value for _, f in PF}
    exp = get(); gen0 = P.from_address(base + o['cartesian_generator']).value
    if exp != DEFAULTS: pr.append('initial parameters %s' % exp)
    for k, v in word:
        if k == 'd':
            l.libgrpp_set_default_parameters(); exp = dict(DEFAULTS)
            if P.from_address(base + o['cartesian_generator']).value != gen0: pr.append('defaults do not restore the generator')
        elif k == 'o': l.libgrpp_set_cartesian_order(int(v))
        elif k == 'g':
            l.libgrpp_set_cartesian_generator(GEN(0x1000 + int(v)))
            if P.from_address(base + o['cartesian_generator']).value != 0x1000 + int(v): pr.append('set_cartesian_generator does not store the generator')
        else: f = getattr(l, PF[k][0]); f.argtypes = [D]; f.restype = None; f(v); exp[PF[k][1]] = v
        if get() != exp: pr.append('after %s(%s): %s, expected %s' % (k, v, get(), exp))
    l.libgrpp_set_default_parameters(); return pr[:3]


def builders(S):
    """the table builders called by libgrpp_init are replaced by an empty contract (their results are C12, C14);
    their calls are counted"""
    n = [0]
    def f(S, a): n[0] += 1
    for b in ('create_real_spherical_harmonic_coeffs_tables', 'pretabulate_bessel'):
        if not S.contract(b, f): raise Unsupported('no ' + b)
    return n


def e_init(S, words):
    pr = []
    for w in words:
        cp = S.checkpoint(); builders(S); st = 0; pr2 = []
        for k, op in enumerate(w):
            S.call('libgrpp_init' if op == 'i' else 'libgrpp_finalize'); st = 1 if op == 'i' else 0
            g = S.call('libgrpp_is_initialized').i
            if bool(g) != bool(st): pr2.append('after %s libgrpp_is_initialized() is %d' % (w[:k + 1], g))
        S.undo(cp); pr += pr2
        if pr: break
    return pr


INIT_Q = None


def n_init(lib, w):
    """state after every step; after the word and a final init, results equal those of a fresh initialisation"""
    l = lib.l; pr = []
    q1 = dict(A=dict(L=2, origin=[.1, .2, .3], coeffs=[1.0], alpha=[.7]), B=dict(L=3, origin=[-.4, .2, .9], coeffs=[1.0], alpha=[1.7]), C=[.3, -.5, .2], pot=dict(L=2, J=0, powers=[2, 1], coeffs=[1.0, .5], alpha=[.8, .4]))
    ref = [lib.run(k, q1) for k in ('type1', 'type2', 'spin_orbit')]     # Lib() has initialised once
    for k, op in enumerate(w):
        getattr(l, 'libgrpp_init' if op == 'i' else 'libgrpp_finalize')(); g = l.libgrpp_is_initialized()
        if bool(g) != (op == 'i'): pr.append('after init,%s libgrpp_is_initialized() is %d' % (w[:k + 1], g))
    l.libgrpp_init()
    if not l.libgrpp_is_initialized(): pr.append('not initialised after libgrpp_init()')
    if [lib.run(k, q1) for k in ('type1', 'type2', 'spin_orbit')] != ref: pr.append('results after init,%s,init differ from those after the first initialisation' % w)
    l.libgrpp_finalize(); l.libgrpp_finalize(); l.libgrpp_init(); return pr


def C24():
    chk = Check('C24'); session(); T = []; r = random.Random(SEED)
    words = [''.join(w) for k in range(1, 9) for w in itertools.product('if', repeat=k)]
    pw = [[(r.choice([0, 1, 2, 'd', 'o', 'g', 'g', 'd']), r.choice([0.0, 1.0])) if r.random() < .5 else (r.choice([0, 1, 2]), r.uniform(0, 1)) for _ in range(8)] for _ in range(30)]
    pw += [[('g', 0.0), ('d', 0)], [('g', 1.0), ('o', 1), ('g', 0.0), ('d', 0)], [('o', 1), ('g', 0.0), ('o', 1), ('d', 0)], [('g', 0), ('o', 0), ('d', 0)]]
    ow = [''.join(w) for k in range(1, 5) for w in itertools.product(ORDER_OPS, repeat=k)]
    for k in range(0, len(ow), 200): T.append(scen('the component generator is the one selected last, histories %s..%s' % (ow[k], ow[min(k + 199, len(ow) - 1)]), e_orders, dict(words=ow[k:k + 200]), n_params, [([dict(d=('d', 0), c=('g', 1), e=('g', 0)).get(x, ('o', x)) for x in w],) for w in ow[k:k + 200:7]], bounded='histories of at most 4 calls'))
    T.append(scen('every setter changes exactly its parameter, from any state; defaults restore all', e_params, nat=n_params, natcfg=[(w,) for w in pw]))
    T.append(scen('initialised-state of all histories of at most 8 calls', e_init, dict(words=words), bounded='8 calls'))
    T.append(scen('initialised-state is a function of the last call (inductive step from both states)', e_init, dict(words=['i', 'f', 'ii', 'if', 'fi', 'ff', 'ifi', 'iff', 'ifii', 'iffi'])))
    for w in ('', 'i', 'f', 'fi', 'fif', 'iffi', 'fifif'): T.append(scen('results after history %r' % w, None, nat=n_init, natcfg=[(w,)], lib='asan' if w in ('fi', 'fif') else None, timeout=100, cost=100))
    run_tasks(chk, T, chk.t0 + 300)
    chk.assumptions = ['the parameter block has the public layout', 'the table builders are assumed to terminate normally (C12, C14 cover their results)', 'equality of results after re-initialisation is checked on the compiled library for histories of at most 5 calls (bounded)']
    return chk
