"""Symbolic call harness for the integral routines and comparison with the specification."""
import random, math, json
from fractions import Fraction as Fr
import dvlib
from dvlib import *
import spec


EXT = ['tiny A', 'close', 'tiny BO', 'pair', 'tiny U', 'tiny AB', 'pair', 'tight', 'diffuse', 'far', 'huge AU']


class Sample:
    """numeric values attached to symbols (branch decisions and counterexamples)"""

    def __init__(s, seed=0, mode='mid'):
        s.r = random.Random(seed * 7919 + 13); s.mode = mode; s.ext = s.base = None; s.n = 0
        if mode == 'ext':       # one aspect at the edge of its range, everything else ordinary
            s.mode = 'mid'; s.ext = EXT[seed % len(EXT)]; s.near = s.r.choice('ABC'); s.mag = s.r.uniform(-11, -2); s.tiny = s.r.uniform(-11, -4.5); s.comp = {'tiny A': 'B', 'tiny BO': 'A', 'tiny U': 'A', 'tiny AB': 'U'}.get(s.ext, '-') if seed // len(EXT) % 3 else '-'

    def alpha(s, name):
        if s.ext == 'tight' and (name[0] == 'U') == (s.near == 'C'): return float('%.6g' % 10 ** s.r.uniform(2, 4.5))
        if s.ext == 'diffuse' and (name[0] == 'U') == (s.near == 'C'): return float('%.6g' % 10 ** s.r.uniform(-3, -1.5))
        if s.mode == 'mid': return round(s.r.uniform(0.4, 1.9), 6)
        return float('%.6g' % 10 ** (s.r.uniform(-1.2, 1.2) if s.r.random() < 0.5 else s.r.uniform(-2.5, 4.5)))

    def coord(s, name):
        if s.ext in ('close', 'pair', 'far'):
            s.n += 1
            if s.base is None: s.base = [round(s.r.uniform(-1.2, 1.2), 6) for _ in range(3)]
            if s.ext == 'far': return round(s.r.uniform(-1.2, 1.2) * (1 if name == s.near else 12), 6)
            if s.ext == 'close' or name != s.near: return s.base[(s.n - 1) % 3] + s.r.uniform(.2, 1) * s.r.choice((-1, 1)) * 10 ** s.mag
        if s.mode == 'mid': return round(s.r.uniform(-1.2, 1.2), 6)
        e = s.r.choice([0, 0, 0, 0, 0, 0.5, 1, -1, -2, -4, -6, -8])
        return float('%.6g' % (s.r.choice([-1, 1]) * s.r.uniform(0.1, 3) * 10 ** e))

    def coef(s, name):
        if s.ext and name[0] == s.comp: return float('%.6g' % (s.r.choice([-1, 1]) * 10 ** (-s.tiny + s.r.uniform(-.3, .3))))   # the product is of ordinary size
        if s.ext and s.ext[:4] in ('tiny', 'huge') and name[0] in s.ext[5:]: return float('%.6g' % (s.r.choice([-1, 1]) * 10 ** ((s.tiny * (.5 if s.ext == 'tiny AB' else 1) if s.ext[0] == 't' else 6) + s.r.uniform(-.3, .3))))
        if s.mode == 'mid': return round(s.r.choice([-1, 1]) * s.r.uniform(0.3, 1.5), 6)
        return float('%.6g' % (s.r.choice([-1, 1]) * 10 ** (s.r.uniform(-4, 3) if s.r.random() < 0.7 else s.r.uniform(-10, 5))))


GEOMS = {'gen': {}, 'AB': {'B': 'A'}, 'AC': {'C': 'A'}, 'BC': {'C': 'B'}, 'ABC': {'B': 'A', 'C': 'A'}}
# P: the point of a gradient
for _g in list(GEOMS):
    for _p in 'ABC': GEOMS[_g + '/' + _p] = dict(GEOMS[_g], P=GEOMS[_g].get(_p, _p))


def is_sq(f): return pow(f.v, (dvlib._P - 1) // 2, dvlib._P) == 1 and pow(f.w, (dvlib._Q - 1) // 2, dvlib._Q) == 1


class Inp:
    def __init__(s, S, geom='gen', sample=None, axis='', alias=None):
        """axis: string of axes on which all centres share the coordinate (e.g. 'xy');
        alias: shell B is the object A ('same'), an equal object ('twin'), or has the exponents of A ('eqexp')"""
        s.alias = alias; s.first = None; s.S = S; s.geom = GEOMS[geom]; s.sm = sample or Sample(); s.pos = {}; s.axis = axis; s.shared = {}
        s.ranges = {}; s.groups = {}

    def point(s, name):
        name = s.geom.get(name, name)
        if name not in s.pos:
            p = []
            for k, ax in enumerate('xyz'):
                if ax in s.axis:
                    if ax not in s.shared: s.shared[ax] = s.S.sym('sh_' + ax, s.sm.coord(ax))
                    p.append(s.shared[ax])
                else: p.append(s.S.sym('%s_%s' % (name, ax), s.sm.coord(name)))
            s.pos[name] = p
        return s.pos[name]

    def exponent(s, group, name, x):
        """a new positive symbol whose sums with exponents of the other groups have square roots"""
        shells = [(g, e) for g, l in s.groups.items() if g[0] != 'U' for e in l]; pots = [e for g, l in s.groups.items() if g[0] == 'U' for e in l]
        if group[0] == 'U': sums = [a + b for k, (g, a) in enumerate(shells) for h, b in shells[k + (not s.alias):] if g != h or s.alias]
        else: sums = [a + u for g, a in shells if g != group or s.alias for u in [0] + pots]
        for t in range(1 << min(16, 2 + 2 * len(sums))):
            e = s.S.sym('%s~%d' % (name, t), x, True)
            if all(is_sq(u + e) for u in sums) and (not s.alias or is_sq(e + e)): break
        s.groups.setdefault(group, []).append(e); return e

    def terms(s, name, prim, positive_coef=False):
        """[(weight, coef, alpha)], n(Val or int), coef object, alpha object"""
        S = s.S
        if prim == 'sym':
            r = s.ranges.get(name)
            if r is None: r = s.ranges[name] = S.range('n_' + name)
            c = S.sym('c_' + name, s.sm.coef(name)); a = s.exponent(name, 'a_' + name, s.sm.alpha(name))
            return [(S.omega(r), c, a)], S.nsym(r), S.symarr(r, c, 'coeffs ' + name), S.symarr(r, a, 'alpha ' + name)
        cs, als = [], []
        n = prim if isinstance(prim, int) else len(prim)
        for k in range(n):
            z = 0 if isinstance(prim, int) else prim[k]
            if z in ('e', 'd'): als.append(als[-1]); cs.append(cs[-1] if z == 'd' else S.sym('c_%s%d' % (name, k), s.sm.coef(name))); continue   # repeated exponent / primitive
            cs.append(F(0, 0) if z == 'z' else S.sym('c_%s%d' % (name, k), s.sm.coef(name))); als.append(s.exponent(name, 'a_%s%d' % (name, k), s.sm.alpha(name)))
        return [(F(1, 1, 1.0), c, a) for c, a in zip(cs, als)], S.int(n), S.reals(cs, 'coeffs ' + name), S.reals(als, 'alpha ' + name)

    def shell(s, name, L, prim, center=None):
        S = s.S; o = s.point(center or name)
        if s.alias and name == 'B': return s.second(L, prim, o)
        t, n, co, ao = s.terms(name, prim)
        oo = S.reals(o, 'origin ' + name)
        p = S.call('libgrpp_new_shell', S.ptr(oo), L, n, S.ptr(co), S.ptr(ao))
        r = dict(ptr=p, L=L, terms=t, origin=o, name=name, native=dict(L=L, origin=[c.x for c in o], coeffs=[c.x for _, c, _ in t], alpha=[a.x for _, _, a in t]))
        if name == 'A': s.first = r
        return r

    def second(s, L, prim, o):
        A = s.first; S = s.S
        if s.alias == 'same': return dict(A, native=dict(A['native'], same=True))
        t = A['terms'] if s.alias == 'twin' else [(w, S.sym('c_B%d' % k, s.sm.coef('B')), a) for k, (w, _, a) in enumerate(A['terms'])]
        p = S.call('libgrpp_new_shell', S.ptr(S.reals(o, 'origin B')), L, S.int(len(t)), S.ptr(S.reals([c for _, c, _ in t], 'coeffs B')), S.ptr(S.reals([a for _, _, a in t], 'alpha B')))
        return dict(ptr=p, L=L, terms=t, origin=o, name='B', native=dict(L=L, origin=[c.x for c in o], coeffs=[c.x for _, c, _ in t], alpha=[a.x for _, _, a in t]))

    def pot(s, name, L, J, prim, powers):
        """powers: int (all primitives) for symbolic number, else list"""
        S = s.S; t, n, co, ao = s.terms(name, prim)
        if prim == 'sym':
            po = dvlib.L.dv_new_symobj(s.ranges[name], 4, OF_INPUT, b'powers'); v = S.int(powers); v.size = 4; dvlib.L.dv_sym_set(po, 0, 4, C.byref(v)); pw = [powers]
        else:
            pw = list(powers) if not isinstance(powers, int) else [powers] * len(t); po = S.ints(pw, 'powers ' + name)
        p = S.call('libgrpp_new_potential', L, J, n, S.ptr(po), S.ptr(co), S.ptr(ao))
        return dict(ptr=p, L=L, J=J, terms=[(w, c, a, k) for (w, c, a), k in zip(t, pw)], native=dict(L=L, J=J, powers=pw, coeffs=[c.x for _, c, _ in t], alpha=[a.x for _, _, a in t]))


def nsize(L): return (L + 1) * (L + 2) // 2


def contract(A, B, prim, extra=None, ab=False):
    """sum over primitives of both shells (and over `extra` terms): prim(aa, ab[, term]) -> list of matrices.
    ab: sum of absolute values instead (natural scale of the result)"""
    tot = None
    for wa, ca, aa in A['terms']:
        for wb, cb, bb in B['terms']:
            for t in (extra if extra is not None else [None]):
                f = wa * ca * wb * cb
                if t is not None: f = f * t[0] * t[1]
                m = prim(aa, bb) if t is None else prim(aa, bb, t)
                m = [[(abs(f * e) if ab else f * e) for row in mm for e in row] for mm in m]
                tot = m if tot is None else [[x + y for x, y in zip(p, q)] for p, q in zip(tot, m)]
    return tot


def compare(code, exp):
    """code: list of v lists; exp: list of F lists -> list of mismatching (matrix, index)"""
    return [(m, k) for m, (cv, ev) in enumerate(zip(code, exp)) for k, (c, e) in enumerate(zip(cv, ev)) if c != F.lift(e).v]


def with_retries(S, fn, tries=40):
    for t in range(tries):
        cp = S.checkpoint()
        dvlib.L.dv_clear_events(); dvlib.L.dv_clear_sites()
        try: return fn()
        except Reseed: S.salt += 1
        finally:
            dvlib.L.dv_frame_check(0); S.undo(cp); dvlib.L.dv_reseed_needed()
    raise Unsupported('no admissible random point found')


def guarded_call(S, res, name, *args):
    """call the routine under frame checking; collect safety events and leaks"""
    dvlib.L.dv_clear_events(); mark = dvlib.L.dv_nobj(); o0 = dvlib.L.dv_obligations(); dvlib.L.dv_frame_check(1)
    try: ret = S.call(name, *args)
    except Violation as e:
        res['events'] = S.events(); res['fatal'] = res['events'][-1]; raise
    finally:
        dvlib.L.dv_frame_check(0); res['safety'] = res.get('safety', 0) + dvlib.L.dv_obligations() - o0
    ev = S.events()
    for o in S.live(mark): ev.append(dict(kind='LEAK', func=name, line=0, msg='block %s allocated during the call is still live' % dvlib.L.dv_obj_name(o).decode(), count=1))
    if dvlib.L.dv_reseed_needed(): raise Reseed()
    res['events'] = ev
    return ret


