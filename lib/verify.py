"""Generic proof driver for the integral routines: symbolic obligations, native confirmation of
counterexamples, path-condition exploration, bounded native evaluation."""
import os, random, time, json, traceback
import dvlib, kinds, cases, native
from dvlib import *
from core import Check, parallel, listed, SEED, TIER

S = None


def session(seed_off=0):
    global S
    if S is None:
        r = random.Random(SEED * 1009 + seed_off); S = Session(prime=r.randrange(8), seed=r.randrange(1, 2 ** 31))
    return S


def label(kind, cfg):
    return kind + '(' + ', '.join('%s=%s' % (k, v) for k, v in sorted(cfg.items()) if k not in ('seed', 'order')) + ')'


# ------------------------------------------------------------------ numeric inputs
def rand_q(kind, cfg, seed, mode='mid', nprim=2):
    r = random.Random(hash((seed, kind, json.dumps(cfg, sort_keys=True, default=str))) & 0xffffffff if False else seed * 100003 + len(json.dumps(cfg, default=str)))
    sm = cases.Sample(seed, mode); geom = cases.GEOMS[cfg.get('geom', 'gen')]; pos = {}; sh = {}
    def point(n):
        n = geom.get(n, n)
        if n not in pos:
            p = []
            for ax in 'xyz':
                if ax in cfg.get('axis', ''): p.append(sh.setdefault(ax, sm.coord(ax)))
                else: p.append(sm.coord(ax))
            pos[n] = p
        return pos[n]
    def shell(n, L, c=None): return dict(L=L, origin=list(point(c or n)), coeffs=[sm.coef(n) for _ in range(nprim)], alpha=[sm.alpha(n) for _ in range(nprim)])
    def pot(L, J=0, powers=None):
        pw = powers if powers is not None else [sm.r.choice([0, 1, 2]) for _ in range(nprim)]
        if isinstance(pw, int): pw = [pw] * nprim
        return dict(L=L, J=J, powers=list(pw), coeffs=[sm.coef('U') for _ in pw], alpha=[sm.alpha('U') for _ in pw])
    q = dict(A=shell('A', cfg['LA']), B=shell('B', cfg['LB']))
    if cfg.get('alias') in ('same', 'twin'): q['B'] = dict(q['A'], L=cfg['LB'], same=cfg['alias'] == 'same')
    if cfg.get('alias') == 'eqexp': q['B']['alpha'] = list(q['A']['alpha'])
    if cfg.get('gen'): q['gen'] = cfg['gen']
    K = kinds.KINDS[kind]
    if K.numeric: K.numeric(q, cfg, point, shell, pot, sm)
    if cfg.get('perm'):
        for nm in 'AB': q[nm]['perm'] = kinds.mk_perm(cfg['perm'], q[nm]['L'], nm)
    if K.numeric: pass
    elif K.lift is kinds.lift_ABCU:
        q['C'] = list(point('C')); q['pot'] = None if cfg.get('nopot') else pot(cfg.get('L', 0), cfg.get('J', 0), cfg.get('powers'))
    return q


def slim(q):
    return json.loads(json.dumps(q, default=str))


def check_native(kind, qs, out, nprocs=1, lib=None):
    """evaluate the real library at qs; returns list of (q, problem or None)"""
    r = native.run_batch([(kinds.KINDS[kind].native or kind, q) for q in qs], timeout=100, lib=lib); res = []
    for q, (st, v) in zip(qs, r):
        out['native'] = out.get('native', 0) + 1
        if st == 'missing': res.append((q, None)); out.setdefault('notes', []).append('native call impossible: ' + v[:200]); continue
        if st == 'timeout': res.append((q, None)); out.setdefault('notes', []).append('native call timed out'); continue
        if st == 'crash': res.append((q, 'the routine crashes or aborts: ' + v[-300:])); continue
        d = kinds.deviates(kind, q, v); K = kinds.KINDS[kind]
        if d and K.known and K.known(q, d): out['known'] = out.get('known', 0) + 1; d = None      # a listed finding
        res.append((q, d))
    return res


def strip_cfg(cfg): return {k: v for k, v in cfg.items() if k not in ('prim', 'primB', 'primU', 'seed', 'mode', 'force', 'sub', 'modular', 'qzero', 'wprim')}


def confirm(kind, cfg, out, exact=None, budget=40):
    """look for a native failing input for a failed obligation"""
    t = time.time(); qs = []
    big = cfg['LA'] + cfg['LB'] + cfg.get('L', 0) > 8
    if exact is not None: qs.append(exact)
    if cfg.get('mode') == 'ext' and exact is None: qs.append(rand_q(kind, strip_cfg(cfg), cfg['seed'], 'ext', 2))
    for k in range(2 if big else 5):
        qs.append(rand_q(kind, strip_cfg(cfg), k + 1, 'mid', 1 + k % 3))
    if not big:
        for k in range(4): qs.append(rand_q(kind, strip_cfg(cfg), k + 1, 'wide', 1 + k % 3))
    for q in qs:
        if time.time() - t > budget: break
        for q_, pr in check_native(kind, [q], out):
            if pr: return q_, pr
    return None


def modular_fallback(task, out, name, why, exact):
    """the helper contracts do not fit this tree: compare the compiled library instead"""
    kind, cfg = task['kind'], task['cfg']; s = cfg['LA'] + cfg['LB'] + cfg.get('L', 0); qs = [rand_q(kind, strip_cfg(cfg), k + 1, 'mid', 1) for k in range(2 if s < 12 else 1 if s < 20 else 0)]
    for q, pr in check_native(kind, qs, out):
        if pr: out['obs'].append((name, 'violation', dict(obligation=why[:300], native=pr), dict(kind=kind, input=slim(q)))); return out
    out['obs'].append((name, 'bounded', 'modular contract not applicable to this tree (%s); decided by inlined runs and native samples' % why[:100], None)); return out


def one(task):
    kind, cfg = task['kind'], task['cfg']; out = dict(obs=[], safety=0, native=0, elements=0, sites=[], events=[], cfg=cfg)
    name = label(kind, cfg); t0 = time.time(); res = None; unsup = None
    ladder = [cfg]
    if cfg.get('prim', 'sym') == 'sym': ladder += [dict(cfg, prim=2), dict(cfg, prim=1)]
    for k, c in enumerate(ladder):
        try: res = kinds.run(session(), kind, c); used = c; break
        except Unsupported as e: unsup = unsup or str(e)[:300]
    out['engine_s'] = time.time() - t0; out['functions'] = session().executed()
    if res is None:
        if task.get('modular'): return modular_fallback(task, out, name, unsup, None)
        out['obs'].append((name, 'undecided', 'outside the verifier: ' + unsup, None))
        r = confirm(kind, cfg, out, budget=15)
        if r: out['obs'].append((name, 'violation', r[1], dict(kind=kind, input=slim(r[0]))))
        else: out['obs'].append((name + ' [native samples]', 'bounded', 'native evaluation at sampled inputs', None))
        return out
    bounded = used is not cfg or (isinstance(cfg.get('prim', 'sym'), (int, list)) and False)
    out['safety'] = res.get('safety', 0); out['sites'] = res.get('sites', []); out['events'] = res.get('events', []); out['elements'] = res.get('n', 0)
    bad = None
    if res.get('fatal'): bad = 'execution stops: ' + str(res['fatal'])
    elif not res.get('n'): out['obs'].append((name, 'undecided', 'vacuous: no output element was compared', None)); return out
    elif res['mism']: bad = 'postcondition fails for %d of %d matrix elements, first: matrix %d element %d' % (len(res['mism']), res['n'], *res['mism'][0])
    if bad and task.get('modular'):   # the helper does not have the assumed contract: not a verdict; the inlined obligations decide
        return modular_fallback(task, out, name, bad, res['native'])
    if bad is None:
        out['obs'].append((name, 'bounded' if bounded else 'proved', ('number of primitives fixed to %s: %s' % (used['prim'], unsup)) if bounded else None, None)); return out
    r = confirm(kind, cfg, out, res['native'])
    if r: out['obs'].append((name, 'violation', dict(obligation=bad, native=r[1]), dict(kind=kind, input=slim(r[0]))))
    else: out['obs'].append((name, 'undecided', bad + ' (not confirmed on the compiled library)', None))
    return out


def native_task(task):
    kind = task['kind']; out = dict(obs=[], native=0)
    for q, pr in check_native(kind, [task['q']], out):
        nm = label(kind, task['cfg']) + ' [native sample %s]' % task.get('tag', '')
        if pr: out['obs'].append((nm, 'violation', dict(native=pr), dict(kind=kind, input=slim(q))))
        else: out['obs'].append((nm, 'bounded', None, None))
    return out


def dispatch(task):
    t = time.time(); r = dispatch_(task)
    if isinstance(r, dict): r['t'] = time.time() - t
    return r


def dispatch_(task):
    if 'fn' in task: return task['fn'](task)
    return native_task(task) if 'q' in task else one(task)


def merge(chk, tasks, results, errs, tot):
    chk.solver_s += tot
    if os.environ.get('DV_TIMES'):
        for t, k in sorted(((r.get('t', 0), k) for k, r in enumerate(results) if r), reverse=True)[:int(os.environ['DV_TIMES'])]: print('%7.1f  %s %s' % (t, tasks[k].get('kind') or tasks[k].get('scen', [tasks[k].get('what', '')])[0], str([(x[0], x[1]['A']['L'], x[1]['B']['L']) for x in tasks[k].get('items', [])])[:300] + str(tasks[k].get('cfg', ''))[:120] + ' native' * ('q' in tasks[k])))
    for i, e in errs:
        if e.startswith('stopped'): chk.notes.append(e); continue
        chk.notes.append('task failed: %s %s' % (tasks[i].get('cfg') if i >= 0 else '', e[-400:])); chk.ob('task %d' % i, 'undecided', e[-200:])
    for t, r in zip(tasks, results):
        if r is None: continue
        chk.safety += r.get('safety', 0); chk.native += r.get('native', 0); chk.elements = getattr(chk, 'elements', 0) + r.get('elements', 0)
        chk.nknown = getattr(chk, 'nknown', 0) + r.get('known', 0)
        for n in r.get('notes', []):
            if n not in chk.notes: chk.notes.append(n)
        for s in r.get('sites', []):
            key = (s['func'], s['line'], s['kind']); o = chk.sites.setdefault(key, dict(func=s['func'], line=s['line'], kind=s['kind'], cls=['genuine', 'tiny threshold', 'zero test'][s['cls']], threshold=s['thr'], true=0, false=0))
            o['true'] += s['nt']; o['false'] += s['nf']
        for f in r.get('functions', []): chk.functions.add(f)
        for name, st, detail, replay in r['obs']:
            if st == 'violation': chk.violation(name, detail, replay)
            else: chk.ob(name, st, detail)


def explore(chk, kind, base_cfgs, n, seed0=0):
    """wide-range samples to visit both outcomes of every path condition (bounded exploration of paths;
    within each path the postcondition is decided symbolically)"""
    tasks = []
    for k in range(n):
        c = base_cfgs[k % len(base_cfgs)]
        tasks.append(dict(kind=kind, cfg=dict(c, prim=c.get('wprim', 2), seed=seed0 + k + SEED * 1000, mode='wide')))
    return tasks


def extremes(kind, cfgs, n, native=None, **kw):
    """one symbolic run per sample with tiny or huge coefficients, nearly coinciding or distant centres,
    tight or diffuse functions (the path conditions are decided by the sample, the postcondition symbolically)"""
    T = []
    for k in range(n):
        c = dict(cfgs[k % len(cfgs)], **kw); sd = k + SEED * 1331 * len(cases.EXT)
        T.append(dict(kind=kind, cfg=dict(c, prim=c.get('wprim', 2), seed=sd, mode='ext')))
        if native: T.append(dict(kind=native, cfg=strip_cfg(c), q=rand_q(native, strip_cfg(c), sd, 'ext', 1), tag='extreme ' + cases.EXT[sd % len(cases.EXT)]))
    return T


def aliased(kind, Ls=(0, 1, 2, 3), seed=0, grad=None, num=False, **kw):
    """the same shell twice, an equal shell, equal exponents of different shells (one and two primitives)"""
    T = []
    for k, L in enumerate(Ls[:3]):   # repeated exponents and repeated primitives within a contraction
        if not num:
            for pa, pb in ((['n', 'e'], 1), (['n', 'd', 'e'], ['n', 'd'])): T.append(dict(kind=kind, cfg=dict(kw, LA=L, LB=(L + 1) % 3, prim=pa, primB=pb, **({} if not grad else dict(geom='gen/' + 'AB'[k % 2], **({} if kind == 'overlap_gradient' else dict(grad=1)))))))
    for k, L in enumerate(Ls):
        for a in ('same', 'twin', 'eqexp'):
            ge = ('gen' if a == 'eqexp' else 'AB') + ('/' + ('B' if a == 'eqexp' and L % 2 else 'A') if grad else '')
            for LB in (L, L + 1) if a == 'eqexp' else (L,):
                for n in (1, 2):
                    c = dict(kw, LA=L, LB=LB, alias=a, geom=ge, prim=n, **(dict(grad=1) if grad and kind != 'overlap_gradient' else {}))
                    if not num: T.append(dict(kind=kind, cfg=c))
                    elif n == 2: T.append(dict(kind=kind, cfg=c, q=rand_q(kind, c, SEED * 131 + seed + 10 * k, 'mid', n), tag='aliased ' + a))
    return T


def has_violation(r): return bool(r) and any(o[1] == 'violation' for o in r['obs'])


def run_tasks(chk, tasks, deadline=None):
    session()
    tasks = sorted(tasks, key=lambda t: -t.get('cost', t['cfg'].get('LA', 0) + t['cfg'].get('LB', 0)) if 'cfg' in t else 0)
    results, errs, tot = parallel(dispatch, tasks, deadline=deadline, stop=has_violation); merge(chk, tasks, results, errs, tot)
    return results


def pairs(Ls): return [(a, b) for a in Ls for b in Ls]
