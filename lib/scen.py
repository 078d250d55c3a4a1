"""Contract obligations on the data-structure and helper routines: a scenario runs a routine (or a short
history of calls) in the engine on symbolic arguments and checks its contract on the resulting memory;
its native twin runs the same contract on the compiled library at concrete arguments (replay / bounded)."""
import ctypes as C, time, json
import dvlib, verify, native
from dvlib import *
from layout import layout, View
from verify import session


def fdiff(name, got, exp):
    """contract equality of a real value"""
    return [] if v2f(got) == F.lift(exp) else ['%s is %.17g, expected %.17g' % (name, got.x, F.lift(exp).x)]


def idiff(name, got, exp):
    g = got if isinstance(got, int) else (got.i if got.kind == K_INT else ('sym', got.a, got.i))
    return [] if g == exp else ['%s is %s, expected %s' % (name, g, exp)]


def frame_call(S, fn, *args):
    """call under frame checking (only memory allocated during the call may be written); problems list, result"""
    dvlib.L.dv_clear_events(); mark = dvlib.L.dv_nobj(); dvlib.L.dv_frame_check(1)
    try: r = S.call(fn, *args)
    finally: dvlib.L.dv_frame_check(0)
    return ['%s in %s line %s: %s' % (e['kind'], e['func'], e['line'], e['msg']) for e in S.events() if e['kind'] in ('FRAME', 'OOB', 'UNINIT', 'FREE', 'UAF')], r, mark


def free_call(S, fn, *args):
    dvlib.L.dv_clear_events(); r = S.call(fn, *args)
    return ['%s in %s line %s: %s' % (e['kind'], e['func'], e['line'], e['msg']) for e in S.events()], r


def run_scen(S, fn, cfg):
    """returns (status, problems)"""
    for t in range(30):
        cp = S.checkpoint(); dvlib.L.dv_clear_events(); S.uncontract(); o0 = dvlib.L.dv_obligations()
        try:
            pr = fn(S, **cfg)
            if dvlib.L.dv_reseed_needed(): raise Reseed()
            return ('fail' if pr else 'ok'), pr, dvlib.L.dv_obligations() - o0
        except Violation as e: return 'fail', ['execution stops: %s' % (e.events[-1:],)], 0
        except Unsupported as e: return 'unsup', [str(e)[:300]], 0
        except Reseed: S.salt += 1
        finally:
            dvlib.L.dv_frame_check(0); S.undo(cp); dvlib.L.dv_reseed_needed()
    return 'unsup', ['no admissible random point'], 0


def scen(name, fn, cfg=None, nat=None, natcfg=None, bounded=None, lib=None, cost=1, timeout=60):
    return dict(fn=scen_task, scen=(name, fn, cfg or {}, nat, natcfg or [], bounded), cost=cost, lib=lib, timeout=timeout)


def run_native(nat, cfgs, out, lib=None, timeout=60):
    """first failing (cfg, problems)"""
    r = native.run_batch([('py', dict(f=nat, args=c)) for c in cfgs], timeout, lib=lib)
    for c, (st, v) in zip(cfgs, r):
        out['native'] += 1
        if st == 'missing': out['notes'].append('native: ' + v[-200:]); continue
        if st == 'timeout': out['notes'].append('native call timed out'); continue
        if st == 'crash': return c, ['the compiled library crashes: ' + v[-400:]]
        if v: return c, v
    return None


def scen_task(task):
    name, fn, cfg, nat, natcfg, bounded = task['scen']; out = dict(obs=[], safety=0, native=0, notes=[], functions=[])
    st = None; pr = []
    if fn is not None:
        dvlib.L.dv_reset_calls(); st, pr, out['safety'] = run_scen(session(), fn, cfg); out['functions'] = session().executed()
    lib = native.build_native(True) if task.get('lib') == 'asan' else None
    bad = run_native(nat, natcfg, out, lib, task['timeout']) if nat and natcfg else None
    if bad:
        out['obs'].append((name, 'violation', dict(obligation=pr[:4], native=bad[1][:4]), dict(kind='native call', function=nat.__name__, input=json.loads(json.dumps(bad[0], default=str)))))
        return out
    if st == 'ok': out['obs'].append((name, 'bounded' if bounded else 'proved', bounded, None))
    elif st == 'fail': out['obs'].append((name, 'undecided', '; '.join(pr)[:300] + ' (not reproduced on the compiled library)', None))
    elif st == 'unsup': out['obs'].append((name, 'undecided', 'outside the verifier: ' + pr[0], None))
    if nat and natcfg: out['obs'].append((name + ' [native]', 'bounded', '%d inputs' % len(natcfg), None))
    return out


# ------------------------------------------------------------------ linearity in the coefficients
def n_linear(lib, kind, q, lo):
    """powers of two times the coefficients of one shell or of the potential: every element scales exactly"""
    import kinds
    nk = kinds.KINDS[kind].native or kind; v0 = lib.run(nk, q); m = [max(map(abs, v)) if v else 0.0 for v in v0]; pr = []; ab = kinds.KINDS[kind].atol(q) if lo > -42 else 0.0   # absolute screening thresholds
    for tgt in ('A', 'B', 'pot'):
        if tgt == 'pot' and not q.get('pot'): continue
        for e in (-43, -42, -41, -40, -39, -38, -36, -33, -30, -25, -20, -10, 10, 20, 40):
            if e < lo: continue
            s = 2.0 ** e; v = lib.run(nk, dict(q, **{tgt: dict(q[tgt], coeffs=[c * s for c in q[tgt]['coeffs']])}))
            for k, (x, y) in enumerate(zip(v0, v)):
                for i, (a, b) in enumerate(zip(x, y)):
                    if not abs(b - s * a) <= 1e-8 * s * m[k] + ab: pr.append('coefficients of %s times 2^%d: element %d of matrix %d is %.17g, expected %.17g (largest element %.3g)' % (tgt, e, i, k, b, s * a, s * m[k]))
            if pr: return pr[:3]
    return pr


def linearity(kind, cfgs, seed, lo=-42, cost=1e5):
    """native obligations: products of contraction coefficients down to 2^lo are not lost"""
    T = []
    for k, c in enumerate(cfgs):
        q = verify.slim(verify.rand_q(kind, c, seed + k, 'mid', 1 + k % 2))
        for nm in ('A', 'B', 'pot'):
            if q.get(nm): q[nm]['coeffs'] = [1.0 + .25 * j for j in range(len(q[nm]['coeffs']))]
        T.append(scen('%s: linear in the contraction coefficients, L=%d,%d' % (kind, c['LA'], c['LB']), None, nat=n_linear, natcfg=[(kind, q, lo)], cost=cost))
    return T
