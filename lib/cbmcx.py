"""Unbounded contracts on the GRPP container: goto-cc compiles /repo/libgrpp/grpp.c with /verif/contracts/grpp.c,
goto-instrument applies the loop invariants below to the loops of the real function, cbmc generates the verification
condition (all obligations at once) and an SMT solver decides it: unsat = every obligation discharged, for every
number of terms. A tree on which the condition is not discharged is decided by native histories, never by this alone."""
import os, re, json, subprocess, tempfile, shutil, time
import dvlib
from dvlib import VERIF

REPO = os.environ.get('DV_REPO', '/repo')
SAFETY = ['--pointer-check', '--bounds-check', '--signed-overflow-check', '--memory-leak-check']
SOLVERS = (('z3-new', 60), ('z3', 60), ('cvc5', 40))
# loop invariants of libgrpp_delete_grpp: how often the ghost term has been released so far
CNT = ['cnt_p == (KIND == 4 || (KIND == 0 && i > gk) ? 1 : 0)', 'cnt_p == (KIND == 4 || KIND == 0 || (KIND == 1 && i > gk) ? 1 : 0)',
       'cnt_p == (KIND == 4 || KIND == 0 || KIND == 1 || (KIND == 2 && i > gk) ? 1 : 0) && cnt_s == (KIND == 3 && i > gk ? 1 : 0)']
BND = ['g_na', 'g_ns', 'g_no']


def sh(cmd, t=120):
    try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=t); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'


def loops(d, gb, kind, safe):
    """loop contracts for the real loops; None when the function does not have the expected three counting loops"""
    rc, o = sh(['goto-instrument', '--show-symbol-table', gb])
    ids = sorted(re.findall(r'^Symbol\.*: (libgrpp_delete_grpp::\S*::(\w+))$', o, re.M), key=lambda x: [int(y) for y in re.findall(r'\d+', x[0])])
    ids = [i for i in ids if not i[1].startswith('$') and re.search(r'::\d+::\d+::\w+$', i[0])]
    rc, o = sh(['goto-instrument', '--show-loops', gb]); n = len(re.findall(r'^Loop libgrpp_delete_grpp\.', o, re.M))
    if n != 3 or len(ids) != 3: return None
    L = []
    for k in range(3):
        inv = 'i >= 0 && i <= %s' % BND[k] + ('' if safe else ' && ' + re.sub(r'\bKIND\b', str(kind), CNT[k]))
        v = ids[k][1]; L.append(dict(loop_id=str(k), invariants=re.sub(r'\bi\b', v, inv), assigns=v + (', cnt_p, cnt_s' if k == 2 else ', cnt_p'), symbol_map='%s,%s' % (v, ids[k][0])))
    f = os.path.join(d, 'loops.json'); json.dump(dict(functions=[dict(libgrpp_delete_grpp=L)], output='OUTPUT'), open(f, 'w')); return f


def condition(d, fn, defs, flags, dele):
    """the SMT file with the verification condition of one contract, or a reason why there is none"""
    gb = os.path.join(d, 'a.gb'); sm = os.path.join(d, 'a.smt2')
    rc, o = sh(['goto-cc', '-I', REPO + '/libgrpp', '--function', fn] + defs + [os.path.join(VERIF, 'contracts', 'grpp.c'), REPO + '/libgrpp/grpp.c', '-o', gb])
    if rc or not os.path.exists(gb): return None, 'goto-cc: ' + o[-200:]
    if dele:
        lf = loops(d, gb, dele[0], dele[1])
        if lf is None: return None, 'the loops of libgrpp_delete_grpp are not the three counting loops of the contract'
        g2 = os.path.join(d, 'b.gb'); rc, o = sh(['goto-instrument', '--loop-contracts-file', lf, '--apply-loop-contracts', gb, g2]); gb = g2
        if rc or not os.path.exists(gb): return None, 'goto-instrument: ' + o[-200:]
    rc, o = sh(['cbmc', gb, '--z3', '--no-malloc-may-fail', '--unwind', '3', '--unwinding-assertions', '--outfile', sm] + flags)
    if not os.path.exists(sm) or os.path.getsize(sm) < 200:
        rc, o = sh(['cbmc', gb, '--no-malloc-may-fail', '--unwind', '3', '--unwinding-assertions'] + flags)      # decided by the simplifier
        if 'VERIFICATION SUCCESSFUL' in o: return 'trivial', o
        if 'VERIFICATION FAILED' in o: return 'false', o
        return None, 'cbmc: ' + o[-200:]
    return sm, ''


def solve(sm, t=None):
    for s, lim in SOLVERS:
        if t: lim = t
        rc, o = sh([s, sm], lim); r = [x for x in o.split() if x in ('sat', 'unsat')]
        if r: return r[0], s
    return 'unknown', ''


def decide(sm, t=None):
    if sm in (None, 'trivial', 'false'): return {None: '', 'trivial': 'unsat', 'false': 'sat'}[sm], 'cbmc simplifier'
    return solve(sm, t)


def trace_n(d, fn, defs, flags, dele):
    """number of terms in a counterexample with few enough terms to replay, and the list of the delete routine it is in"""
    b = os.path.join(d, 'bin'); z = shutil.which('z3-new') or shutil.which('z3'); os.makedirs(b); os.symlink(z, b + '/z3')
    for q in ('5u', '1500u'):
        d2 = os.path.join(d, 'q' + q); os.makedirs(d2); sm, _ = condition(d2, fn, defs + ['-DQMAX=' + q], flags, dele)
        if sm is None: return []
        if sm != 'false' and (sm == 'trivial' or solve(sm, 40)[0] == 'unsat'): continue
        try: o = subprocess.run(['cbmc', os.path.join(d2, 'b.gb' if dele else 'a.gb'), '--z3', '--no-malloc-may-fail', '--unwind', '3', '--trace', '--stop-on-fail'] + flags, capture_output=True, text=True, timeout=90, env=dict(os.environ, PATH=b + ':' + os.environ['PATH'])).stdout
        except subprocess.TimeoutExpired: return []
        if dele: return [max(int(x) for x in m) for m in [re.findall(r'^  %s=(\d+) ' % v, o, re.M) for v in BND] if m]
        m = re.findall(r'^  n=(\d+) ', o, re.M); return [int(m[0])] if m else []
    return []


def n_history(lib, op, n):
    """the history of n operations of one kind and the release of the object, on the compiled library"""
    import checks_data, gc
    pr = checks_data.n_grpp(lib, op * n)
    if pr or n < 300: return pr or (checks_data.n_grpp_leak(lib, op * n) if n < 40 else [])
    cur = lib.l.__sanitizer_get_current_allocated_bytes; cur.restype = checks_data.C.c_size_t; gc.collect(); gc.disable(); v = []
    for _ in range(4): checks_data.n_grpp(lib, op * n); gc.collect(); v.append(cur())
    gc.enable(); g = min(y - x for x, y in zip(v, v[1:]))
    return ['memory grows by %d bytes per history of %d operations' % (g, n)] if g > 0 else []


def contract_task(task):
    import checks_data, native
    name, fn, kind, safe, op = task['contract']; out = dict(obs=[], native=0, notes=[], functions=[]); t0 = time.time()
    dele = (kind, safe) if fn == 'delete_grpp' else None
    defs = (['-DDELETE', '-DKIND=%d' % kind] + (['-DSAFE'] if safe else [])) if dele else []
    flags = (SAFETY if safe else ['--no-standard-checks']) if dele else SAFETY[:3]
    base = os.path.join(VERIF, 'build'); os.makedirs(base, exist_ok=True); d = tempfile.mkdtemp(prefix='cbmc.', dir=base)
    try:
        if not all(shutil.which(x) for x in ('goto-cc', 'goto-instrument', 'cbmc')): out['obs'].append((name, 'undecided', 'cbmc is not installed', None)); return out
        sm, why = condition(d, fn, defs, flags, dele); r = s = ''
        r, s = decide(sm)
        if r == 'unsat':
            d2 = os.path.join(d, 'reach'); os.makedirs(d2); sm2, w2 = condition(d2, fn, defs + ['-DREACH'], flags, dele)
            v = decide(sm2, 60)[0] if safe or not dele else ''       # with the distinctness quantifier satisfiability is not decided; the same harness without it is
            if v == 'unsat': out['obs'].append((name, 'undecided', 'the contract is vacuous on this tree', None))
            else: out['obs'].append((name, 'proved', 'unsat by ' + s, None)); out['functions'] = [task['covers']]
            return out
        ns = trace_n(d, fn, defs, flags, dele) if op and r == 'sat' or dele else []
        if dele: qs = [(o, n + k) for o, n in zip('aso', ns) for k in (0, 1) if n + k] + [(o, k) for o in 'aso' for k in (1, 101, 20001)]
        else: qs = [(op, n + k) for n in ns for k in (1, 2)] + [(op, k) for k in (1, 2, 101, 1001, 20001)] if op else []
        for o, n in qs:
            st, v = native.run_batch([('py', dict(f=n_history, args=(o, n)))], 60, lib=native.build_native(True))[0]; out['native'] += 1
            pr = v if st == 'ok' else ['the routine crashes: ' + str(v)[-300:]] if st == 'crash' else []
            if pr: out['obs'].append((name, 'violation', dict(obligation='contract not discharged (%s)' % (r or why), native='%d operations: %s' % (n, '; '.join(map(str, pr[:3])))), dict(kind='native call', function='n_history', input=[o, n]))); return out
        out['obs'].append((name, 'undecided', ('not discharged (%s)' % r if r else why) + '; native histories agree', None)); return out
    finally: out['engine_s'] = time.time() - t0; shutil.rmtree(d, ignore_errors=True)


def tasks():
    T = []
    def t(name, fn, covers, kind=0, safe=False, op=None): T.append(dict(fn=contract_task, contract=(name, fn, kind, safe, op), covers=covers, cost=100))
    t('contract of libgrpp_new_grpp', 'new_grpp', 'libgrpp_new_grpp')
    t('contract of libgrpp_grpp_set_local_potential', 'set_local', 'libgrpp_grpp_set_local_potential', op='l')
    t('contract of libgrpp_grpp_add_averaged_potential, any number of terms', 'add_averaged', 'libgrpp_grpp_add_averaged_potential', op='a')
    t('contract of libgrpp_grpp_add_spin_orbit_potential, any number of terms', 'add_spin_orbit', 'libgrpp_grpp_add_spin_orbit_potential', op='s')
    t('contract of libgrpp_grpp_add_outercore_potential, any number of terms', 'add_outercore', 'libgrpp_grpp_add_outercore_potential', op='o')
    t('libgrpp_delete_grpp: memory safety and release of every list, any number of terms', 'delete_grpp', 'libgrpp_delete_grpp', 5, True)
    for k, w in enumerate(('averaged', 'spin-orbit', 'outercore', 'outercore shell', 'local', 'foreign')): t('libgrpp_delete_grpp: %s term released %s, any number of terms' % (w, 'never' if k == 5 else 'exactly once'), 'delete_grpp', 'libgrpp_delete_grpp', k)
    return T
