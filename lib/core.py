"""Check framework: obligations, verdicts, evidence, parallel execution."""
import json, os, sys, time, multiprocessing as mp, traceback, math
import dvlib
from dvlib import VERIF, Session, Violation, Unsupported, Reseed, F, FRing, MPRing, BuildError

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('DV_PROCS', '0') or 0) or min(8, os.cpu_count() or 1)


def listed(prop, tag):
    return any(l.startswith('finding: property=%s %s' % (prop, tag)) for l in open(os.path.join(VERIF, 'known_findings.txt')))


class Check:
    def __init__(self, prop):
        self.prop = prop; self.t0 = time.time(); self.obs = {}; self.viol = []; self.known = []; self.notes = []; self.functions = set(); self.bounded_functions = set()
        self.assumptions = []; self.trusted = ['clang-18 front end and mem2reg (C to LLVM IR)', 'the dv engine (/verif/engine/dv.cpp): IR semantics, invariant inference and checking',
                                               'polynomial identities are decided by evaluation at a random point of GF(p) x GF(q), p about 2^61, q about 2^58 (error probability below 2^-40 per obligation)',
                                               'doubles are treated as mathematical reals (rounding is not modelled)']
        self.counts = dict(proved=0, bounded=0, failed=0, undecided=0); self.safety = 0; self.samples = []; self.evals = 0; self.solver_s = 0.0; self.undecided = []; self.native = 0
        self.level = 'proof'; self.sites = {}
        self.back_end = 'dv: polynomial identity evaluation over GF(p)xGF(q) along symbolic execution of the LLVM IR, inferred-and-checked loop invariants'

    def ob(self, name, status, detail=None):
        self.counts[status] += 1
        if status == 'undecided': self.undecided.append((name, str(detail)[:300]))
        if len(self.samples) < 12 or (status != 'proved' and len(self.samples) < 40): self.samples.append({'obligation': name, 'status': status, **({'detail': str(detail)[:300]} if detail else {})})

    def violation(self, name, detail, replay, no_input=False):
        self.ob(name, 'failed', detail); self.viol.append((name, detail, replay, no_input))

    def finish(self):
        if not self.counts['proved'] + self.counts['failed'] + self.counts['bounded']: self.ob('vacuity', 'undecided', 'no obligation was generated')
        d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
        cov = dict(obligations=sum(self.counts[k] for k in ('proved', 'failed', 'undecided')), discharged=self.counts['proved'], checker_cmd='python3-vt /verif/lib/run.py %s' % self.prop,
                   trusted_base=self.trusted, builtin_safety_obligations=self.safety, bounded_checks=self.counts['bounded'], failed=self.counts['failed'], undecided=self.counts['undecided'],
                   undecided_list=self.undecided[:40], functions_under_contract=sorted(self.functions), bounded_functions=sorted(self.bounded_functions), back_end=self.back_end,
                   solver_time_s=round(self.solver_s, 2), native_evaluations=self.native, evaluations=self.evals, samples=self.samples[:40], notes=self.notes[:40],
                   path_conditions=list(self.sites.values())[:80])
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        tmp = os.path.join(d, '.%s.%d' % (self.prop, os.getpid())); json.dump(ev, open(tmp, 'w'), indent=1, default=str); os.replace(tmp, os.path.join(d, self.prop + '.json'))
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        print('%s: obligations %d discharged %d bounded %d failed %d undecided %d; safety obligations %d; %.1fs' % (self.prop, cov['obligations'], cov['discharged'], cov['bounded_checks'], self.counts['failed'], self.counts['undecided'], self.safety, time.time() - self.t0))
        if self.viol:
            rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
            name, detail, replay, no_input = sorted(self.viol, key=lambda v: v[3])[0]
            path = os.path.join(rd, self.prop + '.json')
            json.dump(dict(property=self.prop, obligation=name, detail=detail, replay=replay, all=[dict(obligation=v[0], detail=v[1]) for v in self.viol[:20]]), open(path, 'w'), indent=1, default=str)
            for v in self.viol[:8]: print('failed obligation: %s: %s' % (v[0], str(v[1])[:400]))
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, ' no-failing-input-found' if no_input else ''))
            sys.stdout.flush(); return 1
        return 0


_WORK = None


def _worker(i):
    fn, items = _WORK
    t = time.time()
    try: return i, fn(items[i]), None, time.time() - t
    except Exception: return i, None, traceback.format_exc(), time.time() - t


def parallel(fn, items, procs=None, deadline=None, stop=None):
    """run fn over items in forked workers (the engine session opened by the parent is inherited)"""
    global _WORK
    _WORK = (fn, items); procs = procs or NPROC; res = [None] * len(items); errs = []
    if len(items) == 0: return res, errs, 0.0
    tot = 0.0; stopped = False
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(items)), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(_worker, range(len(items)), chunksize=1)
        n = 0
        while n < len(items):
            try: i, r, e, dt = it.next(timeout=max(1.0, deadline - time.time()) if deadline else None)
            except mp.TimeoutError: errs.append((-1, 'stopped after a violation was found') if stopped else (-1, 'deadline reached: %d of %d tasks not run' % (len(items) - n, len(items)))); pool.terminate(); break
            n += 1; tot += dt
            if e: errs.append((i, e))
            else:
                res[i] = r
                if stop and stop(r) and n < len(items): deadline = min(deadline or 1e18, time.time() + 12); stop = None; stopped = True
    return res, errs, tot
