"""Native execution of the real library (compiled from /repo's working tree), used to replay
counterexamples and for checks labelled bounded.  Every evaluation runs in a forked child."""
import ctypes as C, os, pickle, signal, sys, struct, time, glob
import dvlib
from dvlib import sh, _locked, repo_hash, lib_sources, BuildError, BUILD, REPO

I, D, P = C.c_int, C.c_double, C.c_void_p
GARB = 3.0e17


def gcc():
    for c in ('/usr/bin/gcc-13', '/usr/bin/gcc'):
        if os.path.exists(c): return c
    return 'gcc'


VARIANTS = {'zero': ['-O1', '-ftrivial-auto-var-init=zero', '-DFILL(p,n)=memset(p,0,n)'], 'pattern': ['-O1', '-ftrivial-auto-var-init=pattern', '-DFILL(p,n)=memset(p,0xc3,n)'], 'now': ['-O2', '-Wl,-z,now']}


def build_native(asan=False, variant=None):
    so = os.path.join(BUILD, 'native-%s%s.so' % (repo_hash(), '-asan' if asan else '-w' + variant if variant else '-w'))

    def b(out):
        fl = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else VARIANTS.get(variant, ['-O2'])
        wr = [] if asan or variant == 'now' else [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'allocwrap.c')] + ['-Wl,--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free')]
        r = sh([gcc()] + fl + ['-w', '-fPIC', '-shared', '-fopenmp', '-std=gnu11', '-o', out] + lib_sources() + wr + ['-lm'])
        if r.returncode: raise BuildError(r.stdout)
    return _locked(so, b)


class Shell(C.Structure):
    _fields_ = [('L', I), ('cart_size', I), ('cart_list', C.POINTER(I)), ('num_primitives', I), ('coeffs', C.POINTER(D)), ('alpha', C.POINTER(D)), ('origin', D * 3)]


class Pot(C.Structure):
    _fields_ = [('L', I), ('J', I), ('num_primitives', I), ('powers', C.POINTER(I)), ('coeffs', C.POINTER(D)), ('alpha', C.POINTER(D))]


def da(x): return (D * max(1, len(x)))(*[float(v) for v in x])
def ia(x): return (I * max(1, len(x)))(*x)


class Lib:
    def __init__(s, path=None):
        s.l = C.CDLL(path or build_native())
        l = s.l
        l.libgrpp_new_shell.restype = P; l.libgrpp_new_shell.argtypes = [P, I, I, P, P]
        l.libgrpp_new_potential.restype = P; l.libgrpp_new_potential.argtypes = [I, I, I, P, P, P]
        l.libgrpp_new_grpp.restype = P
        for n in ('libgrpp_delete_shell', 'libgrpp_delete_potential', 'libgrpp_delete_grpp'): getattr(l, n).argtypes = [P]; getattr(l, n).restype = None
        l.libgrpp_potential_value.restype = D; l.libgrpp_potential_value.argtypes = [P, D]
        l.libgrpp_init()

    def shell(s, d):
        p = C.c_void_p(s.l.libgrpp_new_shell(da(d['origin']), d['L'], len(d['alpha']), da(d['coeffs']), da(d['alpha'])))
        if d.get('perm'):
            cl = Shell.from_address(p.value).cart_list; c = [cl[k] for k in range(3 * len(d['perm']))]
            for k, j in enumerate(d['perm']):
                for x in range(3): cl[3 * k + x] = c[3 * j + x]
        return p
    def two(s, A, B):
        a = s.shell(A); return a, (a if B.get('same') else s.shell(B))

    def pot(s, d):
        if d is None: return C.c_void_p(None)
        return C.c_void_p(s.l.libgrpp_new_potential(d['L'], d.get('J', 0), len(d['alpha']), ia(d['powers']), da(d['coeffs']), da(d['alpha'])))
    def grpp(s, d):
        l = s.l; g = C.c_void_p(l.libgrpp_new_grpp())
        if d.get('local') is not None: l.libgrpp_grpp_set_local_potential(g, s.pot(d['local']))
        for q in d.get('arep', []): l.libgrpp_grpp_add_averaged_potential(g, s.pot(q))
        for q in d.get('esop', []): l.libgrpp_grpp_add_spin_orbit_potential(g, s.pot(q))
        for q, sh_ in d.get('oc', []): l.libgrpp_grpp_add_outercore_potential(g, s.pot(q), s.shell(sh_))
        return g

    def _out(s, A, B, n=1):
        sz = (A['L'] + 1) * (A['L'] + 2) // 2 * ((B['L'] + 1) * (B['L'] + 2) // 2)
        o = []
        for _ in range(n):
            m = (D * (sz + 8))(*([GARB] * (sz + 8))); o.append(m)
        return sz, o

    @staticmethod
    def _get(sz, o):
        for m in o:
            for k in range(sz, sz + 8):
                if m[k] != GARB: raise MemoryError('write beyond the end of an output matrix')
        return [list(m[:sz]) for m in o]

    def prepare(s, kind, q, place=lambda p, kind: p):
        """(call, outs, size): one call of the routine on objects made in advance; `place` may move an object"""
        l = s.l; A, B = q['A'], q['B']; ad = C.addressof; keep = []
        def vec(x): v = da(x); keep.append(v); return place(P(ad(v)), len(x))
        def arr(x): v = (P * max(1, len(x)))(*[y.value for y in x]); keep.append(v); return place(P(ad(v)), len(x))
        sh = lambda d: place(s.shell(d), 'shell'); pt = lambda d: place(s.pot(d), 'pot') if d is not None else P(None)
        nout = dict(momentum=3, spin_orbit=3, outercore=4, full=4, overlap_gradient=3, type1_gradient=3, type2_gradient=3, spin_orbit_gradient=9, outercore_gradient=12, full_gradient=12).get(kind, 1)
        sz, o = s._out(A, B, nout); op = [P(ad(x)) for x in o]; a = sh(A); b = a if B.get('same') else sh(B); args = [a, b]
        if 'gradient' in kind:
            g = [(P * 3)(*[x.value for x in op[3 * k:3 * k + 3]]) for k in range(nout // 3)]; keep.append(g); op = [P(ad(x)) for x in g]; pnt = vec(q['point'])
        fn = dict(kinetic='libgrpp_kinetic_energy_integrals', outercore='libgrpp_outercore_potential_integrals', full='libgrpp_full_grpp_integrals', nuclear='libgrpp_nuclear_attraction_integrals').get(kind, 'libgrpp_%s_integrals' % kind)
        base = kind.replace('_gradient', '')
        if 'gradient' in kind: fn = dict(outercore='libgrpp_outercore_potential_integrals', full='libgrpp_full_grpp_integrals').get(base, 'libgrpp_%s_integrals' % base) + '_gradient'
        if base in ('type1', 'type2', 'spin_orbit'): args += [vec(q['C']), pt(q['pot'])]
        elif base == 'outercore': args += [vec(q['C']), I(len(q['oc'])), arr([pt(x[0]) for x in q['oc']]), arr([sh(x[1]) for x in q['oc']])]
        elif base == 'full': args += [place(s.grpp(q['grpp']), 'grpp'), vec(q['C'])]
        elif base == 'nuclear': args += [vec(q['C']), I(q['Z']), I(q['model']), vec(q['params'])]
        if 'gradient' in kind: args.append(pnt)
        f = getattr(l, fn); f.restype = None; args += op; call = lambda: f(*args); call.keep = (keep, o, args); return call, o, sz

    def run(s, kind, q):
        l = s.l
        if isinstance(q, dict) and q.get('gen'):        # a caller-supplied component order
            import kinds, spec
            def g(L, out):
                c = spec.carts(L)
                for k, j in enumerate(kinds.gen_perm(q['gen'], L)): out[3 * k], out[3 * k + 1], out[3 * k + 2] = c[j]
                return len(c)
            cb = C.CFUNCTYPE(I, I, C.POINTER(I))(g); l.libgrpp_set_cartesian_generator(cb)
            try: return s.run(kind, dict(q, gen=None))
            finally: l.libgrpp_set_default_parameters()
        A, B = q.get('A'), q.get('B')
        if kind in ('overlap', 'kinetic', 'momentum'):
            n = 3 if kind == 'momentum' else 1; sz, o = s._out(A, B, n); a, b = s.two(A, B)
            getattr(l, 'libgrpp_%s_integrals' % kind.replace('kinetic', 'kinetic_energy'))(a, b, *o); r = s._get(sz, o); l.libgrpp_delete_shell(a); None if b is a else l.libgrpp_delete_shell(b); return r
        if kind in ('type1', 'type2', 'spin_orbit'):
            n = 3 if kind == 'spin_orbit' else 1; sz, o = s._out(A, B, n); (a, b), p = s.two(A, B), s.pot(q['pot'])
            getattr(l, 'libgrpp_%s_integrals' % kind)(a, b, da(q['C']), p, *o); r = s._get(sz, o); l.libgrpp_delete_shell(a); None if b is a else l.libgrpp_delete_shell(b); l.libgrpp_delete_potential(p); return r
        if kind == 'outercore':
            sz, o = s._out(A, B, 4); a, b = s.two(A, B); n = len(q['oc'])
            ps = (P * max(1, n))(*[s.pot(x[0]).value for x in q['oc']]); ss = (P * max(1, n))(*[s.shell(x[1]).value for x in q['oc']])
            l.libgrpp_outercore_potential_integrals(a, b, da(q['C']), n, ps, ss, *o); return s._get(sz, o)
        if kind == 'full':
            sz, o = s._out(A, B, 4); (a, b), g = s.two(A, B), s.grpp(q['grpp']); l.libgrpp_full_grpp_integrals(a, b, g, da(q['C']), *o); l.libgrpp_delete_grpp(g); return s._get(sz, o)
        if kind == 'overlap_gradient':
            sz, o = s._out(A, B, 3); a, b = s.two(A, B); g = (P * 3)(*[C.addressof(x) for x in o]); l.libgrpp_overlap_integrals_gradient(a, b, da(q['point']), g); return s._get(sz, o)
        if kind in ('type1_gradient', 'type2_gradient'):
            sz, o = s._out(A, B, 3); (a, b), p = s.two(A, B), s.pot(q['pot']); g = (P * 3)(*[C.addressof(x) for x in o])
            getattr(l, 'libgrpp_%s_integrals_gradient' % kind[:5])(a, b, da(q['C']), p, da(q['point']), g); return s._get(sz, o)
        if kind in ('spin_orbit_gradient', 'outercore_gradient', 'full_gradient'):
            n = 9 if kind == 'spin_orbit_gradient' else 12
            sz, o = s._out(A, B, n); a, b = s.two(A, B); gs = [(P * 3)(*[C.addressof(x) for x in o[3 * k:3 * k + 3]]) for k in range(n // 3)]
            if kind == 'spin_orbit_gradient': l.libgrpp_spin_orbit_integrals_gradient(a, b, da(q['C']), s.pot(q['pot']), da(q['point']), *gs)
            elif kind == 'outercore_gradient':
                m = len(q['oc']); ps = (P * max(1, m))(*[s.pot(x[0]).value for x in q['oc']]); ss = (P * max(1, m))(*[s.shell(x[1]).value for x in q['oc']])
                l.libgrpp_outercore_potential_integrals_gradient(a, b, da(q['C']), m, ps, ss, da(q['point']), *gs)
            else: l.libgrpp_full_grpp_integrals_gradient(a, b, s.grpp(q['grpp']), da(q['C']), da(q['point']), *gs)
            return s._get(sz, o)
        if kind == 'nuclear':
            sz, o = s._out(A, B, 1); a, b = s.two(A, B); l.libgrpp_nuclear_attraction_integrals(a, b, da(q['C']), I(q['Z']), I(q['model']), da(q['params']), o[0]); return s._get(sz, o)
        if kind == 'nuclear_wrap':
            sz, o = s._out(A, B, 1); a, b = s.two(A, B)
            getattr(l, 'libgrpp_nuclear_attraction_integrals_' + q['name'])(a, b, da(q['C']), I(q['Z']), *[D(x) for x in q['params']], o[0]); return s._get(sz, o)
        if kind == 'call':   # scalar function call
            f = getattr(l, q['fn']); f.restype = {'d': D, 'i': I, 'v': None}[q['ret']]; f.argtypes = [D if t == 'd' else I for t in q['sig']]
            return f(*q['args'])
        if kind == 'calls':
            f = getattr(l, q['fn']); f.restype = {'d': D, 'i': I, 'v': None}[q['ret']]; f.argtypes = [D if t == 'd' else I for t in q['sig']]
            return [f(*a) for a in q['args']]
        if kind == 'array_out':  # f(args..., double *out)
            f = getattr(l, q['fn']); f.restype = None; m = da([GARB] * q['n']); f(*[{'d': D, 'i': I}[t](a) if t in 'di' else da(a) for t, a in zip(q['sig'], q['args'])], m); return list(m)
        if kind == 'py': return q['f'](s, *q.get('args', ()))
        raise ValueError(kind)


class NativeCrash(Exception):
    pass


def run_batch(batch, timeout=120, lib=None, env=None):
    """evaluate [(kind, args)] natively in a forked child.  Each result is ('ok', value) or ('crash', text)"""
    path = lib or build_native(); results = []
    if 'asan' in os.path.basename(path): return run_asan(batch, timeout, path)
    while len(results) < len(batch):
        start = len(results); r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); ef = os.open('/tmp/.dvnat.%d' % os.getpid(), os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600); os.dup2(ef, 2)
                L = Lib(path); f = os.fdopen(w, 'wb')
                for kind, q in batch[start:]:
                    signal.alarm(timeout)
                    try: out = ('ok', L.run(kind, q))
                    except MemoryError as e: out = ('crash', str(e))
                    except AttributeError as e: out = ('missing', str(e))
                    d = pickle.dumps(out); f.write(struct.pack('<I', len(d)) + d); f.flush()
                f.close()
            except BaseException as e:
                try: sys.stderr.write(repr(e))
                except Exception: pass
                os._exit(97)
            os._exit(0)
        os.close(w); f = os.fdopen(r, 'rb')
        while True:
            h = f.read(4)
            if len(h) < 4: break
            n = struct.unpack('<I', h)[0]; results.append(pickle.loads(f.read(n)))
        f.close(); _, st = os.waitpid(pid, 0); ef = '/tmp/.dvnat.%d' % pid
        try: err = open(ef, errors='replace').read()[-600:]; os.unlink(ef)
        except OSError: err = ''
        if len(results) < len(batch):
            if os.WIFSIGNALED(st):
                sg = os.WTERMSIG(st); results.append(('timeout' if sg in (signal.SIGALRM, signal.SIGKILL, signal.SIGTERM) else 'crash', 'killed by signal %d (%s) %s' % (sg, signal.Signals(sg).name, err)))
            else:
                code = os.WEXITSTATUS(st)
                if len(results) == start and code == 97: results.append(('missing', err))
                else: results.append(('crash', 'process exited with status %d %s' % (code, err)))
    return results


def run1(kind, q, timeout=120, lib=None): return run_batch([(kind, q)], timeout, lib)[0]


def run_asan(batch, timeout, path):
    """the same in a process with the address sanitizer runtime; restarted after every failing item"""
    import subprocess
    rt = subprocess.run([gcc(), '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=rt, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', PYTHONDONTWRITEBYTECODE='1'); results = []
    while len(results) < len(batch):
        items = []
        for k, q in batch[len(results):]:
            if k == 'py': q = dict(q, f=(q['f'].__module__, q['f'].__name__))
            items.append((k, q))
        ef = '/tmp/.dvasan.%d' % os.getpid()
        with open(ef, 'wb') as err:
            p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'asan_child.py'), path, str(timeout)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env)
            out, _ = p.communicate(pickle.dumps(items))
        k = 0; n0 = len(results)
        while k + 4 <= len(out):
            n = struct.unpack('<I', out[k:k + 4])[0]
            if k + 4 + n > len(out): break
            results.append(pickle.loads(out[k + 4:k + 4 + n])); k += 4 + n
        txt = open(ef, errors='replace').read(); os.unlink(ef)
        if len(results) < len(batch):
            if p.returncode in (-signal.SIGALRM, -signal.SIGKILL, -signal.SIGTERM): results.append(('timeout', ''))
            elif 'AddressSanitizer' in txt and 'out of memory' not in txt:
                import re
                m = re.search(r'ERROR: AddressSanitizer: [^\n]*', txt); fr = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*)', txt)
                results.append(('crash', (m.group(0) if m else txt[-300:]) + ' at ' + ' <- '.join(fr[:3])))
            elif p.returncode < 0: results.append(('crash', 'killed by signal %d %s' % (-p.returncode, txt[-300:])))
            elif p.returncode == 0 or 'Traceback' not in txt and 'Sanitizer' not in txt: results.append(('crash', 'the library called exit()'))
            else:
                for _ in range(len(batch) - len(results)): results.append(('missing', 'sanitizer run not possible: ' + txt[-200:]))
    return results
