"""Python side of the deductive engine: builds the IR of /repo and the engine, wraps the
C API, and provides the two rings the specifications are evaluated in (the random
homomorphism into GF(p)xGF(q) used by the engine, and multiprecision reals)."""
import ctypes as C, os, subprocess, sys, json, hashlib, glob, shutil, math, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

F_CONST, F_MARK, F_GARB, F_SYMDEP = 1, 2, 4, 8
K_UNDEF, K_INT, K_SYM, K_REAL, K_PTR, K_FUNC = 0, 1, 2, 3, 4, 5
OF_INPUT, OF_OUTPUT, OF_GLOBAL, OF_HEAP, OF_STACK, OF_SYM = 1, 2, 4, 8, 16, 32
ST = {0: 'ok', 1: 'violation', 2: 'unsupported', 3: 'reseed'}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def file_hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def _locked(path, build):
    """build into path atomically (concurrent builders tolerated)"""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        return path
    tmp = '%s.%d.tmp' % (path, os.getpid())
    build(tmp)
    os.replace(tmp, path)
    return path


def engine_so():
    src = os.path.join(VERIF, 'engine', 'dv.cpp')
    so = os.path.join(BUILD, 'libdv-%s.so' % file_hash([src]))

    def b(out):
        flags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
        flags = [f for f in flags if f != '-fno-exceptions' and not f.startswith('-std')]
        libs = sh(['llvm-config-18', '--ldflags', '--libs', 'core', 'irreader', 'analysis']).stdout.split()
        r = sh(['g++', '-O2', '-shared', '-fPIC', '-w', '-std=c++17', '-o', out, src] + flags + ['-fexceptions', '-fno-rtti'] + libs)
        if r.returncode:
            raise RuntimeError('engine build failed:\n' + r.stdout)
    return _locked(so, b)


def lib_sources():
    """C sources of the library as listed by its own build file (all *.c as fallback)"""
    d = os.path.join(REPO, 'libgrpp')
    return sorted(glob.glob(os.path.join(d, '*.c')))


def repo_hash():
    d = os.path.join(REPO, 'libgrpp')
    return file_hash(glob.glob(d + '/*.c') + glob.glob(d + '/*.h') + glob.glob(d + '/*.inc') + [os.path.join(d, 'CMakeLists.txt')], REPO)


class BuildError(Exception):
    pass


CLANG = '/usr/bin/clang-18' if os.path.exists('/usr/bin/clang-18') else 'clang'


def build_ir():
    """extract: clang -O0 IR of every library source, linked, mem2reg"""
    bc = os.path.join(BUILD, 'ir-%s.bc' % repo_hash())

    def b(out):
        wd = out + '.d'; os.makedirs(wd)
        ps = []
        for f in lib_sources():
            o = os.path.join(wd, os.path.basename(f)[:-2] + '.bc')
            ps.append((f, o, subprocess.Popen([CLANG, '-O0', '-g', '-w', '-std=gnu11', '-fopenmp', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone',
                                               '-fno-discard-value-names', '-c', '-emit-llvm', '-o', o, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, o, p in ps:
            txt = p.communicate()[0]
            if p.returncode:
                shutil.rmtree(wd); raise BuildError(f + ': ' + txt.decode())
        r = sh(['llvm-link-18', '-o', os.path.join(wd, 'all0.bc'.replace('all0', '_all0'))] + [o for _, o, _ in ps])
        if r.returncode:
            shutil.rmtree(wd); raise BuildError(r.stdout)
        r = sh(['opt-18', '-passes=mem2reg', '-o', out, os.path.join(wd, '_all0.bc')])
        shutil.rmtree(wd)
        if r.returncode:
            raise BuildError(r.stdout)
    return _locked(bc, b)


class Val(C.Structure):
    _fields_ = [('kind', C.c_uint8), ('flags', C.c_uint8), ('size', C.c_uint16), ('a', C.c_int32), ('i', C.c_int64),
                ('v', C.c_uint64), ('w', C.c_uint64), ('x', C.c_double)]

    def copy(self):
        r = Val(); C.pointer(r)[0] = self; return r


CB = C.CFUNCTYPE(C.c_int, C.c_int, C.POINTER(Val), C.c_int, C.POINTER(Val))


class Violation(Exception):
    def __init__(self, events): self.events = events; super().__init__(str(events[-1:]))


class Unsupported(Exception):
    pass


class Reseed(Exception):
    pass


L = None
_P = _Q = _G = None


def load_engine():
    global L
    if L is not None:
        return L
    L = C.CDLL(engine_so())
    u64, i64, i, p, d, s = C.c_uint64, C.c_int64, C.c_int, C.POINTER(Val), C.c_double, C.c_char_p
    sig = dict(dv_open=([s, i, u64], i), dv_func=([s], i), dv_func_name=([i], s), dv_func_calls=([i], u64), dv_set_callback=([CB], None),
               dv_set_contract=([s, i], i), dv_call=([i, p, i, p], i), dv_new_obj=([u64, i, s], i), dv_new_symobj=([i, i, i, s], i),
               dv_sym_set=([i, i, i, p], None), dv_sym_get=([i, i, i, p], i), dv_sym_first=([i, p], None), dv_set_flags=([i, i], None), dv_get_flags=([i], i),
               dv_new_range=([s], i), dv_range_omega=([i, p], None), dv_range_n=([i, p], None), dv_read=([i, i64, i, i, p], i), dv_write=([i, i64, i, p], i),
               dv_cread=([p, i, i, p], i), dv_cwrite=([p, i, p], i), dv_read_reals=([i, i64, i64, C.c_void_p, C.c_void_p, C.c_void_p], i),
               dv_write_vals=([i, i64, i64, p, i], i), dv_fill_garbage=([i, u64], None), dv_const=([d, p], None), dv_int=([i64, p], None), dv_rat=([i64, i64, p], None),
               dv_pi=([p], None), dv_symbol=([s, d, i, p], None), dv_prf=([s, p, i, d, p], None), dv_op=([i, p, p, p], i), dv_P=([], u64), dv_Q=([], u64), dv_G=([], u64),
               dv_reseed_needed=([], i), dv_frame_check=([i], None), dv_checkpoint=([C.POINTER(C.c_size_t), C.POINTER(C.c_uint32)], i), dv_undo=([C.c_size_t, C.c_uint32], None),
               dv_nobj=([], i), dv_live_heap=([i, C.POINTER(i), i], i), dv_obj_name=([i], s), dv_obj_size=([i], i64), dv_obj_alive=([i], i), dv_obj_range=([i], i),
               dv_global=([s], i), dv_events=([], s), dv_sites=([], s), dv_clear_events=([], None), dv_clear_sites=([], None), dv_force=([i, i], None), dv_unforce=([], None),
               dv_obligations=([], u64), dv_steps=([], u64), dv_step_limit=([u64], None), dv_drop_dead=([], None), dv_clear_contracts=([], None), dv_reset_calls=([], None),
               dv_nfuncs=([], i), dv_func_sig=([i, C.POINTER(i), C.POINTER(C.c_uint8), C.POINTER(i), C.POINTER(i)], i))
    for k, (a, r) in sig.items():
        f = getattr(L, k); f.argtypes = a; f.restype = r
    return L


# ------------------------------------------------------------------ ring of fingerprints
class F:
    """element of the image ring GF(p) x GF(q), with a double shadow"""
    __slots__ = ('v', 'w', 'x')

    def __init__(s, v, w, x=0.0): s.v = v; s.w = w; s.x = x
    @staticmethod
    def lift(o):
        if isinstance(o, F): return o
        if isinstance(o, int): return F(o % _P, o % _Q, float(o))
        from fractions import Fraction
        if isinstance(o, Fraction): return F(o.numerator * pow(o.denominator, -1, _P) % _P, o.numerator * pow(o.denominator, -1, _Q) % _Q, float(o))
        raise TypeError(type(o))

    def __add__(a, b):
        if b.__class__ is not F: b = F.lift(b)
        return F((a.v + b.v) % _P, (a.w + b.w) % _Q, a.x + b.x)
    __radd__ = __add__

    def __sub__(a, b):
        if b.__class__ is not F: b = F.lift(b)
        return F((a.v - b.v) % _P, (a.w - b.w) % _Q, a.x - b.x)

    def __rsub__(a, b): return F.lift(b) - a

    def __mul__(a, b):
        if b.__class__ is not F: b = F.lift(b)
        return F(a.v * b.v % _P, a.w * b.w % _Q, a.x * b.x)
    __rmul__ = __mul__

    def __truediv__(a, b):
        if b.__class__ is not F: b = F.lift(b)
        return F(a.v * pow(b.v, -1, _P) % _P, a.w * (pow(b.w, -1, _Q) if b.w else 0) % _Q, a.x / b.x if b.x else float('nan'))

    def __rtruediv__(a, b): return F.lift(b) / a
    def __neg__(a): return F(-a.v % _P, -a.w % _Q, -a.x)

    def __pow__(a, n):
        if n < 0: return 1 / (a ** -n)
        try: x = a.x ** n
        except OverflowError: x = float('inf')
        return F(pow(a.v, n, _P), pow(a.w, n, _Q), x)

    def __eq__(a, b): b = F.lift(b); return a.v == b.v
    def is0(a): return a.v == 0 and a.w == 0
    def __repr__(a): return 'F(%d~%.6g)' % (a.v, a.x)


def f2v(f):
    f = F.lift(f); r = Val(); r.kind = K_REAL; r.v = f.v; r.w = f.w; r.x = f.x
    if f.v == 0 and f.w == 0: r.flags = F_CONST; r.x = 0.0
    return r


def v2f(v): return F(v.v, v.w, v.x)


class FRing:
    """specification ring: fingerprints"""
    numeric = False

    def __init__(s, S): s.S = S
    def lift(s, o): return F.lift(o)
    def pi(s): r = Val(); L.dv_pi(C.byref(r)); return v2f(r)
    def _op(s, op, a, b=None):
        r = Val(); va = f2v(a); vb = f2v(b if b is not None else 0)
        if L.dv_op(op, C.byref(va), C.byref(vb), C.byref(r)): raise Reseed()
        return v2f(r)
    def sqrt(s, a): return s._op(4, a)
    def exp(s, a): return s._op(5, a)
    def erf(s, a): return s._op(9, a)
    def log(s, a): return s._op(8, a)
    def uf(s, tag, args, x=0.0):
        arr = (Val * max(1, len(args)))(*[f2v(a) for a in args]); r = Val()
        L.dv_prf(tag.encode(), arr, len(args), x, C.byref(r)); return v2f(r)


class MPRing:
    """specification ring: multiprecision reals"""
    numeric = True

    def __init__(s, dps=40):
        import mpmath; s.mp = mpmath.mp; s.mp.dps = dps; s.m = mpmath
    def lift(s, o):
        from fractions import Fraction
        if isinstance(o, Fraction): return s.m.mpf(o.numerator) / o.denominator
        if isinstance(o, F): return s.m.mpf(o.x)
        return s.m.mpf(o)
    def pi(s): return +s.m.pi
    def sqrt(s, a): return s.m.sqrt(a)
    def exp(s, a): return s.m.exp(a)
    def erf(s, a): return s.m.erf(a)
    def log(s, a): return s.m.log(a)


class Session:
    """one loaded copy of the code under verification"""

    def __init__(self, prime=0, seed=1):
        global _P, _Q
        load_engine()
        self.bc = build_ir()
        if L.dv_open(self.bc.encode(), prime, seed): raise BuildError('cannot parse IR')
        _P, _Q = L.dv_P(), L.dv_Q()
        self.contracts = {}; self._cb = CB(self._callback); L.dv_set_callback(self._cb)
        self.cb_error = None; self.salt = 0
        self.R = FRing(self)

    # --- contracts
    def contract(self, name, fn):
        """replace calls of `name` by the contract fn(S, args)->Val|F|None|NotImplemented (decline: inline body)"""
        f = L.dv_set_contract(name.encode(), 1)
        if f >= 0: self.contracts[f] = (name, fn)
        return f >= 0

    def uncontract(self, name=None):
        if name is None: L.dv_clear_contracts(); self.contracts = {}
        else: L.dv_set_contract(name.encode(), 0)

    def _callback(self, fid, args, n, ret):
        try:
            name, fn = self.contracts[fid]
            r = fn(self, [args[k].copy() for k in range(n)])
            if r is NotImplemented: return 100
            if r is None: return 0
            if isinstance(r, F): r = f2v(r)
            C.pointer(ret.contents)[0] = r
            return 0
        except Violation: return 1
        except Reseed: return 3
        except Unsupported as e: self.cb_error = e; return 2
        except Exception as e:
            import traceback; self.cb_error = traceback.format_exc(); return 2

    # --- values
    def sym(self, name, x, positive=False):
        r = Val(); L.dv_symbol(('%s#%d' % (name, self.salt)).encode(), x, 1 if positive else 0, C.byref(r)); return v2f(r)

    def int(self, k): r = Val(); r.kind = K_INT; r.i = int(k); return r
    def ptr(self, obj, off=0): r = Val(); r.kind = K_PTR; r.a = obj; r.i = off; return r
    null = property(lambda s: s.ptr(0))

    # --- memory
    def new(self, nbytes, name, flags=0): return L.dv_new_obj(nbytes, flags, name.encode())

    def reals(self, vals, name, flags=OF_INPUT):
        o = self.new(8 * len(vals), name, flags)
        if vals:
            arr = (Val * len(vals))(*[f2v(v) for v in vals]); self.chk(L.dv_write_vals(o, 0, len(vals), arr, 8))
        return o

    def ints(self, vals, name, flags=OF_INPUT):
        o = self.new(4 * len(vals), name, flags)
        if vals:
            arr = (Val * len(vals))(*[self.int(v) for v in vals]); self.chk(L.dv_write_vals(o, 0, len(vals), arr, 4))
        return o

    def ptrs(self, vals, name, flags=OF_INPUT):
        o = self.new(8 * len(vals), name, flags)
        if vals:
            arr = (Val * len(vals))(*[self.ptr(v) if isinstance(v, int) else v for v in vals]); self.chk(L.dv_write_vals(o, 0, len(vals), arr, 8))
        return o

    def garbage(self, n, name, tag=None):
        """caller buffer of n doubles holding arbitrary previous contents"""
        o = self.new(8 * n, name, OF_OUTPUT); L.dv_fill_garbage(o, hash((name, tag, self.salt)) & (2**63 - 1)); return o

    def symarr(self, rng, val, name, size=8, flags=OF_INPUT):
        o = L.dv_new_symobj(rng, size, flags, name.encode()); v = val if isinstance(val, Val) else f2v(val)
        L.dv_sym_set(o, 0, size, C.byref(v)); return o

    def range(self, name): return L.dv_new_range(name.encode())
    def omega(self, r): v = Val(); L.dv_range_omega(r, C.byref(v)); return v2f(v)
    def nsym(self, r): v = Val(); L.dv_range_n(r, C.byref(v)); return v

    def read(self, obj, off, size=8, real=True):
        v = Val(); self.chk(L.dv_read(obj, off, size, 1 if real else 0, C.byref(v))); return v

    def cread(self, p, off=0, size=8, real=True):
        q = p.copy(); q.i += off; v = Val(); self.chk(L.dv_cread(C.byref(q), size, 1 if real else 0, C.byref(v))); return v

    def cwrite(self, p, off, val, size=8):
        q = p.copy(); q.i += off; v = val if isinstance(val, Val) else f2v(val); self.chk(L.dv_cwrite(C.byref(q), size, C.byref(v)))

    def read_reals(self, obj, n, off=0):
        v = (C.c_uint64 * n)(); x = (C.c_double * n)(); fl = (C.c_uint8 * n)()
        self.chk(L.dv_read_reals(obj, off, n, v, x, fl)); return list(v), list(x), list(fl)

    def chk(self, st):
        if st == 0: return
        if st == 1: raise Violation(self.events())
        if st == 2:
            ev = self.events(); e = self.cb_error; self.cb_error = None
            raise Unsupported((ev[-1] if ev else None, e))
        if st == 3: raise Reseed()
        raise RuntimeError(st)

    # --- calls
    def has(self, name): return L.dv_func(name.encode()) >= 0

    def call(self, name, *args):
        f = L.dv_func(name.encode()) if isinstance(name, str) else name
        if f < 0: raise Unsupported('no function ' + str(name))
        vs = []
        for a in args:
            if isinstance(a, Val): vs.append(a)
            elif isinstance(a, F): vs.append(f2v(a))
            elif isinstance(a, int): vs.append(self.int(a))
            else: raise TypeError(a)
        arr = (Val * max(1, len(vs)))(*vs); ret = Val()
        self.chk(L.dv_call(f, arr, len(vs), C.byref(ret)))
        return ret

    def executed(self):
        """library functions whose bodies were executed symbolically since the last reset"""
        ext = ('malloc', 'calloc', 'realloc', 'free', 'exp', 'pow', 'sqrt', 'fabs', 'log', 'sin', 'cos', 'erf', 'memcpy', 'memset', 'qsort', 'exit', 'printf', 'abort')
        return [n for n in (L.dv_func_name(k).decode() for k in range(L.dv_nfuncs()) if L.dv_func_calls(k)) if not n.startswith('llvm.') and n not in ext]

    def events(self): return json.loads(L.dv_events().decode('utf8', 'replace'))
    def sites(self): return json.loads(L.dv_sites().decode('utf8', 'replace'))
    def live(self, mark):
        n = L.dv_live_heap(mark, None, 0) if False else L.dv_live_heap(mark, (C.c_int * 1)(), 0)
        arr = (C.c_int * max(1, n))(); L.dv_live_heap(mark, arr, n); return list(arr[:n])

    def checkpoint(self):
        j = C.c_size_t(); e = C.c_uint32(); L.dv_checkpoint(C.byref(j), C.byref(e)); return (j.value, e.value)

    def undo(self, cp): L.dv_undo(*cp); L.dv_drop_dead()
