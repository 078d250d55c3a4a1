"""Native replay of the memory and purity contracts: leaks, dependence on uninitialised storage, writes to
inputs or library-wide state (caught by read-only pages), dependence on history and on the output buffers."""
import ctypes as C, mmap, re, struct, threading, os
import native
from native import I, D, P, GARB
from layout import layout

libc = C.CDLL(None, use_errno=True)
PAGE = mmap.PAGESIZE


class Arena:
    """pages that can be made read-only"""
    def __init__(s, n=1 << 20):
        s.m = mmap.mmap(-1, n); s.base = C.addressof(C.c_char.from_buffer(s.m)); s.n = n; s.p = 0

    def copy(s, addr, n):
        if n == 0: n = 8
        if s.p + n > s.n: raise AttributeError('arena too small')
        d = s.base + s.p; s.p += (n + 31) // 32 * 32; C.memmove(d, addr, n); return d

    def protect(s, ro): libc.mprotect(P(s.base), C.c_size_t(s.n), 1 if ro else 3)

    def place(s, p, kind):
        """move an object of the library (with everything it points to) into the arena"""
        if isinstance(kind, int): return P(s.copy(p.value, 8 * kind))
        name = dict(shell='libgrpp_shell_t', pot='libgrpp_potential_t', grpp='libgrpp_grpp_t')[kind]; o = layout()[name]; d = s.copy(p.value, o[''])
        gi = lambda f: I.from_address(d + o[f]).value
        def move(f, n):
            q = P.from_address(d + o[f]); q.value = s.copy(q.value, n) if q.value else None
        if kind == 'shell': move('cart_list', 12 * gi('cart_size')); move('coeffs', 8 * gi('num_primitives')); move('alpha', 8 * gi('num_primitives'))
        elif kind == 'pot': move('powers', 4 * gi('num_primitives')); move('coeffs', 8 * gi('num_primitives')); move('alpha', 8 * gi('num_primitives'))
        else:
            q = P.from_address(d + o['U_L'])
            if q.value: q.value = s.place(P(q.value), 'pot').value
            for f, n, k in (('U_arep', 'n_arep', 'pot'), ('U_esop', 'n_esop', 'pot'), ('U_oc', 'n_oc_shells', 'pot'), ('oc_shells', 'n_oc_shells', 'shell')):
                m = gi(n); q = P.from_address(d + o[f])
                if q.value and m:
                    q.value = s.copy(q.value, 8 * m)
                    for j in range(m): e = P.from_address(q.value + 8 * j); e.value = s.place(P(e.value), k).value
        return P(d)

    def bytes(s): return C.string_at(s.base, s.p)


def segments(path):
    """writable memory of the library: its writable ELF segments (data and bss), whole pages; an anonymous mapping
    that happens to lie next to them is not part of the library"""
    real = os.path.realpath(path); h = open(real, 'rb').read(4096); pg = os.sysconf('SC_PAGE_SIZE')
    off, = struct.unpack_from('<Q', h, 32); esz, num = struct.unpack_from('<HH', h, 54); ld = []
    for k in range(num):
        ty, fl, _, va, _, _, ms, _ = struct.unpack_from('<IIQQQQQQ', h, off + k * esz)
        if ty == 1: ld.append((va, ms, fl))
    maps = [re.match(r'([0-9a-f]+)-([0-9a-f]+) (\S+) \S+ \S+ \S+\s*(.*)', l) for l in open('/proc/self/maps')]
    base = min(int(m[1], 16) for m in maps if m[4] and os.path.realpath(m[4]) == real) - min(v for v, _, _ in ld) // pg * pg; out = []
    for va, ms, fl in ld:
        if not fl & 2: continue
        lo = (base + va) // pg * pg; hi = -(-(base + va + ms) // pg) * pg
        out += [(max(lo, int(m[1], 16)), min(hi, int(m[2], 16))) for m in maps if m[3].startswith('rw') and int(m[1], 16) < hi and int(m[2], 16) > lo]
    return out


def outs(o, sz):
    return [C.string_at(C.addressof(m), 8 * sz) for m in o]


def fill(o, v):
    for m in o:
        for k in range(len(m)): m[k] = v if k < len(m) - 8 else GARB


def beyond(o, sz): return any(m[k] != GARB for m in o for k in range(sz, sz + 8))


def n_pure(lib, kind, q, others=()):
    """the call writes nothing but its outputs; the outputs depend neither on history nor on the buffers"""
    pr = []; ar = Arena(); call, o, sz = lib.prepare(kind, q, ar.place); seg = segments(lib.l._name)
    fill(o, 0.0); call(); ref = outs(o, sz)
    fill(o, float('nan')); call()
    if outs(o, sz) != ref: pr.append('%s: the result depends on the previous contents of the output matrices' % kind)
    before = ar.bytes(); st = [C.string_at(a, b - a) for a, b in seg]
    oth = [lib.prepare(k, x)[0] for k, x in others]
    for f in oth: f()
    fill(o, 7e30); call()
    if outs(o, sz) != ref: pr.append('%s: the result differs after other calls' % kind)
    if beyond(o, sz): pr.append('%s: an output matrix is written beyond its end' % kind)
    if ar.bytes() != before: pr.append('%s: an input object is modified' % kind)
    if [C.string_at(a, b - a) for a, b in seg] != st: pr.append('%s: library-wide state is modified' % kind)
    if pr: return pr
    # from here on a write to the inputs or to the library's data segment ends the process
    ar.protect(True)
    for a, b in seg: libc.mprotect(P(a), C.c_size_t(b - a), 1)
    call()
    for a, b in seg: libc.mprotect(P(a), C.c_size_t(b - a), 3)
    ar.protect(False)
    return pr


def n_threads(lib, items, rounds=3):
    """concurrent calls on shared inputs return what single calls return (bounded replay)"""
    pr = []; seqs = []
    for kind, q in items:
        call, o, sz = lib.prepare(kind, q); call(); seqs.append((kind, q, outs(o, sz)))
    objs = [[lib.prepare(k, q) for _ in range(2)] for k, q, _ in seqs]; bad = []
    def work(t):
        for _ in range(rounds):
            for j in range(len(seqs)):
                j2 = (j + t) % len(seqs); call, o, sz = objs[j2][t % 2] if t < 2 else lib.prepare(*items[j2]); fill(o, float(t)); call()
                if outs(o, sz) != seqs[j2][2] and t >= 2: bad.append(seqs[j2][0])
    th = [threading.Thread(target=work, args=(t,)) for t in range(2, 6)]
    for t in th: t.start()
    for t in th: t.join()
    return ['%s: the result of a call differs when calls run concurrently' % k for k in sorted(set(bad))][:3]


def n_leak(lib, kind, q):
    import checks_fort
    call, o, sz = lib.prepare(kind, q); n = checks_fort.leak(lib.l, call, 20)
    return ['%s: %d blocks are not released in 20 calls' % (kind, n)] if n else []


def n_value(lib, kind, q): return lib.run(kind, q)


def n_quiet(lib, mod, fn, args):
    """run a native contract for its memory behaviour only"""
    import importlib
    getattr(importlib.import_module(mod), fn)(lib, *args); return []
