"""child of native.run_asan: evaluates a pickled batch on the sanitized library"""
import sys, os, pickle, struct, signal, importlib, atexit
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import native
out = os.fdopen(os.dup(1), 'wb'); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
items = pickle.load(sys.stdin.buffer); L = native.Lib(sys.argv[1])
done = []
for kind, q in items:
    if kind == 'py': q = dict(q, f=getattr(importlib.import_module(q['f'][0]), q['f'][1]))
    signal.alarm(int(sys.argv[2]) * 4)
    try: r = ('ok', L.run(kind, q))
    except MemoryError as e: r = ('crash', str(e))
    except AttributeError as e: r = ('missing', str(e))
    d = pickle.dumps(r); out.write(struct.pack('<I', len(d)) + d); out.flush()
os._exit(0)
