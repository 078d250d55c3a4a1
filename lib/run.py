#!/usr/bin/env python3-vt
"""run.py Cxx: decide one property for the current /repo tree."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1'); os.environ.setdefault('OMP_NUM_THREADS', '2')
import importlib
MODULES = ['checks_analytic', 'checks_data', 'checks_func', 'checks_semi', 'checks_radial', 'checks_nuc', 'checks_oc', 'checks_full', 'checks_fort', 'checks_sym', 'checks_safe']


def main():
    prop = sys.argv[1]
    for m in MODULES:
        mod = importlib.import_module(m)
        if hasattr(mod, prop): break
    else: print('no check for ' + prop); return 2
    import dvlib, core
    try: chk = getattr(mod, prop)()
    except dvlib.BuildError as e:
        print('build of the library failed:\n' + str(e)[-3000:]); return 2
    except Exception:       # the machinery does not fit this tree: not a verdict about the code
        t = traceback.format_exc(); print(t[-2000:]); chk = core.Check(prop); chk.ob('whole check', 'undecided', t[-300:]); chk.notes.append(t[-1500:])
    return chk.finish()


if __name__ == '__main__': sys.exit(main())
