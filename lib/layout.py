"""Layout of the public structures, taken from the compiler on every run."""
import os, subprocess, json
import dvlib
from dvlib import sh, _locked, repo_hash, BuildError, BUILD, REPO, CLANG

FIELDS = {'libgrpp_shell_t': ['L', 'cart_size', 'cart_list', 'num_primitives', 'coeffs', 'alpha', 'origin'],
          'libgrpp_potential_t': ['L', 'J', 'num_primitives', 'powers', 'coeffs', 'alpha'],
          'libgrpp_grpp_t': ['n_arep', 'n_esop', 'n_oc_shells', 'U_L', 'U_arep', 'U_esop', 'U_oc', 'oc_shells'],
          'libgrpp_parameters_t': ['radial_tolerance', 'angular_screening_tolerance', 'modified_bessel_tolerance', 'cartesian_generator']}
_L = None


def layout():
    """{struct: {field: offset, '': sizeof}}"""
    global _L
    if _L: return _L
    path = os.path.join(BUILD, 'layout-%s.json' % repo_hash())

    def b(out):
        src = out + '.c'; exe = out + '.exe'
        with open(src, 'w') as f:
            f.write('#include <stddef.h>\n#include <stdio.h>\n#include "libgrpp.h"\n#include "parameters.h"\nint main(){printf("{");\n')
            for k, (s, fs) in enumerate(FIELDS.items()):
                f.write('printf("%s\\"%s\\":{\\"\\":%%zu",sizeof(%s));\n' % (',' if k else '', s, s))
                for x in fs: f.write('printf(",\\"%s\\":%%zu",offsetof(%s,%s));\n' % (x, s, x))
                f.write('printf("}");\n')
            f.write('printf("}\\n");return 0;}\n')
        r = sh([CLANG, '-w', '-I', os.path.join(REPO, 'libgrpp'), '-o', exe, src])
        if r.returncode: raise BuildError(r.stdout)
        open(out, 'w').write(subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout); os.unlink(src); os.unlink(exe)
    _locked(path, b); _L = json.load(open(path)); return _L


class View:
    """fields of a structure in engine memory"""
    SZ = {'L': 4, 'J': 4, 'cart_size': 4, 'num_primitives': 4, 'n_arep': 4, 'n_esop': 4, 'n_oc_shells': 4}

    def __init__(s, S, kind, p): s.S = S; s.p = p; s.o = layout()[kind]
    def get(s, f, k=0):
        if f == 'origin': return s.S.cread(s.p, s.o[f] + 8 * k, 8, True)
        return s.S.cread(s.p, s.o[f], s.SZ.get(f, 8), f.endswith('tolerance'))
    def int(s, f): return s.get(f).i
