"""Builds and loads the MiniSat bridge (engine/satbridge.cc)."""
import ctypes
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_LIB = []


def build():
    """Path of the shared library, built from source when needed."""
    src = os.path.join(HERE, 'satbridge.cc')
    with open(src, 'rb') as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    path = os.environ.get('VERIF_SATLIB') or '/tmp/verif-satbridge-%d-%s.so' \
        % (os.getuid(), h)
    if os.path.exists(path):
        return path
    tmp = '%s.%d' % (path, os.getpid())
    subprocess.run(['g++', '-O2', '-w', '-fPIC', '-shared', '-o', tmp, src,
                    '-lminisat'], check=True, capture_output=True)
    os.rename(tmp, path)
    return path


def load():
    """The library, or None when it cannot be built here (z3 is used)."""
    if not _LIB:
        try:
            lib = ctypes.CDLL(build())
        except (OSError, subprocess.CalledProcessError) as e:
            sys.stderr.write('MiniSat bridge not available, using z3: %s\n%s'
                             % (e, (getattr(e, 'stderr', b'') or b''
                                    ).decode()[:1000]))
            lib = None
        if lib is not None:
            P, I, D = ctypes.c_void_p, ctypes.c_int, ctypes.c_double
            lib.sat_new.restype = P
            lib.sat_free.argtypes = [P]
            lib.sat_add.argtypes = [P, I, I]
            lib.sat_check.argtypes = [P, I, D]
            lib.sat_values.argtypes = [P, I, P, P]
            lib.aig_push.argtypes = [I, P, P]
            lib.aig_group.argtypes = [I, P]
            for f in (lib.sat_clauses, lib.sat_vars, lib.sat_conflicts):
                f.argtypes = [P]
                f.restype = ctypes.c_long
        _LIB.append(lib)
    return _LIB[0]
