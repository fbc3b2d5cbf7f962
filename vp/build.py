"""Builds skmultiflow's three native extensions from /repo's *current* sources.

Nothing is written into /repo.  The products go to /verif/.build/<hash of the
sources and of the compiler flags>/ and are loaded by an import hook, so a
stale .so lying in /repo/src is never used.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

EXTS = {
    'skmultiflow.metrics._confusion_matrix': 'skmultiflow/metrics/_confusion_matrix.pyx',
    'skmultiflow.metrics._classification_performance_evaluator':
        'skmultiflow/metrics/_classification_performance_evaluator.pyx',
    'skmultiflow.lazy.libNearestNeighbor':
        'skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp',
}
FLAGS = ['-O1', '-fPIC', '-shared', '-fwrapv', '-w', '-fpermissive']


class BuildError(RuntimeError):
    pass


def _inputs():
    """Every file that can influence the extensions."""
    out = []
    for d in ('skmultiflow/metrics', 'skmultiflow/lazy/src'):
        for base, dirs, files in os.walk(os.path.join(SRC, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.pyx', '.pxd', '.pxi', '.cpp', '.h', '.hpp')):
                    out.append(os.path.join(base, f))
    return out


def _hash():
    h = hashlib.sha256()
    for f in _inputs():
        h.update(os.path.relpath(f, SRC).encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    h.update(' '.join(FLAGS).encode())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))


def _build_one(name, rel, work, out):
    import numpy
    src = os.path.join(SRC, rel)
    inc = ['-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
    if rel.endswith('.pyx'):
        # Cython sees the package tree (for cimport), writes its C outside /repo
        csrc = os.path.join(work, name.rsplit('.', 1)[1] + '.c')
        stage = os.path.join(work, 'stage')
        _run([sys.executable, '-c',
              'import sys; from Cython.Compiler.Main import main; sys.exit(main(command_line=1))',
              '-3', '-o', csrc, os.path.join(stage, rel)], cwd=stage)
        cc = 'gcc'
    else:
        csrc = src
        cc = 'g++'
    dst = os.path.join(out, name + '.so')
    _run([cc] + FLAGS + inc + [csrc, '-o', dst, '-lm'])


def build():
    base = os.path.join(ROOT, '.build')
    out = os.path.join(base, _hash())
    if os.path.exists(os.path.join(out, 'done')):
        return out
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(dir=base)
    tmp_out = os.path.join(work, 'out')
    os.makedirs(tmp_out)
    stage = os.path.join(work, 'stage')
    try:
        for d in ('skmultiflow', 'skmultiflow/metrics'):
            os.makedirs(os.path.join(stage, d))
            open(os.path.join(stage, d, '__init__.py'), 'w').close()
        for f in _inputs():
            r = os.path.relpath(f, SRC)
            if r.endswith(('.pyx', '.pxd', '.pxi')):
                shutil.copy(f, os.path.join(stage, r))
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda kv: _build_one(kv[0], kv[1], work, tmp_out), EXTS.items()))
        open(os.path.join(tmp_out, 'done'), 'w').close()
        try:
            os.rename(tmp_out, out)
        except OSError:
            if not os.path.exists(os.path.join(out, 'done')):
                raise
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, out):
        self.out = out

    def find_spec(self, name, path, target=None):
        if name in EXTS:
            f = os.path.join(self.out, name + '.so')
            loader = importlib.machinery.ExtensionFileLoader(name, f)
            return importlib.util.spec_from_file_location(name, f, loader=loader)
        return None


def install():
    out = build()
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != SRC]
    sys.path.insert(0, SRC)
    sys.meta_path.insert(0, _Finder(out))
    import skmultiflow
    assert os.path.abspath(skmultiflow.__file__).startswith(SRC + os.sep), skmultiflow.__file__
    return out


if __name__ == '__main__':
    print(build())
