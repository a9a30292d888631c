"""Builds what a check needs from /repo's current working tree: a copy of the package with its Cython extensions,
and the system-call shim.  Results are kept in /verif/.build under a hash of all inputs; a build goes to a private
directory first and is renamed into place, so concurrent checks do not disturb each other."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
BUILD = os.path.join(HERE, '.build')


def _files(root):
    for d, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for n in sorted(names):
            p = os.path.join(d, n)
            if n.endswith(('.so', '.pyc', '.o')):
                continue
            if n.endswith('.c') and os.path.exists(p[:-2] + '.pyx'):
                continue
            yield p


def tree_hash():
    h = hashlib.sha256()
    for p in list(_files(os.path.join(REPO, 'sudachipy'))) + [os.path.join(REPO, 'setup.py')]:
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _log_tail(path):
    with open(path, errors='replace') as f:
        return ''.join(f.readlines()[-30:])


def build_lib():
    """Returns the directory to put on sys.path."""
    key = tree_hash()
    out = os.path.join(BUILD, 'lib-' + key)
    if os.path.exists(os.path.join(out, '.done')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        for p in list(_files(os.path.join(REPO, 'sudachipy'))) + [os.path.join(REPO, 'setup.py')]:
            q = os.path.join(tmp, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copyfile(p, q)
        with open(os.path.join(tmp, 'README.md'), 'w') as f:
            f.write('SudachiPy\n')
        env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4', CFLAGS='-O1', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED='0')
        env.pop('LD_PRELOAD', None)
        log = os.path.join(tmp, 'build.log')
        with open(log, 'w') as f:
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j3'], cwd=tmp, env=env, stdout=f,
                               stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            sys.stderr.write(_log_tail(log))
            raise SystemExit('verif: the extensions of /repo do not build')
        shutil.rmtree(os.path.join(tmp, 'build'), ignore_errors=True)
        # the sources stay; the compiled .so files win over them at import
        open(os.path.join(tmp, '.done'), 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(os.path.join(out, '.done')):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    _prune('lib-', out)
    return out


def build_shim():
    src = os.path.join(HERE, 'simkit', 'shim.c')
    with open(src, 'rb') as f:
        key = hashlib.sha256(f.read()).hexdigest()[:20]
    out = os.path.join(BUILD, 'shim-%s.so' % key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix='.so', dir=BUILD)
    os.close(fd)
    subprocess.run(['gcc', '-O2', '-g', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-w', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
    os.rename(tmp, out)
    _prune('shim-', out)
    return out


def _prune(prefix, keep):
    """Keeps the newest few builds so that the directory stays small."""
    xs = [os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith(prefix)]
    xs = sorted((x for x in xs if x != keep), key=lambda p: os.stat(p).st_mtime, reverse=True)
    for x in xs[6:]:
        if os.path.isdir(x):
            shutil.rmtree(x, ignore_errors=True)
        else:
            try:
                os.unlink(x)
            except OSError:
                pass


if __name__ == '__main__':
    print(build_lib())
    print(build_shim())
