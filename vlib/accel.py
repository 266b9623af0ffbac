"""Builds vrml_accelerate from /repo's *current* sources, outside the tracked tree.

The built package (copy of vrml_accelerate/*.py plus the three extension
modules) lives under /verif/.build/<hash>/, keyed by the content of the
sources and the build flavour.  Nothing under /repo is written.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, '.build')
PY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')

FLAVOURS = {
    'plain': {'cflags': ['-O1', '-g0'], 'ldflags': [], 'directives': {}},
    'asan': {
        'cflags': ['-O1', '-g', '-fno-omit-frame-pointer',
                   '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
        'ldflags': ['-fsanitize=address,undefined'], 'directives': {},
    },
}


class BuildError(Exception):
    pass


def _sources():
    base = os.path.join(REPO, 'accelerate')
    out = []
    for pattern in ('src/*.pyx', 'src/*.pxd', 'src/*.pxi', 'src/*.h', 'src/*.py', 'setup.py', 'vrml_accelerate/*.py'):
        out.extend(glob.glob(os.path.join(base, pattern)))
    return sorted(out)


def digest(flavour):
    h = hashlib.sha256(flavour.encode())
    h.update(repr(sorted(FLAVOURS[flavour].items(), key=lambda i: i[0])).encode())
    for path in _sources():
        h.update(path.encode())
        with open(path, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build(flavour='plain'):
    """Return a directory to put on PYTHONPATH that provides vrml_accelerate."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, '%s-%s' % (flavour, digest(flavour)))
    lock = open(os.path.join(BUILD, 'lock-%s' % flavour), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(target, '.ok')):
            return target
        if os.path.isdir(target):
            shutil.rmtree(target)
        work = target + '.work'
        if os.path.isdir(work):
            shutil.rmtree(work)
        shutil.copytree(os.path.join(REPO, 'accelerate'), work,
                        ignore=shutil.ignore_patterns('build', '*.so', '__pycache__', '*.egg-info'))
        fl = FLAVOURS[flavour]
        env = dict(os.environ)
        env['CFLAGS'] = ' '.join(fl['cflags'])
        env['LDFLAGS'] = ' '.join(fl['ldflags'])
        env['CC'] = 'gcc'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.pop('PYTHONPATH', None)
        proc = subprocess.run(
            [PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j4'],
            cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        sos = glob.glob(os.path.join(work, 'vrml_accelerate', '*.so'))
        if proc.returncode or len(sos) < 3:
            raise BuildError('accelerator build failed:\n' + proc.stdout.decode('utf8', 'replace')[-3000:])
        os.makedirs(os.path.join(target, 'vrml_accelerate'))
        for path in sos + glob.glob(os.path.join(work, 'vrml_accelerate', '*.py')):
            shutil.copy2(path, os.path.join(target, 'vrml_accelerate'))
        shutil.rmtree(work)
        open(os.path.join(target, '.ok'), 'w').close()
        return target
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    for name in sys.argv[1:] or ['plain']:
        print(build(name))
