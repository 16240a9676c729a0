"""Builds the simulation variant of the extension from /repo's current tree.

The product is cached by the content of everything it is made of, so a changed
tree is always rebuilt.  Nothing is ever written to /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.build')
SUFFIX = '.cpython-%d%d-x86_64-linux-gnu.so' % sys.version_info[:2]


class BuildError(Exception):
    pass


def _sources():
    yield os.path.join(ROOT, 'sim', 'sim_main.cpp')
    yield os.path.join(REPO, 'src', 'main.cpp')
    for top in ('src', 'include'):
        for base, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for name in sorted(files):
                yield os.path.join(base, name)


def _digest(flags):
    # the product does not depend on the place of the tree
    result = hashlib.sha256(repr([flag.replace(REPO, 'REPO')
                                  for flag in flags]).encode())
    for path in _sources():
        with open(path, 'rb') as file:
            data = file.read()
        result.update(os.path.relpath(path, REPO).encode() + b'\0'
                      + hashlib.sha256(data).digest())
    return result.hexdigest()[:24]


def command(output):
    import pybind11
    return ['g++', '-O1', '-w', '-std=c++14', '-DNDEBUG', '-shared', '-fPIC',
            '-fvisibility=hidden', '-finstrument-functions',
            '-finstrument-functions-exclude-file-list=pybind11,/usr/',
            '-fsanitize-coverage=trace-pc', '-static-libstdc++', '-static-libgcc',
            '-DSIM_MAIN_SOURCE="%s"' % os.path.join(REPO, 'src', 'main.cpp'),
            '-DVERSION_INFO="sim"',
            '-I' + os.path.join(REPO, 'include'),
            '-I' + pybind11.get_include(),
            '-I' + sysconfig.get_paths()['include'],
            os.path.join(ROOT, 'sim', 'sim_main.cpp'), '-o', output,
            '-Wl,--exclude-libs,ALL', '-Wl,-Bsymbolic']


def ensure():
    """Returns the directory with the simulation build of the extension."""
    key = _digest(command('OUT'))
    base = CACHE
    try:
        os.makedirs(base, exist_ok=True)
        if not os.access(base, os.W_OK):
            raise OSError
    except OSError:
        base = os.path.join(tempfile.gettempdir(), 'wagyu-sim-build')
        os.makedirs(base, exist_ok=True)
    target = os.path.join(base, key)
    path = os.path.join(target, '_wagyu' + SUFFIX)
    if os.path.exists(path):
        return target
    with open(os.path.join(base, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(path):
            return target
        # keep the cache small: older products are of no use
        entries = sorted((os.path.join(base, name)
                          for name in os.listdir(base) if name != 'lock'),
                         key=os.path.getmtime)
        for entry in entries[:-3]:
            shutil.rmtree(entry, ignore_errors=True)
        scratch = tempfile.mkdtemp(dir=base)
        output = os.path.join(scratch, '_wagyu' + SUFFIX)
        process = subprocess.run(command(output), stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT)
        if process.returncode:
            shutil.rmtree(scratch, ignore_errors=True)
            raise BuildError(process.stdout.decode(errors='replace')[-4000:])
        os.chmod(scratch, 0o755)
        os.rename(scratch, target)
    return target


if __name__ == '__main__':
    print(ensure())
