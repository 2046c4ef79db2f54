"""Make Hypothesis importable in the interpreter that has filterpy's own dependencies.

Nothing is installed: the packages already present in the sandbox's tooling venv (or, if it
is missing, its offline wheelhouse) are exposed through a private directory on sys.path."""
import glob
import importlib
import os
import subprocess
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = '/opt/veriftools/wheels'
NEED = ('hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_globals.py',
        '_hypothesis_pytestplugin.py', '_hypothesis_ftz_detector.py')


def _try():
    try:
        importlib.invalidate_caches()
        importlib.import_module('hypothesis')
        return True
    except ImportError:
        for m in [m for m in sys.modules if m.split('.')[0] in ('hypothesis', '_hypothesis_globals')]:
            del sys.modules[m]
        return False


def unpack(dest):
    os.makedirs(dest, exist_ok=True)
    for name in ('hypothesis', 'sortedcontainers', 'attrs'):
        for w in sorted(glob.glob(os.path.join(WHEELS, name + '-*.whl'))):
            if 'cp3' in w and 'cp312' not in w:
                continue
            with zipfile.ZipFile(w) as z:
                z.extractall(dest)
    return dest


def ensure(tmp):
    deps = os.path.join(HERE, '.deps')
    if os.path.isdir(deps):
        sys.path.append(deps)
        if _try():
            return
        sys.path.remove(deps)
    if _try():
        return
    d = os.path.join(tmp, 'deps')
    unpack(d)
    sys.path.append(d)
    if _try():
        return
    sys.path.remove(d)
    sp = os.path.join(tmp, 'sp')
    os.makedirs(sp)
    for root in glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages'):
        for n in NEED:
            if os.path.exists(os.path.join(root, n)) and not os.path.exists(os.path.join(sp, n)):
                os.symlink(os.path.join(root, n), os.path.join(sp, n))
    sys.path.append(sp)
    if not _try():
        raise SystemExit(3)


if __name__ == '__main__':
    unpack(os.path.join(HERE, '.deps'))
    sys.path.insert(0, os.path.join(HERE, '.deps'))
    import hypothesis
    print('hypothesis', hypothesis.__version__)
