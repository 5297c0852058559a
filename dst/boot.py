"""Puts the code under test (and a native extension built from the current
sources) on the import path."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('BTA_REPO', '/repo')
PKG = 'beam_telescope_analysis'


def environment():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS', 'NUMBA_NUM_THREADS'):
        os.environ[k] = '1'
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'


def scratch_root():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    try:
        if base and shutil.disk_usage(base).free < 1 << 30:
            base = None
    except OSError:
        base = None
    return tempfile.mkdtemp(prefix='bta_dst_', dir=base)


def _inputs_sum():
    """Same content hash as /opt/vp/build.sh keeps in build/.inputs.sha256."""
    cmd = r"""cd %s && find setup.py VERSION requirements.txt %s -type f \( -name setup.py -o -name VERSION -o -name requirements.txt -o -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.h' -o -name '*.hpp' -o -path "%s/cpp/data_struct.py" \) -print0 | sort -z | xargs -0 sha256sum | sha256sum""" % (REPO, PKG, PKG)
    return subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, env=dict(os.environ, LANG='C.UTF-8')).stdout.strip()


def _so_files(d):
    return [f for f in os.listdir(d) if f.startswith('analysis_functions.') and f.endswith('.so')] if os.path.isdir(d) else []


def ensure_extension(scratch):
    """Returns the path of the native extension to use; builds it in a scratch
    copy of the sources when the one in /repo is not of these sources."""
    stamp = os.path.join(REPO, 'build', '.inputs.sha256')
    cur = _inputs_sum()
    sos = _so_files(os.path.join(REPO, PKG))
    try:
        old = open(stamp).read().strip()
    except OSError:
        old = None
    if sos and cur and old == cur:
        return os.path.join(REPO, PKG, sos[0]), 'in place (content hash of its sources matches)'
    d = os.path.join(scratch, 'extbuild')
    os.makedirs(d)
    subprocess.run(['bash', '-c', 'cd %s && cp -a setup.py VERSION requirements.txt README.md LICENSE.txt MANIFEST.in %s/ 2>/dev/null; mkdir -p %s/%s && cp -a %s/. %s/%s/ && rm -f %s/%s/analysis_functions.*.so %s/%s/cpp/analysis_functions.c*' % (REPO, d, d, PKG, PKG, d, PKG, d, PKG, d, PKG)], check=False)
    r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '--force'], cwd=d, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=''))
    sos = _so_files(os.path.join(d, PKG))
    if r.returncode or not sos:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
        raise RuntimeError('build of the native extension failed')
    return os.path.join(d, PKG, sos[0]), 'rebuilt from the working tree'


class CachedInspect(object):
    """The inspect module with remembered frame descriptions: Dut.__setattr__
    walks the whole stack, which is deep below the harness."""

    def __init__(self, inspect):
        self._inspect, self._known = inspect, {}

    def __getattr__(self, name):
        return getattr(self._inspect, name)

    def getouterframes(self, frame, context=1):
        out, known = [], self._known
        while frame:
            code = frame.f_code
            key = (id(code), frame.f_lineno, frame.f_lasti, context)     # hashing a code object is slow
            entry = known.get(key)
            if entry is None or entry[0] is not code:
                entry = known[key] = (code, self._with_frame(self._inspect.getframeinfo(frame, context), None))
            info = entry[1]
            out.append(info if len(out) > 8 else self._with_frame(info, frame))
            frame = frame.f_back
        return out

    def _with_frame(self, info, frame):
        kw = {'positions': info.positions} if hasattr(info, 'positions') else {}
        return self._inspect.FrameInfo(frame, info.filename, info.lineno, info.function, info.code_context, info.index, **kw)


def _once(njit):
    """Functions compiled anew at every call of the function they are defined in
    are compiled once."""
    known = {}

    def decorate(f=None, *a, **k):
        if a or k or not callable(f) or getattr(f, '__closure__', None) or '<locals>' not in getattr(f, '__qualname__', '') or getattr(f, '__defaults__', None):
            return njit(f, *a, **k) if f is not None else njit(*a, **k)
        if f.__code__ not in known:
            known[f.__code__] = njit(f)
        return known[f.__code__]
    return decorate


def no_compiled_files():
    """Compiled functions stay in the process that compiled them: processes
    forked from the same one give different functions the same symbols, so that
    a function loaded from the cache of another process may call the wrong code."""
    from numba.core import dispatcher
    dispatcher.Dispatcher.enable_caching = lambda self: None


MODULES = ['telescope.telescope', 'telescope.dut', 'tools.analysis_utils', 'tools.smc', 'tools.storage_utils', 'tools.data_selection',
           'tools.geometry_utils', 'tools.kalman', 'tools.simulate_data', 'hit_analysis', 'track_analysis', 'dut_alignment', 'result_analysis']


def load(scratch):
    """Imports the code under test with the simulator's seams installed."""
    environment()
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    so, how = ensure_extension(scratch)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    import importlib
    import importlib.util
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    no_compiled_files()
    import numpy as np
    np.seterr(all='ignore')
    import tqdm
    import threading
    tqdm.tqdm.monitor_interval = 0
    # the default lock is shared with forked processes; one that is killed while it holds the lock would block all others
    tqdm.tqdm.set_lock(threading.RLock())
    pkg = importlib.import_module(PKG)
    if os.path.dirname(os.path.abspath(pkg.__file__)) != os.path.join(REPO, PKG):
        raise RuntimeError('wrong package imported: %s' % pkg.__file__)
    spec = importlib.util.spec_from_file_location(PKG + '.analysis_functions', so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[PKG + '.analysis_functions'] = mod
    spec.loader.exec_module(mod)
    pkg.analysis_functions = mod
    from . import core, iofault
    iofault.install()
    mods = []
    for name in MODULES:
        mods.append(importlib.import_module(PKG + '.' + name))
    import inspect
    dut = sys.modules[PKG + '.telescope.dut']
    if getattr(dut, 'inspect', None) is inspect:
        dut.inspect = CachedInspect(inspect)
    for m in mods:
        if callable(getattr(m, 'njit', None)):
            m.njit = _once(m.njit)
    n = core.install(mods)
    return {'extension': how, 'seams': n}
