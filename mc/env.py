"""Makes `import skmultiflow` load /repo's *current* tree, compiled extensions included.

The in-place extension modules of /repo are used only when /repo/build/.stamp proves that they
were built from exactly the present .pyx/.pxd/.cpp sources; otherwise the three extensions are
compiled here, into a scratch directory outside /repo, and an import hook serves those instead.
"""
import glob, hashlib, importlib.abc, importlib.machinery, importlib.util, os, subprocess, sys, sysconfig, tempfile, shutil, atexit

REPO = '/repo'
SRC = REPO + '/src'
PKG = SRC + '/skmultiflow'
EXTS = {
    'skmultiflow.lazy.libNearestNeighbor': 'lazy/src/libNearestNeighbors/nearestNeighbor.cpp',
    'skmultiflow.metrics._confusion_matrix': 'metrics/_confusion_matrix.pyx',
    'skmultiflow.metrics._classification_performance_evaluator':
        'metrics/_classification_performance_evaluator.pyx',
}
NATIVE = ('.pyx', '.pxd', '.pxi', '.cpp', '.h', '.hpp')


def _sha(p):
    h = hashlib.sha256()
    with open(p, 'rb') as f:
        h.update(f.read())
    return h.hexdigest()


def _native_sources():
    out = []
    for d, dn, fs in os.walk(PKG):
        dn[:] = [x for x in dn if x != '__pycache__']
        for f in fs:
            if f.endswith(NATIVE):
                out.append(os.path.join(d, f))
    return sorted(out)


def inplace_is_current():
    try:
        lines = open(REPO + '/build/.stamp').read().splitlines()
    except OSError:
        return False
    want = {}
    for l in lines:
        parts = l.split(None, 1)
        if len(parts) == 2 and len(parts[0]) == 64:
            want[parts[1].strip()] = parts[0]
    stamped = {k for k in want if k.endswith(NATIVE)}
    now = {os.path.relpath(p, REPO) for p in _native_sources()}
    if stamped != now:
        return False
    for p in now:
        if want[p] != _sha(os.path.join(REPO, p)):
            return False
    sos = {k for k in want if k.endswith('.so')}
    present = {os.path.relpath(p, REPO) for p in glob.glob(PKG + '/**/*.so', recursive=True)}
    if sos != present or len(present) < len(EXTS):
        return False
    return all(want[p] == _sha(os.path.join(REPO, p)) for p in sos)


class BuildFailed(Exception):
    pass


def _build(scratch):
    """Compile the three extensions from the present sources into `scratch`."""
    import numpy
    inc = numpy.get_include()
    pyinc = sysconfig.get_paths()['include']
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    tree = os.path.join(scratch, 'skmultiflow')
    for p in _native_sources() + [PKG + '/__init__.py'] + glob.glob(PKG + '/*/__init__.py'):
        q = os.path.join(tree, os.path.relpath(p, PKG))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copy(p, q)
    procs, out = [], {}
    for name, rel in EXTS.items():
        so = os.path.join(scratch, name.replace('.', '_') + suffix)
        out[name] = so
        src = os.path.join(tree, rel)
        gcc = ['-O1', '-fPIC', '-shared', '-w', '-I' + inc, '-I' + pyinc, '-I' + os.path.dirname(src)]
        if rel.endswith('.pyx'):
            c = src[:-4] + '.c'
            cmd = '%s -m cython -3 --module-name %s -I %s %s -o %s && gcc %s %s -o %s' % (
                sys.executable, name, scratch, src, c, ' '.join(gcc), c, so)
        else:
            cmd = 'g++ %s %s -o %s' % (' '.join(gcc), src, so)
        procs.append((name, subprocess.Popen(cmd, shell=True, cwd=scratch, stdout=subprocess.PIPE,
                                             stderr=subprocess.STDOUT)))
    for name, p in procs:
        log = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode:
            raise BuildFailed('%s does not build:\n%s' % (name, log[-3000:]))
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def activate():
    """Returns a short description of where the extensions come from."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    if inplace_is_current():
        how = 'in-place extensions (stamp matches the current sources)'
    else:
        scratch = tempfile.mkdtemp(prefix='mc_ext_')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
        sys.meta_path.insert(0, _Finder(_build(scratch)))
        how = 'extensions compiled from the current sources in a scratch directory'
    import skmultiflow
    if not skmultiflow.__file__.startswith(SRC + '/'):
        raise BuildFailed('skmultiflow was imported from ' + skmultiflow.__file__)
    return how
