"""Builds pmesh from the current tree of /repo, outside /repo.

Variants: 'plain' (optimised, as shipped) and 'asan' (AddressSanitizer +
UndefinedBehaviourSanitizer on the compiled kernels).  Results are cached under
/verif/.build by content hash, so a changed source is always rebuilt, whatever
its time stamp.
"""
import contextlib
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

NATIVE = ('.pyx', '.pxd', '.pxi', '.c', '.h', '.cc', '.cpp', '.hpp')

FLAGS = {
    'plain': ['-O2', '-g0', '-fwrapv', '-fno-strict-aliasing', '-DNDEBUG'],
    'asan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fno-strict-aliasing'],
}
SAN = ['-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=alignment']
SANGLUE = ['-fsanitize=address']


class BuildError(Exception):
    pass


_cache = []


def cache_dir():
    if not _cache:
        _cache.append(_cache_dir())
    return _cache[0]


def _cache_dir():
    d = os.environ.get('VERIF_BUILD_DIR') or os.path.join(ROOT, '.build')
    try:
        os.makedirs(d, exist_ok=True)
        probe = os.path.join(d, '.probe.%d' % os.getpid())
        open(probe, 'w').close()
        os.unlink(probe)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'verif-build-%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def _files():
    """all source files of the package (no tests, no build products)"""
    out = []
    base = os.path.join(REPO, 'pmesh')
    for dp, dn, fn in os.walk(base):
        dn[:] = sorted(x for x in dn if x not in ('__pycache__', 'tests'))
        gen = set(f[:-4] + '.c' for f in fn if f.endswith('.pyx'))
        for f in sorted(fn):
            if f in gen or f.endswith(('.so', '.pyc', '.o', '.html')):
                continue
            out.append(os.path.relpath(os.path.join(dp, f), REPO))
    out.append('setup.py')
    return out


def _hash(files, *extra):
    h = hashlib.sha256()
    for x in extra:
        h.update(repr(x).encode() + b'\0')
    for f in files:
        h.update(f.encode() + b'\0')
        with open(os.path.join(REPO, f), 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _extensions(src):
    """ask setup.py for its extension list, without building anything"""
    code = r'''
import sys, json, setuptools
out = []
def setup(**kw):
    for e in kw.get('ext_modules') or []:
        out.append(dict(name=e.name, sources=list(e.sources), include_dirs=list(e.include_dirs),
                        libraries=list(e.libraries), cargs=list(e.extra_compile_args or []),
                        largs=list(e.extra_link_args or []), macros=list(e.define_macros or [])))
setuptools.setup = setup
try:
    import Cython.Build
    Cython.Build.cythonize = lambda x, *a, **k: x
except ImportError:
    pass
sys.argv = ['setup.py', 'build_ext']
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), {'__name__': '__main__', '__file__': 'setup.py'})
print('@@' + json.dumps(out))
'''
    import json
    p = subprocess.run([sys.executable, '-c', code], cwd=src, capture_output=True, text=True)
    for line in p.stdout.splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:])
    raise BuildError('cannot read the extension list of setup.py:\n' + p.stderr[-2000:])


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + (p.stdout + p.stderr)[-4000:])


def _compile(src, variant, dest):
    exts = _extensions(src)
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    pyinc = sysconfig.get_path('include')
    with ThreadPoolExecutor(8) as pool:
        def cy(args):
            s, o = args
            _run([sys.executable, '-m', 'cython', s, '-o', o], src)
        jobs = []
        units = []
        for e in exts:
            for s in e['sources']:
                tag = hashlib.md5((e['name'] + s).encode()).hexdigest()[:8]
                if s.endswith('.pyx'):
                    c = 'gen_%s_%s.c' % (os.path.basename(s)[:-4], tag)
                    # next to the .pyx so that relative includes resolve
                    c = os.path.join(os.path.dirname(s), c)
                    jobs.append((s, c))
                    units.append((e, c, 'glue', tag))
                else:
                    units.append((e, s, 'imp', tag))
        list(pool.map(cy, jobs))

        def cc(u):
            e, s, kind, tag = u
            obj = os.path.join(src, 'obj_%s.o' % tag)
            flags = list(FLAGS[variant])
            if variant == 'asan':
                flags += SANGLUE if (kind == 'glue' and '_window' in e['name']) else SAN
            cmd = ['gcc', '-w', '-fPIC'] + flags + e['cargs']
            cmd += ['-D%s' % m[0] if m[1] is None else '-D%s=%s' % tuple(m) for m in e['macros']]
            cmd += ['-I' + d for d in e['include_dirs']] + ['-I' + pyinc, '-c', s, '-o', obj]
            _run(cmd, src)
            return obj
        # the slowest first
        objs = dict(zip([u[3] for u in units], pool.map(cc, units)))
    for e in exts:
        mine = [objs[u[3]] for u in units if u[0] is e]
        out = os.path.join(dest, *e['name'].split('.')) + suffix
        os.makedirs(os.path.dirname(out), exist_ok=True)
        link = ['gcc', '-shared'] + (['-fsanitize=address,undefined'] if variant == 'asan' else [])
        _run(link + mine + e['largs'] + ['-l' + l for l in e['libraries']] + ['-o', out], src)


@contextlib.contextmanager
def _lock(path):
    with open(path, 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def _prune(d, keep):
    ent = [os.path.join(d, x) for x in os.listdir(d)]
    ent = [x for x in ent if os.path.isdir(x)]
    ent.sort(key=os.path.getmtime, reverse=True)
    for x in ent[keep:]:
        shutil.rmtree(x, ignore_errors=True)


def build(variant='plain'):
    """returns the directory to put on PYTHONPATH"""
    files = _files()
    native = [f for f in files if f.endswith(NATIVE) or f == 'setup.py']
    key = _hash(native, variant, FLAGS[variant], SAN, SANGLUE, sys.version)
    full = _hash(files, key)
    cache = cache_dir()
    with _lock(os.path.join(cache, 'lock.' + variant)):
        ndir = os.path.join(cache, 'native', variant + '-' + key)
        os.makedirs(os.path.dirname(ndir), exist_ok=True)
        if not os.path.isdir(ndir):
            tmp = tempfile.mkdtemp(prefix='b-', dir=cache)
            try:
                src = os.path.join(tmp, 'src')
                for f in files:
                    t = os.path.join(src, f)
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    shutil.copyfile(os.path.join(REPO, f), t)
                dest = os.path.join(tmp, 'dest')
                _compile(src, variant, dest)
                os.rename(dest, ndir)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            _prune(os.path.dirname(ndir), 6)
        pdir = os.path.join(cache, 'tree', variant + '-' + full)
        os.makedirs(os.path.dirname(pdir), exist_ok=True)
        if not os.path.isdir(pdir):
            tmp = tempfile.mkdtemp(prefix='t-', dir=cache)
            try:
                for f in files:
                    if f.endswith('.py') and f != 'setup.py':
                        t = os.path.join(tmp, 'd', f)
                        os.makedirs(os.path.dirname(t), exist_ok=True)
                        shutil.copyfile(os.path.join(REPO, f), t)
                for dp, dn, fn in os.walk(ndir):
                    for f in fn:
                        s = os.path.join(dp, f)
                        t = os.path.join(tmp, 'd', os.path.relpath(s, ndir))
                        os.makedirs(os.path.dirname(t), exist_ok=True)
                        os.link(s, t)
                os.rename(os.path.join(tmp, 'd'), pdir)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            _prune(os.path.dirname(pdir), 12)
        os.utime(ndir)
        os.utime(pdir)
    return pdir


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'asan']:
        print(build(v))
