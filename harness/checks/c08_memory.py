import hashlib
import os
import re
import shutil
import subprocess
import sysconfig
import tempfile
import warnings

import numpy
from core import Group
import domlib
import winlib
from checks import c01_domain_delivery, c04_paint, c05_readout, c10_noise_partition, c12_invariant

ID = 'C08'
RULE = ('the compiled extensions, built with the address and undefined-behaviour sanitizers, are called with hostile arguments '
        '(positions that are not finite or out of the range of an integer, on and around edges, smoothing lengths from 1e-320 to 1e6, '
        'empty and one-cell meshes, periods smaller and larger than the mesh, odd memory layouts, wrong lengths, types a kernel '
        'cannot handle, far modes, 40000 domains on an axis); arrays lie inside of guard bands that must not change. The kernels '
        'are also linked into a driver that gives them buffers of the exact size, under address+undefined and under the memory '
        'sanitizer. A case is non-trivial when a kernel ran on at least one element; distinct by (kernel, arguments regime).')
ASSUMPTIONS = ['the invariant index of a mode fits in 63 bits',
               'a kernel smoothed over more than 2**24 cells is refused',
               'the sanitizers see heap and stack accesses of the kernels, not those inside of numpy',
               'no alignment check: numpy may hand over unaligned arrays']
TECHNIQUE = ('runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer on the compiled kernels under '
             'hostile workloads, with guard bands around every array')


def quiet(f):
    def run(ctx, spec):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with numpy.errstate(all='ignore'):
                return f(ctx, spec)
    return run


HOSTILE = [numpy.nan, numpy.inf, -numpy.inf, 1e300, -1e300, 1e18, -1e18, 2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 32, 2.0 ** 63, -2.0 ** 63,
           1e-320, -0.0, 3e9, -3e9]


def spoil(rng, x, frac=0.15):
    """some of the values become hostile"""
    x = numpy.array(x, 'f8')
    bad = rng.uniform(size=x.shape) < frac
    x[bad] = rng.choice(HOSTILE, size=bad.sum())
    return x


# --- painting and read-out
def gen_window(rng, ctx):
    s = winlib.gen_case(rng)
    s['n'] = int(rng.choice([1, 5, 30]))
    if rng.randint(4) == 0:
        s['shape'] = [int(rng.choice([0, 1, 1, 2, n])) for n in s['shape']]
    s['dtype'] = str(rng.choice(['f8', 'f4']))
    s['layout'] = str(rng.choice(['C', 'F', 'pad', 'step', 'neg', 'complex', 'T']))
    s['ptype'] = str(rng.choice(['f8', 'f8', 'f4']))
    s['hsml'] = str(rng.choice(['none', 'tiny', 'wild', 'long']))
    s['spoil'] = float(rng.choice([0, 0.05, 0.3]))
    s['diff'] = bool(rng.randint(3) == 0)
    s['wrong'] = str(rng.choice(['no', 'no', 'no', 'no', 'mass', 'hsml', 'out', 'axes', 'order', 'period']))
    return s


@quiet
def run_window(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    shape = spec['shape']
    nd = len(shape)
    g = rng.uniform(-3, 4, size=(spec['n'], nd)) * numpy.maximum(shape, 1)
    k = rng.randint(0, 4, size=g.shape)
    g = numpy.where(k == 0, numpy.floor(g), numpy.where(k == 1, numpy.floor(g) + 0.5, g))
    # distances that only take long are left out: between 1e4 and 2**29 periods are walked
    pos = spoil(rng, (g - numpy.array(spec['translate'])) / numpy.array(spec['scale']), spec['spoil'])
    gp = abs(pos * numpy.array(spec['scale']) + numpy.array(spec['translate']))
    pos[(gp > 1e5) & (gp < 1e9)] = 0.25
    pos = pos.astype(spec['ptype'])
    n = len(pos)
    w = winlib.make_window(spec)
    if spec['hsml'] == 'none':
        hsml = None
    elif spec['hsml'] == 'tiny':
        hsml = rng.choice([1e-320, 1e-300, 1e-12, 1e-4, 0.0, -1.0, 1.0], size=n)
    elif spec['hsml'] == 'long' and nd == 1:
        hsml = numpy.where(rng.randint(0, 4, size=n) == 0, 10 ** rng.uniform(0, 3.5 if spec['period'][0] else 6, size=n), 1.0)
    else:
        hsml = 10 ** rng.uniform(-3, [0, 1.5, 1, .5, .2][nd], size=n)
    if hsml is not None and rng.randint(5) == 0:
        hsml[rng.randint(n)] = rng.choice([numpy.nan, numpy.inf, 1e300, 1e18, -1e300])
    mass = spoil(rng, rng.uniform(-1, 2, size=n), 0.05)
    lay = spec['layout'] if all(x > 0 for x in shape) or spec['layout'] != 'neg' else 'pad'
    mesh, base, own = c04_paint.canvas(rng, shape, spec['dtype'], lay)
    before = base.copy()
    from pmesh.window import Affine
    t = winlib.make_affine(spec)
    kw = dict(hsml=hsml, transform=t)
    if spec['diff']:
        kw['diffdir'] = int(rng.randint(nd))
    wrong = spec['wrong']
    out = numpy.full(n + 4, 3.25)
    o = out[2:2 + n]
    refused = must = False
    if wrong == 'mass':
        mass = numpy.concatenate([mass, mass])[:int(rng.choice([0, max(1, n - 1), n + 1]))]
        must = len(mass) not in (1, n)
    elif wrong == 'hsml':
        kw['hsml'] = numpy.ones(n + 1)[:int(rng.choice([0, max(1, n - 1), n + 1]))]
        must = len(kw['hsml']) not in (1, n)
    elif wrong == 'axes':
        pos = pos[:, :max(0, nd - 1)]
        must = True
    elif wrong == 'out':
        o = out[2:2 + n - 1]
        must = True
    elif wrong == 'order':
        kw['diffdir'] = int(rng.choice([nd, 31, 32, -nd - 1, 1000]))
        must = True
    elif wrong == 'period':
        kw['transform'] = Affine(nd + 1)
        kw['transform'].period = kw['transform'].period[:max(0, nd - 1)]
        must = True
    keep = pos.copy()
    try:
        w.paint(mesh, pos, mass=mass, **kw)
    except (ValueError, IndexError, TypeError, AssertionError):
        refused = True
    if must and wrong in ('mass', 'hsml', 'axes', 'order', 'period') and n > 0:
        ctx.check(refused, 'refused', 'painting with wrong %s was not refused' % wrong)
    ctx.check(numpy.array_equal(base[~own], before[~own]), 'outside-mesh', 'memory around the mesh changed')
    ctx.check(numpy.array_equal(pos, keep, equal_nan=True), 'input-modified', 'positions')
    mid = base.copy()
    refused = False
    try:
        w.readout(mesh, pos, out=o, **kw)
    except (ValueError, IndexError, TypeError, AssertionError):
        refused = True
    if must and wrong in ('out', 'hsml', 'axes', 'order', 'period') and n > 0:
        ctx.check(refused, 'refused', 'read-out with wrong %s was not refused' % wrong)
    ctx.check(base.tobytes() == mid.tobytes(), 'readout-writes', 'read-out changed the mesh or the memory around it')
    ctx.check((out[:2] == 3.25).all() and (out[2 + len(o):] == 3.25).all(), 'outside-out', 'memory around the output changed')
    ctx.ev('particles', n)
    ctx.ev('hostile_positions', (~(abs(pos) < 1e5)).any(axis=1).sum() if pos.shape[1] else 0)
    ctx.ev('refused', int(must))
    ctx.sig(spec['kind'], nd, spec['hsml'], spec['layout'], spec['dtype'], wrong, spec['diff'])


# --- types
def gen_types(rng, ctx):
    s = winlib.gen_case(rng, kinds=winlib.SPLINES + ['lanczos2'])
    s['n'] = 12
    s['dtype'] = str(rng.choice(['f2', 'g', '>f8', '>f4', 'G', '>c16', 'i4', 'u1', 'f4', 'f8']))
    s['hsml'] = 'none'
    s['op'] = str(rng.choice(['paint', 'readout', 'noise']))
    return s


@quiet
def run_types(ctx, spec):
    """a mesh type is either refused or treated as the numbers it holds"""
    rng = numpy.random.RandomState(spec['pseed'])
    shape = spec['shape']
    pos = winlib.gen_pos(rng, spec)
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    full = [x + 4 for x in shape]
    dt = numpy.dtype(spec['dtype'])
    if spec['op'] == 'noise':
        from pmesh.whitenoise import generate
        N = [1 + int(x) for x in rng.randint(0, 7, size=3)]
        dt = {'f2': 'G', 'g': 'G', '>f8': '>c16', '>f4': '>c8', 'f4': 'c8', 'f8': 'c16', 'i4': 'G', 'u1': '>c8'}.get(spec['dtype'], spec['dtype'])
        a = numpy.zeros([x + 4 for x in N], dt)
        a[...] = 5 - 3j
        sl = tuple(slice(2, -2) for _ in N)
        own = numpy.zeros(a.shape, bool)
        own[sl] = True
        ref = numpy.zeros(N, 'c16')
        generate(ref, 0, N, 7, False)
        try:
            generate(a[sl], 0, N, 7, False)
            ctx.close(a[sl].astype('c16'), ref, 'type-value', 'white noise on %s' % dt, rtol=1e-6, atol=1e-6)
            ctx.ev('accepted')
        except (TypeError, ValueError, AssertionError):
            ctx.ev('refused')
        ctx.check((a[~own] == 5 - 3j).all(), 'outside-mesh', 'memory around the mesh changed')
        ctx.sig('noise', str(dt))
        return
    ints = rng.randint(-3, 4, size=full)
    a = numpy.zeros(full, dt)
    a[...] = abs(ints)
    sl = tuple(slice(2, -2) for _ in shape)
    own = numpy.zeros(full, bool)
    own[sl] = True
    ref = abs(ints)[sl].astype('f8').copy()
    try:
        if spec['op'] == 'paint':
            w.paint(ref, pos, transform=t)
            w.paint(a[sl], pos, transform=t)
            got = a[sl].real.astype('f8')
            tol = {2: 2e-2, 4: 1e-4}.get(a.real.dtype.itemsize, 1e-9)
        else:
            ref = w.readout(ref, pos, transform=t)
            got = w.readout(a[sl], pos, transform=t)
            tol = 1e-5
        ctx.close(got, ref, 'type-value', '%s on a %s mesh' % (spec['op'], dt), rtol=tol, atol=tol)
        ctx.ev('accepted')
    except (TypeError, ValueError, AssertionError):
        ctx.ev('refused')
    ctx.check(numpy.array_equal(a[~own].real.astype('f8'), abs(ints)[~own].astype('f8')), 'outside-mesh', 'memory around the mesh changed')
    ctx.sig(spec['op'], str(dt), spec['kind'])


# --- invariant index
def gen_index(rng, ctx):
    return dict(nd=int(rng.randint(1, 7)), dtype=str(rng.choice(['i8', 'i8', 'i4', 'i2', 'i1', 'u1', 'u4', 'u8'])),
                compressed=bool(rng.randint(2)), ml=None if rng.randint(2) else int(rng.choice([0, 1, 100, 2 ** 62])),
                n=int(rng.choice([0, 1, 60])), pseed=int(rng.randint(2 ** 31 - 1)))


@quiet
def run_index(ctx, spec):
    from pmesh.invariant import get_index
    rng = numpy.random.RandomState(spec['pseed'])
    nd = spec['nd']
    dt = numpy.dtype(spec['dtype'])
    info = numpy.iinfo(dt)
    top = {1: 2 ** 61, 2: 2 ** 29, 3: 2 ** 18, 4: 20000, 5: 2000, 6: 500}[nd]
    N = [int(2 * 2 ** rng.uniform(0, numpy.log2(top))) for _ in range(nd)]
    x = numpy.zeros((spec['n'], nd), dt)
    for d in range(nd):
        v = numpy.array([info.min, info.max, N[d] // 2, N[d] // 2 + 1, -(N[d] // 2), -(N[d] // 2) - 1, 0, 1, -1], dtype=object)
        v = v[rng.randint(len(v), size=spec['n'])]
        r = rng.randint(-(N[d] // 2), N[d] // 2 + 1, size=spec['n'], dtype='i8')
        v = numpy.where(rng.randint(0, 3, size=spec['n']) == 0, v, r)
        x[:, d] = [min(max(int(a), info.min), info.max) for a in v]
    b = numpy.full((spec['n'] + 2, nd + 2), 1, dt)
    b[1:1 + spec['n'], 1:1 + nd] = x
    kw = {} if spec['ml'] is None else dict(maxlength=spec['ml'])
    try:
        ind = get_index(b[1:1 + spec['n'], 1:1 + nd], N, compressed=spec['compressed'], **kw)
    except TypeError:
        # an integer type may be refused, but not the usual ones
        ctx.check(spec['dtype'] not in ('i8', 'i4', 'i2'), 'refused', spec['dtype'])
        return
    ctx.check(ind.shape == (spec['n'],) and (ind >= -1).all(), 'range', lambda: 'index %d' % ind.min())
    half = numpy.array([n // 2 for n in N], dtype=object)
    xo = x.astype(object)
    on = numpy.array([all(-h <= v <= h for v, h in zip(row, half)) for row in xo], bool).reshape(-1)
    if spec['ml'] is None and not spec['compressed']:
        ctx.check(((ind >= 0) == on).all(), 'on-mesh', lambda: 'mode %r of mesh %r: %d' % (x[(ind >= 0) != on][0], N, ind[(ind >= 0) != on][0]))
    else:
        ctx.check((ind[~on] == -1).all(), 'on-mesh')
    ctx.ev('modes', spec['n'])
    ctx.sig('index', nd, spec['dtype'], spec['compressed'], spec['ml'])


# --- decomposition
def gen_domain(rng, ctx):
    grid = domlib.gen_grid(rng, ctx.size)
    big = bool(rng.randint(6) == 0)
    return dict(grid=grid, big=big, n=int(rng.choice([1, 10, 60])), spoil=float(rng.choice([0, 0.1, 0.5])), dtype=str(rng.choice(['f8', 'f4'])),
                smoothing=float(rng.choice([0, 0.1, 1, 100, 1e10, 1e300, numpy.finfo('f8').max])), chunk=bool(rng.randint(2)),
                pseed=int(rng.randint(2 ** 31 - 1)))


@quiet
def run_domain(ctx, spec):
    from pmesh.domain import GridND
    rng = numpy.random.RandomState(spec['pseed'])
    grid = spec['grid']
    if spec['big']:
        nb = int(rng.choice([32767, 32768, 40000, 70000]))
        edges = [numpy.linspace(0, 1, nb + 1)]
        per = bool(rng.randint(2))
        assign = (numpy.arange(nb) * ctx.size // nb).astype('i4')
        g = GridND(edges, ctx.comm, periodic=per, DomainAssign=assign)
        pos = rng.uniform(-0.2 * per, 1 + 0.2 * per, size=(spec['n'], 1))
        # few domains per particle, the patches are walked
        s = float(rng.choice([0, 1e-5, 1e-3]))
    else:
        g = domlib.make_grid(GridND, grid, ctx.comm)
        pos = domlib.gen_pos(rng, grid, spec['n'], 0).astype('f8')
        s = spec['smoothing']
        assign = numpy.array(g.DomainAssign)
    bad = numpy.zeros(len(pos), bool)
    if spec['spoil'] and not spec['big']:
        pos = spoil(rng, pos, spec['spoil'])
        bad = ~(abs(pos) < 1e6).all(axis=1)
    pos = pos.astype(spec['dtype'])
    n = len(pos)
    try:
        layout = g.decompose(pos, smoothing=s)
    except (ValueError, OverflowError, FloatingPointError) as e:
        # refused on every rank or not at all is the matter of another property
        ctx.check(bad.any() or s > 1e9, 'refused', 'finite positions refused: %r' % e)
        ctx.comm.barrier()
        return
    si = numpy.asarray(layout.indices)
    ctx.check(len(si) == 0 or (si.min() >= 0 and si.max() < n), 'indices', 'decomposition points out of the positions')
    ctx.check(numpy.sum(layout.sendcounts) == len(si), 'counts', 'lengths of the decomposition')
    got = layout.exchange(numpy.arange(n, dtype='f8') + 1000.0 * ctx.rank)
    ctx.check(((got % 1000) < 70000).all() and (got >= 0).all(), 'values', 'alien values received')
    if spec['big']:
        per = g.periodic
        # exactly the ranks whose domains are touched (but for rounding)
        x = pos[:, 0].astype('f8')
        mult = numpy.bincount(si, minlength=n)
        exp = numpy.zeros(n, int)
        for i in range(n):
            lo, hi = numpy.floor((x[i] - s) * nb - 1e-2), numpy.floor((x[i] + s) * nb + 1e-2)
            dom = numpy.arange(lo, hi + 1)
            dom = dom % nb if per else dom[(dom >= 0) & (dom < nb)]
            exp[i] = len(numpy.unique(assign[dom.astype(int)]))
        ctx.check((mult <= exp).all(), 'many-domains', lambda: 'particle at %r on %d of %d ranks' % (x[mult > exp][0], mult[mult > exp][0], exp[mult > exp][0]))
        ins = numpy.ones(n, bool) if per else (x > 1e-3) & (x < 1 - 1e-3)
        ctx.check((mult[ins] >= 1).all(), 'many-domains', 'a particle is on no rank')
        ld = g.load(pos, gamma=1)
        ctx.check(ld.shape == (nb,) and ld.sum() == ctx.comm.allreduce(n), 'load', 'load of %d domains' % nb)
        ctx.ev('many_domains')
    ctx.ev('particles', n)
    ctx.ev('hostile_positions', bad.sum())
    ctx.sig('domain', spec['big'], grid['ndim'], grid['periodic'], bool(bad.any()), spec['smoothing'], ctx.size)


# --- the kernels alone, in buffers of the exact size
SAN = {'address': ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
       'memory': ['-fsanitize=memory']}
SRC = ['pmesh/_window_imp.c', 'pmesh/_whitenoise_imp.c', 'pmesh/_invariant_imp.c', 'pmesh/gsl/missing.c', 'pmesh/gsl/ranlxd.c', 'pmesh/gsl/rng.c']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def driver(san):
    """builds the driver of the kernels; None if their C interface is not the one it knows"""
    import vbuild
    repo = os.environ.get('VERIF_SOURCE', '/repo')
    drv = os.path.join(HERE, 'native', 'driver.c')
    h = hashlib.sha256(repr(SAN[san]).encode())
    for dp, dn, fn in sorted(os.walk(os.path.join(repo, 'pmesh'))):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(('.h', '.c')) and f[:-2] + '.pyx' not in fn:
                h.update(f.encode() + hashlib.sha256(open(os.path.join(dp, f), 'rb').read()).digest())
    h.update(open(drv, 'rb').read())
    d = os.path.join(vbuild.cache_dir(), 'driver')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s' % (san, h.hexdigest()[:20]))
    with vbuild._lock(os.path.join(d, 'lock.' + san)):
        if os.path.exists(out):
            os.utime(out)
            return out
        if os.path.exists(out + '.no'):
            return None
        tmp = tempfile.mkdtemp(prefix='d-', dir=d)
        try:
            # a copy, so that the paths in the reports do not depend on the tree
            src = os.path.join(tmp, 'src')
            shutil.copytree(os.path.join(repo, 'pmesh'), os.path.join(src, 'pmesh'), ignore=shutil.ignore_patterns('*.so', '__pycache__', 'tests'))
            srcs = [s for s in SRC if os.path.exists(os.path.join(src, s))]
            cmd = ['clang', '-w', '-O1', '-g', '-DNDEBUG', '-I.', '-Ipmesh', '-Ipmesh/gsl', '-I' + sysconfig.get_path('include')] + SAN[san]
            p = subprocess.run(cmd + ['-o', os.path.join(tmp, 'drv'), drv] + srcs + ['-lm'], cwd=src, capture_output=True, text=True)
            if p.returncode != 0:
                with open(out + '.no', 'w') as f:
                    f.write(p.stderr[-4000:])
                return None
            os.rename(os.path.join(tmp, 'drv'), out)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        old = sorted([os.path.join(d, f) for f in os.listdir(d) if f.startswith(san + '-')], key=os.path.getmtime)
        for f in old[:-8]:
            os.unlink(f)
    return out


def gen_native(rng, ctx):
    return dict(san=str(rng.choice(['address', 'memory'])), seed=int(rng.randint(2 ** 31 - 1)), cases=2500)


def _limit():
    # it ends with the rank that started it
    import ctypes
    import resource
    import signal
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    resource.setrlimit(resource.RLIMIT_CPU, (280, 290))


def run_native(ctx, spec):
    exe = driver(spec['san'])
    if exe is None:
        ctx.ev('driver_not_built')
        return
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env.update(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1', MSAN_OPTIONS='', UBSAN_OPTIONS='print_stacktrace=1')
    p = subprocess.run([exe, str(spec['seed']), str(spec['cases'])], env=env, capture_output=True, text=True, errors='replace', timeout=300, preexec_fn=_limit)
    done = re.search(r'^DONE (.*)$', p.stdout, re.M)
    if p.returncode != 0 or not done:
        at = re.findall(r'^@ (\d+)$', p.stdout, re.M)
        b = re.search(r'^BROKEN .*$', p.stdout, re.M)
        msg = b.group(0) if b else p.stderr.strip()[:1200] or p.stdout[-300:]
        ctx.fail('exact-buffers', 'kernels under the %s sanitizer, after case %s: %s (rc %d)' % (spec['san'], at[-1:] , msg, p.returncode))
        return
    w = done.group(1).split()
    for k, v in zip(w[::2], w[1::2]):
        ctx.ev('native_' + k, int(v))
    ctx.sig('native', spec['san'], spec['seed'])


def again(mod, name, g):
    return Group(name, g.gen, g.run, quick=0, thorough=0)


def reuse(name, mod, i, quick, thorough):
    g = mod.GROUPS[i]
    return Group(name, g.gen, g.run, quick=quick, thorough=thorough)


GROUPS = [
    Group('window', gen_window, run_window, quick=2400, thorough=60000),
    Group('types', gen_types, run_types, quick=400, thorough=6000),
    Group('index', gen_index, run_index, quick=500, thorough=10000),
    Group('domain', gen_domain, run_domain, quick=200, thorough=4000),
    Group('native', gen_native, run_native, quick=8, thorough=250),
    reuse('asan-delivery', c01_domain_delivery, 0, 40, 600),
    reuse('asan-paint', c04_paint, 0, 900, 25000),
    reuse('asan-readout', c05_readout, 0, 900, 25000),
    reuse('asan-noise', c10_noise_partition, 0, 300, 10000),
    reuse('asan-index', c12_invariant, 0, 150, 5000),
]


def jobs(tier):
    q = tier == 'quick'
    b = 30 if q else 500
    n = 3 if q else 5
    out = [dict(ranks=1, budget=b, part=[i, n], asan=True, groups=['window', 'types', 'index', 'asan-paint', 'asan-readout', 'asan-noise', 'asan-index'])
           for i in range(n)]
    out += [dict(ranks=r, budget=b, asan=True, groups=['domain', 'asan-delivery']) for r in ((1, 3) if q else (1, 2, 4))]
    out += [dict(ranks=1, budget=b, part=[i, 2], groups=['native']) for i in range(2)]
    return out
