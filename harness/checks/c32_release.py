import ctypes
import gc
import os
import sys
import weakref

import numpy
import fieldlib as fl
from core import Group

ID = 'C32'
TECHNIQUE = ('runtime monitoring: the same operation is repeated in windows on an unchanged input while a meter reads what the process holds - bytes handed out by the allocator (mallinfo2, '
             'with Python objects on the same allocator), open descriptors, live fields and meshes - and the smallest growth over the windows must be nil')
RULE = ('every kind of operation of the package (exchange, paint, noise, transforms, field algebra, resampling, derivatives, meshes of other resolutions, particles of the co-array, legacy buffers, refused calls), '
        'on random meshes, repeated in at least three windows of equal length after a warm-up; distinct by (operation, mesh, process mesh, parameters); non-trivial when the operation was repeated in all windows and the meter answered.')
ASSUMPTIONS = ['PYTHONMALLOC=malloc puts Python objects on the allocator that the meter reads; caches that fill up during the warm-up are no leaks',
               'growth below 24 bytes per call is not told apart from the noise of the MPI library']


class mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


_libc = ctypes.CDLL(None)
_mi = getattr(_libc, 'mallinfo2', None)
if _mi is not None:
    _mi.restype = mallinfo2


def held():
    # what Python keeps for its own sake: garbage not collected yet, names in the cache of type attributes
    gc.collect()
    sys._clear_type_cache()
    i = _mi()
    return int(i.uordblks) + int(i.hblkhd)


def nfd():
    return len(os.listdir('/proc/self/fd'))


def settings():
    """ what belongs to the process and not to the package """
    import hashlib
    import locale
    import random
    import signal
    import warnings
    return {'random state of numpy': hashlib.md5(repr(numpy.random.get_state()).encode() + numpy.random.get_state()[1].tobytes()).hexdigest(),
            'random state of python': hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
            'numpy.seterr': repr(numpy.geterr()),
            'numpy.seterrcall': repr(numpy.geterrcall()),
            'print options': repr(numpy.get_printoptions()),
            'warning filters': repr(warnings.filters),
            'environment': repr(sorted(os.environ.items())),
            'working directory': os.getcwd(),
            'signal handlers': repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGSEGV, signal.SIGALRM)]),
            'recursion limit': sys.getrecursionlimit(),
            'garbage collector': repr((gc.isenabled(), gc.get_threshold())),
            'buffer size of ufuncs': numpy.getbufsize(),
            'locale': locale.setlocale(locale.LC_ALL),
            'standard streams': repr((id(sys.stdout), id(sys.stderr))),
            'rounding': (1.0 + 2.0 ** -53) == 1.0 and (1.0 + 2.0 ** -52 * 0.75) == 1.0 + 2.0 ** -52 and -1.0 - 2.0 ** -53 == -1.0}


OPS = {}
refused_calls = [0]


def op(f):
    OPS[f.__name__] = f
    return f


def rpos(rng, pm, n):
    # the same state of rng on all ranks, a part of the particles on each
    # sometimes all in one place, such that most ranks receive nothing
    place, width = rng.uniform(0, 1), rng.choice([1, 1, 0.01])
    return (place + width * rng.uniform(0, 1, size=(pm.comm.size, n, pm.ndim))[pm.comm.rank]) % 1.0 * pm.BoxSize


@op
def decompose(rng, pm, m):
    pos = rpos(rng, pm, int(rng.choice([0, 7, 40])))
    sm = float(rng.choice([0, 0.7, 1.5]))
    def step():
        pm.decompose(pos, smoothing=sm)
    return step, sm


@op
def exchange(rng, pm, m):
    pos = rpos(rng, pm, int(rng.choice([5, 40])))
    sm = float(rng.choice([0, 1.5]))
    lay = pm.decompose(pos, smoothing=sm)
    d = rng.uniform(size=(len(pos), int(rng.choice([1, 3])))).astype(rng.choice(['f4', 'f8']))
    def step():
        lay.exchange(d)
        lay.exchange(d, d)
    return step, (sm, d.shape[1])


@op
def gather(rng, pm, m):
    pos = rpos(rng, pm, int(rng.choice([5, 40])))
    lay = pm.decompose(pos, smoothing=float(rng.choice([0, 1.5])))
    mode = str(rng.choice(['sum', 'any', 'mean', 'all', 'local', 'min']))
    d = rng.uniform(size=lay.recvlength)
    fn = {'min': numpy.fmin, 'any': 'any', 'all': 'all', 'local': 'local'}.get(mode, mode)
    def step():
        lay.gather(d, mode=fn)
        lay.get_exchange_cost()
    return step, mode


@op
def paint(rng, pm, m):
    pos = rpos(rng, pm, 20)
    kind = str(rng.choice(['cic', 'tsc', 'pcs', 'lanczos2', 'db6', 'sym12', 'nearest']))
    f = pm.create('real', value=0)
    lay = pm.decompose(pos, smoothing=2) if rng.rand() < 0.5 else None
    grad = int(rng.randint(pm.ndim)) if kind in ('cic', 'tsc', 'pcs') and rng.rand() < 0.5 else None
    def step():
        pm.paint(pos, mass=1.0, resampler=kind, out=f, layout=lay, gradient=grad)
        pm.paint(pos, resampler=kind, layout=lay)
        f.readout(pos, resampler=kind, layout=lay, gradient=grad)
    return step, (kind, grad, lay is None)


@op
def window(rng, pm, m):
    from pmesh.window import ResampleWindow, Affine
    nd = 2 if pm.ndim == 2 or rng.rand() < 0.5 else 3
    sup = int(rng.choice([2, 6, 30, 60] if nd == 3 else [2, 60, 300, 600]))
    if nd == 2 and rng.rand() < 0.5:
        sup = int(rng.choice([600, 1100, 1500]))
    kind = str(rng.choice(['linear', 'quadratic', 'cubic', 'lanczos3', 'acg4', 'db12']))
    w = ResampleWindow(kind, sup)
    a = numpy.zeros([int(n) for n in rng.randint(4, 9, size=nd)])
    pos = rng.uniform(0, 4, size=(3, nd))
    hs = rng.uniform(0.5 if rng.rand() < 0.5 else 0.95, 1, size=3)
    z = numpy.zeros_like(a)

    def step():
        t = Affine(nd, period=a.shape)
        w.paint(a, pos, transform=t, hsml=hs)
        w.readout(a, pos, transform=t, hsml=hs)
        w.readout(z, pos, transform=t, hsml=hs)
        w.paint(z, pos, transform=t, hsml=hs, mass=0.0)
        ResampleWindow(kind, sup + 1)
        t.shift(2)
        t.rescale(2.0)
    return step, (kind, nd, sup)


@op
def fourierwindow(rng, pm, m):
    from pmesh.window import FindResampler
    c = pm.create('complex', value=1.0)
    kind = str(rng.choice(['cic', 'tsc', 'pcs', 'nnb']))

    def step():
        w = FindResampler(kind)
        w.get_fwindow(c.x[0])
        w(numpy.zeros((1, 1)), numpy.zeros((1, pm.ndim))) if False else None
    return step, kind


@op
def noise(rng, pm, m):
    from pmesh import whitenoise
    un = bool(rng.rand() < 0.5)
    ty = str(rng.choice(['complex', 'real', 'untransposedcomplex']))
    seed = int(rng.randint(1 << 30))

    size = [int(rng.randint(0, n + 1)) for n in pm.Nmesh]
    if rng.rand() < 0.3:
        size[-1] = 0
    part = numpy.zeros(tuple(size), numpy.dtype('c8' if rng.rand() < 0.5 else 'c16'))
    # a part without modes, of each kind in turn
    size[0], size[-1] = int(pm.Nmesh[0]), 0
    nothing = numpy.zeros(tuple(size), part.dtype)

    def step():
        pm.generate_whitenoise(seed, type=ty, unitary=un)
        whitenoise.generate(part, [0] * pm.ndim, pm.Nmesh, seed, un)
        whitenoise.generate(nothing, [0] * pm.ndim, pm.Nmesh, seed, un)
    return step, (ty, un, part.shape)


@op
def transforms(rng, pm, m):
    f = pm.create('real', value=1.0)
    c = f.r2c()

    def step():
        f.r2c()
        c.c2r()
        g = f.copy()
        g.r2c(out=Ellipsis).c2r(out=Ellipsis)
        c.copy().r2c_vjp()
        f.copy().c2r_vjp()
        c.decompress_vjp()
        f.cast('complex').cast('untransposedcomplex').cast('real')
    return step, None


@op
def algebra(rng, pm, m):
    f = pm.create('real', value=1.0)
    c = pm.create('complex', value=1.0)

    def step():
        g = (f + 1) * f / 3 - f
        g[...] = f
        numpy.maximum(g, f)
        numpy.add(f, 1.0, out=g)
        abs(c)
        numpy.conj(c)
        g.copy()
        -g
        pm.create('real', value=g)
        f.csum(), f.cmean(), f.cdot(f), f.cnorm(), c.cdot(c), c.cnorm()
        f.cdot_vjp(1.0) if hasattr(f, 'cdot_vjp') else c.cdot_vjp(1.0)
    return step, None


@op
def elements(rng, pm, m):
    f = pm.create('real', value=1.0)
    c = pm.create('complex', value=1.0)

    def step():
        f.cgetitem([0] * pm.ndim), f.csetitem([0] * pm.ndim, 2.0)
        c.cgetitem([0] * pm.ndim + [0]), c.csetitem([0] * pm.ndim + [0], 2.0)
        for field in (f, c):
            field.unravel(field.ravel())
            for x, v in zip(field.slabs.x, field.slabs):
                v[...] = v
    return step, None


@op
def functions(rng, pm, m):
    f = pm.create('real', value=1.0)
    c = f.r2c()
    kind = str(rng.choice(['relative', 'index', 'untransformed']))

    def step():
        f.apply(lambda x, v: v * x[0], kind='index')
        f.apply(lambda x, v: v * x.normp(2), kind='relative', out=Ellipsis)
        c.apply(lambda k, v: v / (1 + k.normp(2)), kind='wavenumber')
        c.apply(lambda k, v: v * (k[0] + 1), kind='circular', out=Ellipsis)
        f.x, c.x, f.i
        pm.create_coords('real')
        pm.create_coords('complex', return_indices=True)
    return step, kind


@op
def resolution(rng, pm, m):
    f = pm.create('real', value=1.0)
    up = bool(rng.rand() < 0.5)
    N = [int(n) * 2 for n in pm.Nmesh] if up else [max(1, (int(n) + 1) // 2) for n in pm.Nmesh]
    p = pm.reshape(N)
    c = f.r2c()
    d = p.create('complex')

    def step():
        p.upsample(f, keep_mean=True) if up else p.downsample(f)
        c.resample(d)
        f.resample(p.create('real'))
    return step, up


@op
def preview(rng, pm, m):
    f = pm.create('real', value=1.0)
    ax = [int(rng.randint(pm.ndim))]

    def step():
        f.preview(axes=ax)
        f.preview()
        f.preview(Nmesh=4, axes=ax, method='downsample')
        f.ctranspose(list(range(pm.ndim))[::-1])
    return step, None


@op
def meshes(rng, pm, m):
    import pmesh.pm as P
    box = float(rng.uniform(1, 9))

    def step():
        p = P.ParticleMesh(Nmesh=[int(n) for n in pm.Nmesh], BoxSize=box, comm=pm.comm, dtype=m['dtype'])
        p.create('real')
        p.create('complex').x
        p.domain
        pm.reshape([int(n) + 1 for n in pm.Nmesh])
        pm.respawn(pm.comm)
    return step, None


@op
def communicators(rng, pm, m):
    import pmesh.pm as P

    def step():
        # a communicator of its own in every call
        comm = pm.comm.Dup()
        p = P.ParticleMesh(Nmesh=[4] * pm.ndim, BoxSize=1.0, comm=comm, dtype=m['dtype'])
        p.create('real', value=1.0).r2c()
        pm.respawn(comm)
        del p
        comm.Free()
    return step, None


@op
def grid(rng, pm, m):
    sh = float(rng.uniform())

    def step():
        pm.generate_uniform_particle_grid(shift=sh)
        pm.generate_uniform_particle_grid(shift=sh, return_id=True)
        pm.mesh_coordinates()
    return step, None


@op
def derivatives(rng, pm, m):
    f = pm.create('real', value=1.0)
    pos = rpos(rng, pm, 10)
    v = rng.uniform(size=10)
    lay = pm.decompose(pos, smoothing=1) if rng.rand() < 0.5 else None

    def step():
        f.readout_vjp(pos, v=v, layout=lay)
        f.readout_jvp(pos, v_self=f, v_pos=pos, layout=lay)
        pm.paint_vjp(f, pos, mass=v, layout=lay)
        pm.paint_jvp(pos, mass=v, v_pos=pos, v_mass=v, layout=lay)
    return step, lay is None


@op
def coarrays(rng, pm, m):
    from pmesh.coarray import coarray as CA
    other = (pm.comm.rank + 1) % pm.comm.size
    x = CA.fromarray(pm.comm, numpy.arange(6.0))

    def step():
        y = CA.zeros(pm.comm, (6,))
        y[...] = 1
        for a in (x, y):
            a[1:3] = a(other)[2:4]
            a(other)[4] = 7.0
            a.sync()
    return step, None


@op
def legacy(rng, pm, m):
    from pmesh.particlemesh import ParticleMesh
    from pmesh.transfer import TransferFunction as T
    comm = pm.comm
    N = 8
    old = ParticleMesh(2.0, N, comm=comm)
    pos = rng.uniform(0, 2, size=(6, 3))

    def step():
        lay = old.decompose(pos)
        lp = lay.exchange(pos)
        old.clear()
        old.paint(lp, 1.0)
        old.push()
        old.r2c()
        old.transfer([T.RemoveDC, T.Poisson, T.Trilinear, T.Gaussian(0.1)])
        old.push()
        old.c2r([T.SuperLanzcos(0)])
        lay.gather(old.readout(lp), mode='sum')
        old.pop()
        old.pop()
    return step, None


@op
def schemes(rng, pm, m):
    from pmesh import cic, tsc, lanczos
    a = numpy.zeros((6, 6, 6))
    pos = rng.uniform(0, 6, size=(10, 3))

    def step():
        cic.paint(pos, a, period=6, mode='ignore')
        cic.readout(a, pos, period=6, mode='ignore')
        tsc.paint(pos, a, period=6, mode='ignore')
        tsc.readout(a, pos, period=6, mode='ignore')
        lanczos.paint(pos, a, period=6, mode='ignore')
    return step, None


@op
def lines(rng, pm, m):
    from pmesh.lic import lic
    V = [pm.create('real', value=float(i + 1)) for i in range(pm.ndim)]

    def step():
        lic(V, kernel=lambda s: 1.0 + 0 * s, length=2.0 * pm.BoxSize[0] / pm.Nmesh[0], ds=0.5 * pm.BoxSize[0] / pm.Nmesh[0])
    return step, None


@op
def refused(rng, pm, m):
    pos = rpos(rng, pm, 10)
    lay = pm.decompose(pos, smoothing=0.5)
    f = pm.create('real', value=1.0)
    c = f.r2c()
    other = pm.reshape([int(n) + 2 for n in pm.Nmesh])
    g = other.create('real')

    def bad(fn, *a, **k):
        try:
            fn(*a, **k)
        except Exception:
            refused_calls[0] += 1

    def step():
        bad(lay.exchange, numpy.zeros(len(pos) + 3))
        bad(lay.gather, numpy.zeros(lay.recvlength + 3))
        bad(pm.decompose, pos[:, :-1])
        bad(pm.create, 'nonsense')
        bad(f.cast, 'nonsense')
        bad(f.readout, pos, resampler='nonsense')
        bad(f.r2c, out=g)
        bad(c.c2r, out=g)
        bad(f.cgetitem, [0] * (pm.ndim + 3))
        bad(pm.generate_whitenoise, 1, type='nonsense')
        bad(pm.paint, pos[:, :-1])
    return step, None


def gen(name):
    def g(rng, ctx):
        return dict(m=fl.gen_mesh(rng, ctx.size, nds=(2, 3, 3), cap={2: 10, 3: 8}), op=name, pseed=int(rng.randint(2 ** 31 - 1)))
    return g


WARM, CALLS, WINDOWS = 5, 8, 3
SLACK = 24              # bytes per call


def run(ctx, s):
    if _mi is None:
        ctx.ev('no_meter')
        return
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(s['m'], ctx.comm)
    step, key = OPS[s['op']](rng, pm, s['m'])
    refused_calls[0] = 0
    step()                                  # whatever it has to import
    import random
    numpy.random.seed(s['pseed'] % 1000)
    random.seed(s['pseed'] % 1000)
    before = settings()
    for i in range(WARM):
        step()
    # a leak grows in every window; whatever fills up once does not
    series = []
    gc.collect()
    gc.freeze()             # what is alive by now need not be visited again
    h0, f0 = held(), nfd()
    for w in range(WINDOWS * 3):
        for i in range(CALLS):
            step()
        h1, f1 = held(), nfd()
        series.append((h1 - h0, f1 - f0))
        h0, f0 = h1, f1
        ok = min(x[0] for x in series) <= SLACK * CALLS and min(x[1] for x in series) <= 0
        if w + 1 >= WINDOWS and ctx.comm.allreduce(0 if ok else 1) == 0:
            break
    gc.unfreeze()
    least = min(x[0] for x in series)
    fds = min(x[1] for x in series)
    ctx.check(least <= SLACK * CALLS, 'memory', lambda: '%s %s: %d bytes more after every %d calls: %s' % (s['op'], key, least, CALLS, [x[0] for x in series]))
    ctx.check(fds <= 0, 'descriptors', lambda: '%s %s: %d more open descriptors after every %d calls' % (s['op'], key, fds, CALLS))
    ctx.ev('calls', CALLS * len(series))
    ctx.ev('meter_readings', 1 + len(series))
    ctx.ev('windows_beyond_three', len(series) - WINDOWS)
    after = settings()
    ctx.check(before == after, 'settings', lambda: '%s %s changed %s' % (s['op'], key, {k: (before[k], after[k]) for k in before if before[k] != after[k]}))
    ctx.ev('settings_compared', len(before))
    ctx.comm.Barrier()
    stray = ctx.comm.Iprobe() if ctx.size > 1 else False
    ctx.check(not stray, 'messages', lambda: '%s %s leaves a message in the communicator' % (s['op'], key))
    ctx.comm.Barrier()
    if os.environ.get('VERIF_LEAK'):
        print(s['op'], key, ctx.rank, [x[0] / CALLS for x in series], flush=True)
    ctx.ev('refused_calls', refused_calls[0])
    ctx.sig(s['op'], key, s['m'])


GROUPS = [Group(name, gen(name), run, quick=3, thorough=60) for name in sorted(OPS)]


def jobs(tier):
    e = {'PYTHONMALLOC': 'malloc', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}
    b = 40 if tier == 'quick' else 700
    return [dict(ranks=r, budget=b, env=e) for r in (1, 2, 4)]
