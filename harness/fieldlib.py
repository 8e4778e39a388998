"""Random distributed meshes and the one-process model of their fields (numpy on the global mesh)."""
import numpy

TYPES = ['real', 'transposedcomplex', 'untransposedcomplex']
CTYPES = TYPES[1:]
EPS = {'f8': 1e-12, 'c16': 1e-12, 'f4': 2e-5, 'c8': 2e-5}
REAL = {'f8': 'f8', 'f4': 'f4', 'c16': 'f8', 'c8': 'f4'}
COMPLEX = {'f8': 'c16', 'f4': 'c8', 'c16': 'c16', 'c8': 'c8'}


def factors2(n):
    return [[a, n // a] for a in range(1, n + 1) if n % a == 0]


def gen_np(rng, nd, size):
    """a process mesh allowed for nd dimensions (None: the default)"""
    if nd < 3:
        return None
    k = rng.randint(4)
    if k == 0:
        return None
    if k == 1:
        return [size]
    f = factors2(size)
    return f[rng.randint(len(f))]


def gen_mesh(rng, size, nds=(2, 2, 3, 3, 3), dtypes=('f8', 'f8', 'f4', 'c16', 'c8'), cap=None, lo=1, even=False):
    while True:
        nd = int(rng.choice(nds))
        if nd > 1 or size == 1:
            break
    c = (cap or {1: 40, 2: 14, 3: 9})[nd]
    k = rng.randint(4)
    if k == 0:
        N = [int(rng.randint(1, c // 2 + 1)) * 2] * nd
    elif k == 1:
        N = [int(rng.randint(1, c // 2 + 1)) * 2 for _ in range(nd)]
    else:
        N = [int(rng.randint(lo, c + 1)) for _ in range(nd)]
    N = [max(lo, n) for n in N]
    if size > 1:
        # pfft sizes the transposed buffer of a split axis of length one smaller than the untransposed one
        N = [max(2, n) for n in N[:-1]] + N[-1:]
    if even:
        N = [n + n % 2 for n in N]
    if rng.randint(3) == 0:
        box = [float(rng.choice([1.0, 1.0, 100.0]))] * nd
    else:
        box = [float(b) for b in 10.0 ** rng.uniform(-2, 3) * rng.choice([1.0, 0.5, 2.5], size=nd)]
    return dict(N=N, box=box, dtype=str(rng.choice(dtypes)), np=gen_np(rng, nd, size),
                resampler=str(rng.choice(['nearest', 'cic', 'tsc', 'pcs'])))


def make(m, comm, **kw):
    from mpi4py import MPI
    from pmesh.pm import ParticleMesh
    a = dict(Nmesh=m['N'], BoxSize=m['box'], dtype=m['dtype'], np=m['np'], comm=comm, resampler=m.get('resampler', 'cic'))
    if m.get('plan'):
        a['plan_method'] = m['plan']
    a.update(kw)
    if sum(m['N']) % 2:
        # leave out what is the default
        if a['dtype'] in ('f8', '<f8', numpy.dtype('f8')):
            del a['dtype']
        if a['resampler'] == 'cic':
            del a['resampler']
        if a['np'] is None:
            del a['np']
        if a['comm'] is not None and a['comm'] == MPI.COMM_WORLD:
            del a['comm']
        if numpy.all(numpy.array(a['BoxSize']) == 1.0):
            del a['BoxSize']
    return ParticleMesh(**a)


def gvalues(rng, m):
    """random values of the whole configuration-space mesh (in double precision, representable in the mesh precision)"""
    g = rng.normal(size=m['N'])
    if m['dtype'][0] == 'c':
        g = g + 1j * rng.normal(size=m['N'])
        return g.astype(m['dtype']).astype('c16')
    return g.astype(m['dtype']).astype('f8')


def cN(m, type):
    """global shape of a field"""
    N = list(m['N'])
    if type != 'real' and m['dtype'][0] == 'f':
        N[-1] = N[-1] // 2 + 1
    return tuple(N)


def spectrum(g, m):
    """normalised transform of g as stored (compressed for real meshes)"""
    F = numpy.fft.fftn(g) / g.size
    return F[tuple(slice(0, n) for n in cN(m, 'c'))]


def fulltype(m, type):
    return m['dtype'] if type == 'real' else COMPLEX[m['dtype']]


def put(field, g):
    field.value[...] = g[field.slices]
    return field


def field(pm, type, g):
    return put(pm.create(type), g)


def whole(ctx, f, value=None, oracle='coverage'):
    """the global mesh of a field, on every rank; each cell must be owned exactly once"""
    v = numpy.array(f.value if value is None else value)
    start = [s.start for s in f.slices]
    return assemble(ctx, start, v, tuple(int(n) for n in f.cshape), oracle)


def assemble(ctx, start, v, shape, oracle='coverage'):
    parts = ctx.comm.allgather((list(start), v))
    out = numpy.zeros(shape, dtype=v.dtype)
    count = numpy.zeros(shape, dtype='i4')
    for st, p in parts:
        sl = tuple(slice(a, a + n) for a, n in zip(st, p.shape))
        if p.size == 0:
            continue
        if any(s.stop > n for s, n in zip(sl, shape)):
            ctx.fail(oracle, 'a local field [%s] reaches beyond the global mesh %s' % (sl, shape))
            return out
        out[sl] = p
        count[sl] += 1
    ctx.check((count == 1).all(), oracle, lambda: '%d cells of %s are owned %s times' % (
        (count != 1).sum(), shape, sorted(set(count[count != 1].ravel().tolist()))))
    return out


def expand(F, m):
    """full Hermitian spectrum from the compressed one"""
    N = m['N']
    if m['dtype'][0] == 'c':
        return F
    full = numpy.zeros(N, dtype=F.dtype)
    nz = N[-1] // 2 + 1
    full[..., :nz] = F
    idx = [(-numpy.arange(n)) % n for n in N[:-1]]
    for k in range(nz, N[-1]):
        src = F[..., N[-1] - k]
        full[..., k] = numpy.conj(src[numpy.ix_(*idx)]) if idx else numpy.conj(src)
    return full


def freq(n):
    """signed frequency index, the Nyquist one negative"""
    i = numpy.arange(n)
    return numpy.where(2 * i >= n, i - n, i) if n > 1 else i * 0


def gfreq(n):
    return (numpy.fft.fftfreq(n) * n).round().astype('i8')


def digest(ctx, x):
    """bytes of x must be the same on all ranks"""
    x = numpy.asarray(x)
    return ctx.comm.allgather((x.dtype.str, x.tobytes()))


def agree(ctx, x, oracle, msg=''):
    d = digest(ctx, x)
    return ctx.check(all(a == d[0] for a in d), oracle, lambda: 'ranks disagree: %s; %s' % (
        [numpy.frombuffer(a[1], a[0]).tolist()[:3] for a in d], msg))


def maxreduce(ctx, x):
    return max(ctx.comm.allgather(x))


def tol(m, k=1.0):
    return EPS[m['dtype']] * k
