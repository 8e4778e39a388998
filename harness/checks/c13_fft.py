import numpy
import fieldlib as fl
from core import Group

ID = 'C13'
TECHNIQUE = 'runtime monitoring: every transform of random distributed fields is compared with numpy.fft on the gathered mesh; memory of inputs is snapshotted around each call'
RULE = ('random meshes (2 and 3 dimensions, even, odd and unit lengths, four precisions, all process meshes) holding random fields; each '
        'transform is compared with the discrete Fourier transform of the gathered global mesh. A case counts as non-trivial when the mesh has more than '
        'one mode; distinct by (mesh, precision, process mesh, chain of transforms).')
ASSUMPTIONS = ['one-dimensional meshes cannot be built with the installed pfft-python', 'pfft-python 0.1.12 plus the harness stand-in for LocalBuffer(base=)',
               'agreement to 1e-12 (double) or 2e-5 (single) of the largest mode, per transform of the chain',
               'process meshes of full dimension (unpadded transforms) cannot be built with the installed pfft and are not covered',
               'c2r of a field that is not Hermitian is not specified']


def plan(rng, m):
    # how the transform is planned must not matter; thorough planning is slow
    k = rng.randint(12)
    if k == 0:
        m['plan'] = 'measure'
    elif k == 1 and numpy.prod(m['N']) <= 64:
        m['plan'] = 'exhaustive'
    elif k == 2:
        m['plan'] = 'estimate'
    return m


def gen_chain(rng, ctx):
    m = plan(rng, fl.gen_mesh(rng, ctx.size))
    n = int(rng.randint(3, 9))
    return dict(m=m, pseed=int(rng.randint(2 ** 31 - 1)), ops=[int(x) for x in rng.randint(0, 1000, size=n)])


def run_chain(ctx, s):
    """a random walk through representations; the model is the global configuration-space mesh"""
    from pmesh.pm import RealField, TransposedComplexField, UntransposedComplexField
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    g = fl.gvalues(rng, m)
    F = fl.spectrum(g, m)
    f = fl.field(pm, 'real', g)
    trace = []
    others = []     # bystanders: fields that must keep their bytes
    for nstep, op in enumerate(s['ops']):
        tol = fl.tol(m, 2.0 * (nstep + 1))
        before = f.value.copy()
        inplace = op % 2 == 0
        supplied = (op // 2) % 2 == 0
        if isinstance(f, RealField):
            cls = [TransposedComplexField, UntransposedComplexField][(op // 4) % 2]
            how = (op // 8) % 3
            if inplace and how == 0:
                name = 'r2c(...)'
                cls = TransposedComplexField
                out = f.r2c(out=Ellipsis)
            elif inplace:
                name = 'r2c(base)'
                out = pm.create(type=cls, base=f._base)
                r = f.r2c(out)
                ctx.check(r is out, 'returns-out', name)
            elif supplied:
                name = 'r2c(out)'
                out = pm.create(type=cls)
                out.value[...] = 77
                r = f.r2c(out)
                ctx.check(r is out, 'returns-out', name)
            elif how == 0:
                name = 'r2c()'
                cls = TransposedComplexField
                out = f.r2c()
            else:
                name = 'cast()'
                out = f.cast(type=cls)
        else:
            how = (op // 8) % 3
            cls = RealField
            if inplace and how == 0:
                name = 'c2r(...)'
                out = f.c2r(out=Ellipsis)
            elif inplace:
                name = 'c2r(base)'
                out = pm.create(type='real', base=f._base)
                r = f.c2r(out)
                ctx.check(r is out, 'returns-out', name)
            elif supplied:
                name = 'c2r(out)'
                out = pm.create(type='real')
                out.value[...] = -55
                r = f.c2r(out)
                ctx.check(r is out, 'returns-out', name)
            elif how == 0:
                name = 'c2r()'
                out = f.c2r()
            else:
                # change of storage order, or a copy
                cls = [RealField, TransposedComplexField, UntransposedComplexField][(op // 24) % 3]
                name = 'cast(%s)' % cls.__name__
                out = f.cast(type=cls)
        trace.append('%s->%s' % (name, cls.__name__[0]))
        ctx.check(type(out) is cls, 'kind', lambda: '%s gave a %s' % (name, type(out).__name__))
        shares = numpy.shares_memory(out.value, f.value) if out.value.size and f.value.size else inplace
        ctx.check(shares == inplace, 'memory', lambda: '%s: shares memory: %s' % (name, shares))
        if not inplace:
            ctx.same(f.value, before, 'input-kept', '%s changed its input (%s)' % (name, trace))
            others.append((f, before, name))
        else:
            ctx.ev('inplace_transforms')
        want = g if cls is RealField else F
        got = fl.whole(ctx, out)
        ctx.check(out.dtype == numpy.dtype(fl.fulltype(m, 'real' if cls is RealField else 'c')), 'dtype', str(out.dtype))
        ctx.close(got, want, 'transform', '%s %s' % (m, trace), rtol=tol, atol=tol * (0 if cls is RealField else numpy.abs(g).max() / g.size ** 0.5))
        ctx.ev('transforms')
        f = out
    for o, b, name in others:
        # an in-place step only ever follows on the newest field, so older ones keep their bytes
        if o is f or numpy.shares_memory(o.value, f.value):
            continue
        ctx.same(o.value, b, 'bystander', 'a later transform changed an older field')
    if g.size > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), tuple(trace))


def gen_delta(rng, ctx):
    m = plan(rng, fl.gen_mesh(rng, ctx.size))
    c = fl.cN(m, 'c')
    return dict(m=m, cell=[int(rng.randint(n)) for n in m['N']], mode=[int(rng.randint(n)) for n in c])


def run_delta(ctx, s):
    """impulses: a single cell has the pure phases as modes; a single mode is a plane wave"""
    m = s['m']
    N = m['N']
    pm = fl.make(m, ctx.comm)
    g = numpy.zeros(N)
    g[tuple(s['cell'])] = 1
    ph = numpy.zeros(N)
    for d in range(len(N)):
        sh = [1] * len(N)
        sh[d] = N[d]
        ph = ph + (gk(N[d]) * s['cell'][d] / float(N[d])).reshape(sh)
    want = (numpy.exp(-2j * numpy.pi * ph) / g.size)[tuple(slice(0, n) for n in fl.cN(m, 'c'))]
    for t in fl.CTYPES:
        f = fl.field(pm, 'real', g)
        out = pm.create(t)
        f.r2c(out)
        ctx.close(fl.whole(ctx, out), want, 'impulse', '%s %s' % (m, t), rtol=fl.tol(m))
        # a plane wave
        h = numpy.zeros(N, dtype='c16')
        k = s['mode']
        h[tuple(k)] += 1
        if m['dtype'][0] == 'f':
            h[tuple(-a % n for a, n in zip(k, N))] += 1
        wave = numpy.zeros(N)
        for d in range(len(N)):
            sh = [1] * len(N)
            sh[d] = N[d]
            wave = wave + (k[d] * numpy.arange(N[d]) / float(N[d])).reshape(sh)
        w = numpy.exp(2j * numpy.pi * wave)
        if m['dtype'][0] == 'f':
            w = 2 * w.real
        c = fl.field(pm, t, h)
        back = c.c2r()
        ctx.close(fl.whole(ctx, back), w, 'plane-wave', '%s %s mode %s' % (m, t, k), rtol=fl.tol(m))
    if g.size > 1:
        ctx.sig(tuple(N), m['dtype'], tuple(s['cell']), tuple(s['mode']))


def gk(n):
    return fl.gfreq(n)


GROUPS = [Group('chain', gen_chain, run_chain, quick=300, thorough=12000),
          Group('impulse', gen_delta, run_delta, quick=100, thorough=4000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=1, budget=25, scale=1.0), dict(ranks=2, budget=25, scale=0.6), dict(ranks=3, budget=25, scale=0.5), dict(ranks=4, budget=25, scale=0.6)]
    return ([dict(ranks=r, budget=240, scale=1.0 if r < 5 else 0.5) for r in (1, 2, 3, 4, 5, 6, 8)])
