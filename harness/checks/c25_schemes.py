import itertools
import warnings
import numpy
from core import Group

ID = 'C25'
RULE = ('random one- to three-dimensional meshes (two precisions, strided and transposed views), particles inside, at the edges and outside, '
        'weights (scalar, arrays, none), modes, periods (none, one, one per axis, beyond the mesh), transforms, particle counts from none '
        'to beyond the chunk size, given to every implementation of cic, tsc and the stand-alone kernels; every cell is compared with an '
        'independent evaluation of the scheme, and painting with reading. Non-trivial: particles were deposited in or read from the mesh; '
        'distinct by (implementation, operation, dimensions, mode, period, layout of the mesh, weights).')
ASSUMPTIONS = ['positions whose only contribution outside the mesh has zero weight may or may not raise',
               'tsc takes C contiguous meshes only (it refuses others)', 'lanczos.py has no read out',
               'positions are within a few periods of the mesh']
TECHNIQUE = 'runtime monitoring: differential monitor against the definition of every scheme, and duality of paint and readout'

IMPL = ['cic', 'cic_old', 'tsc', 'linear', 'cubic', 'lanczos2', 'lanczos3', 'lanczos4', 'lanczos2.5', 'kaiser']


def gen(nd):
    def f(rng, ctx):
        impl = str(rng.choice(['cic', 'cic', 'cic', 'cic_old', 'cic_old', 'tsc', 'tsc', 'tsc', 'linear', 'cubic', 'lanczos2', 'lanczos3', 'lanczos4', 'lanczos2.5', 'kaiser']))
        shape = [int(rng.randint(1, {1: 20, 2: 10, 3: 6}[nd])) for _ in range(nd)]
        p = int(rng.randint(4))
        if p == 0:
            period = None
        elif p == 1:
            period = int(rng.randint(1, 12))
        elif p == 2:
            period = list(shape)
        else:
            period = [int(n + rng.randint(0, 4)) for n in shape]
        mode = str(rng.choice(['raise', 'ignore', 'ignore']))
        return dict(impl=impl, shape=shape, period=period, mode=mode, op=str(rng.choice(['paint', 'readout'])) if impl in ('cic', 'cic_old', 'tsc') else 'paint',
                    n=int(rng.choice([0, 1, 2, 30, 200])), where=str(rng.choice(['in', 'in', 'edge', 'far', 'int'])),
                    dtype='f4' if rng.randint(4) == 0 and nd == 2 else 'f8', pdtype='f4' if rng.randint(4) == 0 and nd == 1 else 'f8',
                    layout=str(rng.choice(['C', 'C', 'T', 'S'])) if nd != 3 or rng.randint(2) else 'C',
                    w=str(rng.choice(['scalar', 'array', 'none', 'int'])), tr=bool(rng.randint(3) == 0), seed=int(rng.randint(2 ** 31 - 1)))
    return f


def kernel(impl):
    """(one-dimensional weight as a function of the distance, half support, integral)"""
    if impl in ('cic', 'cic_old', 'linear'):
        return (lambda x: numpy.maximum(1 - abs(x), 0)), 1, 1.0
    if impl == 'tsc':
        def tsc(x):
            x = abs(x)
            return numpy.where(x <= 0.5, 0.75 - x ** 2, numpy.where(x < 1.5, 0.5 * (1.5 - x) ** 2, 0))
        return tsc, 2, 1.0
    if impl == 'cubic':
        def cubic(x):
            x = abs(x)
            a = -0.5
            return numpy.where(x < 1, (a + 2) * x ** 3 - (a + 3) * x ** 2 + 1,
                               numpy.where(x < 2, a * (x ** 3 - 5 * x ** 2 + 8 * x - 4), 0))
        return cubic, 2, 1.0
    if impl.startswith('lanczos'):
        a = float(impl[7:])

        def lz(x):
            px = numpy.pi * numpy.where(x == 0, 1, x)
            return numpy.where(abs(x) >= a, 0, numpy.where(x == 0, 1.0, a * numpy.sin(px) * numpy.sin(px / a) / px ** 2))
        t = numpy.linspace(-a, a, 200001)
        return lz, int(numpy.ceil(a)), numpy.trapz(lz(t), t)
    a = 3

    def ks(x):
        tmp = numpy.sqrt(numpy.maximum(1 - (x / a) ** 2, 0))
        return numpy.where(abs(x) > a, 0, numpy.i0(numpy.pi * 2.0 * tmp).reshape(numpy.shape(x)) / numpy.i0(numpy.pi * 2.0))
    t = numpy.linspace(-a, a, 200001)
    return ks, a, numpy.trapz(ks(t), t)


def model(impl, g, shape, period):
    """for every particle the flat cells, their weights, and whether a deposit that is not zero falls off the mesh"""
    K, s, integral = kernel(impl)
    n, nd = g.shape
    base = numpy.floor(g).astype('i8')
    cells, weights, off = [], [], []
    for o in itertools.product(range(-s + 1, s + 1), repeat=nd):
        t = base + numpy.array(o)
        w = numpy.ones(n)
        for d in range(nd):
            w = w * K(g[:, d] - t[:, d]) / integral
        if period is not None:
            t = t % numpy.array(period)
        ok = ((t >= 0) & (t < numpy.array(shape))).all(axis=1)
        flat = numpy.zeros(n, 'i8')
        for d in range(nd):
            flat = flat * shape[d] + numpy.where(ok, t[:, d], 0)
        cells.append(flat)
        weights.append(numpy.where(ok, w, 0))
        off.append(~ok & (w != 0))
    return cells, weights, bool(numpy.any(off))


def offmesh(impl, g, shape, period):
    """possibly off the mesh: within rounding of touching something outside"""
    K, s, _ = kernel(impl)
    lo, hi = (numpy.floor(g - s - 1e-3) , numpy.ceil(g + s + 1e-3))
    if period is not None:
        p = numpy.array(numpy.broadcast_to(period, g.shape[1]))
        return bool((p > numpy.array(shape)).any())
    return bool(((lo < 0) | (hi >= numpy.array(shape))).any())


def build(ctx, spec):
    rng = numpy.random.RandomState(spec['seed'])
    shape = tuple(spec['shape'])
    nd, n = len(shape), spec['n']
    if spec['where'] == 'in':
        m = min(2.5, min(shape) / 3.0)
        g = rng.uniform(m, numpy.maximum(numpy.array(shape) - m, m + 1e-3), size=(n, nd))
    elif spec['where'] == 'edge':
        g = rng.uniform(-0.9, numpy.array(shape) + 0.9, size=(n, nd))
    elif spec['where'] == 'far':
        g = rng.uniform(-30, 30, size=(n, nd))
    else:
        g = rng.randint(0, 2 * max(shape), size=(n, nd)) * 0.5
    g = g.astype(spec['pdtype'])
    if spec['layout'] == 'C':
        mesh = numpy.empty(shape, spec['dtype'])
    elif spec['layout'] == 'T':
        mesh = numpy.empty(shape[::-1], spec['dtype']).T
    else:
        mesh = numpy.empty(shape + (2,), spec['dtype'])[..., 0]
    mesh[...] = rng.normal(size=shape)
    w = {'scalar': 2.1, 'int': 3, 'array': rng.normal(size=n), 'none': None}[spec['w']]
    if w is None and spec['impl'] not in ('cic', 'tsc'):
        w = 1.0
    return rng, shape, g, mesh, w


def function(impl, op):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from pmesh import cic, tsc, lanczos
    if impl == 'cic':
        return cic.paint if op == 'paint' else cic.readout
    if impl == 'cic_old':
        return cic.paint_old if op == 'paint' else cic.readout_old
    if impl == 'tsc':
        return tsc.paint if op == 'paint' else tsc.readout
    window = {'linear': lanczos.linear, 'cubic': lanczos.cubic, 'lanczos2': lanczos.lanczos2, 'lanczos3': lanczos.lanczos3,
              'lanczos4': lanczos.lanczos(4), 'lanczos2.5': lanczos.lanczos(2.5), 'kaiser': lanczos.kaiser(3, 2.0)}[impl]
    if window is lanczos.linear:
        return lanczos.paint        # the default
    return lambda *a, **kw: lanczos.paint(*a, window=window, **kw)


def run(ctx, spec):
    impl, op = spec['impl'], spec['op']
    rng, shape, g, mesh, w = build(ctx, spec)
    f = function(impl, op)
    n, nd = g.shape
    kw = dict(mode=spec['mode'], period=spec['period'])
    if spec['seed'] % 2:
        # particles off the mesh are refused, and nothing is periodic, unless told otherwise
        kw = dict((k, v) for k, v in kw.items() if v is not None and not (k == 'mode' and v == 'raise'))
    if impl not in ('cic', 'cic_old', 'tsc') and isinstance(kw.get('period'), list):
        kw['period'] = numpy.array(kw['period'])
    pos = g
    if spec['tr']:
        # exact in binary
        pos = g * g.dtype.type(0.25) - g.dtype.type(2)
        kw['transform'] = lambda x: (x + 2) * 4
        g = (pos + g.dtype.type(2)) * g.dtype.type(4)
    g8 = g.astype('f8')
    pos0, mesh0 = pos.copy(), numpy.array(mesh)
    cells, weights, off = model(impl, g8, shape, None if spec['period'] is None else numpy.array(numpy.broadcast_to(spec['period'], nd)))
    maybe = offmesh(impl, g8, shape, spec['period']) if not off else True
    eps = 1e-5 if 'f4' in (spec['dtype'], spec['pdtype']) else 1e-11
    if impl.startswith('lanczos') or impl == 'kaiser':
        eps = max(eps, 1e-6)      # the code integrates its normalisation with fewer points
    refuses = impl == 'tsc' and not mesh.flags['C_CONTIGUOUS']
    try:
        if op == 'paint':
            if w is not None or impl in ('cic', 'tsc'):
                kw['weights'] = w
            r = f(pos, mesh, **kw)
        else:
            out = None
            if spec['w'] == 'array':
                out = kw['out'] = rng.normal(size=n)
            r = f(mesh, pos, **kw)
    except ValueError as e:
        if refuses:
            ctx.same(mesh, mesh0, 'refused', 'a refused mesh')
            ctx.ev('refused')
            return
        ctx.check(spec['mode'] == 'raise' and n and maybe, 'raise', lambda: 'raised %r for %s positions, mode %s' % (e, spec['where'], spec['mode']))
        ctx.ev('raised')
        ctx.sig(impl, op, nd, 'raised')
        return
    ctx.check(not refuses, 'refused', 'a strided mesh was accepted')
    if spec['mode'] == 'raise':
        ctx.check(not off, 'raise', lambda: 'particles %s reach outside the mesh, nothing was raised' % spec['where'])
        if off:
            return
    ctx.same(pos, pos0, 'input', 'positions')
    size = int(numpy.prod(shape))
    if op == 'paint':
        ctx.check(r is mesh, 'result', 'paint returns the mesh')
        ww = numpy.ones(n) if w is None else numpy.broadcast_to(numpy.asarray(w, 'f8'), n)
        add = numpy.zeros(size)
        for c, k in zip(cells, weights):
            add += numpy.bincount(c, ww * k, minlength=size)
        want = mesh0.astype('f8') + add.reshape(shape)
        tol = eps * (1 + abs(ww).sum() * 0.02 + abs(want).max() + (abs(ww).max() if n else 0)) * 3
        ctx.close(numpy.array(mesh), want, 'paint', '%s, period %s, mode %s, %s mesh' % (impl, spec['period'], spec['mode'], spec['layout']), rtol=0, atol=tol)
        if spec['period'] is not None and (numpy.array(spec['period']) <= min(shape)).all() and impl in ('cic', 'cic_old', 'tsc', 'linear', 'cubic'):
            ctx.close(mesh.sum(dtype='f8') - mesh0.sum(dtype='f8'), ww.sum(), 'mass', '%s conserves mass' % impl, rtol=0, atol=tol * size)
            ctx.ev('mass_checks')
        ctx.ev('deposits', n)
    else:
        m0 = mesh0.ravel().astype('f8')
        want = sum(m0[c] * k for c, k in zip(cells, weights))
        ctx.same(mesh, mesh0, 'input', 'mesh')
        ctx.check(out is None or r is out, 'result', 'readout returns out')
        ctx.close(numpy.array(r), want, 'readout', '%s, period %s, mode %s, %s mesh' % (impl, spec['period'], spec['mode'], spec['layout']), rtol=0, atol=eps * 10)
        # duality
        if spec['mode'] == 'ignore' and n:
            q = rng.normal(size=n)
            p = numpy.zeros(shape, 'f8')
            kw.pop('out', None)
            function(impl, 'paint')(pos, p, weights=q, **kw)
            ctx.close((p * mesh0).sum(), (q * want).sum(), 'duality', '%s paint and readout' % impl, rtol=0, atol=eps * 10 * n)
            ctx.ev('dualities')
        ctx.ev('readouts', n)
    if n:
        ctx.sig(impl, op, nd, spec['mode'], type(spec['period']).__name__, spec['layout'], spec['w'], spec['where'])


BIG = []
for _i, (_impl, _n) in enumerate([('cic_old', 150000), ('linear', 140000), ('cic', 1100000), ('tsc', 1060000)]):
    for _op in ('paint', 'readout'):
        if _impl == 'linear' and _op == 'readout':
            continue
        BIG.append(dict(impl=_impl, shape=[8, 9], period=[8, 9], mode='ignore', op=_op, n=_n, where='far', dtype='f8', pdtype='f8', layout='C', w='array', tr=False, seed=_i + 5))
        # the last chunk alone is off the mesh
        BIG.append(dict(BIG[-1], where='late', mode='raise', period=None))


def run_big(ctx, spec):
    if spec['where'] == 'late':
        rng = numpy.random.RandomState(spec['seed'])
        f = function(spec['impl'], spec['op'])
        g = rng.uniform(2, 6, size=(spec['n'], 2))
        for bad in (False, True):
            if bad:
                g[spec['n'] - 1 if spec['seed'] % 2 else 5] = 20
            mesh = numpy.zeros(spec['shape'])
            try:
                if spec['op'] == 'paint':
                    f(g, mesh, mode='raise')
                else:
                    f(mesh, g, mode='raise')
                ctx.check(not bad, 'raise', 'one particle of %d is off the mesh, nothing was raised' % spec['n'])
            except ValueError:
                ctx.check(bad, 'raise', 'raised for %d particles on the mesh' % spec['n'])
            if not bad and spec['op'] == 'paint':
                ctx.close(mesh.sum(), spec['n'], 'mass', 'many particles', rtol=1e-9, atol=0)
        ctx.ev('chunks')
        ctx.sig('late', spec['impl'], spec['op'])
        return
    run(ctx, spec)


GROUPS = [Group('dim%d' % d, gen(d), run, quick=350, thorough=20000, ranks=(1, 1)) for d in (1, 2, 3)] + [
          Group('chunks', lambda rng, ctx: dict(BIG[rng.randint(len(BIG))], seed=int(rng.randint(2 ** 31 - 1))), run_big, quick=2, thorough=30, fixed=BIG)]


def jobs(tier):
    t = 25 if tier == 'quick' else 300
    return [dict(ranks=1, budget=t, groups=['dim1']), dict(ranks=1, budget=t, groups=['dim2']), dict(ranks=1, budget=t, groups=['dim3']),
            dict(ranks=1, budget=t, groups=['chunks'])]
