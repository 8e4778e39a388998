import numpy
from core import Group
import fieldlib as fl
import winlib as wl

ID = 'C28'
RULE = ('random two- and three-dimensional real meshes with cubic and non-cubic cells, vector fields (uniform, smooth, noisy, with zeros, '
        'zero on the slab of one rank), textures, kernels (constant, odd, tapered, one-sided), lengths from zero to several pixels, step '
        'sizes dividing the length or not, windows, normalised or not, on several ranks; compared with an independent one-process '
        'integration of every line, and with the laws of the operation. Non-trivial: lines of at least one step through a non-constant '
        'texture; distinct by (kind of vectors, kernel, window, normalised, dimensions, precision, ranks).')
ASSUMPTIONS = ['the step is positive', 'vector fields and textures are real fields of the same mesh; vectors neither overflow nor underflow when squared',
               'on cells that are not cubic a pixel is the smallest edge of a cell',
               'tolerances grow with the divergence of neighbouring lines']
TECHNIQUE = 'runtime monitoring: differential monitor against an independent line integrator, and algebraic laws of the operator'

KERNELS = {
    'one': lambda s: 1.0,
    'cos': lambda s: 0.5 * (1 + numpy.cos(numpy.pi * s)),
    'odd': lambda s: s,
    'side': lambda s: 2.0 if s >= 0.25 else 0.5,
    'poly': lambda s: 1.0 + s - 0.5 * s ** 2,
}
WINDOWS = ['cic', 'cic', 'tsc', 'pcs', 'lanczos2', None]


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, nds=(2, 2, 3), dtypes=('f8', 'f8', 'f4'), cap={2: 14, 3: 7}, lo=2)
    if m['resampler'] == 'nearest':
        m['resampler'] = 'cic'
    length = float(rng.choice([0.0, 0.6, 1.0, 2.0, 2.0, 5.0, rng.uniform(0, 4)]))
    ds = float(rng.choice([0.1, 0.25, 0.5, 1.0, 3.0, rng.uniform(0.1, 1.0)]))
    return dict(m=m, length=length, ds=ds, kernel=str(rng.choice(sorted(KERNELS))),
                window=[None if rng.randint(6) == 0 else str(rng.choice(['cic', 'cic', 'tsc', 'pcs', 'lanczos2', 'lanczos3']))][0],
                vec=str(rng.choice(['uniform', 'axis', 'smooth', 'smooth', 'noisy', 'noisy', 'zeros', 'slab'])),
                norm=bool(rng.randint(3)), amp=float(rng.choice([1.0, 0.3, 2.0])), seed=int(rng.randint(2 ** 31 - 1)))


def vectors(spec, rng):
    m = spec['m']
    N, nd = m['N'], len(m['N'])
    if spec['vec'] == 'uniform':
        u = rng.normal(size=nd)
        V = [numpy.full(N, x) for x in u]
    elif spec['vec'] == 'axis':
        a = rng.randint(nd)
        V = [numpy.full(N, float(d == a) * rng.choice([-1.0, 1.0])) for d in range(nd)]
    elif spec['vec'] == 'smooth':
        X = numpy.meshgrid(*[numpy.arange(n) * 2 * numpy.pi / n for n in N], indexing='ij')
        V = [sum(rng.normal() * numpy.cos(x + rng.uniform(0, 6)) for x in X) + rng.normal() for d in range(nd)]
    else:
        V = [rng.normal(size=N) for d in range(nd)]
        if spec['vec'] == 'zeros':
            mask = rng.randint(0, 2, size=N) == 0
            for v in V:
                v[mask] = 0
        if spec['vec'] == 'slab':
            # one part of the mesh is at rest, lines from elsewhere enter it
            k = max(1, N[0] // 2)
            s = rng.randint(N[0])
            for v in V:
                v[(numpy.arange(k) + s) % N[0]] = 0
    return [(v * spec['amp']).astype(m['dtype']).astype('f8') for v in V]


MAP = dict(cic='linear', tsc='quadratic', pcs='cubic')


def read(kind, f, g):
    kind = MAP.get(kind, kind)
    W = [wl.weights(kind, None, None, g[:, d], f.shape[d], f.shape[d]) for d in range(f.ndim)]
    return wl.contract_read(W, f)


def model(spec, V, tex, kernel, kind, norm):
    m = spec['m']
    N = m['N']
    if norm:
        a = numpy.sqrt(sum(v ** 2 for v in V))
        a[a == 0] = 1.0
        V = [v / a for v in V]
    cell = numpy.array(m['box'], 'f8') / numpy.array(N)
    unit = cell.min() / cell          # one pixel, in cells of every axis
    q = numpy.array([i.ravel() for i in numpy.indices(N)]).T.astype('f8')
    out = tex.ravel().copy()
    half = spec['length'] * 0.5
    steps = 0
    for sign in (-1, 1):
        x = q.copy()
        s = 0.0
        while s < half:
            k = kernel(s * sign / half)
            h = numpy.array([read(kind, v, x) for v in V]).T * spec['ds'] * unit * sign * 0.5
            out += read(kind, tex, x + h) * k * spec['ds']
            x = x + 2 * h
            s += spec['ds']
            steps += 1
    return out.reshape(N), steps, V


def growth(spec, V):
    """how far apart neighbouring lines can move"""
    g = sum(max(numpy.abs(v - numpy.roll(v, 1, a)).max() for v in V) for a in range(V[0].ndim))
    n = int(spec['length'] * 0.5 / spec['ds']) + 1
    return (1 + 2 * g * spec['ds']) ** n


def call(spec, pm, V, tex, **kw):
    from pmesh.lic import lic
    seen = []
    K = kw.pop('kernel', KERNELS[spec['kernel']])

    def kernel(s):
        seen.append(float(s))
        return K(s)
    vf = [fl.field(pm, 'real', v) for v in V]
    tf = fl.field(pm, 'real', tex)
    a = dict(kernel=kernel, length=spec['length'], ds=spec['ds'], resampler=spec['window'], texture=tf, normalize=spec['norm'])
    if a['normalize'] and spec['m']['N'][0] % 2:
        del a['normalize']      # the default
    a.update(kw)
    r = lic(vf, **a)
    return r, vf, tf, seen


def tolerance(spec, V, tex, steps):
    m = spec['m']
    amp = max(1.0, max(numpy.abs(v).max() for v in V) * spec['ds'])
    return fl.EPS[m['dtype']] * 4 * (steps + 2) * min(growth(spec, V), 1e9) * amp * max(numpy.abs(tex).max(), 1e-30) * 2 * max(1.0, spec['ds'])


def run(ctx, spec):
    m = spec['m']
    pm = fl.make(m, ctx.comm)
    rng = numpy.random.RandomState(spec['seed'])
    V = vectors(spec, rng)
    tex = fl.gvalues(rng, m)
    kind = spec['window'] or m['resampler']
    r, vf, tf, seen = call(spec, pm, V, tex)
    from pmesh.pm import RealField
    ctx.check(isinstance(r, RealField) and r.pm is pm, 'type', lambda: 'the result is %r' % type(r))
    for d in range(len(V)):
        ctx.same(vf[d].value, V[d].astype(m['dtype'])[vf[d].slices], 'input', 'vector %d' % d)
    ctx.same(tf.value, tex.astype(m['dtype'])[tf.slices], 'input', 'texture')
    want, steps, VN = model(spec, V, tex, KERNELS[spec['kernel']], kind, spec['norm'])
    ctx.check(len(seen) == steps and all(-1 <= s <= 1 for s in seen), 'kernel-argument', lambda: '%d calls for %d steps: %r' % (len(seen), steps, seen[:10]))
    got = fl.whole(ctx, r)
    t = tolerance(spec, VN, tex, steps)
    scale = numpy.abs(tex).max()
    if t < 0.02 * scale:
        ctx.close(got, want, 'line-integral', '%s vectors, %s kernel, %s' % (spec['vec'], spec['kernel'], kind), rtol=0, atol=t)
        ctx.ev('lines', tex.size)
        ctx.ev('steps', tex.size * steps)
    if steps == 0:
        ctx.close(got, tex, 'zero-length', 'a line without steps', rtol=0, atol=fl.EPS[m['dtype']] * scale * 4)
        ctx.ev('zero_length')
    elif t < 0.02 * scale:
        ctx.sig(spec['vec'], spec['kernel'], kind, spec['norm'], len(m['N']), m['dtype'], ctx.size)


def run_laws(ctx, spec):
    m = spec['m']
    pm = fl.make(m, ctx.comm)
    rng = numpy.random.RandomState(spec['seed'])
    V = vectors(spec, rng)
    tex = fl.gvalues(rng, m)
    VN = model(dict(spec, length=0.0), V, tex, KERNELS['one'], 'cic', spec['norm'])[2]
    base = fl.whole(ctx, call(spec, pm, V, tex)[0])
    steps = 2 * int(spec['length'] * 0.5 / spec['ds'] + 2)
    t = tolerance(spec, VN, tex, steps) * 4
    if not t < 0.02 * numpy.abs(tex).max():
        return
    K = KERNELS[spec['kernel']]
    half = spec['length'] * 0.5
    ks = []
    s = 0.0
    while s < half:
        ks.extend([K(s / half), K(-s / half)])
        s += spec['ds']
    law = ['constant', 'linear', 'reverse', 'scale', 'kernel', 'default', 'rest', 'whole'][spec['law']]
    if law == 'constant':
        c = numpy.full(m['N'], 2.5)
        got = fl.whole(ctx, call(spec, pm, V, c)[0])
        kind = spec['window'] or m['resampler']
        # the lanczos windows do not sum to one exactly
        ctx.close(got, c * (1 + sum(ks) * spec['ds']), 'constant', 'a constant texture', rtol=0,
                  atol=tolerance(spec, VN, c, steps) * 4 + (0 if not kind.startswith('lanczos') else 0.2 * (sum(abs(k) for k in ks) * spec['ds']) * 2.5))
    elif law == 'linear':
        tex2 = fl.gvalues(rng, m)
        a = 1.5
        got2 = fl.whole(ctx, call(spec, pm, V, tex2)[0])
        mix = (a * tex + tex2).astype(m['dtype']).astype('f8')
        got = fl.whole(ctx, call(spec, pm, V, mix)[0])
        ctx.close(got, a * base + got2, 'linear', 'a sum of textures', rtol=0, atol=4 * t + 4 * tolerance(spec, VN, tex2, steps) * 2)
    elif law == 'reverse':
        got = fl.whole(ctx, call(spec, pm, [-v for v in V], tex, kernel=lambda s: K(-s))[0])
        ctx.close(got, base, 'reverse', 'reversed vectors with the mirrored kernel', rtol=0, atol=t)
    elif law == 'scale':
        f = float(rng.choice([2.0, 0.25, 1e4, 1e-3]))
        if spec['norm']:
            got = fl.whole(ctx, call(spec, pm, [(v * f).astype(m['dtype']).astype('f8') for v in V], tex)[0])
            ctx.close(got, base, 'rescale', 'normalised vectors times %g' % f, rtol=0, atol=4 * t)
        else:
            # half the vectors with twice the step and half the kernel
            got = fl.whole(ctx, call(spec, pm, [v * 0.5 for v in V], tex, ds=spec['ds'] * 2, length=spec['length'] * 2, kernel=lambda s: 0.5 * K(s))[0])
            ctx.close(got, base, 'rescale', 'slower vectors along longer lines', rtol=0, atol=4 * t)
    elif law == 'kernel':
        got = fl.whole(ctx, call(spec, pm, V, tex, kernel=lambda s: 0.0)[0])
        ctx.close(got, tex, 'kernel', 'a kernel of zero', rtol=0, atol=t)
        got = fl.whole(ctx, call(spec, pm, V, tex, kernel=lambda s: -2.0 * K(s))[0])
        ctx.close(got - tex, -2 * (base - tex), 'kernel', 'a kernel times -2', rtol=0, atol=6 * t)
    elif law == 'default':
        wn = fl.whole(ctx, pm.generate_whitenoise(seed=990919, type='real')).astype('f8')
        a = fl.whole(ctx, call(spec, pm, V, tex, texture=None)[0])
        b = fl.whole(ctx, call(spec, pm, V, wn)[0])
        ctx.close(a, b, 'default-texture', 'the default texture is white noise', rtol=0, atol=tolerance(spec, VN, wn, steps))
    elif law == 'rest':
        got = fl.whole(ctx, call(spec, pm, [v * 0 for v in V], tex)[0])
        kind = spec['window'] or m['resampler']
        if kind == 'cic':
            ctx.close(got, tex * (1 + sum(ks) * spec['ds']), 'at-rest', 'vectors of zero', rtol=0, atol=t)
    elif law == 'whole':
        # whole pixels along an axis
        a = int(rng.randint(len(m['N'])))
        sg = int(rng.choice([-1, 1]))
        V1 = [numpy.full(m['N'], float(sg) if d == a else 0.0) for d in range(len(m['N']))]
        cell = numpy.array(m['box']) / m['N']
        if abs(cell[a] / cell.min() - 1) < 1e-12 and (spec['window'] or m['resampler']) == 'cic':
            got = fl.whole(ctx, call(spec, pm, V1, tex, ds=2.0, length=4.0, kernel=K)[0])
            want = tex.copy()
            for sign in (-1, 1):
                # half the step of two pixels away
                want += 2.0 * K(0.0) * numpy.roll(tex, -sign * sg, axis=a)
            ctx.close(got, want, 'whole-pixels', 'shift of %d along axis %d' % (sg, a), rtol=0, atol=fl.EPS[m['dtype']] * 100 * numpy.abs(tex).max())
    ctx.ev('laws')
    if steps:
        ctx.sig('law', law, spec['vec'], spec['norm'], len(m['N']), ctx.size)


def gen_laws(rng, ctx):
    s = gen(rng, ctx)
    s['law'] = int(rng.randint(8))
    if s['law'] == 7:
        s['window'] = 'cic'
    return s


GROUPS = [Group('model', gen, run, quick=160, thorough=6000),
          Group('laws', gen_laws, run_laws, quick=120, thorough=4000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=220) for r in (1, 2, 3, 4, 5, 6, 8)]
