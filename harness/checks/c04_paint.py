import numpy
from core import Group
import winlib

ID = 'C04'
RULE = ('random window, support, scaled supports, mesh (1 to 4 dimensions), period, transform, masses and positions (inside, '
        'outside, on cells, on half cells); the painted mesh is compared with a brute-force separable sum over cells and '
        'images; everything around the mesh is a canary. A case is non-trivial when at least one deposit is expected; distinct '
        'by (window, dimensions, period kind, scaled or not, precision).')
ASSUMPTIONS = ['mesh coordinates of magnitude below 1e5 (the kernel keeps cells in 32-bit integers and wraps by repeated subtraction)',
               'wavelet windows: shape compared with tables recorded from the pinned tree; supports scaled to whole cells only',
               'Lanczos and ACG windows: the 8192-entry table of the published formula',
               'comparison within rounding: 1e-11 of the largest deposit for float64 meshes, accumulated rounding for float32']


def gen(rng, ctx):
    s = winlib.far_away(rng, winlib.gen_case(rng))
    s['dtype'] = str(rng.choice(['f8', 'f8', 'f4']))
    s['mass'] = str(rng.choice(['none', 'scalar', 'array', 'array']))
    s['layout'] = str(rng.choice(['C', 'F', 'pad', 'step', 'neg', 'complex', 'T']))
    s['ptype'] = str(rng.choice(['f8', 'f8', 'f4']))
    return s


def canvas(rng, shape, dtype, layout):
    """a mesh with the wanted memory layout, the buffer it lives in, and a mask of the
    buffer that belongs to the mesh"""
    dtype = numpy.dtype(dtype)
    nd = len(shape)
    if layout == 'complex':
        full = [n + 4 for n in shape]
        c = numpy.zeros(full, dtype='c16' if dtype.itemsize == 8 else 'c8')
        base = c.view(dtype).reshape(full + [2])
        sl = tuple(slice(2, 2 + n) for n in shape)
        mesh = c[sl]
        own = numpy.zeros(base.shape, bool)
        own[sl + (0,)] = True
    else:
        step = 2 if layout in ('step', 'neg') else 1
        full = [n * step + 6 for n in shape]
        if layout == 'T':
            perm = list(rng.permutation(nd))
        else:
            perm = list(range(nd))
        base = numpy.zeros([full[p] for p in perm], dtype=dtype, order='F' if layout == 'F' else 'C')
        inv = list(numpy.argsort(perm))
        v = base.transpose(inv)
        own = numpy.zeros(base.shape, bool)
        ownv = own.transpose(inv)
        if layout == 'C':
            base = numpy.zeros(shape, dtype=dtype)
            return base, base, numpy.ones(shape, bool)
        if layout == 'neg':
            sl = tuple(slice(3 + (n - 1) * step, 3 - step if 3 - step >= 0 else None, -step) for n in shape)
        else:
            sl = tuple(slice(3, 3 + n * step, step) for n in shape)
        mesh = v[sl]
        ownv[sl] = True
    base[...] = rng.uniform(-5, 5, size=base.shape)
    return mesh, base, own


def run(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    pos = winlib.gen_pos(rng, spec)
    hsml = winlib.gen_hsml(rng, spec)
    if spec['ptype'] == 'f4':
        pos = pos.astype('f4')
        if spec['hsml'] == 'array':
            hsml = hsml.astype('f4')
    n = len(pos)
    mass = dict(none=None, scalar=float(rng.uniform(-2, 3)), array=rng.uniform(-1, 4, size=n))[spec['mass']]
    if spec['mass'] == 'array' and spec['ptype'] == 'f4':
        mass = mass.astype('f4')
    m = numpy.ones(n) if mass is None else numpy.zeros(n) + mass
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    mesh, base, own = canvas(rng, spec['shape'], spec['dtype'], spec['layout'])
    ctx.check(list(mesh.shape) == list(spec['shape']), 'harness', 'canvas shape')
    before = base.copy()
    start = numpy.array(mesh.real, dtype='f8')
    # the base values are small whole numbers of the mesh precision
    w.paint(mesh, pos, hsml=hsml, mass=mass, transform=t)
    Ws = winlib.model(spec, pos, hsml)
    expect = winlib.contract_paint(Ws, m)
    hit = winlib.touched(Ws)
    amp = winlib.contract_paint([abs(x) for x in Ws], abs(m)).max() if n else 0.0
    got = numpy.array(mesh.real, dtype='f8')
    S = (spec['support'] or winlib.native(spec['kind'])) * (1.0 if hsml is None else numpy.max(hsml) if n else 1.0)
    ndep = n * numpy.prod([2 + S / (P or 1e9) for P in spec['period']])     # deposits on one cell, at most
    tol = (1.2e-7 if spec['dtype'] == 'f4' else 1e-15) * (amp + 5) * (10 + ndep) + 1e-11 * amp
    ctx.close(got - start, expect, 'deposit', 'window %s' % spec['kind'], rtol=0, atol=tol)
    # cells the window does not reach keep their value (but for rounding at its very edge)
    ctx.check((abs(got[~hit] - start[~hit]) <= 1e-14 * (1 + amp)).all(), 'untouched-cell',
              lambda: '%d cells outside the window changed by up to %g' % (
                  (got[~hit] != start[~hit]).sum(), abs(got[~hit] - start[~hit]).max()))
    ctx.check((base[~own] == before[~own]).all(), 'outside-mesh', 'memory around the mesh changed')
    ctx.ev('deposits_expected', hit.sum())
    ctx.ev('particles', n)
    if hit.any():
        ctx.sig(spec['kind'], len(spec['shape']), [p == 0 for p in spec['period']], spec['hsml'],
                spec['support'] is not None, spec['dtype'], spec['layout'])


# --- what follows from it: additivity, order, mass conservation
def gen_inv(rng, ctx):
    s = winlib.gen_case(rng, kinds=winlib.SPLINES * 2 + winlib.TABLES)
    s['period'] = list(s['shape'])
    s['translate'] = [float(rng.uniform(-2, 2)) for _ in s['shape']]
    s['hsml'] = 'none'
    s['support'] = None if rng.randint(2) else winlib.native(s['kind']) * int(rng.randint(1, 3))
    s['n'] = int(rng.choice([1, 7, 40]))
    s['diffdir'] = None
    return s


def run_inv(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    pos = winlib.gen_pos(rng, spec)
    n = len(pos)
    mass = rng.uniform(0.1, 3, size=n)
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)

    def paint(p, m):
        a = numpy.zeros(spec['shape'])
        w.paint(a, p, mass=m, transform=t)
        return a
    whole = paint(pos, mass)
    amp = abs(whole).max()
    perm = rng.permutation(n)
    ctx.close(paint(pos[perm], mass[perm]), whole, 'order', atol=1e-12 * mass.sum(), rtol=1e-12)
    k = rng.randint(0, n + 1)
    ctx.close(paint(pos[:k], mass[:k]) + paint(pos[k:], mass[k:]), whole, 'additive', atol=1e-12 * mass.sum(), rtol=1e-12)
    ctx.close(paint(pos, 2 * mass), 2 * whole, 'linear-in-mass', atol=1e-12 * mass.sum(), rtol=1e-12)
    if spec['kind'] in winlib.SPLINES:
        ctx.close(whole.sum(), mass.sum(), 'mass', rtol=1e-10)
        ctx.check((whole >= -1e-12 * amp).all(), 'positive', 'B-spline deposits are never negative')
        # first moment: the centre of mass of the deposits of one particle is the particle
        if winlib.native(spec['kind']) > 1 and all(x >= 2 * (spec['support'] or winlib.native(spec['kind'])) + 2 for x in spec['shape']):
            g = pos[0] * spec['scale'] + spec['translate']
            a = paint(pos[:1], 1.0)
            for d in range(a.ndim):
                i = numpy.arange(a.shape[d])
                prof = a.sum(axis=tuple(x for x in range(a.ndim) if x != d))
                off = (i - g[d] + a.shape[d] / 2.0) % a.shape[d] - a.shape[d] / 2.0
                ctx.close((prof * off).sum(), 0.0, 'centre-of-mass', atol=1e-9 * a.shape[d])
                ctx.ev('centres')
    ctx.sig(spec['kind'], len(spec['shape']), spec['support'] is not None)


GROUPS = [Group('model', gen, run, quick=6000, thorough=150000),
          Group('consequences', gen_inv, run_inv, quick=1500, thorough=30000)]
TECHNIQUE = 'runtime monitoring: differential oracle (brute-force separable deposit) with canaries around the mesh'


def jobs(tier):
    n, b = (3, 25) if tier == 'quick' else (7, 500)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
