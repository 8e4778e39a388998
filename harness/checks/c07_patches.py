import numpy
from core import Group
import winlib

ID = 'C07'
RULE = ('a periodic mesh is cut into a random partition of boxes (some empty, some one cell wide, some narrower than the window), '
        'the same particles are painted on and read from each box with its own translation and the global period; the boxes must '
        'be the slices of the whole, with and without ghost margins. A case is non-trivial when some box is not the whole mesh and '
        'receives mass; distinct by (window, dimensions, number of boxes, gradient, ghost margins).')
ASSUMPTIONS = ['comparison within rounding', 'mesh coordinates of magnitude below 1e5']


def gen(rng, ctx):
    s = winlib.gen_case(rng)
    nd = len(s['shape'])
    s['n'] = max(1, s['n'])
    s['period'] = list(s['shape'])
    s['translate'] = [float(rng.choice([0.0, 0.5, rng.uniform(-3, 3)]))] * nd
    s['cuts'] = [sorted(int(x) for x in rng.randint(0, s['shape'][d] + 1, size=rng.randint(0, 4))) for d in range(nd)]
    s['diffdir'] = None if rng.randint(2) else int(rng.randint(nd))
    s['ghost'] = bool(rng.randint(2))
    s['dtype'] = str(rng.choice(['f8', 'f8', 'f4']))
    return s


def run(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    nd = len(spec['shape'])
    dd = spec['diffdir']
    pos = winlib.gen_pos(rng, spec, kink=dd is None)
    # split differently in floor(g + translate) only by rounding: keep kinks for exact transforms
    if spec['kind'] in winlib.WAVELETS + winlib.TABLES + ['nearest', 'tunednnb'] or dd is not None:
        pos = pos + 1e-3 * rng.uniform(size=pos.shape) / numpy.array(spec['scale'])
    n = len(pos)
    hsml = winlib.gen_hsml(rng, spec)
    mass = rng.uniform(0.1, 2, size=n)
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    whole = numpy.zeros(spec['shape'], dtype=spec['dtype'])
    w.paint(whole, pos, mass=mass, hsml=hsml, transform=t, diffdir=dd)
    f = rng.uniform(-1, 1, size=spec['shape']).astype(spec['dtype'])
    vwhole = w.readout(f, pos, hsml=hsml, transform=t, diffdir=dd)
    v1 = max(1.0, 1.0 / numpy.min(hsml)) if hsml is not None else 1.0
    unit = v1 ** (nd + 1) * (1 + max(abs(x) for x in spec['scale']))
    S = (spec['support'] or winlib.native(spec['kind'])) * (1.0 if hsml is None else numpy.max(hsml))
    ndep = numpy.prod([2 + S / p for p in spec['period']])
    eps = 1e-10 if spec['dtype'] == 'f8' else 1e-6
    if spec['kind'] not in winlib.SPLINES and dd is not None:
        eps = max(eps, 1e-7)
    tol = eps * (abs(whole).max() + unit * n * ndep)
    edges = [[0] + c + [spec['shape'][d]] for d, c in enumerate(spec['cuts'])]
    boxes = [[]]
    for e in edges:
        boxes = [b + [(lo, hi)] for b in boxes for lo, hi in zip(e[:-1], e[1:])]
    if len(boxes) > 60:
        boxes = boxes[:60] + []
    total = numpy.zeros(n)
    cover = 0
    nz = False
    for b in boxes:
        g = [0] * nd
        size = [hi - lo for lo, hi in b]
        start = numpy.array([lo for lo, hi in b], 'f8')
        if 0 in size:
            a = numpy.zeros(size, dtype=spec['dtype'])
            w.paint(a, pos, mass=mass, hsml=hsml, transform=t.shift(-start), diffdir=dd)
            v = w.readout(a, pos, hsml=hsml, transform=t.shift(-start), diffdir=dd)
            ctx.check((v == 0).all(), 'empty-patch', 'reading an empty patch gives values')
            ctx.ev('empty_patches')
            continue
        a = numpy.zeros(size, dtype=spec['dtype'])
        sl = tuple(slice(lo, hi) for lo, hi in b)
        tt = t.shift(-start)
        w.paint(a, pos, mass=mass, hsml=hsml, transform=tt, diffdir=dd)
        ctx.close(a.astype('f8'), whole[sl].astype('f8'), 'patch', 'box %r' % (b,), rtol=0, atol=tol)
        nz = nz or (a.any() and len(boxes) > 1)
        total += w.readout(numpy.ascontiguousarray(f[sl]), pos, hsml=hsml, transform=tt, diffdir=dd)
        cover += a.size
        ctx.ev('patches')
        if spec['ghost']:
            # the same box with a margin of cells of its neighbours (as far as the period allows)
            m = [min(2, spec['shape'][d] - size[d]) for d in range(nd)]
            a = numpy.zeros([s + x for s, x in zip(size, m)], dtype=spec['dtype'])
            w.paint(a, pos, mass=mass, hsml=hsml, transform=tt, diffdir=dd)
            big = numpy.take(whole, numpy.arange(b[0][0], b[0][0] + a.shape[0]) % spec['shape'][0], axis=0)
            for d in range(1, nd):
                big = numpy.take(big, numpy.arange(b[d][0], b[d][0] + a.shape[d]) % spec['shape'][d], axis=d)
            ctx.close(a.astype('f8'), big.astype('f8'), 'patch-with-margin', 'box %r' % (b,), rtol=0, atol=tol)
    if cover == whole.size:
        ctx.close(total, vwhole, 'readout-sum', rtol=0, atol=eps * (abs(vwhole).max() + unit * ndep))
        ctx.ev('readout_sums')
    if nz:
        ctx.sig(spec['kind'], nd, len(boxes), dd is not None, spec['ghost'], spec['hsml'])


def gen_np(rng, ctx):
    """non-periodic patches: deposits beyond the mesh disappear"""
    s = winlib.gen_case(rng)
    s['period'] = [0] * len(s['shape'])
    s['n'] = max(1, s['n'])
    s['margin'] = int(rng.randint(1, 6))
    return s


def run_np(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    nd = len(spec['shape'])
    pos = winlib.gen_pos(rng, spec, kink=False)
    hsml = winlib.gen_hsml(rng, spec)
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    m = spec['margin']
    a = numpy.zeros(spec['shape'])
    b = numpy.zeros([s + 2 * m for s in spec['shape']])
    w.paint(a, pos, hsml=hsml, transform=t)
    w.paint(b, pos, hsml=hsml, transform=t.shift(m))
    v1 = max(1.0, 1.0 / numpy.min(hsml)) if hsml is not None else 1.0
    tol = 1e-10 * (abs(b).max() + v1 ** nd * len(pos))
    ctx.close(a, b[tuple(slice(m, -m) for _ in range(nd))], 'clipped', rtol=0, atol=tol)
    if abs(b).sum() > abs(a).sum() * (1 + 1e-9):
        ctx.sig('clip', spec['kind'], nd, m)


GROUPS = [Group('partition', gen, run, quick=3000, thorough=80000), Group('clip', gen_np, run_np, quick=1500, thorough=30000)]
TECHNIQUE = 'runtime monitoring: composition monitor (patches against the whole mesh)'


def jobs(tier):
    n, b = (3, 25) if tier == 'quick' else (7, 500)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
