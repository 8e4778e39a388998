import numpy
from core import Group
import winlib
from checks.c04_paint import canvas

ID = 'C05'
RULE = ('random window, mesh, period, transform, scaled supports and positions, with and without a gradient direction; values '
        'read out are compared with the brute-force window-weighted sum, inner products are compared between paint and '
        'readout, and gradients are compared with the analytic derivative and with finite differences of the value. A case is '
        'non-trivial when some particle reads a mesh cell; distinct by (window, dimensions, gradient direction, period kind, scaled).')
ASSUMPTIONS = ['gradients are compared away from the kinks of a window (whole-cell offsets for CIC, table edges for tabulated windows)',
               'table windows: the derivative is the slope of the table, as documented by make*.py',
               'mesh coordinates of magnitude below 1e5']


def gen(rng, ctx):
    s = winlib.far_away(rng, winlib.gen_case(rng))
    s['dtype'] = str(rng.choice(['f8', 'f8', 'f4']))
    s['layout'] = str(rng.choice(['C', 'F', 'pad', 'step', 'neg', 'complex', 'T']))
    s['diffdir'] = None if rng.randint(2) else int(rng.randint(len(s['shape'])))
    s['n'] = max(1, s['n'])
    return s


def run(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    dd = spec['diffdir']
    pos = winlib.gen_pos(rng, spec, kink=dd is None)
    hsml = winlib.gen_hsml(rng, spec)
    n = len(pos)
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    mesh, base, own = canvas(rng, spec['shape'], spec['dtype'], spec['layout'])
    before = base.copy()
    v = w.readout(mesh, pos, hsml=hsml, transform=t, diffdir=dd)
    ctx.check((base == before).all(), 'mesh-modified', 'readout changed the mesh')
    Ws = winlib.model(spec, pos, hsml, dd)
    f = numpy.array(mesh.real, 'f8')
    expect = winlib.contract_read(Ws, f)
    amp = winlib.contract_read([abs(x) for x in Ws], abs(f)).max()
    # images that cancel on a short axis leave rounding behind
    v1 = max(1.0, 1.0 / numpy.min(hsml)) if hsml is not None else 1.0
    amp += 1e-2 * abs(f).max() * v1 ** (f.ndim + 1) * (1 + max(abs(x) for x in spec['scale']))
    # a gradient of a tabulated window is a step function: allow a position to fall on the other side of a step
    ctx.close(v, expect, 'value' if dd is None else 'gradient', 'window %s' % spec['kind'], rtol=0, atol=2e-11 * amp)
    ctx.ev('values', n)
    # adjoint: <paint(m), f> = <m, readout(f)>
    m = rng.uniform(-1, 2, size=n)
    a = numpy.zeros(spec['shape'])
    w.paint(a, pos, hsml=hsml, mass=m, transform=t, diffdir=dd)
    ctx.close((a * f).sum(), (m * v).sum(), 'adjoint', atol=1e-11 * amp * abs(m).sum(), rtol=0)
    if winlib.touched(Ws).any():
        ctx.sig(spec['kind'], len(spec['shape']), dd, [p == 0 for p in spec['period']], spec['hsml'],
                spec['support'] is not None, spec['layout'])


def gen_fd(rng, ctx):
    s = winlib.gen_case(rng, kinds=['linear', 'tunedcic', 'quadratic', 'tunedtsc', 'cubic', 'tunedpcs', 'tunedpcs', 'tunedtsc'])
    s['n'] = int(rng.choice([1, 5, 20]))
    return s


def run_fd(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    pos = winlib.gen_pos(rng, spec, kink=False)
    hsml = winlib.gen_hsml(rng, spec)
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    f = rng.uniform(-1, 1, size=spec['shape'])
    v0 = w.readout(f, pos, hsml=hsml, transform=t)
    for d in range(len(spec['shape'])):
        g = w.readout(f, pos, hsml=hsml, transform=t, diffdir=d)
        sc = abs(spec['scale'][d])
        h = 1e-5 / sc
        dp = numpy.zeros(len(spec['shape']))
        dp[d] = h
        vp = w.readout(f, pos + dp, hsml=hsml, transform=t)
        vm = w.readout(f, pos - dp, hsml=hsml, transform=t)
        right = (vp - v0) / h
        left = (v0 - vm) / h
        fd = (vp - vm) / (2 * h)
        # close to a kink the one-sided slopes differ; there the gradient must lie between them
        tol = numpy.abs(right - left) + 1e-4 * sc * (1 + 5 * (hsml is not None))
        bad = numpy.abs(g - fd) > tol
        ctx.ev('finite_differences', len(pos))
        ctx.check(not bad.any(), 'finite-difference', lambda: 'axis %d: gradient %r, slope of the value %r (scale %g)' % (
            d, g[bad][:3], fd[bad][:3], spec['scale'][d]))
    if (v0 != 0).any():
        ctx.sig('fd', spec['kind'], len(spec['shape']), spec['hsml'], spec['support'] is not None)


GROUPS = [Group('model', gen, run, quick=6000, thorough=150000),
          Group('finite-difference', gen_fd, run_fd, quick=1500, thorough=30000)]
TECHNIQUE = 'runtime monitoring: differential oracle (brute-force window sums), adjointness and finite-difference monitors'


def jobs(tier):
    n, b = (3, 25) if tier == 'quick' else (7, 500)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
