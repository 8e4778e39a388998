import numpy
from core import Group
import winlib

ID = 'C09'
RULE = ('for a random window and support the Fourier transform of the painted profile is measured by painting single particles at '
        'many sub-cell offsets and summing the deposits against cosines; it must equal get_fwindow and the compensation. A case is '
        'non-trivial when the response is below 0.99 for some frequency; distinct by (window, support, frequency range).')
ASSUMPTIONS = ['windows that offer a response: the nearest, linear, quadratic and cubic families; the others document 1',
               'quadrature over 64 sub-cell offsets']
FAM = winlib.SPLINES


def gen(rng, ctx):
    k = str(rng.choice(FAM))
    nat = winlib.native(k)
    s = rng.choice(['native', 'resized', 'multiple'])
    sup = nat if s == 'native' else int(nat + rng.randint(0, 7)) if s == 'resized' else int(nat * rng.randint(1, 6))
    return dict(kind=k, support=None if s == 'native' else sup, wmax=float(rng.choice([0.5, numpy.pi, 2 * numpy.pi, 12])),
                nw=int(rng.choice([1, 5, 24])), pseed=int(rng.randint(2 ** 31 - 1)))


def run(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    w = winlib.make_window(spec)
    nat = winlib.native(spec['kind'])
    sup = spec['support'] or nat
    freq = numpy.concatenate([[0.0], rng.uniform(-spec['wmax'], spec['wmax'], size=spec['nw'])])
    M = 64
    N = 2 * sup + 8
    u = (numpy.arange(M) + 0.5) / M
    tot = numpy.zeros(len(freq), dtype='c16')
    i = numpy.arange(N)
    for x in u:
        a = numpy.zeros(N)
        g = N // 2 + x
        w.paint(a, [[g]])
        tot += (a[None, :] * numpy.exp(-1j * freq[:, None] * (i - g)[None, :])).sum(axis=1)
    tot /= M
    T = w.get_fwindow(freq)
    # midpoint rule: second order in the offset spacing
    tol = 2e-5 + (spec['wmax'] + 2) ** 2 / M ** 2 / 4
    ctx.close(T, tot.real, 'response', 'measured transform of the window', rtol=0, atol=tol)
    ctx.close(tot.imag, 0 * tot.real, 'symmetry', rtol=0, atol=tol)
    # exact form
    p = nat
    x = freq * sup / nat / 2
    sinc = numpy.where(numpy.abs(x) < 1e-7, 1.0, numpy.sin(x) / numpy.where(x == 0, 1, x))
    ctx.close(T, sinc ** p, 'closed-form', 'sinc^%d' % p, rtol=0, atol=1e-9)
    ctx.check(abs(T[0] - 1) < 1e-14, 'unit', 'response at zero frequency is %r' % T[0])
    ctx.same(w.get_fwindow(-freq), T, 'even')
    base = winlib.make_window(dict(spec, support=None))
    ctx.close(base.get_fwindow(freq * sup / nat), T, 'scaling', rtol=1e-12)
    # shapes
    sh = freq.reshape(1, -1, 1)
    ctx.same(w.get_fwindow(sh), T.reshape(sh.shape), 'shape')
    ctx.same(w.get_fwindow(freq.astype('f4')), w.get_fwindow(freq.astype('f4').astype('f8')), 'float32')
    # the compensation divides by the product over axes
    w1 = freq.reshape(-1, 1)
    w2 = rng.uniform(-1, 1, size=(1, 3))
    v = rng.uniform(1, 2, size=(len(freq), 3)) + 1j
    keep = v.copy()
    with numpy.errstate(all='ignore'):
        c = w.get_compensation()([w1, w2], v)
        e = v / (w.get_fwindow(w1) * w.get_fwindow(w2))
    ok = numpy.abs(w.get_fwindow(w1)[:, 0]) > 1e-3
    ctx.close(c[ok], e[ok], 'compensation', rtol=1e-12)
    ctx.check((v == keep).all(), 'input-modified', 'compensation modifies its input')
    # any number of axes
    nd = int(rng.randint(1, 6))
    shp = [int(x) for x in rng.randint(1, 4, size=nd)]
    ws = [rng.uniform(-1, 1, size=[m if d == i else 1 for i in range(nd)]) for d, m in enumerate(shp)]
    v = rng.uniform(1, 2, size=shp) + 1j * rng.uniform(-1, 1, size=shp)
    e = v.copy()
    for x in ws:
        e /= w.get_fwindow(x)
    ctx.close(w.get_compensation()(ws, v), e, 'compensation', '%d axes' % nd, rtol=1e-12)
    ctx.close(w.get_compensation()(tuple(ws), v.astype('c8')), e, 'compensation', '%d axes, c8' % nd, rtol=1e-5)
    ctx.ev('frequencies', len(freq))
    if (T < 0.99).any():
        ctx.sig(spec['kind'], sup, spec['wmax'])


def gen_none(rng, ctx):
    return dict(kind=str(rng.choice(winlib.TABLES + winlib.WAVELETS)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_none(ctx, spec):
    rng = numpy.random.RandomState(spec['pseed'])
    w = winlib.make_window(spec)
    freq = rng.uniform(-4, 4, size=(3, 4))
    ctx.same(w.get_fwindow(freq), numpy.ones((3, 4)), 'no-response')
    v = rng.uniform(size=(3, 4)) + 1j
    ctx.same(w.get_compensation()([freq, freq], v), v, 'no-compensation')
    ctx.sig(spec['kind'])


GROUPS = [Group('response', gen, run, quick=250, thorough=6000), Group('none', gen_none, run_none, quick=32, thorough=200)]
TECHNIQUE = 'runtime monitoring: measured transform of painted particles against the offered response'


def jobs(tier):
    n, b = (3, 25) if tier == 'quick' else (4, 300)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
