import numpy
import fieldlib as fl
from core import Group

ID = 'C16'
TECHNIQUE = 'runtime monitoring: each collective reduction on random distributed fields compared with the sum over the expanded global mesh computed by numpy in double precision'
RULE = ('random distributed fields; sums, means, dot products and norms must be the sums over the gathered global mesh, Hermitian-expanded for compressed fields. '
        'Non-trivial when the mesh has more than one element; distinct by (mesh, precision, process mesh, storage).')
ASSUMPTIONS = ['rounding: 1e-12 (double) or 2e-5 (single) of the sum of absolute terms', 'the imaginary part of the dot product of two compressed fields is not specified beyond conjugate symmetry']


def gen(rng, ctx):
    if rng.randint(25) == 0:
        m = fl.gen_mesh(rng, ctx.size)
        m['N'] = [int(n) for n in rng.randint(32, 48, size=3)] if rng.randint(2) else [int(n) for n in rng.randint(180, 300, size=2)]
        m['box'] = (m['box'] * 3)[:len(m['N'])]
        m['np'] = None
    else:
        m = fl.gen_mesh(rng, ctx.size)
    return dict(m=m, type=str(rng.choice(fl.CTYPES)), pseed=int(rng.randint(2 ** 31 - 1)), offset=float(rng.choice([0, 0, 10.0])))


def scalar(ctx, v, want, absum, m, oracle, msg=''):
    fl.agree(ctx, v, 'ranks-agree', oracle)
    ctx.close(numpy.asarray(v), want, oracle, '%s %s' % (m, msg), rtol=0, atol=fl.tol(m, 5) * (absum + 1e-30))
    ctx.ev('reductions')


def run(ctx, s):
    m = s['m']
    N = numpy.prod(m['N'])
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    g = fl.gvalues(rng, m) + s['offset']
    h = fl.gvalues(rng, m)
    A = fl.field(pm, 'real', g)
    B = fl.field(pm, 'real', h)
    g = fl.whole(ctx, A).astype('c16' if m['dtype'][0] == 'c' else 'f8')
    big = numpy.abs(g).sum()
    scalar(ctx, A.csum(), g.sum(), big, m, 'csum')
    scalar(ctx, A.cmean(), g.mean(), big / N, m, 'cmean')
    wide = 'f8' if m['dtype'][0] == 'f' else 'c16'
    v = A.csum(dtype=wide)
    ctx.check(numpy.asarray(v).dtype == numpy.dtype(wide), 'csum-dtype', str(numpy.asarray(v).dtype))
    ctx.close(numpy.asarray(v), g.sum(), 'csum-wide', '', rtol=0, atol=1e-12 * big)
    ctx.close(numpy.asarray(A.cmean(dtype=wide)), g.mean(), 'cmean-wide', '', rtol=0, atol=1e-12 * big / N)
    d = (g * numpy.conj(h)).sum()
    da = numpy.abs(g * h).sum()
    scalar(ctx, A.cdot(B), d, da, m, 'real-cdot')
    scalar(ctx, B.cdot(A), numpy.conj(d), da, m, 'real-cdot-symmetric')
    scalar(ctx, A.cdot(numpy.array(B.value)), d, da, m, 'real-cdot-array')
    scalar(ctx, A.cnorm(), (numpy.abs(g) ** 2).sum(), (numpy.abs(g) ** 2).sum(), m, 'real-cnorm')
    # Fourier side
    a = A.cast(type=s['type'])
    b = B.cast(type=s['type'])
    keep = a.value.copy(), b.value.copy()
    Fa = fl.expand(fl.whole(ctx, a).astype('c16'), m)
    Fb = fl.expand(fl.whole(ctx, b).astype('c16'), m)
    prod = Fa * numpy.conj(Fb)
    pa = numpy.abs(prod).sum()
    cd = a.cdot(b)
    dc = b.cdot(a)
    ctx.close(numpy.asarray(a.cdot(numpy.array(b.value))), numpy.asarray(cd), 'cdot-array', '', rtol=0, atol=fl.tol(m, 5) * pa)
    full = m['dtype'][0] == 'c'
    scalar(ctx, numpy.real(cd), prod.sum().real, pa, m, 'complex-cdot', s['type'])
    fl.agree(ctx, cd, 'ranks-agree', 'cdot')
    if full:
        scalar(ctx, cd, prod.sum(), pa, m, 'complex-cdot-imag')
    ctx.close(numpy.asarray(cd), numpy.conj(dc), 'cdot-conjugate-symmetric', '', rtol=0, atol=fl.tol(m, 5) * pa)
    pn = (numpy.abs(Fa) ** 2).sum()
    scalar(ctx, a.cnorm(), pn, pn, m, 'complex-cnorm', s['type'])
    ctx.close(numpy.asarray(a.cdot(a)), pn, 'cdot-self-is-norm', '', rtol=0, atol=fl.tol(m, 5) * pn)
    # Parseval
    ctx.close(numpy.real(numpy.asarray(cd)) * N, numpy.real(numpy.asarray(A.cdot(B))), 'parseval', '', rtol=0, atol=fl.tol(m, 20) * (da + pa * N))
    # metric and norm
    k2 = numpy.zeros(m['N'])
    for dd, n in enumerate(m['N']):
        sh = [1] * len(m['N'])
        sh[dd] = n
        k2 = k2 + ((fl.freq(n) * 2 * numpy.pi / m['box'][dd]) ** 2).reshape(sh)
    kk = k2 ** 0.5
    kscale = kk.max() + 1e-300
    metric = lambda k: 1.0 / (1.0 + k / kscale)
    w = metric(kk)
    v = a.cnorm(metric=metric)
    scalar(ctx, numpy.real(v), (w * numpy.abs(Fa) ** 2).sum(), pn, m, 'cnorm-metric')
    scalar(ctx, numpy.real(a.cdot(b, metric=metric)), (w * prod).sum().real, pa, m, 'cdot-metric')
    v = a.cnorm(norm=lambda x: numpy.abs(x))
    scalar(ctx, numpy.real(v), numpy.abs(Fa).sum(), numpy.abs(Fa).sum(), m, 'cnorm-norm')
    v = a.cnorm(metric=metric, norm=lambda x: numpy.abs(x))
    scalar(ctx, numpy.real(v), (w * numpy.abs(Fa)).sum(), numpy.abs(Fa).sum(), m, 'cnorm-metric-norm')
    ctx.same(numpy.array(a.value), keep[0], 'operand-kept')
    ctx.same(numpy.array(b.value), keep[1], 'operand-kept')
    # an arbitrary (not Hermitian on the self-conjugate planes) content still counts stored modes by multiplicity
    c = fl.cN(m, 'c')
    r = rng.normal(size=c) + 1j * rng.normal(size=c)
    x = fl.field(pm, s['type'], r)
    r = fl.whole(ctx, x).astype('c16')
    mult = numpy.ones(c)
    if not full:
        iz = numpy.arange(c[-1])
        mult = mult * numpy.where((m['N'][-1] - iz) % m['N'][-1] == iz, 1, 2)
    tot = (mult * numpy.abs(r) ** 2).sum()
    scalar(ctx, x.cnorm(), tot, tot, m, 'multiplicity')
    if N > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), s['type'])


GROUPS = [Group('reduce', gen, run, quick=150, thorough=7000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
