import numpy
from core import Group
from checks.c10_noise_partition import gen_mesh, whole

ID = 'C11'
RULE = ('random meshes and seeds: symmetry, self-conjugate modes, mean, unitarity and nesting are checked mode by mode; the power, '
        'its distribution and the independence of modes are estimated over many seeds with thresholds of at least six standard '
        'deviations. A case is non-trivial when the mesh has modes besides the self-conjugate ones; distinct by (mesh, unitary, seed parity).')
ASSUMPTIONS = ['nesting and zero mean are promised in three dimensions only (the code documents the 1d and 2d noise as not scale invariant)',
               'nesting excludes the Nyquist planes of the coarser mesh',
               'statistics: a correct generator fails a six-sigma test with negligible probability']


def conj_of(a):
    for d in range(a.ndim):
        a = numpy.roll(numpy.flip(a, d), 1, d)
    return a.conj()


def selfconj(N):
    m = numpy.ones(N, bool)
    for d, n in enumerate(N):
        i = numpy.arange(n)
        ok = (2 * i) % n == 0
        m &= ok.reshape([-1 if x == d else 1 for x in range(len(N))])
    return m


def gen(rng, ctx):
    return dict(N=gen_mesh(rng), seed=int(rng.randint(2 ** 31 - 1)), unitary=bool(rng.randint(2)), mult=[int(x) for x in rng.randint(1, 4, size=3)],
                add=[int(x) for x in rng.randint(0, 4, size=3)])


def run(ctx, spec):
    N, seed, un = spec['N'], spec['seed'], spec['unitary']
    a = whole(N, seed, un)
    nd = a.ndim
    ctx.ev('modes', a.size)
    ctx.close(a, conj_of(a), 'hermitian', rtol=0, atol=1e-12 if nd == 3 else 1e-9)
    sc = selfconj(N)
    ctx.close(a[sc].imag, 0 * a[sc].imag, 'self-conjugate', rtol=0, atol=0 if nd == 3 else 1e-9)
    r = numpy.fft.ifftn(a)
    ctx.check(abs(r.imag).max() <= 1e-12 * abs(r.real).max() + 1e-13, 'real', 'the inverse transform is not real')
    if un:
        m = numpy.ones(a.shape, bool)
        if nd == 3:
            m[0, 0, 0] = False
        ctx.close(abs(a[m]), numpy.ones(m.sum()), 'unitary', rtol=1e-12)
    if nd == 3:
        ctx.check(a[0, 0, 0] == 0, 'mean', lambda: 'the zero mode is %r' % a[0, 0, 0])
        # no two independent modes are equal
        if not un:
            free = a[~sc]
            u = numpy.unique(numpy.round(free, 10))
            ctx.check(len(u) >= len(free) - 2, 'distinct', lambda: '%d of %d modes repeat another' % (len(free) - len(u), len(free)))
        # finer meshes
        M = [n * k + x for n, k, x in zip(N, spec['mult'], spec['add'])]
        M = [min(m, 24) if m > n else n for m, n in zip(M, N)]
        M = [max(m, n) for m, n in zip(M, N)]
        b = whole(M, seed, un)
        idx = []
        for n, m in zip(N, M):
            f = [i for i in range(-((n - 1) // 2), (n - 1) // 2 + 1)]
            idx.append(f)
        g = numpy.ix_(*idx)
        ctx.same(b[g], a[g], 'nested', 'meshes %r and %r' % (N, M))
        if M != N:
            ctx.ev('refined')
    if (~sc).any():
        ctx.sig(N, un, seed % 2)


def gen_stat(rng, ctx):
    nd = int(rng.choice([1, 2, 3, 3, 3]))
    cap = {1: 16, 2: 8, 3: 6}[nd]
    return dict(N=[int(rng.randint(2, cap + 1)) for _ in range(nd)], seed=int(rng.randint(2 ** 20)), K=400)


def run_stat(ctx, spec):
    N, K = spec['N'], spec['K']
    A = numpy.array([whole(N, spec['seed'] + 7 * i, False) for i in range(K)])
    sc = selfconj(N)
    nd = len(N)
    P = (abs(A) ** 2)
    dc = (0,) * nd
    use = numpy.ones(N, bool)
    if nd == 3:
        use[dc] = False
    # each mode has unit power: exponential for the complex ones, chi-square for the real ones
    sig = numpy.where(sc, numpy.sqrt(2.0 / K), numpy.sqrt(1.0 / K))
    dev = (P.mean(axis=0) - 1) / sig
    # the tails of the average of K exponentials are heavier than normal above the mean
    ctx.check((abs(dev[use]) < 7.5).all(), 'mode-power', lambda: 'mode %r has power %g over %d seeds' % (
        tuple(int(x[0]) for x in numpy.nonzero((abs(dev) >= 7.5) & use)), P.mean(axis=0)[(abs(dev) >= 7.5) & use][0], K))
    ctx.ev('mode_estimates', use.sum())
    z = A[:, ~sc]
    if z.shape[1]:
        n = z.size / 2.0     # half of the modes are conjugates of the other half
        ctx.check(abs((abs(z) ** 2).mean() - 1) < 7 / n ** 0.5, 'power', lambda: 'mean power %g' % (abs(z) ** 2).mean())
        ctx.check(abs((abs(z) ** 4).mean() - 2) < 7 * (20 / n) ** 0.5, 'fourth-moment', lambda: 'fourth moment %g' % (abs(z) ** 4).mean())
        ctx.check(abs((z ** 2).mean()) < 7 / n ** 0.5 * 1.5, 'phase', lambda: 'mean square %r' % (z ** 2).mean())
        # correlations between different modes
        keep = numpy.nonzero((~sc).ravel())[0]
        zz = A.reshape(K, -1)
        idx = numpy.indices(N).reshape(nd, -1)
        con = numpy.ravel_multi_index([(-i) % m for i, m in zip(idx, N)], N)
        rep = keep[keep < con[keep]]       # one of each conjugate pair
        if len(rep) > 1:
            Z = zz[:, rep]
            C = abs(Z.conj().T @ Z) / K
            C2 = abs(Z.T @ Z) / K
            numpy.fill_diagonal(C, 0)
            numpy.fill_diagonal(C2, 0)
            w = max(C.max(), C2.max())
            ctx.check(w < 7.5 / K ** 0.5, 'independence', lambda: 'two modes have correlation %g over %d seeds' % (w, K))
            ctx.ev('mode_pairs', len(rep) ** 2)
        ctx.sig('stat', N)


def gen_large(rng, ctx):
    nd = int(rng.choice([1, 2, 3, 3, 3]))
    cap = {1: (20000, 60000), 2: (150, 260), 3: (30, 52)}[nd]
    return dict(N=[int(rng.randint(*cap)) for _ in range(nd)], seed=int(rng.randint(2 ** 31 - 1)))


def chisquare(ctx, what, u, edges):
    """u is to be uniform in 0..1; the statistic as a normal deviate (Wilson and Hilferty)"""
    h = numpy.histogram(u, edges)[0]
    e = numpy.diff(edges) * len(u)
    k = len(h) - 1
    x = ((h - e) ** 2 / e).sum()
    z = ((x / k) ** (1. / 3) - (1 - 2. / (9 * k))) / (2. / (9 * k)) ** 0.5
    w = int(numpy.argmax(abs(h - e) / e ** 0.5))
    # each tail for itself: Chernoff's bound on the probability of such a count is exp(-25)
    for lab, t in (('small', u), ('large', 1 - u)):
        for i in range(1, 16):
            x, y = float((t < 2.0 ** -i).sum()), len(u) * 2.0 ** -i
            ctx.check((x * numpy.log(x / y) if x else 0.0) - x + y < 25, 'tail', lambda: '%s of %d modes: %g are as %s as 2^-%d, expected %g' % (what, len(u), x, lab, i, y))
    ctx.ev('tail_bins', k)
    ctx.check(abs(z) < 7.5, 'distribution', lambda: '%s of %d modes: chi square %g for %d degrees of freedom; %d of %g expected in %g..%g' % (
        what, len(u), x, k, h[w], e[w], edges[w], edges[w + 1]))


def run_large(ctx, spec):
    """the distribution within one mesh, with its tails"""
    N = spec['N']
    nd = len(N)
    a = whole(N, spec['seed'], False)
    idx = numpy.indices(N).reshape(nd, -1)
    con = numpy.ravel_multi_index([(-i) % m for i, m in zip(idx, N)], N)
    me = numpy.arange(a.size)
    z = a.ravel()[me[me < con]]
    n = len(z)
    # unit Gaussian modes: exp(-|z|^2) and the phase are uniform
    tail = [2.0 ** -i for i in range(6, 40) if n * 2.0 ** -i / 2 > 25]
    edges = numpy.unique(numpy.concatenate([numpy.arange(0, 65) / 64.0, tail, 1 - numpy.array(tail)]))
    chisquare(ctx, 'amplitude', numpy.exp(-abs(z) ** 2), edges)
    chisquare(ctx, 'phase', numpy.angle(z) / (2 * numpy.pi) % 1.0, edges)
    u = numpy.stack([z.real, z.imag]) * 2 ** 0.5
    for lab, v in (('real', u[0]), ('imaginary', u[1]), ('product', u[0] * u[1])):
        ctx.check(abs(v.mean()) * n ** 0.5 < 7.5, 'moment', lambda: 'mean of %s part is %g over %d modes' % (lab, v.mean(), n))
    # neighbours
    for d in range(nd):
        for lag in (1, 2, 3):
            b = numpy.roll(a, lag, d)
            for lab, x in (('', b.conj()), (' conjugated', b)):
                c = (a * x).mean()
                ctx.check(abs(c) * (a.size / 2.0) ** 0.5 < 8, 'neighbours', lambda: 'correlation %r at distance %d%s along axis %d' % (c, lag, lab, d))
    if nd == 3:
        # other seeds, mode by mode
        for other in (spec['seed'] ^ 1, spec['seed'] + 1, spec['seed'] ^ (1 << 20)):
            b = whole(N, other, False)
            c = (a * b.conj()).mean()
            ctx.check(abs(c) * (a.size / 2.0) ** 0.5 < 8, 'seeds', lambda: 'seeds %d and %d have correlation %r' % (spec['seed'], other, c))
    ctx.ev('large_modes', n)
    ctx.sig('large', N)


GROUPS = [Group('large', gen_large, run_large, quick=15, thorough=400), Group('modes', gen, run, quick=1200, thorough=40000), Group('statistics', gen_stat, run_stat, quick=60, thorough=1500)]
TECHNIQUE = 'runtime monitoring: mode-by-mode symmetry and nesting monitors, six-sigma statistical monitors over seeds'


def jobs(tier):
    n, b = (3, 30) if tier == 'quick' else (7, 400)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
