import numpy
from core import Group
import domlib

ID = 'C01'
RULE = ('random domain grids (ndim 1-5, uniform/irregular/zero-width domains, periodic or not, more or fewer domains '
        'than ranks, default/permuted/random assignment), smoothing 0 to 2.5 boxes, positions on edges, near edges, '
        'negative, several boxes away; every rank exchanges particle ids and the union of what all ranks received is '
        'compared with a brute-force interval-overlap model. A case is non-trivial when at least one particle had to '
        'be delivered to another rank or to several; distinct by (ranks, shape, periodic, assignment kind, smoothing '
        'regime, dtype, has zero-width).')
ASSUMPTIONS = ['positions within rounding of a smoothing-interval end may go either way',
               'positions are finite']


def gen(rng, ctx):
    grid = domlib.gen_grid(rng, ctx.size)
    reg = str(rng.choice(['zero', 'small', 'small', 'peraxis', 'large', 'huge']))
    L = numpy.array([e[-1] - e[0] for e in grid['edges']])
    if reg == 'zero':
        s = 0.0
    elif reg == 'small':
        s = float(L.min() * rng.uniform(0.001, 0.3))
    elif reg == 'peraxis':
        s = [float(x) for x in L * rng.uniform(0, 0.6, size=len(L))]
    elif reg == 'large':
        s = [float(x) for x in L * rng.uniform(0.3, 1.0, size=len(L))]
    else:
        s = [float(x) for x in L * rng.uniform(0.8, 2.5, size=len(L))]
    return dict(grid=grid, smoothing=s, regime=reg, n=int(rng.choice([0, 1, 3, 40, 150])),
                extra=int(rng.choice([0, 0, 1])), dtype=str(rng.choice(['f8', 'f8', 'f4'])),
                transform=str(rng.choice(['none', 'none', 'scale'])), pseed=int(rng.randint(2 ** 31 - 1)))


def gen_big(rng, ctx):
    s = gen(rng, ctx)
    s['n'] = int(rng.choice([49151, 49153, 70000, 120000]))
    s['big'] = True
    return s


def gen_many(rng, ctx):
    # more domains than a short integer counts; each process has many
    nd = int(rng.choice([1, 2, 2, 3]))
    shape = {1: [40000], 2: [int(x) for x in rng.randint(182, 220, size=2)], 3: [33, 32, 35]}[nd]
    box = [float(b) for b in 10.0 ** rng.uniform(-1, 2, size=nd)]
    periodic = bool(rng.randint(3))
    edges = [domlib.gen_edges(rng, k, str(rng.choice(['uniform', 'irregular'])), b, periodic).tolist() for k, b in zip(shape, box)]
    return dict(grid=dict(edges=edges, periodic=periodic, assign=None, ndim=nd), smoothing=[float(b * 0.6 / k) for k, b in zip(shape, box)],
                regime='many', n=30, extra=0, dtype='f8', transform='none', pseed=int(rng.randint(2 ** 31 - 1)))


def gen_graze(rng, ctx):
    s = gen(rng, ctx)
    return dict(s, n=60, dtype='f8', graze=True, transform='none')


def run(ctx, spec):
    from pmesh.domain import GridND
    comm = ctx.comm
    grid = spec['grid']
    ndim = grid['ndim']
    rng = numpy.random.RandomState(spec['pseed'])
    pos = domlib.gen_pos(rng, grid, spec['n'], spec['extra'])
    if spec.get('graze'):
        # the smoothing ends a little before or after an edge
        smo = numpy.empty(ndim)
        smo[:] = spec['smoothing']
        for j in range(ndim):
            e = numpy.array(grid['edges'][j])
            x = e[rng.randint(0, len(e), size=spec['n'])] + rng.choice([-1, 1], size=spec['n']) * smo[j] * (
                1 + rng.choice([-1, 1], size=spec['n']) * 10.0 ** rng.uniform(-10, -6, size=spec['n']))
            sel = rng.uniform(size=spec['n']) < 0.7
            if not grid['periodic']:
                sel &= (x >= e[0]) & (x < e[-1])
            pos[sel, j] = x[sel]
    pos = pos.astype(spec['dtype'])
    counts = domlib.split_counts(rng, spec['n'], ctx.size)
    if spec.get('big'):
        counts = [0] * ctx.size
        counts[rng.randint(ctx.size)] = spec['n']
    off = numpy.concatenate([[0], numpy.cumsum(counts)])
    mine = slice(off[ctx.rank], off[ctx.rank + 1])
    ids = numpy.arange(spec['n'], dtype='i8')[mine]
    lpos = pos[mine].copy()
    given = lpos
    kw = {}
    if spec['transform'] == 'scale':
        # domain units = 4 * position units (exact)
        given = lpos / pos.dtype.type(4)
        kw['transform'] = lambda x: x * x.dtype.type(4)
    g = domlib.make_grid(GridND, grid, comm)
    assign = numpy.array(g.DomainAssign)
    ndom = int(numpy.prod([len(e) - 1 for e in grid['edges']]))
    ctx.check(len(assign) == ndom and (assign >= 0).all() and (assign < ctx.size).all(), 'assignment',
              'domain assignment %r is not a valid rank for each of %d domains' % (assign, ndom))
    if grid['assign'] is not None:
        ctx.check(list(assign) == grid['assign'], 'assignment', 'assignment not used as given')
    allassign = ctx.gather(assign.tolist())
    ctx.check(all(a == allassign[0] for a in allassign), 'assignment', 'assignment differs between ranks')
    backup = given.copy()
    if spec['pseed'] % 3 == 0:
        # the same array was decomposed before, when the particles were elsewhere
        given[...] = given[::-1] if spec['pseed'] % 2 else 0
        g.decompose(given, smoothing=spec['smoothing'], **kw)
        given[...] = backup
    if numpy.ndim(spec['smoothing']) == 0 and spec['smoothing'] == 0 and spec['n'] % 2:
        layout = g.decompose(given, **kw)
    else:
        layout = g.decompose(given, smoothing=spec['smoothing'], **kw)
    ctx.check(backup.tobytes() == given.tobytes(), 'input-modified', 'positions modified by decompose')
    got = layout.exchange(ids)
    allgot = ctx.gather(got)
    ctx.ev('particles', len(ids))
    ctx.ev('deliveries', len(got))
    if ctx.rank == 0:
        smo = numpy.empty(ndim)
        smo[:] = spec['smoothing']
        eps = 1e-6 if spec['dtype'] == 'f4' else 1e-12
        if spec['n']:
            must, may = domlib.domain_sets(pos.astype('f8'), smo, grid, eps)
            rm, ra = domlib.rank_sets(must, may, assign, ctx.size)
        else:
            rm = ra = numpy.zeros((0, ctx.size), bool)
        mult = numpy.zeros((spec['n'], ctx.size), int)
        for r, x in enumerate(allgot):
            x = numpy.asarray(x)
            if len(x) and not ((x >= 0) & (x < spec['n'])).all():
                ctx.fail('alien', 'rank %d received ids that nobody sent' % r)
                return
            mult[:, r] = numpy.bincount(x, minlength=spec['n'])
        bad = mult > 1
        if bad.any():
            i, r = [int(v[0]) for v in bad.nonzero()]
            ctx.fail('duplicate', 'particle %d at %r delivered %d times to rank %d' % (i, pos[i], mult[i, r], r))
        bad = rm & (mult == 0)
        if bad.any():
            i, r = [int(v[0]) for v in bad.nonzero()]
            ctx.fail('missing', 'particle %d at %r (smoothing %r) not delivered to rank %d; %d missing deliveries' % (
                i, pos[i].tolist(), spec['smoothing'], r, bad.sum()))
        bad = ~ra & (mult > 0)
        if bad.any():
            i, r = [int(v[0]) for v in bad.nonzero()]
            ctx.fail('unwanted', 'particle %d at %r (smoothing %r) delivered to rank %d which it does not touch; %d such' % (
                i, pos[i].tolist(), spec['smoothing'], r, bad.sum()))
        if grid['periodic'] and spec['n']:
            bad = mult.sum(axis=1) == 0
            if bad.any():
                i = int(bad.nonzero()[0][0])
                ctx.fail('lost', 'particle %d at %r delivered nowhere' % (i, pos[i].tolist()))
        home = numpy.repeat(numpy.arange(ctx.size), counts)
        away = mult.sum() - mult[numpy.arange(spec['n']), home].sum() if spec['n'] else 0
        ctx.ev('remote_deliveries', away)
        ctx.ev('multi_delivered', (mult.sum(axis=1) > 1).sum())
        ctx.ev('dropped_outside', (mult.sum(axis=1) == 0).sum())
        if away or (mult.sum(axis=1) > 1).any():
            ctx.sig(ctx.size, [len(e) - 1 for e in grid['edges']], grid['periodic'], grid['assign'] is None,
                    spec['regime'], spec['dtype'],
                    any((numpy.diff(e) == 0).any() for e in grid['edges']))


GROUPS = [
    Group('delivery', gen, run, quick=110, thorough=1500),
    Group('graze', gen_graze, run, quick=25, thorough=400),
    Group('many', gen_many, run, quick=2, thorough=20),
    Group('chunks', gen_big, run, quick=2, thorough=10),
]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=2.5) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=25, scale=1.2)]
    return [dict(ranks=r, budget=230) for r in (1, 2, 3, 4, 5, 6, 7, 8)]
