import numpy
from core import Group
import domlib

ID = 'C03'
RULE = ('random grids, assignments and positions on edges, near edges, negative by less than rounding, several boxes '
        'away, in float64 and float32; isprimary on all ranks is counted per position and compared with the domain found '
        'by bisection and with zero-smoothing decomposition; loads are compared with a histogram; load balancing is '
        'compared with the longest-first bound and ownership is re-checked after it. A case is non-trivial if it has '
        'more than one rank with domains and a position on an edge or outside the box; distinct by (ranks, shape, '
        'periodic, assignment, dtype, balanced).')
ASSUMPTIONS = ['bounded grids: positions on the upper outer edge belong to nobody']


def gen(rng, ctx):
    grid = domlib.gen_grid(rng, ctx.size)
    # positions are worked on in chunks of 48k
    n = int(rng.choice([0, 1, 20, 150]))
    if rng.randint(35) == 0:
        n = int(rng.randint(50000, 130000))
    return dict(grid=grid, n=n, extra=int(rng.choice([0, 0, 1])),
                dtype=str(rng.choice(['f8', 'f8', 'f4'])), gamma=float(rng.choice([1, 2, 2, 1.5])),
                balance=bool(rng.randint(2)), transform=bool(rng.randint(3) == 0), pseed=int(rng.randint(2 ** 31 - 1)))


def gen_chunks(rng, ctx):
    s = gen(rng, ctx)
    # all of the particles on one rank
    return dict(s, n=int(rng.choice([49153, 60000, 70000, 98305])), transform=bool(rng.randint(4)), chunks=int(rng.randint(ctx.size)), balance=False)


def owners(pos, grid):
    """domain of each position by bisection on the exact remainder; -1 if none"""
    flat = numpy.zeros(len(pos), int)
    ok = numpy.ones(len(pos), bool)
    for j, e in enumerate(grid['edges']):
        e = numpy.array(e)
        x = pos[:, j].astype('f8')
        if grid['periodic']:
            L = e[-1]
            y = numpy.fmod(x, L)
            y = numpy.where(y < 0, y + L, y)
            y = numpy.where(y >= L, 0.0, y)
            x = y
        d = numpy.searchsorted(e, x, side='right') - 1
        ok &= (d >= 0) & (d < len(e) - 1)
        flat = flat * (len(e) - 1) + numpy.clip(d, 0, len(e) - 2)
    flat[~ok] = -1
    return flat


def near_edge(pos, grid, eps):
    """positions so close to an edge that rounding of the remainder may move them over it"""
    r = numpy.zeros(len(pos), bool)
    for j, e in enumerate(grid['edges']):
        e = numpy.array(e)
        L = e[-1] - e[0]
        x = pos[:, j].astype('f8')
        if grid['periodic']:
            x = numpy.remainder(x, e[-1])
        d = numpy.abs(x[:, None] - e[None, :]).min(axis=1)
        r |= d <= eps * max(L, abs(e[-1]))
    return r


def run(ctx, spec):
    from pmesh.domain import GridND
    grid = spec['grid']
    rng = numpy.random.RandomState(spec['pseed'])
    n = spec['n']
    # in chunks: off the edges, where all can be counted exactly
    pos = domlib.gen_pos(rng, grid, n, spec['extra'], wide='chunks' not in spec).astype(spec['dtype'])
    g = domlib.make_grid(GridND, grid, ctx.comm)
    kw = {}
    arg = pos
    if spec['transform']:
        arg = pos / pos.dtype.type(4)
        kw['transform'] = lambda x: x * x.dtype.type(4)
    verify(ctx, spec, grid, g, pos, arg, kw, 'initial')
    counts = domlib.split_counts(rng, n, ctx.size)
    if 'chunks' in spec:
        counts = [n if r == spec['chunks'] else 0 for r in range(ctx.size)]
    off = numpy.concatenate([[0], numpy.cumsum(counts)])
    mine = slice(off[ctx.rank], off[ctx.rank + 1])
    # load
    for gamma in (1, spec['gamma']):
        a = arg[mine]
        load = g.load(a, gamma=gamma, **kw) if gamma != 2 else g.load(a, **kw)
        ndom = int(numpy.prod([len(e) - 1 for e in grid['edges']]))
        allload = ctx.gather(numpy.asarray(load, 'f8'))
        ctx.check(all(numpy.array_equal(x, allload[0]) for x in allload), 'load', 'load differs between ranks')
        ctx.check(len(load) == ndom, 'load', 'length of load')
        own = owners(pos, grid)
        if grid['periodic']:
            total = n
            if gamma == 1:
                ctx.check(abs(numpy.sum(load) - total) < 1e-9, 'load', 'total load %r for %d particles' % (numpy.sum(load), n))
        clear = not (near_edge(pos, grid, 1e-6 if spec['dtype'] == 'f4' else 1e-14).any())
        inside = own >= 0
        if True:
            # all but the positions next to an edge are counted exactly
            sure = inside & ~near_edge(pos, grid, 1e-6 if spec['dtype'] == 'f4' else 1e-14)
            ref = numpy.bincount(own[sure], minlength=ndom)
            lo, hi = ref.astype('f8') ** gamma, (ref + (~sure).sum()) ** float(gamma)
            ctx.check((load >= lo * (1 - 1e-12)).all() and (load <= hi * (1 + 1e-12)).all(), 'load', 'load of a domain outside of its bounds, gamma=%r' % gamma)
            ctx.ev('load_bounds')
        if clear and inside.all():
            ref = numpy.bincount(own, minlength=ndom).astype('f8') ** gamma
            ctx.close(load, ref, 'load', 'gamma=%r' % gamma, rtol=1e-12)
            ctx.ev('loads_compared_exactly')
    if spec['balance']:
        loads = g.load(arg[mine], gamma=spec['gamma'], **kw)
        if rng.randint(2):
            loads = rng.uniform(0, 10, size=ndom) ** 3
        before = numpy.array(g.DomainAssign)
        g.loadbalance(loads)
        assign = numpy.array(g.DomainAssign)
        alla = ctx.gather(assign.tolist())
        ctx.check(all(a == alla[0] for a in alla), 'balance', 'assignment differs between ranks')
        ctx.check(len(assign) == ndom and (assign >= 0).all() and (assign < ctx.size).all(), 'balance', 'invalid assignment')
        if ndom > ctx.size:
            mx = numpy.bincount(assign, weights=loads, minlength=ctx.size).max()
            srt = numpy.sort(loads)[::-1]
            # list-scheduling bound: each rank load is at most average + the largest load beyond the first
            bound = loads.sum() / ctx.size + (1 - 1.0 / ctx.size) * srt[0]
            lower = max(loads.sum() / ctx.size, srt[0], srt[ctx.size - 1] + srt[ctx.size])
            ctx.check(mx <= bound * (1 + 1e-12), 'balance', 'largest rank load %r above %r' % (mx, bound))
            # longest-first is within 4/3 - 1/(3m) of the optimum; compare with the greedy result itself
            h = [0.0] * ctx.size
            for x in srt:
                k = int(numpy.argmin(h))
                h[k] += x
            ctx.check(mx <= max(h) * (1 + 1e-9), 'balance', 'largest rank load %r, longest-first gives %r' % (mx, max(h)))
            ctx.ev('balanced', 1)
        else:
            ctx.check((assign == before).all() or len(set(assign)) == ndom, 'balance', 'domains piled up')
        verify(ctx, spec, grid, g, pos, arg, kw, 'balanced')
    outside = bool(n) and (owners(pos, grid) != owners(numpy.clip(pos, 0, None), grid)).any()
    if len(set(numpy.array(g.DomainAssign))) > 1 and n > 1:
        ctx.sig(ctx.size, [len(e) - 1 for e in grid['edges']], grid['periodic'], grid['assign'] is None, spec['dtype'],
                spec['balance'], outside)


def verify(ctx, spec, grid, g, pos, arg, kw, when):
    n = len(pos)
    before = arg.copy()
    prim = g.isprimary(arg, **kw)
    ctx.check(prim.shape == (n,) and prim.dtype == numpy.dtype('?'), 'isprimary', 'not a boolean per position')
    ctx.check(before.tobytes() == arg.tobytes(), 'input-modified', 'positions modified')
    allp = numpy.array(ctx.gather(prim)).reshape(ctx.size, n)
    ctx.ev('positions', n)
    own = owners(pos, grid)
    cnt = allp.sum(axis=0)
    close = near_edge(pos, grid, 1e-6 if spec['dtype'] == 'f4' else 1e-14)
    if grid['periodic']:
        bad = cnt != 1
    else:
        bad = ((cnt != 1) & (own >= 0) | (cnt != 0) & (own < 0))
    if bad.any():
        i = int(bad.nonzero()[0][0])
        ctx.fail('owner-count', '%s: position %r is primary on %d ranks (domain %d); %d such positions' % (
            when, pos[i].tolist(), cnt[i], own[i], bad.sum()))
    assign = numpy.array(g.DomainAssign)
    who = allp.argmax(axis=0)
    if n:
        bad = (own >= 0) & (cnt == 1) & ~close & (who != assign[own])
        if bad.any():
            i = int(bad.nonzero()[0][0])
            ctx.fail('owner', '%s: position %r is primary on rank %d, its domain %d is assigned to %d' % (
                when, pos[i].tolist(), who[i], own[i], assign[own[i]]))
    # zero smoothing decomposition goes to the owner
    mine = numpy.arange(n) % ctx.size == ctx.rank
    ids = numpy.arange(n)[mine]
    layout = g.decompose(arg[mine], **(kw if n % 2 else dict(kw, smoothing=0)))
    got = ctx.gather(numpy.array(layout.exchange(ids)))
    dest = numpy.full(n, -1)
    tot = numpy.zeros(n, int)
    for r, x in enumerate(got):
        dest[x] = r
        tot[x] += 1
    bad = (cnt == 1) & ((tot != 1) | (dest != who))
    if bad.any():
        i = int(bad.nonzero()[0][0])
        ctx.fail('owner-decompose', '%s: position %r is primary on rank %d, decomposition sends it to %d (%d copies)' % (
            when, pos[i].tolist(), who[i], dest[i], tot[i]))


def gen_uniform(rng, ctx):
    nd = int(rng.choice([1, 2, 3, 3, 4]))
    box = 10.0 ** rng.uniform(-3, 4) * rng.choice([1.0, 1.0, 1.0, 0.1, 7.0], size=nd)
    return dict(box=[float(b) for b in box], periodic=bool(rng.randint(2)), pseed=int(rng.randint(2 ** 31 - 1)),
                world=str(rng.choice(['world', 'split'])))


def run_uniform(ctx, spec):
    from pmesh.domain import GridND
    kw = dict(comm=ctx.comm, periodic=spec['periodic'])
    if spec['pseed'] % 2:
        # all processes and a periodic box are what one gets unless asking for something else
        kw = dict((k, v) for k, v in kw.items() if not (k == 'comm' or v is True))
    g = GridND.uniform(spec['box'], **kw)
    ctx.check(g.comm.size == ctx.size and g.periodic == spec['periodic'], 'uniform', 'processes or periodicity')
    nd = len(spec['box'])
    ndom = 1
    for j in range(nd):
        e = numpy.asarray(g.edges[j])
        ctx.check(len(e) >= 2 and e[0] == 0 and e[-1] == spec['box'][j] and (numpy.diff(e) > 0).all(), 'uniform',
                  'edges %r do not cover the box %r' % (e, spec['box']))
        if len(e) >= 2:
            ctx.check(numpy.allclose(numpy.diff(e), spec['box'][j] / (len(e) - 1)), 'uniform', 'edges not uniform')
        ndom *= len(e) - 1
    ctx.check(1 <= ndom <= ctx.size, 'uniform', '%d domains on %d ranks' % (ndom, ctx.size))
    if ndom < 1:
        return
    grid = dict(edges=[numpy.asarray(e).tolist() for e in g.edges], periodic=spec['periodic'], assign=None)
    rng = numpy.random.RandomState(spec['pseed'])
    pos = domlib.gen_pos(rng, grid, 60)
    verify(ctx, dict(dtype='f8'), grid, g, pos, pos, {}, 'uniform')
    ctx.ev('uniform_grids')
    ctx.sig(ctx.size, nd, [len(e) - 1 for e in grid['edges']], spec['periodic'])


GROUPS = [Group('ownership', gen, run, quick=110, thorough=2000),
          Group('chunks', gen_chunks, run, quick=5, thorough=25),
          Group('uniform', gen_uniform, run_uniform, quick=40, thorough=400)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=2.5) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=25, scale=1.2)]
    return [dict(ranks=r, budget=230) for r in (1, 2, 3, 4, 5, 6, 7, 8)]
