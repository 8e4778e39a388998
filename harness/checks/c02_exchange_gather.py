import numpy
from core import Group
import domlib

ID = 'C02'
RULE = ('random layouts from random grids and positions (ranks with nothing to send or receive included), columns of '
        'many dtypes and shapes exchanged packed and unpacked, then gathered with every reduction; expected rows and '
        'reductions are recomputed from the ids each rank received. A case is non-trivial when some particle had copies '
        'on several ranks or on another rank; distinct by (ranks, dtypes, reductions, counts pattern).')
ASSUMPTIONS = ['all ranks pass the same dtype', 'sums of floats compared within rounding',
               'a particle without any copy (outside a bounded grid) has no defined mean, maximum, minimum or local result']

SCALARS = ['f8', 'f4', 'i8', 'i4', 'u8', 'i2', 'u1', '?', 'c16', 'S5']


def gen(rng, ctx):
    grid = domlib.gen_grid(rng, ctx.size)
    L = min(e[-1] - e[0] for e in grid['edges'])
    cols = []
    for i in range(rng.randint(1, 5)):
        cols.append([str(rng.choice(SCALARS)), [[], [3], [2, 2], [1]][rng.choice([0, 0, 1, 2, 3])]])
    return dict(grid=grid, smoothing=float(L * rng.choice([0, 0.05, 0.2, 0.4])), n=int(rng.choice([0, 1, 2, 30, 120])),
                cols=cols, struct=bool(rng.randint(3) == 0), lists=bool(rng.randint(6) == 0),
                pseed=int(rng.randint(2 ** 31 - 1)), repeat=int(rng.randint(1, 4)))


def column(rng, n, dt, shape):
    dt = numpy.dtype(dt)
    full = [n] + list(shape)
    if dt.kind == 'f':
        return rng.normal(size=full).astype(dt)
    if dt.kind == 'c':
        return (rng.normal(size=full) + 1j * rng.normal(size=full)).astype(dt)
    if dt.kind == 'b':
        return rng.randint(0, 2, size=full).astype(dt)
    if dt.kind == 'S':
        return rng.randint(0, 100000, size=full).astype('S5')
    hi = min(numpy.iinfo(dt).max, 2 ** 40)
    lo = max(numpy.iinfo(dt).min, -2 ** 40)
    return rng.randint(lo, hi, size=full).astype(dt)


def setup(ctx, spec):
    from pmesh.domain import GridND
    rng = numpy.random.RandomState(spec['pseed'])
    n = spec['n']
    pos = domlib.gen_pos(rng, spec['grid'], n)
    counts = domlib.split_counts(rng, n, ctx.size)
    off = numpy.concatenate([[0], numpy.cumsum(counts)])
    mine = slice(off[ctx.rank], off[ctx.rank + 1])
    g = domlib.make_grid(GridND, spec['grid'], ctx.comm)
    layout = g.decompose(pos[mine], smoothing=spec['smoothing'])
    return rng, counts, mine, layout


def run(ctx, spec):
    rng, counts, mine, layout = setup(ctx, spec)
    n = spec['n']
    ids = numpy.arange(n, dtype='i8')
    got = numpy.array(layout.exchange(ids[mine]))
    allgot = ctx.gather(got)
    ncopy = numpy.zeros(n, int)
    for x in allgot:
        ncopy += numpy.bincount(x, minlength=n)
    ctx.ev('rows_received', len(got))
    cols = [column(rng, n, dt, sh) for dt, sh in spec['cols']]
    if spec['struct']:
        s = numpy.zeros(n, dtype=[('a', 'f4'), ('b', 'i8', (2,)), ('c', 'S3')])
        s['a'] = rng.normal(size=n)
        s['b'] = rng.randint(0, 1000, size=(n, 2))
        s['c'] = rng.randint(0, 100, size=n).astype('S3')
        cols.append(s)
    kept = [(got, got.copy())]
    for rep in range(spec['repeat']):
        local = [c[mine].copy() for c in cols]
        if rep == 1:
            # non-contiguous views of the same columns
            local = [numpy.concatenate([c, c])[:len(c)] if c.ndim == 1 else numpy.asfortranarray(c) for c in local]
        before = [c.copy() for c in local]
        res = layout.exchange(*local, pack=bool(rep % 2 == 0))
        if len(local) == 1:
            res = (res,)
        ctx.check(len(res) == len(local), 'columns', 'wrong number of columns')
        kept += [(r, numpy.array(r)) for r in res]
        for c, r, dtsh in zip(cols, res, spec['cols'] + ['struct']):
            ctx.same(numpy.ascontiguousarray(r), c[got], 'rows', 'column %r, repeat %d' % (dtsh, rep))
        for a, b in zip(before, local):
            ctx.check(a.tobytes() == b.tobytes(), 'input-modified', 'column modified by exchange')
    if not spec['struct'] and len(cols) == 1 and spec['lists'] and cols[0].dtype.kind == 'f' and cols[0].dtype.itemsize == 8:
        r = layout.exchange(cols[0][mine].tolist()) if cols[0].ndim == 1 else None
        if r is not None:
            ctx.same(numpy.ascontiguousarray(r), cols[0][got], 'rows', 'list input')
    # lists in several columns, with the columns packed as by default; sums are what gather does unless told otherwise
    a, b = layout.exchange((numpy.arange(n)[mine] * 2).tolist(), (numpy.arange(n)[mine] * 0.5).tolist()) if min(counts) else \
        layout.exchange(numpy.arange(n)[mine] * 2, numpy.arange(n)[mine] * 0.5)
    ctx.same(numpy.ascontiguousarray(a), got * 2, 'rows', 'integer lists, default packing')
    ctx.same(numpy.ascontiguousarray(b), got * 0.5, 'rows', 'lists, default packing')
    if len(set(len(x) > 0 for x in allgot)) == 1:
        r = layout.gather([float(x) for x in got])
        ctx.close(r, (ncopy * numpy.arange(n))[mine], 'gather-sum', 'list input, default mode', rtol=1e-12)
    r = layout.gather(got * 1.0)
    ctx.close(r, (ncopy * numpy.arange(n))[mine], 'gather-sum', 'default mode', rtol=1e-12)
    # exchange cost
    home = numpy.repeat(numpy.arange(ctx.size), counts)
    cost = numpy.zeros(ctx.size, int)
    for r, x in enumerate(allgot):
        h = home[x]
        cost += numpy.bincount(h[h != r], minlength=ctx.size)
    ctx.check(list(layout.get_exchange_cost()) == cost.tolist(), 'cost',
              lambda: 'exchange cost %r, expected %r' % (layout.get_exchange_cost(), cost))
    if (ncopy > 1).any() or cost.any():
        ctx.sig(ctx.size, tuple(c[0] for c in spec['cols']), spec['struct'], [int(x > 0) for x in counts],
                [int(len(x) > 0) for x in allgot])
    # a payload that differs between the copies
    V = rng.uniform(1, 2, size=(ctx.size, n))
    gather_modes(ctx, spec, rng, layout, got, allgot, ncopy, V, mine, counts)
    for r, c in kept:
        ctx.check(r.tobytes() == c.tobytes(), 'kept', 'what an earlier exchange returned has changed')


def gather_modes(ctx, spec, rng, layout, got, allgot, ncopy, V, mine, counts):
    n = spec['n']
    mycopy = ncopy[mine]
    has = mycopy > 0
    P = numpy.zeros((ctx.size, n), bool)
    for r, x in enumerate(allgot):
        P[r, x] = True
    nl = mycopy.shape[0]
    shape2 = [[3], [2, 3], [1], [2, 1, 2]][spec['pseed'] % 4]
    for shape in ([], shape2):
        for dt in ('f8', 'f4', 'i8', 'i4'):
            k = int(numpy.prod(shape2)) if shape else 1
            W = (V[..., None] * numpy.arange(1, k + 1)).reshape(list(V.shape) + shape) if shape else V
            W = W * (1000 if dt[0] == 'i' else 1)
            W = W.astype(dt)
            M = P.reshape(P.shape + (1,) * len(shape))
            data = W[ctx.rank][got]
            tol = 1e-5 if dt == 'f4' else 1e-12
            ref = numpy.where(M, W, 0).astype('f8').sum(axis=0)[mine]
            ex = dict(sum=ref, mean=ref / numpy.maximum(mycopy, 1).reshape((-1,) + (1,) * len(shape)))
            ex['max'] = numpy.where(M, W, -1e30).max(axis=0)[mine]
            ex['min'] = numpy.where(M, W, 1e30).min(axis=0)[mine]
            ex['mul'] = numpy.where(M, W.astype('f8'), 1.0).prod(axis=0)[mine]
            before = data.copy()
            for mode, name in (('sum', 'sum'), ('mean', 'mean'), (numpy.add, 'sum'), (numpy.maximum, 'max'),
                               (numpy.minimum, 'min'), (numpy.multiply, 'mul')):
                if name == 'mean' and dt[0] == 'i':
                    continue
                if name == 'mul' and (dt[0] == 'i' or dt == 'f4'):
                    continue
                # reductions other than the sum (product) of nothing are not defined
                sel = slice(None) if name in ('sum', 'mul') else has
                for o in ('new', 'out', 'strided'):
                    out = None
                    if o == 'out':
                        out = numpy.full([nl] + shape, 77, dtype=dt)
                    elif o == 'strided':
                        out = numpy.full([nl, 2] + shape, 77, dtype=dt)[:, 1]
                    with numpy.errstate(all='ignore'):
                        r = layout.gather(data, mode=mode, out=out)
                    if out is not None:
                        ctx.close(out[sel], ex[name][sel], 'gather-%s' % name, 'out=%s dtype=%s shape=%r' % (o, dt, shape), rtol=tol)
                        if o == 'strided':
                            ctx.check((out.base[:, 0] == 77).all(), 'gather-overwrite', 'neighbouring column overwritten')
                    ctx.close(r[sel], ex[name][sel], 'gather-%s' % name, 'returned, out=%s dtype=%s shape=%r' % (o, dt, shape), rtol=tol)
                    if nl and o == 'new' and isinstance(mode, str):
                        ctx.check(r.dtype == numpy.dtype(dt), 'gather-dtype', 'mode %s returns %s for %s' % (name, r.dtype, dt))
                ctx.ev('gathers', 3)
            ctx.check(before.tobytes() == data.tobytes(), 'input-modified', 'data modified by gather')
            # any: the value of one of the copies
            for out in (None, numpy.full([nl] + shape, 77, dtype=dt)):
                r = layout.gather(data, mode='any', out=out)
                if out is None and dt == 'f8':
                    other = [layout.gather(numpy.zeros_like(data), mode=x) for x in ('any', 'sum', 'local')]
                    ctx.check(not any(numpy.shares_memory(x, r) or numpy.shares_memory(x, data) for x in other), 'kept', 'what gather returned is overwritten by the next')
                hit = ((r[None, ...] == W[:, mine]) & M[:, mine]).any(axis=0)
                hit = hit.reshape(nl, k).all(axis=1)
                ctx.check(bool((hit | ~has).all()), 'gather-any', 'a value that no copy has, dtype %s' % dt)
                ctx.check(r.shape == tuple([nl] + shape), 'gather-any', 'shape %r' % (r.shape,))
            # local: the value of the copy on this rank
            for out in (None, numpy.full([nl] + shape, 77, dtype=dt)):
                r = layout.gather(data, mode='local', out=out)
                loc = P[ctx.rank][mine]
                ctx.check(r.shape == tuple([nl] + shape), 'gather-local', 'shape %r' % (r.shape,))
                ctx.check(numpy.array_equal(r[loc], W[ctx.rank][mine][loc]), 'gather-local', 'wrong local value, dtype %s' % dt)
                if out is not None:
                    ctx.check((r[~loc] == 77).all(), 'gather-local', 'entries without local copy overwritten')
            # all: every copy, in the order of layout.indices
            for out in (None, True):
                if out:
                    out = numpy.full([int(mycopy.sum())] + shape, 77, dtype=dt)
                r = layout.gather(data, mode='all', out=out)
                if out is not None:
                    ctx.same(out, r, 'gather-all', 'the array supplied as out is not the result')
                if out is None and dt == 'f8':
                    other = layout.gather(numpy.zeros_like(data), mode='all')
                    ctx.check(not numpy.shares_memory(other, r), 'kept', 'what gather returned is overwritten by the next')
                who = numpy.arange(n)[mine][layout.indices] if nl else numpy.empty(0, int)
                ctx.check(len(r) == mycopy.sum() and numpy.array_equal(numpy.bincount(layout.indices, minlength=nl), mycopy),
                          'gather-all', 'wrong number of copies')
                # the copies of each particle, as a multiset
                order = numpy.argsort(who, kind='stable')
                exp = [numpy.sort(W[:, i][P[:, i]].reshape(-1)) for i in range(n)[mine]]
                cur = r[order].reshape(len(order), k)
                at = 0
                ok = True
                for i, e in zip(range(n)[mine], exp):
                    c = int(ncopy[i])
                    ok &= numpy.array_equal(numpy.sort(cur[at:at + c].reshape(-1)), e)
                    at += c
                ctx.check(ok, 'gather-all', 'the copies returned are not those of the particles named by layout.indices')
    # round trip of a column nobody touched, complex and structured data
    c = rng.normal(size=n) + 1j * rng.normal(size=n)
    z = layout.exchange(c[mine])
    r = layout.gather(z, mode='any')
    ctx.check(numpy.array_equal(r[has], c[mine][has]), 'round-trip', 'complex column')
    r = layout.gather(z, mode=numpy.add)
    ctx.close(r, c[mine] * mycopy, 'gather-sum', 'complex, ufunc add', rtol=1e-12)
    s = numpy.zeros(n, dtype=[('a', 'f4'), ('b', 'i8', (2,))])
    s['a'] = rng.normal(size=n)
    s['b'] = rng.randint(0, 1000, size=(n, 2))
    z = layout.exchange(s[mine])
    r = layout.gather(z, mode='any')
    ctx.check(r[has].tobytes() == s[mine][has].tobytes(), 'round-trip', 'structured column')


def gen_many(rng, ctx):
    s = gen(rng, ctx)
    return dict(s, n=int(rng.choice([33000, 40000, 66000])), one=bool(rng.randint(2)))


def run_many(ctx, spec):
    """more rows between two ranks than a short integer counts; columns given in another type on some ranks"""
    from pmesh.domain import GridND
    rng = numpy.random.RandomState(spec['pseed'])
    n = spec['n']
    pos = domlib.gen_pos(rng, spec['grid'], n)
    counts = [0] * ctx.size
    if spec['one']:
        # one rank has everything, and sends it to one other
        counts[rng.randint(ctx.size)] = n
        pos[...] = pos[0]
    else:
        counts = domlib.split_counts(rng, n, ctx.size)
    off = numpy.concatenate([[0], numpy.cumsum(counts)])
    mine = slice(off[ctx.rank], off[ctx.rank + 1])
    g = domlib.make_grid(GridND, spec['grid'], ctx.comm)
    layout = g.decompose(pos[mine], smoothing=spec['smoothing'])
    ids = numpy.arange(n, dtype='i8')
    got = numpy.array(layout.exchange(ids[mine]))
    allgot = ctx.gather(got)
    ncopy = numpy.zeros(n, int)
    for x in allgot:
        ncopy += numpy.bincount(x, minlength=n)
    ctx.ev('rows_received', len(got))
    mixed = [str(x) for x in rng.choice(['i8', 'i4', 'f8', 'f4'], size=ctx.size)]
    dt = mixed[ctx.rank] if n < 2 ** 24 else 'i8'
    a, b = layout.exchange(ids[mine].astype(dt), (ids[mine, None] * [1, 2]).astype(mixed[0]), pack=bool(spec['pseed'] % 2))
    ctx.check((a == got).all(), 'rows', lambda: 'column of types %r' % (mixed,))
    ctx.check((b == got[:, None] * [1, 2]).all(), 'rows', lambda: 'column of type %r next to one of types %r' % (mixed[0], mixed))
    r = layout.gather(got * 0.5)
    ctx.close(r, (ncopy * ids)[mine] * 0.5, 'gather-sum', 'many', rtol=1e-12)
    r = layout.gather(got, mode='any')
    has = ncopy[mine] > 0
    ctx.check((r[has] == ids[mine][has]).all(), 'gather-any', 'many')
    r = layout.gather(got, mode=numpy.maximum)
    ctx.check((r[has] == ids[mine][has]).all(), 'gather-max', 'many')
    r = layout.gather(got, mode='all')
    ctx.check(len(r) == ncopy[mine].sum() and (numpy.sort(r) == numpy.repeat(ids[mine], ncopy[mine])).all(), 'gather-all', 'many')
    if ctx.size > 1:
        ctx.sig('many', ctx.size, spec['one'], tuple(mixed), n)


GROUPS = [Group('layouts', gen, run, quick=90, thorough=1200), Group('many', gen_many, run_many, quick=3, thorough=40)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=30) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=30, scale=0.5)]
    return [dict(ranks=r, budget=250) for r in (1, 2, 3, 4, 5, 6, 7, 8)]
