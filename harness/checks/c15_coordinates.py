import numpy
import fieldlib as fl
from core import Group

ID = 'C15'
TECHNIQUE = 'runtime monitoring: every coordinate seen by user functions and slab iterators is recorded per element and compared with the position derived from the global index'
RULE = ('random distributed meshes; each element is tagged with its global index, and the coordinates attached to the field, seen through apply() of every kind '
        'and through slab iteration must be those of that index. Non-trivial when the local mesh has more than one element; distinct by (mesh, precision, process mesh, kind).')
ASSUMPTIONS = ['coordinates agree within the mesh precision', "kind 'absolute' is checked modulo the box only (it is not documented)", 'complex (c2c) meshes carry complex coordinates with zero imaginary part']


def gen(rng, ctx):
    return dict(m=fl.gen_mesh(rng, ctx.size), type=str(rng.choice(fl.TYPES)), pseed=int(rng.randint(2 ** 31 - 1)), outk=int(rng.randint(4)),
                first=[str(t) for t in rng.choice(fl.TYPES, int(rng.randint(0, 3)))])


def expected(m, type):
    """per axis: global index and signed coordinate"""
    N = m['N']
    idx, x = [], []
    for d, n in enumerate(fl.cN(m, type)):
        i = numpy.arange(n)
        f = fl.freq(N[d])[:n]
        idx.append(i)
        x.append(f * (m['box'][d] / N[d]) if type == 'real' else f * (2 * numpy.pi / m['box'][d]))
    return idx, x


def spread(vecs):
    nd = len(vecs)
    return [v.reshape([-1 if k == d else 1 for k in range(nd)]) for d, v in enumerate(vecs)]


def run(ctx, s):
    m = s['m']
    nd = len(m['N'])
    pm = fl.make(m, ctx.comm)
    t = s['type']
    shape = fl.cN(m, t)
    gidx = numpy.arange(int(numpy.prod(shape))).reshape(shape)
    for o in s.get('first', ()):    # fields of other types on the same mesh
        pm.create(o).x
        pm.create_coords(o)
    f = pm.create(t)
    eps = fl.tol(m, 4)
    ctx.check(tuple(f.cshape) == shape, 'cshape', lambda: '%s instead of %s' % (f.cshape, shape))
    ctx.check(f.csize == gidx.size, 'csize')
    ctx.check(tuple(f.shape) == f.value.shape and f.size == f.value.size and f.ndim == nd, 'attributes')
    ctx.check(all(a.start == st and a.stop == st + n for a, st, n in zip(f.slices, f.start, f.value.shape)), 'slices')
    ctx.check(list(f.Nmesh) == m['N'] and list(f.BoxSize) == m['box'], 'attributes')
    f.value[...] = 0
    fl.whole(ctx, f)
    idx, x = expected(m, t)
    kmax = [2 * numpy.pi / b * n if t != 'real' else b for b, n in zip(m['box'], m['N'])]
    mine = [numpy.broadcast_to(a, shape)[f.slices] for a in spread(idx)]
    minex = [numpy.broadcast_to(a, shape)[f.slices] for a in spread(x)]

    def same_index(i, where, sl=Ellipsis, extra=''):
        for d in range(nd):
            ii = numpy.broadcast_to(i[d], where[d].shape)
            ctx.check(ii.dtype.kind == 'i' and numpy.array_equal(ii, where[d]), 'index' + extra, lambda: 'axis %d: %s, expected %s' % (d, ii.ravel()[:20], where[d].ravel()[:20]))

    def same_coord(xx, where, extra='', factor=None, mod=False):
        for d in range(nd):
            v = numpy.broadcast_to(xx[d], where[d].shape)
            w = where[d] * (1 if factor is None else factor[d])
            scale = kmax[d] * (1 if factor is None else factor[d])
            ctx.check(numpy.iscomplexobj(v) == (m['dtype'][0] == 'c'), 'coordinate-kind')
            if mod:
                e = numpy.abs((numpy.real(v) - w + scale / 2) % scale - scale / 2)
                ctx.check(not e.size or e.max() <= eps * scale, 'coordinate' + extra, '')
                continue
            ctx.close(v, w, 'coordinate' + extra, 'axis %d of %s (%s)' % (d, m, t), rtol=0, atol=eps * scale)
            ctx.ev('coordinates', v.size)

    same_index(f.i, mine)
    same_coord(f.x, minex)
    for d in range(nd):
        ctx.check(f.i[d].size == f.value.shape[d] and f.x[d].size == f.value.shape[d], 'compact', 'coordinates of one axis only vary along it')
    cx = pm.create_coords(t)
    ci = pm.create_coords(t, return_indices=True)
    same_index(ci, mine, extra='-create_coords')
    same_coord(cx, minex, '-create_coords')
    for a in list(cx) + list(ci):
        a[...] = -99    # must be private copies
    same_coord(pm.create_coords(t), minex, '-private')
    same_index(pm.create(t).i, mine, extra='-private')
    same_coord(f.x, minex, '-private')
    # apply
    tag = gidx[f.slices]
    kinds = ['relative', 'index', 'absolute'] if t == 'real' else ['wavenumber', 'circular', 'index']
    f.value[...] = tag
    for kind in kinds:
        rec = [numpy.full(f.value.shape, numpy.nan) for _ in range(nd)]
        seen = numpy.zeros(f.value.shape, 'i4')
        order = []
        g0 = fl.whole(ctx, f)
        calls = []

        def func(r, y):
            calls.append((r, y.shape))
            ids = numpy.real(y).round().astype('i8')
            co = numpy.unravel_index(ids.ravel(), shape)
            co = tuple(c.reshape(ids.shape) - st for c, st in zip(co, f.start))
            for d in range(nd):
                v = numpy.broadcast_to(r[d], y.shape)
                rec[d][co] = numpy.real(v)
            seen[co] += 1
            ctx.check(list(y.Nmesh) == m['N'] and list(y.BoxSize) == m['box'], 'slab-attributes')
            for d in range(nd):
                ctx.check(numpy.array_equal(numpy.broadcast_to(y.i[d], y.shape) - f.start[d], co[d]), 'slab-index', 'slab.i')
            return y * 2 + 1
        out = None
        k = (s['outk'] + len(kind)) % 4
        if k == 0:
            out = pm.create(t)
        elif k == 1:
            out = numpy.zeros(f.value.shape, dtype=f.value.dtype)
        elif k == 2:
            out = numpy.zeros(f.value.shape[::-1], dtype='c16').T
        r = f.apply(func, kind=kind, out=out)
        if out is not None:
            ctx.check(r is out, 'returns-out', kind)
        else:
            ctx.check(type(r) is type(f) and r is not f, 'kind', kind)
        ctx.check((seen == 1).all(), 'visited-once', lambda: '%s: elements visited %s times' % (kind, numpy.unique(seen)))
        rv = r if isinstance(r, numpy.ndarray) else r.value
        ctx.close(rv, tag * 2.0 + 1, 'apply-result', kind, rtol=1e-6)
        ctx.same(numpy.array(f.value), (tag + 0).astype(f.value.dtype), 'input-kept', kind)
        if seen.all():
            if kind == 'index':
                same_index([a.astype('i8') for a in rec], mine, extra='-apply')
            else:
                fac = None
                if kind == 'circular':
                    fac = [b / n for b, n in zip(m['box'], m['N'])]
                for d in range(nd):
                    w = minex[d] * (1 if fac is None else fac[d])
                    sc = kmax[d] * (1 if fac is None else fac[d])
                    if kind == 'absolute':
                        e = numpy.abs((rec[d] - w + sc / 2) % sc - sc / 2)
                        ctx.check(not e.size or e.max() <= eps * sc, 'coordinate-apply', kind)
                    else:
                        ctx.close(rec[d], w, 'coordinate-apply', '%s axis %d of %s' % (kind, d, m), rtol=0, atol=eps * sc)
        ctx.ev('apply_calls', len(calls))
    # in place
    r = f.apply(lambda i, y: y + 0.5, kind='index', out=Ellipsis)
    ctx.check(r is f, 'in-place')
    ctx.close(f.value, tag + 0.5, 'in-place', '', rtol=1e-6)
    # slabs, written through
    f.value[...] = tag
    n = 0
    for slab, i, xx in zip(f.slabs, f.slabs.i, f.slabs.x):
        ids = numpy.real(slab).round().astype('i8')
        co = [c.reshape(ids.shape) for c in numpy.unravel_index(numpy.asarray(ids).ravel(), shape)]
        n += ids.size
        for o in (slab, i, xx):
            # user functions ask the slabs for the geometry
            ctx.check(list(o.Nmesh) == m['N'] and list(o.BoxSize) == m['box'], 'slab-geometry', lambda: '%r %r' % (o.Nmesh, o.BoxSize))
        for d in range(nd):
            ctx.check(numpy.array_equal(numpy.broadcast_to(i[d], ids.shape), co[d]), 'slabs.i', 'axis %d of %s' % (d, m))
            ctx.check(numpy.array_equal(numpy.broadcast_to(slab.i[d], ids.shape), co[d]), 'slab-index', 'axis %d of %s' % (d, m))
            w = x[d][co[d]]
            ctx.close(numpy.broadcast_to(xx[d], ids.shape), w, 'slabs.x', 'axis %d' % d, rtol=0, atol=eps * kmax[d])
            ctx.close(numpy.broadcast_to(slab.x[d], ids.shape), w, 'slab-x', 'axis %d' % d, rtol=0, atol=eps * kmax[d])
        for p in (1, 2, 3):
            w = sum(numpy.abs(x[d][co[d]]) ** p for d in range(nd))
            nz = w.max() + max(kmax) ** p if w.size else 1
            ctx.close(numpy.broadcast_to(xx.normp(p), ids.shape), w, 'normp', 'p=%d' % p, rtol=0, atol=8 * eps * nz)
            z = numpy.broadcast_to(xx.normp(p, zeromode=7.5), ids.shape)
            zero = numpy.ones(ids.shape, '?')
            for d in range(nd):
                zero = zero & (co[d] == 0)
            ctx.close(z, numpy.where(zero, 7.5, w), 'normp-zeromode', 'p=%d' % p, rtol=0, atol=8 * eps * nz + 1e-6)
        slab[...] = -ids
    ctx.check(n == f.size, 'slabs-cover', lambda: '%d of %d elements' % (n, f.size))
    ctx.close(f.value, -tag.astype('f8'), 'slabs-write-through', '', rtol=1e-6)
    ctx.ev('slab_elements', n)
    if gidx.size > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), t)


GROUPS = [Group('coords', gen, run, quick=150, thorough=6000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
