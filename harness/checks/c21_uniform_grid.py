import numpy
import fieldlib as fl
from core import Group

ID = 'C21'
TECHNIQUE = 'runtime monitoring: entries generated on all ranks are tallied per mesh cell and matched with cell ownership and identifiers'
RULE = ('random distributed meshes and shifts; entries over all ranks are matched one to one with mesh cells, their owner and their C-order number. '
        'Non-trivial when the mesh has more than one cell; distinct by (mesh, precision, process mesh, shift).')
ASSUMPTIONS = ['positions agree to 1e-12 (single-precision meshes 1e-6) of the box']


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size)
    k = str(rng.choice(['zero', 'half', 'scalar', 'vector', 'none']))
    nd = len(m['N'])
    shift = {'zero': 0, 'half': 0.5, 'none': None}.get(k)
    if k == 'scalar':
        shift = float(rng.uniform(-2, 2))
    if k == 'vector':
        shift = [float(x) for x in rng.uniform(-2, 2, size=nd)]
    return dict(m=m, shift=shift, id=bool(rng.randint(2)), dtype=str(rng.choice(['default', 'f8', 'f8', 'f4'])))


def run(ctx, s):
    m = s['m']
    N = numpy.array(m['N'])
    nd = len(N)
    pm = fl.make(m, ctx.comm)
    shift = 0.5 if s['shift'] is None else s['shift']
    kw = {} if s['dtype'] == 'default' else dict(dtype=s['dtype'])
    r = pm.generate_uniform_particle_grid(shift=s['shift'], return_id=s['id'], **kw)
    if s['id']:
        q, ids = r
        ctx.check(ids.shape == (len(q),) and ids.dtype.kind in 'iu' and ids.dtype.itemsize == 8, 'id-shape', str(ids.dtype))
    else:
        q, ids = r, None
    ctx.check(q.ndim == 2 and q.shape[1] == nd and q.dtype.kind == 'f', 'shape', '%s %s' % (q.shape, q.dtype))
    eps = 1e-12 if q.dtype == numpy.dtype('f8') and s['dtype'] != 'f4' else 1e-6
    box = numpy.array(m['box'])
    cell = (numpy.asarray(q, 'f8') / box * N - shift)
    icell = numpy.round(cell).astype('i8')
    ctx.close(cell, icell.astype('f8'), 'position', '%s' % m, rtol=0, atol=eps * (N.max() + 4) * 4)
    f = pm.create('real')
    own = numpy.array([[sl.start, sl.stop] for sl in f.slices]).T
    ctx.check(len(q) == f.size, 'count', lambda: '%d entries for %d local cells' % (len(q), f.size))
    ctx.check(((icell >= own[0]) & (icell < own[1])).all(), 'owner', lambda: 'entries outside the local mesh %s' % own.tolist())
    allc = numpy.concatenate(ctx.gather(icell.reshape(-1, nd)))
    ok = ((allc >= 0) & (allc < N)).all()
    ctx.check(ok, 'inside', 'an entry is at no cell')
    if ok:
        flat = numpy.ravel_multi_index(allc.T, N)
        cnt = numpy.bincount(flat, minlength=int(N.prod()))
        ctx.check((cnt == 1).all(), 'once', lambda: '%d cells have no entry, %d several' % ((cnt == 0).sum(), (cnt > 1).sum()))
        if ids is not None:
            allid = numpy.concatenate(ctx.gather(ids))
            ctx.check(numpy.array_equal(allid, flat), 'id', lambda: '%s: ids %s for cells %s' % (m, allid[:8], flat[:8]))
            ctx.ev('ids', len(ids))
    ctx.ev('entries', len(q))
    # mesh coordinates
    for dt in (None, 'i4', 'f8'):
        c = pm.mesh_coordinates(dtype=dt)
        ctx.check(c.shape == (f.size, nd), 'coords-shape', str(c.shape))
        a = numpy.concatenate(ctx.gather(numpy.asarray(c, 'f8').reshape(-1, nd)))
        ctx.check(numpy.array_equal(numpy.sort(numpy.ravel_multi_index(a.astype('i8').T, N)) if ((a >= 0) & (a < N)).all() else None,
                                    numpy.arange(N.prod())), 'coords-once', str(m))
        ctx.check(numpy.array_equal(numpy.asarray(c, 'i8'), icell) if len(c) == len(icell) else False, 'coords-match', 'mesh_coordinates and the grid list different cells')
        c[...] = 0      # the caller's own array
    r2 = pm.generate_uniform_particle_grid(shift=s['shift'], **kw)
    ctx.same(numpy.array(r2), numpy.array(q), 'repeat', 'a second grid differs')
    # an index-coded field read at the grid gives the cell numbers
    if shift == 0 or numpy.all(numpy.asarray(shift) == 0):
        g = numpy.arange(N.prod()).reshape(N)
        f.value[...] = g[f.slices]
        v = f.readout(numpy.array(q), resampler='nnb', layout=pm.decompose(numpy.array(q), smoothing='nnb'))
        ctx.close(v, numpy.ravel_multi_index(icell.T, N).astype('f8'), 'readback', '', rtol=1e-6)
    if N.prod() > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), s['shift'])


# more than 2**31 numbers must not be needed, but the products must be taken in C order of the mesh
GROUPS = [Group('grid', gen, run, quick=200, thorough=9000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=200) for r in (1, 2, 3, 4, 5, 6, 8)]
