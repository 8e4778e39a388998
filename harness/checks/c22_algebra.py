import operator

import numpy
import fieldlib as fl
from core import Group

ID = 'C22'
TECHNIQUE = 'runtime monitoring: random programs of field operations mirrored on plain arrays; after every step results, kinds, aliasing and the bytes of all bystander fields are compared'
RULE = ('random programs of arithmetic, ufuncs, assignments, copies and casts over a pool of fields on a distributed mesh, mirrored on global arrays; after every step all fields of the pool are compared. '
        'Non-trivial when the mesh has more than one element; distinct by (mesh, precision, process mesh, kind, program).')
ASSUMPTIONS = ['results of ufuncs that keep the shape become fields of the kind and precision of the first field operand; booleans and other shapes stay arrays',
               'casts between kinds go through the transform (compared within rounding), everything else bit for bit']
BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'max': numpy.maximum, 'hypot': None, 'pow2': None}
IBIN = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv}
CMP = {'lt': operator.lt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}
OPS = ['ff', 'fs', 'sf', 'fa', 'af', 'ifs', 'iff', 'neg', 'abs', 'copy', 'assign', 'create', 'createf', 'castsame', 'cmp', 'out', 'outs', 'reduce', 'accum', 'at',
       'item', 'slab', 'cast', 'modf', 'conj', 'bad', 'array', 'view', 'where']


def gen(rng, ctx):
    return dict(m=fl.gen_mesh(rng, ctx.size, cap={2: 8, 3: 6}), type=str(rng.choice(fl.TYPES)), pseed=int(rng.randint(2 ** 31 - 1)),
                prog=[[str(rng.choice(OPS)), int(rng.randint(3)), int(rng.randint(3)), int(rng.randint(3)), int(rng.randint(1000))] for _ in range(14)])


def run(ctx, s):
    m, t = s['m'], s['type']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    shape = fl.cN(m, t)
    dt = numpy.dtype(fl.fulltype(m, t))
    cplx = dt.kind == 'c'

    def rnd():
        g = rng.normal(size=shape) + (1j * rng.normal(size=shape) if cplx else 0)
        return g.astype(dt)
    cls = type(pm.create(t))
    G = [rnd() for _ in range(3)]           # global model of each field of the pool
    F = [fl.field(pm, t, g) for g in G]
    loc = F[0].slices
    trace = []
    known = list(G)
    ulp = 1e-14 if fl.REAL[m['dtype']] == 'f8' else 1e-5

    def verify(what):
        for k in range(3):
            a = numpy.array(F[k].value)
            b = G[k][loc]
            if a.shape != b.shape or a.dtype != b.dtype:
                ctx.same(a, b, 'value', '%s (field %d) after %s' % (what, k, trace))
                continue
            if G[k] is known[k]:
                # a bystander: not one bit may change
                ctx.same(a, b, 'bystander', '%s (field %d) after %s' % (what, k, trace))
            else:
                bad = ~(numpy.isclose(a, b, rtol=ulp, atol=0, equal_nan=True))
                if bad.any():
                    w = tuple(x[0] for x in numpy.nonzero(bad))
                    ctx.fail('value', '%s (field %d) at %s: %r instead of %r; after %s' % (what, k, w, a[w], b[w], trace))
        for k in range(3):
            if not G[k] is known[k]:
                G[k] = known[k] = fl.whole(ctx, F[k])
        ctx.ev('checks', 3)
        for a in range(3):
            for b in range(a):
                if F[a].size and F[a] is not F[b]:
                    ctx.check(not numpy.shares_memory(F[a].value, F[b].value), 'aliasing', '%s: fields share memory' % what)

    def isfield(r, what):
        ctx.check(type(r) is cls and r.pm is pm and r.dtype == dt, 'kind', lambda: '%s gave %s %s' % (what, type(r).__name__, getattr(r, 'dtype', None)))

    for op, a, b, c, z in s['prog']:
        trace.append('%s%d%d%d' % (op, a, b, c))
        trace[:] = trace[-6:]
        sc = float(dt.type(0).real.dtype.type([2.0, -0.5, 3.25, 1e3][z % 4]))
        with numpy.errstate(all='ignore'):
            if op in ('ff', 'fs', 'sf', 'fa', 'af'):
                name = ['add', 'sub', 'mul', 'div'][z % 4]
                fn = BIN[name]
                arr = rnd()
                x, y = {'ff': (F[a], F[b]), 'fs': (F[a], sc), 'sf': (sc, F[a]), 'fa': (F[a], arr[loc]), 'af': (arr[loc], F[a])}[op]
                gx, gy = {'ff': (G[a], G[b]), 'fs': (G[a], sc), 'sf': (sc, G[a]), 'fa': (G[a], arr), 'af': (arr, G[a])}[op]
                r = fn(x, y)
                isfield(r, op + name)
                w = fn(gx, gy).astype(dt)
                F[c], G[c] = r, w
            elif op == 'ifs':
                fn = IBIN[['add', 'sub', 'mul', 'div'][z % 4]]
                old = F[a]
                mem = F[a].value
                r = fn(F[a], sc)
                ctx.check(r is old and r.value is mem, 'in-place', 'ifs gave another object')
                G[a] = fn(G[a].copy(), sc)
            elif op == 'iff':
                if a != b:
                    fn = IBIN[['add', 'sub', 'mul', 'div'][z % 4]]
                    old = F[a]
                    r = fn(F[a], F[b])
                    ctx.check(r is old, 'in-place', 'iff gave another object')
                    # an alias keeps following
                    G[a] = fn(G[a].copy(), G[b])
            elif op == 'neg':
                r = -F[a]
                isfield(r, op)
                F[c], G[c] = r, -G[a]
            elif op == 'abs':
                r = abs(F[a])
                isfield(r, op)
                F[c], G[c] = r, abs(G[a]).astype(dt)
            elif op == 'conj':
                r = numpy.conj(F[a])
                isfield(r, op)
                F[c], G[c] = r, numpy.conj(G[a])
            elif op == 'copy':
                r = F[a].copy()
                isfield(r, op)
                F[c], G[c] = r, G[a].copy()
            elif op == 'assign':
                F[a][...] = F[b]
                G[a] = G[b].copy()
            elif op == 'create':
                v = rnd()
                vv = v[loc].copy()
                r = pm.create(type=[t, cls][z % 2], value=vv)
                isfield(r, op)
                ctx.check(not vv.size or not numpy.shares_memory(vv, r.value), 'aliasing', 'create shares the given value')
                F[c], G[c] = r, v
            elif op == 'createf':
                r = pm.create(type=cls, value=F[a])
                isfield(r, op)
                F[c], G[c] = r, G[a].copy()
            elif op == 'castsame':
                r = F[a].cast(type=cls)
                isfield(r, op)
                F[c], G[c] = r, G[a].copy()
            elif op == 'cmp':
                if not cplx or z % 4 > 1:
                    fn = CMP[['lt', 'ge', 'eq', 'ne'][z % 4]]
                    r = fn(F[a], F[b] if z % 8 > 3 else sc)
                    ctx.check(isinstance(r, numpy.ndarray) and r.dtype == bool, 'boolean', str(type(r)))
                    ctx.same(numpy.asarray(r), fn(G[a], G[b] if z % 8 > 3 else sc)[loc], 'comparison')
            elif op == 'out':
                r = numpy.add(F[a], F[b], out=F[c])
                ctx.check(r is F[c], 'in-place', 'a ufunc with out gave another object')
                G[c] = G[a] + G[b]
            elif op == 'outs':
                o = numpy.zeros(F[a].shape, dtype=dt)
                r = numpy.multiply(F[a], sc, out=o)
                ctx.check(r is o, 'in-place', 'a ufunc with an array for out gave another object')
                ctx.close(o, (G[a] * dt.type(sc))[loc], 'ufunc-out-array', '', rtol=ulp)
            elif op == 'reduce':
                r = numpy.add.reduce(F[a], axis=z % len(shape))
                ctx.check(not isinstance(r, cls), 'reduced-kind', str(type(r)))
                ctx.close(numpy.asarray(r), G[a][loc].sum(axis=z % len(shape)), 'reduce', '', rtol=fl.tol(m, 10), atol=0 if not F[a].size else fl.tol(m) * numpy.abs(G[a][loc][numpy.isfinite(G[a][loc])]).sum())
            elif op == 'accum':
                r = numpy.add.accumulate(F[a], axis=z % len(shape))
                ctx.close(numpy.asarray(r), numpy.add.accumulate(G[a][loc], axis=z % len(shape)), 'accumulate', '', rtol=fl.tol(m, 10))
                isfield(r, op)
            elif op == 'at':
                if F[a].size:
                    numpy.add.at(F[a], numpy.array([0, 0, F[a].shape[0] - 1]), sc)
                # mirrored locally, then shared
                l = G[a][loc].copy()
                if l.size:
                    numpy.add.at(l, numpy.array([0, 0, l.shape[0] - 1]), sc)
                G[a] = fl.assemble(ctx, F[a].start, l, shape)
            elif op == 'item':
                l = G[a][loc].copy()
                if l.size:
                    sl = tuple(slice(z % n, None, 2) for n in l.shape)
                    ctx.same(numpy.array(F[a][sl]), l[sl], 'getitem')
                    F[a][sl] = sc
                    l[sl] = sc
                G[a] = fl.assemble(ctx, F[a].start, l, shape)
            elif op == 'slab':
                for sl in F[a].slabs:
                    sl[...] *= sc
                G[a] = G[a] * dt.type(sc)
            elif op == 'modf':
                if not cplx:
                    r, q = numpy.modf(F[a])
                    isfield(r, op)
                    isfield(q, op)
                    gr, gq = numpy.modf(G[a])
                    ctx.same(numpy.array(r.value), gr[loc], 'modf')
                    ctx.same(numpy.array(q.value), gq[loc], 'modf')
            elif op == 'array':
                x = numpy.asarray(F[a])
                ctx.same(numpy.array(x), G[a][loc], 'asarray')
                y = numpy.array(F[a])
                y[...] = 9
                x2 = numpy.asarray(F[a], dtype='c16')
                ctx.check(x2.dtype == numpy.dtype('c16') or x2.dtype == dt, 'asarray-dtype')
                ctx.check(F[a].shape == F[a].value.shape and F[a].dtype == dt, 'attributes')
                ctx.check(len(repr(F[a])) > 0, 'repr')
            elif op == 'view':
                if t != 'real':
                    ctx.check(F[a].real.size == F[a].size, 'real-view')
                    F[a].real[...] += 1
                    F[a].imag[...] *= 2
                    g = G[a].copy()
                    g.real += 1
                    g.imag *= 2
                    G[a] = g
                    ctx.same(numpy.array(F[a].plain[..., 0]), G[a].real[loc], 'plain')
                    ctx.same(numpy.array(F[a].plain[..., 1]), G[a].imag[loc], 'plain')
            elif op == 'where':
                if not cplx:
                    F[a][F[a] > 0] = sc
                    G[a] = numpy.where(G[a] > 0, dt.type(sc), G[a])
            elif op == 'bad':
                for x in ([1, 2], None, 'a', dict()):
                    try:
                        F[a] + x
                    except TypeError:
                        ctx.ev('refused')
                    else:
                        ctx.check(False, 'refuse', 'field + %r did not raise TypeError' % (x,))
            elif op == 'cast':
                # out-of-place casts between kinds of finite Hermitian data
                g = rng.normal(size=m['N']) + (1j * rng.normal(size=m['N']) if m['dtype'][0] == 'c' else 0)
                g = g.astype(fl.fulltype(m, 'real'))
                src = [fl.field(pm, 'real', g)]
                want = {'real': g.astype('c16')}
                sp = fl.spectrum(g.astype('c16'), m)
                for ty in fl.CTYPES:
                    want[ty] = sp
                    src.append(src[0].cast(type=ty))
                x = src[z % 3]
                keep = x.value.copy()
                for ty in fl.TYPES:
                    r = x.cast(type=ty)
                    ctx.check(type(r) is type(pm.create(ty)), 'cast-kind', ty)
                    ctx.close(numpy.asarray(r.value), want[ty][r.slices], 'cast', '%s to %s' % (fl.TYPES[z % 3], ty), rtol=fl.tol(m, 6), atol=fl.tol(m, 6) * (numpy.abs(want[ty]).max()))
                    o = pm.create(ty)
                    r2 = x.cast(type=ty, out=o)
                    ctx.close(numpy.asarray(o.value), numpy.asarray(r.value), 'cast-out', ty, rtol=fl.tol(m, 3))
                    ctx.check(not o.size or numpy.shares_memory(r2.value, o.value), 'cast-out-memory', ty)
                    ctx.check(not r.size or not numpy.shares_memory(r.value, x.value), 'aliasing', 'cast shares memory')
                ctx.same(numpy.array(x.value), keep, 'operand-kept', 'cast')
        verify(op)
        ctx.ev('steps')
        for k in range(3):
            bad = ~numpy.isfinite(G[k])
            big = numpy.abs(numpy.where(bad, 0, G[k])) > 1e15
            if bad.any() or big.any():
                G[k] = known[k] = rnd()
                fl.put(F[k], G[k])
    if G[0].size > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), t, str(s['prog'])[:50])


GROUPS = [Group('program', gen, run, quick=200, thorough=9000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0 if r < 4 else 1.5) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 6)]
