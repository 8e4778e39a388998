import importlib.util
import os
import sys

import numpy
import fieldlib as fl
import winlib
from core import Group

ID = 'C30'
TECHNIQUE = ('runtime monitoring: histories of mixed operations on fields and particles of several meshes; after every operation the gathered result is compared with '
             'numpy on the global state, and a frame monitor checks that nothing else changed a bit; particle ledger (each identity on exactly one rank)')
RULE = ('random histories of painting, transforming, filtering, algebra, resampling, flattening, reading out, moving and migrating particles over a pool of fields and '
        'particle sets on two meshes; whole particle-mesh simulations and the spectral wave solver of examples/. Non-trivial when the history has at least 8 operations '
        '(simulation: 2 steps); distinct by (mesh, precision, process mesh, sequence of operations).')
ASSUMPTIONS = ['transfer functions keep the spectrum of a real mesh Hermitian', 'modes on Nyquist planes are not compared after resampling (such meshes are not resampled here)',
               'each operation agrees within its own rounding; the state is carried on from the actual values',
               'particles have finite positions; windows are continuous']
WINDOWS = ['tunedcic', 'tunedtsc', 'tunedpcs', 'linear', 'quadratic', 'cubic', 'lanczos2']
NAMES = {'tunedcic': 'cic', 'tunedtsc': 'tsc', 'tunedpcs': 'pcs'}
OPS = ['new', 'r2c', 'r2c', 'c2r', 'c2r', 'transfer', 'rapply', 'alg', 'inplace', 'copy', 'assign', 'scalars', 'flat', 'resample', 'preview',
       'element', 'paint', 'paint', 'readout', 'readout', 'move', 'migrate', 'newparts', 'layout', 'updown', 'transpose']


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, dtypes=('f8', 'f8', 'f4'), cap={2: 12, 3: 8}, lo=2)
    if rng.randint(2):
        # odd meshes have no ambiguous modes and can be resampled
        m['N'] = [n + 1 - n % 2 for n in m['N']]
    o = dict(m, N=[max(2, n + int(rng.randint(-2, 3)) * 2) for n in m['N']], np=fl.gen_np(rng, len(m['N']), ctx.size))
    return dict(m=m, o=o, ops=[[str(rng.choice(OPS)), int(rng.randint(2 ** 31 - 1))] for _ in range(int(rng.randint(12, 26)))],
                pseed=int(rng.randint(2 ** 31 - 1)))


class F(object):
    """a field: the object, its global values"""
    def __init__(self, k, type, f):
        self.k, self.type, self.f = k, type, f


class Parts(object):
    def __init__(self, id, x, v):
        self.id, self.x, self.v = id, x, v
        self.layout = None      # (window, mesh) -> layout


def wmodel(kind, m, pos):
    N = m['N']
    ws = dict(kind=kind, shape=N, period=N, translate=[0.0] * len(N), scale=[n / b for n, b in zip(N, m['box'])], support=None)
    return winlib.model(ws, pos, None, None)


def smoothing(kind):
    return winlib.native(kind) * 0.5


class World(object):
    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.ms = [s['m'], s['o']]
        self.pms = [fl.make(m, ctx.comm) for m in self.ms]
        self.fields, self.parts = [], []
        self.trace = []
        self.nid = 0

    # --- monitors
    def remember(self):
        for a in self.fields:
            a.bytes = a.f.value.tobytes()
        for p in self.parts:
            p.bytes = p.id.tobytes(), p.x.tobytes(), p.v.tobytes()

    def frame(self, touched):
        c = self.ctx
        for i, a in enumerate(self.fields):
            if a not in touched:
                c.check(a.f.value.tobytes() == a.bytes, 'frame', lambda: '%s field %d changed in %s' % (a.type, i, self.trace[-3:]))
                c.ev('frames')
        for i, p in enumerate(self.parts):
            if p not in touched:
                c.check((p.id.tobytes(), p.x.tobytes(), p.v.tobytes()) == p.bytes, 'frame', lambda: 'particle set %d changed in %s' % (i, self.trace[-3:]))
                c.ev('frames')

    def g(self, a):
        w = fl.whole(self.ctx, a.f)
        return w.astype('f8' if a.type == 'real' else 'c16')

    def expect(self, a, want, scale, k=20):
        m = self.ms[a.k]
        self.ctx.close(self.g(a), want, 'result', '%s; %s' % (m, self.trace[-3:]), rtol=0, atol=fl.tol(m, k) * (scale + 1e-300))
        self.ctx.ev('results')

    def ledger(self, p):
        """id -> (x, v) over all ranks"""
        ids = numpy.concatenate(self.ctx.comm.allgather(p.id))
        x = numpy.concatenate(self.ctx.comm.allgather(p.x))
        v = numpy.concatenate(self.ctx.comm.allgather(p.v))
        o = numpy.argsort(ids, kind='stable')
        return ids[o], x[o], v[o]

    # --- choices
    def pick(self, r, type=None, k=None):
        c = [a for a in self.fields if (type is None or (a.type == type if isinstance(type, str) else a.type in type)) and (k is None or a.k == k)]
        return c[r.randint(len(c))] if c else None

    def add(self, k, type, f):
        a = F(k, type, f)
        self.ctx.check(f.pm is self.pms[k] and type_of(f) == type, 'kind', lambda: '%s for %s' % (type_of(f), type))
        if len(self.fields) >= 6:
            self.fields.pop(0)
        self.fields.append(a)
        return a

    def output(self, r, k, type):
        """None, or an existing field to overwrite"""
        if r.randint(2):
            return self.pick(r, type, k)
        return None


def type_of(f):
    return {'RealField': 'real', 'TransposedComplexField': 'transposedcomplex', 'UntransposedComplexField': 'untransposedcomplex'}[type(f).__name__]


def run(ctx, s):
    w = World(ctx, s)
    rng = numpy.random.RandomState(s['pseed'])
    newfield(w, rng, 0, 'real')
    newparts(w, rng)
    done = []
    for op, sd in s['ops']:
        r = numpy.random.RandomState(sd)
        w.remember()
        w.trace.append(op)
        touched = globals()['op_' + op](w, r)
        if touched is None:
            w.trace.pop()
            continue
        done.append(op)
        w.frame(touched)
        # keep the numbers within bounds
        for a in w.fields:
            big = abs(a.f.value).max() if a.f.value.size else 0
            big = max(ctx.comm.allgather(float(big)))
            ctx.check(numpy.isfinite(big), 'finite', str(w.trace[-3:]))
            if big > 100:
                a.f[...] *= 2.0 ** -numpy.ceil(numpy.log2(big))
        ctx.ev('operations')
    if len(done) >= 8:
        ctx.sig(tuple(s['m']['N']), tuple(s['o']['N']), s['m']['dtype'], tuple(s['m']['np'] or ()), tuple(done))


def newfield(w, r, k, type):
    m = w.ms[k]
    g = fl.gvalues(r, m)
    if type != 'real':
        g = fl.spectrum(g, m)
    f = fl.field(w.pms[k], type, g)
    return w.add(k, type, f)


def op_new(w, r):
    k = r.randint(2)
    t = str(r.choice(fl.TYPES))
    if r.randint(3) == 0 and t != 'real':
        seed = int(r.randint(1, 1000))
        f = w.pms[k].generate_whitenoise(seed, type=t)
        a = w.add(k, t, f)
    else:
        a = newfield(w, r, k, t)
    return [a]


def newparts(w, r):
    ctx = w.ctx
    m = w.ms[0]
    nd = len(m['N'])
    if r.randint(3) == 0:
        x, i = w.pms[0].generate_uniform_particle_grid(shift=float(r.uniform(-0.4, 0.4)), return_id=True)
        n = int(numpy.prod(m['N']))
        ids = numpy.asarray(i, 'i8').copy()
        allid = numpy.sort(numpy.concatenate(ctx.comm.allgather(ids)))
        ctx.check(numpy.array_equal(allid, numpy.arange(n)), 'ledger', 'uniform particles')
        x = numpy.array(x, 'f8')
    else:
        n = int(r.choice([0, 3, 20, 60, 150]))
        X = r.uniform(-0.5, 1.5, size=(n, nd)) * m['box']
        own = r.randint(ctx.size, size=n) if r.randint(3) else numpy.zeros(n, int) + r.randint(ctx.size)
        ids = numpy.arange(n)[own == ctx.rank]
        x = X[ids]
    V = r.normal(size=n)
    p = Parts(ids, x.copy(), V[ids].copy())
    p.n = n
    if len(w.parts) >= 2:
        w.parts.pop(0)
    w.parts.append(p)
    return p


def op_newparts(w, r):
    return [newparts(w, r)]


def op_r2c(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    m = w.ms[a.k]
    t = str(r.choice(fl.CTYPES))
    g = w.g(a)
    want = fl.spectrum(g, m)
    way = r.randint(3)
    if way == 2 and t == 'transposedcomplex':
        f = a.f.r2c(out=Ellipsis)
        w.fields.remove(a)
        b = w.add(a.k, t, f)
    else:
        o = w.output(r, a.k, t)
        if o is None:
            b = w.add(a.k, t, a.f.cast(type=t) if t != 'transposedcomplex' or way else a.f.r2c())
        else:
            f = a.f.r2c(out=o.f)
            w.ctx.check(f is o.f, 'returns-out')
            b = o
    w.expect(b, want, abs(g).max())
    return [b]


def op_c2r(w, r):
    a = w.pick(r, fl.CTYPES)
    if a is None:
        return None
    m = w.ms[a.k]
    F_ = w.g(a)
    full = fl.expand(F_, m)
    want = numpy.fft.ifftn(full).real * full.size
    way = r.randint(3)
    if way == 2:
        f = a.f.c2r(out=Ellipsis)
        w.fields.remove(a)
        b = w.add(a.k, 'real', f)
    else:
        o = w.output(r, a.k, 'real')
        if o is None:
            b = w.add(a.k, 'real', a.f.c2r())
        else:
            f = a.f.c2r(out=o.f)
            w.ctx.check(f is o.f, 'returns-out')
            b = o
    # the field a spectrum describes, if the planes that are their own conjugates are conjugate
    w.expect(b, want, abs(full).sum(), k=10)
    return [b]


def axes(w, a):
    m = w.ms[a.k]
    N = m['N']
    nd = len(N)
    return [fl.freq(N[d])[:n].reshape([-1 if j == d else 1 for j in range(nd)]) for d, n in enumerate(fl.cN(m, a.type))]


def op_transfer(w, r):
    a = w.pick(r, fl.CTYPES)
    if a is None:
        return None
    m = w.ms[a.k]
    N, box = m['N'], m['box']
    i = axes(w, a)
    F_ = w.g(a)
    what = r.randint(4)
    d = r.randint(len(N))
    if what == 0:
        L = float(min(b / n for b, n in zip(box, N)))
        kind = 'wavenumber'
        func = lambda k, v: v * numpy.exp(-0.1 * L ** 2 * sum(ki ** 2 for ki in k))
        T = numpy.exp(-0.1 * L ** 2 * sum((2 * numpy.pi / b * q) ** 2 for q, b in zip(i, box)))
    elif what == 1:
        kind = 'circular'
        # an odd function that vanishes at the Nyquist frequency
        func = lambda c, v: 1j * numpy.sin(c[d]) * v
        T = 1j * numpy.sin(2 * numpy.pi * i[d] / N[d])
        T = numpy.where(numpy.broadcast_to((2 * i[d]) % N[d] == 0, F_.shape), 0, T)
    elif what == 2:
        kind = 'index'
        # the index on the compressed axis counts from zero; even and periodic in the others
        func = lambda q, v: v * (1 + sum(numpy.cos(2 * numpy.pi * 1.0 * qi / n) for qi, n in zip(q, v.Nmesh)) / len(q))
        T = 1 + sum(numpy.cos(2 * numpy.pi * q / n) for q, n in zip(i, N)) / len(N)
    else:
        kind = 'wavenumber'
        func = lambda k, v: v / numpy.where(k.normp(2) == 0, 1.0, k.normp(2)) * 0.01
        k2 = sum((2 * numpy.pi / b * q) ** 2 for q, b in zip(i, box))
        T = 0.01 / numpy.where(k2 == 0, 1.0, k2)
    want = F_ * T
    way = r.randint(3)
    if way == 0:
        f = a.f.apply(func, kind=kind, out=Ellipsis)
        w.ctx.check(f is a.f, 'in-place')
        b = a
    else:
        o = w.output(r, a.k, a.type)
        if o is None:
            b = w.add(a.k, a.type, a.f.apply(func, kind=kind))
        else:
            f = a.f.apply(func, kind=kind, out=o.f)
            w.ctx.check(f is o.f, 'returns-out')
            b = o
    w.expect(b, want, abs(F_).max() * abs(T).max())
    return [b]


def op_rapply(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    m = w.ms[a.k]
    N, box = m['N'], m['box']
    nd = len(N)
    g = w.g(a)
    d = r.randint(nd)
    if r.randint(2):
        kind = 'index'
        func = lambda i, v: v * numpy.cos(2 * numpy.pi * i[d] / v.Nmesh[d]) + 0.25 * i[d]
        i = numpy.arange(N[d]).reshape([-1 if j == d else 1 for j in range(nd)])
        want = g * numpy.cos(2 * numpy.pi * i / N[d]) + 0.25 * i
    else:
        kind = 'relative'
        func = lambda x, v: v * v + sum(numpy.exp(-(xi / L) ** 2) for xi, L in zip(x, v.BoxSize))
        x = [(fl.freq(N[j]) * 1.0 / N[j]).reshape([-1 if q == j else 1 for q in range(nd)]) for j in range(nd)]
        want = g * g + sum(numpy.exp(-xi ** 2) for xi in x)
    if r.randint(2):
        a.f.apply(func, kind=kind, out=Ellipsis)
        b = a
    else:
        o = w.output(r, a.k, 'real')
        b = w.add(a.k, 'real', a.f.apply(func, kind=kind, out=None if o is None else o.f)) if o is None else o
        if o is not None:
            a.f.apply(func, kind=kind, out=o.f)
    w.expect(b, want, abs(want).max() + abs(g).max() ** 2 + abs(g).max())
    return [b]


def op_alg(w, r):
    a = w.pick(r)
    if a is None:
        return None
    b = w.pick(r, a.type, a.k)
    g, h = w.g(a), w.g(b)
    k = r.randint(5)
    c = float(r.choice([0.5, -1.25, 2.0]))
    if k == 0:
        f, want = a.f + b.f, g + h
    elif k == 1:
        f, want = a.f - b.f * c, g - h * c
    elif k == 2:
        f, want = c * a.f, c * g
    elif k == 3 and a.type == 'real':
        f, want = a.f * b.f, g * h
    else:
        f, want = -a.f / 2, -g / 2
    n = w.add(a.k, a.type, f)
    w.expect(n, want, (abs(g).max() + 1) * (abs(h).max() + 1) * 4)
    return [n]


def op_inplace(w, r):
    a = w.pick(r)
    if a is None:
        return None
    b = w.pick(r, a.type, a.k)
    g, h = w.g(a), w.g(b)
    k = r.randint(4)
    if k == 0:
        a.f[...] += b.f
        want = g + h
    elif k == 1:
        a.f[...] *= 0.75
        want = g * 0.75
    elif k == 2:
        f = a.f
        f -= b.f
        w.ctx.check(f is a.f, 'in-place')
        want = g - h
    else:
        a.f[...] = b.f * 2
        want = 2 * h
    w.expect(a, want, abs(g).max() + 2 * abs(h).max())
    return [a]


def op_copy(w, r):
    a = w.pick(r)
    if a is None:
        return None
    g = w.g(a)
    n = w.add(a.k, a.type, a.f.copy() if r.randint(2) else w.pms[a.k].create(a.type, value=a.f))
    w.expect(n, g, 0)
    w.remember()    # writing to the copy must not reach the original, and the reverse
    if r.randint(2):
        n.f[...] = 1.0
        return [n]
    a.f[...] *= 0.5
    return [a]


def op_assign(w, r):
    a = w.pick(r)
    if a is None:
        return None
    b = w.pick(r, a.type, a.k)
    g = w.g(b)
    a.f[...] = b.f if r.randint(2) else b.f.value
    w.expect(a, g, 0)
    return [a]


def op_scalars(w, r):
    a = w.pick(r)
    if a is None:
        return None
    m = w.ms[a.k]
    b = w.pick(r, a.type, a.k)
    g, h = w.g(a), w.g(b)
    c = w.ctx

    def sc(v, want, scale, what):
        fl.agree(c, numpy.asarray(v), 'ranks-agree', what)
        c.close(numpy.asarray(v), want, 'scalar', '%s of %s, %s' % (what, m, w.trace[-3:]), rtol=0, atol=fl.tol(m, 5) * (scale + 1e-300))
        c.ev('scalars')
    if a.type == 'real':
        sc(a.f.csum(), g.sum(), abs(g).sum(), 'csum')
        sc(a.f.cmean(), g.mean(), abs(g).mean(), 'cmean')
        sc(a.f.cdot(b.f), (g * h).sum(), abs(g * h).sum(), 'cdot')
        sc(a.f.cnorm(), (g * g).sum(), (g * g).sum(), 'cnorm')
    else:
        G, H = fl.expand(g, m), fl.expand(h, m)
        sc(numpy.real(a.f.cdot(b.f)), (G * H.conj()).sum().real, abs(G * H).sum(), 'cdot')
        sc(a.f.cnorm(), (abs(G) ** 2).sum(), (abs(G) ** 2).sum(), 'cnorm')
    return []


def op_flat(w, r):
    a = w.pick(r)
    if a is None:
        return None
    g = w.g(a)
    flat = numpy.array(a.f.ravel())
    seq = numpy.concatenate(w.ctx.comm.allgather(flat))
    w.ctx.same(seq.astype(g.dtype), g.ravel(), 'flat', str(w.trace[-3:]))
    # reversed order, each rank bringing its part
    n = [len(x) for x in w.ctx.comm.allgather(flat)]
    off = sum(n[:w.ctx.rank])
    rev = seq[::-1][off:off + len(flat)].copy()
    t = a.type if a.type == 'real' else str(r.choice(fl.CTYPES))
    b = w.add(a.k, 'real' if a.type == 'real' else t, w.pms[a.k].unravel(t, rev))
    w.expect(b, g.ravel()[::-1].reshape(g.shape), 0)
    if t != 'real':
        # no longer the spectrum of a real field
        w.fields.remove(b)
    return [b]


def op_resample(w, r):
    if any(n % 2 == 0 for m in w.ms for n in m['N']):
        return None
    a = w.pick(r)
    if a is None:
        return None
    k = r.randint(2)
    t = str(r.choice(fl.TYPES))
    m, o = w.ms[a.k], w.ms[k]
    g = w.g(a)
    full = fl.expand(fl.spectrum(g, m) if a.type == 'real' else g, m)
    f = w.pms[k].create(t)
    a.f.resample(f)
    b = w.add(k, t, f)
    want = numpy.zeros(o['N'], 'c16')
    ks = [fl.freq(n) for n in o['N']]
    shared = numpy.ones(o['N'], bool)
    for d, q in enumerate(ks):
        shared = shared & (2 * abs(q) < m['N'][d]).reshape([-1 if j == d else 1 for j in range(len(ks))])
    want = numpy.where(shared, full[numpy.ix_(*[q % n for q, n in zip(ks, m['N'])])], 0)
    scale = abs(full).sum()
    want = (numpy.fft.ifftn(want) * want.size).real if t == 'real' else want[tuple(slice(0, n) for n in fl.cN(o, t))]
    w.expect(b, want, scale)
    return [b]


def op_preview(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    nd = len(w.ms[a.k]['N'])
    ax = sorted(r.choice(nd, size=r.randint(1, nd + 1), replace=False).tolist())
    g = w.g(a)
    p = a.f.preview(axes=ax)
    want = g.sum(axis=tuple(d for d in range(nd) if d not in ax))
    w.ctx.close(numpy.asarray(p, 'f8'), want, 'preview', str(ax), rtol=0, atol=fl.tol(w.ms[a.k], 10) * abs(g).sum())
    return []


def op_element(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    g = w.g(a)
    i = [int(r.randint(-n, n)) for n in g.shape]
    v = a.f.cgetitem(i)
    w.ctx.check(v == g[tuple(i)], 'element', lambda: '%r for %r at %r' % (v, g[tuple(i)], i))
    y = numpy.dtype(w.ms[a.k]['dtype']).type(r.normal())
    a.f.csetitem(i, y)
    g[tuple(i)] = y
    w.expect(a, g, 0)
    return [a]


def layout_for(w, p, k, kind):
    """the decomposition of the current positions, made again or kept"""
    need = smoothing(kind)
    if p.layout is not None and p.layout[0] == k and p.layout[1] >= need:
        return p.layout[2]
    l = w.pms[k].decompose(p.x, smoothing=need)
    p.layout = (k, need, l)
    return l


def op_layout(w, r):
    """a wider decomposition to be used from now on"""
    if not w.parts:
        return None
    p = w.parts[r.randint(len(w.parts))]
    k = r.randint(2)
    sm = float(r.uniform(0, 4))
    p.layout = (k, sm, w.pms[k].decompose(p.x, smoothing=sm))
    return []


def op_paint(w, r):
    p = w.parts[r.randint(len(w.parts))]
    k = r.randint(2)
    m = w.ms[k]
    kind = str(r.choice(WINDOWS))
    ids, X, V = w.ledger(p)
    mass = r.randint(3)
    hold = bool(r.randint(2))
    o = w.output(r, k, 'real')
    old = w.g(o) if (o is not None and hold) else 0
    M = V if mass == 0 else numpy.ones(len(V)) * (1.0 if mass == 1 else 0.25)
    mloc = p.v if mass == 0 else (1.0 if mass == 1 else 0.25)
    lay = layout_for(w, p, k, kind)
    f = w.pms[k].paint(p.x, mass=mloc, layout=lay, resampler=NAMES.get(kind, kind), hold=hold if o is not None else False, out=None if o is None else o.f)
    if o is None:
        b = w.add(k, 'real', f)
    else:
        w.ctx.check(f is o.f, 'returns-out')
        b = o
    d = winlib.contract_paint(wmodel(kind, m, X), M) if len(M) else numpy.zeros(m['N'])
    w.expect(b, d + old, abs(M).sum() + numpy.max(abs(old)), k=20)
    if kind != 'lanczos2':      # its weights add up to one approximately
        w.ctx.close(numpy.asarray(b.f.csum()), M.sum() + numpy.sum(old), 'mass', str(w.trace[-3:]), rtol=0, atol=fl.tol(m, 20) * (abs(M).sum() + numpy.sum(abs(old)) + 1e-300))
    return [b]


def op_readout(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    p = w.parts[r.randint(len(w.parts))]
    m = w.ms[a.k]
    kind = str(r.choice(WINDOWS))
    ids, X, V = w.ledger(p)
    g = w.g(a)
    lay = layout_for(w, p, a.k, kind)
    if r.randint(2):
        out = numpy.full(len(p.x), 7.0)
        v = a.f.readout(p.x, layout=lay, resampler=NAMES.get(kind, kind), out=out)
        w.ctx.check(v is out, 'returns-out')
    else:
        v = a.f.readout(p.x, layout=lay, resampler=NAMES.get(kind, kind))
    v = numpy.array(v, 'f8')
    want = winlib.contract_read(wmodel(kind, m, X), g) if len(X) else V
    if len(p.id):
        w.ctx.close(v, want[p.id], 'result', 'readout %s, %s' % (kind, w.trace[-3:]), rtol=0, atol=fl.tol(m, 20) * (abs(g).max() * 3 + 1e-300))
    w.ctx.ev('read', len(v))
    if r.randint(2):
        p.v[...] = v
        return [p]
    return []


def op_move(w, r):
    p = w.parts[r.randint(len(w.parts))]
    nd = len(w.ms[0]['N'])
    V = r.normal(size=(p.n, nd)) * w.ms[0]['box'] * float(r.choice([0.01, 0.3, 2.0]))
    p.x += V[p.id]
    p.layout = None
    return [p]


def op_migrate(w, r):
    """particles move to the rank that owns their place"""
    p = w.parts[r.randint(len(w.parts))]
    k = r.randint(2)
    pm = w.pms[k]
    before = w.ledger(p)
    lay = pm.decompose(p.x, smoothing=0)
    if r.randint(2):
        id, x, v = lay.exchange(p.id), lay.exchange(p.x), lay.exchange(p.v)
    else:
        id, x, v = [numpy.array(a) for a in lay.exchange(p.id, p.x, p.v)]
    q = Parts(numpy.array(id), numpy.array(x), numpy.array(v))
    q.n = p.n
    after = w.ledger(q)
    for a, b, what in zip(before, after, ['identities', 'positions', 'values']):
        w.ctx.check(a.shape == b.shape and a.tobytes() == b.tobytes(), 'ledger', lambda: 'the %s of the particles are not those before migration; %s' % (what, w.trace[-3:]))
    w.ctx.ev('migrated', len(q.id))
    # they are home: nobody moves again
    l2 = pm.decompose(q.x, smoothing=0)
    w.ctx.check(l2.sendcounts.sum() == len(q.id) and l2.sendcounts[w.ctx.rank] == len(q.id), 'home', lambda: '%s of %d particles stay' % (l2.sendcounts, len(q.id)))
    w.parts[w.parts.index(p)] = q
    return [q]


def op_updown(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    k = 1 - a.k
    m, o = w.ms[a.k], w.ms[k]
    N1, N2 = m['N'], o['N']
    kind = str(r.choice(WINDOWS))
    g = w.g(a)
    nd = len(N1)
    up = r.randint(2)
    f = (w.pms[k].upsample if up else w.pms[k].downsample)(a.f, resampler=NAMES.get(kind, kind), keep_mean=False)
    b = w.add(k, 'real', f)
    if up:
        q = numpy.indices(N2).reshape(nd, -1).T.astype('f8')
        ws = dict(kind=kind, shape=N1, period=N1, translate=[0.0] * nd, scale=[1.0 * x / y for x, y in zip(N1, N2)], support=None)
        want = winlib.contract_read(winlib.model(ws, q, None, None), g).reshape(N2)
    else:
        q = numpy.indices(N1).reshape(nd, -1).T.astype('f8')
        ws = dict(kind=kind, shape=N2, period=N2, translate=[0.0] * nd, scale=[1.0 * y / x for x, y in zip(N1, N2)], support=None)
        want = winlib.contract_paint(winlib.model(ws, q, None, None), g.ravel())
    # total instead of density, up to the documented normalisation by mesh and box
    got = w.g(b)
    n1, n2 = numpy.prod(N1), numpy.prod(N2)
    scale = abs(g).sum() if not up else abs(g).max()
    if up:
        want = want * (1.0 * n1 / n2)
    w.ctx.close(got, want, 'result', 'up %d %s %s' % (up, N1, N2), rtol=0, atol=max(fl.tol(m, 100), fl.tol(o, 100)) * (scale + 1e-300))
    return [b]


def op_transpose(w, r):
    a = w.pick(r, 'real')
    if a is None:
        return None
    nd = len(w.ms[a.k]['N'])
    if w.ctx.size > 1 and w.ms[a.k]['N'][-1] < 2:
        return None
    ax = [int(x) for x in r.permutation(nd)]
    g = w.g(a)
    t = a.f.ctranspose(ax)
    got = fl.whole(w.ctx, t).astype('f8')
    w.ctx.check(list(t.pm.Nmesh) == [w.ms[a.k]['N'][x] for x in ax], 'transpose', 'shape')
    w.ctx.close(got, g.transpose(ax), 'transpose', str(ax), rtol=0, atol=fl.tol(w.ms[a.k], 1) * abs(g).max())
    return []


# --- a simulation

def gen_sim(rng, ctx):
    while True:
        m = fl.gen_mesh(rng, ctx.size, nds=(2, 3, 3), dtypes=('f8',), cap={2: 16, 3: 10}, lo=4)
        if min(m['N']) >= 4:
            break
    return dict(m=m, kind=str(rng.choice(['tunedcic', 'tunedtsc', 'tunedpcs', 'linear', 'cubic'])), n=int(rng.choice([40, 200])), steps=int(rng.randint(2, 6)),
                migrate=bool(rng.randint(2)), uneven=int(rng.randint(3)), grid=bool(rng.randint(2)), pseed=int(rng.randint(2 ** 31 - 1)))


def force_model(m, kind, X, mass):
    N, box = m['N'], m['box']
    nd = len(N)
    W = wmodel(kind, m, X)
    rho = winlib.contract_paint(W, mass)
    k = numpy.fft.fftn(rho) / rho.size
    i = [fl.freq(n).reshape([-1 if j == d else 1 for j in range(nd)]) for d, n in enumerate(N)]
    k2 = sum((2 * numpy.pi * q / b) ** 2 for q, b in zip(i, box))
    k2 = numpy.where(k2 == 0, 1.0, k2)
    Fo = numpy.zeros((len(X), nd))
    for d in range(nd):
        ww = 2 * numpy.pi * i[d] / N[d]
        kf = (N[d] / box[d]) / 6.0 * (8 * numpy.sin(ww) - numpy.sin(2 * ww))
        f = numpy.fft.ifftn(1j * kf / k2 * k).real * rho.size
        Fo[:, d] = winlib.contract_read(W, f)
    return Fo, rho


def run_sim(ctx, s):
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    N, box = numpy.array(m['N']), numpy.array(m['box'])
    nd = len(N)
    pm = fl.make(m, ctx.comm, resampler=NAMES.get(s['kind'], s['kind']))
    if s['grid']:
        n = int(N.prod())
        q, ids = pm.generate_uniform_particle_grid(shift=0.25, return_id=True)
        ids = numpy.array(ids, 'i8')
        X = (numpy.array(numpy.unravel_index(numpy.arange(n), N)).T + 0.25) * (box / N)
        x = numpy.array(q)
        ctx.close(x, X[ids], 'initial', '', rtol=0, atol=1e-12 * box.max())
        X = X + rng.normal(size=X.shape) * 0.2 * box / N
        x = X[ids]
    else:
        n = s['n']
        X = rng.uniform(0, 1, size=(n, nd)) * box
        own = {0: rng.randint(ctx.size, size=n), 1: numpy.zeros(n, int) + rng.randint(ctx.size), 2: numpy.arange(n) * ctx.size // n}[s['uneven']]
        ids = numpy.arange(n)[own == ctx.rank]
        x = X[ids]
    V = rng.normal(size=(n, nd)) * 0.3 * (box / N)
    M = rng.uniform(0.5, 1.5, size=n)
    v, mass = V[ids], M[ids]
    cell = (box / N).min()
    # weak enough that rounding is not amplified
    F0 = abs(force_model(m, s['kind'], X, M)[0]).max() + 1e-300
    G = 0.3 * cell / F0

    def force(x, mass):
        lay = pm.decompose(x, smoothing=1.0 * pm.resampler.support)
        rho = pm.create('real')
        rho.paint(x, mass=mass, layout=lay, hold=False)
        rk = rho.r2c()
        out = numpy.empty_like(x)

        def tf(d):
            def filter(k, v):
                k2 = sum(ki ** 2 for ki in k)
                k2[k2 == 0] = 1.0
                C = (v.BoxSize / v.Nmesh)[d]
                ww = k[d] * C
                return 1j * (1.0 / C / 6.0 * (8 * numpy.sin(ww) - numpy.sin(2 * ww))) / k2 * v
            return filter
        for d in range(nd):
            out[..., d] = rk.apply(tf(d)).c2r().readout(x, layout=lay)
        return out, rho

    for step in range(s['steps']):
        f, rho = force(x, mass)
        fm, rm = force_model(m, s['kind'], X, M)
        fs = abs(fm).max() + F0
        ctx.close(numpy.asarray(rho.csum()), M.sum(), 'mass', 'step %d' % step, rtol=1e-11)
        if len(ids):
            ctx.close(f, fm[ids], 'force', 'step %d of %s' % (step, m), rtol=0, atol=1e-8 * fs)
        # action and reaction
        tot = ctx.comm.allreduce((f * mass[:, None]).sum(axis=0))
        ctx.check((abs(tot) <= 1e-10 * fs * M.sum() * n).all(), 'momentum', lambda: 'step %d: total force %s, forces of %g' % (step, tot, fs))
        v = v + G * f
        x = x + v
        V = V + G * fm
        X = X + V
        if s['migrate']:
            lay = pm.decompose(x, smoothing=0)
            ids, x, v, mass = [numpy.array(lay.exchange(a)) for a in (ids, x, v, mass)]
        allid = numpy.concatenate(ctx.comm.allgather(ids))
        ctx.check(len(allid) == n and numpy.array_equal(numpy.sort(allid), numpy.arange(n)), 'ledger', lambda: 'step %d: %d particles of %d' % (step, len(allid), n))
        if len(ids):
            ctx.close(x, X[ids], 'orbit', 'step %d' % step, rtol=0, atol=1e-7 * box.max())
            ctx.close(mass, M[ids], 'ledger', 'masses after step %d' % step, rtol=0, atol=0)
        ctx.ev('particle_steps', len(ids))
    ctx.sig('sim', tuple(m['N']), tuple(m['np'] or ()), s['kind'], s['migrate'], s['grid'], s['steps'])


# --- the wave solver of the examples

def solver():
    p = os.path.join(os.environ.get('VERIF_REPO') or '/repo', 'examples', 'klein-gordon.py')
    if not os.path.exists(p):
        return None
    keep = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        spec = importlib.util.spec_from_file_location('klein_gordon', p)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        sys.dont_write_bytecode = keep
    return mod.kgsolver


def gen_kg(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, nds=(2, 2, 3), dtypes=('f8',), cap={2: 24, 3: 10}, lo=3)
    return dict(m=m, steps=int(rng.randint(3, 12)), dt=float(rng.uniform(0.01, 0.1)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_kg(ctx, s):
    kg = solver()
    if kg is None:
        ctx.ev('no_example')
        return
    m = s['m']
    m = dict(m, box=[float(n) for n in m['N']])
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    g, h = fl.gvalues(rng, m), fl.gvalues(rng, m)
    u, du = fl.field(pm, 'real', g), fl.field(pm, 'real', h)
    keep = u.value.copy(), du.value.copy()
    times = numpy.arange(s['steps'] + 1) * s['dt']
    times[1:] += rng.uniform(0, 0.2, size=s['steps']).cumsum() * s['dt']
    norms = []
    r = kg(times, u, du, numpy.sin, monitor=lambda t, dt, a, b: norms.append(a.cnorm()))
    ctx.same(u.value, keep[0], 'frame')
    ctx.same(du.value, keep[1], 'frame')
    # the same scheme in numpy
    nd = len(m['N'])
    k2 = sum((2 * numpy.pi * fl.freq(n) / b).reshape([-1 if j == d else 1 for j in range(nd)]) ** 2 for d, (n, b) in enumerate(zip(m['N'], m['box'])))
    fft = lambda x: numpy.fft.fftn(x) / x.size
    ifft = lambda x: numpy.fft.ifftn(x).real * x.size
    ds = numpy.diff(times)
    a, b = fft(g), fft(g + h * ds[0])
    want = [(abs(a) ** 2).sum()]
    for dt in ds[1:]:
        A = 1 / dt ** 2 + k2 / 4 + 0.25
        B = -1 / dt ** 2 + k2 / 4 + 0.25
        n = (fft(numpy.sin(ifft(b))) - b * B) / A - a
        want.append((abs(b) ** 2).sum())
        a, b = b, n
    want.append((abs(b) ** 2).sum())
    ctx.close(numpy.array(norms), numpy.array(want), 'norms', str(m), rtol=1e-8)
    res = ifft(b)
    ctx.close(fl.whole(ctx, r), res, 'solution', str(m), rtol=0, atol=1e-9 * (1 + abs(res).max()))
    ctx.ev('wave_steps', s['steps'])
    ctx.sig('kg', tuple(m['N']), tuple(m['np'] or ()), s['steps'])


GROUPS = [Group('history', gen, run, quick=100, thorough=4000),
          Group('simulation', gen_sim, run_sim, quick=12, thorough=600),
          Group('wave', gen_kg, run_kg, quick=12, thorough=400)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=30) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=30, scale=0.4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
