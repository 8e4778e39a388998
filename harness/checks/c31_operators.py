import os
import sys
import warnings

import numpy
import fieldlib as fl
from core import Group

ID = 'C31'
TECHNIQUE = ('runtime monitoring: the operators of abopt.py (with a stand-in for the missing package that only passes arguments by name) are run forward, with their forward '
             'and with their backward product; finite differences, inner products and frame monitors judge the results')
RULE = ('every operator on random meshes, process meshes, particles spread unevenly over the ranks and directions. Non-trivial when the mesh has more than one element; '
        'distinct by (operator, mesh, process mesh, storage).')
ASSUMPTIONS = ['the package abopt, which is not installed, passes the values of the named arguments and collects what is assigned with x[...] = value; '
               'arguments that are both input and output are passed as copies and modified',
               'inner products of complex fields are those of the full Hermitian spectrum, after decompress those of one mode per Hermitian pair',
               'the window has a continuous derivative']

OPS = ['c2r', 'r2c', 'decompress', 'lowpass', 'decompose', 'paint', 'paint', 'readout', 'readout', 'transfer', 'residual', 'assign_component', 'assign', 'add', 'multiply',
       'to_scalar', 'space', 'engine']


def module():
    if 'pmesh.abopt' not in sys.modules:
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs'))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                import pmesh.abopt
        finally:
            sys.path.pop(0)
    return sys.modules['pmesh.abopt']


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, dtypes=('f8',), lo=2)
    m['resampler'] = str(rng.choice(['tsc', 'pcs', 'quadratic', 'cubic']))
    return dict(m=m, ops=[str(x) for x in rng.permutation(OPS)[:8]], n=[int(x) for x in rng.choice([0, 1, 5, 20], size=8)], type=str(rng.choice(fl.CTYPES)),
                pseed=int(rng.randint(2 ** 31 - 1)))


class T(object):
    pass


def run(ctx, s):
    ab = module()
    m = s['m']
    nd = len(m['N'])
    rng = numpy.random.RandomState(s['pseed'])
    t = T()
    t.ctx, t.m, t.nd, t.rng, t.ab, t.type = ctx, m, nd, rng, ab, s['type']
    t.pm = fl.make(m, ctx.comm)
    cnt = (s['n'] * 2)[:ctx.size]
    if sum(cnt) == 0:
        cnt[0] = 3
    n = sum(cnt)
    off = numpy.concatenate([[0], numpy.cumsum(cnt)])
    t.sl = slice(off[ctx.rank], off[ctx.rank + 1])
    t.n = n
    box = numpy.array(m['box'])
    h = box / m['N']
    # off the kinks of the derivatives
    t.X = (rng.randint(-20, 100, size=(n, nd)) + rng.uniform(0.05, 0.45, size=(n, nd)) + 0.5 * rng.randint(0, 2, size=(n, nd))) * h
    t.h = h
    t.x = t.X[t.sl].copy()
    t.e = ab.ParticleMeshEngine(t.pm, q=t.x)
    t.dx = (rng.normal(size=(n, nd)) * h)[t.sl]
    for op in s['ops']:
        globals()['op_' + op](t)
        ctx.ev('operators')
        if numpy.prod(m['N']) > 1:
            ctx.sig(op, tuple(m['N']), tuple(m['np'] or ()), s['type'] if op in ('c2r', 'r2c', 'transfer', 'decompress') else '')


def real(t):
    return fl.field(t.pm, 'real', fl.gvalues(t.rng, t.m))


def comp(t):
    return fl.field(t.pm, t.type, fl.spectrum(fl.gvalues(t.rng, t.m), t.m))


def full(t, f):
    return fl.expand(fl.whole(t.ctx, f).astype('c16'), t.m)


def dot(t, a, b):
    """inner product over all ranks"""
    if hasattr(a, 'pm'):
        if type(a).__name__ == 'RealField':
            return (fl.whole(t.ctx, a) * fl.whole(t.ctx, b)).sum()
        return (full(t, a).conj() * full(t, b)).sum().real
    return t.ctx.comm.allreduce(float((numpy.asarray(a) * numpy.asarray(b)).sum()))


def norm(t, a):
    return abs(dot(t, a, a)) ** 0.5


def same_product(t, op, lhs, rhs, scale, what='adjoint'):
    t.ctx.close(rhs, lhs, what, op, rtol=0, atol=1e-9 * (scale + 1e-300))
    t.ctx.ev('inner_products')


def isfield(t, op, got, type):
    return t.ctx.check(got is not None and hasattr(got, 'pm') and fl_type(got) == type, 'kind', lambda: '%s gives %r' % (op, got))


def fl_type(f):
    return {'RealField': 'real', 'TransposedComplexField': 'transposedcomplex', 'UntransposedComplexField': 'untransposedcomplex'}[f.__class__.__name__]


class Frame(object):
    """the arguments must not change"""
    def __init__(self, t, op, *a):
        self.t, self.op, self.a = t, op, [(x, self.bytes(x)) for x in a]

    @staticmethod
    def bytes(x):
        return x.value.tobytes() if hasattr(x, 'value') else x.tobytes()

    def check(self):
        for i, (x, b) in enumerate(self.a):
            self.t.ctx.check(self.bytes(x) == b, 'frame', '%s changed its argument %d' % (self.op, i))
            self.t.ctx.ev('frames')


def op_c2r(t):
    c, dc, v = comp(t), comp(t), real(t)
    op = t.e.c2r
    fr = Frame(t, 'c2r', c, dc, v)
    r = op.run('body', t.e, complex=c)['real']
    j = op.run('jvp', t.e, complex_=dc)['real_']
    b = op.run('vjp', t.e, _real=v)['_complex']
    fr.check()
    if not isfield(t, 'c2r', r, 'real'):
        return
    F = full(t, c)
    t.ctx.close(fl.whole(t.ctx, r), numpy.fft.ifftn(F).real * F.size, 'forward', 'c2r', rtol=0, atol=1e-10 * abs(F).sum())
    F = full(t, dc)
    t.ctx.close(fl.whole(t.ctx, j), numpy.fft.ifftn(F).real * F.size, 'tangent', 'c2r', rtol=0, atol=1e-10 * abs(F).sum())
    same_product(t, 'c2r', dot(t, v, j), dot(t, b, dc), norm(t, b) * norm(t, dc))


def op_r2c(t):
    x, dx, v = real(t), real(t), comp(t)
    op = t.e.r2c
    fr = Frame(t, 'r2c', x, dx, v)
    r = op.run('body', t.e, real=x)['complex']
    j = op.run('jvp', t.e, real_=dx)['complex_']
    b = op.run('vjp', t.e, _complex=v)['_real']
    fr.check()
    g = fl.whole(t.ctx, x)
    t.ctx.close(full(t, r), numpy.fft.fftn(g) / g.size, 'forward', 'r2c', rtol=0, atol=1e-10 * abs(g).max())
    same_product(t, 'r2c', dot(t, v, j), dot(t, b, dx), norm(t, b) * norm(t, dx))


def op_decompress(t):
    c, dc, v = comp(t), comp(t), comp(t)
    op = t.e.decompress
    a = c.copy()
    op.run('body', t.e, complex=a)
    t.ctx.same(a.value, c.value, 'forward', 'decompress')
    a = dc.copy()
    op.run('jvp', t.e, complex_=a)
    t.ctx.same(a.value, dc.value, 'tangent', 'decompress')
    b = v.copy()
    op.run('vjp', t.e, _complex=b)
    # one of each Hermitian pair
    N = t.m['N']
    shape = fl.cN(t.m, t.type)
    idx = numpy.indices(shape)
    me = numpy.ravel_multi_index(tuple(idx), N)
    other = numpy.ravel_multi_index(tuple((-i) % n for i, n in zip(idx, N)), N)
    stored = numpy.zeros(numpy.prod(N), bool)
    stored[me] = True
    once = (me <= other) | ~stored[other]
    B, D = fl.whole(t.ctx, b), fl.whole(t.ctx, dc)
    same_product(t, 'decompress', dot(t, v, dc), (numpy.where(once, B.conj() * D, 0)).sum().real, norm(t, v) * norm(t, dc))


def op_lowpass(t):
    N = t.m['N']
    Ne = int(t.rng.choice([0, 1, 2, 3, 4, 6]))
    x, dx, v = real(t), real(t), real(t)
    keep = fl.whole(t.ctx, x)
    op = t.e.lowpass
    mask = numpy.ones(N, bool)
    for d, n in enumerate(N):
        mask = mask & (abs(fl.freq(n)) <= Ne // 2).reshape([-1 if k == d else 1 for k in range(t.nd)])
    model = lambda g: numpy.fft.ifftn(numpy.fft.fftn(g) * mask).real
    # modes on the limit may fall on either side
    k = max(N)
    for what, which, arg in (('forward', 'body', 'real'), ('tangent', 'jvp', 'real_')):
        f = (x if which == 'body' else dx).copy()
        g = fl.whole(t.ctx, f)
        op.run(which, t.e, Neff=Ne, **{arg: f})
        got = fl.whole(t.ctx, f)
        if which == 'body':
            t.ctx.close(got, model(g), 'forward', 'lowpass %d of %s' % (Ne, N), rtol=0, atol=1e-10 * abs(g).sum())
        else:
            tangent = f
            t.ctx.close(got, model(g), 'tangent', 'lowpass %d of %s' % (Ne, N), rtol=0, atol=1e-10 * abs(g).sum())
    b = v.copy()
    op.run('vjp', t.e, _real=b, Neff=Ne)
    same_product(t, 'lowpass', dot(t, v, tangent), dot(t, b, dx), norm(t, v) * norm(t, dx))


def op_decompose(t):
    op = t.e.decompose
    fr = Frame(t, 'decompose', t.x)
    l = op.run('body', t.e, x=t.x)['layout']
    Z = t.ab.ZERO
    t.ctx.check(op.run('vjp', t.e, _layout=Z).get('_x') is Z, 'adjoint', 'decompose')
    t.ctx.check(op.run('jvp', t.e, x_=t.dx).get('layout_') is Z, 'tangent', 'decompose')
    fr.check()
    got = l.exchange(t.x)
    t.ctx.check(t.ctx.comm.allreduce(len(got)) >= t.n, 'forward', 'decompose')
    return l


def op_paint(t):
    op = t.e.paint
    x, v = t.x.copy(), real(t)
    Z = t.ab.ZERO
    l = op_decompose(t)
    fr = Frame(t, 'paint', x, v, t.dx)
    f = op.run('body', t.e, x=x, layout=l)['mesh']
    # one plus the density contrast
    g = fl.whole(t.ctx, f)
    t.ctx.close(g.mean(), 1.0, 'forward', 'mean of the painted density', rtol=1e-10)
    plain = fl.whole(t.ctx, t.pm.paint(x, layout=l)) * (1.0 * g.size / t.n)
    t.ctx.close(g, plain, 'forward', 'paint', rtol=0, atol=1e-10 * abs(plain).max())
    j = op.run('jvp', t.e, x=x, layout=l, x_=t.dx, layout_=Z)['mesh_']
    r = op.run('vjp', t.e, x=x, layout=l, _mesh=v)
    b = r['_x']
    fr.check()
    t.ctx.check(r.get('_layout') is Z, 'adjoint', 'the layout has no derivative')
    t.ctx.check(numpy.shape(b) == x.shape, 'adjoint', 'shape')
    same_product(t, 'paint', dot(t, v, j), dot(t, b, t.dx), norm(t, v) * norm(t, j) + norm(t, b) * norm(t, t.dx))
    e = 1e-4
    up, dn = [fl.whole(t.ctx, op.run('body', t.e, x=x + q * t.dx, layout=t.pm.decompose(x + q * t.dx))['mesh']) for q in (e, -e)]
    fd = (up - dn) / (2 * e)
    sc = max(t.ctx.comm.allgather(float(abs(t.dx / t.h).max()) if len(t.dx) else 0)) ** 2 + 1
    t.ctx.close(fl.whole(t.ctx, j), fd, 'tangent', 'paint', rtol=0, atol=30 * e * sc * g.size)
    t.ctx.ev('finite_differences')
    op.run('jvp', t.e, x=x, layout=l, x_=Z, layout_=Z)


def op_readout(t):
    op = t.e.readout
    x, f, df = t.x.copy(), real(t), real(t)
    Z = t.ab.ZERO
    l = op_decompose(t)
    v = t.rng.normal(size=t.n)[t.sl]
    fr = Frame(t, 'readout', x, f, df, v, t.dx)
    r = op.run('body', t.e, x=x, mesh=f, layout=l)['value']
    t.ctx.close(numpy.asarray(r), numpy.asarray(f.readout(x, layout=l)), 'forward', 'readout', rtol=1e-12, atol=1e-12)
    args = dict(x=x, mesh=f, layout=l)
    j = op.run('jvp', t.e, x_=t.dx, mesh_=df, layout_=Z, **args)['value_']
    jx = op.run('jvp', t.e, x_=t.dx, mesh_=Z, layout_=Z, **args)['value_']
    jm = op.run('jvp', t.e, x_=Z, mesh_=df, layout_=Z, **args)['value_']
    b = op.run('vjp', t.e, _value=v, **args)
    fr.check()
    t.ctx.close(numpy.asarray(jx) + jm, j, 'tangent', 'the parts add up', rtol=0, atol=1e-10 * (1 + abs(j).max() if len(j) else 1))
    t.ctx.close(numpy.asarray(jm), numpy.asarray(df.readout(x, layout=l)), 'tangent', 'readout', rtol=1e-10, atol=1e-10)
    same_product(t, 'readout', dot(t, v, jx), dot(t, b['_x'], t.dx), norm(t, v) * norm(t, jx) + norm(t, b['_x']) * norm(t, t.dx))
    same_product(t, 'readout', dot(t, v, jm), dot(t, b['_mesh'], df), norm(t, v) * norm(t, jm) + norm(t, b['_mesh']) * norm(t, df))
    e = 1e-4
    up, dn = [numpy.asarray(f.readout(x + q * t.dx, layout=t.pm.decompose(x + q * t.dx))) for q in (e, -e)]
    sc = (max(t.ctx.comm.allgather(float(abs(t.dx / t.h).max()) if len(t.dx) else 0)) ** 2 + 1) * abs(fl.whole(t.ctx, f)).max()
    t.ctx.close(numpy.asarray(jx), (up - dn) / (2 * e), 'tangent', 'readout', rtol=0, atol=100 * e * sc)
    t.ctx.ev('finite_differences')


def op_transfer(t):
    op = t.e.transfer
    c, dc, v = comp(t), comp(t), comp(t)
    h = t.h
    d = int(t.rng.randint(t.nd))
    which = int(t.rng.randint(3))
    amp = float(t.rng.choice([1.0, 1e-4]))

    def selfconj(k):
        on = True
        for ki, hi in zip(k, h):
            x = abs(ki * hi)
            on = on & ((x < 1e-9) | (abs(x - numpy.pi) < 1e-9))
        return on
    if which == 0:
        tf = lambda k: numpy.exp(-0.2 * sum((ki * hi) ** 2 for ki, hi in zip(k, h)))
    elif which == 1:
        # a factor that is not real for modes that are their own conjugate: these are dropped
        tf = lambda k: numpy.where(selfconj(k), 0.5 + amp * 0.7j, 1j * numpy.sin(k[d] * h[d]) + 0 * sum(k))
    else:
        # vanishes where it has no sign
        tf = lambda k: 1j * numpy.where(abs(abs(k[d] * h[d]) - numpy.pi) < 1e-9, 0, numpy.sin(k[d] * h[d])) + 0 * sum(k)
    k = [(2 * numpy.pi / b * fl.freq(n)).reshape([-1 if q == j else 1 for q in range(t.nd)]) for j, (n, b) in enumerate(zip(t.m['N'], t.m['box']))]
    Tm = tf(k)
    if which == 1:
        Tm = numpy.where(selfconj(k), 0, Tm)
        t.ctx.ev('dropped_modes', int(selfconj(k).sum()))
    fs = [x.copy() for x in (c, dc, v)]
    op.run('body', t.e, complex=fs[0], tf=tf)
    op.run('jvp', t.e, complex_=fs[1], tf=tf)
    op.run('vjp', t.e, _complex=fs[2], tf=tf)
    for f, g, T_, what in ((fs[0], c, Tm, 'forward'), (fs[1], dc, Tm, 'tangent'), (fs[2], v, numpy.conj(Tm), 'adjoint')):
        t.ctx.close(full(t, f), full(t, g) * T_, what, 'transfer', rtol=0, atol=1e-10 * abs(full(t, g)).max())
    same_product(t, 'transfer', dot(t, v, fs[1]), dot(t, fs[2], dc), norm(t, v) * norm(t, dc))


def op_residual(t):
    op = t.e.residual
    a, d, da, v = real(t), real(t), real(t), real(t)
    sg = float(t.rng.uniform(0.5, 2))
    fr = Frame(t, 'residual', a, d, da, v)
    r = op.run('body', t.e, model=a, data=d, sigma=sg)['residual']
    j = op.run('jvp', t.e, model_=da, data=d, sigma=sg)['residual_']
    b = op.run('vjp', t.e, _residual=v, data=d, sigma=sg)['_model']
    fr.check()
    t.ctx.close(r.value, (a.value - d.value) / sg, 'forward', 'residual', rtol=1e-12)
    t.ctx.close(j.value, da.value / sg, 'tangent', 'residual', rtol=1e-12)
    same_product(t, 'residual', dot(t, v, j), dot(t, b, da), norm(t, v) * norm(t, j))


def op_assign_component(t):
    op = t.e.assign_component
    d = int(t.rng.randint(t.nd))
    n = t.sl.stop - t.sl.start
    A, dA, V = [t.rng.normal(size=(t.n, t.nd))[t.sl] for _ in range(3)]
    y, dy = t.rng.normal(size=(2, t.n))[:, t.sl]
    a = A.copy()
    op.run('body', t.e, attribute=a, value=y, dim=d)
    want = A.copy()
    want[:, d] = y
    t.ctx.same(a, want, 'forward', 'assign_component')
    ja = dA.copy()
    op.run('jvp', t.e, attribute_=ja, value_=dy, dim=d)
    want = dA.copy()
    want[:, d] = dy
    t.ctx.same(ja, want, 'tangent', 'assign_component')
    # the other components pass through; this one no longer depends on what was there
    ba = V.copy()
    bv = op.run('vjp', t.e, _attribute=ba, dim=d)['_value']
    bv = numpy.array(bv)
    same_product(t, 'assign_component', dot(t, V, ja), dot(t, ba, dA) + dot(t, bv, dy), norm(t, V) * (norm(t, dA) + norm(t, dy)))


def op_assign(t):
    op = t.e.assign
    x, v = real(t), real(t)
    y = op.run('body', t.e, x=x)['y']
    t.ctx.same(y.value, x.value, 'forward', 'assign')
    k = x.value.copy()
    y[...] = 7
    t.ctx.same(x.value, k, 'frame', 'assign gives an alias')
    d = real(t)
    j = op.run('jvp', t.e, x=x, x_=d)['y_']
    t.ctx.same(j.value, d.value, 'tangent', 'assign')
    t.ctx.same(x.value, k, 'frame', 'assign')
    b = op.run('vjp', t.e, _y=v)['_x']
    t.ctx.same(b.value, v.value, 'adjoint', 'assign')


def op_add(t):
    op = t.e.add
    a, b, da, db, v = [real(t) for _ in range(5)]
    fr = Frame(t, 'add', a, b, da, db, v)
    r = op.run('body', t.e, x1=a, x2=b)['y']
    j = op.run('jvp', t.e, x1_=da, x2_=db)['y_']
    g = op.run('vjp', t.e, _y=v)
    fr.check()
    t.ctx.close(r.value, a.value + b.value, 'forward', 'add', rtol=1e-12)
    t.ctx.close(j.value, da.value + db.value, 'tangent', 'add', rtol=1e-12)
    same_product(t, 'add', dot(t, v, j), dot(t, g['_x1'], da) + dot(t, g['_x2'], db), norm(t, v) * (norm(t, da) + norm(t, db)))


def op_multiply(t):
    op = t.e.multiply
    a, b, da, db, v = [real(t) for _ in range(5)]
    fr = Frame(t, 'multiply', a, b, da, db, v)
    r = op.run('body', t.e, x1=a, x2=b)['y']
    j = op.run('jvp', t.e, x1=a, x2=b, x1_=da, x2_=db)['y_']
    g = op.run('vjp', t.e, _y=v, x1=a, x2=b)
    fr.check()
    t.ctx.close(r.value, a.value * b.value, 'forward', 'multiply', rtol=1e-12)
    t.ctx.close(j.value, da.value * b.value + a.value * db.value, 'tangent', 'multiply', rtol=1e-10, atol=1e-12)
    same_product(t, 'multiply', dot(t, v, j), dot(t, g['_x1'], da) + dot(t, g['_x2'], db), norm(t, v) * norm(t, j) + norm(t, g['_x1']) * norm(t, da) + norm(t, g['_x2']) * norm(t, db))


def op_to_scalar(t):
    op = t.e.to_scalar
    for x, d in ((real(t), real(t)), (t.rng.normal(size=(t.n, t.nd))[t.sl], t.rng.normal(size=(t.n, t.nd))[t.sl])):
        y = op.run('body', t.e, x=x)['y']
        t.ctx.close(float(y), dot(t, x, x), 'forward', 'to_scalar', rtol=1e-10)
        fl.agree(t.ctx, numpy.asarray(y), 'ranks-agree', 'to_scalar')
        j = op.run('jvp', t.e, x=x, x_=d)['y_']
        t.ctx.close(float(j), 2 * dot(t, x, d), 'tangent', 'to_scalar', rtol=0, atol=1e-9 * (1 + norm(t, x) * norm(t, d)))
        b = op.run('vjp', t.e, x=x, _y=1.5)['_x']
        same_product(t, 'to_scalar', 1.5 * float(j), dot(t, b, d), norm(t, b) * norm(t, d))
    try:
        op.run('body', t.e, x=comp(t))
        t.ctx.fail('refused', 'to_scalar of a complex field')
    except TypeError:
        pass


def op_space(t):
    vs = t.e.vs
    c = float(t.rng.normal())
    p = int(t.rng.randint(1, 3))
    for mk in (real, comp):
        a, b, w = mk(t), mk(t), mk(t)
        fr = Frame(t, 'addmul', a, b, w)
        r = vs.addmul(a, b, c, p)
        fr.check()
        t.ctx.check(type(r) is type(b), 'kind', 'addmul')
        t.ctx.close(r.value, a.value + b.value * c ** p, 'addmul', fl_type(b), rtol=1e-10, atol=1e-12)
        t.ctx.close(numpy.real(vs.dot(a, b)), dot(t, a, b), 'dot', fl_type(a), rtol=0, atol=1e-9 * norm(t, a) * norm(t, b))
        if mk is real:
            r = vs.addmul(a, b, w, 1)
            t.ctx.close(r.value, a.value + b.value * w.value, 'addmul', 'by a field', rtol=1e-10, atol=1e-12)
    a, b = [t.rng.normal(size=t.n)[t.sl] for _ in range(2)]
    t.ctx.close(vs.addmul(a, b, c, p), a + b * c ** p, 'addmul', 'array', rtol=1e-10, atol=1e-12)
    t.ctx.close(vs.dot(a, b), dot(t, a, b), 'dot', 'array', rtol=1e-9, atol=1e-9)
    t.ctx.close(vs.addmul(2.0, 3.0, c, p), 2 + 3 * c ** p, 'addmul', 'scalar', rtol=1e-12)
    for x, y in ((a, real(t)), (real(t), comp(t))):
        try:
            vs.dot(x, y)
            t.ctx.fail('refused', 'dot of %s and %s' % (type(x), type(y)))
        except TypeError:
            pass


def op_engine(t):
    e = t.ab.ParticleMeshEngine(t.pm)
    N = t.m['N']
    t.ctx.check(t.ctx.comm.allreduce(len(e.q)) == numpy.prod(N) and e.q.shape[1] == t.nd, 'forward', 'the initial positions are one per cell')
    c = t.ab.ParticleMeshEngine.get_x.body(t.e, 's', 'x')
    t.ctx.check(len(c.calls) == 1 and c.calls[0][1]['x2'].value is t.e.q and c.calls[0][1]['x1'] == 's', 'forward', 'positions are displacements plus initial positions')


GROUPS = [Group('operators', gen, run, quick=60, thorough=3000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=200) for r in (1, 2, 3, 4, 5, 6, 8)]
