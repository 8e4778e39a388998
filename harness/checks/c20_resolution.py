import numpy
import fieldlib as fl
import winlib
from core import Group
from checks import c14_parallel_mesh as c14

ID = 'C20'
TECHNIQUE = ('runtime monitoring: resampled, up- and downsampled, transposed and previewed fields are gathered and compared with numpy on the global mesh, '
             'mode by mode and cell by cell, for random pairs of distributed meshes')
RULE = ('random pairs of meshes (even and odd, cubic or not, finer and coarser per axis, different boxes, precisions and process meshes), every field type in '
        'and out; every window for up- and downsampling; every choice of kept axes for previews. A case is non-trivial when the meshes differ (or axes '
        'are removed or exchanged); distinct by (operation, meshes, precision, process meshes, types, window).')
ASSUMPTIONS = ['modes on the Nyquist planes of either mesh are not compared',
               'windows work on the real part of complex meshes', 'both meshes live on the same communicator']


def other_mesh(rng, ctx, m, odd=True):
    k = rng.randint(4)
    o = dict(m)
    if k == 0:
        o['N'] = list(m['N'])
    elif k == 1:
        f = rng.choice([1, 2, 3])
        o['N'] = [n * f for n in m['N']] if rng.randint(2) else [max(1, n // f) for n in m['N']]
    else:
        o['N'] = [int(rng.randint(1, 13 if len(m['N']) < 3 else 9)) for _ in m['N']]
    if ctx.size > 1:
        o['N'] = [max(2, n) for n in o['N'][:-1]] + o['N'][-1:]
    o['np'] = fl.gen_np(rng, len(m['N']), ctx.size)
    o['dtype'] = str(rng.choice(['f8', 'f4'] if m['dtype'][0] == 'f' else ['c16', 'c8']))
    return o


def gen_r(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size)
    return dict(m=m, o=other_mesh(rng, ctx, m), src=str(rng.choice(fl.TYPES)), dst=str(rng.choice(fl.TYPES)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_r(ctx, s):
    m, o = s['m'], s['o']
    rng = numpy.random.RandomState(s['pseed'])
    pm, qm = fl.make(m, ctx.comm), fl.make(o, ctx.comm)
    g = fl.gvalues(rng, m)
    F = fl.spectrum(g, m)
    f = fl.field(pm, s['src'], g if s['src'] == 'real' else F)
    before = numpy.array(f.value)
    out = qm.create(s['dst'])
    out.value[...] = rng.normal(size=out.value.shape)
    r = f.resample(out)
    ctx.check(r is out, 'returns-out')
    ctx.same(numpy.array(f.value), before, 'source-kept')
    w = fl.whole(ctx, out).astype('c16')
    ctx.check(numpy.isfinite(w).all(), 'finite')
    if s['dst'] == 'real':
        w = numpy.fft.fftn(w) / w.size
    else:
        w = fl.expand(w, o)
    full = fl.expand(F, m)
    ks = [fl.freq(n) for n in o['N']]
    shared = numpy.ones(o['N'], bool)
    amb = numpy.zeros(o['N'], bool)
    for d, k in enumerate(ks):
        sh = [-1 if j == d else 1 for j in range(len(ks))]
        amb = amb | ((2 * abs(k) == o['N'][d]) | (2 * abs(k) == m['N'][d])).reshape(sh)
        shared = shared & (2 * abs(k) < m['N'][d]).reshape(sh)
    want = numpy.zeros(o['N'], 'c16')
    ix = numpy.ix_(*[k % n for k, n in zip(ks, m['N'])])
    want = numpy.where(shared, full[ix], 0)
    e = max(fl.EPS[m['dtype']], fl.EPS[o['dtype']])
    sel = ~amb
    ctx.close(numpy.where(sel, w, 0), numpy.where(sel, want, 0), 'modes', '%s to %s' % (m['N'], o['N']), rtol=0, atol=20 * e * (1 + abs(F).max()))
    ctx.ev('modes_kept', int((sel & shared).sum()) if ctx.rank == 0 else 0)
    ctx.ev('modes_zeroed', int((sel & ~shared).sum()) if ctx.rank == 0 else 0)
    # the ambiguous ones hold nothing but modes of the source
    ctx.check(abs(w).max() <= (1 + abs(full).max()) * 2 ** len(ks) * 2, 'nyquist-bounded')
    if m['N'] != o['N']:
        ctx.sig('resample', tuple(m['N']), tuple(o['N']), m['dtype'], o['dtype'], s['src'], s['dst'], tuple(m['np'] or ()), tuple(o['np'] or ()))


def model_up(g, N1, N2, kind):
    """values of mesh g at the cells of a mesh of N2"""
    q = numpy.indices(N2).reshape(len(N2), -1).T.astype('f8')
    ws = dict(kind=kind, shape=N1, period=N1, translate=[0.0] * len(N1), scale=[1.0 * a / b for a, b in zip(N1, N2)], support=None)
    return winlib.contract_read(winlib.model(ws, q, None, None), g).reshape(N2)


def model_down(g, N1, N2, kind):
    q = numpy.indices(N1).reshape(len(N1), -1).T.astype('f8')
    ws = dict(kind=kind, shape=N2, period=N2, translate=[0.0] * len(N1), scale=[1.0 * b / a for a, b in zip(N1, N2)], support=None)
    return winlib.contract_paint(winlib.model(ws, q, None, None), g.ravel())


def kindof(rng, N1, N2):
    kinds = winlib.SPLINES * 3 + winlib.TABLES
    if all(max(a, b) % min(a, b) == 0 and (max(a, b) // min(a, b)) in (1, 2, 4) for a, b in zip(N1, N2)):
        kinds = kinds + winlib.WAVELETS
    return str(rng.choice(kinds))


def gen_s(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, dtypes=('f8', 'f8', 'f4'))
    o = other_mesh(rng, ctx, m)
    if rng.randint(3) == 0:
        o['box'] = [b * 2.0 for b in m['box']]
    kind = kindof(rng, m['N'], o['N'])
    name = str(rng.choice(c14.WIN.get(kind, [kind])))
    default = bool(rng.randint(4) == 0) and kind in ('tunednnb', 'tunedcic', 'tunedtsc', 'tunedpcs')
    if default:
        m['resampler'] = o['resampler'] = name
    else:
        # a default that is narrower than what is asked for
        m['resampler'], o['resampler'] = [str(rng.choice(['nnb', 'cic', 'pcs'])) for _ in range(2)]
    return dict(m=m, o=o, kind=kind, name=name, default=default, keep=bool(rng.randint(2)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_s(ctx, s):
    m, o = s['m'], s['o']
    rng = numpy.random.RandomState(s['pseed'])
    pm, qm = fl.make(m, ctx.comm), fl.make(o, ctx.comm)
    g = fl.gvalues(rng, m)
    f = fl.field(pm, 'real', g)
    before = numpy.array(f.value)
    kw = {} if s['default'] else dict(resampler=s['name'])
    e = max(fl.EPS[m['dtype']], fl.EPS[o['dtype']])
    if s['kind'] not in winlib.SPLINES:
        e = max(e, 1e-8)
    dens = (numpy.prod(m['N']) / numpy.prod(m['box'])) / (numpy.prod(o['N']) / numpy.prod(o['box']))
    if s['keep'] or rng.randint(2):
        kw['keep_mean'] = s['keep']
    ndep = float(numpy.prod([2 + winlib.native(s['kind']) / p for p in m['N']])) * float(numpy.prod([2 + winlib.native(s['kind']) / p for p in o['N']]))
    up = qm.upsample(f, **kw)
    want = model_up(g, m['N'], o['N'], s['kind']) * (1.0 if s['keep'] else dens)
    got = fl.whole(ctx, up)
    ctx.check(up.pm is qm, 'upsample', 'not a field of the new mesh')
    ctx.close(got, want.astype(got.dtype), 'upsample', '%s to %s with %s' % (m['N'], o['N'], s['name']), rtol=0,
              atol=20 * e * (1 + abs(g).max() * ndep) * (1 + (0 if s['keep'] else dens)))
    ctx.same(numpy.array(f.value), before, 'source-kept', 'upsample')
    dn = qm.downsample(f, **kw)
    want = model_down(g, m['N'], o['N'], s['kind']) / (dens if s['keep'] else 1.0)
    got = fl.whole(ctx, dn)
    mult = float(numpy.prod([1 + a / b for a, b in zip(m['N'], o['N'])]))
    ctx.close(got, want.astype(got.dtype), 'downsample', '%s to %s with %s' % (m['N'], o['N'], s['name']), rtol=0,
              atol=20 * e * (1 + abs(g).max() * ndep * mult) * (1 + (1 / dens if s['keep'] else 0)))
    ctx.same(numpy.array(f.value), before, 'source-kept', 'downsample')
    ctx.ev('cells_sampled', 2 * int(numpy.prod(o['N'])) if ctx.rank == 0 else 0)
    if s['kind'] in winlib.SPLINES and not s['keep']:
        ctx.close(float(got.sum()), g.sum(), 'mass', 'downsample', rtol=0, atol=40 * e * abs(g).sum() * ndep)
    if s['kind'] in ('nearest', 'tunednnb') and s['keep']:
        # coinciding cells
        idx = [numpy.arange(b) for b in o['N']]
        co = [(i * a % b == 0) for i, a, b in zip(idx, m['N'], o['N'])]
        src = numpy.ix_(*[(i * a // b)[c] for i, a, b, c in zip(idx, m['N'], o['N'], co)])
        dst = numpy.ix_(*[i[c] for i, c in zip(idx, co)])
        gu = fl.whole(ctx, up)
        ctx.same(gu[dst], g[src].astype(gu.dtype), 'coinciding-cells')
        ctx.ev('coinciding_cells', gu[dst].size if ctx.rank == 0 else 0)
    if m['N'] != o['N']:
        ctx.sig('sample', tuple(m['N']), tuple(o['N']), m['dtype'], s['kind'], s['keep'], tuple(m['np'] or ()), tuple(o['np'] or ()))


def gen_p(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size)
    nd = len(m['N'])
    k = int(rng.randint(1, nd + 1))
    axes = None if rng.randint(4) == 0 else [int(a) for a in rng.permutation(nd)[:k]]
    how = str(rng.choice(['none', 'none', 'same', 'list', 'scalar']))
    if m['dtype'][0] == 'c':
        how = 'none'
    N2 = other_mesh(rng, ctx, m)['N'] if how in ('list', 'scalar') else m['N']
    if how == 'scalar':
        N2 = [max(2, N2[0])] * nd
    kind = kindof(rng, m['N'], N2)
    return dict(m=m, axes=axes, form=str(rng.choice(['list', 'tuple', 'int'])), how=how, N2=N2, method=str(rng.choice(['none', 'upsample', 'downsample'])),
                kind=kind, name=str(rng.choice(c14.WIN.get(kind, [kind]))), src=str(rng.choice(['real', 'real', 'transposedcomplex', 'untransposedcomplex'])),
                pseed=int(rng.randint(2 ** 31 - 1)))


def run_p(ctx, s):
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    g = fl.gvalues(rng, m)
    f = fl.field(pm, s['src'], g if s['src'] == 'real' else fl.spectrum(g, m))
    before = numpy.array(f.value)
    axes = s['axes']
    kw = {}
    if axes is not None:
        a = axes
        if s['form'] == 'tuple':
            a = tuple(a)
        if s['form'] == 'int' and len(a) == 1:
            a = a[0]
        kw['axes'] = a
    e = fl.EPS[m['dtype']]
    want = g
    scale = abs(g).max() + 1
    if s['how'] == 'same':
        kw['Nmesh'] = list(m['N']) if rng.randint(2) else numpy.array(m['N'])
    if s['how'] in ('list', 'scalar'):
        N2 = s['N2']
        kw['Nmesh'] = (N2 if rng.randint(2) else numpy.array(N2)) if s['how'] == 'list' else N2[0]
        kw['resampler'] = s['name']
        method = s['method']
        if method != 'none':
            kw['method'] = method
        else:
            method = 'downsample' if any(a < b for a, b in zip(N2, m['N'])) else 'upsample'
        if N2 != m['N']:
            if method == 'upsample':
                want = model_up(g, m['N'], N2, s['kind'])
            else:
                want = model_down(g, m['N'], N2, s['kind']) * numpy.prod(N2) / numpy.prod(m['N'])
                scale *= max(1, numpy.prod(N2) / numpy.prod(m['N']))
            if s['kind'] not in winlib.SPLINES:
                e = max(e, 1e-8)
            scale *= float(numpy.prod([2 + winlib.native(s['kind']) / p for p in m['N']])) * numpy.prod([1 + a / b for a, b in zip(m['N'], N2)])
    if axes is not None:
        rem = tuple(d for d in range(len(m['N'])) if d not in axes)
        scale *= numpy.prod([want.shape[d] for d in rem]) + 1
        want = want.sum(axis=rem)
        # the kept axes in the order asked for
        order = numpy.argsort(numpy.argsort(axes))
        want = want.transpose(numpy.argsort(numpy.argsort(axes))) if len(axes) < 2 else want.transpose([sorted(axes).index(a) for a in axes])
    got = f.preview(**kw)
    ctx.check(isinstance(got, numpy.ndarray), 'preview-type')
    fl.agree(ctx, got, 'preview-agree')
    ctx.close(numpy.asarray(got), want.astype(got.dtype), 'preview', 'axes=%r' % (axes,), rtol=0, atol=20 * e * scale)
    ctx.same(numpy.array(f.value), before, 'source-kept', 'preview')
    ctx.ev('previews')
    ctx.sig('preview', tuple(m['N']), tuple(s['N2']), m['dtype'], tuple(axes or ()), s['how'], s['src'], s['method'], tuple(m['np'] or ()))


def gen_c(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, dtypes=('f8', 'f4'), lo=2)
    return dict(m=m, axes=[int(a) for a in rng.permutation(len(m['N']))], pseed=int(rng.randint(2 ** 31 - 1)))


def run_c(ctx, s):
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    g = fl.gvalues(rng, m)
    f = fl.field(pm, 'real', g)
    before = numpy.array(f.value)
    axes = s['axes']
    t = f.ctranspose(list(axes) if rng.randint(2) else numpy.array(axes))
    ctx.same(numpy.array(f.value), before, 'source-kept', 'ctranspose')
    w = fl.whole(ctx, t)
    ctx.same(w, g.transpose(axes).astype(w.dtype), 'ctranspose', 'axes %r' % (axes,))
    ctx.check(numpy.array_equal(t.BoxSize, numpy.array(m['box'])[axes]), 'ctranspose', 'BoxSize')
    ctx.check(numpy.array_equal(t.Nmesh, numpy.array(m['N'])[axes]), 'ctranspose', 'Nmesh')
    back = t.ctranspose(numpy.argsort(axes))
    w = fl.whole(ctx, back)
    ctx.same(w, g.astype(w.dtype), 'ctranspose-back')
    ctx.ev('transposed')
    if axes != sorted(axes):
        ctx.sig('transpose', tuple(m['N']), m['dtype'], tuple(axes), tuple(m['np'] or ()))


GROUPS = [Group('resample', gen_r, run_r, quick=150, thorough=4000), Group('sample', gen_s, run_s, quick=120, thorough=3000),
          Group('preview', gen_p, run_p, quick=100, thorough=2500), Group('transpose', gen_c, run_c, quick=60, thorough=1200)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=25, scale=0.3)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
