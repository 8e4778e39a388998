import os
import sys
import time

import numpy
from core import Group
import domlib
import fieldlib as fl

ID = 'C26'
RULE = ('a random sequence of valid collective calls on particles and fields in which one call is given bad data on one rank or on some '
        'ranks (wrong length, other columns, other trailing shape, scalar for array, too few coordinates, wrong buffer) or is misused alike '
        'on all ranks (field kind, mode, type, shape), with ranks delayed at random; a watchdog on a communicator of its own detects ranks '
        'that raise while others wait. All ranks must raise, fields and arguments must keep their bytes, and the same objects must then '
        'give the results they gave before. A case is non-trivial when the bad call was refused on all ranks; distinct by (call, fault, '
        'ranks, faulty ranks).')
ASSUMPTIONS = ['the arguments other than the data (mode, window, field, layout) are the same on all ranks',
               'an output array of the wrong length is the matter of the rank that gave it, unless documented otherwise']
TECHNIQUE = 'runtime monitoring: fault injection with a deadlock watchdog, state monitors before and after the refused call'
WAIT = 40.0

_side = {}


def side(ctx):
    if 'c' not in _side:
        _side['c'] = ctx.comm.Dup()
    return _side['c']


def together(ctx, what):
    """all ranks get here, or the ranks that do report the deadlock"""
    c = side(ctx)
    r = c.Ibarrier()
    t0 = time.time()
    while not r.Test():
        if time.time() - t0 > WAIT:
            ctx.fail('hang', '%s: rank %d is done but other ranks still wait' % (what, ctx.rank))
            sys.stdout.flush()
            c.Abort(78)
            os._exit(78)
        time.sleep(0.0005)


def attempt(ctx, rng, what, f, *a, **k):
    """call on all ranks with delays; returns the exceptions of all ranks"""
    d = rng.uniform(0, 0.01, size=ctx.size) * (rng.randint(0, 3, size=ctx.size) == 0)
    if d[ctx.rank]:
        time.sleep(d[ctx.rank])
    err = val = None
    try:
        val = f(*a, **k)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, str(e)[:80])
    together(ctx, what)
    return side(ctx).allgather(err), val


def refused(ctx, rng, what, f, *a, **k):
    errs, _ = attempt(ctx, rng, what, f, *a, **k)
    ok = all(e is not None for e in errs)
    ctx.check(ok, 'not-on-all-ranks' if any(errs) else 'accepted', lambda: '%s: %r' % (what, errs))
    ctx.ev('refused', int(ok))
    return ok


def allowed(ctx, rng, what, f, *a, **k):
    errs, v = attempt(ctx, rng, what, f, *a, **k)
    ctx.check(not any(errs), 'unusable', lambda: '%s after a refused call: %r' % (what, errs))
    return v


def who(rng, size):
    """the faulty ranks"""
    k = rng.randint(4)
    if k == 0:
        return [0]
    if k == 1:
        return [size - 1]
    if k == 2 and size > 2:
        return sorted(int(x) for x in rng.choice(size, size=rng.randint(1, size), replace=False))
    return [int(rng.randint(size))]


EX = ['long', 'short', 'none', 'columns', 'column-long', 'trailing', 'scalar', 'unpacked', 'dtype', 'width']
GA = ['long', 'short', 'none', 'trailing', 'scalar', 'width']


def gen_layout(rng, ctx):
    return dict(grid=domlib.gen_grid(rng, ctx.size), n=int(rng.choice([0, 2, 20, 60])), smoothing=float(rng.choice([0, 0.1, 0.5])),
                steps=[[str(rng.choice(['exchange', 'gather', 'mode', 'decompose', 'load'])), int(rng.randint(2 ** 31 - 1))] for _ in range(4)],
                pseed=int(rng.randint(2 ** 31 - 1)))


def misfit(x, kind):
    if kind == 'long':
        return numpy.concatenate([x, x[:1]] if len(x) else [x, numpy.zeros((1,) + x.shape[1:], x.dtype)])
    if kind == 'short':
        return x[:-1] if len(x) else numpy.zeros((1,) + x.shape[1:], x.dtype)
    if kind == 'none':
        return x[:0] if len(x) else numpy.zeros((3,) + x.shape[1:], x.dtype)
    if kind == 'trailing':
        return numpy.stack([x, x], axis=-1)
    if kind == 'width':
        return numpy.concatenate([x, x[:, :1]], axis=1)
    if kind == 'scalar':
        return numpy.array(3.0)


def run_layout(ctx, spec):
    from pmesh.domain import GridND
    grid = spec['grid']
    rng = numpy.random.RandomState(spec['pseed'])
    pos = domlib.gen_pos(rng, grid, spec['n'], 0, wide=False)
    counts = domlib.split_counts(rng, spec['n'], ctx.size)
    off = numpy.concatenate([[0], numpy.cumsum(counts)])
    mine = pos[off[ctx.rank]:off[ctx.rank + 1]].copy()
    L = min(e[-1] - e[0] for e in grid['edges'])
    g = domlib.make_grid(GridND, grid, ctx.comm)
    s = spec['smoothing'] * L
    layout = g.decompose(mine, smoothing=s)
    ids = numpy.arange(off[ctx.rank], off[ctx.rank + 1]).astype('f8') + 0.5
    vec = numpy.stack([ids, -ids], axis=-1)
    e0, v0 = layout.exchange(ids, vec)
    modes = ['sum', 'any', 'all', 'mean', numpy.maximum]
    g0 = [numpy.array(layout.gather(e0, mode=m)) for m in modes]
    args = (mine, ids, vec, e0)
    copies = [a.copy() for a in args]
    for call, sd in spec['steps']:
        r = numpy.random.RandomState(sd)
        bad = who(r, ctx.size)
        me = ctx.rank in bad
        what = None
        ok = True
        if call == 'exchange':
            kind = str(r.choice(EX))
            what = 'exchange %s on ranks %r' % (kind, bad)
            if kind == 'columns':       # columns of different lengths, packed
                a = (ids, misfit(vec, 'long') if me else vec)
                ok = refused(ctx, r, what, layout.exchange, *a)
            elif kind == 'column-long':  # all columns too long
                a = (misfit(ids, 'long'), misfit(vec, 'long')) if me else (ids, vec)
                ok = refused(ctx, r, what, layout.exchange, *a)
            elif kind == 'unpacked':
                a = (ids, misfit(vec, 'short') if me else vec)
                ok = refused(ctx, r, what, layout.exchange, *a, pack=False)
            elif kind == 'dtype':
                if bad == list(range(ctx.size)) or 0 in bad:
                    continue
                a = (numpy.array(['x'] * len(ids), dtype='U3') if me else ids, vec)
                # without data there is nothing to convert
                n = min(counts[b] for b in bad)
                if n == 0:
                    continue
                ok = refused(ctx, r, what, layout.exchange, *a, pack=False)
            elif kind == 'width':
                # as many dimensions, other lengths
                if len(bad) == ctx.size or ctx.size == 1:
                    continue
                a = (misfit(vec, kind) if me else vec,)
                if r.randint(2):
                    a = (ids,) + a
                ok = refused(ctx, r, what, layout.exchange, *a, pack=bool(r.randint(2)))
            elif kind == 'trailing':
                if len(bad) == ctx.size or ctx.size == 1:
                    continue
                ok = refused(ctx, r, what, layout.exchange, misfit(ids, kind) if me else ids, pack=bool(r.randint(2)))
            else:
                ok = refused(ctx, r, what, layout.exchange, misfit(ids, kind) if me else ids, pack=bool(r.randint(2)))
            call += ' ' + kind
        elif call == 'gather':
            kind = str(r.choice(GA))
            m = modes[r.randint(len(modes))]
            what = 'gather %s %s on ranks %r' % (m, kind, bad)
            if kind in ('trailing', 'width') and (len(bad) == ctx.size or ctx.size == 1):
                continue
            ok = refused(ctx, r, what, layout.gather, misfit(e0 if kind != 'width' else v0, kind) if me else e0 if kind != 'width' else v0, mode=m)
            call += ' %s' % kind
        elif call == 'mode':
            ok = refused(ctx, r, 'gather of an unknown mode', layout.gather, e0, mode='every')
        else:
            kind = str(r.choice(['flat', 'columns']))
            p = mine
            if me:
                p = mine[:, 0] if kind == 'flat' else mine[:, :grid['ndim'] - 1]
            what = '%s %s on ranks %r' % (call, kind, bad)
            if call == 'decompose':
                ok = refused(ctx, r, what, g.decompose, p, smoothing=s)
            else:
                ok = refused(ctx, r, what, g.load, p)
            call += ' ' + kind
        # everything still works
        e1 = allowed(ctx, r, 'exchange', layout.exchange, ids, vec, pack=bool(r.randint(2)))
        if e1 is not None:
            ctx.same(e1[0], e0, 'after', 'exchange after %s' % what)
            ctx.same(e1[1], v0, 'after', 'exchange after %s' % what)
        i = r.randint(len(modes))
        g1 = allowed(ctx, r, 'gather', layout.gather, e0, mode=modes[i])
        if g1 is not None:
            ctx.same(numpy.array(g1), g0[i], 'after', 'gather after %s' % what)
        if r.randint(2):
            l2 = allowed(ctx, r, 'decompose', g.decompose, mine, smoothing=s)
            if l2 is not None:
                ctx.same(l2.exchange(ids), e0, 'after', 'decompose after %s' % what)
        for a, c in zip(args, copies):
            ctx.check(a.tobytes() == c.tobytes(), 'input-modified', what or call)
        if ok:
            ctx.sig(call, ctx.size, len(bad), ctx.size == 1 or bad[0] == 0)


PART = ['paint-mass', 'paint-pos', 'paint-hsml', 'paint-scalar', 'readout-pos', 'readout-hsml', 'jvp-mass', 'decompose', 'ravel', 'unravel']
KIND = ['cdot-kind', 'cdot-shape', 'r2c-out', 'c2r-out', 'r2c-mesh', 'c2r-mesh', 'apply-mesh', 'apply-kind', 'apply-kind-real', 'create-type', 'scalar-index', 'resample-type', 'dtype',
        'boxsize', 'mode-type', 'transpose', 'hessian', 'upsample-type', 'method']


def gen_field(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, dtypes=('f8', 'f4'), lo=2)
    return dict(m=m, n=int(rng.choice([0, 3, 30])), steps=[[str(rng.choice(PART + PART + KIND)), int(rng.randint(2 ** 31 - 1))] for _ in range(5)],
                pseed=int(rng.randint(2 ** 31 - 1)))


def run_field(ctx, spec):
    from pmesh.pm import ParticleMesh
    m = spec['m']
    nd = len(m['N'])
    rng = numpy.random.RandomState(spec['pseed'])
    pm = fl.make(m, ctx.comm)
    gx = fl.gvalues(rng, m)
    real = fl.field(pm, 'real', gx)
    comp = real.r2c()
    ref_c = numpy.array(comp.value)
    pos = rng.uniform(0, 1, size=(spec['n'], nd)) * m['box']
    mass = rng.uniform(1, 2, size=spec['n'])
    counts = domlib.split_counts(rng, spec['n'], ctx.size)
    off = numpy.concatenate([[0], numpy.cumsum(counts)])
    sl = slice(off[ctx.rank], off[ctx.rank + 1])
    lpos, lmass = pos[sl].copy(), mass[sl].copy()
    lh = numpy.ones(len(lpos))
    layout = pm.decompose(lpos)
    painted = pm.paint(lpos, mass=lmass, layout=layout)
    ref_p = numpy.array(painted.value)
    ref_r = real.readout(lpos, layout=layout)
    keep = [real.value.tobytes(), comp.value.tobytes()]
    for call, sd in spec['steps']:
        r = numpy.random.RandomState(sd)
        bad = who(r, ctx.size)
        me = ctx.rank in bad
        kind = str(r.choice(['long', 'short', 'none']))
        what = '%s %s on ranks %r' % (call, kind, bad)

        def f(x):
            return misfit(x, kind) if me else x
        ok = True
        if call == 'paint-mass':
            # the field that is painted into keeps its values
            ok = refused(ctx, r, what, pm.paint, lpos, mass=f(lmass), layout=layout, out=painted, hold=bool(r.randint(2)))
        elif call == 'paint-pos':
            ok = refused(ctx, r, what, pm.paint, f(lpos), mass=lmass, layout=layout, out=painted, hold=bool(r.randint(2)))
        elif call == 'paint-hsml':
            ok = refused(ctx, r, what, pm.paint, lpos, mass=lmass, hsml=f(lh), layout=layout, out=painted)
        elif call == 'paint-scalar':
            if ctx.size == 1 or len(bad) == ctx.size:
                continue
            ok = refused(ctx, r, what, pm.paint, lpos, mass=2.0 if me else lmass, layout=layout, out=painted)
        elif call == 'readout-pos':
            ok = refused(ctx, r, what, real.readout, f(lpos), layout=layout)
        elif call == 'readout-hsml':
            ok = refused(ctx, r, what, real.readout, lpos, hsml=f(lh), layout=layout)
        elif call == 'jvp-mass':
            ok = refused(ctx, r, what, pm.paint_jvp, lpos, v_mass=f(lmass), layout=layout)
        elif call == 'decompose':
            ok = refused(ctx, r, what, pm.decompose, lpos[:, :nd - 1] if me else lpos)
        elif call == 'ravel':
            n = real.size
            ok = refused(ctx, r, what, real.ravel, numpy.zeros(n + 2 if me else n, real.value.dtype))
        elif call == 'unravel':
            n = real.size
            ok = refused(ctx, r, what, real.unravel, numpy.zeros(n + 2 if me else n, real.value.dtype))
        elif call == 'cdot-kind':
            ok = refused(ctx, r, call, *((real.cdot, comp) if r.randint(2) else (comp.cdot, real)))
        elif call == 'cdot-shape':
            ok = refused(ctx, r, call, real.cdot, numpy.zeros(tuple(x + 1 for x in real.shape)))
        elif call == 'r2c-out':
            ok = refused(ctx, r, call, real.r2c, out=painted)
        elif call == 'c2r-out':
            ok = refused(ctx, r, call, comp.c2r, out=pm.create('transposedcomplex'))
        elif call in ('r2c-mesh', 'c2r-mesh', 'apply-mesh'):
            # a field of a mesh with more, less or smaller elements
            if r.randint(3):
                o = fl.make(dict(m, N=[max(2, n + int(r.choice([-3, -1, 1, 2]))) if r.randint(2) else n + 1 for n in m['N']]), ctx.comm)
            else:
                o = fl.make(dict(m, dtype='f4' if m['dtype'] == 'f8' else 'f8'), ctx.comm)
            if o.dtype == pm.dtype and tuple(o.Nmesh) == tuple(pm.Nmesh):
                continue
            if call == 'apply-mesh' and o.dtype == pm.dtype and tuple(o.Nmesh) != tuple(pm.Nmesh) and ctx.size == 1:
                w = o.create('real', value=0.5)
                ok = refused(ctx, r, call, real.apply, lambda x, v: v, out=w)
            elif call == 'r2c-mesh':
                w = o.create(str(r.choice(['transposedcomplex', 'untransposedcomplex'])), value=0.5)
                ok = refused(ctx, r, call, real.r2c, out=w)
            elif call == 'c2r-mesh':
                w = o.create('real', value=0.5)
                ok = refused(ctx, r, call, comp.c2r, out=w)
            else:
                continue
            ctx.check((numpy.array(w.value) == 0.5).all(), 'partial-effect', '%s wrote to the field it refused' % what)
        elif call == 'apply-kind':
            ok = refused(ctx, r, call, comp.apply, lambda k, v: v, kind='relative')
        elif call == 'apply-kind-real':
            ok = refused(ctx, r, call, real.apply, lambda k, v: v, kind='wavenumber')
        elif call == 'create-type':
            ok = refused(ctx, r, call, pm.create, str(r.choice(['imaginary', 'Real', ''])))
        elif call == 'scalar-index':
            ok = refused(ctx, r, call, real.cgetitem, 0)
        elif call == 'resample-type':
            ok = refused(ctx, r, call, real.resample, numpy.zeros(3))
        elif call == 'dtype':
            ok = refused(ctx, r, call, ParticleMesh, Nmesh=m['N'], BoxSize=m['box'], dtype=str(r.choice(['i4', 'f2', 'S3'])), comm=ctx.comm)
        elif call == 'boxsize':
            ok = refused(ctx, r, call, ParticleMesh, Nmesh=m['N'], BoxSize=[1.0] * (nd + 1), comm=ctx.comm)
        elif call == 'mode-type':
            ok = refused(ctx, r, call, pm.create, type='real', mode='real')
        elif call == 'transpose':
            ok = refused(ctx, r, call, real.ctranspose, [0] * nd)
        elif call == 'hessian':
            ok = refused(ctx, r, call, real.readout_jvp, lpos, v_pos=lpos, gradient=0, layout=layout)
        elif call == 'upsample-type':
            ok = refused(ctx, r, call, pm.upsample, comp)
        elif call == 'method':
            ok = refused(ctx, r, call, real.preview, Nmesh=[n + 1 for n in m['N']], method='nosuch')
        ctx.check([real.value.tobytes(), comp.value.tobytes()] == keep, 'field-modified', what)
        ctx.check(painted.value.tobytes() == ref_p.tobytes(), 'partial-effect', '%s changed the field given for the output' % what)
        # and it goes on
        k = r.randint(4)
        if k == 0:
            p = allowed(ctx, r, 'paint', pm.paint, lpos, mass=lmass, layout=layout)
            if p is not None:
                ctx.same(numpy.array(p.value), ref_p, 'after', 'paint after %s' % what)
        elif k == 1:
            v = allowed(ctx, r, 'readout', real.readout, lpos, layout=layout)
            if v is not None:
                ctx.same(numpy.array(v), ref_r, 'after', 'readout after %s' % what)
        elif k == 2:
            c = allowed(ctx, r, 'r2c', real.r2c)
            if c is not None:
                ctx.same(numpy.array(c.value), ref_c, 'after', 'r2c after %s' % what)
        else:
            v = allowed(ctx, r, 'csum', real.csum)
            if v is not None:
                ctx.close(v, gx.sum(), 'after', 'sum after %s' % what, rtol=1e-5, atol=1e-4)
        if ok:
            ctx.sig(call, kind if '-' in call else '', ctx.size, len(bad), nd)


GROUPS = [Group('particles', gen_layout, run_layout, quick=260, thorough=8000),
          Group('fields', gen_field, run_field, quick=260, thorough=8000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, stuck=75) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=200, stuck=75) for r in (1, 2, 3, 4, 5, 6)] + [dict(ranks=4, budget=200, part=[1, 2]), dict(ranks=8, budget=200)]
