import numpy
import fieldlib as fl
import winlib
from core import Group
from checks import c14_parallel_mesh as c14

ID = 'C18'
TECHNIQUE = ('runtime monitoring: every backward product of the real code is compared with an independent one-process adjoint (window-derivative model, '
             'numpy transforms) and put through inner-product and finite-difference monitors against the real forward operation')
RULE = ('random meshes, process meshes, particles spread unevenly over ranks, windows and cotangents; paint_vjp, paint_jvp, readout_vjp, readout_jvp, '
        'c2r_vjp, r2c_vjp, decompress_vjp and cdot_vjp, with new, given and in-place outputs, with and without a layout. A case is non-trivial with '
        'particles (or a mesh of more than one cell); distinct by (operation, window, mesh, precision, process mesh, outputs).')
ASSUMPTIONS = ['smoothing given to decompose covers the window', 'windows whose derivative jumps are kept off the jumps',
               'complex cotangents use the convention of the code: one independent number per mode of the full spectrum, and for '
               'decompress_vjp one per Hermitian pair of modes',
               'cdot_vjp: real part, with respect to the other field']


def gen(rng, ctx):
    s = c14.gen(rng, ctx)
    s['hsml'] = 'none'
    s['smooth'] = 'window'
    s['mass'] = str(rng.choice(['scalar', 'array']))
    if s['kind'] not in ('quadratic', 'tunedtsc', 'cubic', 'tunedpcs'):
        s['kink'] = s['exact'] = False
    s['layout'] = bool(ctx.size > 1 or rng.randint(2))
    s['outs'] = [str(x) for x in rng.choice(['none', 'given', 'strided', 'inplace', 'false'], size=2, p=[0.4, 0.2, 0.1, 0.15, 0.15])]
    s['grad'] = None if rng.randint(4) else int(rng.randint(len(s['m']['N'])))
    s['posint'] = False
    if s['kink'] or s['kind'] not in ('quadratic', 'tunedtsc', 'cubic', 'tunedpcs'):
        s['u'] = [float(round(x)) for x in s['u']]
    return s


def run(ctx, s):
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    nd = len(m['N'])
    pm = fl.make(m, ctx.comm)
    s = dict(s, n=(s['n'] * 2)[:ctx.size])
    g = c14.positions(rng, s, m, [numpy.array(e, 'f8') for e in pm.domain.edges])
    N = numpy.array(m['N'], 'f8')
    box = numpy.array(m['box'])
    # the caller's transforms
    tr = s.get('transform', 'none')
    unitlen = {'grid': N / N, 'rescale': 0.5 * box / N}.get(tr, box / N)
    shift = numpy.array(s['u'], 'f8') if tr == 'shift' else numpy.zeros(nd)
    pos = (g * unitlen).astype(s['posdtype'])
    n = len(pos)
    offs = numpy.concatenate([[0], numpy.cumsum(s['n'])])
    mine = slice(offs[ctx.rank], offs[ctx.rank + 1])
    lm = lambda x: x[mine] if numpy.ndim(x) else x
    mass = rng.uniform(0.5, 2, size=n) * rng.choice([-1, 1], size=n) if s['mass'] == 'array' else float(rng.uniform(0.5, 2))
    M = numpy.zeros(n) + mass
    kw = dict(resampler=s['name'])
    tk = {}
    t = {'none': None, 'grid': pm.affine_grid, 'shift': pm.affine.shift(shift), 'rescale': pm.affine.rescale(2.0)}[tr]
    if t is not None:
        tk['transform'] = kw['transform'] = t
    sm = s['name'] if tr != 'shift' else winlib.native(s['kind']) * 0.5 + abs(shift).max()
    layout = pm.decompose(pos[mine], smoothing=sm, **tk) if s['layout'] else None
    if layout is not None:
        kw['layout'] = layout
    ws = dict(kind=s['kind'], shape=m['N'], period=m['N'], translate=[float(x) for x in shift], scale=[float(x) for x in 1 / unitlen], support=None)
    W0 = winlib.model(ws, pos.astype('f8'), None, None)
    Wd = [winlib.model(ws, pos.astype('f8'), None, d) for d in range(nd)]
    nat = winlib.native(s['kind'])
    ndep = float(numpy.prod([2 + nat / p for p in m['N']]))
    eps = 4e-6 if m['dtype'] in ('f4', 'c8') or s['posdtype'] == 'f4' else 1e-10
    if s['kind'] not in winlib.SPLINES:
        eps = max(eps, 1e-6)
    slope = 1 + max(1 / unitlen)
    A = fl.gvalues(rng, m)
    if m['dtype'][0] == 'c':
        A = A.real.astype(A.dtype)
    rA = numpy.real(A)
    F = fl.field(pm, 'real', A)
    read = lambda W: winlib.contract_read(W, rA) if n else numpy.zeros(0)
    rtol_v = eps * ndep * (1 + abs(rA).max()) * 8
    smooth = s['grad']
    p0 = pos[mine].copy()
    ctx.ev('particles', n if ctx.rank == 0 else 0)
    # ---- paint_vjp ------------------------------------------------------------------
    for op in ('paint', 'readout'):
        grad = s['grad']
        o1, o2 = s['outs']
        if grad is not None:
            o1 = 'false'      # no second derivatives
        v = rng.normal(size=n)
        weights = M if op == 'paint' else v
        p = p0.copy()
        given = {}
        arg1 = outarg(rng, o1, (len(p0), nd), p0.dtype, given, 'pos')
        want_pos = numpy.array([read(Wd[d]) * weights for d in range(nd)]).T[mine] if n else numpy.zeros((len(p0), nd))
        if op == 'paint':
            mm = numpy.array(lm(mass)) if numpy.ndim(mass) else mass
            if o2 == 'inplace' and numpy.ndim(mass) == 0:
                o2 = 'none'
            arg2 = outarg(rng, o2, (len(p0),), 'f8', given, 'mass')
            F0 = numpy.array(F.value)
            gp, gm = pm.paint_vjp(F, p, mass=mm, gradient=grad, out_pos=arg1, out_mass=arg2, **kw)
            ctx.same(numpy.array(F.value), F0, 'cotangent-kept', 'paint_vjp')
            inpl = dict(pos=p, mass=mm)
            W = W0 if grad is None else Wd[grad]
            wm = read(W)[mine] if n else numpy.zeros(len(p0))
            if expect_out(ctx, 'paint_vjp', o2, gm, given.get('mass'), inpl['mass']):
                ctx.close(numpy.asarray(gm, 'f8'), wm, 'paint_vjp-mass', '', rtol=0, atol=rtol_v * (slope if grad is not None else 1))
            if o2 != 'inplace' and numpy.ndim(mass):
                ctx.same(mm, mass[mine], 'input-kept', 'paint_vjp changed the mass')
        else:
            vv = v[mine].copy()
            Fs = fl.field(pm, 'real', A)
            arg2 = None
            if o2 in ('given', 'strided'):
                arg2 = fl.field(pm, 'real', fl.gvalues(rng, m))
                given['self'] = arg2
            elif o2 == 'inplace':
                arg2 = Ellipsis
            elif o2 == 'false':
                arg2 = False
            gf, gp = Fs.readout_vjp(p, vv, gradient=grad, out_self=arg2, out_pos=arg1, **kw)
            ctx.same(vv, v[mine], 'input-kept', 'readout_vjp changed the cotangent')
            W = W0 if grad is None else Wd[grad]
            if expect_out(ctx, 'readout_vjp', o2, gf, given.get('self'), Fs):
                wf = winlib.contract_paint(W, v) if n else numpy.zeros(m['N'])
                got = fl.whole(ctx, gf)
                ctx.close(got, wf + 0 * got.dtype.type(0), 'readout_vjp-self', '', rtol=0, atol=eps * (1 + abs(wf).max() + n * ndep) * slope * 4)
            if o2 != 'inplace':
                ctx.same(numpy.array(Fs.value), A[Fs.slices].astype(Fs.dtype), 'input-kept', 'readout_vjp changed the field')
        if expect_out(ctx, op + '_vjp', o1, gp, given.get('pos'), p):
            ctx.close(numpy.asarray(gp, 'f8'), want_pos, op + '_vjp-pos', '', rtol=0, atol=rtol_v * slope * 3)
            ctx.check(numpy.shape(gp) == (len(p0), nd), op + '_vjp-pos', 'shape')
        if o1 != 'inplace':
            ctx.same(p, p0, 'input-kept', op + '_vjp changed the positions')
    # ---- forward products -------------------------------------------------------------
    vp = rng.normal(size=(n, nd)) if rng.randint(4) else None
    vm = rng.normal(size=n) if rng.randint(4) else None
    vf = fl.gvalues(rng, m)
    if m['dtype'][0] == 'c':
        vf = vf.real.astype(vf.dtype)
    vself = vf if rng.randint(4) else None
    out = fl.field(pm, 'real', fl.gvalues(rng, m)) if rng.randint(2) else None
    J = pm.paint_jvp(p0.copy(), mass=lm(mass), v_pos=None if vp is None else vp[mine], v_mass=None if vm is None else vm[mine], out=out, **kw)
    if out is not None:
        ctx.check(J is out, 'returns-out', 'paint_jvp')
    want = numpy.zeros(m['N'])
    if n:
        if vp is not None:
            for d in range(nd):
                want = want + winlib.contract_paint(Wd[d], M * vp[:, d])
        if vm is not None:
            want = want + winlib.contract_paint(W0, vm)
    gJ = fl.whole(ctx, J)
    ctx.close(gJ, want + 0 * gJ.dtype.type(0), 'paint_jvp', '', rtol=0, atol=eps * (1 + abs(want).max() + n * ndep) * slope * 6)
    K = F.readout(p0, **kw)
    ctx.close(numpy.asarray(K, 'f8'), read(W0)[mine] if n else numpy.zeros(len(p0)), 'readout', '', rtol=0, atol=rtol_v)
    jg = s['grad']
    K = F.readout_jvp(p0.copy(), v_self=None if vself is None else fl.field(pm, 'real', vself),
                      v_pos=None if vp is None or jg is not None else vp[mine], gradient=jg, **kw)
    want = numpy.zeros(n)
    if n:
        if vp is not None and jg is None:
            for d in range(nd):
                want = want + read(Wd[d]) * vp[:, d]
        if vself is not None:
            want = want + winlib.contract_read(W0 if jg is None else Wd[jg], numpy.real(vself))
    ctx.close(numpy.asarray(K, 'f8'), want[mine], 'readout_jvp', 'gradient=%r' % (jg,), rtol=0, atol=rtol_v * slope * 8)
    if jg is not None and vp is not None:
        try:
            F.readout_jvp(p0.copy(), v_pos=vp[mine], gradient=jg, **kw)
            ctx.fail('second-derivative', 'readout_jvp of the positions with a gradient does not refuse')
        except (ValueError, NotImplementedError, AssertionError):
            pass
    # ---- the real forward operation changes as its product says --------------------------
    if s['kind'] in ('quadratic', 'tunedtsc', 'cubic', 'tunedpcs') and m['dtype'] in ('f8', 'c16') and s['posdtype'] == 'f8' and n and vp is not None and not s['kink']:
        h = 1e-4
        dx = vp * unitlen
        lay = lambda q: dict(tk, resampler=s['name'], layout=pm.decompose(q, smoothing=sm, **tk)) if s['layout'] else dict(tk, resampler=s['name'])
        a, b = [(pos + sg * h * dx)[mine] for sg in (1, -1)]
        fd = (fl.whole(ctx, pm.paint(a, mass=lm(mass), **lay(a))) - fl.whole(ctx, pm.paint(b, mass=lm(mass), **lay(b)))) / (2 * h)
        J = fl.whole(ctx, pm.paint_jvp(p0, mass=lm(mass), v_pos=dx[mine], **kw))
        # the second derivative of the quadratic window jumps at half and whole cells, which may be within h of a particle
        sc = abs(dx / unitlen).max() ** 2 * (abs(mass) if numpy.ndim(mass) == 0 else abs(mass).max()) * n
        ctx.close(J, fd, 'finite-difference-paint', '', rtol=0, atol=20 * h * sc + 1e-8)
        ctx.ev('finite_differences')
    if n:
        ctx.sig(s['kind'], tuple(m['N']), m['dtype'], tuple(m['np'] or ()), s['grad'], tuple(s['outs']), n)


def outarg(rng, o, shape, dtype, given, key):
    if o == 'none':
        return None
    if o == 'false':
        return False
    if o == 'inplace':
        return Ellipsis
    x = numpy.zeros(shape, dtype) + 7
    if o == 'strided':
        big = numpy.zeros(tuple(2 * k for k in shape), dtype) + 7
        x = big[tuple(slice(0, 2 * k, 2) for k in shape)]
    given[key] = x
    return x


def expect_out(ctx, op, o, got, given, inplace):
    if o == 'false':
        ctx.check(got is False, op + '-outputs', 'an output that was not asked for')
        return False
    if o in ('given', 'strided'):
        ctx.check(got is given, op + '-outputs', 'the given output is not returned')
    if o == 'inplace':
        ctx.check(got is inplace, op + '-outputs', 'the in-place output is not returned')
    return True


# ---------------------------------------------------------------- transforms

def gen_t(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size)
    return dict(m=m, type=str(rng.choice(fl.CTYPES)), out=str(rng.choice(['none', 'given', 'inplace'])), metric=bool(rng.randint(2)),
                pseed=int(rng.randint(2 ** 31 - 1)))


def herm(rng, m):
    """a random spectrum that belongs to a real field, and the full one"""
    g = numpy.real(fl.gvalues(rng, m)) if m['dtype'][0] == 'f' else fl.gvalues(rng, m)
    F = fl.spectrum(g, m)
    F = F.astype(fl.COMPLEX[m['dtype']]).astype('c16')
    return F


def run_t(ctx, s):
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    n = int(numpy.prod(m['N']))
    real = m['dtype'][0] == 'f'
    typ = s['type']
    e = fl.EPS[m['dtype']]
    rng2 = numpy.random.RandomState(s['pseed'] + 1)

    def outc(v, type):
        if s['out'] == 'none':
            return None
        if s['out'] == 'inplace':
            return Ellipsis
        return pm.create(type)

    # c2r_vjp: n times the forward transform
    v = fl.gvalues(rng, m)
    V = fl.field(pm, 'real', v)
    o = outc(V, typ)
    r = V.c2r_vjp(out=o)
    if o is not None and o is not Ellipsis:
        ctx.check(r is o, 'c2r_vjp-outputs', 'not the output given')
    want = fl.spectrum(v, m) * n
    ctx.close(fl.whole(ctx, r), want, 'c2r_vjp', '', rtol=0, atol=e * n * (1 + abs(v).max()) * 10)
    if o is not Ellipsis:
        ctx.same(numpy.array(V.value), v[V.slices].astype(V.dtype), 'input-kept', 'c2r_vjp')
    # the inner product identity with the real forward operation
    dF = herm(rng, m)
    D = fl.field(pm, typ, dF)
    dx = fl.whole(ctx, D.c2r())
    full = lambda F: fl.expand(F, m)
    lhs = numpy.real((numpy.conj(v) * dx).sum())
    rhs = numpy.real((numpy.conj(full(fl.whole(ctx, r))) * full(dF)).sum())
    ctx.close(rhs, lhs, 'c2r-inner-product', '', rtol=0, atol=e * n * 200 * (1 + abs(v).max()) * (1 + abs(dx).max()))
    ctx.ev('inner_products', 2)
    # r2c_vjp
    w = herm(rng, m)
    C = fl.field(pm, typ, w)
    o = outc(C, 'real')
    r = C.r2c_vjp(out=o)
    if o is not None and o is not Ellipsis:
        ctx.check(r is o, 'r2c_vjp-outputs', 'not the output given')
    want = numpy.fft.ifftn(full(w))
    if real:
        want = want.real
    got = fl.whole(ctx, r)
    ctx.close(got, want, 'r2c_vjp', '', rtol=0, atol=e * (1 + abs(w).max()) * 10)
    if o is not Ellipsis:
        ctx.same(numpy.array(C.value), w[C.slices].astype(C.dtype), 'input-kept', 'r2c_vjp')
    dg = fl.gvalues(rng, m)
    dC = fl.whole(ctx, fl.field(pm, 'real', dg).r2c(out=pm.create(typ)))
    lhs = numpy.real((numpy.conj(full(w)) * full(dC)).sum())
    rhs = numpy.real((numpy.conj(got) * dg).sum())
    ctx.close(rhs, lhs, 'r2c-inner-product', '', rtol=0, atol=e * 400 * (1 + abs(w).max()) * n * (1 + abs(dg).max()))
    # decompress_vjp: the change of the real field when one Hermitian pair of modes is set
    vr = numpy.real(fl.gvalues(rng, m)).astype(m['dtype']).astype('c16' if not real else 'f8')
    C = fl.field(pm, 'real', vr).c2r_vjp(out=pm.create(typ))
    C0 = numpy.array(C.value)
    o = None if s['out'] == 'none' else Ellipsis if s['out'] == 'inplace' else pm.create(typ)
    G = C.decompress_vjp(out=o)
    ctx.check(type(G) is type(C), 'decompress_vjp-outputs', 'type %s' % type(G))
    if o is Ellipsis:
        ctx.check(G is C, 'decompress_vjp-outputs', 'not in place')
    else:
        ctx.same(numpy.array(C.value), C0, 'input-kept', 'decompress_vjp')
        if o is not None:
            ctx.check(G is o, 'decompress_vjp-outputs', 'not the output given')
    shape = fl.cN(m, typ)
    gg = fl.whole(ctx, G)
    V = numpy.fft.fftn(vr)[tuple(slice(0, k) for k in shape)]
    idx = numpy.indices(shape)
    self_conj = numpy.all([(2 * i) % k == 0 for i, k in zip(idx, m['N'])], axis=0)
    ctx.close(gg, numpy.where(self_conj, V, 2 * V), 'decompress_vjp', '', rtol=0, atol=e * n * (1 + abs(vr).max()) * 20)
    for _ in range(3):
        i = [int(rng2.randint(k)) for k in shape]
        if rng2.randint(2):
            i = [int(rng2.choice([0, k // 2 if k % 2 == 0 else 0])) if j < k // 2 + 1 else j for j, k in zip(i, m['N'])]
            i = [min(a, b - 1) for a, b in zip(i, shape)]
        y = complex(rng2.normal(), rng2.normal())
        P = pm.create(typ)
        P.value[...] = 0
        y1 = P.csetitem(i, y)
        dx = fl.whole(ctx, P.c2r())
        lhs = numpy.real((numpy.conj(vr) * dx).sum())
        rhs = numpy.real(numpy.conj(gg[tuple(i)]) * y1)
        ctx.close(rhs, lhs, 'decompress-inner-product', 'mode %r of mesh %r' % (i, m['N']), rtol=0, atol=e * n * 200 * (1 + abs(vr).max()))
        ctx.ev('modes_perturbed')
    # cdot_vjp: d Re cdot(self, other) / d other
    a, b = herm(rng, m), herm(rng, m)
    A, B = fl.field(pm, typ, a), fl.field(pm, typ, b)
    met = (lambda k: 1.0 / (1.0 + k)) if s['metric'] else None
    sc = float(rng.normal())
    r = A.cdot_vjp(sc, metric=met)
    ctx.same(numpy.array(A.value), a[A.slices].astype(A.dtype), 'input-kept', 'cdot_vjp')
    dc = sc * numpy.real(A.cdot(B, metric=met))
    w = full(fl.whole(ctx, r))
    ctx.close(numpy.real((numpy.conj(w) * full(b)).sum()), dc, 'cdot-inner-product', '', rtol=0, atol=e * n * 100 * (1 + abs(a).max()) * (1 + abs(b).max()) * (1 + abs(sc)))
    kk = 0
    for d, k in enumerate(m['N']):
        f = 2 * numpy.pi / m['box'][d] * fl.freq(k)[:shape[d]].astype('f8')
        kk = kk + (f ** 2).reshape([-1 if j == d else 1 for j in range(len(shape))])
    wm = sc * a * (1.0 if met is None else met(kk ** 0.5))
    ctx.close(fl.whole(ctx, r), wm, 'cdot_vjp', '', rtol=0, atol=e * 50 * (1 + abs(a).max()) * (1 + abs(sc)))
    if n > 1:
        ctx.sig('t', tuple(m['N']), m['dtype'], tuple(m['np'] or ()), typ, s['out'], s['metric'])


# ---------------------------------------------------------------- a whole chain

def gen_c(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, dtypes=('f8',), lo=3)
    return dict(m=m, name=str(rng.choice(['cic', 'tsc', 'pcs', 'quadratic', 'cubic'])), n=[int(x) for x in rng.choice([1, 5, 20], size=8)],
                type=str(rng.choice(fl.CTYPES)), inplace=bool(rng.randint(2)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_c(ctx, s):
    """positions and masses painted, transformed, filtered, transformed back and read out: the chained products are adjoint"""
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    nd = len(m['N'])
    cnt = (s['n'] * 2)[:ctx.size]
    n = sum(cnt)
    off = numpy.concatenate([[0], numpy.cumsum(cnt)])
    mine = slice(off[ctx.rank], off[ctx.rank + 1])
    box = numpy.array(m['box'])
    h = box / m['N']
    # off the kinks of the derivatives
    pos = ((rng.randint(0, 100, size=(n, nd)) + rng.uniform(0.05, 0.45, size=(n, nd)) + 0.5 * rng.randint(0, 2, size=(n, nd))) % m['N'] * h)[mine]
    mass = rng.uniform(0.5, 2, size=n)[mine]
    vp, vm, cot = (rng.normal(size=(n, nd)) * h)[mine], rng.normal(size=n)[mine], rng.normal(size=n)[mine]
    kw = dict(resampler=s['name'], layout=pm.decompose(pos, smoothing=s['name']))
    filt = lambda k, y: y / (1 + sum((ki * hi) ** 2 for ki, hi in zip(k, h)))
    out = Ellipsis if s['inplace'] else None

    def lin(field):
        c = field.r2c(out=Ellipsis if s['inplace'] else pm.create(s['type']))
        return c.apply(filt, out=out).c2r(out=out)

    A = lin(pm.paint(pos, mass=mass, **kw))
    fwd = A.readout_jvp(pos, v_self=lin(pm.paint_jvp(pos, mass=mass, v_pos=vp, v_mass=vm, **kw)), v_pos=vp, **kw)
    gA, gp1 = A.readout_vjp(pos, cot, **kw)
    c = gA.c2r_vjp(out=Ellipsis if s['inplace'] else pm.create(s['type']))
    c = c.apply(filt, out=out)
    gP = c.r2c_vjp(out=out)
    gp2, gm = pm.paint_vjp(gP, pos, mass=mass, **kw)
    loc = [float((cot * fwd).sum()), float(((gp1 + gp2) * vp).sum() + (gm * vm).sum()),
           float(abs(cot * fwd).sum() + abs((gp1 + gp2) * vp).sum() + abs(gm * vm).sum())]
    lhs, rhs, scale = numpy.sum(ctx.comm.allgather(loc), axis=0)
    ctx.close(rhs, lhs, 'chain', '', rtol=0, atol=1e-10 * (1 + scale) * numpy.prod(m['N']) ** 0.5)
    ctx.ev('chains')
    ctx.sig('chain', tuple(m['N']), tuple(m['np'] or ()), s['name'], s['type'], s['inplace'])


GROUPS = [Group('window', gen, run, quick=160, thorough=4000), Group('transform', gen_t, run_t, quick=120, thorough=3000),
          Group('chain', gen_c, run_c, quick=60, thorough=1500)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=25, scale=0.3)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
