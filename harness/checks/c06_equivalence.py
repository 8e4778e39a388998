import numpy
from core import Group, huge
import winlib

ID = 'C06'
RULE = ('the same paint and readout is done through two representations (tuned or generic window, float32 or float64 inputs, '
        'strided, transposed, read-only, list or scalar inputs, meshes that extend over gigabytes, period-shifted positions, translation in the transform or in the '
        'positions, support by resize or by hsml, fresh or supplied output) and must agree; inputs must be unchanged bit for bit. '
        'A case is non-trivial when the painted mesh is not zero; distinct by (relation, window, dimensions, gradient).')
ASSUMPTIONS = ['gradients and half-cell ties are compared away from the kinks of a window',
               'equal within rounding of the narrower type involved',
               'mesh coordinates of magnitude below 1e5']


def paint(w, spec, pos, mass=None, hsml=None, t=None, dd=None, dtype='f8'):
    a = numpy.zeros(spec['shape'], dtype=dtype)
    w.paint(a, pos, mass=mass, hsml=hsml, transform=t, diffdir=dd)
    return a


RELATIONS = ['tuned', 'tuned', 'dtype', 'memory', 'readonly', 'scalar', 'list', 'period', 'translate', 'resize', 'out', 'rescale',
             'canvas', 'complex', 'default', 'int', 'huge']


def gen(rng, ctx):
    rel = str(rng.choice(RELATIONS))
    kinds = None
    if rel == 'tuned':
        kinds = [p[0] for p in winlib.PAIRS]
    s = winlib.gen_case(rng, kinds=kinds)
    s['n'] = max(1, s['n'])
    s['relation'] = rel
    s['diffdir'] = None if rng.randint(2) else int(rng.randint(len(s['shape'])))
    if rel == 'period':
        s['scale'] = [float(rng.choice([0.5, 1, 2, 4]))] * len(s['shape'])
    if rel == 'resize':
        s['hsml'], s['support'] = 'none', winlib.native(s['kind']) + int(rng.randint(0, 6))
    if rel == 'default':
        s['scale'] = [1.0] * len(s['shape'])
        s['translate'] = [0.0] * len(s['shape'])
        s['period'] = [0] * len(s['shape'])
    return s


def messy(rng, a, how):
    """an equal array with an unusual memory layout"""
    if how == 'F':
        return numpy.asfortranarray(a)
    if how == 'step':
        b = numpy.full((a.shape[0] * 2 + 1,) + a.shape[1:], 777.0, dtype=a.dtype)
        v = b[1::2]
        v[...] = a
        return v
    if how == 'neg':
        return numpy.ascontiguousarray(a[::-1])[::-1]
    if how == 'field':
        s = numpy.zeros(a.shape[0], dtype=[('p', 'i1'), ('x', a.dtype, a.shape[1:]), ('y', 'f8')])
        s['x'] = a
        return s['x'].copy() if a.dtype.itemsize == 0 else _aligned(s, a)
    if how == 'wide' and a.ndim == 2:
        b = numpy.full((a.shape[0], a.shape[1] + 3), 777.0, dtype=a.dtype)
        b[:, 1:1 + a.shape[1]] = a
        return b[:, 1:1 + a.shape[1]]
    return a.copy()


def _aligned(s, a):
    s = numpy.zeros(a.shape[0], dtype=[('p', 'f8'), ('x', a.dtype, a.shape[1:]), ('y', 'f8')])
    s['x'] = a
    return s['x']


def run(ctx, spec):
    from pmesh.window import windows, Affine
    rng = numpy.random.RandomState(spec['pseed'])
    rel, dd = spec['relation'], spec['diffdir']
    nd = len(spec['shape'])
    pos = winlib.gen_pos(rng, spec, kink=False)
    n = len(pos)
    hsml = winlib.gen_hsml(rng, spec)
    mass = rng.uniform(-1, 3, size=n)
    f = rng.uniform(-1, 1, size=spec['shape'])
    w = winlib.make_window(spec)
    t = winlib.make_affine(spec)
    rtol = 1e-11
    keep = [x.copy() for x in (pos, mass, f)]
    tk = [t.scale.copy(), t.translate.copy(), t.period.copy()]
    a0 = paint(w, spec, pos, mass, hsml, t, dd)
    v0 = w.readout(f, pos, hsml=hsml, transform=t, diffdir=dd)
    v1w = max(1.0, 1.0 / numpy.min(hsml)) if hsml is not None else 1.0
    unit = v1w ** (nd + 1) * (1 + max(abs(x) for x in spec['scale']))
    ampa = abs(a0).max() + 3 * unit
    ampv = abs(v0).max() + unit
    others = []     # (label, mesh, values)
    if rel == 'tuned':
        g = dict(winlib.PAIRS)[spec['kind']]
        s2 = dict(spec, kind=g)
        w2 = winlib.make_window(s2)
        ctx.check((w2.support, w2.nativesupport) == (w.support, w.nativesupport), 'support', 'tuned and generic supports differ')
        others.append((g, paint(w2, spec, pos, mass, hsml, t, dd), w2.readout(f, pos, hsml=hsml, transform=t, diffdir=dd)))
    elif rel == 'dtype':
        # float32 inputs given as such, and as the same numbers in float64
        p4, m4 = pos.astype('f4'), mass.astype('f4')
        h4 = None if hsml is None else (numpy.asarray(hsml, 'f4') if numpy.ndim(hsml) else hsml)
        h8 = None if h4 is None else numpy.asarray(h4, 'f8')
        a0 = paint(w, spec, p4.astype('f8'), m4.astype('f8'), h8, t, dd)
        v0 = w.readout(f, p4.astype('f8'), hsml=h8, transform=t, diffdir=dd)
        ampa, ampv = abs(a0).max() + 3 * unit, abs(v0).max() + unit
        for P in ('f4', 'f8'):
            for M in ('f4', 'f8'):
                for H in (('f4', 'f8') if h4 is not None and numpy.ndim(h4) else (None,)):
                    hh = h4 if H is None else h4.astype(H)
                    others.append((P + M + str(H), paint(w, spec, p4.astype(P), m4.astype(M), hh, t, dd),
                                   w.readout(f, p4.astype(P), hsml=hh, transform=t, diffdir=dd)))
        f4 = f.astype('f4')
        vf = w.readout(f4, pos, hsml=hsml, transform=t, diffdir=dd)
        ctx.close(vf, w.readout(f4.astype('f8'), pos, hsml=hsml, transform=t, diffdir=dd), 'mesh-dtype', rtol=0, atol=rtol * ampv)
    elif rel == 'memory':
        for how in ('F', 'step', 'neg', 'field', 'wide'):
            hh = messy(rng, hsml, how) if hsml is not None and numpy.ndim(hsml) else hsml
            p2, m2 = messy(rng, pos, how), messy(rng, mass, how)
            others.append((how, paint(w, spec, p2, m2, hh, t, dd), w.readout(f, p2, hsml=hh, transform=t, diffdir=dd)))
            ctx.check((p2 == pos).all() and (m2 == mass).all(), 'input-modified', how)
    elif rel == 'readonly':
        p2, m2, f2 = pos.copy(), mass.copy(), f.copy()
        h2 = hsml.copy() if hsml is not None and numpy.ndim(hsml) else hsml
        for x in (p2, m2, f2, h2):
            if x is not None and numpy.ndim(x):
                x.flags.writeable = False
        others.append((rel, paint(w, spec, p2, m2, h2, t, dd), w.readout(f2, p2, hsml=h2, transform=t, diffdir=dd)))
        ctx.check((p2 == pos).all() and (f2 == f).all(), 'input-modified')
    elif rel == 'scalar':
        c = float(mass[0])
        a0 = paint(w, spec, pos, numpy.full(n, c), hsml, t, dd)
        others.append(('float', paint(w, spec, pos, c, hsml, t, dd), None))
        others.append(('0-d', paint(w, spec, pos, numpy.array(c), hsml, t, dd), None))
        others.append(('f4', paint(w, spec, pos, numpy.full(n, numpy.float32(c)), hsml, t, dd) * (c / float(numpy.float32(c))), None))
        c4 = numpy.float32(c)
        others.append(('f4 scalar', paint(w, spec, pos, c4, hsml, t, dd) * (c / float(c4)), None))
        others.append(('f4 0-d', paint(w, spec, pos, numpy.array(c4), hsml, t, dd) * (c / float(c4)), None))
        others.append(('unit', paint(w, spec, pos, None, hsml, t, dd) * c, None))
        others.append(('int', paint(w, spec, pos, 3, hsml, t, dd) / 3 * c, None))
    elif rel == 'list':
        hh = hsml.tolist() if hsml is not None and numpy.ndim(hsml) else hsml
        others.append((rel, paint(w, spec, pos.tolist(), mass.tolist(), hh, t, dd),
                       w.readout(f, pos.tolist(), hsml=hh, transform=t, diffdir=dd)))
    elif rel == 'int':
        # integer positions and masses
        ip = rng.randint(-5, 40, size=(n, nd))
        # large ones too: the sums stay exact
        big = rng.randint(3) == 0
        im = rng.randint(1, 2 ** 31 - 1 if big else 9, size=n)
        if dd is not None or spec['kind'] in winlib.WAVELETS:
            dd = None
        a0 = paint(w, spec, ip.astype('f8'), im.astype('f8'), hsml, t, dd)
        v0 = w.readout(f, ip.astype('f8'), hsml=hsml, transform=t, diffdir=dd)
        for dt in ('i8', 'i4', 'u2' if (ip >= 0).all() else 'i2'):
            others.append((dt, paint(w, spec, ip.astype(dt), im.astype(dt if not big else 'u4' if dt == 'i4' else 'i8'), hsml, t, dd),
                           w.readout(f, ip.astype(dt), hsml=hsml, transform=t, diffdir=dd)))
    elif rel == 'period':
        k = rng.randint(-3, 4, size=(n, nd))
        p2 = pos + k * numpy.array(spec['period']) / numpy.array(spec['scale'])
        rtol = 1e-9 if spec['kind'] in winlib.SPLINES else 1e-6
        if dd is None or spec['kind'] in winlib.SPLINES:
            others.append((rel, paint(w, spec, p2, mass, hsml, t, dd), w.readout(f, p2, hsml=hsml, transform=t, diffdir=dd)))
    elif rel == 'translate':
        d = rng.randint(-8, 9, size=nd) * 0.5
        t2 = Affine(nd, scale=spec['scale'], translate=numpy.array(spec['translate']) + d, period=spec['period'])
        t3 = t.shift(d)
        p2 = pos - d / numpy.array(spec['scale'])
        rtol = 1e-9 if spec['kind'] in winlib.SPLINES else 1e-6
        if dd is None or spec['kind'] in winlib.SPLINES:
            for lab, tt in (('affine', t2), ('shift', t3)):
                others.append((lab, paint(w, spec, p2, mass, hsml, tt, dd), w.readout(f, p2, hsml=hsml, transform=tt, diffdir=dd)))
    elif rel == 'rescale':
        c = float(rng.choice([0.5, 2.0, 4.0]))
        t2 = t.rescale(c)
        # positions shrink, the derivative with respect to them grows
        g = c if dd is not None else 1.0
        rtol = 1e-10
        others.append((rel, paint(w, spec, pos / c, mass, hsml, t2, dd) / g, w.readout(f, pos / c, hsml=hsml, transform=t2, diffdir=dd) / g))
    elif rel == 'resize':
        nat = winlib.native(spec['kind'])
        w2 = windows[winlib.NAMES[spec['kind']]]
        h = spec['support'] / float(nat)
        ctx.check(w.support == spec['support'] and w2.support == nat, 'support', 'resize(%d) gives support %d' % (spec['support'], w.support))
        # only if hsml * native is the support exactly, so that no extra cell of a jumping window appears
        if nat * h == spec['support']:
            others.append((rel, paint(w2, spec, pos, mass, h, t, dd), w2.readout(f, pos, hsml=h, transform=t, diffdir=dd)))
            others.append(('ones', paint(w, spec, pos, mass, numpy.ones(n), t, dd), w.readout(f, pos, hsml=numpy.ones(n), transform=t, diffdir=dd)))
        others.append(('back', paint(w.resize(spec['support']), spec, pos, mass, None, t, dd),
                       w.resize(nat).resize(spec['support']).readout(f, pos, transform=t, diffdir=dd)))
    elif rel == 'out':
        for dt, how in (('f8', None), ('f4', None), ('f8', 'step'), ('f8', 'neg')):
            o = numpy.full(n, 1e30, dtype=dt)
            if how:
                o = messy(rng, o, how)
            r = w.readout(f, pos, hsml=hsml, transform=t, diffdir=dd, out=o)
            ctx.check(r is o, 'out', 'readout does not return the supplied array')
            tol = (1e-6 if dt == 'f4' else 1e-13) * ampv
            ctx.close(o.astype('f8'), v0, 'out-values', '%s %s' % (dt, how), rtol=0, atol=tol)
    elif rel == 'canvas':
        a4 = paint(w, spec, pos, mass, hsml, t, dd, 'f4')
        s = abs(mass).sum() * unit
        ctx.close(a4.astype('f8'), a0, 'mesh-dtype', rtol=0, atol=3e-7 * (s + ampa) * 3)
        aF = numpy.zeros(spec['shape'], order='F')
        w.paint(aF, pos, mass=mass, hsml=hsml, transform=t, diffdir=dd)
        aT = numpy.zeros(spec['shape'][::-1]).T
        w.paint(aT, pos, mass=mass, hsml=hsml, transform=t, diffdir=dd)
        others += [('F', aF, w.readout(numpy.asfortranarray(f), pos, hsml=hsml, transform=t, diffdir=dd)), ('T', aT, None)]
    elif rel == 'huge':
        # offsets of the cells beyond 32 bits
        for dt in ('f8', 'f4'):
            ah = huge(rng, spec['shape'], dt)
            w.paint(ah, pos, mass=mass, hsml=hsml, transform=t, diffdir=dd)
            fh = huge(rng, spec['shape'], dt)
            fh[...] = f
            vh = w.readout(fh, pos, hsml=hsml, transform=t, diffdir=dd)
            if dt == 'f8':
                others.append((dt, ah.copy(), vh))
            else:
                s = abs(mass).sum() * unit
                ctx.close(ah.astype('f8'), a0, 'huge-f4', rtol=0, atol=3e-7 * (s + ampa) * 3)
                ctx.close(vh, w.readout(f.astype('f4').astype('f8'), pos, hsml=hsml, transform=t, diffdir=dd), 'huge-f4', rtol=0,
                          atol=rtol * ampv)
    elif rel == 'complex':
        c = numpy.zeros(spec['shape'], 'c16')
        c.imag = f
        w.paint(c, pos, mass=mass, hsml=hsml, transform=t, diffdir=dd)
        ctx.check((c.imag == f).all(), 'imaginary-part', 'painting a complex mesh changed its imaginary part')
        others.append((rel, c.real.copy(), w.readout(f + 1j * rng.uniform(size=f.shape), pos, hsml=hsml, transform=t, diffdir=dd)))
    elif rel == 'default':
        others.append((rel, paint(w, spec, pos, mass, hsml, None, dd), w.readout(f, pos, hsml=hsml, diffdir=dd)))
    for lab, a, v in others:
        ctx.ev('pairs')
        ctx.close(a, a0, 'paint-' + rel, lab, rtol=0, atol=rtol * ampa)
        if v is not None:
            ctx.close(numpy.asarray(v, 'f8'), v0, 'readout-' + rel, lab, rtol=0, atol=rtol * ampv)
    ctx.check((pos == keep[0]).all() and (mass == keep[1]).all() and (f == keep[2]).all(), 'input-modified', rel)
    ctx.check(all((x == y).all() for x, y in zip(tk, (t.scale, t.translate, t.period))), 'input-modified', 'transform')
    if a0.any():
        ctx.sig(rel, spec['kind'], nd, dd is not None, spec['hsml'])


GROUPS = [Group('relation', gen, run, quick=7000, thorough=150000)]
TECHNIQUE = 'runtime monitoring: metamorphic relations between equivalent inputs, with input-immutability monitors'


def jobs(tier):
    n, b = (3, 25) if tier == 'quick' else (7, 500)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
