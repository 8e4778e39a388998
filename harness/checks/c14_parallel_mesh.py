import warnings

import numpy
import fieldlib as fl
import winlib
from core import Group

ID = 'C14'
TECHNIQUE = 'runtime monitoring: distributed paint and readout of random particles compared with an independent one-process window model; mass and ownership conservation monitored across ranks'
RULE = ('random meshes, process meshes and particles spread unevenly over the ranks (many outside the box, on cell and rank boundaries), every window, caller\'s transforms, '
        'smoothing lengths and gradients; the union of the painted local meshes and each read-out value must be those of the independent '
        'window model on the whole mesh. A case is non-trivial when there are particles and, with several ranks, some particle travels; '
        'distinct by (window, mesh, precision, process mesh, gradient, particles).')
ASSUMPTIONS = ['smoothing given to decompose is at least half the (scaled) window support',
               'windows that jump (nearest, gradients of linear windows, wavelets) are not put on their jumps unless mesh coordinates are exact',
               'complex meshes: the window works on the real part']
WIN = {'nearest': ['nearest', 'NEAREST'], 'tunednnb': ['nnb', 'NNB'], 'linear': ['linear'], 'tunedcic': ['cic', 'CIC'],
       'quadratic': ['quadratic'], 'tunedtsc': ['tsc'], 'cubic': ['cubic'], 'tunedpcs': ['pcs']}


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, cap={2: 20, 3: 10})
    kind = str(rng.choice(winlib.SPLINES * 4 + winlib.TABLES + winlib.WAVELETS))
    exact = bool(rng.randint(2))
    if exact:
        m['box'] = [n * f for n, f in zip(m['N'], rng.choice([1.0, 0.5, 2.0], size=len(m['N'])))]
    names = WIN.get(kind, [kind])
    nd = len(m['N'])
    hs = str(rng.choice(['none', 'none', 'scalar', 'array'])) if kind not in winlib.WAVELETS else 'none'
    jump = kind in winlib.WAVELETS + ['nearest', 'tunednnb', 'linear', 'tunedcic']
    grad = None if rng.randint(3) else int(rng.randint(nd))
    if grad is not None and kind not in ('quadratic', 'tunedtsc', 'cubic', 'tunedpcs'):
        exact = False   # the derivative jumps: stay off the kinks
    return dict(m=m, kind=kind, name=str(rng.choice(names)), exact=exact, hsml=hs, grad=grad,
                n=[int(x) for x in rng.choice([0, 1, 5, 30], size=8)],
                smooth=str(rng.choice(['window', 'number', 'vector', 'more', 'default'])),
                mass=str(rng.choice(['scalar', 'array', 'none'])), posdtype=str(rng.choice(['f8', 'f8', 'f4'])),
                # a window of the caller, of another support than its native one
                support=winlib.native(kind) + int(rng.randint(1, 6)) if hs == 'none' and kind not in winlib.WAVELETS and rng.randint(3) == 0 else None,
                hold=bool(rng.randint(2)), wrap=float(rng.choice([0, 0.3, 2])), kink=bool(rng.randint(2)) and (exact or not (jump or grad is not None)),
                corner=bool(rng.randint(2)), transform=str(rng.choice(['none', 'none', 'none', 'grid', 'shift', 'rescale'])),
                u=[float(x) for x in rng.randint(-3, 4, size=nd) * 0.5], pseed=int(rng.randint(2 ** 31 - 1)))


def positions(rng, s, m, edges):
    n = sum(s['n'])
    nd = len(m['N'])
    g = numpy.zeros((n, nd))
    for d in range(nd):
        N = m['N'][d]
        g[:, d] = rng.uniform(-s['wrap'] * N, N + s['wrap'] * N, size=n)
        if s['corner']:
            # near the edges of the domains
            e = rng.choice(edges[d], size=n) + rng.uniform(-2, 2, size=n)
            g[:, d] = numpy.where(rng.randint(2, size=n), e, g[:, d])
        if s['kink']:
            k = rng.randint(6, size=n)
            g[:, d] = numpy.where(k == 1, numpy.floor(g[:, d]), g[:, d])
            g[:, d] = numpy.where(k == 2, numpy.floor(g[:, d]) + 0.5, g[:, d])
        else:
            # away from whole and half cells, more than single precision can move
            f = g[:, d] * 2 - numpy.floor(g[:, d] * 2)
            g[:, d] = (numpy.floor(g[:, d] * 2) + 0.05 + 0.9 * f) / 2
    if s['posdtype'] == 'f4':
        g = numpy.round(g * 1024) / 1024
    return g


def run(ctx, s):
    m = s['m']
    rng = numpy.random.RandomState(s['pseed'])
    nd = len(m['N'])
    pm = fl.make(m, ctx.comm)
    s = dict(s, n=(s['n'] * 2)[:ctx.size])
    g = positions(rng, s, m, [numpy.array(e, 'f8') for e in pm.domain.edges])
    N = numpy.array(m['N'], 'f8')
    box = numpy.array(m['box'])
    # transforms of the caller: positions in cells, shifted by some cells, or in a unit of their own
    tr = s.get('transform', 'none')
    unitlen = {'grid': N / N, 'rescale': 0.5 * box / N}.get(tr, box / N)
    shift = numpy.array(s['u']) if tr == 'shift' else numpy.zeros(nd)
    pos = (g * unitlen).astype(s['posdtype'])
    n = len(pos)
    grad = s['grad']
    hs = None
    if s['hsml'] != 'none':
        if s['kind'] in ('nearest', 'tunednnb'):
            hs = float(rng.choice([1.0, 2.0, 3.0]))
        else:
            hs = float(rng.choice([1.0, 0.6, 1.3, 2.0])) if s['hsml'] == 'scalar' else rng.uniform(0.3, 2.5, size=n)
    if s['hsml'] == 'scalar' and hs is not None and numpy.ndim(hs) == 0 and rng.randint(2):
        hs = numpy.zeros(n) + hs
    mass = rng.uniform(0.5, 2, size=n) * rng.choice([-1, 1], size=n) if s['mass'] == 'array' else float(rng.uniform(0.5, 2))
    if s['mass'] == 'none':
        mass = 1.0
    offs = numpy.concatenate([[0], numpy.cumsum(s['n'])])
    mine = slice(offs[ctx.rank], offs[ctx.rank + 1])
    lm = lambda x: x[mine] if numpy.ndim(x) else x
    name = s['name']
    nat = winlib.native(s['kind'])
    if s.get('support'):
        from pmesh.window import FindResampler
        name, nat = FindResampler(name).resize(s['support']), s['support']
    half = nat * 0.5 * (1.0 if hs is None else max(1e-3, float(numpy.max(hs)) if n else 1.0))
    half = half + abs(shift).max()
    kw = {}
    if s['smooth'] == 'window' and hs is None and tr != 'shift':
        sm = name
    elif s['smooth'] == 'more':
        sm = half + float(rng.uniform(0, 3))
    elif s['smooth'] == 'vector':
        sm = [half + float(rng.choice([0, 0.5])) for _ in range(nd)]
    elif s['smooth'] == 'default' and hs is None and tr != 'shift':
        pm = fl.make(m, ctx.comm, resampler=name)
        sm = None
    else:
        sm = half
    args = dict(resampler=name)
    if s['smooth'] == 'default' and hs is None and tr != 'shift':
        args = {}
    t = {'none': None, 'grid': pm.affine_grid, 'shift': pm.affine.shift(shift), 'rescale': pm.affine.rescale(2.0)}[tr]
    if t is not None:
        args['transform'] = t
        kw['transform'] = t
    layout = pm.decompose(pos[mine], smoothing=sm, **kw)
    gargs = dict(args, gradient=grad) if grad is not None else args
    out = None
    base = None
    if s['hold']:
        base = fl.gvalues(rng, m)
        out = fl.field(pm, 'real', base)
    pk = dict(gargs)
    if s['mass'] != 'none':
        pk['mass'] = lm(mass)
    if hs is not None:
        pk['hsml'] = lm(hs)
    p0 = pos[mine].copy()
    painted = pm.paint(p0, layout=layout, out=out, hold=s['hold'], **pk)
    if out is not None:
        ctx.check(painted is out, 'returns-out')
    ctx.same(p0, pos[mine], 'input-kept', 'paint changed the positions')
    ws = dict(kind=s['kind'], shape=m['N'], period=m['N'], translate=[float(x) for x in shift], scale=[float(x) for x in 1 / unitlen], support=s.get('support'))
    Ws = winlib.model(ws, pos.astype('f8'), hs, grad)
    M = numpy.zeros(n) + mass
    want = winlib.contract_paint(Ws, M) if n else numpy.zeros(m['N'])
    got = fl.whole(ctx, painted)
    v1 = 1.0 if hs is None or not n else max(1.0, 1.0 / numpy.min(hs))
    unit = v1 ** (nd + 1) * (1 + max(1 / unitlen) if grad is not None else 1.0)
    ndep = numpy.prod([2 + half * 2 / p for p in m['N']])
    single = m['dtype'] in ('f4', 'c8')
    eps = 2e-6 if single else 1e-10
    if s['kind'] not in winlib.SPLINES:
        eps = max(eps, 1e-6 if grad is not None else 1e-8)
    a = eps * (1 + abs(want).max() + unit * n * ndep + (abs(base).max() if base is not None else 0))
    if base is not None:
        want = want + base
    ctx.close(got, want + 0 * got.dtype.type(0), 'paint', '', rtol=0, atol=a)
    # the field's own (deprecated) paint; it starts from nothing unless told to hold
    if hs is None:
        R = fl.field(pm, 'real', base if base is not None else fl.gvalues(rng, m))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            R.paint(p0, layout=layout, **(dict(pk, hold=True) if s['hold'] else pk))
        ctx.close(fl.whole(ctx, R), want + 0 * got.dtype.type(0), 'paint', 'RealField.paint', rtol=0, atol=a)
    ctx.ev('particles_painted', n if ctx.rank == 0 else 0)
    ctx.ev('images', layout.recvlength)
    # readout of a random field
    f = fl.gvalues(rng, m)
    F = fl.field(pm, 'real', f)
    rk = dict(gargs)
    if hs is not None:
        rk['hsml'] = lm(hs)
    o = None
    if rng.randint(2):
        o = numpy.zeros(len(p0), dtype='f8') + 5
    v = F.readout(p0, layout=layout, out=o, **rk)
    if o is not None:
        ctx.check(v is o or numpy.shares_memory(v, o) or v is None, 'returns-out', 'readout')
        v = o
    wantv = winlib.contract_read(Ws, numpy.real(f))[mine] if n else numpy.zeros(len(p0))
    ctx.close(numpy.asarray(v, 'f8'), wantv, 'readout', '', rtol=0, atol=max(eps, 1e-6 if v.dtype == 'f4' else 0) * unit * ndep * (1 + abs(f).max()) * 8)
    ctx.same(numpy.array(F.value), f[F.slices].astype(F.dtype), 'field-kept', 'readout changed the field')
    # total mass: windows that are partitions of unity
    if grad is None and base is None and hs is None and not s.get('support') and s['kind'] in winlib.SPLINES and n:
        ctx.close(numpy.real(painted.csum()), M.sum(), 'mass', '', rtol=0, atol=eps * 20 * (numpy.abs(M).sum() + 1))
        ctx.ev('mass_checks')
    moved = ctx.size == 1 or any(ctx.comm.allgather(layout.recvlength != len(p0) or bool((layout.sendcounts[numpy.arange(ctx.size) != ctx.rank]).any())))
    if n and moved:
        ctx.sig(s['kind'], tuple(m['N']), m['dtype'], tuple(m['np'] or ()), grad, n, s['hsml'], tr, s.get('support'))


# one-sided cases: empty ranks, tiny meshes with empty slabs
FIXED = []
for N, npm in (([5, 4, 3], None), ([3, 3, 3], None), ([2, 2, 2], None), ([2, 7, 3], None), ([7, 2], None), ([5, 5], None), ([9, 3, 2], None)):
    for kind in ('tunedcic', 'tunednnb', 'cubic'):
        FIXED.append(dict(m=dict(N=N, box=[float(n) for n in N], dtype='f8', np=npm, resampler='cic'), kind=kind, name=WIN[kind][0], exact=True,
                          hsml='none', grad=None, n=[30, 0, 5, 0, 30, 1, 2, 3], smooth='window', mass='array', posdtype='f8', hold=False,
                          wrap=0.3, kink=True, corner=False, pseed=len(FIXED)))
GROUPS = [Group('mesh', gen, run, quick=250, thorough=8000, fixed=FIXED)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=1.0) for r in (1, 2, 3, 4)] + [dict(ranks=6, budget=25, scale=0.3)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
