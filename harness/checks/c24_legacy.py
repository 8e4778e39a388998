import contextlib
import io
import warnings
import numpy
from core import Group
import fieldlib as fl
import winlib as wl

ID = 'C24'
RULE = ('random histories (paint once or more, clear, forward and backward transforms, push, pop, transfer functions in chains, read out) on '
        'the stateful three-dimensional mesh with both precisions and brushes, even and odd meshes, non-cubic boxes, several ranks and process '
        'meshes, ranks without cells and without particles; the whole distributed field is gathered after every operation and compared with a '
        'one-process model. Non-trivial: a field with non-zero values was changed; distinct by (operation, brush, precision, mesh parity, ranks).')
ASSUMPTIONS = ['particles are exchanged with the layout of the mesh before painting, as documented',
               'the coordinate arrays are single precision, so transfer functions are compared to single precision',
               'a field is transformed only from the side that was computed last (the transforms destroy their input)',
               'read out is cloud-in-cell for every brush, as in the code']
TECHNIQUE = 'runtime monitoring: state-machine monitor against a sequential one-process model of the mesh'


def gen(rng, ctx):
    N = int(rng.randint(2, 9))
    if ctx.size > 1:
        N = max(N, 2)
    P = ctx.size
    nps = [[a, P // a] for a in range(1, P + 1) if P % a == 0]
    np = None if rng.randint(2) else nps[rng.randint(len(nps))]
    box = [float(rng.choice([1.0, 10.0, 0.3]))] * 3 if rng.randint(2) else [float(x) for x in rng.uniform(0.5, 20, size=3)]
    ops = []
    for _ in range(int(rng.randint(4, 14))):
        ops.append([str(rng.choice(['paint', 'paint', 'clear', 'r2c', 'c2r', 'c2r', 'push', 'pop', 'push', 'pop', 'transfer', 'transfer', 'readout', 'r2c', 'power'])),
                    int(rng.randint(2 ** 31 - 1))])
    if rng.randint(2):
        # several fields saved on top of each other, changed in between
        names = ['paint', 'r2c'] + [str(x) for x in rng.choice(['push', 'transfer', 'push', 'transfer', 'pop', 'c2r'],
                                                               size=rng.randint(4, 12))]
        d = 0
        for i, x in enumerate(names):
            if x == 'pop' and d == 0:
                names[i] = x = 'push'
            d += dict(push=1, pop=-1).get(x, 0)
            if x == 'c2r':
                names[i] = 'push' if i % 2 else 'transfer'
                d += i % 2
        ops = [[x, int(rng.randint(2 ** 31 - 1))] for x in names + ['pop'] * d]
    return dict(N=N, box=box, scalarbox=bool(rng.randint(2)), np=np, brush=str(rng.choice(['cic', 'cic', 'tsc', 'TSC', 'CIC'])), dtype=str(rng.choice(['f8', 'f8', 'f4'])),
                n=int(rng.choice([0, 1, 20, 60])), ops=ops, verbose=int(rng.randint(4) == 0))


def make(ctx, spec):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from pmesh.particlemesh import ParticleMesh
    box = spec['box'][0] if len(set(spec['box'])) == 1 and spec['scalarbox'] else spec['box']
    kw = dict(paintbrush=spec['brush'], comm=ctx.comm, np=spec['np'], dtype=spec['dtype'])
    if spec.get('verbose'):
        kw['verbose'] = True
    if spec['n'] % 3:
        # leave out what is the default
        kw = dict((k, v) for k, v in kw.items() if v is not None and v != dict(paintbrush='cic', dtype='f8').get(k) and k != 'comm')
    return ParticleMesh(box, spec['N'], **kw)


def freqs(N):
    """integer frequencies, the Nyquist one negative"""
    i = numpy.arange(N)
    return numpy.where(2 * i >= N, i - N, i)


class Model(object):
    def __init__(self, spec):
        self.N = spec['N']
        self.box = numpy.array(spec['box'])
        self.real = numpy.zeros([self.N] * 3)
        self.complex = None
        self.stack = []
        self.kind = 'linear' if spec['brush'].lower() == 'cic' else 'quadratic'
        self.f = freqs(self.N)
        w = self.f * (2 * numpy.pi / self.N)
        self.w = [w[:, None, None], w[None, :, None], w[:self.N // 2 + 1][None, None, :]]

    def weights(self, kind, pos):
        return [wl.weights(kind, None, None, pos[:, d] * self.N / self.box[d], self.N, self.N) for d in range(3)]


def transfers(r, M, k=None):
    """a transfer function: (name, callable for the mesh, factor of the model, amplification of rounding)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from pmesh.transfer import TransferFunction as T
    k = k or str(r.choice(['RemoveDC', 'Trilinear', 'Super0', 'Super3', 'Gaussian', 'Constant', 'Laplace', 'Poisson', 'NormalizeDC', 'custom']))
    one = numpy.ones((M.N, M.N, M.N // 2 + 1))
    w2 = sum(w ** 2 for w in M.w)
    if k == 'RemoveDC':
        f = one.copy()
        f[0, 0, 0] = 0
        return k, T.RemoveDC, f
    if k == 'Trilinear':
        f = one
        for w in M.w:
            f = f / numpy.sinc(w / (2 * numpy.pi)) ** 2
        return k, T.Trilinear, f
    if k.startswith('Super'):
        d = int(r.randint(3))
        o = int(k[-1])
        w = M.w[d] * one
        return k, T.SuperLanzcos(d) if o == 3 and r.randint(2) else T.SuperLanzcos(d, order=o), 1j * w if o == 0 else 1j * (8 * numpy.sin(w) - numpy.sin(2 * w)) / 6.0
    if k == 'Gaussian':
        s = float(r.uniform(0.2, 2))
        return k, T.Gaussian(s), numpy.exp(-0.5 * w2 * s * s)
    if k == 'Constant':
        c = float(r.uniform(-2, 2))
        return k, T.Constant(c), one * c
    if k == 'Laplace':
        return k, T.Laplace, -w2
    if k == 'Poisson':
        f = w2.copy()
        f[0, 0, 0] = numpy.inf
        return k, T.Poisson, -1 / f
    if k == 'NormalizeDC':
        return k, T.NormalizeDC, 'dc'

    def custom(pm, complex):
        w = pm.w
        complex *= numpy.cos(w[0]) * numpy.cos(2 * w[1]) + numpy.sin(w[2]) ** 2
    return k, custom, numpy.cos(M.w[0]) * numpy.cos(2 * M.w[1]) + numpy.sin(M.w[2]) ** 2


def gather(ctx, pm, which, N):
    if which == 'real':
        return fl.assemble(ctx, [int(x) for x in pm.partition.local_i_start], numpy.array(pm.real), (N, N, N))
    return fl.assemble(ctx, [int(x) for x in pm.partition.local_o_start], numpy.array(pm.complex), (N, N, N // 2 + 1))


def run(ctx, spec):
    if not spec.get('verbose'):
        return history(ctx, spec)
    # the talkative mesh computes the same
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        history(ctx, spec)
    ctx.ev('verbose_histories')


def history(ctx, spec):
    pm = make(ctx, spec)
    M = Model(spec)
    N = M.N
    EPS = 1e-11 if spec['dtype'] == 'f8' else 1e-5
    # coordinates
    for d in range(3):
        for name, f, start, n in (('w', M.f * 2 * numpy.pi / N, pm.partition.local_o_start, pm.complex.shape), ('k', M.f * 2 * numpy.pi / M.box[d], pm.partition.local_o_start, pm.complex.shape),
                                  ('r', M.f * 1.0, pm.partition.local_i_start, pm.real.shape), ('x', M.f * M.box[d] / N, pm.partition.local_i_start, pm.real.shape)):
            a = getattr(pm, name)[d]
            sh = [1] * 3
            sh[d] = n[d]
            ctx.check(list(a.shape) == sh, 'coordinates', lambda: '%s[%d] has shape %s for %s' % (name, d, a.shape, n))
            ctx.close(a.ravel(), f[int(start[d]):int(start[d]) + n[d]], 'coordinates', '%s[%d]' % (name, d), rtol=1e-5, atol=1e-6 * abs(f).max())
    state = 'real'            # the side that is valid
    loose = False             # single precision factors were applied
    past = 0.0                # the real field carries the rounding of earlier transforms
    ctx.check(abs(gather(ctx, pm, 'real', N)).max() == 0, 'fresh', 'a new canvas is clear')

    def compare(what, amp=1.0):
        if state == 'real':
            got, want = gather(ctx, pm, 'real', N), M.real
        else:
            got, want = gather(ctx, pm, 'complex', N), M.complex
        tol = (1e-5 if loose else EPS) * 20 * max(abs(want).max(), M.big)
        ctx.close(got, want, what, '%s mesh %d, %s' % (spec['brush'], N, spec['dtype']), rtol=0, atol=tol)
        ctx.ev('fields_compared')
        if abs(want).max() > 0:
            ctx.sig(what, spec['brush'].lower(), spec['dtype'], N % 2, ctx.size)
    M.big = 0.0
    for op, sd, *more in spec['ops']:
        r = numpy.random.RandomState(sd)

        if op == 'paint' and state == 'real':
            n = spec['n']
            # every rank its own number of particles
            counts = [int(c) for c in r.randint(0, n + 1, size=ctx.size)]
            pos = r.uniform(-0.5, 1.5, size=(sum(counts), 3)) * M.box
            mass = r.uniform(0.5, 2, size=len(pos))
            if r.randint(4) == 0:
                mass = numpy.full(len(pos), 1.5 if n % 2 else 1.0)
                scalar = True
            else:
                scalar = False
            s = sum(counts[:ctx.rank])
            p = pos[s:s + counts[ctx.rank]]
            mine = mass[s:s + counts[ctx.rank]]
            layout = pm.decompose(p)
            lp = layout.exchange(p)
            if scalar:
                pm.paint(lp, 1.5) if n % 2 else pm.paint(lp)
            else:
                pm.paint(lp, mass=layout.exchange(mine))
            M.real = M.real + (wl.contract_paint(M.weights(M.kind, pos), mass) if len(pos) else 0) * (N ** 3 / M.box.prod())
            M.big = max(M.big, abs(M.real).max())
            compare('paint')
            if len(pos):
                tot = ctx.comm.allreduce(float(pm.real.sum(dtype='f8')))
                ctx.close(tot, M.real.sum(), 'mass', 'total', rtol=0, atol=(1e-5 if loose else EPS) * 20 * N ** 3 * M.big + 1e-30)
        elif op == 'clear' and state == 'real':
            pm.clear()
            M.real = numpy.zeros([N] * 3)
            loose = False
            compare('clear')
            M.big = 0.0
        elif op == 'r2c' and state == 'real':
            pm.r2c()
            M.complex = numpy.fft.rfftn(M.real) / N ** 3
            state = 'complex'
            # rounding spreads evenly over the modes
            M.big = max(abs(M.complex).max(), 10 * (M.big * past + (M.real ** 2).mean() ** 0.5) * N ** -1.5)
            compare('r2c')
        elif op == 'c2r' and state == 'complex':
            chain = []
            if r.randint(3) == 0:
                chain = [transfers(r, M) for _ in range(r.randint(1, 3))]
                ok = all(f is not None for k, c, f in chain)
                for k, c, f in chain:
                    apply(M, f)
                    loose = True
            ha = hermitian(M)
            pm.c2r([c for k, c, f in chain]) if chain or r.randint(2) else pm.c2r()
            if not numpy.isfinite(M.complex).all() or M.dead:
                return
            state = 'real'
            if not ha:
                # the modes that are stored twice disagree: the result of the transform is not defined
                return
            M.real = numpy.fft.irfftn(M.complex, s=(N, N, N), axes=(0, 1, 2)) * N ** 3
            M.big = max(M.big * N ** 1.5, abs(M.real).max(), abs(M.complex).max() * N ** 1.5)
            past = 1.0
            compare('c2r')
        elif op == 'push':
            if state != 'complex':
                continue
            pm.push()
            M.stack.append((M.complex.copy(), numpy.array(pm.complex), M.big, loose))
            compare('push')
        elif op == 'pop' and M.stack:
            pm.pop()
            M.complex, local, M.big, loose = M.stack.pop()
            
            state = 'complex'
            ctx.same(numpy.array(pm.complex), local, 'pop', 'the popped field')
            compare('popped')
        elif op == 'transfer' and state == 'complex':
            chain = [transfers(r, M, k) for k in more or [None] * r.randint(1, 4)]
            pm.transfer([c for k, c, f in chain])
            for k, c, f in chain:
                apply(M, f)
            if M.dead:
                return
            loose = True
            M.big = max(M.big, abs(M.complex).max())
            compare('transfer ' + chain[-1][0])
        elif op == 'readout' and state == 'real':
            n = int(r.randint(0, 30, size=ctx.size)[ctx.rank])
            q = numpy.random.RandomState((sd + ctx.rank) % (2 ** 31)).uniform(-0.5, 1.5, size=(n, 3)) * M.box
            layout = pm.decompose(q)
            v = layout.gather(pm.readout(layout.exchange(q)), mode='sum')
            want = wl.contract_read(M.weights('linear', q), M.real) if n else numpy.zeros(0)
            ctx.close(v, want, 'readout', spec['brush'], rtol=0, atol=(1e-5 if loose else EPS) * 20 * max(M.big, abs(M.real).max()))
            ctx.ev('readouts', n)
        elif op == 'power' and state == 'complex':
            from pmesh.transfer import TransferFunction as T
            nb = int(r.randint(1, 8))
            wout, ps = numpy.zeros(nb), numpy.zeros(nb)
            before = numpy.array(pm.complex)
            pm.transfer([T.PowerSpectrum(wout, ps)])
            ctx.same(numpy.array(pm.complex), before, 'power', 'the field is not changed by its power spectrum')
            if not hermitian(M):
                continue
            full = fl.expand(M.complex, dict(N=[N] * 3, dtype='f8'))
            w = M.f * 2 * numpy.pi / N
            ww = numpy.sqrt(w[:, None, None] ** 2 + w[None, :, None] ** 2 + w[None, None, :] ** 2).ravel()
            edges = numpy.linspace(0, numpy.pi, nb + 1)
            if (abs(ww[:, None] - edges[None, 1:]) < 1e-5).any():
                continue
            b = numpy.digitize(ww, edges)
            cnt = numpy.bincount(b, minlength=nb + 2)[1:-1]
            with numpy.errstate(all='ignore'):
                P = numpy.bincount(b, abs(full.ravel()) ** 2, minlength=nb + 2)[1:-1] / cnt
                W = numpy.bincount(b, ww, minlength=nb + 2)[1:-1] / cnt
            ok = cnt > 0
            big = max(M.big, abs(full).max()) ** 2
            ctx.close(ps[ok], P[ok], 'power', '%d bins' % nb, rtol=1e-4, atol=1e-5 * 20 * big)
            ctx.close(wout[ok], W[ok], 'power', 'mean frequency of %d bins' % nb, rtol=1e-5, atol=1e-6)
            ctx.ev('spectra')
            ctx.sig('power', nb, N % 2, ctx.size)
        ctx.ev('operations')


def apply(M, f):
    M.dead = getattr(M, 'dead', False)
    if isinstance(f, str):
        dc = abs(M.complex[0, 0, 0])
        # a mean that is only rounding
        if not dc > 1e-3 * max(abs(M.complex).max(), M.big * 1e-3):
            M.dead = True
            return
        M.complex = M.complex / dc
        M.big = M.big / dc
        return
    M.complex = M.complex * f
    a = abs(numpy.asarray(f))
    M.big = M.big * max(a.max(), 0.02)      # sines of the single precision coordinates


def hermitian(M):
    """whether the stored spectrum belongs to a real field"""
    C = M.complex
    N = M.N
    neg = (-numpy.arange(N)) % N
    planes = [0] + ([N // 2] if N % 2 == 0 else [])
    for p in planes:
        if abs(C[:, :, p] - numpy.conj(C[neg][:, neg][:, :, p])).max() > 1e-9 * max(abs(C).max(), 1e-300):
            return False
    return True


Model.dead = False
# frequencies much smaller than those of a small mesh
LARGE = [dict(N=N, box=[1.0, 2.0, 3.0], scalarbox=False, np=None, brush='cic', dtype='f8', n=3,
              ops=[['paint', 229], ['r2c', 1], ['transfer', 2, k], ['push', 1], ['transfer', 3, 'Laplace'], ['pop', 3], ['c2r', 1]])
         for N, k in ((225, 'Poisson'),)]
GROUPS = [Group('history', gen, run, quick=300, thorough=8000), Group('large', None, run, quick=0, thorough=0, fixed=LARGE)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, groups=['history']) for r in (1, 2, 3, 4)] + [dict(ranks=2, budget=60, groups=['large'])]
    return [dict(ranks=r, budget=220, groups=['history']) for r in (1, 2, 3, 4, 5, 6, 8)] + [dict(ranks=r, budget=100, groups=['large']) for r in (1, 3)]
