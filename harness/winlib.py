"""Independent model of the resampling windows (numpy, no code shared with pmesh).

B-splines in closed form; Lanczos and ACG from their published formula, tabulated the way
make*.py documents; wavelets from the recorded tables (data/wavelets.npz, taken from the
pinned tree, since the tool that computed them is not available here).
"""
import os
import numpy

HERE = os.path.dirname(os.path.abspath(__file__))
_WAV = None


def wav():
    global _WAV
    if _WAV is None:
        _WAV = dict(numpy.load(os.path.join(HERE, 'data', 'wavelets.npz')))
    return _WAV


def bspline(p, x):
    x = numpy.abs(x)
    if p == 2:
        return numpy.where(x < 1, 1 - x, 0.0)
    if p == 3:
        return numpy.where(x <= 0.5, 0.75 - x * x, numpy.where(x < 1.5, 0.5 * (1.5 - x) ** 2, 0.0))
    if p == 4:
        return numpy.where(x < 1, (4 - 6 * x ** 2 + 3 * x ** 3) / 6.0, numpy.where(x < 2, (2 - x) ** 3 / 6.0, 0.0))


def dbspline(p, x):
    s = numpy.sign(x)
    x = numpy.abs(x)
    if p == 2:
        return numpy.where(x < 1, -s, 0.0)
    if p == 3:
        return s * numpy.where(x <= 0.5, -2 * x, numpy.where(x < 1.5, x - 1.5, 0.0))
    if p == 4:
        return s * numpy.where(x < 1, -2 * x + 1.5 * x ** 2, numpy.where(x < 2, -0.5 * (2 - x) ** 2, 0.0))


_tables = {}


def table(kind):
    if kind in _tables:
        return _tables[kind]
    if kind.startswith('lanczos'):
        n = int(kind[7:])
        x = numpy.linspace(0, n, 8192, endpoint=False)
        phi = numpy.sinc(x) * numpy.sinc(x / n)
        sup = 2 * n
    else:
        N = int(kind[3:])
        A = (N - 1) / 2.0
        x = numpy.linspace(0, N * 0.5, 8192, endpoint=True)
        y = x + A

        def G(y):
            return numpy.exp(-0.25 * (y - A) ** 2)
        phi = G(y) - G(-0.5) * (G(y + N) + G(y - N)) / (G(-0.5 + N) + G(-0.5 - N))
        sup = N
    phi = phi / (2 * numpy.trapz(phi, x))
    step = float('%e' % numpy.diff(x).mean())
    _tables[kind] = numpy.round(phi, 8), step, sup
    return _tables[kind]


def _lookup(t, f, tail=0.0):
    i = numpy.floor(f).astype('i8')
    ok = (i >= 0) & (i < len(t) - 1)
    i = numpy.where(ok, i, 0)
    return i, f - numpy.floor(f), ok


def native(kind):
    k = kind
    for p, names in ((1, ('nearest', 'tunednnb')), (2, ('linear', 'tunedcic')), (3, ('quadratic', 'tunedtsc')),
                     (4, ('cubic', 'tunedpcs'))):
        if k in names:
            return p
    if k.startswith('lanczos') or k.startswith('acg'):
        return table(k)[2]
    return int(wav()[k + '_support'])


def kernel(kind, x):
    x = numpy.asarray(x, 'f8')
    p = native(kind)
    if kind in SPLINES:
        if p == 1:
            return numpy.where((x < 0.5) & (x >= -0.5), 1.0, 0.0)
        return bspline(p, x)
    if kind.startswith('lanczos') or kind.startswith('acg'):
        t, step, _ = table(kind)
        i, r, ok = _lookup(t, numpy.abs(x) / step)
        return numpy.where(ok, t[i] * (1 - r) + t[i + 1] * r, 0.0)
    t = wav()[kind] * 1e-8
    i, r, ok = _lookup(t, (x + p * 0.5) * 256.0)
    return numpy.where(ok, t[i] * (1 - r) + t[i + 1] * r, 0.0)


def dkernel(kind, x):
    x = numpy.asarray(x, 'f8')
    p = native(kind)
    if kind in SPLINES:
        if p == 1:
            return numpy.zeros_like(x)
        return dbspline(p, x)
    if kind.startswith('lanczos') or kind.startswith('acg'):
        t, step, _ = table(kind)
        i, r, ok = _lookup(t, numpy.abs(x) / step)
        return numpy.where(x >= 0, 1, -1) * numpy.where(ok, (t[i + 1] - t[i]) / step, 0.0)
    t = wav()[kind] * 1e-8
    i, r, ok = _lookup(t, (x + p * 0.5) * 256.0)
    return numpy.where(ok, (t[i + 1] - t[i]) * 256.0, 0.0)


SPLINES = ['nearest', 'tunednnb', 'linear', 'tunedcic', 'quadratic', 'tunedtsc', 'cubic', 'tunedpcs']
TABLES = ['lanczos%d' % i for i in range(2, 7)] + ['acg%d' % i for i in range(2, 7)]
WAVELETS = ['db6', 'db12', 'db20', 'sym6', 'sym12', 'sym20']
ALL = SPLINES + TABLES + WAVELETS
PAIRS = [('tunednnb', 'nearest'), ('tunedcic', 'linear'), ('tunedtsc', 'quadratic'), ('tunedpcs', 'cubic')]
NAMES = dict(nearest='NEAREST', tunednnb='NNB', linear='LINEAR', tunedcic='CIC', quadratic='QUADRATIC', tunedtsc='TSC',
             cubic='CUBIC', tunedpcs='PCS')
for _k in TABLES + WAVELETS:
    NAMES[_k] = _k.upper()


def weights(kind, support, hsml, g, size, period, scale=None):
    """W[n, size]: weight of every cell of one axis for every particle.
    support: None (native) or the resized support; hsml: array or None.
    scale: None for the window, the transform scale for its derivative."""
    nat = native(kind)
    n = len(g)
    S = numpy.full(n, float(nat if support is None else support))
    if hsml is not None:
        S = S * hsml
    v = nat / S
    W = numpy.zeros((n, size))
    lo = numpy.floor(g - S * 0.5).astype('i8') - 1
    m = int(numpy.ceil(S.max() if n else 0)) + 4
    rows = numpy.arange(n)
    for k in range(m):
        j = lo + k
        x = (g - j) * v
        if scale is None:
            w = kernel(kind, x) * v
        else:
            w = dkernel(kind, x) * scale * v * v
        # the window ends at half its support
        w = numpy.where((g - j < S * 0.5) & (g - j >= -S * 0.5), w, 0.0)
        t = j % period if period > 0 else j
        ok = (t >= 0) & (t < size)
        numpy.add.at(W, (rows[ok], t[ok]), w[ok])
    return W


def all_weights(kind, support, hsml, pos, shape, period, scale, translate, diffdir=None):
    Ws = []
    for d in range(len(shape)):
        g = pos[:, d].astype('f8') * scale[d] + translate[d]
        Ws.append(weights(kind, support, hsml, g, shape[d], int(period[d]), scale[d] if diffdir == d else None))
    return Ws


def contract_paint(Ws, mass):
    n = len(mass)
    shape = [w.shape[1] for w in Ws]
    a = mass[:, None] * Ws[0]
    for w in Ws[1:]:
        a = (a[:, :, None] * w[:, None, :]).reshape(n, a.shape[1] * w.shape[1])
    return a.sum(axis=0).reshape(shape)


def touched(Ws):
    a = (Ws[0] != 0)
    n = a.shape[0]
    for w in Ws[1:]:
        a = (a[:, :, None] & (w != 0)[:, None, :]).reshape(n, a.shape[1] * w.shape[1])
    return a.any(axis=0).reshape([w.shape[1] for w in Ws])


def contract_read(Ws, f):
    n = Ws[0].shape[0]
    v = numpy.tensordot(Ws[0], f.astype('f8'), axes=(1, 0))
    for w in Ws[1:]:
        v = (w.reshape(w.shape + (1,) * (v.ndim - 2)) * v).sum(axis=1)
    return v.reshape(n)


# ---------------------------------------------------------------- generators
def gen_case(rng, kinds=None, ndim=None, maxcells=20000):
    kind = str(rng.choice(kinds if kinds is not None else ALL_W))
    nat = native(kind)
    if ndim is None:
        ndim = int(rng.choice([1, 2, 3, 3, 4])) if nat <= 4 else int(rng.choice([1, 2, 3], p=[.4, .4, .2]))
    cap = {1: 60, 2: 24, 3: 12, 4: 6}[ndim]
    shape = [int(rng.randint(1, cap)) for _ in range(ndim)]
    period, translate = [], []
    pk = rng.choice(['full', 'full', 'none', 'patch', 'mixed'])
    for d in range(ndim):
        k = pk if pk != 'mixed' else rng.choice(['full', 'none', 'patch', 'over'])
        if k == 'full':
            period.append(shape[d]); translate.append(0.0)
        elif k == 'none':
            period.append(0); translate.append(0.0)
        elif k == 'over':
            # period smaller than the array: cells past the period stay untouched
            period.append(max(1, shape[d] - int(rng.randint(1, 4)))); translate.append(0.0)
        else:
            P = shape[d] + int(rng.randint(1, 12))
            period.append(P); translate.append(-float(rng.randint(0, P)))
        if rng.randint(4) == 0:
            translate[d] += float(rng.choice([0.5, -0.5, 0.25, rng.uniform(-3, 3)]))
    scale = [float(rng.choice([1.0, 1.0, 0.5, 2.0, rng.uniform(0.05, 20), -1.5])) for _ in range(ndim)]
    if rng.randint(3):
        scale = [scale[0]] * ndim
    support = None
    if rng.randint(4) == 0:
        support = int(nat + rng.randint(1, 5))
    # the wavelets are cut where they are not zero: only whole supports have a defined edge
    hs = str(rng.choice(['none', 'none', 'scalar', 'array'])) if kind not in WAVELETS else str(rng.choice(['none', 'int']))
    wrap = float(rng.choice([0, 0.5, 3]))
    if rng.randint(10) == 0:
        # thousands of periods away, where the mesh coordinate is computed without rounding
        wrap = float(rng.choice([200, 3000]))
        scale = [float(2.0 ** numpy.round(numpy.log2(abs(x)))) for x in scale]
        translate = [float(numpy.round(4 * x) / 4) for x in translate]
    return dict(kind=kind, shape=shape, period=period, translate=translate, scale=scale, support=support, hsml=hs,
                n=int(rng.choice([0, 1, 3, 20, 60])), pseed=int(rng.randint(2 ** 31 - 1)),
                wrap=wrap)


# the tuned windows have the most code: weight them up
ALL_W = SPLINES * 3 + TABLES + WAVELETS


def far_away(rng, spec):
    """ now and then, positions so far away that the mesh coordinate does not fit an int """
    if spec['wrap'] >= 200 and rng.randint(3) == 0:
        spec['wrap'] = -1
    return spec


def gen_pos(rng, spec, kink=True):
    """positions whose mesh coordinate spreads over the mesh and `wrap` periods around"""
    n, ndim = spec['n'], len(spec['shape'])
    if spec['kind'] in WAVELETS + ['nearest', 'tunednnb'] and (spec.get('support') or spec['hsml'] != 'none'):
        kink = False    # these jump at the edge of the window, which rounding of the scaled support moves
    if spec['kind'] in WAVELETS + ['nearest', 'tunednnb'] and not (
            all(x in (0.5, 1.0, 2.0) for x in spec['scale']) and all((4 * x) % 1 == 0 for x in spec['translate'])):
        kink = False    # same: the mesh coordinate would be whole only up to rounding
    g = numpy.zeros((n, ndim))
    for d in range(ndim):
        P = spec['period'][d] or spec['shape'][d]
        w = max(0, spec['wrap']) * P + (2 if not spec['period'][d] else 0)
        g[:, d] = rng.uniform(-w, P + w, size=n)
        if spec['wrap'] < 0:
            # too far away for an int, on some of the axes
            g[:, d] += numpy.floor(rng.uniform(6e8, 2e10, size=n)) * rng.choice([-1, 0, 1], size=n)
            g[:, d] = numpy.floor(g[:, d] * 1024) / 1024
        k = rng.randint(0, 6, size=n) if kink else numpy.zeros(n, int)
        g[:, d] = numpy.where(k == 1, numpy.floor(g[:, d]), g[:, d])
        g[:, d] = numpy.where(k == 2, numpy.floor(g[:, d]) + 0.5, g[:, d])
    pos = (g - numpy.array(spec['translate'])) / numpy.array(spec['scale'])
    return pos


def gen_hsml(rng, spec):
    n = spec['n']
    if spec['hsml'] == 'none':
        return None
    if spec['hsml'] == 'int':
        return float(rng.choice([1.0, 2.0]))
    if spec['hsml'] == 'scalar':
        return float(rng.choice([1.0, 0.6, 0.8, 1.3, 2.0, 0.25]))
    return rng.uniform(0.2, 2.5, size=n)


def make_window(spec):
    from pmesh.window import windows, ResampleWindow
    w = windows[NAMES[spec['kind']]]
    if spec.get('support') is not None:
        w = w.resize(spec['support'])
    return w


def make_affine(spec):
    from pmesh.window import Affine
    return Affine(len(spec['shape']), scale=spec['scale'], translate=spec['translate'], period=spec['period'])


def model(spec, pos, hsml, diffdir=None):
    h = None
    if hsml is not None:
        h = numpy.zeros(len(pos)) + hsml
    return all_weights(spec['kind'], spec.get('support'), h, pos, spec['shape'], spec['period'], spec['scale'],
                       spec['translate'], diffdir)
