import itertools
import numpy
from core import Group

ID = 'C12'
RULE = ('all modes of a random mesh (1 to 6 dimensions, even and odd, cubic or not, full or compressed) are indexed: numbers are '
        'compared between meshes, checked to be unique, shell ordered and without gaps, and cut by maxlength; complete and sampled shells out to wave numbers of a million must fall in '
        'the range of their shell. A case is '
        'non-trivial when the mesh has at least two shells; distinct by (mesh, compressed, integer type, cut).')
ASSUMPTIONS = ['the Nyquist mode of an even mesh is numbered as its positive form, as documented']


def modes(N, compressed, sign):
    """all modes of the mesh; sign: the form of the Nyquist modes"""
    ax = []
    for d, n in enumerate(N):
        f = [i if i <= (n - 1) // 2 else i - n for i in range(n)]
        if sign == '+':
            f = [-x if 2 * x == -n else x for x in f]
        if compressed and d == len(N) - 1:
            f = [abs(x) for x in f if x >= 0 or 2 * x == -n]
        ax.append(f)
    return numpy.array(list(itertools.product(*ax)), dtype='i8').reshape(-1, len(N))


def gen(rng, ctx):
    nd = int(rng.choice([1, 2, 3, 3, 3, 3, 4, 4, 5, 6]))
    cap = {1: 40, 2: 14, 3: 9, 4: 6, 5: 5, 6: 4}[nd]
    if rng.randint(2):
        N = [int(rng.randint(1, cap))] * nd
    else:
        N = [int(rng.randint(1, cap)) for _ in range(nd)]
    return dict(N=N, compressed=bool(rng.randint(2)), sign=str(rng.choice(['+', '-'])), dtype=str(rng.choice(['i8', 'i4', 'i2', 'i8'])),
                cut=None if rng.randint(3) else int(rng.randint(0, 400)), extra=int(rng.randint(0, 4)), pseed=int(rng.randint(2 ** 31 - 1)))


def run(ctx, spec):
    from pmesh.invariant import get_index
    rng = numpy.random.RandomState(spec['pseed'])
    N, c = spec['N'], spec['compressed']
    nd = len(N)
    x = modes(N, c, spec['sign']).astype(spec['dtype'])
    keep = x.copy()
    Narg = N[0] if len(set(N)) == 1 and rng.randint(2) else N
    # meshes are compressed unless told otherwise
    ind = get_index(x, Narg) if c and rng.randint(2) else get_index(x, Narg, compressed=c)
    ctx.check((x == keep).all(), 'input-modified')
    ctx.ev('modes', len(x))
    ctx.check((ind >= 0).all(), 'has-number', lambda: 'mode %r of the mesh has no number' % x[ind < 0][0])
    ctx.check(len(numpy.unique(ind)) == len(ind), 'one-to-one', lambda: 'two modes share a number')
    pos = numpy.abs(x.astype('i8')).max(axis=1)
    o = numpy.argsort(ind, kind='stable')
    ctx.check((numpy.diff(pos[o]) >= 0).all(), 'shell-order', 'a mode of an outer shell comes before one of an inner shell')
    if len(set(N)) == 1:
        # a cubic mesh fills its shells: no gaps
        ctx.check(sorted(ind) == list(range(len(ind))), 'no-gaps', lambda: 'numbers are not 0..%d (max %d)' % (len(ind) - 1, ind.max()))
    # the same number on other meshes that have the mode
    big = [n + spec['extra'] + int(rng.randint(0, 4)) for n in N]
    sel = numpy.ones(len(x), bool)
    xx = x.astype('i8').copy()
    for d in range(nd):
        ny = (2 * numpy.abs(xx[:, d]) == N[d])
        xx[ny, d] = numpy.abs(xx[ny, d])      # the ambiguous modes are numbered as positive
        sel &= (2 * numpy.abs(xx[:, d]) <= big[d])
    j = get_index(xx, big, compressed=c)
    ctx.check((j[sel] == ind[sel]).all(), 'resolution-independent', lambda: 'meshes %r and %r number mode %r as %d and %d' % (
        N, big, xx[sel][(j != ind)[sel]][0], ind[sel][(j != ind)[sel]][0], j[sel][(j != ind)[sel]][0]))
    # random order, other shapes
    p = rng.permutation(len(x))
    ctx.same(get_index(x[p], N, compressed=c), ind[p], 'order')
    ctx.same(get_index(x[None], N, compressed=c), ind[None], 'shape')
    for q in (2, 3, 5):
        if len(x) % q == 0:
            ctx.same(get_index(x.reshape(q, -1, nd), N, compressed=c), ind.reshape(q, -1), 'shape')
            ctx.same(get_index(x.reshape(-1, 1, q, nd), N, compressed=c), ind.reshape(-1, 1, q), 'shape')
            ctx.same(get_index(numpy.asfortranarray(x.reshape(q, -1, nd)), N, compressed=c), ind.reshape(q, -1), 'shape')
            ctx.ev('shapes')
    ctx.same(get_index(numpy.asfortranarray(x), N, compressed=c), ind, 'memory')
    # limits
    if spec['cut'] is not None:
        L = spec['cut']
        ctx.same(get_index(x, N, compressed=c, maxlength=L), numpy.where(ind < L, ind, -1), 'maxlength')
        ctx.ev('cut', (ind >= L).sum())
    # modes outside of the mesh
    out = x.astype('i8').copy()
    d = rng.randint(nd)
    out[:, d] = rng.choice([-1, 1], size=len(out)) * (N[d] // 2 + 1 + rng.randint(0, 3, size=len(out)))
    r = get_index(out, N, compressed=c)
    ctx.check((r == -1).all(), 'outside', lambda: 'mode %r is not on mesh %r but has number %d' % (out[r != -1][0], N, r[r != -1][0]))
    if N[d] % 2 == 1:
        out[:, d] = -(N[d] + 1) // 2
        r = get_index(out, N, compressed=c)
        ctx.check((r == -1).all(), 'outside', lambda: 'mode %r is not on mesh %r but has number %d' % (out[r != -1][0], N, r[r != -1][0]))
    # modes absent from a compressed mesh
    full = modes(N, False, '-')
    fi = get_index(full, N, compressed=False)
    ctx.check(len(numpy.unique(fi)) == len(fi) and (fi >= 0).all(), 'one-to-one', 'full mesh')
    if c:
        r = get_index(full, N, compressed=True)
        absent = (full[:, -1] < 0) & (2 * full[:, -1] != -N[-1])
        ctx.check((r[absent] == -1).all(), 'absent', 'a mode dropped by the compression has a number')
        ctx.check((r[~absent] >= 0).all(), 'absent', 'a mode kept by the compression has no number')
        # the order of the remaining ones is that of the full mesh within each shell
        ctx.ev('absent', absent.sum())
    if max(N) > 2:
        ctx.sig(N, c, spec['dtype'], spec['cut'] is not None)


def gen_far(rng, ctx):
    nd = int(rng.choice([1, 2, 2, 3, 3, 3, 4, 5, 6]))
    # the numbers of the far modes must stay below 2^63
    top = {1: 1 << 60, 2: 1 << 30, 3: 1 << 19, 4: 20000, 5: 2000, 6: 500}[nd]
    s = int(2 ** rng.uniform(1, numpy.log2(top)))
    return dict(nd=nd, s=s, compressed=bool(rng.randint(2)), odd=[int(i) for i in rng.randint(0, 5, size=nd)],
                whole=bool(rng.randint(2)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_far(ctx, spec):
    """modes of a far shell: the shells inside of it hold (2 s - 1)^d modes, or s (2 s - 1)^(d-1) if compressed"""
    from pmesh.invariant import get_index
    rng = numpy.random.RandomState(spec['pseed'])
    nd, s, c = spec['nd'], spec['s'], spec['compressed']
    whole = spec['whole']
    if whole:
        # a complete shell
        s = {1: s if rng.randint(3) else 2 + s % 3000, 2: min(s, 2 + s % 3000), 3: 2 + s % 45, 4: 2 + s % 9, 5: 2 + s % 3, 6: 2}[nd]
        ax = [numpy.arange(-s, s + 1)] * (nd - 1) + [numpy.arange(0 if c else -s, s + 1)] if nd > 1 else [numpy.array([], 'i8')]
        parts = []
        for d in range(nd):
            for v in ((s,) if c and d == nd - 1 else (-s, s)):
                b = [a if e > d else a[abs(a) < s] for e, a in enumerate(ax)]
                b[d] = numpy.array([v])
                parts.append(numpy.stack(numpy.meshgrid(*b, indexing='ij'), -1).reshape(-1, nd))
        x = numpy.concatenate(parts)
        x = x[rng.permutation(len(x))]
    else:
        x = rng.randint(-s, s + 1, size=(300, nd), dtype='i8')
        near = numpy.minimum(s, rng.choice([0, 1, 2, 3, s, s - 1, s // 2], size=(300, nd)))
        x = numpy.where(rng.randint(0, 2, size=(300, 1)), x, near * rng.choice([-1, 1], size=(300, nd)))
        if c:
            x[:, -1] = abs(x[:, -1])
        x[numpy.arange(300), rng.randint(0, nd - (1 if c and nd > 1 else 0), size=300)] = s
        flip = rng.choice([-1, 1], size=(300, nd))
        if c:
            flip[:, -1] = 1
        x = numpy.unique(x * flip, axis=0)
    x = x.astype('i8')
    N = [2 * s + 1 + o for o in spec['odd']]
    ind = get_index(x, N, compressed=c)
    lo = (2 * s - 1) ** nd if not c else (2 * s - 1) ** (nd - 1) * s
    hi = (2 * s + 1) ** nd if not c else (2 * s + 1) ** (nd - 1) * (s + 1)
    ctx.ev('far_modes', len(x))
    bad = (ind < lo) | (ind >= hi)
    ctx.check(not bad.any(), 'shell-range', lambda: 'mode %r of shell %d has number %d, its shell has %d to %d' % (
        x[bad][0], s, ind[bad][0], lo, hi - 1))
    ctx.check(len(numpy.unique(ind)) == len(ind), 'one-to-one', lambda: 'two modes of shell %d share a number' % s)
    if whole:
        ctx.check(len(ind) == hi - lo, 'harness', 'the shell is not complete')
        ctx.check((numpy.sort(ind) == numpy.arange(lo, hi)).all(), 'no-gaps', lambda: 'shell %d is not numbered without gaps' % s)
        ctx.ev('whole_shells')
    j = get_index(x, [n + 7 for n in N], compressed=c)
    ctx.check((j == ind).all(), 'resolution-independent', 'shell %d' % s)
    for ml in (lo, (lo + hi) // 2):
        ctx.same(get_index(x, N, compressed=c, maxlength=ml), numpy.where(ind < ml, ind, -1), 'maxlength')
    if s < 2 ** 15 - 5 - 2:
        ctx.same(get_index(x.astype('i2'), N, compressed=c), ind, 'integer-type')
    ctx.sig('far', nd, s, c, whole)


def run_ref(ctx, spec):
    """documented small tables"""
    from pmesh.invariant import get_index
    x = numpy.arange(-4, 5).reshape(-1, 1)
    ctx.check(list(get_index(x, 6, compressed=False)) == [-1, 5, 4, 2, 0, 1, 3, 5, -1], 'table', '1d')
    ctx.check(list(get_index(x, 6, compressed=True)) == [-1, 3, -1, -1, 0, 1, 2, 3, -1], 'table', '1d compressed')
    ctx.check(list(get_index(numpy.arange(-3, 4).reshape(-1, 1), 5, compressed=False)) == [-1, 4, 2, 0, 1, 3, -1], 'table', '1d odd')
    ctx.sig('table')


GROUPS = [Group('number', gen, run, quick=1500, thorough=60000), Group('far', gen_far, run_far, quick=400, thorough=9000),
          Group('table', None, run_ref, fixed=[{}])]
TECHNIQUE = 'runtime monitoring: bijection, ordering and cross-mesh consistency monitors over complete meshes'


def jobs(tier):
    n, b = (3, 25) if tier == 'quick' else (7, 400)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
