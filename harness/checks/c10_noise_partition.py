import numpy
from core import Group, huge

ID = 'C10'
RULE = ('random mesh shapes (even, odd, unequal, 1 to 3 dimensions), seeds and sub-boxes in random memory layouts and precisions; '
        'each sub-box must be the slice of the whole mesh, whatever was generated before. A case is non-trivial when the box is '
        'neither empty nor the whole mesh; distinct by (mesh, box, layout, precision, unitary).')
ASSUMPTIONS = ['a box lies within the mesh', 'different seeds: among 1 .. 2**31 - 1 (the GSL generator ignores the top bit and takes 0 for 1)', 'complex64 agrees with complex128 within single precision']


def gen_mesh(rng, big=False):
    nd = int(rng.choice([1, 2, 3, 3, 3, 3]))
    cap = {1: 60, 2: 20, 3: 10}[nd]
    if rng.randint(3) == 0:
        return [int(rng.randint(1, cap // 2 + 1)) * 2] * nd
    return [int(rng.randint(1, cap + 1)) for _ in range(nd)]


def gen_boxes(rng, N, n):
    out = []
    for _ in range(n):
        st, sz = [], []
        for d in range(len(N)):
            k = rng.randint(5)
            if k == 0:
                a, b = 0, N[d]
            elif k == 1:
                a = rng.randint(0, N[d]); b = a + 1
            elif k == 2:
                a = N[d] // 2 + 1 if N[d] > 2 else 0; b = N[d]
            else:
                a, b = sorted(rng.randint(0, N[d] + 1, size=2))
            st.append(int(a)); sz.append(int(b - a))
        out.append([st, sz])
    return out


def gen(rng, ctx):
    N = gen_mesh(rng)
    return dict(N=N, seed=int(rng.choice([0, 1, 2 ** 31 - 1, 2 ** 32 - 1, rng.randint(2 ** 31 - 1)])), unitary=bool(rng.randint(2)),
                boxes=gen_boxes(rng, N, 5), pseed=int(rng.randint(2 ** 31 - 1)))


LAYOUTS = ['C', 'F', 'pad', 'step', 'neg', 'T', 'huge']


def array(rng, shape, dtype, layout):
    nd = len(shape)
    if layout == 'huge' and min(shape) > 0:
        # offsets of the modes beyond 32 bits
        a = huge(rng, shape, dtype)
        a[...] = 7 - 3j
        return a, a, numpy.ones(shape, bool)
    if layout in ('C', 'huge'):
        a = numpy.full(shape, 7 - 3j, dtype)
        return a, a, numpy.ones(shape, bool)
    step = 2 if layout in ('step', 'neg') else 1
    full = [n * step + 4 for n in shape]
    perm = list(rng.permutation(nd)) if layout == 'T' else list(range(nd))
    base = numpy.full([full[p] for p in perm], 7 - 3j, dtype=dtype, order='F' if layout == 'F' else 'C')
    own = numpy.zeros(base.shape, bool)
    inv = list(numpy.argsort(perm))
    if layout == 'neg':
        sl = tuple(slice(2 + (n - 1) * step, None if n else 2, -step) if n else slice(0, 0) for n in shape)
        sl = tuple(slice(2 + (n - 1) * step, 0 if step > 1 else 1, -step) if n else slice(0, 0) for n in shape)
    else:
        sl = tuple(slice(2, 2 + n * step, step) for n in shape)
    own.transpose(inv)[sl] = True
    return base.transpose(inv)[sl], base, own


def whole(N, seed, unitary, dtype='c16'):
    from pmesh.whitenoise import generate
    a = numpy.full(N, numpy.nan, dtype=dtype)
    generate(a, 0, N, seed, unitary)
    return a


def run(ctx, spec):
    from pmesh.whitenoise import generate
    rng = numpy.random.RandomState(spec['pseed'])
    N, seed, un = spec['N'], spec['seed'], spec['unitary']
    numpy.random.seed(rng.randint(2 ** 31))
    g0 = numpy.random.get_state()[1].tobytes()
    ref = whole(N, seed, un)
    ctx.check(numpy.isfinite(ref).all(), 'complete', lambda: '%d modes of the mesh are not generated' % (~numpy.isfinite(ref)).sum())
    half = numpy.full(N[:-1] + [N[-1] // 2 + 1], numpy.nan, 'c16')
    generate(half, 0, N, seed, un)
    ctx.same(half, ref[..., :N[-1] // 2 + 1].copy(), 'compressed')
    for st, sz in spec['boxes']:
        lay = str(rng.choice(LAYOUTS))
        dt = str(rng.choice(['c16', 'c16', 'c8']))
        a, base, own = array(rng, sz, dt, lay)
        ctx.check(list(a.shape) == list(sz), 'harness', 'shape')
        # something else in between
        if rng.randint(2):
            whole([int(x) for x in rng.randint(1, 5, size=len(N))], int(rng.randint(1000)), bool(rng.randint(2)))
        sarg = st if rng.randint(2) else numpy.array(st, dtype='i8')
        generate(a, sarg, numpy.array(N), seed, un)
        sl = tuple(slice(x, x + y) for x, y in zip(st, sz))
        exp = ref[sl]
        if dt == 'c16':
            ctx.same(numpy.ascontiguousarray(a), numpy.ascontiguousarray(exp), 'box', '%r %s' % ((st, sz), lay))
        else:
            ctx.close(a.astype('c16'), exp, 'box-single', '%r %s' % ((st, sz), lay), rtol=1e-6)
        ctx.check((base[~own] == 7 - 3j).all(), 'outside-box', 'memory around the box changed')
        ctx.ev('modes', a.size)
        if 0 < a.size < ref.size:
            ctx.sig(N, st, sz, lay, dt, un)
    ctx.same(whole(N, seed, un), ref, 'repeat')
    ctx.check(numpy.random.get_state()[1].tobytes() == g0, 'global-state', 'the global numpy generator was used')
    if 1 <= seed < 2 ** 31 - 1 and ref.size > 4 and not (un and ref.ndim < 3 and ref.size < 9):
        # the next seed, one that differs in a single bit, any other
        for o in (seed + 1, seed ^ (1 << int(rng.randint(31))), int(rng.randint(1, 2 ** 31 - 1))):
            if o == seed or not 1 <= o < 2 ** 31 - 1:
                continue
            other = whole(N, o, un)
            n = (other != ref).sum()
            ctx.check(n >= (ref.size - 2 ** len(N)) * 0.9, 'seed', lambda: 'only %d of %d modes differ for seeds %d and %d' % (n, ref.size, seed, o))
            ctx.ev('seed_pairs')
    # complex64 of the whole
    ctx.close(whole(N, seed, un, 'c8').astype('c16'), ref, 'single', rtol=1e-6)


GROUPS = [Group('box', gen, run, quick=2500, thorough=60000)]
TECHNIQUE = 'runtime monitoring: slices against the whole mesh, canaries around the box, global-state monitor'


def jobs(tier):
    n, b = (3, 30) if tier == 'quick' else (7, 400)
    return [dict(ranks=1, budget=b, part=[i, n]) for i in range(n)]
