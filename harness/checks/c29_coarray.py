import os
import numpy
from core import Group

ID = 'C29'
RULE = ('random arrays (shape may differ by rank, several types) with random histories of pulls, pushes (arrays, strided views, scalars, '
        'lists, values to be broadcast, other types), local writes and synchronisations with all or some images, index expressions of '
        'every kind, nested ones included, messages of a few bytes to beyond the eager limit of MPI, after random delays; compared '
        'element by element with a one-process model of the whole distributed array. The collecting helpers run random functions, '
        'failing ones included. Non-trivial: a synchronisation moved data between two images; distinct by (kinds of requests '
        'in one synchronisation, index kinds, ranks, size class).')
ASSUMPTIONS = ['image numbers are between zero and the number of images; requests refer to the array that is synchronised (documented limits)',
               'all ranks synchronise together; the source of a pushed array is not changed between the request and the synchronisation',
               'at most one image writes an element in one synchronisation, and pulled regions are not pushed to in the same one, except in the order tests',
               'broadcast and gather to all images are documented as not supported']
TECHNIQUE = 'runtime monitoring: history monitor against a sequential model of the distributed array, with delays and message sizes varied'


def rindex(rng, shape):
    """a random index expression into an array of this shape"""
    k = rng.randint(9)
    n = shape[0]
    if k == 0:
        return int(rng.randint(-n, n))
    if k == 1:
        a = int(rng.randint(0, n))
        return slice(a, int(rng.randint(a, n + 1)))
    if k == 2:
        return slice(None, None, int(rng.choice([2, 3, -1])))
    if k == 3:
        return Ellipsis
    if k == 4:
        return [int(x) for x in rng.choice(n, size=min(n, 3), replace=False)]
    if k == 5:
        m = rng.randint(0, 2, size=n).astype(bool)
        return m
    if k == 6:
        return tuple(int(rng.randint(s)) for s in shape)
    if k == 7 and len(shape) > 1:
        return (slice(None), int(rng.randint(shape[1])))
    if k == 8 and len(shape) > 1:
        return (Ellipsis, slice(0, int(rng.randint(1, shape[-1] + 1))))
    return slice(None)


def gen(rng, ctx):
    nd = int(rng.randint(1, 4))
    big = rng.randint(4) == 0
    shape = [int(rng.randint(1, 6)) for _ in range(nd)]
    if big:
        shape[0] = int(rng.choice([300, 3000, 20000]))
    return dict(shape=shape, dtype=str(rng.choice(['f8', 'f8', 'i4', 'c16', 'f4'])), syncs=int(rng.randint(1, 5)),
                seed=int(rng.randint(2 ** 31 - 1)), delay=bool(rng.randint(3) == 0), how=str(rng.choice(['zeros', 'fromarray', 'new', 'noncontig'])))


def make(ctx, spec):
    from pmesh.coarray import coarray
    shape, dt = tuple(spec['shape']), spec['dtype']
    if spec['how'] == 'zeros':
        return coarray.zeros(ctx.comm, shape) if dt == 'f8' and shape[0] % 2 else coarray.zeros(ctx.comm, shape, dtype=dt)
    if spec['how'] == 'fromarray':
        return coarray.fromarray(ctx.comm, numpy.zeros(shape, dt))
    if spec['how'] == 'new':
        a = coarray(ctx.comm, shape, dtype=dt)
        a[...] = 0
        return a
    return coarray.fromarray(ctx.comm, numpy.zeros(shape[::-1], dt).T)


def values(rng, shape, dt):
    v = rng.randint(-10 ** 6, 10 ** 6, size=shape).astype(dt)
    if dt[0] == 'c':
        v = v + 1j * rng.randint(-100, 100, size=shape)
    return v.astype(dt)


def chain(a, idx):
    for i in idx[:-1]:
        a = a[i]
    return a, idx[-1]


def run(ctx, spec):
    P = ctx.size
    shape, dt = tuple(spec['shape']), spec['dtype']
    rng = numpy.random.RandomState(spec['seed'])
    drng = numpy.random.RandomState(spec['seed'] % 100000 + ctx.rank)
    coa = make(ctx, spec)
    ctx.check(coa.shape == shape and coa.dtype == numpy.dtype(dt), 'create', lambda: '%s %s' % (coa.shape, coa.dtype))
    ctx.check(coa.thisimage == ctx.rank and coa.num_images == P and coa.coshape == (P,), 'create', 'image numbers')
    M = [numpy.zeros(shape, dt) for _ in range(P)]
    # pending requests of the model: (rank, kind, image, data) in program order
    pending = []
    total = 0
    for isync in range(spec['syncs']):
        # new local values
        for r in range(P):
            v = values(rng, shape, dt)
            M[r][...] = v
            if r == ctx.rank:
                coa[...] = v
        # elements of every image that are read or written in this history step
        written = [numpy.zeros(shape, bool) for _ in range(P)]
        read = [numpy.zeros(shape, bool) for _ in range(P)]
        for r, kind, img, idx, data, loc in pending:
            if kind == 'pull':
                b, i = chain(read[img], idx); b[i] = True
                written[r][loc] = True
            else:
                b, i = chain(written[img], idx); b[i] = True
        kinds = set()
        for k in range(int(rng.randint(0, 4 * P))):
            r = int(rng.randint(P))
            img = int(rng.randint(P))
            if rng.randint(2):
                idx = [rindex(rng, shape)]
                if isinstance(idx[0], slice) and rng.randint(2):
                    sub = numpy.empty(shape, 'i1')[idx[0]].shape
                    if sub[0] > 0:
                        idx.append(rindex(rng, sub))
                # local place of the same shape: the same index, so that it always fits
                loc = idx[0] if len(idx) == 1 else None
                vals = chain(M[img], idx)[0][idx[-1]]
                if loc is None or rng.randint(3) == 0:
                    if numpy.ndim(vals) == 0 or rng.randint(2):
                        # a scalar goes anywhere
                        if numpy.ndim(vals) == 0:
                            loc = rindex(rng, shape)
                    if loc is None:
                        continue
                w = numpy.zeros(shape, bool)
                w[loc] = True
                rd = numpy.zeros(shape, bool)
                b, i = chain(rd, idx); b[i] = True
                if (w & (written[r] | read[r])).any() or (rd & written[img]).any() or (r == img and (w & rd).any()):
                    continue
                written[r] |= w
                read[img] |= rd
                pending.append((r, 'pull', img, idx, None, loc))
                if r == ctx.rank:
                    p = coa(img)
                    for i in idx:
                        p = p[i]
                    coa[loc] = p
                kinds.add('pull')
            else:
                idx = [rindex(rng, shape)]
                if isinstance(idx[0], slice) and rng.randint(2):
                    sub = numpy.empty(shape, 'i1')[idx[0]].shape
                    if sub[0] > 0:
                        idx.append(rindex(rng, sub))
                w = numpy.zeros(shape, bool)
                b, i = chain(w, idx); b[i] = True
                if (w & (written[img] | read[img])).any():
                    continue
                tshape = numpy.shape(chain(M[img], idx)[0][idx[-1]])
                form = int(rng.randint(6))
                if form == 0:
                    data = int(rng.randint(-50, 50))
                elif form == 1 and len(tshape) and 0 < numpy.prod(tshape) < 500:
                    data = values(rng, tshape, dt).tolist()
                elif form == 2 and len(tshape) > 1:
                    data = values(rng, tshape[1:], dt)
                elif form == 3:
                    data = values(rng, tshape + (2,), dt)[..., 0]     # strided
                elif form == 4:
                    data = values(rng, tshape, 'i4' if dt != 'i4' else 'f8')
                else:
                    data = values(rng, tshape, dt)
                written[img] |= w
                pending.append((r, 'push', img, idx, data, None))
                if r == ctx.rank:
                    p = coa(img)
                    for i in idx[:-1]:
                        p = p[i]
                    p[idx[-1]] = data
                kinds.add('push')
        own = rng.randint(3)
        if own == 0:
            images = [sorted(int(x) for x in rng.choice(P, size=rng.randint(0, P + 1), replace=False)) for _ in range(P)]
        else:
            images = [None] * P
        before = numpy.array(coa)
        ctx.same(before, M[ctx.rank], 'before-sync', 'nothing moves before the synchronisation')
        if spec['delay']:
            import time
            time.sleep(drng.uniform(0, 0.003))
        if images[ctx.rank] is None:
            coa.sync()
        else:
            coa.sync(images[ctx.rank])
        # the model
        start = [m.copy() for m in M]
        later = []
        moved = 0
        for q in pending:
            r, kind, img, idx, data, loc = q
            if images[r] is not None and img not in images[r]:
                later.append(q)
                continue
            if kind == 'pull':
                M[r][loc] = chain(start[img], idx)[0][idx[-1]]
            else:
                b, i = chain(M[img], idx)
                b[i] = data
            moved += r != img
        pending = later
        total += moved
        ctx.same(numpy.array(coa), M[ctx.rank], 'after-sync', 'sync %d with %s of %d images' % (isync, images[ctx.rank], P))
        ctx.ev('requests', moved)
        ctx.ev('syncs')
        if moved:
            size = 'small' if coa.nbytes < 4096 else 'large'
            ctx.sig(sorted(kinds), len(shape), dt, size, P, own == 0, bool(later))
    ctx.comm.Barrier()


# several writers of one element, in the order of the ranks; and exchange in one sync
def run_swap(ctx, spec):
    from pmesh.coarray import coarray
    P, n = ctx.size, spec['n']
    coa = coarray.zeros(ctx.comm, (6, n), dtype='f8')
    rng = numpy.random.RandomState(spec['seed'])
    all0 = rng.uniform(size=(P, 6, n))
    coa[...] = all0[ctx.rank]
    s = spec['shift'] % P
    to, fro = (ctx.rank + s) % P, (ctx.rank - s) % P
    want = all0[ctx.rank].copy()
    ops = spec['order']
    for o in ops:
        if o == 0:
            if spec.get('views'):
                coa[0][:] = coa(to)[1]    # pull into a view of the array
            else:
                coa[0] = coa(to)[1]       # pull
            want[0] = all0[to][1]
        elif o == 1:
            coa(to)[2] = coa[3]           # push of a view of the array itself
            want[2] = all0[fro][3]
        elif o == 2:
            coa(to)[3] = coa[2]           # row 3 and row 2 are sources and targets at once
            want[3] = all0[fro][2]
        elif o == 3:
            if spec.get('views'):
                coa[4:][0][::2] = coa(fro)[5][::2]
            else:
                coa[4, ::2] = coa(fro)[5, ::2]
            want[4, ::2] = all0[fro][5, ::2]
        elif o == 4:
            coa(fro)[5][1::2] = coa[4][1::2]
            want[5, 1::2] = all0[to][4, 1::2]
    coa.sync()
    ctx.same(numpy.array(coa), want, 'exchange', 'requests %s by %d images apart, rows of %d' % (ops, s, n))
    coa.sync()
    ctx.same(numpy.array(coa), want, 'repeat', 'a second synchronisation has nothing to do')
    ctx.ev('syncs', 2)
    ctx.ev('requests', len(ops))
    if s:
        ctx.sig('swap', ops, n > 500, P)


def gen_swap(rng, ctx):
    ops = [i for i in range(5)]
    rng.shuffle(ops)
    return dict(n=int(rng.choice([1, 2, 7, 600, 9000])), seed=int(rng.randint(2 ** 31 - 1)), shift=int(rng.randint(0, 8)), views=int(rng.randint(2)),
                order=[int(o) for o in ops[:rng.randint(1, 6)]])


def run_tools(ctx, spec):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from pmesh.tools import FromRoot, Rotator, Timers
    rng = numpy.random.RandomState(spec['seed'])
    kind = spec['kind']
    if kind == 'root':
        v = rng.normal(size=rng.randint(0, 50))
        calls = []

        @FromRoot(ctx.comm)
        def f(a, b=1):
            calls.append(1)
            return dict(v=v * a + b, rank=ctx.comm.rank)
        # the arguments of the root count
        r = f(ctx.rank + 2.0, b=ctx.rank + 5)
        ctx.same(r['v'], v * 2.0 + 5, 'from-root', 'data')
        ctx.check(r['rank'] == 0 and len(calls) == (ctx.rank == 0), 'from-root', 'called on rank %s, %d times' % (r['rank'], len(calls)))
    elif kind == 'fail':
        @FromRoot(ctx.comm)
        def g():
            raise KeyError('nothing')
        try:
            r = g()
            ctx.fail('from-root-error', 'returned %r' % (r,))
        except KeyError:
            pass
        except Exception as e:
            ctx.fail('from-root-error', 'raised %r' % e)
    elif kind == 'rotate':
        import time
        fn = ctx.comm.bcast(os.path.join(os.environ.get('TMPDIR', '/tmp'), 'rot-%d-%d' % (os.getpid(), spec['seed'])) if ctx.rank == 0 else None)
        delay = rng.uniform(0, 0.004, size=ctx.size)[ctx.rank]
        time.sleep(rng.uniform(0, 0.004, size=ctx.size)[ctx.rank])
        try:
            with Rotator(ctx.comm):
                with open(fn, 'a') as ff:
                    ff.write('in %d\n' % ctx.rank)
                    ff.flush()
                    time.sleep(delay)
                    ff.write('out %d\n' % ctx.rank)
                if spec['err'] and ctx.rank == spec['seed'] % ctx.size:
                    raise ZeroDivisionError
        except ZeroDivisionError:
            pass
        ctx.comm.Barrier()
        got = open(fn).read().split('\n')[:-1]
        want = [l for r in range(ctx.size) for l in ('in %d' % r, 'out %d' % r)]
        ctx.check(got == want, 'rotation', lambda: 'order %s' % got)
        ctx.comm.Barrier()
        if ctx.rank == 0:
            os.unlink(fn)
    else:
        import time
        T = Timers(ctx.comm) if rng.randint(2) else Timers()
        want = {}
        t0 = time.time()
        for i in range(6):
            k = str(rng.choice(['a', 'b']))
            d = float(rng.uniform(0, 0.003))
            with T[k]:
                time.sleep(d)
            want[k] = want.get(k, 0) + d
        total = time.time() - t0
        for k in want:
            ctx.check(T[k].spent >= want[k] * 0.999, 'timer', lambda: '%s: %g for %g' % (k, T[k].spent, want[k]))
        ctx.check(sum(T[k].spent for k in want) <= total * 1.01 + 1e-4 and set(T) == set(want), 'timer', 'more than passed')
    ctx.ev('helpers')
    ctx.sig('tools', kind, ctx.size, bool(spec['err']))


def gen_tools(rng, ctx):
    return dict(kind=str(rng.choice(['root', 'root', 'fail', 'rotate', 'timer'])), seed=int(rng.randint(2 ** 31 - 1)), err=bool(rng.randint(2)))


GROUPS = [Group('history', gen, run, quick=250, thorough=15000),
          Group('exchange', gen_swap, run_swap, quick=120, thorough=4000),
          Group('tools', gen_tools, run_tools, quick=60, thorough=2000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=15, scale=2.0) for r in (1, 2, 3, 5)]
    return [dict(ranks=r, budget=180) for r in (1, 2, 3, 4, 5, 8)]
