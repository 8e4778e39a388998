import numpy
import fieldlib as fl
from core import Group

ID = 'C23'
TECHNIQUE = 'runtime monitoring: white-noise fields generated on random process meshes are gathered and compared bit for bit with the kernel run on the whole mesh in one process'
RULE = ('random meshes, seeds, process meshes, storage orders and precisions; the gathered modes must be those the white-noise kernel gives for the whole mesh in one piece, '
        'with the requested mean; the real-space field must be their inverse transform. Non-trivial when the mesh has more than one mode; distinct by (mesh, precision, process mesh, seed, type).')
ASSUMPTIONS = ['the whole-mesh reference comes from the same kernel run serially (its own statistics and partition-independence are C10 and C11)']


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, nds=(2, 3, 3, 3))
    return dict(m=m, seed=int(rng.choice([0, 1, 2 ** 31 - 1, rng.randint(2 ** 31 - 1)])), unitary=bool(rng.randint(2)),
                mean=float(rng.choice([0, 0, 1.0, -3.5])), type=str(rng.choice(fl.TYPES)), base=bool(rng.randint(2)), noise=int(rng.randint(2)))


def run(ctx, s):
    from pmesh.whitenoise import generate
    m = s['m']
    pm = fl.make(m, ctx.comm)
    c = fl.cN(m, 'c')
    ref = numpy.zeros(c, dtype=fl.COMPLEX[m['dtype']])
    generate(ref, [0] * len(c), m['N'], s['seed'], s['unitary'])
    ref[(0,) * len(c)] = s['mean']
    if s['noise']:
        # unrelated draws on some ranks must not matter
        numpy.random.seed(ctx.rank)
        numpy.random.uniform(size=ctx.rank + 1)
    kw = {}
    if s['base']:
        other = pm.create('real')
        other.value[...] = 3
        kw['base'] = other._base
    st = numpy.random.get_state()[1].copy()
    f = pm.generate_whitenoise(s['seed'], unitary=s['unitary'], mean=s['mean'], type=s['type'], **kw)
    ctx.check(numpy.array_equal(st, numpy.random.get_state()[1]), 'global-state', 'the global numpy generator was touched')
    ctx.check(type(f) is type(pm.create(s['type'])), 'type', str(type(f)))
    if s['base'] and f.size and other.size:
        ctx.check(numpy.shares_memory(f.value, other.value), 'base', 'the given memory is not used')
    got = fl.whole(ctx, f)
    full = fl.expand(ref.astype('c16'), m)
    rad = numpy.abs(full).sum()
    if s['type'] == 'real':
        want = numpy.fft.ifftn(full) * full.size
        if m['dtype'][0] == 'f':
            ctx.close(want.imag, 0 * want.imag, 'real-valued', '', rtol=0, atol=(1e-9 if m['dtype'] in ('f8', 'c16') else 1e-6) * rad)
            want = want.real
        ctx.close(got, want, 'real-field', '%s' % m, rtol=fl.tol(m, 10), atol=fl.tol(m, 1) * rad / full.size ** 0.5)
        ctx.close(numpy.real(numpy.asarray(f.cmean())), s['mean'], 'mean', '', rtol=0, atol=fl.tol(m, 10) * (1 + abs(s['mean']) + numpy.abs(got).max()))
    else:
        ctx.same(got, ref, 'modes', '%s %s' % (m, s['type']))
        # the real-space field of the same seed is its transform
        r = pm.generate_whitenoise(s['seed'], unitary=s['unitary'], mean=s['mean'], type='real')
        ctx.close(fl.whole(ctx, r), fl.whole(ctx, f.c2r()), 'real-is-transform', '', rtol=fl.tol(m, 20))
    # again, with everything left out that is the default
    kw = dict(unitary=s['unitary'], mean=s['mean'], type=s['type'])
    kw = dict((k, v) for k, v in kw.items() if not (v is False or (k == 'mean' and v == 0) or v == 'transposedcomplex'))
    f2 = pm.generate_whitenoise(s['seed'], **kw)
    ctx.check(type(f2) is type(f), 'type', 'default %s' % type(f2))
    ctx.same(numpy.array(f2.value), numpy.array(f.value), 'repeat', '')
    ctx.ev('modes', f.size)
    if full.size > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), s['type'], s['seed'])


def gen_h(rng, ctx):
    s = gen(rng, ctx)
    return dict(m=s['m'], seeds=[int(x) for x in rng.randint(2 ** 31 - 1, size=2)], calls=[
        [int(rng.randint(2)), bool(rng.randint(2)), float(rng.choice([0, 1.0, -3.5])), str(rng.choice(fl.TYPES)), int(rng.randint(3))] for _ in range(7)])


def run_h(ctx, s):
    """a history of calls on the same meshes: each gives its own field, and earlier fields stay"""
    from pmesh.whitenoise import generate
    m = s['m']
    pms = [fl.make(m, ctx.comm), fl.make(m, ctx.comm)]
    m2 = dict(m, box=[2.5 * b for b in m['box']])
    pms.append(fl.make(m2, ctx.comm))
    c = fl.cN(m, 'c')
    kept = []
    for i, (k, unitary, mean, ty, which) in enumerate(s['calls']):
        ref = numpy.zeros(c, dtype=fl.COMPLEX[m['dtype']])
        generate(ref, [0] * len(c), m['N'], s['seeds'][k], unitary)
        ref[(0,) * len(c)] = mean
        f = pms[which].generate_whitenoise(s['seeds'][k], unitary=unitary, mean=mean, type=ty)
        got = fl.whole(ctx, f)
        if ty == 'real':
            full = fl.expand(ref.astype('c16'), m)
            want = numpy.fft.ifftn(full) * full.size
            if m['dtype'][0] == 'f':
                want = want.real
            ctx.close(got, want, 'history', 'call %d of %r' % (i, s['calls']), rtol=fl.tol(m, 10), atol=fl.tol(m, 1) * numpy.abs(full).sum() / full.size ** 0.5)
        else:
            ctx.same(got, ref, 'history', 'call %d of %r' % (i, s['calls']))
        kept.append((f, numpy.array(f.value)))
        for j, (a, b) in enumerate(kept):
            ctx.same(numpy.array(a.value), b, 'earlier-field', 'call %d changed the field of call %d of %r' % (i, j, s['calls']))
        if i % 3 == 2 and f.size:
            # the user's own field
            kept[i] = (f, kept[i][1] * 0 + 5)
            f.value[...] = 5
    ctx.ev('histories')
    ctx.sig('history', tuple(m['N']), m['dtype'], tuple(m['np'] or ()))


GROUPS = [Group('noise', gen, run, quick=150, thorough=8000), Group('history', gen_h, run_h, quick=25, thorough=900)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
