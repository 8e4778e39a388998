import warnings
import numpy
import fieldlib as fl
from core import Group

ID = 'C19'
TECHNIQUE = 'runtime monitoring: elements of distributed fields carry their global index as value; the flattened sequence over ranks is checked for loss, repetition and order'
RULE = ('random distributed fields with distinct values (the global index) or random bits incl. NaN and repeats; flattening, in any form of output, must give the C-order sequence, and restoring must give back '
        'the same bits. Non-trivial when the mesh has more than one element; distinct by (mesh, precision, process mesh, storage, form).')
ASSUMPTIONS = ['the total length given to unravel is that of the mesh (a different total raises)']


def gen(rng, ctx):
    return dict(m=fl.gen_mesh(rng, ctx.size), type=str(rng.choice(fl.TYPES)), form=str(rng.choice(['none', 'inplace', 'array', 'flat', 'strided', 'self'])),
                values=str(rng.choice(['index', 'random', 'bits'])), dist=str(rng.choice(['own', 'own', 'random', 'one'])), pseed=int(rng.randint(2 ** 31 - 1)))


def run(ctx, s):
    m, t = s['m'], s['type']
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    shape = fl.cN(m, t)
    f = pm.create(t)
    dt = f.value.dtype
    if s['values'] == 'index':
        g = numpy.arange(numpy.prod(shape)).reshape(shape).astype(dt)
        if dt.kind == 'c':
            g = g - 1j * g[..., ::-1]
            g = g.astype(dt)
    elif s['values'] == 'random':
        g = rng.normal(size=shape).astype(dt)
    else:
        g = rng.choice([0.0, -0.0, 1.0, numpy.inf, -numpy.inf, numpy.nan, 1e-30, 3e7], size=shape).astype(dt)
    fl.put(f, g)
    before = f.value.copy()
    form = s['form']
    if form == 'none' and s['pseed'] % 3 == 0:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = f.sort()        # the old name
    elif form == 'none':
        r = f.ravel()
    elif form == 'inplace':
        r = f.ravel(out=Ellipsis)
    elif form == 'self':
        r = f.ravel(out=f.value)
    elif form == 'array':
        o = numpy.full(f.value.shape, 9, dtype=dt)
        r = f.ravel(out=o)
    elif form == 'flat':
        o = numpy.full(f.value.size, 9, dtype=dt)
        r = f.ravel(out=o.flat)
        ctx.same(numpy.array(r), o, 'out-holds-result', form)
    else:
        big = numpy.full((f.value.size, 3), 9, dtype=dt)
        o = big[:, 1]
        r = f.ravel(out=o.flat)
        ctx.check((big[:, 0] == 9).all() and (big[:, 2] == 9).all(), 'out-of-bounds-write', 'neighbours of a strided output changed')
        ctx.same(numpy.array(r), numpy.array(o), 'out-holds-result', form)
    ctx.check(isinstance(r, numpy.flatiter), 'type', str(type(r)))
    if form in ('inplace', 'self'):
        ctx.same(numpy.array(f.value).ravel(), numpy.array(r), 'out-holds-result', form)
        ctx.ev('inplace')
    else:
        ctx.same(numpy.array(f.value), before, 'input-kept', form)
    local = numpy.array(r)
    ctx.check(len(local) == f.size, 'length', '')
    seq = numpy.concatenate(ctx.gather(local))
    ctx.same(seq, g.ravel().astype(dt), 'c-order', '%s %s %s' % (m, t, form))
    ctx.ev('elements', local.size)
    # restore, from any distribution over ranks
    total = g.size
    if s['dist'] == 'own':
        src = r
    else:
        if s['dist'] == 'one':
            cuts = [0] * (1 + pseudo(s, ctx.size)) + [total] * (ctx.size - pseudo(s, ctx.size))
        else:
            cuts = [0] + sorted(int(x) for x in rng.randint(0, total + 1, size=ctx.size - 1)) + [total]
        src = seq[cuts[ctx.rank]:cuts[ctx.rank + 1]].copy()
    keep = numpy.array(src).copy()
    # (into another field, or a new one)
    t2 = t
    if rng.randint(2):
        f2 = pm.create(t2)
        f2.value[...] = 5
        if s['pseed'] % 3 == 1:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f2.unsort(src)
        else:
            f2.unravel(src)
    else:
        f2 = pm.unravel(type(f), src)
        ctx.check(type(f2) is type(f), 'type')
    ctx.same(numpy.array(src), keep, 'source-kept', 'unravel changed its source')
    ctx.same(fl.whole(ctx, f2), g.astype(dt), 'restored', '%s %s %s' % (m, t, s['dist']))
    # values of another precision that stand for the same numbers
    if s['values'] == 'index' and total < 2 ** 20:
        odt = {'f': ('i8', 'f4', 'f8'), 'c': ('c8', 'c16')}[dt.kind]
        odt = odt[s['pseed'] % len(odt)]
        ctx.same(fl.whole(ctx, pm.unravel(type(f), numpy.array(src).astype(odt))), g.astype(dt), 'restored', 'from values of %s' % odt)
        ctx.ev('other_precisions')
    # the other storage order holds the same sequence
    if t != 'real':
        other = [x for x in fl.CTYPES if x != t][0]
        f3 = pm.unravel(other, src)
        ctx.same(fl.whole(ctx, f3), g.astype(dt), 'other-storage', '')
        ctx.same(numpy.concatenate(ctx.gather(numpy.array(f3.ravel()))), seq, 'other-storage-ravel')
    if total > 1:
        ctx.sig(tuple(m['N']), m['dtype'], tuple(m['np'] or ()), t, form, s['values'], s['dist'])


def pseudo(s, n):
    return s['pseed'] % n


GROUPS = [Group('ravel', gen, run, quick=200, thorough=9000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
