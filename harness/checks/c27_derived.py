import gc

import numpy
from core import Group
import fieldlib as fl

ID = 'C27'
RULE = ('random histories of creating meshes (few parameter sets, so that plans are reused), deriving meshes with reshape, resize and '
        'respawn (duplicated, split and single-rank communicators, other process meshes), creating fields on them, transforming, and '
        'dropping meshes and fields in random order, on random ranks only, with garbage collections on random ranks. Every derived or '
        'rebuilt mesh is compared with one built on a fresh communicator (bitwise: partition, coordinates, domains, transforms) and with '
        'a one-process model; live fields must keep their bytes through everything. Non-trivial: a mesh that was derived or shares '
        'plans was used; distinct by (operation, dimensions, precision, ranks, what was dropped before).')
ASSUMPTIONS = ['a mesh is used only on communicators that still exist',
               'meshes whose process mesh has as many dimensions as the mesh cannot be built with the installed pfft']
TECHNIQUE = 'runtime monitoring: history monitor with bitwise comparison against fresh objects and byte checksums of all live fields'


def gen(rng, ctx):
    pool = []
    for _ in range(int(rng.randint(1, 4))):
        m = fl.gen_mesh(rng, ctx.size, lo=2, cap={2: 8, 3: 7})
        if len(m['N']) == 3 and rng.randint(2):
            m['np'] = [ctx.size]        # can be reshaped to two dimensions
        pool.append(m)
    ops = []
    for _ in range(int(rng.randint(8, 18))):
        ops.append([str(rng.choice(['create', 'create', 'same', 'same', 'reshape', 'reshape', 'respawn', 'field', 'field', 'use', 'use', 'drop', 'drop', 'dropfield', 'gc'])),
                    int(rng.randint(2 ** 31 - 1))])
    return dict(pool=pool, ops=ops, pseed=int(rng.randint(2 ** 31 - 1)))


def params(pm):
    return dict(N=[int(n) for n in pm.Nmesh], box=[float(b) for b in pm.BoxSize], dtype=str(pm.dtype.str[1:]), np=pm.np if pm.np is None else list(pm.np))


class Live(object):
    """a mesh, what it should be, and its fields"""
    def __init__(self, pm, m, comm, how):
        self.pm, self.m, self.comm, self.how = pm, m, comm, how
        self.fields = []


def attrs(ctx, pm, m, comm, how):
    ctx.check(list(pm.Nmesh) == list(m['N']), 'attributes', lambda: '%s: Nmesh %r for %r' % (how, pm.Nmesh, m['N']))
    ctx.check(numpy.array_equal(pm.BoxSize, m['box']), 'attributes', lambda: '%s: BoxSize %r for %r' % (how, pm.BoxSize, m['box']))
    ctx.check(pm.dtype == numpy.dtype(m['dtype']), 'attributes', lambda: '%s: dtype %s' % (how, pm.dtype))
    ctx.check(pm.ndim == len(m['N']), 'attributes', '%s: ndim' % how)
    ctx.check(pm.comm is comm or pm.comm == comm, 'attributes', '%s: communicator' % how)
    if m['np'] is not None:
        ctx.check(list(pm.np) == list(m['np']), 'attributes', lambda: '%s: process mesh %r for %r' % (how, pm.np, m['np']))
    from pmesh.window import FindResampler
    ctx.check(pm.resampler.kind == FindResampler(m['resampler']).kind and pm.resampler.support == FindResampler(m['resampler']).support,
              'attributes', lambda: '%s: resampler %r for %r' % (how, pm.resampler.kind, m['resampler']))


def results(pm, seed):
    """everything that characterises a mesh, as bytes"""
    rng = numpy.random.RandomState(seed)
    out = {}
    m = dict(N=[int(n) for n in pm.Nmesh], dtype=pm.dtype.str[1:])
    g = fl.gvalues(rng, m)
    for t in fl.TYPES:
        f = pm.create(t)
        out['slices ' + t] = repr(f.slices)
        out['cshape ' + t] = repr(tuple(int(x) for x in f.cshape))
        out['x ' + t] = [a.tobytes() for a in f.x]
        out['i ' + t] = [a.tobytes() for a in f.i]
        del f
    r = fl.field(pm, 'real', g)
    for t in fl.CTYPES:
        c = r.cast(type=t)
        out['forward ' + t] = c.value.tobytes()
        out['backward ' + t] = c.c2r().value.tobytes()
        ip = fl.field(pm, 'real', g)
        out['inplace ' + t] = ip.cast(type=t, out=ip).value.tobytes()
    pos = numpy.random.RandomState(seed + pm.comm.rank).uniform(0, 1, size=(20, pm.ndim)) * pm.BoxSize
    l = pm.decompose(pos)
    out['decompose'] = [numpy.asarray(l.sendcounts).tobytes(), numpy.asarray(l.recvcounts).tobytes(), numpy.asarray(l.indices).tobytes()]
    p = pm.paint(pos, layout=l)
    out['paint'] = p.value.tobytes()
    out['readout'] = p.readout(pos, layout=l).tobytes()
    out['edges'] = [numpy.asarray(e).tobytes() for e in pm.domain.edges]
    out['assign'] = numpy.asarray(pm.domain.DomainAssign).tobytes()
    out['noise'] = pm.generate_whitenoise(seed % 1000 + 1, type='complex').value.tobytes()
    return out, r, g


def compare(ctx, live, seed, what):
    """against a mesh on a communicator of its own, that can not share anything"""
    pm, m = live.pm, live.m
    comm = live.comm.Dup()
    fresh = fl.make(m, comm)
    a, r, g = results(pm, seed)
    b, r2, g2 = results(fresh, seed)
    for k in b:
        ctx.check(a[k] == b[k], 'as-fresh', lambda: '%s of a mesh (%s) differs from that of a fresh one, %s' % (k, live.how, what))
    # and the transform is right
    sub = Sub(ctx, live.comm)
    F = fl.whole(sub, r.r2c())
    ctx.close(F, fl.spectrum(g, m), 'transform', live.how, rtol=0, atol=fl.EPS[m['dtype']] * 10)
    ctx.ev('compared')
    del fresh, r2
    comm.Free()


class Sub(object):
    """the context seen by the ranks of a communicator"""
    def __init__(self, ctx, comm):
        self.ctx, self.comm = ctx, comm
        self.check, self.fail = ctx.check, ctx.fail


def run(ctx, spec):
    rng0 = numpy.random.RandomState(spec['pseed'])
    lives = []
    comms = []      # communicators to free at the end
    dropped = 0

    def checksums(what):
        for l in lives:
            for f, data, t in l.fields:
                ctx.check(f.value.tobytes() == data, 'field-changed', lambda: 'a %s field of a mesh (%s) changed in %s' % (t, l.how, what))
                ctx.ev('fields_checked')

    for op, sd in spec['ops']:
        r = numpy.random.RandomState(sd)
        what = op
        if op in ('create', 'same'):
            m = dict(spec['pool'][r.randint(len(spec['pool']))])
            if op == 'same' and lives:
                l0 = lives[r.randint(len(lives))]
                m, comm = dict(l0.m), l0.comm
                if comm is None:
                    continue
                # equal plans, other geometry
                if r.randint(2):
                    m['box'] = [b * 2 for b in m['box']]
                if r.randint(2):
                    m['resampler'] = str(r.choice(['nearest', 'cic', 'tsc', 'pcs']))
                if r.randint(3) == 0:
                    m['dtype'] = str(r.choice(['f8', 'f4', 'c16', 'c8']))
                if l0.pm is None:
                    lives.append(Live(None, m, comm, 'elsewhere'))
                    continue
            else:
                comm = ctx.comm
            pm = fl.make(m, comm)
            lives.append(Live(pm, m, comm, 'created'))
        elif op == 'reshape' and lives:
            l0 = lives[r.randint(len(lives))]
            m = dict(l0.m)
            kw = {}
            nd = len(m['N'])
            k = r.randint(6)
            npd = len(l0.pm.np) if l0.pm is not None else None
            # the same on all ranks of the mesh
            npd = [x for x in ctx.comm.allgather(npd) if x is not None][0]
            if nd == 3 and npd == 1 and r.randint(2):
                k = 4
            if k == 0:
                n = int(r.randint(2, 9))
                kw['Nmesh'] = n
                m['N'] = [n] * nd
            elif k == 1:
                b = float(r.choice([1.0, 3.5]))
                kw['BoxSize'] = b
                m['box'] = [b] * nd
            elif k == 2:
                n = [int(x) for x in r.randint(2, 9, size=nd)]
                kw['Nmesh'] = n if r.randint(2) else numpy.array(n)
                kw['BoxSize'] = [2.0 + i for i in range(nd)]
                m['N'], m['box'] = n, kw['BoxSize']
            elif k == 3 and nd == 2:
                m['N'] = [int(x) for x in r.randint(2, 7, size=3)]
                m['box'] = [1.5, 2.5, 0.5]
                kw = dict(Nmesh=m['N'], BoxSize=m['box'])
                m['np'] = None
            elif k == 4 and nd == 3 and npd == 1:
                m['N'] = [int(x) for x in r.randint(2, 9, size=2)]
                kw = dict(Nmesh=m['N'])
                m['box'] = m['box'][:2]
            elif k == 5:
                kw = {}
            if l0.pm is None:
                lives.append(Live(None, m, None, 'elsewhere'))
                continue
            if 'Nmesh' in kw and not kw.get('BoxSize') and r.randint(3) == 0 and not numpy.isscalar(kw['Nmesh']) and len(kw['Nmesh']) == nd:
                pm = l0.pm.resize(kw['Nmesh'])
            else:
                pm = l0.pm.reshape(**kw)
            if m['np'] is None:
                m['np'] = list(l0.pm.np)      # not mentioned: inherited
            what = 'reshape %d' % k
            lives.append(Live(pm, m, l0.comm, 'reshaped'))
        elif op == 'respawn' and lives:
            l0 = lives[r.randint(len(lives))]
            m = dict(l0.m)
            kind = str(r.choice(['dup', 'split', 'self']))
            newnp = None
            if l0.pm is not None:
                if kind == 'dup':
                    c = l0.comm.Dup()
                elif kind == 'split':
                    c = l0.comm.Split(l0.comm.rank % 2, -l0.comm.rank if r.randint(2) else l0.comm.rank)
                else:
                    c = l0.comm.Split(l0.comm.rank, 0)
                comms.append(c)
                # pfft: a split axis of length one is not supported here
                if min(m['N'][:-1]) < 2:
                    continue
                if len(m['N']) == 3 and r.randint(2):
                    newnp = [c.size] if r.randint(2) else [1, c.size]
                pm = l0.pm.respawn(c, np=newnp)
                m['np'] = newnp
                lives.append(Live(pm, m, c, 'respawned'))
            else:
                lives.append(Live(None, m, None, 'elsewhere'))
            what = 'respawn ' + kind
        elif op == 'field' and lives:
            l = lives[r.randint(len(lives))]
            if l.pm is not None:
                t = str(r.choice(fl.TYPES))
                g = fl.gvalues(r, l.m)
                f = fl.field(l.pm, 'real', g)
                if t != 'real':
                    f = f.cast(type=t)
                l.fields.append((f, f.value.tobytes(), t))
        elif op == 'use' and lives:
            l = lives[r.randint(len(lives))]
            if l.pm is not None:
                compare(ctx, l, sd % 10000, 'after %d drops' % dropped)
                checksums('use')
                ctx.sig('use', l.how, len(l.m['N']), l.m['dtype'], ctx.size, min(dropped, 3))
        elif op == 'drop' and lives:
            i = r.randint(len(lives))
            l = lives.pop(i)
            # some ranks hold on to the mesh for longer
            hold = r.randint(0, 3, size=ctx.size) == 0
            if hold[ctx.rank]:
                comms.append(l)
            if l.fields and r.randint(2):
                # the field lives on, without anybody holding its mesh
                f = l.fields[0]
                comms.append(('field', f))
            del l
            dropped += 1
        elif op == 'dropfield':
            for l in lives:
                if l.fields and r.randint(2):
                    l.fields.pop(r.randint(len(l.fields)))
        elif op == 'gc':
            if r.randint(0, 2, size=ctx.size)[ctx.rank]:
                gc.collect()
        if lives and lives[-1].pm is not None and op in ('create', 'same', 'reshape', 'respawn'):
            l = lives[-1]
            attrs(ctx, l.pm, l.m, l.comm, l.how)
            if r.randint(2):
                compare(ctx, l, sd % 10000, what)
                ctx.sig(what, len(l.m['N']), l.m['dtype'], ctx.size, min(dropped, 3))
        checksums(what)
        for x in comms:
            if isinstance(x, tuple):
                f, data, t = x[1]
                ctx.check(f.value.tobytes() == data, 'field-changed', 'a %s field whose mesh was dropped changed in %s' % (t, what))
                # and still works
        ctx.ev('operations')
    # the orphans still transform
    for x in comms:
        if isinstance(x, tuple):
            f, data, t = x[1]
            r2 = f.c2r() if t != 'real' else f
            c = r2.r2c()
            ctx.check(numpy.isfinite(c.value).all(), 'orphan', 'transform')
            if t != 'real':
                w = fl.EPS[f.pm.dtype.str[1:]] * 100
                back = r2.cast(type=t)
                ctx.close(numpy.array(back.value), numpy.array(f.value), 'orphan', 'round trip of a field whose mesh was dropped', rtol=0, atol=w)
            ctx.ev('orphans')
    del lives[:]
    del comms[:]
    ctx.comm.Barrier()


def gen_groups(rng, ctx):
    half = ctx.size // 2
    m = fl.gen_mesh(rng, half, lo=2, cap={2: 8, 3: 7})
    return dict(m=m, perms=[[int(x) for x in rng.permutation(half)] for _ in range(int(rng.randint(2, 4)))], order=int(rng.randint(2)),
                free=int(rng.randint(2)), pseed=int(rng.randint(2 ** 31 - 1)))


def run_groups(ctx, s):
    """processes regrouped such that a process keeps its rank and the size of its group, but has other partners"""
    lives, comms = [], []
    half = ctx.size // 2
    for n, perm in enumerate(s['perms']):
        if ctx.rank < 2 * half:
            # two processes of every rank 0 .. half - 1; the second set is shuffled against the first
            r = ctx.rank // 2
            color = (ctx.rank + (perm[r] if n else 0)) % 2
        else:
            r, color = 0, None
        from mpi4py import MPI
        c = ctx.comm.Split(MPI.UNDEFINED if color is None else color, r)
        if color is None:
            continue
        comms.append(c)
        pm = fl.make(s['m'], c)
        lives.append(Live(pm, s['m'], c, 'grouping %d' % n))
        attrs(ctx, pm, s['m'], c, 'grouping %d' % n)
        if s['free'] and n == 0:
            del lives[:]
    for l in (lives if s['order'] else lives[::-1]):
        # the groups hold different data
        compare(ctx, l, s['pseed'] % 100000 + ctx.comm.rank % 2 * 0 + l.comm.bcast(ctx.rank), 'regrouped')
    if ctx.rank < 2 * half:
        ctx.sig('groups', tuple(s['m']['N']), s['m']['dtype'], half, len(s['perms']))
    ctx.ev('regroupings', len(s['perms']))
    del lives[:]
    ctx.comm.Barrier()


GROUPS = [Group('history', gen, run, quick=150, thorough=6000),
          Group('regroup', gen_groups, run_groups, quick=25, thorough=1500, ranks=(4, 8))]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, env=OMP, groups=['history']) for r in (1, 2, 3, 4)] + [dict(ranks=4, budget=12, groups=['regroup'])]
    return [dict(ranks=r, budget=220, env=OMP) for r in (1, 2, 3, 4, 5, 6, 8)]


OMP = {}
