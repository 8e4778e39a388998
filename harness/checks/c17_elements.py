import numpy
import fieldlib as fl
from core import Group

ID = 'C17'
TECHNIQUE = 'runtime monitoring: a history of collective element reads and writes on a distributed field is replayed on a global numpy model; the whole mesh is compared after each step'
RULE = ('random histories of element reads and writes by global index (plain, negative, real/imaginary component, self-conjugate and dual positions) on distributed fields; '
        'each read and the whole mesh after each write must match the model. Non-trivial when the mesh has more than one element; distinct by (mesh, precision, process mesh, storage, history).')
ASSUMPTIONS = ['indices address stored elements (a compressed field stores the non-negative half of its last axis)', 'on complex (c2c) meshes, which are not Hermitian, the partner element may or may not be written']


def gen(rng, ctx):
    m = fl.gen_mesh(rng, ctx.size, cap={2: 9, 3: 6})
    t = str(rng.choice(fl.TYPES))
    steps = []
    for _ in range(12):
        idx = []
        for d, n in enumerate(fl.cN(m, t)):
            k = rng.randint(5)
            i = int(rng.randint(n))
            if k == 0:
                i = 0
            elif k == 1 and m['N'][d] // 2 < n:
                i = m['N'][d] // 2
            elif k == 2:
                i = n - 1
            if rng.randint(3) == 0:
                i -= m['N'][d]
            idx.append(i)
        if t != 'real' and rng.randint(2):
            idx.append(int(rng.randint(2)))
        steps.append([str(rng.choice(['get', 'set', 'set'])), idx, float(rng.normal()), float(rng.normal())])
    return dict(m=m, type=t, steps=steps, pseed=int(rng.randint(2 ** 31 - 1)), form=int(rng.randint(3)))


def run(ctx, s):
    m, t = s['m'], s['type']
    N = m['N']
    nd = len(N)
    rng = numpy.random.RandomState(s['pseed'])
    pm = fl.make(m, ctx.comm)
    g = fl.gvalues(rng, m)
    if t != 'real':
        g = fl.spectrum(g, m)
    f = fl.field(pm, t, g)
    model = fl.whole(ctx, f)
    herm = t != 'real' and m['dtype'][0] == 'f'
    sz = model.shape
    for op, index, re, im in s['steps']:
        comp = index[nd] if len(index) > nd else None
        i = tuple(a % n for a, n in zip(index[:nd], N))
        dual = tuple((-a) % n for a, n in zip(i, N))
        stored = all(a < n for a, n in zip(dual, sz))
        arg = [index, tuple(index), numpy.array(index)][s['form']]
        a0 = numpy.array(arg)
        if op == 'get':
            v = f.cgetitem(arg)
            want = model[i] if comp is None else (model[i].real, model[i].imag)[comp]
            got = fl.agree(ctx, v, 'ranks-agree', 'cgetitem')
            ctx.check(v == want, 'get', lambda: '%s[%s] gave %r, stored is %r' % (m, index, v, want))
            ctx.ev('reads')
        else:
            cplx = comp is None and (t != 'real' or m['dtype'][0] == 'c')
            y = complex(numpy.dtype(fl.COMPLEX[m['dtype']]).type(re + 1j * im)) if cplx else float(numpy.dtype(fl.REAL[m['dtype']]).type(re))
            ret = f.csetitem(arg, y)
            want = model.copy()
            final = y
            if comp is None:
                if t == 'real':
                    want[i] = y
                else:
                    if dual == i and herm:
                        final = y.real
                    want[i] = final
                    if herm and stored and dual != i:
                        want[dual] = numpy.conj(y)
            else:
                if comp == 1 and dual == i and herm:
                    final = 0
                z = want[i]
                want[i] = complex(final, z.imag) if comp == 0 else complex(z.real, final)
                if herm and stored and dual != i:
                    z = want[dual]
                    want[dual] = complex(y, z.imag) if comp == 0 else complex(z.real, -y)
            now = fl.whole(ctx, f)
            if t != 'real' and not herm:
                # c2c: the partner is unspecified; the element itself unless it is its own partner
                if dual != i:
                    want[dual] = now[dual]
                else:
                    z = now[i]
                    ctx.check(z.real == want[i].real and z.imag in (want[i].imag, 0), 'set', 'c2c self')
                    want[i] = z
                    final = ret
            ctx.same(now, want, 'set', '%s %s[%s] = %r' % (m, t, index, y))
            fl.agree(ctx, ret, 'ranks-agree', 'csetitem')
            ctx.check(ret == final, 'returned', lambda: 'csetitem(%s, %r) returned %r, set was %r' % (index, y, ret, final))
            model = now
            ctx.ev('writes')
        ctx.check(numpy.array_equal(a0, numpy.array(arg)), 'index-kept', 'the index array was modified')
    if herm:
        F = fl.expand(model.astype('c16'), m)
        idx = numpy.ix_(*[(-numpy.arange(n)) % n for n in N])
        ctx.close(F, numpy.conj(F[idx]), 'hermitian', '', rtol=fl.tol(m, 10))
        back = fl.whole(ctx, f.c2r())
        ctx.close(back, numpy.fft.ifftn(F).real * F.size, 'still-real', '', rtol=fl.tol(m, 50))
    if model.size > 1:
        ctx.sig(tuple(N), m['dtype'], tuple(m['np'] or ()), t, str(s['steps'])[:60])


GROUPS = [Group('elements', gen, run, quick=150, thorough=8000)]


def jobs(tier):
    if tier == 'quick':
        return [dict(ranks=r, budget=25, scale=3.0) for r in (1, 2, 3, 4)]
    return [dict(ranks=r, budget=240) for r in (1, 2, 3, 4, 5, 6, 8)]
