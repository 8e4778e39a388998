"""Worker-side machinery: runs the cases of one job under the monitors of a check.

A check module defines

  ID        property id
  GROUPS    list of Group
  jobs(tier) -> list of dict(ranks=, budget=, groups=[names] or None, asan=bool, env={})

A Group has a generator `gen(rng, ctx)` that returns a JSON-able spec (the same on every
rank) and `run(ctx, spec)`, executed by all ranks, which calls the code under test and
reports through ctx.fail / ctx.ev / ctx.sig.
"""
import json
import mmap
import os
import sys
import time
import traceback
import zlib

import numpy


class Group(object):
    def __init__(self, name, gen, run, quick=20, thorough=400, fixed=None, ranks=None):
        self.name = name
        self.gen = gen
        self.run = run
        self.count = {'quick': quick, 'thorough': thorough}
        self.fixed = fixed      # list of explicit specs run before the random ones
        self.ranks = ranks      # None: any

    def spec(self, i, ctx):
        nf = len(self.fixed) if self.fixed else 0
        if i < nf:
            return self.fixed[i]
        rng = numpy.random.RandomState(
            [ctx.seed & 0x7fffffff, zlib.crc32(self.name.encode()) & 0x7fffffff, i])
        return self.gen(rng, ctx)

    def ncases(self, tier):
        nf = len(self.fixed) if self.fixed else 0
        return nf + (self.count[tier] if self.gen is not None else 0)


class Stop(Exception):
    pass


def huge(rng, shape, dtype):
    """ an array whose cells are gigabytes apart. Memory is taken only by the cells. """
    dtype = numpy.dtype(dtype)
    axis = int(rng.choice([d for d in range(len(shape)) if shape[d] > 1] or [0]))
    inner = [n for d, n in enumerate(shape) if d != axis]
    gap = max(4096, int(6e9) // max(1, shape[axis] - 1)) // 4096 * 4096
    strides, step = [0] * len(shape), dtype.itemsize
    strides[axis] = gap
    for d in reversed(range(len(shape))):
        if d != axis:
            strides[d] = step
            step *= shape[d]
    if step > gap:
        return numpy.zeros(shape, dtype)
    # not from malloc, which may fill it
    m = mmap.mmap(-1, gap * max(1, shape[axis]) + 4096, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | 0x4000)    # MAP_NORESERVE
    m.madvise(mmap.MADV_NOHUGEPAGE)
    return numpy.lib.stride_tricks.as_strided(numpy.frombuffer(m, dtype=dtype), shape=shape, strides=strides)


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Ctx(object):
    def __init__(self, job, comm):
        self.job = job
        self.comm = comm
        self.rank = comm.rank if comm is not None else 0
        self.size = comm.size if comm is not None else 1
        self.tier = job['tier']
        self.seed = job['seed']
        self.fails = []
        self.events = {}
        self.sigs = set()
        self.nontriv = False
        self.samples = []
        self.case = None
        self.outdir = job['outdir']

    # --- reporting ----------------------------------------------------
    def fail(self, oracle, msg, **data):
        rec = dict(group=self.case[0], index=self.case[1], oracle=oracle, msg=short(msg, 1500),
                   rank=self.rank, data={k: short(v, 600) for k, v in data.items()})
        self.fails.append(rec)
        if len(self.fails) < 200:
            with open(os.path.join(self.outdir, 'fail.%d.jsonl' % self.rank), 'a') as f:
                f.write(json.dumps(rec) + '\n')

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sig(self, *key):
        """marks the case as non-trivial and files it under `key`"""
        self.nontriv = True
        self.sigs.add(self.case[0] + ':' + short(repr(key), 200))

    def check(self, cond, oracle, msg='', **data):
        self.ev('checks')
        if not cond:
            self.fail(oracle, msg() if callable(msg) else msg, **data)
        return bool(cond)

    def close(self, a, b, oracle, msg='', rtol=1e-9, atol=0.0):
        """|a-b| <= atol + rtol*max|b| (same shape)"""
        a = numpy.asarray(a)
        b = numpy.asarray(b)
        self.ev('checks')
        if a.shape != b.shape:
            self.fail(oracle, 'shape %s instead of %s; %s' % (a.shape, b.shape, msg))
            return False
        if a.size == 0:
            return True
        self.ev('values_compared', a.size)
        fa = numpy.isfinite(a)
        fb = numpy.isfinite(b)
        scale = numpy.abs(b[fb]).max() if fb.any() else 0.0
        with numpy.errstate(all='ignore'):
            d = numpy.where(fa & fb, numpy.abs(numpy.where(fa & fb, a - b, 0)), 0.0)
        bad = (d > atol + rtol * scale) | (fa != fb)
        if bad.any():
            w = tuple(int(x[0]) for x in numpy.nonzero(bad)) if a.ndim else ()
            self.fail(oracle, 'at %s: got %r, expected %r (max diff %.3g, tolerance %.3g, %d of %d differ); %s' % (
                w, a[w], b[w], d.max(), atol + rtol * scale, int(bad.sum()), a.size, msg))
            return False
        return True

    def same(self, a, b, oracle, msg=''):
        """bit-identical (NaN equal to NaN)"""
        a = numpy.asarray(a)
        b = numpy.asarray(b)
        self.ev('checks')
        if a.shape != b.shape or a.dtype != b.dtype:
            self.fail(oracle, '%s %s instead of %s %s; %s' % (a.shape, a.dtype, b.shape, b.dtype, msg))
            return False
        self.ev('values_compared', a.size)
        if a.tobytes() == b.tobytes():
            return True
        if a.dtype.kind in 'fc' and numpy.array_equal(a, b, equal_nan=True):
            return True
        bad = a != b
        w = tuple(int(x[0]) for x in numpy.nonzero(bad)) if a.ndim and numpy.any(bad) else ()
        self.fail(oracle, 'at %s: got %r, expected %r; %s' % (w, a[w], b[w], msg))
        return False

    def gather(self, x):
        """list over ranks, on every rank"""
        return self.comm.allgather(x)


def run_job(mod, job, comm):
    ctx = Ctx(job, comm)
    t0 = time.time()
    groups = [g for g in mod.GROUPS if job.get('groups') is None or g.name in job['groups']]
    groups = [g for g in groups if g.ranks is None or ctx.size in g.ranks]
    tier = ctx.tier
    stats = dict(evaluations=0, distinct=0, nontrivial=0, per_group={}, failcases=0, truncated=[])
    if 'only' in job:
        todo = [(g, [job['only'][1]]) for g in groups if g.name == job['only'][0]]
        budget = 1e9
    else:
        scale = job.get('scale', 1.0)
        todo = []
        for g in groups:
            nf = len(g.fixed) if g.fixed else 0
            n = g.ncases(tier)
            n = nf + int(round((n - nf) * scale))
            k, m = job.get('part', (0, 1))      # this job takes every m-th case
            todo.append((g, [i for i in range(n) if i % m == k]))
        budget = job['budget']
    skip = set(map(tuple, job.get('skip', [])))
    # interleave the groups, proportionally, so that a budget cut hits all alike
    order = []
    for g, idx in todo:
        for k, i in enumerate(idx):
            order.append(((k + 0.5) / max(len(idx), 1) if not (g.fixed and i < len(g.fixed)) else -1, g, i))
    order.sort(key=lambda x: x[0])
    seen = set()
    progress = os.path.join(ctx.outdir, 'progress')
    for k, (_, g, i) in enumerate(order):
        if (g.name, i) in skip:
            continue
        stop = time.time() - t0 > budget
        if ctx.size > 1:
            stop = comm.bcast(stop)
        if stop:
            stats['truncated'] = sorted(set(o[1].name for o in order[k:]))
            break
        spec = g.spec(i, ctx)
        ctx.case = (g.name, i)
        ctx.nontriv = False
        nf = len(ctx.fails)
        if ctx.rank == 0:
            with open(progress, 'w') as f:
                f.write(json.dumps(dict(group=g.name, index=i, spec=short(spec, 2000), t=time.time())))
        nsig = len(ctx.sigs)
        try:
            g.run(ctx, spec)
        except Exception:
            tb = traceback.format_exc()
            ctx.fail('exception', tb[-1400:])
            sys.stderr.write(tb)
            sys.stderr.flush()
            if ctx.size > 1:
                comm.Abort(77)
        failed = len(ctx.fails) - nf
        if ctx.size > 1:
            failed = comm.allreduce(failed)
        stats['evaluations'] += 1
        pg = stats['per_group'].setdefault(g.name, 0)
        stats['per_group'][g.name] = pg + 1
        if ctx.nontriv:
            stats['nontrivial'] += 1
        if len(ctx.sigs) > nsig and len(ctx.samples) < 40:
            ctx.samples.append(dict(group=g.name, index=i, ranks=ctx.size, spec=short(spec, 500)))
        if failed:
            stats['failcases'] += 1
            if stats['failcases'] >= 12:
                break
    if ctx.size > 1:
        evs = comm.gather(ctx.events)
        fails = comm.gather(ctx.fails)
        sigs = comm.gather(ctx.sigs)
    else:
        evs, fails, sigs = [ctx.events], [ctx.fails], [ctx.sigs]
    if ctx.rank == 0:
        events = {}
        for e in evs:
            for a, b in e.items():
                events[a] = events.get(a, 0) + b
        allsig = set()
        for s in sigs:
            allsig |= s
        out = dict(stats=stats, events=events, fails=[x for f in fails for x in f][:200],
                   sigs=sorted(allsig), samples=ctx.samples, wall=time.time() - t0, ranks=ctx.size)
        tmp = os.path.join(ctx.outdir, 'out.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(out, f)
        os.rename(tmp, os.path.join(ctx.outdir, 'out.json'))
    if ctx.size > 1:
        comm.Barrier()
    return 0
