"""Driver: ./run <property> | ./run replay <file> | ./run setup"""
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild  # noqa: E402

CORES = 10
HARD = 840.0    # a check must end before 900 s
T0 = time.time()


def modname(pid):
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', pid.lower() + '*.py'))):
        return os.path.basename(f)[:-3]
    raise SystemExit('no check for ' + pid)


def asan_env():
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    lib = os.path.realpath(lib)
    return dict(LD_PRELOAD=lib,
                ASAN_OPTIONS='detect_leaks=0:halt_on_error=1:exitcode=66:abort_on_error=0:'
                             'allocator_may_return_null=1:max_allocation_size_mb=4096:malloc_fill_byte=127:max_malloc_fill_size=1048576',
                UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1:exitcode=66')


class Job(object):
    def __init__(self, pid, spec, tier, seed, work):
        self.pid = pid
        self.spec = dict(spec)
        self.tier = tier
        self.seed = seed
        self.ranks = spec.get('ranks', 1)
        self.result = None
        self.fails = []
        self.error = None
        self.work = work
        self.runs = 0

    def launch(self, extra=None, timeout=None):
        """run the worker(s) once; returns (status, text) and leaves files in outdir"""
        self.runs += 1
        outdir = tempfile.mkdtemp(prefix='job-', dir=self.work)
        variant = 'asan' if self.spec.get('asan') else 'plain'
        tree = vbuild.build(variant)
        job = dict(self.spec)
        job.update(tier=self.tier, seed=self.seed, outdir=outdir, tree=tree,
                   module=modname(self.pid), ranks=self.ranks)
        job.setdefault('budget', 60)
        if extra:
            job.update(extra)
        jf = os.path.join(outdir, 'job.json')
        with open(jf, 'w') as f:
            json.dump(job, f)
        env = dict(os.environ)
        env['PYTHONPATH'] = tree + os.pathsep + HERE
        env['NUMBA_CACHE_DIR'] = os.path.join(vbuild.cache_dir(), 'numba')
        env.pop('VERIF_REPO', None)
        env['VERIF_SOURCE'] = vbuild.REPO
        env.setdefault('MALLOC_PERTURB_', '128')
        if variant == 'asan':
            env.update(asan_env())
        env.update(self.spec.get('env', {}))
        cmd = [sys.executable, '-u', os.path.join(HERE, 'worker.py'), jf]
        if self.ranks > 1 or self.spec.get('mpirun'):
            preload = env.pop('LD_PRELOAD', None)
            pre = ['mpirun', '-n', str(self.ranks), '--oversubscribe']
            if preload:
                pre += ['-x', 'LD_PRELOAD=' + preload]
            cmd = pre + cmd
        if timeout is None:
            timeout = job['budget'] * 1.5 + 150
        timeout = max(5.0, min(timeout, HARD - (time.time() - T0)))
        errf = os.path.join(outdir, 'stderr')
        status = 'exit'
        with open(os.path.join(outdir, 'stdout'), 'wb') as so, open(errf, 'wb') as se:
            p = subprocess.Popen(cmd, cwd=outdir, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=se,
                                 start_new_session=True)
            last = None
            stuck = self.spec.get('stuck', 90)
            t0 = time.time()
            while True:
                try:
                    rc = p.wait(0.25)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                try:
                    m = os.stat(os.path.join(outdir, 'progress')).st_mtime
                except OSError:
                    m = t0
                if now - t0 > timeout or (last is not None and now - m > stuck):
                    status = 'hang'
                    kill(p)
                    rc = -1
                    break
                last = m
        text = open(errf, 'rb').read().decode('utf-8', 'replace')
        return status, rc, outdir, text

    def collect(self, outdir):
        fails = []
        for f in sorted(glob.glob(os.path.join(outdir, 'fail.*.jsonl'))):
            for line in open(f):
                try:
                    fails.append(json.loads(line))
                except ValueError:
                    pass
        out = None
        try:
            out = json.load(open(os.path.join(outdir, 'out.json')))
        except (OSError, ValueError):
            pass
        prog = None
        try:
            prog = json.load(open(os.path.join(outdir, 'progress')))
        except (OSError, ValueError):
            pass
        return out, fails, prog

    def run(self):
        try:
            self._run()
        except vbuild.BuildError as e:
            self.error = 'build failed: %s' % e
        except Exception as e:
            import traceback
            self.error = 'harness error: ' + traceback.format_exc()

    def _run(self):
        skip = []
        for attempt in range(3):
            status, rc, outdir, text = self.launch(dict(skip=skip) if skip else None)
            out, fails, prog = self.collect(outdir)
            if out is not None:
                self.result = out
                self.fails += fails
                return
            if fails:
                self.fails += fails
                if attempt == 0 or not self.result:
                    self.result = None
                return
            # died or hung without an explanation: look at the case it was in
            if prog is None:
                self.error = 'worker did not start (rc %s): %s' % (rc, text[-1500:])
                continue
            only = (prog['group'], prog['index'])
            what = 'hang' if status == 'hang' else 'crash'
            san = sanitizer_summary(text)
            for again in range(2):
                st2, rc2, od2, text2 = self.launch(dict(only=list(only)), timeout=100)
                out2, fails2, prog2 = self.collect(od2)
                if fails2:
                    self.fails += fails2
                    return
                if out2 is None and prog2 is not None:
                    what = 'hang' if st2 == 'hang' else 'crash'
                    san = sanitizer_summary(text2) or san
                    self.fails.append(dict(group=only[0], index=only[1], rank=-1,
                                           oracle='sanitizer' if san else what,
                                           msg=san or ('%s (rc %s) in this case; %s' % (what, rc2, text2[-1200:])),
                                           data=dict(spec=prog2.get('spec'))))
                    return
                if what == 'crash' and san:
                    # a sanitizer report is a fact even if it needs what came before
                    self.fails.append(dict(group=only[0], index=only[1], rank=-1, oracle='sanitizer',
                                           msg=san, data=dict(spec=prog.get('spec'))))
                    return
            self.error = 'job ended (%s, rc %s) in case %s which passes alone: %s' % (what, rc, only, text[-800:])
            if time.time() - T0 > HARD - 60:
                return
        return


def sanitizer_summary(text):
    m = re.search(r'(==\d+==ERROR: AddressSanitizer.*?)(\n\n|\Z)', text, re.S)
    if m:
        return m.group(1)[:1400]
    m = re.search(r'[^\n]*runtime error:.*', text)
    if m:
        return m.group(0)[:600] + '\n' + text[m.end():m.end() + 800]
    return None


def kill(p):
    for sig, wait in ((signal.SIGTERM, 5), (signal.SIGKILL, 5)):
        try:
            if sig == signal.SIGTERM:
                p.send_signal(sig)   # mpirun passes it on
            else:
                os.killpg(p.pid, sig)
        except OSError:
            pass
        try:
            p.wait(wait)
            return
        except subprocess.TimeoutExpired:
            pass


def run_jobs(jobs):
    """run jobs in parallel, at most CORES ranks at a time"""
    free = [CORES]
    cond = threading.Condition()
    threads = []

    def go(j):
        n = min(j.ranks, CORES)
        try:
            j.run()
        finally:
            with cond:
                free[0] += n
                cond.notify_all()
    for j in sorted(jobs, key=lambda j: (-j.spec.get('budget', 60), -j.ranks)):
        n = min(j.ranks, CORES)
        with cond:
            while free[0] < n:
                cond.wait()
            free[0] -= n
        t = threading.Thread(target=go, args=(j,))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('{'):
                continue
            k = json.loads(line)
            if k.get('property') == pid and k.get('status') == 'open':
                out.append(k)
    return out


def matches(k, f):
    return (k['group'] == f['group'] and k['oracle'] == f['oracle']
            and (k.get('index') is None or k['index'] == f['index']))


def check(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.md5(os.environ['VERIF_SEED'].encode()).hexdigest()[:7], 16)
    mod = importlib.import_module('checks.' + modname(pid))
    workroot = os.path.join(vbuild.cache_dir(), 'work')
    os.makedirs(workroot, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=workroot)
    try:
        return _check(pid, tier, seed, mod, work)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def _check(pid, tier, seed, mod, work):
    specs = mod.jobs(tier)
    try:
        for v in sorted(set('asan' if s.get('asan') else 'plain' for s in specs)):
            vbuild.build(v)
    except vbuild.BuildError as e:
        print('the tree does not build: %s' % e)
        return 3
    tb = time.time()
    jobs = [Job(pid, s, tier, seed, work) for s in specs]
    run_jobs(jobs)
    known = known_findings(pid)
    violations = []
    knownhit = {}
    errors = []
    agg = dict(evaluations=0, nontrivial=0, per_group={}, truncated=set())
    events, sigs, samples = {}, set(), []
    for j in jobs:
        if j.error and not j.fails:
            errors.append(j.error)
        for f in j.fails:
            hit = [k for k in known if matches(k, f)]
            if hit:
                knownhit[hit[0]['id']] = (hit[0], f)
            else:
                violations.append((j, f))
        if j.result:
            r = j.result
            agg['evaluations'] += r['stats']['evaluations']
            agg['nontrivial'] += r['stats']['nontrivial']
            for g, n in r['stats']['per_group'].items():
                key = '%s@%d%s' % (g, r['ranks'], 'a' if j.spec.get('asan') else '')
                agg['per_group'][key] = agg['per_group'].get(key, 0) + n
            agg['truncated'] |= set(r['stats']['truncated'])
            for a, b in r['events'].items():
                events[a] = events.get(a, 0) + b
            sigs |= set('%d|%s' % (r['ranks'], s) for s in r['sigs'])
            samples += r['samples'][:3]
        elif not j.fails:
            if not j.error:
                errors.append('a job gave no result')
    if hasattr(mod, 'finish') and not violations and not errors:
        # checks over the recorded results of several jobs (e.g. digests across ranks)
        for f in mod.finish([j.result for j in jobs if j.result]) or []:
            violations.append((jobs[0], f))
    for kid, (k, f) in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    missing = [k['id'] for k in known if k['id'] not in knownhit]
    if missing and not violations and not errors:
        print('note: listed findings that did not show in this run: %s' % ', '.join(missing))
    seen = {}
    for j, f in violations:
        key = (f['group'], f['oracle'])
        if key in seen:
            seen[key][2] += 1
            continue
        seen[key] = [j, f, 1]
    rdir = os.path.join(ROOT, 'replays', pid)
    for key, (j, f, n) in list(seen.items())[:8]:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, hashlib.md5(repr((key, f['index'], j.ranks, seed)).encode()).hexdigest()[:12] + '.json')
        with open(rp, 'w') as fh:
            json.dump(dict(property=pid, job=j.spec, tier=tier, seed=seed, group=f['group'], index=f['index'],
                           oracle=f['oracle'], msg=f['msg'], data=f.get('data')), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, ROOT)))
        print('   [%s #%s, %d ranks] %s: %s (%d times)' % (f['group'], f['index'], j.ranks, f['oracle'],
                                                          f['msg'].strip()[-700:], n))
    wall = time.time() - T0
    cov = dict(evaluations=agg['evaluations'], distinct_nontrivial=len(sigs),
               nontrivial_cases=agg['nontrivial'],
               rule=getattr(mod, 'RULE', ''), samples=samples[:10],
               cases_per_group=agg['per_group'], observed=events,
               jobs=[dict(ranks=j.ranks, asan=bool(j.spec.get('asan')),
                          evaluations=j.result['stats']['evaluations'] if j.result else 0,
                          wall_s=round(j.result['wall'], 1) if j.result else None) for j in jobs],
               cut_by_time=sorted(agg['truncated']), build_s=round(tb - T0, 1),
               known_findings_seen=sorted(knownhit))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
              violations=len(seen))
    edir = os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(edir, pid + '.json'))
    for e in errors[:5]:
        print('error: ' + e)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.0f s' % (
        pid, tier, seed, agg['evaluations'], len(sigs), len(seen), wall))
    if seen:
        return 1
    if errors:
        return 3
    minimum = getattr(mod, 'MINIMUM', 5)
    if agg['evaluations'] < minimum:
        print('only %d cases ran' % agg['evaluations'])
        return 3
    return 0


def replay(path):
    r = json.load(open(path))
    work = tempfile.mkdtemp(prefix='replay-')
    try:
        j = Job(r['property'], r['job'], r['tier'], r['seed'], work)
        status, rc, outdir, text = j.launch(dict(only=[r['group'], r['index']]), timeout=200)
        out, fails, prog = j.collect(outdir)
        for f in fails:
            print('rank %s %s: %s' % (f['rank'], f['oracle'], f['msg']))
            print(f['data'])
        if prog:
            print('spec:', prog['spec'])
        if fails or out is None:
            print(text[-2500:])
            print('VIOLATION property=%s replay=%s' % (r['property'], path))
            return 1
        print('not reproduced')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == 'setup':
        for v in ('plain', 'asan'):
            print(vbuild.build(v))
        return 0
    if a and a[0] == 'replay':
        return replay(a[1])
    return check(a[0])


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
