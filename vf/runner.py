"""Runs the jobs of a property, replays counterexamples against the real code, writes evidence."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
from . import build
from .build import Builder, BuildError, ROOT

LEVELS = {}


class Job(object):
    """one harness entry"""

    def __init__(self, harness, entry, flags=(), level=3, budget=60, opts=None, san=False, bounds='', thorough=False):
        self.harness, self.entry, self.flags, self.level = harness, entry, tuple(flags), level
        self.budget, self.opts, self.san, self.bounds = budget, dict(opts or {}), san, bounds
        self.kind = 'cc'

    @property
    def name(self):
        return '%s:%s%s' % (self.harness, self.entry, ''.join(' ' + f for f in self.flags))


class PyJob(Job):
    """one entry of a Python harness"""

    def __init__(self, *a, **k):
        Job.__init__(self, *a, **k)
        self.kind = 'py'


class CrossJob(Job):
    """a C++ entry, then a Python entry over what it exported"""

    def __init__(self, harness, entry, flags, pyh, pyentry, pyflags, **k):
        Job.__init__(self, harness, entry, flags, **k)
        self.kind = 'cross'
        self.py = (pyh, pyentry, tuple(pyflags))

    @property
    def name(self):
        return Job.name.fget(self) + ' x %s:%s%s' % (self.py[0], self.py[1], ''.join(' ' + f for f in self.py[2]))


class Pool(object):
    """at most n processes at a time, each with a hard time limit"""

    def __init__(self, n=8):
        self.n = n
        self.running = []
        self.queue = []
        self.results = {}

    def add(self, key, target, args, limit):
        self.queue.append((key, target, args, limit))

    def poll(self):
        for r in list(self.running):
            key, p, c, t, limit = r
            done = False
            if c.poll():
                try:
                    self.results[key] = c.recv()
                except EOFError:
                    self.results[key] = dict(error='worker died')
                done = True
            elif not p.is_alive():
                self.results[key] = dict(error='worker died (exit %s)' % p.exitcode)
                done = True
            elif time.time() - t > limit:
                p.kill()
                self.results[key] = dict(error='time limit %ds' % limit)
                done = True
            if done:
                p.join(1)
                if p.is_alive():
                    p.kill()
                c.close()
                self.running.remove(r)
        while self.queue and len(self.running) < self.n:
            key, target, args, limit = self.queue.pop(0)
            a, b = mp.Pipe(duplex=False)
            p = mp.Process(target=target, args=tuple(args) + (b,), daemon=True)
            p.start()
            b.close()
            self.running.append((key, p, a, time.time(), limit))

    def wait(self):
        while self.queue or self.running:
            self.poll()
            time.sleep(0.02)
        return self.results


def norm_label(l):
    return l.split(':')[0].strip() if l.startswith(('error', 'memory', 'ub', 'uninit', 'race')) else l


def replay(builder, job, fail, vals, tag, san=False):
    """(reproduced, output, command)"""
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', tag + '.txt')
    kind = fail['label'].split(':')[0] if fail['kind'] == 'problem' else ''
    san = 'thread' if kind == 'race' else san or job.san or kind in ('memory', 'ub')
    with open(path, 'w') as f:
        f.write('# harness %s entry %s flags %s level %d sanitizers %s\n' % (
            job.harness, job.entry, ' '.join(job.flags), job.level, san))
        f.write('# refuted: %s %s\n' % (fail['label'], fail.get('where', '')))
        for n, v in vals:
            f.write('%s %s\n' % (n, v))
    env = dict(os.environ)
    if job.kind == 'py':
        cmd = [sys.executable, '-W', 'ignore', '-m', 'vf.pyjob', job.harness, job.entry, path] + list(job.flags)
        env['PYTHONPATH'] = ROOT
        env['PYTHONDONTWRITEBYTECODE'] = '1'
    else:
        exe = builder.native(job.harness, job.flags, job.level, san)
        cmd = [exe, job.entry, path]
        if kind == 'uninit':
            cmd = ['valgrind', '-q', '--error-exitcode=99'] + cmd
    if kind == 'race':
        env['TSAN_OPTIONS'] = 'halt_on_error=1 exitcode=66 report_signal_unsafe=0'
    if fail['label'].startswith('guard:'):      # breaks something later on the path
        env['V_DEFAULT'] = '1'
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
        if job.kind == 'cross' and b'DONE' in p.stdout:
            ex = path + '.exports'
            with open(ex, 'wb') as g:
                g.write(p.stdout)
            env.update(PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE='1', V_EXPORTS=ex)
            env.setdefault('V_TOL', '5e-3')
            first = p.stdout
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vf.pyjob', job.py[0], job.py[1], path] + list(job.py[2]),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=env)
            if b'DONE fails' in first:
                p.stdout = first + p.stdout
            os.unlink(ex)
    except subprocess.TimeoutExpired:
        return True, 'replay does not terminate', path
    out = p.stdout.decode('utf8', 'replace')
    ok = False
    if fail['kind'] == 'problem':
        if kind == 'error':
            ok = 'FAIL error raised' in out or p.returncode < 0
        elif kind == 'race':
            ok = 'ThreadSanitizer: data race' in out
        elif kind in ('memory', 'ub'):
            ok = 'AddressSanitizer' in out or 'runtime error' in out or p.returncode < 0 or 'FAIL error raised' in out
        elif kind == 'uninit':
            ok = p.returncode == 99 or 'uninitialised' in out
        if re.search(r'^FAIL ', out, re.M):
            ok = True
    else:
        ok = re.search(r'^FAIL ' + re.escape(fail['label']) + ': ', out, re.M) is not None or \
            'FAIL error raised' in out or p.returncode < 0
        if fail['label'].startswith('guard:') and re.search(r'^FAIL ', out, re.M):
            ok = True
    with open(path, 'a') as f:
        for l in out.splitlines()[:40]:
            f.write('# replay: %s\n' % l)
        f.write('# reproduced: %s\n' % ok)
    return ok, out, path


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.jobs = []
        self.violations = []
        self.known = []
        self.spurious = []
        self.unproved = []
        self.errors = []
        self.funcs = set()
        self.queries = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, feasibility_queries=0,
                            normalised_first=0)
        self.obligations = self.discharged = self.paths = self.steps = self.validated = 0
        self.disagree = []
        self.assumptions = []
        self.bounds = []

    def add_stats(self, s):
        for k in self.queries:
            self.queries[k] += s.get(k, 0)

    def violation(self, label, where, path, out, job):
        for k in load_known():
            if k.get('status') != 'fixed' and k['property'] == self.prop and k['job'] == job and \
                    re.fullmatch(k['label'], label):
                if k['what'] not in self.known:
                    self.known.append(k['what'])
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                return
        self.violations.append(dict(job=job, label=label, where=where, replay=path))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  %s: %s %s' % (job, label, where))
        for l in out.splitlines()[:5]:
            print('  | ' + l)
        sys.stdout.flush()

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(
            explanation='bounded symbolic execution of the current source: every path within the bounds is executed '
                        'with symbolic inputs and each assertion on it is decided by z3 (unsat of its negation)',
            states=self.paths, transitions=self.steps,
            traces_validated_against_impl=self.validated, traces_disagreeing=self.disagree[:10],
            obligations=self.obligations, discharged=self.discharged,
            samples=[j['name'] for j in self.jobs[:6]],
            checker_cmd='python3-vt /verif/check.py ' + self.prop,
            trusted_base=['z3 %s' % _z3v(), 'clang++ 18 -O0 IR generation and opt (sroa, early-cse, simplifycfg)',
                          'the symbolic executor and normal form in /verif/vf', 'contracts listed under assumptions'],
            functions_encoded=sorted(f for f in self.funcs if 'distributions::' in f and not f.startswith('std::')), n_functions=len(self.funcs), bounds=self.bounds,
            queries=self.queries, unproved=self.unproved[:60], n_unproved=len(self.unproved),
            not_reproduced=self.spurious[:40], known_findings=self.known, jobs=self.jobs)
        level = 'model_checking'
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d unproved, %d violations, %d paths, %d functions, '
              'solver %.1fs, wall %.1fs' % (self.prop, self.obligations, self.discharged, len(self.unproved),
                                           len(self.violations), self.paths, len(self.funcs),
                                           self.queries['solver_s'], wall))
        print('  native replays of path witnesses: %d agree, %d disagree' % (self.validated, len(self.disagree)))
        for e in self.errors:
            print('ERROR ' + e)
        for u in self.unproved[:20]:
            print('  unproved: ' + u)
        for u in self.disagree[:5]:
            print('  disagree: ' + u)
        for u in self.spurious[:20]:
            print('  not reproduced: ' + u)
        if self.violations:
            return 1
        if self.errors:
            return 2
        return 0


def _z3v():
    import importlib.metadata
    try:
        return importlib.metadata.version('z3-solver')
    except Exception:
        return '?'


def work_dir(prop):
    return os.path.join(ROOT, '.work', '%s-%d' % (prop, os.getpid()))


def run_cc(rep, jobs, nproc=8):
    """symbolic jobs over C++ harnesses"""
    from . import job as jobmod, pyjob
    b = Builder(work_dir(rep.prop))
    try:
        irs = {}
        pool = Pool(nproc)
        units = {}
        for j in jobs:
            if j.kind == 'py':
                pool.add(j.name, pyjob.run, (j.harness, j.entry, j.flags, j.opts, j.budget, rep.seed), j.budget * 2 + 60)
                continue
            units.setdefault((j.harness, j.flags, j.level), []).append(j)
        # build all units (in parallel), then run
        from concurrent.futures import ThreadPoolExecutor
        ex = ThreadPoolExecutor(6)
        futs = {u: ex.submit(b.ir, u[0], u[1], u[2]) for u in units}
        pend = dict(futs)
        started = set()
        order = {}
        while pend or pool.queue or pool.running:
            for u, f in list(pend.items()):
                if f.done():
                    del pend[u]
                    try:
                        path = f.result()
                    except BuildError as e:
                        rep.errors.append('build of %s: %s' % (u[0], e))
                        continue
                    for j in units[u]:
                        if j.kind == 'cross':
                            pool.add(j.name, pyjob.run_cross, (path, j.entry, j.opts) + j.py + (j.budget, rep.seed),
                                     j.budget * 2 + 60)
                            continue
                        pool.add(j.name, jobmod.run, (path, j.entry, j.opts, j.budget, rep.seed), j.budget * 2 + 60)
            pool.poll()
            time.sleep(0.02)
        ex.shutdown()
        t_sym = time.time()
        todo = []
        for j in jobs:
            r = pool.results.get(j.name)
            if r is None:
                continue
            collect(rep, j, r, todo)
        witness(rep, b, jobs, pool.results)
        settle(rep, b, todo)
    finally:
        b.close()
        shutil.rmtree(b.work, ignore_errors=True)


def collect(rep, j, r, todo):
    if r.get('error'):
        rep.unproved.append('%s: %s' % (j.name, r['error'][-1500:]))
        rep.jobs.append(dict(name=j.name, bounds=j.bounds, error=r['error'][-300:]))
        return
    rep.obligations += r['obligations']
    rep.discharged += r['discharged']
    rep.paths += sum(r['paths'].values())
    rep.steps += r['steps']
    rep.funcs.update(r['funcs'])
    rep.add_stats(r['stats'])
    if j.bounds and j.bounds not in rep.bounds:
        rep.bounds.append(j.bounds)
    rep.jobs.append(dict(name=j.name, paths=r['paths'], obligations=r['obligations'], discharged=r['discharged'],
                         reached=r['reach'], incomplete=r['incomplete'][:4], solver=r['stats'],
                         seconds=r['total_s'], bounds=j.bounds))
    if r['obligations'] == 0 and r['paths']['error'] == 0 and not r['fails']:
        rep.unproved.append('%s: vacuous (no obligation reached)' % j.name)
    for x in r['incomplete'][:3]:
        rep.unproved.append('%s: incomplete: %s' % (j.name, x))
    todo.extend((j, f) for f in r['fails'])


def witness(rep, b, jobs, results):
    """concrete inputs of symbolically executed paths, run through the real build"""
    from concurrent.futures import ThreadPoolExecutor

    def one(a):
        n, j, w = a
        tag = '%s-w%d' % (rep.prop, n)
        f = dict(label='', kind='witness')
        try:
            return j, replay(b, j, f, w, tag)
        except BuildError as e:
            return j, (False, 'build: %s' % e, None)
    todo = []
    for j in jobs:
        r = results.get(j.name) or {}
        if r.get('fails') or r.get('error'):
            continue
        for w in r.get('witnesses', []):
            todo.append((len(todo), j, w))
    for u in sorted({(j.harness, j.flags, j.level, j.san) for _, j, _ in todo if j.kind != 'py'}, key=str):
        b.prepare(*u)
    with ThreadPoolExecutor(8) as ex:
        for j, (ok, out, path) in ex.map(one, todo):
            if path and os.path.exists(path):
                os.unlink(path)
            if 'DONE ok' in out:
                rep.validated += 1
            elif out.strip() != 'ASSUME':
                rep.disagree.append('%s: %s' % (j.name, out.strip()[:200]))


def settle(rep, b, todo):
    """replay the solver's counterexamples; only reproduced ones are violations"""
    done = {}
    n = 0
    for j, f in todo:
        key = (j.name, f['label'])
        if done.get(key):
            continue
        hit = False
        for s, vals, info in f['cands']:
            n += 1
            if n > 150:
                break
            tag = '%s-%s-%s-%d' % (rep.prop, re.sub(r'\W+', '_', j.entry), re.sub(r'\W+', '_', f['label'])[:40], n)
            try:
                ok, out, path = replay(b, j, f, vals, tag)
                if not ok and f['kind'] != 'problem' and j.kind != 'py':
                    # the optimiser may have folded the failing expression away: try the plain build
                    ok, out, path = replay(b, j, f, vals, tag, True)
            except BuildError as e:
                rep.errors.append('replay build: %s' % e)
                break
            if ok:
                hit = True
                rep.violation(f['label'], f.get('where', ''), path, out, j.name)
                break
            else:
                os.unlink(path)
        done[key] = hit
        if not hit:
            w = '%s: %s [%s] %s %s' % (j.name, f['label'], f['status'], f.get('where', ''),
                                       f['cands'][0][2] if f['cands'] else '')
            (rep.spurious if f['status'] == 'refuted' and f['cands'] else rep.unproved).append(w)
