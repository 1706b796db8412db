"""Compiles /repo's current sources together with a harness: to LLVM IR for the symbolic run,
and natively for replaying counterexamples."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(ROOT, 'harness')
LLVM = '/usr/lib/llvm-18/bin/'
COMMON = ['-std=c++11', '-I' + HARN, '-I' + os.path.join(REPO, 'include'), '-DDIST_THROW_ON_ERROR', '-w']
SYM = ['clang++'] + COMMON + ['-DVSYM', '-include', os.path.join(HARN, 'vsup.h'), '-ffp-contract=off',
                              '-fno-math-errno', '-Xclang', '-disable-O0-optnone', '-O0', '-S', '-emit-llvm']
PASSES = ('internalize,globaldce,function(sroa,early-cse,simplifycfg),'
          'function(mem2reg),globaldce')


class BuildError(Exception):
    pass


def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-4000:]))
    return p.stdout


def lib_sources():
    s = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cc', recursive=True)):
        b = os.path.basename(f)
        if b.startswith('test_') or '/io/' in f or b == 'niw.cc':
            continue
        s.append(f)
    return s


class Builder(object):
    def __init__(self, work, jobs=8):
        self.work = work
        os.makedirs(work, exist_ok=True)
        self.ex = ThreadPoolExecutor(jobs)
        self.futs = {}
        self.lock = threading.Lock()
        self.locks = {}

    def once(self, key, f):
        with self.lock:
            if key not in self.futs:
                self.futs[key] = self.ex.submit(f)
            return self.futs[key]

    def obj(self, src, flags, tag, base):
        out = os.path.join(self.work, '%s-%s.%s' % (
            os.path.basename(src), hashlib.md5((src + ' '.join(flags) + tag).encode()).hexdigest()[:8],
            'll' if tag == 'sym' else 'o'))

        def f():
            run(base + list(flags) + [src, '-o', out])
            return out
        return self.once(out, f)

    def entries(self, harness):
        return re.findall(r'^ENTRY\((\w+)\)', open(harness).read(), re.M)

    def ir(self, harness, flags=(), level=3):
        """linked, reduced textual IR of the harness and the library"""
        harness = os.path.join(HARN, harness)
        flags = list(flags) + ['-DDIST_DEBUG_LEVEL=%d' % level]
        objs = [self.obj(s, flags if s == harness else flags[-1:], 'sym', SYM)
                for s in [harness, os.path.join(HARN, 'vsup.cc')] + lib_sources()]
        tag = hashlib.md5((harness + ' '.join(flags)).encode()).hexdigest()[:8]
        out = os.path.join(self.work, 'l-%s.ll' % tag)
        files = [o.result() for o in objs]
        ents = ['check_' + e for e in self.entries(harness)]

        def f():
            bc = out[:-3] + '.bc'
            run([LLVM + 'llvm-link'] + files + ['-o', bc])
            api = ','.join(ents)
            run([LLVM + 'opt', '-S', '-passes=' + PASSES, '-internalize-public-api-list=' + api, bc, '-o', out])
            os.unlink(bc)
            return out
        # (runs in the calling thread: the pool may be waiting on us)
        if not os.path.exists(out):
            f()
        return out

    def native_objs(self, harness, flags, level, san):
        hfile = os.path.join(HARN, harness)
        flags = list(flags) + ['-DDIST_DEBUG_LEVEL=%d' % level]
        opt = (['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,float-divide-by-zero,float-cast-overflow',
                '-fno-sanitize-recover=all', '-mfpmath=sse', '-msse4.1'] if san else
               ['-O3', '-msse4.1', '-ffast-math', '-funsafe-math-optimizations', '-mfpmath=sse'])
        if san == 'thread':
            opt = ['-O1', '-g', '-fsanitize=thread', '-mfpmath=sse', '-msse4.1']
        base = ['g++'] + COMMON + opt + ['-c']
        tag = san if san == 'thread' else 'san' if san else 'nat'
        tab = os.path.join(self.work, 'tab-%s.cc' % os.path.basename(harness))
        ents = self.entries(hfile)
        text = ('typedef void (*fn_t)(); struct Ent { const char * n; fn_t f; };\n' +
                ''.join('extern "C" __attribute__((weak)) void check_%s();\n' % e for e in ents) +
                'extern Ent v_entries[]; Ent v_entries[] = {%s {0, 0}};\n' % ''.join(
                    '{"%s", check_%s}, ' % (e, e) for e in ents))
        with self.lock:
            if not os.path.exists(tab):
                with open(tab, 'w') as f:
                    f.write(text)
        inc = ['-include', os.path.join(HARN, 'vsup.h')]
        sup = os.path.join(HARN, 'vsup.cc')
        bare = ['g++'] + COMMON + ['-O1', '-c']
        objs = [self.obj(s, (flags if s == hfile else flags[-1:]) + inc, tag, bare if san == 'thread' and s == sup else base)
                for s in [hfile, sup] + lib_sources()]
        plain = ['g++', '-std=c++11', '-O1', '-w', '-c']
        objs += [self.obj(s, [], tag, plain) for s in [os.path.join(HARN, 'vnative.cc'), tab]]
        out = os.path.join(self.work, 'n-%s-%s' % (
            tag, hashlib.md5((harness + ' '.join(flags)).encode()).hexdigest()[:8]))
        return objs, out

    def prepare(self, harness, flags=(), level=3, san=False):
        """start compiling, do not wait"""
        self.native_objs(harness, flags, level, san)

    def native(self, harness, flags=(), level=3, san=False):
        objs, out = self.native_objs(harness, flags, level, san)
        files = [o.result() for o in objs]
        with self.lock:
            l = self.locks.setdefault(out, threading.Lock())
        with l:
            if not os.path.exists(out):
                run(['g++'] + files + (['-fsanitize=thread'] if san == 'thread' else ['-fsanitize=address,undefined'] if san else []) +
                    ['-lpthread', '-o', out])
        return out

    def close(self):
        self.ex.shutdown(wait=False)
