"""mutate.py FILE N [SEED]: small random changes to one file of /repo, and which checks see them (nothing is written to /repo).
Prints one line per change: killed by PROPERTY / nobuild / SURVIVED, with the change."""
import os
import random
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
MODELS = ('bb', 'bnb', 'dd', 'dpd', 'gp', 'nich', 'niw')
CXX = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C23', 'C16', 'C20', 'C22']


def plan(f):
    b = os.path.basename(f).split('.')[0]
    if f.startswith(('include/distributions/models/', 'src/models/')):
        ps = CXX + (['C07'] if b in ('bb', 'dd', 'dpd') else []) + (['C15'] if b == 'dpd' else []) + ['C26']
        m = 'MODEL=%s' % b.upper()
        return [(p, 'dpd.cc' if p == 'C15' else m) for p in ps]
    if '/models/' in f and f.endswith(('.py', '.pyx')):
        fl = f.split('/')[1]
        if fl == 'lp':
            return [('C25', 'model=' + b.strip('_')), ('C16', 'flavour=lp'), ('C15', 'flavour=lp')]
        a = 'model=%s&flavour=%s' % (b, fl)
        ps = ['C01', 'C02', 'C03', 'C04', 'C23', 'C16', 'C20', 'C22'] + (['C07'] if b in ('bb', 'dd', 'dpd') else []) + (['C15'] if b == 'dpd' else [])
        return [(p, 'pymisc' if p == 'C15' else a) for p in ps]
    return {
        'include/distributions/clustering.hpp': [('C08', ''), ('C09', ''), ('C24', ''), ('C07', 'clustering'), ('C16', 'clustering'), ('C21', '')],
        'src/clustering.cc': [('C08', ''), ('C24', ''), ('C21', ''), ('C09', ''), ('C22', 'clustering')],
        'include/distributions/mixture.hpp': [('C09', ''), ('C10', ''), ('C06', 'MODEL=GP|MODEL=DD'), ('C05', 'MODEL=GP|MODEL=DD|MODEL=DPD')],
        'include/distributions/random.hpp': [('C11', ''), ('C12', ''), ('C13', ''), ('C23', ''), ('C17', ''), ('C22', ''), ('C21', '')],
        'src/random.cc': [('C11', ''), ('C12', ''), ('C13', ''), ('C22', 'random')],
        'include/distributions/sparse.hpp': [('C14', ''), ('C15', 'dpd.cc')],
        'include/distributions/special.hpp': [('C17', ''), ('C18', '')],
        'src/special.cc': [('C17', ''), ('C18', ''), ('C26', 'stirling')],
        'src/vector_math.cc': [('C19', '')],
        'include/distributions/vector_math.hpp': [('C19', '')],
        'include/distributions/vector.hpp': [('C05', 'MODEL=GP'), ('C09', ''), ('C19', '')],
        'distributions/dbg/random.py': [('C11', 'py'), ('C12', 'py'), ('C23', 'py'), ('C13', 'py'), ('C20', 'py'), ('C21', 'py')],
        'distributions/dbg/clustering.py': [('C24', ''), ('C20', 'le_'), ('C21', 'py'), ('C16', 'clustering'), ('C22', 'py')],
        'distributions/dbg/special.py': [('C20', 'dbg'), ('C04', 'dbg')],
        'distributions/util.py': [('C11', 'py'), ('C12', 'py'), ('C20', ''), ('C21', 'py')],
        'distributions/mixins.py': [('C16', ''), ('C22', 'py'), ('C01', 'py')],
    }.get(f) or [('C25', '')]


TOKENS = [(r'(?<![\w+])\+(?![+=])', '-'), (r'(?<![\w(\-e,=])\s-\s', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r'\+=', '-='), (r'(?<!-)-=', '+='),
          (r'(?<![<\w])<(?![<=\w:])', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=\w])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
          (r'\bnot ', ''), (r'\band\b', 'or'), (r'\bor\b', 'and'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
          (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\b0\.5f?\b', '0.25'), (r'\b1\.f\b', '2.f'), (r'\b1\.?\b(?!\.\d)', '2'), (r'\b0\b(?!\.)', '1'),
          (r'\b2\.?f?\b(?!\.)', '3'), (r'\balpha\b', 'beta'), (r'\bbeta\b', 'alpha'), (r'\bheads\b', 'tails'), (r'\btails\b', 'heads'),
          (r'\bkappa\b', 'nu'), (r'\bnu\b', 'kappa'), (r'\bmean\b', 'mu'), (r'\bsource\.', 'this->'), (r'\bgroupid\b', '0'),
          (r'\bcount\b', 'sum'), (r'\bsum\b', 'count'), (r'\+\+', '--'), (r'\bsize\b', '(size - 1)'), (r'\bfast_log\b', 'fast_lgamma'),
          (r'\bcontinue\b', 'break'), (r'\.back\(\)', '.front()'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'\bself\.', 'shared.'),
          (r'\bshared\.', 'self.')]


def candidates(text, py):
    out = []
    skip = False
    for n, l in enumerate(text):
        s = l.strip()
        if py and s.count('"""') == 1:
            skip = not skip
        if skip or n < 28 or not s or s.startswith(('//', '#', '*', '/*', '"""', 'import', 'from', 'include', 'typedef', 'using', 'template', 'cdef extern')):
            continue
        if re.match(r'(const|static|inline|struct|class|def|cdef|float|int|size_t|void|bool|namespace)\b.*[({:]$', s) and '=' not in s:
            continue
        if 'ASSERT' in s or 'assert' in s:
            continue
        code = re.split(r'//|#', l)[0]
        for rx, to in TOKENS:
            for m in re.finditer(rx, code):
                new = l[:m.start()] + to + l[m.end():]
                if new != l:
                    out.append((n, new))
        if s.endswith(';') and re.match(r'[\w.\[\]>\-()]+(\s*[-+*]?=|\(|\+\+)', s) and not s.startswith(('return', 'const', 'float ', 'auto ', 'size_t ')):
            out.append((n, '\n'))
        elif py and re.match(r'(self\.|shared\.)[\w.\[\]]+ *[-+]?= ', s):
            out.append((n, l[:len(l) - len(l.lstrip())] + 'pass\n'))
    return out


def main():
    os.nice(19)
    f, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
    text = open(os.path.join(REPO, f)).readlines()
    cs = candidates(text, f.endswith(('.py', '.pyx')))
    random.Random(seed).shuffle(cs)
    S, W = '/tmp/mut/src-%d' % os.getpid(), '/tmp/mut/v-%d' % os.getpid()
    for d in (S, W):
        os.makedirs(d)
    subprocess.check_call('cd %s && git ls-files -z | xargs -0 cp --parents -t %s' % (REPO, S), shell=True)
    subprocess.check_call('cp -a check.py vf harness properties.jsonl tools known_findings.json %s/' % W, shell=True, cwd=V)
    done = 0
    for ln, new in cs:
        if done >= n:
            break
        t = list(text)
        t[ln] = new
        open(os.path.join(S, f), 'w').writelines(t)
        verdict = 'SURVIVED'
        for p, flt in plan(f):
            r = subprocess.run(['timeout', '800', 'python3-vt', 'tools/mutcheck.py', p] + ([flt] if flt else []), cwd=W, env=dict(os.environ, VF_REPO=S),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode('utf8', 'replace')
            if r.returncode == 1:
                verdict = 'killed by ' + p
                break
            if r.returncode not in (0,):
                verdict = 'nobuild' if 'error:' in o or 'rror' in o else 'rc %d' % r.returncode
                break
            u = re.search(r'(\d+) unproved', o)
            if u and u.group(1) != '0':
                verdict = 'SURVIVED (unproved in %s)' % p
        if verdict != 'nobuild':
            done += 1
        print('%-32s %s:%d: %s  =>  %s' % (verdict, f, ln + 1, text[ln].strip(), new.strip()), flush=True)
    shutil.rmtree(S)
    shutil.rmtree(W)


if __name__ == '__main__':
    main()
