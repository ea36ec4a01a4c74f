#!/usr/bin/env python3
"""mutation.py gen N SEED OUT.jsonl | test IN OUT | check IN OUT [CHECK...]

Measures the checks: small automatic edits of /repo's sources (gen), those that still compile and pass the repository's
stable tests (test), and which checks report each of them (check, stops at the first). Works in copies under /tmp."""
import json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import glob, threading
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-std=c++14', '-w', '-include', 'cstring', '-D__error_t_defined=1', '-fno-delete-null-pointer-checks', '-O0']
OPS = [(r'(?<![<>=!\-])<(?![<=])(?=\s)', ['<=', '>']), (r'<=', ['<']), (r'(?<![\->])>(?![>=])(?<=\s.)', ['>=']), (r'(?<!>)>=', ['>']),
       (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'(?<=[\w\)] )\+ 1\b', ['', '+ 2']), (r'(?<=[\w\)] )- 1\b', ['', '- 2']), (r'(?<=[\w\)]) \+ ', [' - ']), (r'(?<=[\w\)]) - ', [' + ']),
       (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b[2-9]\b', ['1']), (r'\b\d\d+\b', ['7']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'!(?=[\w\(])', ['']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']), (r'\+\+', ['--']), (r' \+= ', [' = ', ' -= ']), (r' -= ', [' += ']),
       (r'\bif \((.+)\) \{', ['if (true) {', 'if (false) {']), (r'\bif \(([^&|]+) && ([^&|]+)\) \{', [r'if (\1) {', r'if (\2) {']),
       (r'\((\w+), (\w+)\)', [r'(\2, \1)']), (r'\bnullptr\b', []), (r'^(\s*)([\w\.\->\[\]\(\):\*&]+\(.*\);)$', [r'\1;']),
       (r'^(\s*)([\w\.\->\[\]_\*\(\)]+ [\+\-\*/|&]?= .*;)$', [r'\1;']), (r'(\w+)_t::\w+', []), (r'^(\s*)return (.+);$', []), (r' \* ', [' + ']), (r' / ', [' * ']),
       (r' % ', [' / ']), (r'\.front\(\)', ['.back()']), (r'\.back\(\)', ['.front()']), (r'\bpush_front\b', ['push_back']), (r'\bpush_back\b', ['push_front']),
       (r'\bint32_t\b', ['int16_t']), (r'\bfloat\b', ['int32_t']), (r'\bsize_t\b', ['uint8_t']), (r'\buint32_t\b', ['uint8_t']), (r'\.clear\(\)', ['.size()'])]


def gen(n, seed, out):
    r = random.Random(seed)
    files = [f for f in glob.glob(R + '/source/*/*.cpp') + glob.glob(R + '/source/*/*.h') if 'sdl' not in f]
    all_ = []
    for f in sorted(files):
        comment = False
        for i, l in enumerate(open(f, encoding='latin1').read().split('\n')):
            s = l.strip()
            if s.startswith(('//', '#', '*', '/*')) or 'assert(' in l or 'fprintf' in l or 'VERIF' in l:
                continue
            code = l.split('//')[0].rstrip()
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for rep in reps:
                        new = code[:m.start()] + m.expand(rep) + code[m.end():]
                        if new != code:
                            all_.append((os.path.relpath(f, R), i, l, new))
    r.shuffle(all_)
    seen = set()
    k = 0
    with open(out, 'w') as o:
        for x in all_:
            if x in seen:
                continue
            seen.add(x)
            o.write(json.dumps(dict(file=x[0], line=x[1], old=x[2], new=x[3])) + '\n')
            k += 1
            if k >= n:
                break
    print(len(all_), 'possible,', k, 'written')


def apply(w, m):
    p = os.path.join(w, m['file'])
    t = open(p, encoding='latin1').read().split('\n')
    assert t[m['line']] == m['old'], m
    t[m['line']] = m['new']
    open(p, 'w', encoding='latin1').write('\n'.join(t))


def undo(w, m):
    shutil.copy(os.path.join(R, m['file']), os.path.join(w, m['file']))


def objects(w, files, od):
    inc = ['-I' + w + '/source'] + ['-I' + d for d in glob.glob(w + '/source/lib_*')]
    for f in files:
        o = os.path.join(od, f.replace('/', '_') + '.o')
        c = subprocess.run(['g++'] + FLAGS + inc + ['-c', os.path.join(w, f), '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if c.returncode:
            return False
    return True


def link(w, od, to):
    os.makedirs(to, exist_ok=True)
    lib = [o for o in glob.glob(od + '/*.o') if '_lib_' in o]
    for t, d in (('nano_driver', 'driver'), ('nano_comp', 'comp')):
        c = subprocess.run(['g++'] + [o for o in glob.glob(od + '/source_%s_*.o' % d)] + lib + ['-o', to + '/' + t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if c.returncode:
            return False
    return True


def test(inp, out):
    ms = [json.loads(l) for l in open(inp)]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    runner = open('/opt/vp/run_tests.py').read()
    base = tempfile.mkdtemp(prefix='mut')
    cpps = [os.path.relpath(f, R) for f in glob.glob(R + '/source/*/*.cpp') if 'sdl' not in f]
    loc = threading.local()
    n = [0]

    def ws():
        if not hasattr(loc, 'w'):
            n[0] += 1
            loc.w = base + '/w%d' % n[0]
            os.makedirs(loc.w)
            shutil.copytree(R + '/source', loc.w + '/source')
            os.symlink(R + '/tests', loc.w + '/tests')
            shutil.copytree(base + '/od', loc.w + '/od')
            open(loc.w + '/rt.py', 'w').write(runner.replace('/repo/tests', loc.w + '/tests').replace('/repo/_build', loc.w + '/b').replace('os.cpu_count() or 4', '4').replace('TIMEOUT = 5', 'TIMEOUT = 2').replace('__file__', '"rt.py"'))
        return loc.w

    os.makedirs(base + '/od')
    with ThreadPoolExecutor(8) as ex:
        assert all(ex.map(lambda f: objects(R, [f], base + '/od'), cpps))

    def passed(w):
        shutil.rmtree(w + '/t', ignore_errors=True)
        os.makedirs(w + '/t')
        subprocess.run(['timeout', '-k', '1', '60', 'python3', '-B', w + '/rt.py', w + '/t/results.txt'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            return {l.split(None, 1)[1].strip() for l in open(w + '/t/results.txt') if l.startswith('PASS')}
        except OSError:
            return set()

    def one(m):
        if m is None:
            w = ws()
            assert link(w, w + '/od', w + '/b')
            return stable <= passed(w)
        w = ws()
        try:
            apply(w, m)
            if m['file'].endswith('.cpp'):
                fs = [m['file']]
            else:
                fs = cpps
            if not objects(w, fs, w + '/od'):
                return 'compile'
            link(w, w + '/od', w + '/b')
            return 'survives' if stable <= passed(w) else 'tests'
        finally:
            undo(w, m)
            if m['file'].endswith('.cpp'):
                o = m['file'].replace('/', '_') + '.o'
                shutil.copy(base + '/od/' + o, w + '/od/' + o)
            else:
                shutil.rmtree(w + '/od')
                shutil.copytree(base + '/od', w + '/od')

    count = {}
    with ThreadPoolExecutor(8) as ex:
        print('baseline', ex.submit(one, None).result(), sorted(stable)[:3], flush=True)
        with open(out, 'w') as o:
            for m, res in zip(ms, ex.map(one, ms)):
                count[res] = count.get(res, 0) + 1
                if res == 'survives':
                    o.write(json.dumps(m) + '\n')
                    o.flush()
    shutil.rmtree(base)
    print(count)


RELEVANT = [('lib_vm/thread', 'C10 C02 C03 C01 C17 C08 C15 C09 C20'), ('lib_vm/vm_gc', 'C06 C04 C07 C20'), ('lib_vm/vm.', 'C09 C17 C10 C20 C03'), ('lib_vm/value', 'C03 C10 C01 C04 C17'),
            ('lib_builtins', 'C16 C09 C17 C10'), ('optimize', 'C05 C19 C02 C12'), ('sema', 'C12 C02 C05 C11 C19'), ('lib_compiler/ast', 'C19 C20 C05 C02'), ('lexer', 'C12 C21 C11'), ('parser', 'C12 C21 C11'),
            ('token', 'C12 C11 C19 C21'), ('errors', 'C12 C11 C20'), ('codegen', 'C02 C19 C15 C05'), ('disasm', 'C19 C22'), ('nano', 'C20 C12 C17'), ('lib_common/program', 'C13 C14 C15 C20'), ('program_builder', 'C19 C20 C02'),
            ('source', 'C18 C15 C11'), ('file.h', 'C18 C20 C22'), ('driver', 'C22'), ('arith', 'C01 C05'), ('types.h', 'C15 C13')]


def check(inp, out, checks):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        done = {json.dumps({k: d[k] for k in ('file', 'line', 'new')}) for d in map(json.loads, open(out))}
    w = tempfile.mkdtemp(prefix='mutc')
    try:
        subprocess.check_call('mkdir -p %s/v && cd %s && cp -a run.py checks lib harness known-findings.json MANIFEST.json properties.jsonl tools %s/v/' % (w, V, w), shell=True)
        subprocess.check_call(['cp', '-a', R, w + '/r'])
        env = dict(os.environ, VERIF_REPO=w + '/r', VERIF_SEED='1', VERIF_TIER='quick')
        for m in ms:
            if json.dumps({k: m[k] for k in ('file', 'line', 'new')}) in done:
                continue
            apply(w + '/r', m)
            m['caught'], m['other'] = [], []
            for c in checks or [x for k, v in RELEVANT if k in m['file'] for x in v.split()][:9]:
                try:
                    r = subprocess.run(['python3', 'run.py', c], cwd=w + '/v', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1:
                    m['caught'].append(c)
                    if not os.environ.get('ALL'):
                        break
                elif rc:
                    m['other'].append((c, rc))
            undo(w + '/r', m)
            with open(out, 'a') as o:
                o.write(json.dumps(m) + '\n')
            print('%-10s' % (','.join(m['caught']) or 'MISSED'), m['other'] or '', '%s:%d' % (m['file'], m['line'] + 1), '|', m['old'].strip(), '=>', m['new'].strip(), flush=True)
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'gen':
        gen(int(a[1]), int(a[2]), a[3])
    elif a[0] == 'test':
        test(a[1], a[2])
    else:
        check(a[1], a[2], (['C%02d' % i for i in range(1, 23)] if a[3:] == ['all'] else a[3:]))
