"""C11 the compiler survives any input"""
import os, re, subprocess, resource
import gen, kit, mutate, lang
import build as B
from engine import Violation
from probe import src_cmd, ENV

LEVEL = 'exploration'
RULE = ('Texts: random bytes, token soup, damaged sample programs and damaged random programs, every truncation of sample programs, huge tokens, long lines, '
        'deep nesting (up to 2000), many declarations, files with arbitrary bytes, and coverage guided mutation (libFuzzer). Compiled under address and undefined '
        'behaviour sanitizers with and without optimisation; each answer must be accept, or reject with a message and a line inside the text, twice the same, and '
        'afterwards a good program must still compile and run in the same process. Non-trivial: distinct (text, answer).')
CHUNK = 2
BUILDS = [('asan', 'probe'), ('fuzz', 'fuzz')]
GOOD = 'function main(a)\n  var x = [a, "k"]\n  return x[0] + 1\nend\n'


def cases(ctx):
    n = 2 if ctx.quick else 20
    out = [('fuzz', k) for k in range(8)]
    out += [('deep', k, d) for k in range(len(DEEP)) for d in (50, 400, 2000)]
    out += [('deepest', DEEP[k][0]) for k in range(len(DEEP)) if DEEP[k][0] in ('paren', 'array', 'if', 'minus', 'indexes', 'chain')]
    out += [('long', k) for k in range(len(LONG))]
    out += [('bytes', k) for k in range(60 * n)]
    out += [('soup', k) for k in range(160 * n)]
    out += [('corpus', k) for k in range(500 * n)]
    out += [('gen', k) for k in range(160 * n)]
    out += [('prefix', k) for k in range(160 * (1 if ctx.quick else 3))]
    out += [('ending', k) for k in range(6)]
    out += [('file', k) for k in range(60 * n)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def check(ctx, texts, opt=None, **kw):
    """texts: list of latin1 strings"""
    r = ctx.rng('opt')
    s = []
    opts = []
    for i, t in enumerate(texts):
        t = t.replace('\0', '\x01') or ' '
        texts[i] = t
        o = r.randrange(2) if opt is None else opt
        opts.append(o)
        s.append(b'say #%d\nprog 1\ncomp 1 1 %d bh\n' % (i, o) + src_cmd(1, t) + b'build 1 1\n')
        if r.random() < 0.3:
            s.append(b'prog 2\ncomp 2 2 %d bh\nbuild 2 1\n' % o)
            s.append(b'cfree 2\npfree 2\n')
        s.append(b'cfree 1\npfree 1\n')
        if r.random() < 0.25:
            s.append(b'say #good\nprog 3\ncomp 3 3 %d bh\n' % o + src_cmd(3, GOOD) + b'build 3 3\nbind 3 bh\nvm 3 3\ncall 3 main i%d\n' % i)
            s.append(b'vfree 3\ncfree 3\npfree 3\nsrcfree 3\n')
        s.append(b'srcfree 1\n')
    lines = ctx.run(b''.join(s), **kw)
    cur = None
    ans = {}
    good = False
    for l in lines:
        if l.startswith('say #') or l.startswith('#'):
            x = l.split('#')[1]
            good = x == 'good'
            if not good:
                cur = int(x)
            continue
        if l.startswith('build '):
            if good:
                if l != 'build ok':
                    ctx.fail('a good program is rejected after other builds', line=l, text=texts[cur][:2000])
                continue
            t = texts[cur]
            if cur in ans and ans[cur] != l:
                ctx.fail('different answer when built again', first=ans[cur], second=l, text=t[:4000])
            ans[cur] = l
            ctx.evals += 1
            verdict(ctx, t, l)
            ctx.seen(t[:400], len(t), l)
        elif good and l.startswith('call '):
            ctx.count['good'] += 1
            if 'i%d' % (cur + 1) not in l:
                ctx.fail('a good program misbehaves after other builds', line=l, text=texts[cur][:2000])
    if len(ans) != len(texts):
        ctx.fail('missing answers', got=lines[-5:])
    ctx.sample(texts[0][:300])


def verdict(ctx, t, l):
    if l == 'build ok':
        ctx.count['accepted'] += 1
        return
    m = re.match(r'build err (-?\d+):(-?\d+) ([0-9a-f]*)$', l)
    if not m:
        ctx.fail('odd answer', line=l)
    ctx.count['rejected'] += 1
    f, n, msg = int(m.group(1)), int(m.group(2)), bytes.fromhex(m.group(3))
    if not msg:
        ctx.fail('rejected without a message', text=t[:4000], line=l)
    if f != 0 or not 1 <= n <= t.count('\n') + 1:
        ctx.fail('position outside of the source', text=t[:4000], line=l, message=msg.decode('latin1'))
    ctx.count['message ' + re.sub(r"'.*?'|\d+", '', msg.decode('latin1'))[:40].strip()] += 1


def do_bytes(ctx, k):
    r = ctx.rng()
    T = []
    for _ in range(20):
        n = r.choice([1, 1, 2, 3, 5, 10, 50, 300])
        a = r.choice([bytes(range(1, 256)), b'\n"#\\ \t\r().=+-x1', b'abcdefghijklmnopqrstuvwxyz_ \n', b'0123456789.-+ \n,', b'[]()".,\n 1a'])
        T.append(bytes(r.choice(a) for _ in range(n)).decode('latin1'))
    check(ctx, T)


def do_soup(ctx, k):
    r = ctx.rng()
    T = []
    for _ in range(20):
        n = r.choice([2, 4, 8, 20, 60])
        t = r.choice(['', '', 'function main()\n', 'var x\nfunction main(a)\n  ', 'var x = ', 'const x = ', 'function f(', 'import ', 'function main()\n if (1)\n', 'function main()\n var i\n for ('])
        t += ''.join(r.choice(mutate.TOKENS) + r.choice(['', ' ', ' ', '\n']) for _ in range(n))
        if r.random() < 0.3:
            t += '\nend\n'
        T.append(t)
    check(ctx, T)


def do_corpus(ctx, k):
    r = ctx.rng()
    C = mutate.corpus()
    T = []
    for _ in range(20):
        t = r.choice(C)
        if len(t) > 1500 and r.random() < 0.8:
            t = r.choice(C)
        T.append(mutate.mutate(r, t, extra=ctx.mined_strings))
    check(ctx, T)


def do_gen(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=0.1, nest=r.choice([1, 2, 3]), stmts=r.choice([2, 4]), depth=r.choice([2, 3]), funcs=r.choice([1, 2, 3]), globals=3, ints=gen.INTS + ctx.mined)
    g, decls, src = kit.random_program(ctx, r, cfg)
    check(ctx, [mutate.mutate(r, src) for _ in range(12)])


def do_prefix(ctx, k):
    """every truncation of a sample program"""
    C = mutate.corpus()
    t = C[(k * 7919 + ctx.seed) % len(C)]
    if len(t) > 400:
        i = ctx.rng().randrange(len(t) - 400)
        a = t.rfind('\nfunction', 0, i) + 1
        T = [t[a:j] for j in range(a + 1, min(len(t), a + 400))]
    else:
        T = [t[:j] for j in range(1, len(t) + 1)]
    check(ctx, T)


def do_ending(ctx, k):
    """every small thing a text may end with, after every kind of context"""
    E = ['#', '# c', '#\r', '"', '"a', '"a\n', '\\', '1', '1.', '1.5', '.', '-', '=', '==', '<', '<=', '>', '!', '!=', 'a', 'a.', 'a(', 'a[', 'a[1', '(', ')', '[', ']', ',', ' ', '\t', '\r', '\n',
         '\r\n', 'not', 'var', 'const', 'function', 'if', 'else', 'end', 'while', 'for', 'to', 'return', 'import', 'none', '+', '*', '/', '%', '+=', 'and', 'or', '"\\"', '\x80', '\xff', '"\xff', '//', '/*',
         'import "', 'import ""', 'import "x"', 'import "."', 'import ".."', 'import "/"', 'import "/nonexistent/"', 'var x', 'const x', 'function f', 'function f(', 'function f()', 'function f(a', 'function f(a,', 'var x =', 'const x =', 'x =', 'x[', 'x[1] =', 'x.y', 'x.y =', 'for (', 'for (i', 'for (i = 0', 'for (i = 0 to']
    P = ['', '\n', 'var x = ', 'var x = 1 + ', 'function f()\n', 'function f()\n  if (1)\n', 'function f(a)\n  a = ', 'function f(a)\n  return a ', 'function f(a)\n  return ', 'function f(a)\n  a[', 'function f()\n while (', 'function f()\n var i\n for (i = 0 to ', 'var x = [', 'var x = [1, ', 'var x = f(', 'function f()\nend\n']
    T = [p + e for p in P for e in E]
    n = -(-len(T) // 6)
    check(ctx, T[k * n:(k + 1) * n], opt=k & 1)


DEEP = [
    ('paren', lambda d: 'var x = %s1%s\n' % ('(' * d, ')' * d)),
    ('chain', lambda d: 'var v = 1\nvar x = 1%s\n' % (' + v' * d)),
    ('chainc', lambda d: 'var x = 1%s\n' % (' + 1' * d)),
    ('minus', lambda d: 'function f(a)\n  return %sa\nend\n' % ('-' * d)),
    ('minusp', lambda d: 'function f(a)\n  return %sa%s\nend\n' % ('-(' * d, ')' * d)),
    ('not', lambda d: 'function f(a)\n  return %sa\nend\n' % ('not ' * d)),
    ('array', lambda d: 'var x = %s1%s\n' % ('[' * d, ']' * d)),
    ('index', lambda d: 'var y\nfunction f(a)\n  return %s1%s\nend\n' % ('a[' * d, ']' * d)),
    ('indexes', lambda d: 'function f(a)\n  return a%s\nend\n' % ('[1]' * d)),
    ('calls', lambda d: 'function f(a)\n  return %s1%s\nend\n' % ('f(' * d, ')' * d)),
    ('callc', lambda d: 'function f()\n  return f%s\nend\n' % ('()' * d)),
    ('members', lambda d: 'function f(a)\n  return a%s\nend\n' % ('.b' * d)),
    ('if', lambda d: 'function f(a)\n%s  a = 1\n%send\n' % ('if (a)\n' * d, 'end\n' * d)),
    ('else', lambda d: 'function f(a)\n%s  a = 1\n%send\n' % ('if (a)\na = 2\nelse\n' * d, 'end\n' * d)),
    ('while', lambda d: 'function f(a)\n%s  a = 1\n%send\n' % ('while (a)\n' * d, 'end\n' * d)),
    ('for', lambda d: 'function f(a)\n%s  a = 1\n%send\n' % ('for (a = 0 to 1)\n' * d, 'end\n' * d)),
    ('unclosed', lambda d: 'var x = ' + '(' * d),
    ('unclosed2', lambda d: 'function f()\n' + 'if (1)\n' * d),
    ('unclosed3', lambda d: 'var x = ' + '[[(' * (d // 3)),
    ('mixed', lambda d: 'function f(a)\n  return %s1%s\nend\n' % ('-(a[[' * (d // 3), ']])' * (d // 3))),
]


def do_deep(ctx, k, d):
    t = DEEP[k][1](d)
    for o in (0, 1):
        check(ctx, [t], opt=o)


def do_deepest(ctx, name):
    t = dict(DEEP)[name](100000)
    check(ctx, [t], opt=0, stack_mb=8)


LONG = [
    lambda: 'var %s = 1\n' % ('a' * 100000),
    lambda: 'var x = "%s"\n' % ('s' * 1000000),
    lambda: 'var x = %s\n' % ('9' * 100000),
    lambda: 'var x = 0.%s\n' % ('9' * 100000),
    lambda: 'var x = %s.5\n' % ('9' * 100000),
    lambda: 'var x = 1%s\n' % ('.1' * 1000),
    lambda: '#' * 1000000,
    lambda: ' ' * 1000000 + 'var x = 1',
    lambda: '\n' * 300000 + 'var x = 1 1',
    lambda: '\r\n' * 100000,
    lambda: '"' * 10000,
    lambda: '(' * 3000 + ')' * 3000,
    lambda: ')' * 100000,
    lambda: 'end\n' * 10000,
    lambda: '\n'.join('var g%d = %d' % (i, i) for i in range(3000)),
    lambda: '\n'.join('const g%d = %d' % (i, i) for i in range(3000)),
    lambda: '\n'.join('function f%d(a)\n  return a\nend' % i for i in range(2000)),
    lambda: 'function f()\n%s\nend\n' % '\n'.join('  var g%d = "t%d"' % (i, i) for i in range(2000)),
    lambda: 'function f(%s)\n  return a0\nend\n' % ', '.join('a%d' % i for i in range(2000)),
    lambda: 'var x = [%s]\n' % ', '.join(str(i) for i in range(20000)),
    lambda: 'function f()\n  emit(%s)\nend\n' % ', '.join(str(i) for i in range(5000)),
    lambda: 'function f()\n  emit(%s)\nend\n' % ', '.join('"s%d"' % i for i in range(5000)),
    lambda: 'import "%s"\n' % ('d/' * 3000),
    lambda: 'import "%s"\n' % ('x' * 100000),
    lambda: 'function f()\n  return %s\nend\n' % ('z' * 100000),
    lambda: '%s = 1\n' % ('z' * 5000),
    lambda: 'function f(%s)\n' % ('z' * 5000),
    lambda: 'var x = "%s' % ('s' * 5000),
    lambda: 'function f()\n  %s(1)\nend\n' % ('z' * 5000),
    lambda: 'var x = emit("%s", nope)\n' % ('q' * 5000),
    lambda: 'function f()\n%send\n' % ('  return 1\n' * 5000),
    lambda: 'function f()\n%send\n' % ('  1\n' * 5000),
]


def do_long(ctx, k):
    for o in (0, 1):
        check(ctx, [LONG[k]()], opt=o)
    # as the text of an error too
    t = LONG[k]()
    if '\n' not in t[:-1]:
        check(ctx, [t.rstrip('\n') + ' )', 'function m()\n  ' + t, t[:len(t) // 2]], opt=0)


def do_file(ctx, k):
    """arbitrary bytes in files, NUL included"""
    r = ctx.rng()
    s = b''
    infos = []
    for i in range(10):
        x = r.random()
        if x < 0.4:
            b = bytearray(mutate.mutate(r, r.choice(mutate.corpus())).encode('latin1'))
            for _ in range(r.randrange(0, 4)):
                b[r.randrange(len(b) + 1):0] = b''
                j = r.randrange(len(b) + 1)
                b[j:j] = bytes([r.choice([0, 0, 255, 13, 26, 0xef])])
        elif x < 0.6:
            b = bytes(r.randrange(256) for _ in range(r.choice([1, 3, 20, 1000])))
        elif x < 0.8:
            b = (r.choice(['\xef\xbb\xbf', '\xff\xfe', '\0', '#\0', '"\0"']) + r.choice(mutate.corpus())).encode('latin1')
        else:
            t = r.choice(mutate.corpus())
            b = t[:r.randrange(1, len(t))].encode('latin1') + b'\0' * r.choice([0, 1, 5])
        p = os.path.join(ctx.tmp(), 'f%d.ccml' % i)
        with open(p, 'wb') as f:
            f.write(bytes(b))
        infos.append(bytes(b))
        s += b'say #%d\nprog 1\ncomp 1 1 %d bh\nsrcfile 1 %s\nbuild 1 1\n' % (i, r.randrange(2), p.encode())
        s += b'cfree 1\npfree 1\nsrcfree 1\n'
    cur = None
    loaded = False
    for l in ctx.run(s):
        if '#' in l:
            cur = int(l.split('#')[1])
        elif l.startswith('srcfile'):
            loaded = l.endswith('ok') or l.endswith('1')
            if not loaded and infos[cur]:
                ctx.fail('a readable file is not loaded', bytes=infos[cur][:500].hex(), line=l)
        elif l.startswith('build'):
            ctx.evals += 1
            if loaded:
                verdict(ctx, infos[cur].decode('latin1'), l)
            ctx.seen(infos[cur][:300], l)


def do_fuzz(ctx, k):
    """coverage guided mutation from the sample programs"""
    exe = B.build('fuzz', 'fuzz')
    d = ctx.tmp()
    seeds = os.path.join(d, 'seeds')
    os.makedirs(seeds)
    r = ctx.rng()
    n = 0
    for t in mutate.corpus():
        if len(t) < 900 and r.random() < 0.25:
            with open(os.path.join(seeds, 's%d' % n), 'wb') as f:
                f.write(bytes([n & 1]) + t.encode('latin1'))
            n += 1
    for _ in range(10):
        t = kit.random_program(ctx, r, gen.Cfg(err=0.05, nest=2, stmts=2, depth=2, funcs=2, globals=2))[2]
        with open(os.path.join(seeds, 's%d' % n), 'wb') as f:
            f.write(b'\1' + t.encode('latin1')[:900])
        n += 1
    dct = os.path.join(d, 'dict')
    with open(dct, 'w') as f:
        for i, t in enumerate(['var ', 'const ', 'function ', 'if (', 'else\\x0a', 'end\\x0a', 'while (', 'for (', ' to ', 'return ', ' and ', ' or ', 'not ', 'none', '==', '<=', '>=', '\\"', '+=', '.length', '#', '0.5', '2147483648']):
            f.write('"%s"\n' % t)
    runs = 12000 if ctx.quick else 400000
    env = dict(ENV)
    if k % 2:
        env['FUZZ_RUN'] = '1'
    art = os.path.join(d, 'art-')
    p = subprocess.run([exe, '-runs=%d' % runs, '-seed=%d' % (ctx.seed * 100 + k + 1), '-max_len=900', '-timeout=60', '-rss_limit_mb=3000', '-dict=' + dct, '-artifact_prefix=' + art, '-print_final_stats=1', seeds],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=d,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, 256 << 20)))
    err = p.stderr.decode('latin1')
    m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', err)
    c = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', err)
    if p.returncode:
        inp = b''
        for f in sorted(os.listdir(d)):
            if f.startswith('art-'):
                with open(os.path.join(d, f), 'rb') as fd:
                    inp = fd.read()
        k = re.search(r'FUZZ-VIOLATION: [^\n]*|ERROR: (AddressSanitizer|libFuzzer): [^\n(]*|runtime error: [^\n]*', err)
        raise Violation('fuzzing: ' + re.sub(r'0x[0-9a-f]+', 'N', k.group(0) if k else 'exit %d' % p.returncode)[:120], input=inp.decode('latin1'), stderr=err[-5000:])
    if m:
        ctx.count['fuzzer executions'] += int(m[-1])
        ctx.evals += int(m[-1])
    if c:
        ctx.count['fuzzer coverage edges'] = max(ctx.count['fuzzer coverage edges'], int(c[-1][0]))
        for i in range(int(c[-1][2])):
            ctx.seen('fuzz', k, i)
        ctx.sample('libFuzzer: cov %s features %s corpus %s' % c[-1])
