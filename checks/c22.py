"""C22 command line tools report outcomes truthfully"""
import os, re, shutil, subprocess
import core, gen, kit, lang, mutate, shapes
import c13, c19
from lang import S, Arr, Fn, Sys, Style, Printer, RtErr, Budget
from parse import parse
from probe import src_cmd, ENV
import build as B

LEVEL = 'exploration'
RULE = ('The real run and compile tools, built with address and undefined behaviour sanitizers, run as processes in a scratch directory on random, damaged and sample programs, several files, imports, '
        'long paths, odd standard input and every option combination. A reference interpreter with its own model of the tool functions predicts output, order, result line and success; the compiler '
        'library predicts file, line and message of rejections; the dump files are compared with an independent decoding of the code and the tree of the source. Non-trivial: distinct (output, exit status).')
CHUNK = 6
BUILDS = [('asan', 'probe'), ('asan', 'driver'), ('asan', 'comp')]
TOOLS = (('putc', 1), ('getc', 0), ('puts', 1), ('gets', 0), ('rand', 0), ('print', 1))


def cases(ctx):
    n = 3 if ctx.quick else 25
    out = [('random', k) for k in range(350 * n)]
    out += [('io', k) for k in range(120 * n)]
    out += [('fixed', k) for k in range(len(FIXED))]
    out += [('files', k) for k in range(80 * n)]
    out += [('damaged', k) for k in range(150 * n)]
    out += [('corpus', k) for k in range(200)]
    out += [('comp', k) for k in range(250 * n)]
    out += [('compbad', k) for k in range(120 * n)]
    out += [('compfiles', k) for k in range(60 * n)]
    out += [('paths', k) for k in range(len(LENGTHS))]
    out += [('big', s, m) for s, m in shapes.cases(ctx, 9, limit=600)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


# ---------------------------------------------------------------- processes
def tool(ctx, name, args, stdin=b'', cwd=None):
    exe = B.build('asan', name)
    try:
        p = subprocess.run([exe] + args, cwd=cwd or ctx.tmp(), env=ENV, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        return None
    ctx.count['processes'] += 1
    err = p.stderr.decode('latin1')
    if p.returncode < 0 or p.returncode == 99 or 'Sanitizer' in err or 'runtime error:' in err or 'Assertion' in err:
        m = re.search(r'(AddressSanitizer: [\w-]+|runtime error: [^\n]{0,60}|Assertion[^\n]{0,100})', err)
        ctx.fail('%s tool crashes: %s' % ('run' if name == 'driver' else 'compile', m.group(1) if m else 'signal %d' % -p.returncode), args=args, stderr=err[-4000:], stdin=repr(stdin[:300]),
                 sources=[slurp(a) for a in args if os.path.isfile(a)])
    ctx.evals += 1
    return p.returncode, p.stdout, err


def slurp(p):
    with open(p, 'rb') as f:
        return f.read(6000).decode('latin1')


def put(d, name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('latin1'))
    return p


# ---------------------------------------------------------------- reference
class ToolInterp(lang.Interp):
    """with the functions of the run tool"""

    def __init__(self, prog, stdin=b'', budget=40000):
        lang.Interp.__init__(self, prog, budget=budget)
        self.inp = stdin
        self.out = b''

    def lookup(self, name, env):
        try:
            return lang.Interp.lookup(self, name, env)
        except AssertionError:
            if name in dict(TOOLS):
                return Sys(name)
            raise

    def syscall(self, name, args, node):
        want = dict(TOOLS).get(name)
        if want is None:
            if name not in lang.BUILTIN:
                raise Budget()
            return lang.Interp.syscall(self, name, args, node)
        if len(args) != want:
            raise RtErr('bad_num_args')
        if name in ('puts', 'print'):
            if type(args[0]) is not bytes:
                raise RtErr('bad_argument')
            self.out += args[0] + b'\n'
            return 0
        if name == 'putc':
            if type(args[0]) is not int:
                raise RtErr('bad_argument')
            self.out += bytes([args[0] & 255])
            return 0
        if name == 'getc':
            if not self.inp:
                return -1
            c, self.inp = self.inp[0], self.inp[1:]
            return c
        if name == 'gets':
            n = self.inp.find(b'\n', 0, 79)
            n = min(79, len(self.inp)) if n < 0 else n + 1
            l, self.inp = self.inp[:n], self.inp[n:]
            return l.split(b'\0')[0].rstrip(b'\n') if b'\0' in l else l.rstrip(b'\n')
        raise Budget()      # rand: no value is promised


def shown(v):
    """the result line, None when its form is not defined"""
    if v is None:
        return b'none\n'
    if type(v) is int:
        return b'%d' % v
    if type(v) is float:
        return None if v != v else b'%f' % v
    if type(v) is bytes:
        return b'"' + v + b'"'
    if type(v) is Arr:
        return b'array'
    if type(v) is Fn:
        return b'function'
    return None


def predict(decls, stdin=b'', budget=40000):
    """(output, result or None when the run fails); Budget when out of bounds"""
    I = ToolInterp(lang.Program(decls), stdin, budget)
    if 'main' not in I.funcs:
        return b'', None
    r = I.init()
    if r[0] != 'ok':
        return I.out, None
    r = I.call('main', [])
    return I.out, (r if r[0] == 'ok' else None)


def judge(ctx, key, res, out, r, **info):
    if res is None:
        ctx.count['inconclusive'] += 1
        return
    rc, so, se = res
    bad = lambda k, **kw: ctx.fail('%s: %s' % (key, k), exit=rc, stdout=repr(so[-1500:]), stderr=se[-1000:], expected=repr((out or b'')[-1500:]), result=repr(r), **info, **kw)
    ctx.seen((so, rc))
    if r is None:
        if rc == 0:
            bad('exit status 0 although the run failed')
        if so != out:
            if so.startswith(out) and b'exit:' in so[len(out):]:
                bad('a result is printed although the run failed')
            bad('output of a failing run is wrong')
        ctx.count['failing runs'] += 1
        return
    if rc != 0:
        bad('exit status %d although the run succeeded' % rc)
    if not so.startswith(out):
        bad('output is wrong')
    tail = so[len(out):]
    s = shown(r[1])
    if s is None:
        if not tail.startswith(b'exit: '):
            bad('result is missing')
    elif tail != b'exit: ' + s + b'\n':
        bad('result line is wrong')
    ctx.count['successful runs'] += 1
    ctx.count['bytes of output'] += len(so)


# ---------------------------------------------------------------- random programs
HELPERS = parse('function opq(a)\n  return a\nend\nfunction pair(a, b)\n  return 2\nend\nfunction say(a)\n  return puts("" + a)\nend\nfunction ch(a)\n  return putc(a)\nend\n')
MAP = {'echo': 'opq', 'opaque': 'opq', 'two': 'pair', 'hval': 'opq', 'herr': 'ch'}


def conv(x, r):
    """host functions of the executor to those of the tool"""
    if isinstance(x, tuple):
        if x[0] == 'id':
            return ('id', MAP.get(x[1], 'puts' if x[1] == 'emit' else x[1]))
        if x[0] == 'call' and x[1] == ('id', 'emit'):
            a = [conv(y, r) for y in x[2]]
            if not a:
                return ('call', ('id', 'puts'), [('str', b'-')])
            e = ('str', b'')
            for y in a:
                # arrays have no text, so they are only looked at
                e = ('bin', '+', e, y) if y[0] in ('int', 'flt', 'str', 'bin', 'neg', 'not') else e
            if e == ('str', b''):
                return ('call', ('id', 'opq'), [a[0]])
            return ('call', ('id', r.choice(['puts', 'print'])), [e])
        return tuple(conv(y, r) for y in x)
    if isinstance(x, list):
        return [conv(y, r) for y in x]
    if isinstance(x, S):
        s = S(x.k, *[conv(y, r) if isinstance(y, (tuple, list)) else y for y in (x.a, x.b, x.c, x.d)])
        s.line, s.file = x.line, x.file
        return s
    return x


def tool_program(ctx, r, err=None):
    cfg = gen.Cfg(err=r.choice([0, 0, 0.04]) if err is None else err, nest=r.randrange(1, 4), stmts=r.randrange(1, 6), depth=r.randrange(1, 4), funcs=r.randrange(0, 5), globals=r.randrange(0, 5))
    g = gen.Gen(r, cfg)
    decls = conv(g.program(), r)
    # the main of the tool has no parameters
    out = []
    for d in decls:
        if d.k == 'func' and d.a == 'main':
            if d.b and r.random() < 0.95:
                vals = [S('var', p, g.lit(t if t != 'a' else 'i')) for p, t in zip(d.b, g.margs)]
                d.c = conv(vals, r) + d.c
                d.b = []
            for p in range(r.randrange(0, 3)):
                d.c.insert(r.randrange(len(d.c) + 1), S('call', r.choice([
                    ('call', ('id', 'puts'), [('str', r.choice([b'mark', b'', b'%s%d%n', b'a' * 200, b'exit: 7', b'\x01\xff']))]),
                    ('call', ('id', 'putc'), [('int', r.choice([10, 65, 0, 255, 256, 300, 7, 13]))]),
                    ('call', ('id', 'say'), [('int', r.randrange(100))])])))
        out.append(d)
    return HELPERS + out


def do_random(ctx, k):
    r = ctx.rng()
    decls = tool_program(ctx, r)
    src = Printer(Style.wild(r) if r.random() < 0.3 else Style(r)).program(decls)
    decls = parse(src)
    if core.div_by_zero(decls):
        ctx.skipped += 1
        return
    stdin = bytes(r.choice([10, 32, 65, 97, 0, 255, 13]) for _ in range(r.choice([0, 1, 10, 200])))
    try:
        out, res = predict(decls, stdin)
    except (Budget, RecursionError):
        ctx.skipped += 1
        return
    d = ctx.tmp()
    f = put(d, r.choice(['a.nano', 'x y.nano', '-dash.nano'.lstrip('-'), 'sub/b.ccml', 'noext']), src)
    judge(ctx, 'random', tool(ctx, 'driver', [f], stdin, d), out, res, source=src)
    ctx.sample(repr(out[:200]))


IO = [
    'function main()\n  var c = getc()\n  while (c >= 0)\n    putc(c)\n    c = getc()\n  end\n  return c\nend\n',
    'function main()\n  var n = 0\n  while (n < 12)\n    puts("<" + gets() + ">")\n    n += 1\n  end\n  return n\nend\n',
    'function main()\n  var a = [0, 0, 0, 0, 0, 0, 0, 0]\n  var i = 0\n  for (i = 0 to 8)\n    a[i] = gets()\n  end\n  for (i = 0 to 8)\n    puts(a[7 - i])\n  end\n  return a\nend\n',
    'function main()\n  puts(gets())\n  putc(getc())\n  print(gets())\n  return len(gets())\nend\n',
    'var first = gets()\nvar code = getc()\nfunction main()\n  puts(first)\n  return code\nend\n',
    'var said = puts("init")\nvar bad = putc("x")\nfunction main()\n  return 1\nend\n',
    'function main()\n  var s = ""\n  var c = getc()\n  while (not (c == 10 or c < 0))\n    s += chr(max(c, 32) + 0)\n    c = getc()\n  end\n  return s\nend\n'.replace('chr(max(c, 32) + 0)', 'c'),
    'function main()\n  var n = 0\n  var k = 0\n  var c = getc()\n  while (c >= 0)\n    n += 1\n    if (c == 10)\n      k += 1\n    end\n    c = getc()\n  end\n  puts("" + n + " " + k)\n  return n * 1000 + k\nend\n',
    'function main()\n  var f = puts\n  f("via")\n  var g = getc\n  putc(g())\n  return f\nend\n',
    'function main()\n  var r = rand()\n  if (r < 0 or r > 8388607)\n    return "range"\n  end\n  return 1\nend\n',
]


def do_io(ctx, k):
    r = ctx.rng()
    src = IO[k % len(IO)]
    x = r.random()
    if x < 0.3:
        stdin = b'\n'.join(bytes(r.choice(range(32, 127)) for _ in range(r.choice([0, 1, 5, 77, 78, 79, 80, 81, 157, 158, 159, 160, 300]))) for _ in range(r.randrange(0, 9)))
    elif x < 0.6:
        stdin = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50, 500, 3000])))
    else:
        stdin = bytes(r.choice([0, 10, 13, 65, 255]) for _ in range(r.randrange(0, 200)))
    if r.random() < 0.5:
        stdin += b'\n'
    decls = parse(src)
    try:
        out, res = predict(decls, stdin, 400000)
    except Budget:
        if 'rand' not in src:
            ctx.skipped += 1
            return
        out, res = b'', ('ok', 1)
    d = ctx.tmp()
    judge(ctx, 'standard input', tool(ctx, 'driver', [put(d, 'a.nano', src)], stdin, d), out, res, source=src, stdin=repr(stdin[:400]))
    ctx.sample(repr((stdin[:60], out[:60])))


OK, FAIL = True, False
F = lambda b, pre='': pre + 'function main()\n%send\n' % b
FIXED = [
    F('  return 5\n'), F('  return 0 - 2147483647 - 1\n'), F('  return "a%sb%d"\n'), F('  return ""\n'), F('  return none\n'), F(''), F('  return\n'), F('  return [1]\n'), F('  return main\n'),
    F('  return abs\n'), F('  return 1.5\n'), F('  return -0.25\n'), F('  return 1.0 / 3.0\n'), F('  return 3000000000.0\n'), F('  return 0.0000001\n'),
    F('  putc(none)\n'), F('  puts(none)\n'), F('  print(none)\n'), F('  puts(1)\n'), F('  puts([1])\n'), F('  puts(main)\n'), F('  putc("x")\n'), F('  putc(1.5)\n'), F('  putc(puts)\n'),
    F('  var f = putc\n  f()\n'), F('  var f = puts\n  f("a", "b")\n'), F('  var f = getc\n  f(1)\n'), F('  var f = gets\n  f(1)\n'), F('  var f = rand\n  f(1)\n'), F('  var f = print\n  f()\n'),
    F('  puts("a")\n  var x\n  x = x[1]\n'), F('  puts("a")\n  return [1][5]\n'), F('  puts("x")\n  var z = 0\n  return 1 / z\n'), F('  var z = 0\n  puts("x")\n  return 1 % z\n'),
    F('  return 1\n', 'var g = [1][2]\n'), F('  return g\n', 'var g = puts("early")\n'), F('  return 1\n', 'var z = puts("a")\nvar g = [1][2]\nvar y = puts("b")\n'),
    'var a = 1\n', 'function notmain()\nend\n', 'function Main()\n  return 1\nend\n', 'function main(a)\n  return 1\nend\n', 'function main(a)\n  puts("x")\nend\n', '\n', '# only a comment\n', 'const A = 1\n',
    'var main = 1\n', 'function main()\n  return deep(60)\nend\nfunction deep(n)\n  if (n <= 0)\n    return "bottom"\n  end\n  return deep(n - 1)\nend\n',
    'function main()\n  return deep(100000)\nend\nfunction deep(n)\n  puts("d")\n  return deep(n - 1) + 1\nend\n',
    F('  puts("exit: 5")\n  return 7\n'), F('  putc(69)\n  putc(88)\n  return 7\n'), F('  putc(10)\n  puts("")\n  print("")\n  return ""\n'), F('  puts("%s")\n  puts("%n%d")\n  return "%n"\n'),
    F('  return puts("x")\n'), F('  return putc(65)\n'), F('  return print("x")\n'), F('  return getc()\n'), F('  return gets()\n'),
    F('  var i = 0\n  while (i < 3000)\n    putc(65 + i % 26)\n    i += 1\n  end\n  return i\n'), F('  puts("%s")\n  return 1\n' % ('y' * 5000)), F('  var i = 0\n  while (i < 60000)\n    i += 1\n  end\n  return i\n'),
    F('  wait(5)\n  puts("w")\n  return 2\n'), F('  wait(1)\n  wait(2)\n  return none[1]\n'.replace('none[1]', '[1][9]')),
    F('  var a = [0]\n  a[0] = a\n  return a\n'), F('  var x = [1.5, 2]\n  return x[0]\n'), F('  return "tab\there"\n'), F('  return 1 == 1\n'), F('  return not 1\n'), F('  return "1" + 1\n'),
]


def do_fixed(ctx, k):
    src = FIXED[k]
    d = ctx.tmp()
    f = put(d, 'a.nano', src)
    try:
        out, res = predict(parse(src), b'', 400000)
    except RecursionError:
        out, res = None, None
    except Budget:
        # unbounded recursion: the machine runs out of stack
        rc, so, se = tool(ctx, 'driver', [f], b'', d)
        if rc == 0 or b'exit:' in so:
            ctx.fail('fixed: exit status 0 although the run failed', exit=rc, stdout=repr(so[-500:]), source=src)
        return
    judge(ctx, 'fixed', tool(ctx, 'driver', [f], b'', d), out, res, source=src)
    # the same with the file given relative to the working directory, and twice the same outcome
    judge(ctx, 'fixed', tool(ctx, 'driver', ['a.nano'], b'', d), out, res, source=src)


def do_files(ctx, k):
    """several files, imports, files that can not be read"""
    r = ctx.rng()
    decls = tool_program(ctx, r)
    if core.div_by_zero(decls):
        return
    try:
        out, res = predict(decls)
    except (Budget, RecursionError):
        ctx.skipped += 1
        return
    d = ctx.tmp()
    n = r.randrange(1, 4)
    parts = [[] for _ in range(n)]
    for x, i in zip(decls, sorted(r.randrange(n) for _ in decls)):
        parts[i].append(x)
    texts = [Printer(Style(r)).program(p) for p in parts if p]
    names = ['m%d.nano' % i for i in range(len(texts))]
    args = []
    mode = r.randrange(6)
    if mode == 1 and len(texts) > 1:
        # the first imports the others
        texts[0] = ''.join('import "%s"\n' % x for x in names[1:]) + texts[0]
    for x, t in zip(names, texts):
        args.append(put(d, x, t))
    src = '\n----\n'.join(texts)
    if mode == 1:
        # order of initialisation is that of loading, which is the same
        judge(ctx, 'import', tool(ctx, 'driver', [args[0]], b'', d), out, res, source=src)
        return
    if mode in (2, 3):
        bad = {2: os.path.join(d, 'missing.nano'), 3: d}[mode]
        args.insert(r.randrange(len(args) + 1), bad)
        rc, so, se = tool(ctx, 'driver', args, b'', d)
        if rc == 0 or so:
            ctx.fail('files: a file that can not be loaded is not reported', exit=rc, stdout=repr(so[:300]), args=args)
        ctx.seen((rc, se))
        ctx.count['load failures'] += 1
        return
    if mode == 4:
        texts[0] = 'import "gone.nano"\n' + texts[0]
        put(d, names[0], texts[0])
        rc, so, se = tool(ctx, 'driver', args, b'', d)
        if rc == 0 or so:
            ctx.fail('files: an import that can not be loaded is not reported', exit=rc, stdout=repr(so[:300]), source=texts[0])
        return
    judge(ctx, 'several files', tool(ctx, 'driver', args, b'', d), out, res, source=src)


def library(ctx, texts, opt, tools):
    """what the compiler library says about the text"""
    s = b'say #build\n'
    for t in texts:
        s += src_cmd(0, t)
    s += b'comp 0 0 %d %s\n' % (opt, b'b' if tools else b'-')
    if tools:
        s += b''.join(b'sys 0 %s %d\n' % (a.encode(), n) for a, n in TOOLS)
    return c13.split(ctx.run(s + b'build 0 0\n' + c19.INSPECT))


def verdict(P):
    l = [x for x in P['build'] if x.startswith('build ')][0]
    if l == 'build ok':
        return None
    p = l.split(' ')
    f, n = p[2].split(':')
    return 'file %s, line:%s - %s\n' % (f, n, bytes.fromhex(p[3]).decode('latin1') if len(p) > 3 else '')


def do_damaged(ctx, k):
    r = ctx.rng()
    src = Printer(Style(r)).program(tool_program(ctx, r, err=0))
    t = mutate.mutate(r, src)
    if not t or '\0' in t or 'import' in t.lower():
        return
    P = library(ctx, [t], 2, True)
    v = verdict(P)
    d = ctx.tmp()
    f = put(d, 'a.nano', t)
    if v is None:
        # runs, maybe for ever: only judged when the reference finishes it
        dd = c13.parse_ok(t)
        if dd is None or core.div_by_zero(dd):
            return
        try:
            out, res = predict(dd)
        except (Budget, RecursionError, AssertionError, KeyError):
            ctx.skipped += 1
            return
        judge(ctx, 'damaged', tool(ctx, 'driver', [f], b'', d), out, res, source=t)
        return
    rc, so, se = tool(ctx, 'driver', [f], b'', d)
    if rc == 0 or so:
        ctx.fail('rejected source: exit status %d' % rc, stdout=repr(so[:300]), source=t, library=v)
    if se != v:
        ctx.fail('rejected source: file, line and message are not printed', stderr=se, library=v, source=t)
    ctx.count['rejections'] += 1
    ctx.seen((rc, se))
    rc, so, se = tool(ctx, 'comp', [f], b'', d)
    if rc == 0:
        w = verdict(library(ctx, [t], 2, False))
        if w is not None:
            ctx.fail('compile tool: exit status 0 for a rejected source', source=t, library=w)


def do_corpus(ctx, k):
    c = mutate.corpus()
    if k >= len(c):
        return
    t = c[k]
    d = c13.parse_ok(t)
    if d is None or 'import' in t or core.div_by_zero(d):
        return
    P = library(ctx, [t], 2, True)
    if verdict(P) is not None:
        return
    try:
        out, res = predict(d)
    except (Budget, RecursionError, AssertionError, KeyError):
        ctx.skipped += 1
        return
    w = ctx.tmp()
    judge(ctx, 'sample program', tool(ctx, 'driver', [put(w, 'a.nano', t)], b'', w), out, res, source=t)


# ---------------------------------------------------------------- the compile tool
class NoHost(Exception):
    pass


def plain_program(ctx, r):
    """a program without any function of a host"""
    x = tool_program(ctx, r, err=0)
    names = {d.a for d in x if d.k == 'func'}
    stubs = []
    used = set()
    for e in core.exprs(x):
        for y in core.subexprs(e):
            if y[0] == 'id':
                used.add(y[1])
    arity = dict(TOOLS)
    arity.update({b: n for b, (n, _) in lang.BUILTIN.items()})
    arity['new_thread'] = 1
    for n in sorted(used):
        if n in arity and n not in names:
            stubs.append(S('func', n, ['p%d' % i for i in range(arity[n])], [S('ret', ('int', 1))]))
    return stubs + x


def check_dumps(ctx, d, base, flags, P, decls, opt, src, written):
    names = c19.opcodes(P['dump'])
    D = c19.Dump(P['dump'])
    bad = lambda k, **kw: ctx.fail('compile tool: ' + k, source=src, flags=flags, **kw)
    want = {'.ast': 'a' in flags, '.dis': 'd' in flags, '.bin': 'b' in flags}
    for ext, w in want.items():
        p = base + ext
        if w != os.path.exists(p):
            bad('%s is %s' % (ext, 'missing' if w else 'written without request'))
        if not w:
            continue
        with open(p, 'rb') as f:
            b = f.read()
        ctx.count['dump bytes'] += len(b)
        if ext == '.bin':
            if b != D.code:
                bad('.bin is not the code', got=len(b), want=len(D.code))
        elif ext == '.dis':
            ins = c19.decode(D.code, names, bad)
            pl = [l for l in P['dump'] if l.startswith('plines')][0].split(' ')[1:]
            x = core.first_diff(b.decode('latin1').rstrip('\n').split('\n'), c19.listing(D, ins, [tuple(map(int, t.split(':'))) for t in pl]))
            if x:
                bad('.dis is not the listing of the code', **x)
        else:
            root = c19.read_tree(b.decode('latin1'))
            if root is None:
                bad('.ast is not a tree')
            try:
                c19.Matcher(decls, opt).program(root, decls, D.sysnames)
            except c19.Mismatch as e:
                bad('.ast is not the tree of the source: ' + str(e).split(' {')[0], what=str(e))


def flags_of(r):
    f = [x for x in 'nadb' if r.random() < 0.55]
    r.shuffle(f)
    if f and r.random() < 0.1:
        f.append(r.choice(f))
    return f


def do_comp(ctx, k):
    r = ctx.rng()
    decls = plain_program(ctx, r)
    src = Printer(Style.wild(r) if r.random() < 0.3 else Style(r)).program(decls)
    decls = parse(src)
    if core.div_by_zero(decls):
        return
    d = ctx.tmp()
    f = put(d, r.choice(['a.nano', 'x y.nano', 'sub/b.ccml', 'noext', 'a.b.c']), src)
    fl = flags_of(r)
    rel = r.random() < 0.5
    args = [os.path.relpath(f, d) if rel else f] + ['-' + x for x in fl]
    opt = 0 if 'n' in fl else 1
    P = library(ctx, [src], opt, False)
    v = verdict(P)
    if v is not None:
        ctx.fail('compile tool: library rejects', verdict=v, source=src)
    rc, so, se = tool(ctx, 'comp', args, b'', d)
    if rc != 0:
        ctx.fail('compile tool: exit status %d for a good source' % rc, stderr=se, source=src, flags=fl)
    if se:
        ctx.fail('compile tool: complains about a good source', stderr=se, source=src, flags=fl)
    check_dumps(ctx, d, f, fl, P, decls, opt, src, None)
    ctx.seen((src, tuple(fl)))
    ctx.count['good builds'] += 1


def do_compbad(ctx, k):
    r = ctx.rng()
    src = Printer(Style(r)).program(plain_program(ctx, r))
    t = mutate.mutate(r, src)
    if not t or '\0' in t or 'import' in t.lower():
        return
    fl = flags_of(r)
    opt = 0 if 'n' in fl else 1
    v = verdict(library(ctx, [t], opt, False))
    d = ctx.tmp()
    f = put(d, 'a.nano', t)
    rc, so, se = tool(ctx, 'comp', [f] + ['-' + x for x in fl], b'', d)
    if (rc == 0) != (v is None):
        ctx.fail('compile tool: exit status %d' % rc, library=v, stderr=se, source=t)
    if v is not None and se != v:
        ctx.fail('compile tool: file, line and message are not printed', stderr=se, library=v, source=t)
    ctx.seen((rc, se))


def do_compfiles(ctx, k):
    r = ctx.rng()
    decls = plain_program(ctx, r)
    if core.div_by_zero(decls):
        return
    n = r.randrange(2, 4)
    parts = [[] for _ in range(n)]
    for x, i in zip(decls, sorted(r.randrange(n) for _ in decls)):
        parts[i].append(x)
    texts = [Printer(Style(r)).program(p) for p in parts if p]
    if r.random() < 0.4:
        i = r.randrange(len(texts))
        texts[i] += r.choice(['function zz()\n  return nope\nend\n', 'var (\n', 'function zz(\n', '?'])
    d = ctx.tmp()
    args = [put(d, 'm%d.nano' % i, t) for i, t in enumerate(texts)]
    miss = r.random() < 0.25
    fl = flags_of(r)
    opt = 0 if 'n' in fl else 1
    if miss:
        a = args[:1] + args[1:]
        a.insert(r.randrange(len(a) + 1), os.path.join(d, 'missing.nano'))
        rc, so, se = tool(ctx, 'comp', a, b'', d)
        if rc == 0:
            ctx.fail('compile tool: a missing file is not reported', args=a)
        ctx.seen((rc, se))
        return
    P = library(ctx, texts, opt, False)
    v = verdict(P)
    # options may stand between the files, after the first
    a = args[1:] + ['-' + x for x in fl]
    if r.random() < 0.5:
        opts = [x for x in a if x.startswith('-')]
        rest = [x for x in a if not x.startswith('-')]
        a = rest[:]
        for o in opts:
            a.insert(r.randrange(len(a) + 1), o)
    rc, so, se = tool(ctx, 'comp', args[:1] + a, b'', d)
    if (rc == 0) != (v is None):
        ctx.fail('compile tool, several files: exit status %d' % rc, library=v, stderr=se, source=texts)
    if v is not None:
        if se != v:
            ctx.fail('compile tool, several files: file, line and message are not printed', stderr=se, library=v, source=texts)
    else:
        all_ = [x for i, t in enumerate(texts) for x in parse(t, i)]
        check_dumps(ctx, d, args[0], fl, P, all_, opt, '\n----\n'.join(texts), None)
    ctx.seen((rc, se, tuple(texts)))


LENGTHS = [1, 50, 127, 200, 254, 255, 256, 500, 511, 512, 1000, 1010, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1100, 2000, 2047, 2048, 3000, 4000]


def do_paths(ctx, k):
    """inputs with paths of all lengths"""
    n = LENGTHS[k]
    d = ctx.tmp()
    root = os.path.join(d, 'p')
    p = root
    while len(p) + 1 < n:
        p += '/' + 'q' * min(200, max(1, n - len(p) - 1))
    if p == root:
        p = root + '/f'
    if len(p) > 4085:
        p = p[:4080]
    src = 'function main()\n  return "deep"\nend\n'
    keep = os.getcwd()
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(src)
    rc, so, se = tool(ctx, 'driver', [p], b'', d)
    if (rc, so) != (0, b'exit: "deep"\n'):
        ctx.fail('long path: run tool fails', length=len(p), exit=rc, stdout=repr(so), stderr=se)
    for fl in ('a', 'd', 'b', 'adb', 'n', ''):
        rc, so, se = tool(ctx, 'comp', [p] + ['-' + x for x in fl], b'', d)
        if rc != 0 or se:
            ctx.fail('long path: compile tool fails', length=len(p), exit=rc, stderr=se)
        P = library(ctx, [src], 0 if 'n' in fl else 1, False)
        # the name with the suffix may be too long for the system
        if all(len(os.path.basename(p)) + 4 <= 255 and len(p) + 4 < 4096 for _ in fl):
            check_dumps(ctx, d, p, fl, P, parse(src), 1, src, None)
        for e in ('.ast', '.dis', '.bin'):
            if os.path.exists(p + e):
                os.unlink(p + e)
    ctx.seen(('path', len(p)))


def do_big(ctx, name, n):
    """large programs through both tools"""
    r = ctx.rng()
    src = shapes.make(name, n, r)[0]
    # the tools know none of the test functions
    src += ''.join('function %s(p)\n  return p\nend\n' % f for f in ('echo',) if f + '(' in src)
    src = re.sub(r'\bemit\b', 'say1', re.sub(r'\bemit\(([^\n]*)\)\n', r'say1([\1])\n', src)) + 'function say1(p)\n  return p\nend\n'
    for f in ('new_array', 'len', 'abs'):
        if re.search(r'\b%s\(' % f, src):
            src += 'function %s(p)\n  return p\nend\n' % f
    decls = parse(src)
    d = ctx.tmp()
    f = put(d, 'big.nano', src)
    fl = flags_of(r)
    opt = 0 if 'n' in fl else 1
    P = library(ctx, [src], opt, False)
    if verdict(P) is not None:
        # calls in the middle of expressions cannot be rewritten so simply
        ctx.skipped += 1
        return
    rc, so, se = tool(ctx, 'comp', [f] + ['-' + x for x in fl], b'', d)
    if rc != 0 or se:
        ctx.fail('compile tool: exit status %d for a good source' % rc, stderr=se, source=src[:3000], flags=fl)
    check_dumps(ctx, d, f, fl, P, decls, opt, src[:3000], None)
    ctx.seen((src, tuple(fl)))
    ctx.count['good builds'] += 1
