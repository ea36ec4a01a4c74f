"""C13 a saved program loads back as the same program"""
import os
import core, gen, kit, lang, mutate, shapes
from lang import Style, Printer
from parse import parse
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Random programs (with errors, threads of every value type, odd strings, many functions, locals and lines, several files) are compiled, dumped and run; saved; loaded in '
        'another program object, over an older program, in another process, and saved again. Dumps of all tables must be equal, the second file byte-identical, and every '
        'run after binding (in any order) must give the log of the reference interpreter, error lines included. Non-trivial: distinct program dump.')
CHUNK = 4
BUILDS = [('asan', 'probe'), ('plain', 'probe')]


def cases(ctx):
    n = 15 if ctx.quick else 25
    out = [('random', k) for k in range(700 * n)]
    out += [('corpus', k) for k in range(200)]
    out += [('shape', k) for k in range(len(SHAPES))]
    out += [('multi', k) for k in range(60 * n)]
    out += [('files', k) for k in kit.thin(ctx, 400, 20)]
    out += [('strings', k) for k in range(80 * n)]
    out += [('big', s, m) for s, m in shapes.cases(ctx, 4)]
    out = shapes.huge_cases(ctx, 'many_globals', 'many_strs', 'long_jumps', 'late_lines', 'many_params', 'many_args') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def split(lines):
    """the parts between say marks"""
    parts = {}
    cur = None
    for l in lines:
        if l.startswith('say #') or l.startswith('#'):
            cur = l.split('#')[1]
            parts[cur] = []
        elif cur is not None:
            parts[cur].append(l)
    return parts


def tables(part):
    """a dump without what is only there after a build"""
    out = []
    for l in part:
        p = l.split(' ')
        if p[0] == 'sysc':
            out.append('sysc ' + p[1])
        elif p[0] in ('code', 'func', 'str', 'lines'):
            out.append(l)
    return out


def full(ctx, r, srcs, steps, want, opt, src=None, flags='bh', decls=None):
    d = ctx.tmp()
    f1, f2, f3 = (os.path.join(d, x) for x in ('a.bin', 'b.bin', 'c.bin'))
    for f in (f1, f2, f3):
        if os.path.exists(f):
            os.unlink(f)
    if r.random() < 0.3:
        # an older, longer file is in the way
        with open(f1, 'wb') as fd:
            fd.write(bytes(r.randrange(256) for _ in range(r.choice([1, 100]))) * 2000)
    binds = ['bind 1 bh\n', 'bind 1 b\nbind 1 h\n', 'bind 1 h\nbind 1 b\n', 'bind 1 bh\nbind 1 bh\n']
    s = b'say #build\n'
    for t in srcs:
        s += src_cmd(0, t)
    s += ('comp 0 0 %d bh\nbuild 0 0\nsay #dump0\npdump 0\nsay #save0\nsave 0 %s\nsay #dump0b\npdump 0\n' % (opt, f1)).encode()
    s += b'say #run0\nbind 0 bh\nvm 0 0\n' + core.steps_text(steps).encode('latin1')
    s += b'vfree 0\nsay #bound\nsave 0 %s\n' % f3.encode()
    # another object, maybe used before
    s += b'prog 1\n'
    if r.random() < 0.4:
        s += b'say #other\n' + src_cmd(5, 'var q = "old"\nfunction zz(k)\n  return emit(q, k)\nend\n') + b'comp 5 1 1 bh\nbuild 5 5\nbind 1 bh\nvm 5 1\ncall 5 zz i1\nvfree 5\n'
    gone = r.random() < 0.5
    if gone:
        # the program and compiler that made the file are gone
        s += b'cfree 0\npfree 0\nsrcfree 0\n'
    for k in range(r.choice([1, 1, 2, 3])):
        s += b'say #load%d\nload 1 %s\n' % (k, (f1 if k != 1 else f3).encode())
    s += b'say #dump1\npdump 1\nsay #save1\nsave 1 %s\n' % f2.encode()
    s += b'say #run1\n' + r.choice(binds).encode() + b'vm 1 1\n' + core.steps_text(steps, vm=1).encode('latin1')
    if r.random() < 0.5:
        s += b'say #run2\nvm 2 1\n' + core.steps_text(steps, vm=2).encode('latin1')
    s += b'vfree 1\nvfree 2\nsay #end\n'
    P = split(ctx.run(s))
    ctx.evals += 1
    if 'build ok' not in P['build']:
        ctx.fail('rejected', lines=P['build'], source=src)
    bad = lambda key, **kw: ctx.fail(key, source=src, opt=opt, **kw)
    for k in P:
        for l in P[k]:
            if l in ('save 0', 'load 0'):
                bad('save or load of a good program fails', at=k)
    d0 = tables(P['dump0'])
    for k in ('dump0b', 'dump1'):
        d1 = tables(P[k])
        if d0 != d1:
            x = core.first_diff(d1, d0)
            bad('dump after %s differs: %s' % ('saving' if k == 'dump0b' else 'loading', x['want'].split(' ')[0]), **x)
    b = [open(f, 'rb').read() for f in (f1, f2, f3)]
    if b[0] != b[1] or b[0] != b[2]:
        bad('saved again gives another file', sizes=[len(x) for x in b])
    runs = [k for k in ('run0', 'run1', 'run2') if k in P]
    logs = [core.observe(P[k])[0] for k in runs]
    if want is not None:
        for k, g in zip(runs, logs):
            x = core.first_diff(g, want)
            if x:
                bad('%s run: %s instead of %s' % ('saved' if k == 'run0' else 'loaded', core.kind_of(x['got']), core.kind_of(x['want'])), **x)
    else:
        for k, g in zip(runs[1:], logs[1:]):
            x = core.first_diff(g, logs[0])
            if x:
                bad('loaded program behaves differently: %s instead of %s' % (core.kind_of(x['got']), core.kind_of(x['want'])), **x)
    # in another process
    if r.random() < (0.4 if ctx.quick else 1):
        s = b'prog 0\nsay #load\nload 0 %s\nsay #dump\npdump 0\nsay #run\nbind 0 bh\nvm 0 0\n' % f2.encode() + core.steps_text(steps).encode('latin1')
        Q = split(ctx.run(s, variant='plain'))
        ctx.count['other process'] += 1
        if 'load 0' in Q['load'] or tables(Q['dump']) != d0:
            bad('another process loads another program')
        x = core.first_diff(core.observe(Q['run'])[0], logs[0])
        if x:
            bad('another process: %s instead of %s' % (core.kind_of(x['got']), core.kind_of(x['want'])), **x)
    ctx.seen(tuple(d0))
    ctx.count['bytes saved'] += len(b[0])
    ctx.count['events'] += len(logs[0])
    ctx.sample((src or '')[:300])
    for f in (f1, f2, f3):
        os.unlink(f)


def both(ctx, r, srcs, decls, steps, src=None, opts=(0, 1), budget=200000):
    try:
        I, want, keys = core.expect(decls, steps, budget=budget)
    except lang.Budget:
        ctx.skipped += 1
        return
    o = opts if not ctx.quick else [r.choice(opts)]
    for opt in o:
        if core.div_by_zero(decls) and opt:
            continue
        full(ctx, r, srcs, steps, want, opt, src=src or srcs[0])


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0.03]), nest=r.randrange(1, 4), stmts=r.randrange(1, 6), depth=r.randrange(1, 4), funcs=r.randrange(0, 6), globals=r.randrange(0, 6), here=r.choice([0, 0.1]))
    g, decls, src = kit.random_program(ctx, r, cfg)
    both(ctx, r, [src], parse(src), kit.random_steps(g, r))


def do_corpus(ctx, k):
    c = mutate.corpus()
    r = ctx.rng()
    if k >= len(c):
        return
    t = c[k]
    d = parse_ok(t)
    if d is None or any(x.k == 'import' for x in d):
        return
    s = src_cmd(0, t)
    d0 = ctx.tmp() + '/p.bin'
    reg = b''.join(b'sys 0 %s %d\n' % (a.encode(), n) for a, n in (('putc', 1), ('getc', 0), ('puts', 1), ('gets', 0), ('rand', 0), ('print', 1)))
    P = split(ctx.run(b'say #b\n' + s + b'comp 0 0 %d bh\n' % (k & 1) + reg + b'build 0 0\n'))
    if 'build ok' not in P['b']:
        return
    P = split(ctx.run(b'say #b\n' + s + b'comp 0 0 %d bh\n' % (k & 1) + reg + b'build 0 0\nsay #d0\npdump 0\nsay #s\nsave 0 %s\nprog 1\nload 1 %s\nsay #d1\npdump 1\n' % (d0.encode(), d0.encode())))
    ctx.evals += 1
    if P['s'] != ['save 1', 'load 1']:
        ctx.fail('save or load of a good program fails', source=t, got=P['s'])
    x = core.first_diff(tables(P['d1']), tables(P['d0']))
    if x:
        ctx.fail('dump after loading differs: ' + x['want'].split(' ')[0], source=t, **x)
    ctx.seen(tuple(tables(P['d0'])))
    # same errors and values without the functions of the tools
    full(ctx, r, [t], [('init',)], None, k & 1, src=t) if not any(w in t for w in ('putc', 'getc', 'puts', 'gets', 'rand', 'print')) and 'while' not in t else None


def parse_ok(t):
    from parse import SyntaxErr
    try:
        return parse(t)
    except SyntaxErr:
        return None


SHAPES = [
    'function main()\nend\n',
    'var a\nfunction main()\nend\n',
    'const A = 1\nfunction main()\n  return A\nend\n',
    'function main()\n  return ""\nend\n',
    'var a = ["", "x", ""]\nfunction main()\n  return a\nend\n',
    'function main()\n%s  return 1\nend\n' % ''.join('  var l%d = %d\n' % (i, i) for i in range(300)),
    'function main()\n%s  return 1\nend\n' % ''.join('  emit("s%d")\n' % i for i in range(700)),
    ''.join('function f%d(a, bb, ccc)\n  var d%d = a\n  return d%d + %d\nend\n' % (i, i, i, i) for i in range(300)) + 'function main()\n  return f299(1, 2, 3)\nend\n',
    'function %s(%s)\n  return 1\nend\nfunction main()\n  return %s(1)\nend\n' % ('n' * 3000, 'p' * 3000, 'n' * 3000),
    'function main()\n  return "%s"\nend\n' % ('x' * 200000),
    '\n' * 70000 + 'function main()\n  emit("far")\n' + '\n' * 70000 + '  return nope2[1]\nend\nvar nope2\n',
    '\n'.join('var g%d = "v%d"' % (i, i) for i in range(1500)) + '\nfunction main()\n  return g1499\nend\n',
    'function main()\n%s  return 1\nend\n' % ''.join('  emit(%d, "k%d")\n' % (i, i) for i in range(6000)),
    'function main(%s)\n  return 1\nend\n' % ', '.join('p%d' % i for i in range(300)),
    'function main()\n  return %s\nend\n' % ' + '.join('"%s"' % chr(c) for c in range(1, 256) if c not in (10, 34)),
    'function main()\n  return [sin, abs, main, wait, emit]\nend\n',
    'function main()\n  return emit(2147483647, 0 - 2147483647 - 1, 0.1, 3.4e, 1)\nend\n'.replace('3.4e', '340282346638528859811704183484516925440.0'),
]


def do_shape(ctx, k):
    r = ctx.rng()
    t = SHAPES[k]
    decls = parse(t)
    m = [d for d in decls if d.k == 'func' and d.a == 'main'][0]
    both(ctx, r, [t], decls, [('init',), ('globals',), ('run', 'main', [i for i in range(len(m.b))])])


def do_multi(ctx, k):
    """several sources in one program: lines of every file"""
    r = ctx.rng()
    cfg = gen.Cfg(err=0.02, nest=2, stmts=3, depth=2, funcs=r.randrange(2, 6), globals=r.randrange(1, 5), here=0.15)
    g, decls, src = kit.random_program(ctx, r, cfg)
    n = r.randrange(2, 5)
    parts = [[] for _ in range(n)]
    at = sorted(r.randrange(n) for _ in decls)
    for d, i in zip(decls, at):
        parts[i].append(d)
    srcs, all_ = [], []
    for i, p in enumerate(p for p in parts if p):
        t = Printer(Style.wild(r) if r.random() < 0.5 else Style(r)).program(p)
        srcs.append(t)
        all_ += parse(t, len(srcs) - 1)
    both(ctx, r, srcs, all_, kit.random_steps(g, r), src=repr(srcs)[:3000])


def do_strings(ctx, k):
    r = ctx.rng()
    alpha = [chr(c) for c in range(1, 256) if c not in (10, 34)]
    S = []
    for i in range(r.randrange(1, 12)):
        S.append(''.join(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 64, 255, 256, 257, 1000, 4095, 4096, 4097, 70000 if r.random() < 0.1 else 9]))))
    if r.random() < 0.3:
        S += S[:2]
    t = ''.join('var s%d = "%s"\n' % (i, x) for i, x in enumerate(S))
    t += 'function main()\n' + ''.join('  emit(s%d, s%d.length, "%s")\n' % (i, i, r.choice(S)) for i in range(len(S))) + '  return %s\nend\n' % ' + '.join('s%d' % i for i in range(len(S)))
    both(ctx, r, [t], parse(t), [('init',), ('globals',), ('run', 'main', [])])


def do_big(ctx, name, n):
    r = ctx.rng()
    src, steps = shapes.make(name, n, r, r.choice([False, True]))
    both(ctx, r, [src], parse(src), steps)


def do_files(ctx, n):
    """programs of many sources"""
    r = ctx.rng()
    srcs = ['%sfunction f%d(a)\n  here(%d)\n  return %s\nend\n' % ('\n' * r.randrange(3), i, i, 'a + %d' % i if i == 0 else 'f%d(a + 1)' % r.randrange(i) if r.random() < 0.7 else 'a.nosuch') for i in range(n)]
    decls = [d for i, t in enumerate(srcs) for d in parse(t, i)]
    both(ctx, r, srcs, decls, [('init',)] + [('run', 'f%d' % i, [i]) for i in sorted({0, n // 2, n - 1, n - 2 if n > 1 else 0})], src='%d sources' % n, opts=(r.randrange(2),))


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    r = ctx.rng()
    src, steps = shapes.make_huge(ctx, name, n, r, r.choice([False, True]))
    both(ctx, r, [src], parse(src), steps, opts=(r.randrange(2),), budget=6000000)
