"""C06 collections are invisible: the same program with collections placed at
every instruction, at random points and where the machine itself puts them"""
import lang, core, gen, kit, shapes
from lang import dump, canon
from probe import src_cmd
from parse import parse

LEVEL = 'exploration'
RULE = ('Programs that build, alias, nest and drop strings, arrays and function values run with a collection before every instruction, '
        'at random instructions, and under allocation pressure with naturally triggered collections, in one or several threads; values '
        'live in globals, locals, pending operands, arguments, paused, finished and failed threads. Every log is compared with the reference '
        'interpreter, which has no collector; reclaimed arena memory is poisoned for the address sanitizer. Non-trivial: log not seen before.')
CHUNK = 4
ASSUME = ['collections happen between instructions (step_inst, resume, step_line) and at the start of call_once']


def cases(ctx):
    n = 5 if ctx.quick else 40
    out = [('random', k) for k in range(900 * n)]
    out += [('graph', k) for k in range(260 * n)]
    out += [('pressure', k) for k in range(160 * n)]
    out += [('threads', k) for k in range(220 * n)]
    out += [('passes', k) for k in range(120 * n)]
    out += [('idle', k) for k in range(20 * n)]
    out += [('finished', k) for k in range(60 * n)]
    out += [('deep', s, k) for s in range(9) for k in ([3, 50, 900, 4000] if ctx.quick else [1, 3, 50, 255, 256, 900, 4000, 6000])]
    out += [('kinds', k) for k in range(8 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 3, limit=400, skip=('blank', 'strs'))]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def modes(r, n):
    m = ['inst', 'mix %d 500 4', 'mix %d 150 12', 'mix %d 40 40', 'mixline %d', 'line']
    out = []
    for x in r.sample(m, n):
        p = x.split(' ')
        out.append(' '.join([p[0], '400000'] + [q if q != '%d' else str(r.randrange(10**6)) for q in p[1:]]))
    return out


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0, 0.05]), arrays=2.0, strings=1.5, nest=r.choice([1, 2, 3]), stmts=r.choice([4, 6]), depth=r.choice([2, 3, 4]),
                  funcs=r.choice([2, 4]), globals=5, globals_init_calls=0.6, recursion=1.0, funcvals=1.0, ints=gen.INTS)
    g, decls, src = kit.random_program(ctx, r, cfg)
    core.differential(ctx, decls, kit.random_steps(g, r), src=src, key='collection visible', opts=(r.randrange(2),), modes=modes(r, 2), budget=1500)
    ctx.sample(src[:1200])


def do_graph(ctx, k):
    """random surgery on a graph of arrays, dumped after every few steps"""
    r = ctx.rng()
    gl = ['G%d' % i for i in range(3)]
    lo = ['a', 'b', 'c', 'd']
    L = ['var %s = [%d, "g", none]' % (g, i) for i, g in enumerate(gl)]
    L += ['function mk(x, y)', '  return [x, y, [x], "m" + x]', 'end',
          'function hold(x, n)', '  var mine = [x, n]', '  if (n > 0)', '    var y = hold(mine, n - 1)', '    return [mine, y]', '  end', '  return mine', 'end',
          'function main(p, q)']
    for i, x in enumerate(lo):
        L.append('  var %s = %s' % (x, r.choice(['[p, q, none]', 'new_array(3)', 'mk(p, 1)', '[G0, G1, G2]', '["s" + p, 1.5, mk]'])))
    v = lo + gl
    for i in range(r.randrange(6, 26)):
        x, y, z = r.choice(v), r.choice(v), r.choice(v)
        e = r.choice([y, '"t%d" + %d' % (i, i), '[%s, %s]' % (y, z), 'mk(%s, "%s")' % ('p', y), '%s[%d]' % (y, r.randrange(3)), 'none', '%d.5' % i, '%d' % (i * 1000), 'hold(%s, %d)' % (y, r.randrange(4)),
                      'mk', 'emit', 'new_array(%d)' % r.randrange(1, 40), '[mk(1, 2)[%d], %s[0]]' % (r.randrange(4), z), '[%s, echo("e" + %d), %s]' % (y, i, z)])
        L.append('  ' + r.choice(['%s[%d] = %s' % (x, r.randrange(2), e)] * 3 + ['%s = [%s, %s, 0]' % (x, e, z), 'var t%d = %s' % (i, e), 'emit(%s, %s)' % (x, e)]))
        if r.random() < 0.3:
            L.append('  emit(%s)' % ', '.join(v))
    L += ['  emit(%s)' % ', '.join(v), '  return [%s, p, q]' % ', '.join(v), 'end']
    src = '\n'.join(L) + '\n'
    steps = [('init',), ('run', 'main', [7, b'arg']), ('globals',), ('call', 'main', [b'x' * r.choice([0, 1, 40]), 2.5]), ('globals',)]
    core.differential(ctx, parse(src), steps, src=src, key='collection visible', opts=(r.randrange(2),), modes=['inst 400000'] + modes(r, 1))
    ctx.sample(src[-900:])


CHURN = ['new_array(200)', '[i, i, [i, "x"], i]', '"churn" + i', '"%s" + i' % ('long' * 60), 'i * 1.5', '[[[[i]]]]', 'id([i, "s" + i])', 'new_array(1000)', 'mk2(i)']


def do_pressure(ctx, k):
    """collections triggered by the machine itself, at every phase of the heap"""
    r = ctx.rng()
    ch = r.choice(CHURN)
    cost = {'new_array(200)': 1650, 'new_array(1000)': 8050, '"%s" + i' % ('long' * 60): 550}.get(ch, 150)
    n = r.choice([1, 2, 3]) * 800000 // cost
    n = min(n, 4000)
    L = ['var keep = [1, [2, "three"], 4.5, none, main]', 'var g2', 'function id(x)', '  return x', 'end',
         'function mk2(x)', '  var l = [x, none]', '  l[1] = l', '  return l', 'end',
         'function churn(n)', '  var i', '  var t', '  for (i = 0 to n)', '    t = %s' % ch, '  end', '  return %s' % r.choice(['t', 'n', '"done"', '[t, n]']), 'end',
         'function deep(x, n)', '  var mine = [x, n, "d" + n]', '  if (n > 0)', '    return [mine, deep([x, mine], n - 1)]', '  end',
         '  var c = churn(%d)' % n, '  emit(mine)', '  return [x, mine]', 'end',
         'function main(p)', '  var a = [p, "a", keep]', '  var b = ["b" + p, a]', '  a[1] = b', '  var pad = new_array(%d)' % r.choice([1, 7, 50, 900, 2500]),
         '  pad[0] = a', '  g2 = [b, "g2"]']
    for i in range(r.choice([1, 2])):
        L.append('  ' + r.choice(['churn(%d)' % n, 'var c%d = [a, churn(%d), b, "lit" + 1]' % (i, n), 'emit("x" + p, [a, "tmp" + p], churn(%d), b)' % n, 'emit(deep(a, %d))' % r.choice([0, 1, 5, 60]),
                                  'b[0] = "b%d" + churn(%d) + "e"' % (i, n) if 'return n' in '\n'.join(L) else 'b[0] = [churn(%d), "k"]' % n]))
        L.append('  emit(a, b, keep, g2, pad[0] == none)')
    L += ['  return [a, b, keep, pad[0]]', 'end']
    src = '\n'.join(L) + '\n'
    steps = [('init',), ('run', 'main', [b'P' * r.randrange(1, 9)]), ('globals',), ('call', 'main', [5]), ('globals',)]
    core.differential(ctx, parse(src), steps, src=src, key='collection visible', opts=(r.randrange(2),), modes=[None, r.choice(['go 3000000 1', 'go 3000000 7', 'slices 3000000 100 3 1', 'line 3000000'])] if r.random() < 0.3 else [None],
                      budget=400000)


def sleepy(r, decls):
    """let functions of a program wait here and there"""
    def walk(body):
        for s in list(body):
            if s.k == 'if':
                walk(s.b)
                if s.c is not None:
                    walk(s.c)
            elif s.k == 'while':
                walk(s.b)
            elif s.k == 'for':
                walk(s.d)
        if r.random() < 0.6:
            n = r.choice([0, 1, 1, 2, 3, 7, 30, -1])
            w = ('call', ('id', 'wait'), [('int', n)])
            body.insert(r.randrange(0, len(body) + 1), lang.S('call', r.choice([w, ('call', ('id', 'emit'), [('arr', [('int', n), w]), ('str', b'w')])])))
    for d in decls:
        if d.k == 'func':
            walk(d.c)
    return lang.Printer(lang.Style(r)).program(decls)


def do_passes(ctx, k):
    """threads that sleep, run out of their budget or have not begun yet while
    others allocate: the machine schedules and collects by itself"""
    r = ctx.rng()
    cfg = gen.Cfg(err=0, arrays=2.0, strings=1.5, nest=2, stmts=5, depth=3, funcs=3, globals=0, consts=1, recursion=1.0, globals_init_calls=0)
    for _ in range(60):
        g, decls, src = kit.random_program(ctx, r, cfg)
        if not any(d.k == 'gvar' for d in decls):
            break
    else:
        return
    ch = r.choice(['new_array(%d)' % r.choice([200, 1000, 3000]), '"%s" + zi' % ('long' * 60), '[zi, "c" + zi, [zi]]'])
    src = sleepy(r, decls)
    src += '\nfunction zchurn(zn)\n  var zi\n  var zt\n  for (zi = 0 to zn)\n    zt = %s\n  end\n  return [zn, "z"]\nend\n' % ch
    cost = 8 * int(ch[10:-1]) if ch.startswith('new') else 600 if 'long' in ch else 150
    decls = parse(src)
    want = {}
    s = 'hand 0 3 0\n'
    try:
        if core.div_by_zero(decls):
            raise lang.Budget()
        for i in range(r.randrange(2, 6)):
            args = kit.value_args(g, r, g.margs)
            I, w, keys = core.expect(decls, [('init',), ('run', 'main', args)], budget=1500)
            if not w[-1].startswith('run fin=1 err=success'):
                raise lang.Budget()
            want[i + 1] = w[1:]
            s += 'spawn 0 %d main%s\n' % (i + 1, core.args_text(args))
            if r.random() < 0.3:
                s += 'pass 0 %d\n' % r.choice([1, 5, 20])
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    z = 'spawn 0 100 zchurn i%d\n' % min(1100000 // cost, 2500)
    b = r.choice([3, 11, 40, 200, 5000])
    s += ''.join(r.choice(['', z]) + 'pass 0 %d\n' % r.choice([1, 4, b]) for _ in range(r.randrange(1, 8))).replace(z, '', 2).replace(z, z.replace('100', '101', 1), 1) if r.random() < 0.3 else z
    s += 'passes 0 %d %d\n' % (40, b) + 'passes 0 %d 100000\n' % 2000 + 'threads 0\n'
    ctx.count['sleeping_threads'] += len(want)
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode('latin1'))
    by = {i: [] for i in want}
    for l in lines:
        p = l.split(' ')
        if p[0] == 'E' and int(p[2]) in by:
            by[int(p[2])].append(core.observe([l])[0][0])
        elif p[0] == 'TF' and int(p[1]) in by:
            by[int(p[1])].append(core.observe(['run fin=1 err=%s ret=%s line=0:0 cyc=0' % (p[2], p[3])])[0][0])
        elif p[0] == 'TE' or l.startswith('build err'):
            ctx.fail('thread failed', source=src, line=l)
        elif p[0] == 'threads':
            for t in p:
                q = t.split(':')
                if q[0].isdigit() and q[2] == '0' and int(q[0]) in want:
                    # still asleep: what it did so far counts
                    want[int(q[0])] = want[int(q[0])][:len(by[int(q[0])])]
                    ctx.count['still_asleep'] += 1
    for i in want:
        d = core.first_diff(by[i], want[i])
        if d:
            ctx.fail('collection visible to a sleeping thread', thread=i, source=src, **d)
        ctx.evals += 1
    ctx.seen(sorted(want.items()))


def do_idle(ctx, k):
    """threads that were given arguments and do not run at all for a while:
    not begun, at a breakpoint, in a wait, halted, out of cycles"""
    r = ctx.rng()
    src = '''function id(x)
  return x
end
function body(p, q, how)
  var l = [p, "l" + q, [q]]
  var m = "m" + q
  if (how == 1)
    wait(1000)
  end
  if (how == 2)
    hhalt()
  end
  var n = [m, l]
  emit(p, q, l, m, n, id([m, hstop(how), "pending" + q]))
  return [l, m, n, p, q]
end
function hstop(how)
  var in = ["inner" + how]
  if (how == 3)
    wait(500)
  end
  if (how == 4)
    hhalt()
  end
  return in
end
function churn(n)
  var i
  for (i = 0 to n)
    var t = ["c" + i, new_array(100)]
  end
  return n
end
'''
    decls = parse(src)
    bpl = src[:src.index('var n = ')].count('\n') + 1
    want, s, fin = {}, '', ''
    for i in range(1, r.randrange(3, 9)):
        how = r.randrange(7)
        a = [r.choice([b'P%d' % i, i * 1.5, None, i]), r.choice([b'q' * r.randrange(1, 60), i]), how]
        I, w, keys = core.expect(decls, [('init',), ('run', 'body', a)], budget=100000)
        want[i] = w[1:]
        s += 'spawn 0 %d body%s\n' % (i, core.args_text(a))
        if how == 5:
            s += 'bp 0 %d add 0 %d\n' % (i, bpl)
            fin += 'bp 0 %d clear 0 0\n' % i
        if how != 6:
            s += r.choice(['slice 0 %d %s\n' % (i, r.choice(['100000', '100000', '12', '30', '44'])), 'slice 0 %d i\n' % i * r.randrange(1, 60), 'slice 0 %d l\n' % i * r.randrange(1, 8)])
        if r.random() < 0.3:
            s += 'call 0 churn i%d\n' % r.choice([1, 5])
        fin += 'run 0 %d %s\n' % (i, r.choice(['go 400000 9', 'inst 400000']))
    s += r.choice(['call 0 churn i20\n', 'call 0 churn i1300\n', 'call 0 churn i2600\n', 'spawn 0 90 churn i9\nrun 0 90 inst 400000\n'])
    got = {i: [] for i in want}
    order = [int(l.split()[2]) for l in fin.split('\n') if l.startswith('run')]
    on = False
    for l in ctx.run(core.script(src, r.randrange(2), [('init',)]) + (s + 'say fin\n' + fin).encode('latin1')):
        p = l.split(' ')
        if p[0] == 'E' and int(p[2]) in got:
            got[int(p[2])].append(core.observe([l])[0][0])
        elif l == 'say fin':
            on = True
        elif p[0] == 'run' and on:
            got[order.pop(0)].append(core.observe([l])[0][0])
    for i in want:
        d = core.first_diff(got[i], want[i])
        if d:
            ctx.fail('collection visible to an idle thread', thread=i, source=src, script=s + fin, **d)
        ctx.evals += 1
    ctx.seen(sorted(want.items()), s)


def do_threads(ctx, k):
    """several threads with live locals, one of which collects at a time"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0.04]), arrays=2.0, strings=1.5, nest=2, stmts=5, depth=3, funcs=3, globals=0, consts=1, recursion=1.0, globals_init_calls=0)
    for _ in range(60):
        g, decls, src = kit.random_program(ctx, r, cfg)
        if not any(d.k == 'gvar' for d in decls):
            break
    else:
        return
    if r.random() < 0.5:
        src = sleepy(r, decls)
    nt = r.randrange(2, 6)
    want = {}
    plan = []
    try:
        if core.div_by_zero(decls):
            raise lang.Budget()
        for i in range(nt):
            if r.random() < 0.6 or not g.funcs:
                f, args = 'main', kit.value_args(g, r, g.margs)
            else:
                fn = r.choice(g.funcs)
                f, args = fn[0], kit.value_args(g, r, ['i' if a == 'a' else a for a in fn[2]])
                if fn[4]:
                    args[0] = r.randrange(0, 5)
            I, w, keys = core.expect(decls, [('init',), ('run', f, args)], budget=1500)
            want[i + 1] = w[1:]
            plan.append('spawn 0 %d %s%s\n' % (i + 1, f, core.args_text(args)))
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    s = ''.join(plan)
    ids = list(want)
    for _ in range(r.choice([60, 150, 300])):
        s += 'slice 0 %d %s\n' % (r.choice(ids), r.choice(['i', 'i', '1', '2', '5', '17', 'l']))
    r.shuffle(ids)
    for i in ids:
        s += 'run 0 %d %s\n' % (i, r.choice(['inst 400000', 'go 400000 9', 'mix 400000 %d 200 9' % r.randrange(999)]))
    r.shuffle(ids)
    # results of finished threads are still there after further collections
    for i in ids:
        s += 'run 0 %d inst 10\n' % i
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode('latin1'))
    by = {i: [] for i in want}
    order = []
    fin = {}
    ids1 = [int(l.split()[2]) for l in s.split('\n') if l.startswith('run ')]
    pos = 0
    first = {}
    for l in lines:
        if l.startswith('E '):
            by[int(l.split(' ')[2])].append(core.observe([l])[0][0])
        elif l.startswith('run '):
            t = ids1[pos]
            pos += 1
            o = core.observe([l])[0][0]
            if t in first:
                if o != first[t]:
                    ctx.fail('result of a finished thread changed', got=o, want=first[t], source=src)
            else:
                first[t] = o
                by[t].append(o)
        elif l.startswith('build err'):
            ctx.fail('rejected', source=src, line=l)
    for i in want:
        d = core.first_diff(by[i], want[i])
        if d:
            ctx.fail('collection visible to another thread', thread=i, source=src, **d)
        ctx.evals += 1
    ctx.seen(sorted(want.items()))


def do_finished(ctx, k):
    """values of finished and failed threads and globals across host calls"""
    r = ctx.rng()
    src = '''var g = ["init", [1, 2]]
function make(x)
  var l = [x, "made" + x, [x]]
  l[2] = l
  g = [l, g[0]]
  return l
end
function fail(x)
  var l = [x, "lost"]
  g[1] = l
  return l[9]
end
function churn(n)
  var i
  for (i = 0 to n)
    var t = [i, "c" + i]
  end
  return [n, "churned"]
end
function pass(a, b)
  return [a, b, "p" + b]
end
'''
    steps = [('init',)]
    for _ in range(r.randrange(3, 9)):
        f = r.choice(['make', 'make', 'fail', 'churn', 'pass'])
        a = {'make': [r.choice([5, b'str', 2.5, None])], 'fail': [1], 'churn': [r.choice([0, 5, 40])], 'pass': [r.choice([1, b'q', None]), r.choice([2, b''])]}[f]
        steps += [(r.choice(['run', 'call']), f, a), ('globals',)]
    core.differential(ctx, parse(src), steps, src=src, key='collection visible', opts=(0,), modes=['inst 400000', None] + modes(r, 1))


def do_deep(ctx, shape, n):
    """structures of a given shape and size, checked by the script itself and
    by a dump, after forced collections"""
    mk = ['''  l = none
  for (i = 0 to n)
    l = [i, l]
  end''', '''  l = new_array(n)
  for (i = 0 to n)
    l[i] = [i, l]
  end''', '''  l = [0, 0]
  for (i = 0 to n)
    l = [l, l]
    if (bitand(i, 15) == 15)
      l = [i, i]
    end
  end''', '''  l = ["", 0]
  var s = ""
  for (i = 0 to n)
    l = ["s" + i, l]
  end''', '''  l = new_array(n)
  for (i = 1 to n)
    l[i] = l[i / 2]
    if (bitand(i, 3) == 0)
      l[i] = ["n" + i, i * 0.5, l[i - 1]]
    end
  end''', '''  l = [0, none]
  l[1] = l
  var h = l
  for (i = 0 to n)
    h[1] = [i, l]
    h = h[1]
  end''', '''  l = new_array(n)
  var one = [1, "shared"]
  for (i = 0 to n)
    l[i] = one
  end''', '''  l = new_array(2)
  var k = l
  for (i = 0 to n)
    var m = new_array(2)
    m[0] = l
    k[1] = m
    k = m
  end''', '''  l = new_array(n)
  for (i = 0 to n)
    if (bitand(i, 1))
      l[i] = mk
    else
      l[i] = emit
    end
  end'''][shape]
    if shape in (3, 4) and n > 4000:
        n = 4000
    src = '''var keep
function mk(n)
  var l
  var i
%s
  return l
end
function main(n)
  keep = mk(n)
  return keep
end
function count(n)
  var x = keep
  var c = 0
  while (c < n)
    c += 1
    if (x == none)
      return c
    end
    x = x[1]
  end
  return c
end
function noop()
  return keep
end
''' % mk
    steps = [('init',), ('run', 'main', [n]), ('globals',)]
    decls = parse(src)
    try:
        I, want, keys = core.expect(decls, steps, budget=2000000)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    s = core.script(src, 1, steps)
    # forced collections, then look again.  dumps stop at their own limits
    s += b'spawn 0 300 noop\nrun 0 300 inst 1000\nglobals 0\ncall 0 noop\nspawn 0 301 noop\nrun 0 301 inst 1000\nglobals 0\n'
    lines = [l for l in ctx.run(s)]
    g = [l for l in lines if l.startswith('globals')]
    ctx.evals += 3
    if len(g) != 3 or g[1] != g[0] or g[2] != g[0]:
        ctx.fail('collection changed a structure', shape=shape, n=n, before=g[:1][0][:600] if g else '', after=[x[:600] for x in g[1:]])
    if '~' not in g[0]:
        core.judge(ctx, 'collection visible', lines[:lines.index(g[0]) + 1], want, src)
    ctx.seen(shape, n, g[0][:2000])


def do_kinds(ctx, k):
    """every kind of value in every kind of root, long enough ago"""
    r = ctx.rng()
    vals = ['12345', '-1', '2.5', '"text"', '""', 'none', 'f', 'abs', '[1]', '["x", [f]]', '"%s"' % ('w' * r.choice([1, 15, 16, 255, 4000])), 'new_array(%d)' % r.choice([1, 2, 500])]
    r.shuffle(vals)
    L = ['var g%d = %s' % (i, v) for i, v in enumerate(vals)]
    L += ['function f(x)', '  return x', 'end', 'function main(%s)' % ', '.join('p%d' % i for i in range(4))]
    L += ['  var l%d = %s' % (i, v) for i, v in enumerate(vals)]
    allv = ['g%d' % i for i in range(len(vals))] + ['l%d' % i for i in range(len(vals))] + ['p%d' % i for i in range(4)]
    L += ['  emit(%s)' % ', '.join(['f(%s)' % x if r.random() < 0.4 else x for x in allv]), '  l0 = [%s]' % ', '.join(allv[::-1]), '  g1 = l0', '  emit(%s)' % ', '.join(allv), '  return [%s]' % ', '.join(allv), 'end']
    src = '\n'.join(L) + '\n'
    core.differential(ctx, parse(src), [('init',), ('run', 'main', [r.choice([1, b'\0', b'a\0b']), r.choice([b'two', b'\0tail', b'x' * 40 + b'\0' + b'y' * 9]), 3.5, r.choice([None, bytes(r.randrange(256) for _ in range(r.randrange(60)))])]), ('globals',)], src=src, key='collection visible', modes=['inst 400000', 'line 400000'] + modes(r, 2))


def do_shape(ctx, name, n):
    r = ctx.rng()
    ms = [m.replace(' 400000', ' 4000000') for m in modes(r, 1)]
    shapes.run(ctx, name, n, r.choice([False, True]), key=': collection visible', opts=(r.randrange(2),), modes=ms)
