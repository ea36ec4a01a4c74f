"""C10 runtime errors: precise, contained, recoverable"""
import re
import lang, core, gen, kit, mutate, shapes
from lang import dump, Fn, Sys
from parse import parse, SyntaxErr
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Every operation applied to every combination of value kinds, at random places of call chains, loops and threads; programs with many '
        'ill typed operations; host raised errors; unbound host functions; runaway recursion and memory use; damaged sample programs. Error code, '
        'source line, events before the error and globals are compared with the reference interpreter; handlers count reports; other threads are '
        'compared with their undisturbed runs; after each error further calls must work. Non-trivial: log with an error, not seen before.')
CHUNK = 4
NOCRASH = 'any crash, sanitizer report or hang of the executor is a violation'


def cases(ctx):
    n = 14 if ctx.quick else 60
    out = [('random', k) for k in range(800 * n)]
    out += [('place', k) for k in range(600 * n)]
    out += [('contain', k) for k in range(250 * n)]
    out += [('spawn', k) for k in range(60 * n)]
    out += [('host', k) for k in range(24)]
    out += [('unbound', k) for k in range(30 * n)]
    out += [('first', k) for k in range(len(FIRST))]
    out += [('runaway', k) for k in range(len(RUNAWAY))]
    out += [('memory', k) for k in range(len(MEMORY))]
    out += [('corpus', k) for k in range(0, 700 * n)]
    out += [('names', 0)]
    out += [('init', k) for k in range(60 * n)]
    out += [('uninit', k) for k in range(8 * n)]
    out += [('large', k) for k in range(2 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 2)]
    out = shapes.huge_cases(ctx, 'late_lines', 'many_items', 'many_args', 'long_jumps', 'many_strs') + out
    return out


def do_spawn(ctx, k):
    """threads started with fitting and unfitting arguments of every kind"""
    kit.spawn_args(ctx)


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def has_err(want):
    return any('err=' in l and 'err=success' not in l for l in want)


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0.1, 0.2, 0.4]), nest=r.choice([1, 2, 3]), stmts=r.choice([3, 5]), depth=r.choice([2, 3, 4]), funcs=r.choice([2, 4]), globals=4,
                  emit=0.4, ints=gen.INTS + ctx.mined)
    g, decls, src = kit.random_program(ctx, r, cfg)
    core.differential(ctx, decls, kit.random_steps(g, r, 6), src=src, key='wrong error behaviour', nontrivial=has_err)
    ctx.sample(src[:900])


VALS = ['none', '0', '7', '-1', '2.5', '0.0', '""', '"s"', 'fn', 'abs', 'arr', 'emit']
OPSX = ['%s + %s', '%s - %s', '%s * %s', '%s / %s', '%s %% %s', '%s < %s', '%s > %s', '%s <= %s', '%s >= %s', '%s == %s', '%s and %s', '%s or %s',
        '%s[%s]', 'bitand(%s, %s)', 'min(%s, %s)', 'max(%s, %s)']
OPS1 = ['-%s', 'not %s', '%s()', '%s(1)', '%s(1, 2)', 'abs(%s)', 'len(%s)', 'chr(%s)', 'new_array(%s)', 'sqrt(%s)', 'floor(%s)', 'round(%s)', 'ceil(%s)', '%s.length', '%s.foo', 'sin(%s)', 'wait(%s)',
        '%s.length_', '%s.lengths', '%s.lengt', '%s.Length', '%s.LENGTH', '%s.l', '%s.len', '%s.size']


def do_place(ctx, k):
    """one operation, at a place where something is pending"""
    r = ctx.rng()
    hide = lambda v: r.choice(['opaque(%s)' % v, 'opaque(%s)' % v, 'loc', 'glob', 'p'])
    L = ['var glob = %s' % r.choice(VALS), 'var arr = [1, "e", none]', 'var touched = 0', 'function fn(x)', '  touched += 1', '  return x', 'end']
    ops = []
    for j in range(5):
        if r.random() < 0.65:
            e = r.choice(OPSX) % (hide(r.choice(VALS)), hide(r.choice(VALS)))
        else:
            e = r.choice(OPS1) % hide(r.choice(VALS))
        place = r.choice(['  loc = %s', '  glob = %s', '  emit("a", %s, "b")', '  arr[1] = %s', '  arr[%s] = 5', '  if (%s)\n    emit("t")\n  else\n    emit("f")\n  end', '  return [1, %s]', '  while (%s)\n    return "w"\n  end',
                          '  emit(fn(1) + fn(%s))', '  var v%d = [touched, fn(2), (%%s)]' % j, '  fn(%s)', '  glob = [fn(3), %s, fn(4)]', '  for (i = 0 to %s)\n    return i\n  end', '  touched += %s', '  emit(echo(1), %s, echo(2))'])
        L += ['function op%d(p)' % j, '  var loc = %s' % r.choice(VALS), '  var i', '  emit("in", %d, p)' % j, place % (('(%s)' % e) if e[0] == 'n' and 'fn(' in place else e), '  touched += 100', '  emit("after", loc)', '  return loc', 'end']
        ops.append('op%d' % j)
    L += ['function deep(f, p, n)', '  var keep = [n, "k"]', '  if (n > 0)', '    var q = deep(f, p, n - 1)', '    emit("back", n, keep)', '    return [q, keep]', '  end', '  return f(p)', 'end',
          'function loop(p)', '  var i', '  for (i = 0 to 3)', '    emit(i)', '    %s(p)' % r.choice(ops), '  end', 'end']
    src = '\n'.join(L) + '\n'
    try:
        decls = parse(src)
    except SyntaxErr:
        ctx.skipped += 1
        return
    steps = [('init',)]
    for _ in range(8):
        f = r.choice(ops + ['deep', 'deep', 'loop'])
        p = r.choice([None, 0, 5, -3, 1.5, b'', b'txt', Fn('fn'), Sys('abs')])
        if f == 'deep':
            steps += [(r.choice(['call', 'run']), 'deep', [Fn(r.choice(ops)), p, r.choice([0, 1, 3, 9])])]
        else:
            steps += [(r.choice(['call', 'run']), f, [p])]
        steps.append(('globals',))
    core.differential(ctx, decls, steps, src=src, key='wrong error behaviour', opts=(r.randrange(2),), nontrivial=has_err)
    ctx.sample(src[-900:])


def do_contain(ctx, k):
    """failing threads among others"""
    r = ctx.rng()
    bad = r.choice(['g[9] = 1', 'loc = 1 / opaque(0)', 'loc = loc - "s"', 'loc = loc.x', 'fv(1, 2)', 'loc = g["k"]', 'herr(%d)' % r.randrange(20), 'loc = bitand("a", 1)', 'loc = chr("x")', 'noargs(loc)'])
    if bad == 'noargs(loc)':
        bad = 'fv(loc)'
    src = '''var g = [1, 2]
var slots = new_array(10)
var fv = zero
function zero()
  return 0
end
function good(id, n)
  var i
  var t = [id]
  for (i = 0 to n)
    t = [t[0] + i]
    slots[id] = t[0]
    emit(id, i, t[0])
  end
  return t
end
function inner(id)
  var loc = "x"
  emit(id, "before")
  %s
  emit(id, "after")
  slots[0] = "after"
  return loc
end
function bad(id, n)
  var i
  for (i = 0 to n)
    slots[id] = i
    emit(id, i)
  end
  var x = [1, inner(id)]
  emit(id, "never")
end
function check(x)
  return [x, g, slots[0]]
end
''' % bad
    line = 1 + src.split('\n').index('  ' + bad)
    n = r.randrange(3, 8)
    kinds = ['bad'] + [r.choice(['bad', 'good', 'good', 'good']) for _ in range(n - 1)]
    r.shuffle(kinds)
    par = [r.randrange(0, 8) for _ in kinds]
    s = 'passes 0 2 10\nhand 0 3 0\n'
    order = list(range(n))
    r.shuffle(order)
    started = 0
    b = r.choice([1, 3, 10, 40, 100000])
    todo = order[:]
    for p in range(14 * 90 // min(b, 90) + 30):
        while todo and (p == 0 or r.random() < 0.1 or b > 1000):
            i = todo.pop()
            s += 'spawn 0 %d %s i%d i%d\n' % (i + 1, kinds[i], i + 1, par[i])
        s += 'pass 0 %d\n' % b
    for i in todo:
        kinds[i] = None
    s += 'pass 0 100000\n' * (n + 3) + 'threads 0\nhand 0 0 0\nglobals 0\ncall 0 check i5\ncall 0 good i8 i3\ncall 0 bad i9 i1\ncall 0 check i6\nglobals 0\n'
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode())
    end = [i for i, l in enumerate(lines) if l.startswith('threads')][0]
    code = None
    for l in lines:
        if l.startswith('TE '):
            code = l.split(' ')[2]
            break
    want_code = {'g[9] = 1': 'bad_array_bounds', 'loc = 1 / opaque(0)': 'bad_divide_by_zero', 'loc = loc - "s"': 'bad_type_operation', 'loc = loc.x': 'bad_member_access',
                 'fv(1, 2)': 'bad_num_args', 'fv(loc)': 'bad_num_args', 'loc = g["k"]': 'bad_array_index', 'loc = bitand("a", 1)': 'bad_argument', 'loc = chr("x")': 'bad_argument'}.get(bad)
    if bad.startswith('herr'):
        want_code = lang.ERRORS[1 + int(bad[5:-1]) % (len(lang.ERRORS) - 1)]
    ev = {}
    te = {}
    tf = {}
    for l in lines[:end]:
        p = l.split(' ')
        if l.startswith('E '):
            ev.setdefault(int(p[2]), []).append(p[5:])
        elif l.startswith('TE '):
            te.setdefault(int(p[1]), []).append((p[2], p[3]))
        elif l.startswith('TF '):
            tf.setdefault(int(p[1]), []).append(p[2:])
    nbad = 0
    for i, kd in enumerate(kinds):
        t = i + 1
        if kd == 'good':
            want, x = [], t
            for j in range(par[i]):
                x += j
                want.append(['i%d' % j, 'i%d' % x])
            if ev.get(t, []) != want or te.get(t) or tf.get(t) != [['success', 'A0(i%d)' % x]]:
                ctx.fail('bystander thread affected by an error', thread=t, got=ev.get(t), want=want, err=te.get(t), fin=tf.get(t), source=src)
        elif kd == 'bad':
            nbad += 1
            want = [['i%d' % j] for j in range(par[i])] + [[dump(b'before')]]
            if ev.get(t, []) != want:
                ctx.fail('failing thread did not stop at the error', thread=t, got=ev.get(t), want=want, source=src)
            if te.get(t) != [(want_code, '0:%d' % line)]:
                ctx.fail('error not reported once with code and line', thread=t, got=te.get(t), want=(want_code, line), source=src)
            if len(tf.get(t, [])) != 1:
                ctx.fail('failed thread not finished once', thread=t, got=tf.get(t))
    if sum(l.startswith('pass 0') for l in lines[:end]) != nbad:
        ctx.fail('passes with errors do not match failing threads', got=sum(l.startswith('pass 0') for l in lines[:end]), want=nbad)
    if not lines[end].startswith('threads fin=1 err=0 |'):
        ctx.fail('machine not finished', line=lines[end])
    got = core.observe(lines[end + 1:])[0]
    slots = ['n'] * 10
    for i, kd in enumerate(kinds):
        if kd == 'good' and par[i]:
            slots[i + 1] = 'i%d' % (i + 1 + par[i] * (par[i] - 1) // 2)
        elif kd == 'bad' and par[i]:
            slots[i + 1] = 'i%d' % (par[i] - 1)
    def glob():
        return 'globals A0(i1,i2) A1(%s) Fzero' % ','.join(slots)
    want = [glob(), 'call 1 err=success ret=A0(i5,A1(i1,i2),n)']
    want += ['E emit i8 i%d i%d' % (j, 8 + j * (j + 1) // 2) for j in range(3)] + ['call 1 err=success ret=A0(i11)']
    want += ['E emit i9 i0', 'E emit i9 ' + dump(b'before'), 'call 0 err=%s ret=- line=0:%d' % (want_code, line), 'call 1 err=success ret=A0(i6,A1(i1,i2),n)']
    slots[8], slots[9] = 'i11', 'i0'
    want += [glob()]
    d = core.first_diff(got, want)
    if d:
        ctx.fail('machine disturbed by an error', source=src, **d)
    ctx.evals += 1
    ctx.count['errors_contained'] += nbad
    ctx.seen(kinds, par, b, bad)


def do_host(ctx, k):
    """errors raised by host functions, each code, directly and nested"""
    r = ctx.rng()
    src = '''var g = 0
function hit(c)
  g += 1
  herr(c)
  g += 100
  emit("never")
end
function expr(c)
  g += 1
  var x = [g, herr(c), emit("never")]
  g += 100
end
function via(c)
  var f = herr
  emit("via")
  f(c)
  emit("never")
end
function deep(c, n)
  var keep = [n]
  if (n > 0)
    deep(c, n - 1)
    emit("never")
  end
  return expr(c)
end
'''
    steps = [('init',)]
    for f, a in [('hit', [k]), ('expr', [k]), ('via', [k]), ('deep', [k, r.randrange(0, 20)])]:
        steps += [(r.choice(['call', 'run']), f, a), ('globals',)]
    kit.text_case(ctx, src, steps, 'wrong host error')


def do_unbound(ctx, k):
    """host functions that were declared but never bound"""
    r = ctx.rng()
    na = r.choice([-1, 0, 1, 2])
    form = r.choice(['missing(%s)', 'var x = missing(%s)', 'emit(missing(%s))', 'var f = missing\n  f(%s)', 'var t = [missing]\n  emit(t[0](%s))', 'return missing(%s)'])
    a = ', '.join('echo(%d)' % i for i in range(max(0, na) if na >= 0 else r.randrange(3)))
    src = 'var g = 0\nfunction main()\n  emit("start")\n  g += 1\n  %s\n  emit("never")\n  g += 100\nend\nfunction ok(x)\n  return [x, g, abs(-2)]\nend\n' % (form % a)
    line = 4 + form.count('\n') + 1
    for o in (0, 1):
        s = src_cmd(0, src) + ('comp 0 0 %d bh\nsys 0 missing %d\nsys 0 unused 1\nbuild 0 0\nbind 0 bh\nvm 0 0\ninit 0\n' % (o, na)).encode()
        s += b'spawn 0 1 main\nrun 0 1 go 10000\ncall 0 main\ncall 0 ok i3\nglobals 0\nbindone 0 missing two\ncall 0 main\nglobals 0\n'
        got = core.observe(ctx.run(s))[0]
        st = ['E emit ' + dump(b'start')] + ['E echo i%d' % i for i in range(a.count('echo'))]
        want = ['init 1'] + st + ['run fin=1 err=bad_syscall ret=- line=0:%d' % line] + st + ['call 0 err=bad_syscall ret=- line=0:%d' % line]
        want += ['call 1 err=success ret=A0(i3,i2,i2)', 'globals i2']
        d = core.first_diff(got[:len(want)], want)
        if d:
            ctx.fail('unbound host function', source=src, **d)
        ctx.evals += 1
    ctx.seen(form, na)


FIRST = ['%s()', 'return %s()', 'var v = %s()', 'if (%s())\n    emit("t")\n  end', 'while (%s())\n    emit("t")\n  end', 'g = %s()', 'g += %s()', 'emit(%s())', 'return [%s()]', 'return -%s()', 'var i\n  for (i = %s() to 3)\n  end', 'k(%s())', 'return %s()[0]', 'return %s() + 1', 'return %s()()']


def do_first(ctx, k):
    """the very first instruction of a function, or of the program, fails"""
    st = FIRST[k]
    for o in (0, 1):
        for name, err in (('missing', 'bad_syscall'), ('fails', 'bad_argument')):
            src = 'var g = 0\nfunction k(x)\n  return x\nend\nfunction first()\n  %s\n  emit("never")\nend\nfunction outer()\n  first()\n  emit("never")\nend\nfunction ok()\n  return 5\nend\n' % (st % name)
            line = 6 if not st.startswith('var i') else 7
            if 'g +=' in st:
                src = src.replace('var g = 0', 'var g = 1')
            gv = 'i1' if 'g +=' in st else 'i0'
            s = src_cmd(0, src) + ('comp 0 0 %d bh\nsys 0 missing 0\nsys 0 fails 0\nbuild 0 0\nbind 0 bh\nbindone 0 fails herr\nvm 0 0\ninit 0\npasses 0 2 10\nhand 0 3 0\n' % o).encode()
            for m in ('go 1000', 'inst 1000', 'slices 1000 1 1', 'qline 1000'):
                for f in ('first', 'outer'):
                    s += ('say #%s\nspawn 0 1 %s\nrun 0 1 %s\n' % (m, f, m)).encode()
                s += b'call 0 first\ncall 0 ok\n'
            s += b'spawn 0 2 first\nspawn 0 3 ok\npasses 0 6 100\nthreads 0\nglobals 0\n'
            lines = ctx.run(s)
            if not any(l.startswith('run ') for l in lines):
                ctx.fail('not run', lines=lines[-3:], source=src)
            bad = lambda key, **kw: ctx.fail('first instruction: ' + key, source=src, opt=o, **kw)
            te = [l for l in lines if l.startswith('TE ')]
            res = [l for l in lines if l[:4] in ('run ', 'call')]
            for i, l in enumerate(res):
                if i % 4 == 3:
                    if not l.startswith('call 1 err=success ret=i5'):
                        bad('later call fails', line=l)
                elif 'err=success' in l or 'line=0:%d' % line not in l:
                    bad('wrong error or line', line=l)
                elif name == 'missing' and 'err=bad_syscall' not in l:
                    bad('wrong error', line=l)
            # 3 failing runs for each way, and one in the scheduler
            if len(te) != 13 or any('0:%d' % line not in l for l in te):
                bad('%d error reports for 13 errors' % len(te), got=te[:3])
            if len([l for l in lines if l.startswith('E ')]):
                bad('went on after the error')
            if not lines[-1].startswith('globals ' + gv):
                bad('globals', got=lines[-1])
            ctx.evals += 1
    ctx.seen('first', st)


def errname(l):
    return l.split('err=')[1].split(' ')[0]


RUNAWAY = ['function f()\n  return f()\nend\n', 'function f()\n  f()\nend\n', 'function f()\n  return h()\nend\nfunction h()\n  return f()\nend\n',
           'function f()\n  var x = [f()]\n  return x\nend\n', 'var t = f\nfunction f()\n  return t()\nend\n', 'function f()\n  while (1)\n    f()\n  end\nend\n',
           'function f()\n  return f() + 1\nend\n']


def do_runaway(ctx, k):
    src = RUNAWAY[k] + 'var g = [1, "x"]\nfunction ok(n)\n  if (n > 0)\n    return ok(n - 1)\n  end\n  return g\nend\n'
    for o in (0, 1):
        s = core.script(src, o, [('init',)]) + b'spawn 0 1 f\nrun 0 1 go 3000000\ncall 0 ok i100\npasses 0 3 100\ncall 0 f\ncall 0 ok i2000\nspawn 0 2 f\nspawn 0 3 ok i50\npasses 0 400 5000\nthreads 0\ncall 0 ok i1\nglobals 0\n'
        lines = ctx.run(s, cpu=60)
        res = [l for l in lines if l[:4] in ('run ', 'call')]
        ok = 'A0(i1,s78)'
        if len(res) != 5 or 'err=stack_overflow' not in res[0] or 'fin=1' not in res[0] or 'err=stack_overflow' not in res[2] or not all(res[i].startswith('call 1 err=success ret=' + ok) for i in (1, 3, 4)):
            ctx.fail('runaway recursion not contained', got=res, source=src)
        if not [l for l in lines if l.startswith('threads fin=1')]:
            ctx.fail('threads left after runaway recursion', lines=lines[-3:])
        ctx.evals += 1
    ctx.seen(k)


MEMORY = ['return new_array(200000)', 'return new_array(2147483647)', 'return new_array(1000000000)', 'return new_array(131072)', 'while (1)\n    l = [l, new_array(5000)]\n  end', 'while (1)\n    s = s + s + "x"\n  end',
          'while (1)\n    keep = [keep, s + "some text", new_array(900)]\n  end', 'while (1)\n    l = new_array(100000)\n    keep = [l, keep]\n  end', 'while (1)\n    keep = [new_array(20000), keep, keep]\n  end', 'return new_array(268435456)', 'return new_array(536870912)']


def do_memory(ctx, k):
    """more live data than fits"""
    src = 'var keep\nvar other = ["o", 2]\nfunction main()\n  var l\n  var s = "seed"\n  emit("go")\n  %s\n  emit("never")\nend\nfunction ok(x)\n  return [x, other, "s" + x]\nend\nfunction drop()\n  keep = none\nend\n' % MEMORY[k]
    for o in (0, 1):
        s = core.script(src, o, [('init',)]) + b'spawn 0 1 main\nrun 0 1 go 3000000\npasses 0 3 100\ncall 0 drop\npasses 0 3 100\ncall 0 ok i1\ncall 0 main\npasses 0 3 100\ncall 0 drop\npasses 0 3 100\ncall 0 ok i2\n'
        lines = ctx.run(s, cpu=60)
        res = [l for l in lines if l[:4] in ('run ', 'call')]
        if len(res) != 6 or 'err=out_of_memory' not in res[0] or 'err=out_of_memory' not in res[3] or any('err=success' not in res[i] for i in (1, 2, 4, 5)):
            ctx.fail('out of memory not contained', got=res, source=src)
        if res[5] != 'call 1 err=success ret=A0(i2,A1(s6f,i2),%s)' % dump(b's2'):
            ctx.fail('state wrong after running out of memory', got=res[5])
        ctx.evals += 1
    ctx.seen(k)


def do_corpus(ctx, k):
    """sample programs, intact or damaged, run to their end or budget: no crash,
    errors are reported once and name a documented code"""
    r = ctx.rng()
    c = mutate.corpus()
    src = c[k % len(c)] if k < len(c) and k % 3 == 0 else r.choice(c)
    if k % 3:
        for _ in range(r.choice([1, 2])):
            src = mutate.mutate(r, src, extra=ctx.mined_strings)
    import re
    src = re.sub(r'(?i)\bimport\b', 'x', src)
    fs = re.findall(r'(?im)^\s*function\s+(\w+)\s*\(([^)]*)\)', src)
    s = 'hand 0 3 0\nspawn 0 1 @init\nrun 0 1 go 60000\n'
    for i, (f, a) in enumerate(fs[:6]):
        na = len([x for x in a.split(',') if x.strip()])
        s += 'spawn 0 %d %s%s\nrun 0 %d %s\n' % (10 + i, f, ''.join(' ' + r.choice(['i0', 'i5', 'n', 's6162', 'f40200000', 'G0', 'i-1']) for _ in range(na)), 10 + i, r.choice(['go 60000', 'mix 3000 %d 300 9' % k, 'slices 60000 100 1']))
    s += 'passes 0 20 200\n'
    lines = ctx.run(src_cmd(0, src) + ('comp 0 0 %d bh\nbuild 0 0\n' % r.randrange(2)).encode())
    if 'build ok' not in lines:
        ctx.count['rejected'] += 1
        return
    lines = ctx.run(src_cmd(0, src) + ('comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\n' % r.randrange(2)).encode() + s.encode('latin1'))
    te = {}
    for l in lines:
        if l.startswith('TE'):
            p = l.split(' ')
            te[p[1]] = te.get(p[1], 0) + 1
            if te[p[1]] > 1:
                ctx.fail('error reported twice', line=l, source=src)
            if p[2] in ('success', 'unknown'):
                ctx.fail('error without code', line=l, source=src)
            if p[2] in ('bad_opcode', 'stack_underflow', 'bad_pop', 'bad_getv', 'bad_setv', 'bad_set_global', 'bad_get_global', 'bad_globals_size', 'bad_prepare'):
                ctx.fail('machine in a bad state: ' + p[2], line=l, source=src)
    ctx.evals += 1
    ctx.seen(tuple(lines))


def do_names(ctx, k):
    lines = ctx.run('errname\n')
    names = [l.split(' ') for l in lines if l.startswith('errname')]
    for n in names:
        if n[2] != 'e_' + n[1]:
            ctx.fail('wrong error name', line=n)
    if len({n[2] for n in names}) != len(names):
        ctx.fail('error names not distinct')
    ctx.evals += len(names)


def do_init(ctx, k):
    """errors while globals are initialised"""
    r = ctx.rng()
    n = r.randrange(1, 6)
    at = r.randrange(n)
    L = []
    for i in range(n):
        e = r.choice(['echo(%d)' % i, 'f(%d)' % i, '[%d, echo("x")]' % i])
        if i == at:
            e = r.choice(['1 / opaque(0)', 'f(1)[2]', 'opaque("a") - 1', 'bad(%d)' % i, '[echo(5), herr(3), echo(6)]', 'opaque(5)()'])
        L.append('var g%d = %s' % (i, e))
    L += ['function f(x)', '  emit("f", x)', '  return x', 'end', 'function bad(x)', '  emit("bad", x)', '  var y = [x]', '  return y[x + 1]', 'end']
    src = '\n'.join(L) + '\n'
    core.differential(ctx, parse(src), [('init',), ('globals',)], src=src, key='wrong initialisation error', nontrivial=has_err)


def do_uninit(ctx, k):
    """functions using globals before the globals exist"""
    r = ctx.rng()
    n = r.randrange(1, 6)
    L = ['var g%d = %d' % (i, i) for i in range(n)]
    uses = ['return g%d', 'g%d = 5', 'g%d += 1', 'g%d[0] = 1', 'emit(g%d)', 'g%d.x = 1', 'g%d()']
    fs = []
    for i, u in enumerate(uses):
        u = u % r.randrange(n)
        L += ['function f%d(p)' % i, '  emit("in", p)', '  ' + u, '  emit("never")', '  return 1', 'end']
        fs.append('f%d' % i)
    L += ['function fine(p)', '  emit("fine", p)', '  return [p]', 'end']
    src = '\n'.join(L) + '\n'
    r.shuffle(fs)
    line = {l: i + 1 for i, l in enumerate(L)}
    text, want = '', []
    for f in fs:
        text += 'call 0 %s i%d\n' % (f, k)
        text += 'call 0 fine i%d\n' % k
        body = L[L.index('function %s(p)' % f) + 2].strip()
        err = 'bad_set_global' if re.match(r'g\d = ', body) else 'bad_get_global'
        want += ['0 err=%s line=0:%d' % (err, L.index('function %s(p)' % f) + 3), '1 err=success']
    text += 'init 0\ncall 0 %s i1\nglobals 0\n' % fs[0]
    lines = ctx.run(core.script(src, r.randrange(2), []) + text.encode())
    res = [l for l in lines if l.startswith('call ')]
    ev = [l.split(' ', 4)[-1] for l in lines if l.startswith('E ')]
    for w, l in zip(want, res):
        d = dict(x.split('=', 1) for x in l.split(' ')[2:] if '=' in x)
        got = '%s err=%s' % (l.split(' ')[1], d['err']) + (' line=' + d['line'] if d['err'] != 'success' else '')
        if got != w:
            ctx.fail('global used before it exists', got=l, want=w, source=src)
    if len(res) != len(want) + 1 or ('init 1' not in lines) or len(ev) < 2 * len(fs):
        ctx.fail('globals used before they exist: vm unusable', got=lines[-6:], source=src)
    ctx.evals += len(res)
    ctx.seen(src, tuple(fs))


def do_large(ctx, k):
    """arguments too large for the heap of the machine: refused without harm"""
    r = ctx.rng()
    src = 'var g = "kept"\nvar h\nfunction f(a, b)\n  emit(len(a), len(b))\n  return len(a)\nend\nfunction hold(a, b)\n  h = a\n  return len(h)\nend\nfunction drop(p)\n  h = none\n  return 1\nend\nfunction fine(p)\n  emit(g, p)\n  return [p, g]\nend\n'
    text, want = '', []
    held = 0
    for j in range(6):
        n = r.choice([10, 1000, 200000, 400000, 450000, 450000, 450000])
        a = 's' + '61' * n
        x = r.random()
        f = r.choice(['f', 'hold', 'hold', 'hold', 'f', 'drop'])
        if f == 'drop':
            n, a = 0, ''
            text += 'call 0 drop i1\n'
            held = 0
        else:
            text += 'call 0 %s %s\n' % (f, a + ' s' if x < 0.5 else 's62 ' + a if x < 0.7 else a + ' ' + a)
        t2 = n if x < 0.7 else 2 * n
        want.append((n, held, t2))
        if f == 'hold':
            held = max(held, n)
        text += 'call 0 fine i%d\nheap 0\n' % j
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + text.encode(), **{'cpu': 60})
    res = [l for l in lines if l.startswith('call ')]
    if len(res) != 12:
        ctx.fail('calls with large arguments: answers missing', got=[l[:200] for l in lines[-4:]])
    for j in range(6):
        l, m = res[2 * j], res[2 * j + 1]
        d = dict(x.split('=', 1) for x in l.split(' ')[2:] if '=' in x)
        n, held, total = want[j]
        if l.split(' ')[1] == '0':
            # only where it is tight
            if d.get('err') != 'out_of_memory' or total + held < 400000:
                ctx.fail('call with a large argument', want=want, at=j, got=l[:300])
            ctx.count['large arguments refused'] += 1
        elif total + held > 1048576 and total > 1000:
            ctx.count['room made by collecting'] += 1
        if m.split(' ')[1] != '1' or 'ret=A0(i%d,s6b657074)' % j not in m:
            ctx.fail('vm unusable after a call with a large argument', n=want[j], got=m[:300])
    ctx.evals += 12
    ctx.seen('large', tuple(want))
    ctx.count['calls with large arguments'] += 6


def do_shape(ctx, name, n):
    shapes.run(ctx, name, n, err=True, key=': wrong error behaviour', nontrivial=has_err)


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    shapes.run_huge(ctx, name, n, key=': wrong error behaviour', err=True)
