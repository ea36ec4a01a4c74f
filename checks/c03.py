"""C03 calls: differential plus a monitor of the operand stack depth"""
import lang, core, gen, kit, shapes
from lang import S, Fn, Sys
from kit import text_case

LEVEL = 'exploration'
RULE = ('Random programs rich in calls, recursion and function values, and templates sweeping the number of arguments, recursion '
        'depth, number of functions, call forms and wrong calls. Events and results are compared with the reference interpreter '
        '(deep recursion: with closed forms), and at every host call the depth of the operand stack is compared with earlier arrivals at '
        'the same place through the same chain of calls. Non-trivial: log not seen before.')
CHUNK = 4


def cases(ctx):
    n = 12 if ctx.quick else 60
    out = [('random', k) for k in range(900 * n)]
    out += [('args', k, s) for k in [0] + kit.thin(ctx, 260, 2) for s in range(2)]
    out += [('depth', k) for k in kit.thin(ctx, 10000, 3, [1000, 3000, 10000])]
    out += [('depth', k) for k in [20000, 33000]]
    out += [('slots', k, m) for k, m in [(300, 300), (3000, 20), (4200, 20), (8000, 5), (9000, 9), (20000, 4), (700, 100), (10000, 15)]]
    out += [('manyfuncs', k) for k in [10, 100, 257, 600]]
    out += [('table', k) for k in range(60 * n)]
    out += [('wrong', k) for k in range(60 * n)]
    out += [('pending', k) for k in range(120 * n)]
    out += [('discard', k) for k in range(20 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 2, only=('params', 'callnest', 'recursion', 'forward', 'funcs', 'emitargs', 'locals_', 'ident', 'concat', 'arrlit'))]
    out = shapes.huge_cases(ctx, 'many_funcs', 'many_params', 'many_args') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0, 0.05]), nest=r.choice([1, 2, 3]), stmts=r.choice([3, 5]), depth=r.choice([2, 3, 4, 5]),
                  funcs=r.choice([3, 6, 10]), globals=3, recursion=r.choice([1, 3]), funcvals=1.0, ints=gen.INTS + ctx.mined)
    g, decls, src = kit.random_program(ctx, r, cfg)
    core.differential(ctx, decls, kit.random_steps(g, r), src=src, key='wrong call', check_balance=True)
    ctx.sample(src[:1500])


def do_args(ctx, n, shape):
    r = ctx.rng()
    ps = ['p%d' % i for i in range(n)]
    vals = ['%d' % (i * 3 + 1) if i % 5 else '"s%d"' % i for i in range(n)]
    if shape == 1:
        vals = [('echo(%s)' % v if r.random() < 0.2 else 'id(%s)' % v if r.random() < 0.2 else v) for v in vals]
    L = ['function id(x)', '  return x', 'end', 'function f(%s)' % ', '.join(ps), '  var loc = 77']
    for i in range(0, n, 12):
        L.append('  emit(%d, %s)' % (i, ', '.join(ps[i:i + 12])))
    if n:
        L.append('  p%d = "changed"' % r.randrange(n))
        L.append('  emit(loc, p0, p%d)' % (n - 1))
    L += ['  return %s' % (r.choice(ps) if n else '"none"'), 'end',
          'function main()', '  var before = 1', '  var r = f(%s)' % ', '.join(vals), '  var after = 2', '  emit(before, r, after)',
          '  var h = f', '  emit(before, h(%s), after)' % ', '.join(vals), '  emit([5, f(%s), 6])' % ', '.join(vals),
          '  f(%s)' % ', '.join(vals), '  emit(before, after)', '  return r', 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', []), ('call', 'f', list(range(n))), ('call', 'f', list(range(n + 1))),
                                         ('call', 'f', list(range(max(0, n - 1)))) if n else ('globals',)], 'wrong arguments', check_balance=True)


def do_depth(ctx, n):
    """recursion n deep, results known in closed form"""
    src = '''function sum(n)
  var mine = n * 2
  if (n < 1)
    emit("bottom")
    return 0
  end
  var r = n + sum(n - 1)
  if (mine - n - n)
    emit("broken", n, mine)
  end
  return r
end
function pend(n)
  if (n < 1)
    return 1
  end
  return n * 2 - (pend(n - 1) - n)
end
function even(n)
  if (n == 0)
    return 1
  end
  return odd(n - 1)
end
function odd(n)
  if (n == 0)
    return 0
  end
  return even(n - 1)
end
function noret(n)
  if (n > 0)
    noret(n - 1)
  end
end
function main(n)
  emit(0)
  var s = sum(n)
  emit(0)
  var p = pend(n)
  emit(0)
  var e = even(n)
  emit(0)
  var q = noret(n)
  emit(0)
  return [s, p, e, q]
end
'''
    p = 1
    for i in range(1, n + 1):
        p = 2 * i - (p - i)
    want = 'A0(i%d,i%d,i%d,i0)' % (lang.i32(n * (n + 1) // 2), lang.i32(p), 1 - n % 2)
    steps = [('init',), ('run', 'main', [n]), ('call', 'main', [n])]
    for o in (0, 1):
        got, bases, b = core.observe(ctx.run(core.script(src, o, steps)))
        ctx.evals += 2
        exp = ['init 1']
        for k in range(2):
            exp += ['E emit i0', 'E emit s' + b'bottom'.hex(), 'E emit i0', 'E emit i0', 'E emit i0', 'E emit i0']
            exp += [('run fin=1 err=success ret=' if k == 0 else 'call 1 err=success ret=') + want]
        d = core.first_diff(got, exp)
        if d:
            ctx.fail('wrong deep recursion', depth=n, **d)
        bs = [x for (i, x) in bases]
        for k in (0, 6):
            top = [bs[k]] + bs[k + 2:k + 6]
            # one more local after each call
            if [x - top[0] for x in top] != [0, 0, 0, 0, 0] and [x - top[0] for x in top] != [0, 1, 2, 3, 4]:
                ctx.fail('stack out of balance after recursion', bases=top)
            ctx.count['balance_points'] += 5
    ctx.seen(n)


def do_slots(ctx, n, m):
    """recursion through frames of many variables: deep operand stacks"""
    L = ['function f(n, a)']
    for i in range(m):
        L.append('  var v%d = %s' % (i, 'na'[i & 1]))
    L += ['  var k = "k"', '  if (n > 0)', '    k = f(n - 1, a) + 1', '    if (%s)' % ' or '.join('not (v%d == %s)' % (i, 'na'[i & 1]) for i in sorted({0, m // 2, m - 1, 1 % m})), '      emit("broken", n)', '    end',
          '    return k', '  end', '  emit("bottom", v0, v%d)' % (m - 1), '  return 0', 'end',
          'function main(n)', '  var x = "before"', '  var r = f(n, 3)', '  emit(x, r)', '  return [x, 1 + f(n, 5)]', 'end']
    src = '\n'.join(L) + '\n'
    hx = lambda b: 's' + b.hex()
    bot = lambda a: 'E emit %s i0 i%d' % (hx(b'bottom'), a if m % 2 == 0 else 0)
    exp = [bot(3), 'E emit %s i%d' % (hx(b'before'), n), bot(5)]
    end = 'A0(%s,i%d)' % (hx(b'before'), n + 1)
    for o in (0, 1):
        got, bases, b = core.observe(ctx.run(core.script(src, o, [('init',), ('run', 'main', [n]), ('call', 'main', [n])], mode='go 100000000')))
        d = core.first_diff(got, ['init 1'] + exp + ['run fin=1 err=success ret=' + end] + exp + ['call 1 err=success ret=' + end])
        if d:
            ctx.fail('wrong deep recursion', depth=n, slots=m, **d)
        ctx.evals += 2
    ctx.seen('slots', n, m)


def do_manyfuncs(ctx, n):
    r = ctx.rng()
    L = []
    for i in range(n):
        L += ['function fn%d(a)' % i, '  emit(%d, a)' % i,
              '  return a + %s' % ('fn%d(a)' % r.randrange(i) if i and r.random() < 0.3 else '%d' % i), 'end']
    L += ['function main()', '  var t = [%s]' % ', '.join('fn%d' % r.randrange(n) for _ in range(30)), '  var i', '  for (i = 0 to 30)',
          '    emit(t[i](i))', '  end', '  return fn%d(1) + fn0(2)' % (n - 1), 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', [])] + [('call', 'fn%d' % r.randrange(n), [5]) for _ in range(10)],
              'wrong function ran', check_balance=True)


def do_table(ctx, k):
    """function values wherever values can be"""
    r = ctx.rng()
    forms = ['t[%d](1)', 'pick(%d)(2)', 'hold%d(3)', 't2[%d][1](4)', 'apply(f%d, 5)', 'apply(pick(%d), 6)', '[f%d][0](7)', '(f%d)(8)',
             'pick(%d)(echo(9))', 'opaque(f%d)(10)', 'apply(t[%d], f0(11))', 'ret(f%d)(12)', 'ret(t[%d])(f1(13))', 'gt[%d](14)', 'echo(t[%d])(15)',
             'pick2(f%d)(1)(16)']
    L = ['var gt = [f0, f1, f2]', 'var last']
    for i in range(3):
        L += ['function f%d(x)' % i, '  emit("f%d", x)' % i, '  last = f%d' % i, '  return x * 10 + %d' % i, 'end']
    L += ['function pick(i)', '  if (i == 0)', '    return f0', '  else', '    if (i == 1)', '      return f1', '    end', '  end', '  return f2', 'end',
          'function apply(f, x)', '  return f(x)', 'end', 'function ret(f)', '  return f', 'end', 'function id(f)', '  return f', 'end',
          'function pick2(f)', '  last = f', '  return pick', 'end',
          'function main()', '  var t = [f0, f1, f2]', '  var hold0 = f0', '  var hold1 = t[1]', '  var hold2 = pick(2)', '  var t2 = [[0, f0], [1, f1], [2, f2]]']
    for _ in range(14):
        a, b = r.choice(forms) % r.randrange(3), r.choice(forms) % r.randrange(3)
        L.append('  ' + r.choice(['emit(%s, %s)' % (a, b), 'var v%d = %s - %s' % (len(L), a, b), 'emit([%s, 1, %s])' % (a, b), 'emit(last, %s == 3)' % a,
                                  'hold1 = f%d' % r.randrange(3), 't[%d] = f%d' % (r.randrange(3), r.randrange(3)), 'gt[%d] = hold%d' % (r.randrange(3), r.randrange(3)),
                                  'hold%d(%s)' % (r.randrange(3), a), 'emit(f%d == t[%d], hold1 == f1)' % (r.randrange(3), r.randrange(3))]))
    L += ['  return last', 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', []), ('call', 'apply', [Fn('f2'), 3]), ('call', 'ret', [Fn('f1')]), ('call', 'apply', [Sys('abs'), -3]),
                                         ('globals',)], 'wrong function value', check_balance=True)


def do_wrong(ctx, k):
    """wrong number of arguments through a value, and calling non functions"""
    r = ctx.rng()
    L = ['var g = 0']
    ns = list(range(5))
    for i in ns:
        L += ['function f%d(%s)' % (i, ', '.join('abcde'[:i])), '  g += 1', '  emit("ran", %d)' % i, '  return %d' % i, 'end']
    calls = []
    for j in range(24):
        kind = r.random()
        nargs = r.randrange(0, 6)
        args = ', '.join(r.choice(['1', '"s"', 'echo(3)', 'none', '[1]']) for _ in range(nargs))
        if kind < 0.6:
            tgt = 'f%d' % r.choice(ns)
        elif kind < 0.8:
            tgt = r.choice(['none', '5', '"str"', '2.5', '[f1]', 'g', 'x'])
        else:
            tgt = r.choice(['abs', 'len', 'two', 'emit', 'bitand'])
        form = r.choice(['v', '[v][0]', 'opaque(v)', '(v)'])
        L += ['function c%d(x)' % j, '  var v = %s' % tgt, '  emit("before", x)', '  var r = %s(%s)' % (form, args), '  emit("after", x, r)', '  return r', 'end']
        calls.append(('call', 'c%d' % j, [j]))
        if r.random() < 0.4:
            calls.append(('globals',))
    text_case(ctx, '\n'.join(L) + '\n', [('init',)] + calls + [('globals',)], 'wrong call accepted or wrong error', check_balance=True)


def do_pending(ctx, k):
    """calls in the middle of expressions with operands pending on both sides"""
    r = ctx.rng()
    depth = r.choice([2, 3, 4])

    def ex(d):
        x = r.random()
        if d == 0 or x < 0.15:
            return r.choice(['a', 'b', 'l', '1', '2', '7', 'echo(3)'])
        if x < 0.35:
            return 'f(%s)' % ex(d - 1)
        if x < 0.5:
            return 'h(%s, %s)' % (ex(d - 1), ex(d - 1))
        if x < 0.58:
            return 'k(%s, %s, %s)' % (ex(d - 1), ex(d - 1), ex(d - 1))
        if x < 0.66:
            return '[%s, %s, %s][%d]' % (ex(d - 1), ex(d - 1), ex(d - 1), r.randrange(3))
        if x < 0.72:
            return 'opaque(h)(%s, %s)' % (ex(d - 1), ex(d - 1))
        if x < 0.8:
            return '(%s)' % ex(d - 1)
        return '(%s %s %s)' % (ex(d - 1), r.choice(['+', '-', '*', '<', '==', 'and', 'or']), ex(d - 1))
    L = ['function f(x)', '  var q = x', '  var w = q + 1', '  emit("f", x)', '  return w', 'end',
         'function h(x, y)', '  if (x > y)', '    return f(x - y)', '  end', '  var z = f(y)', '  return z - x', 'end',
         'function k(x, y, z)', '  var i', '  for (i = 0 to 2)', '    var t = h(x, i)', '    if (t > z)', '      return t', '    end', '  end', '  return y', 'end',
         'function main(a, b)', '  var l = 4']
    for j in range(8):
        L.append('  ' + r.choice(['emit(%d, l, %%s)' % j, 'l = %s', 'emit([l, %s, a])', 'if (%s)\n    l += 1\n  end', 'var v%d = %%s' % j]) % ex(depth + 1))
    L += ['  return [a, b, l]', 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', [3, 5]), ('call', 'main', [9, 0])], 'operands disturbed by a call', check_balance=True)


def do_discard(ctx, k):
    """results that nobody uses do not pile up"""
    r = ctx.rng()
    stm = ['noret()', 'ret(1)', 'arr()', 'abs(-1)', 'bare()', 'echo(2)', 'v(1)', 'nest(3)', 'early(i)', 'len("abc")', 'opaque(none)', 'new_array(2)']
    body = r.sample(stm, r.randrange(2, len(stm)))
    src = '''function noret()
end
function ret(x)
  return x
end
function arr()
  return [1, 2, 3]
end
function bare()
  return
end
function nest(n)
  if (n > 0)
    nest(n - 1)
    ret(nest(n - 1))
  end
end
function early(n)
  var i
  for (i = 0 to 10)
    while (1)
      if (i == n)
        return i
      end
      i += 1
      if (i > 10)
        return "no"
      end
    end
  end
end
function main(n)
  var v = ret
  var i
  for (i = 0 to n)
    emit(i)
    %s
  end
  emit(n)
  return i
end
''' % '\n    '.join(body)
    text_case(ctx, src, [('init',), ('run', 'main', [30]), ('call', 'main', [60])], 'wrong call', check_balance=True, budget=100000)
    # a long loop, of which only the stack depth at the end matters
    steps = [('init',), ('run', 'main', [3000])]
    got, bases, b = core.observe(ctx.run(core.script(src, 1, steps)))
    bs = {x for i, x in bases[:-1] if i}
    per = {}
    lines = [g for g in got if g.startswith('E emit')]
    ev = [x for (i, x) in bases if got[i - 1].startswith('E emit')]
    if len(set(ev)) > 1 and 'echo' not in body:
        ctx.fail('stack out of balance in a loop', depths=sorted(set(ev))[:10])
    ctx.count['balance_points'] += len(ev)
    ctx.evals += 1


def do_shape(ctx, name, n):
    shapes.run(ctx, name, n, key=': wrong call', check_balance=True)


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    shapes.run_huge(ctx, name, n, key=': wrong call', check_balance=True)
