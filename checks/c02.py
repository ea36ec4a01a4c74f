"""C02 statements and variables: differential against the reference interpreter"""
import lang, core, gen, kit, shapes
from lang import S
from kit import text_case

LEVEL = 'exploration'
RULE = ('Random programs (nested if/else, while, for, returns, scopes, compound assignment, globals) plus templates that sweep one '
        'dimension: number of locals, globals, nesting depth, code size, loop counts, sibling scopes, order of global '
        'initialisation, sequences of calls sharing globals. Every host call, result, error and final global is compared with '
        'the reference interpreter, with and without optimisation. Non-trivial: the compared log was not seen before.')
CHUNK = 4


def cases(ctx):
    n = 6 if ctx.quick else 60
    out = [('random', k) for k in range(900 * n)]
    out += [('locals', k) for k in kit.thin(ctx, 300, 2)]
    out += [('globals', k) for k in kit.thin(ctx, 300, 2)]
    out += [('nest', k) for k in [1, 2, 3, 5, 8, 16, 17, 32, 33, 64, 65, 100]]
    out += [('bigcode', k, s) for k in ([100, 1100, 2200, 4500, 9000] if ctx.quick else [100, 500, 1100, 2200, 3300, 4500, 6000, 9000, 18000]) for s in range(4)]
    out += [('loops', k) for k in kit.thin(ctx, 1100, 4)]
    out += [('forms', k) for k in range(40 * n)]
    out += [('scopes', k) for k in range(150 * n)]
    out += [('initorder', k) for k in range(80 * n)]
    out += [('calls', k) for k in range(80 * n)]
    out += [('samples', 0)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 2, only=('nest', 'locals_', 'globals_', 'stmts', 'ifrow', 'elseif', 'iters', 'updates', 'blank', 'ident', 'strs', 'funcs'))]
    out += [('initwait', k) for k in range(12)]
    out = shapes.huge_cases(ctx, 'many_globals', 'many_locals', 'long_jumps', 'long_loops', 'late_lines') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0, 0.03]), nest=r.choice([2, 3, 4, 5]), stmts=r.choice([3, 6, 9, 12]), depth=r.choice([1, 2, 3]),
                  funcs=r.choice([1, 3, 5, 8]), globals=r.choice([2, 4, 9]), ints=gen.INTS + ctx.mined, deadcode=0.15)
    g, decls, src = kit.random_program(ctx, r, cfg)
    ctx.sample(src[:1500])
    core.differential(ctx, decls, kit.random_steps(g, r), src=src, key='wrong behaviour')


def do_locals(ctx, n):
    """n locals spread over nested and sibling blocks, all still intact at the end"""
    r = ctx.rng()
    L = ['function other(a, b)'] + ['  var o%d = a * %d' % (i, i) for i in range(min(n, 40))] + ['  return a + b', 'end', 'function main(p, q)']
    top, inner = [], []
    ind = 1
    names = ['p', 'q']
    opened = 0
    seq = 0
    stack = []
    for i in range(n):
        L.append('  var v%d%s' % (i, ' = %d' % (i * 7 + 1) if r.random() < 0.9 else ''))
        names.append('v%d' % i)
        x = r.random()
        if x < 0.1:
            L.append('  if (%s)' % r.choice(['p', '1', 'v%d' % i, 'v%d == none' % i]))
            stack.append(len(names))
        elif x < 0.15 and stack:
            L.append('  emit(%s)' % ', '.join(names[stack[-1]:][:20] or ['0']))
            L.append('  end')
            del names[stack.pop():]
        elif x < 0.2:
            L.append('  %s = other(%s, %s)' % (r.choice(names), r.choice(names[:2]), i))
        elif x < 0.3:
            L.append('  %s = %d' % (r.choice(names), 10000 + i))
    while stack:
        L.append('  emit(%s)' % ', '.join(names[stack[-1]:][:20] or ['0']))
        L.append('  end')
        del names[stack.pop():]
    for i in range(0, len(names), 10):
        L.append('  emit(%d, %s)' % (i, ', '.join(names[i:i + 10])))
    L.append('  return %s' % names[-1])
    L.append('end')
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', [3, 4]), ('call', 'main', [0, 9])], 'locals disturbed')


def do_globals(ctx, n):
    r = ctx.rng()
    L = ['var g%d%s' % (i, ' = %s' % r.choice(['%d' % i, '"s%d"' % i, '[%d]' % i, 'g%d' % r.randrange(i) if i else '0'])
                        if r.random() < 0.85 else '') for i in range(n)]
    for f in range(4):
        L.append('function f%d(x)' % f)
        for _ in range(6):
            L.append('  g%d = %s' % (r.randrange(n), r.choice(['x', 'g%d' % r.randrange(n), '%d' % r.getrandbits(16), '"t" + x'])))
        L.append('  emit(g%d, g%d)' % (r.randrange(n), n - 1))
        L.append('end')
    steps = [('init',), ('globals',)]
    for i in range(6):
        steps += [('call', 'f%d' % r.randrange(4), [i]), ('globals',)]
    text_case(ctx, '\n'.join(L) + '\n', steps, 'globals disturbed')


def do_nest(ctx, n):
    r = ctx.rng()
    for shape in range(5):
        L = ['var g = 0', 'function main(a)']
        kinds = []
        for i in range(n):
            k = shape if shape < 3 else r.randrange(3)
            kinds.append(k)
            if k == 0:
                L.append('if (a %s %d)' % (r.choice(['>=', '>', '==']), r.choice([0, 0, 1])))
            elif k == 1:
                L += ['var w%d = 0' % i, 'while (w%d < 1)' % i, 'w%d += 1' % i]
            else:
                L += ['var f%d' % i, 'for (f%d = 0 to 1)' % i]
            L.append('var x%d = a + %d' % (i, i))
            L.append('g += x%d' % i)
        L.append('emit(g, x0, x%d)' % (n - 1))
        if shape == 4:
            L.append('return x%d' % (n // 2))
        for i in reversed(range(n)):
            L.append('emit(%d, x%d)' % (i, i))
            if kinds[i] == 0 and r.random() < 0.5:
                L += ['else', 'g += %d' % (1000 + i)]
            L.append('end')
        L += ['return g', 'end']
        text_case(ctx, '\n'.join(L) + '\n', [('init',), ('call', 'main', [1]), ('call', 'main', [0]), ('globals',)], 'wrong nesting')


def do_bigcode(ctx, n, shape):
    """bodies whose code is long, so that jumps and calls are far"""
    pad = ['s = s + %d - %d' % (i, i // 2) for i in range(n)]
    L = ['var s = 0', 'function main(a)']
    if shape == 0:
        L += ['if (a)'] + pad + ['else', 's = 5', 'end']
    elif shape == 1:
        L += ['var i = 0', 'while (i < a)', 'i += 1'] + pad + ['end']
    elif shape == 2:
        L += ['var i', 'for (i = 0 to a)'] + pad + ['end']
    else:
        L += ['if (a)', 's = 7', 'else'] + pad + ['end']
    L += ['emit(s, a)', 'return later(s)', 'end', 'function later(x)', 'return x + 1', 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('call', 'main', [0]), ('call', 'main', [2 if n < 4000 else 1]), ('call', 'later', [4]), ('globals',)],
              'wrong control flow in long code', budget=200000)


def do_loops(ctx, n):
    src = '''var t = 0
function w(n)
  var i = 0
  var s = 0
  while (i < n)
    i = i + 1
    s = s + i
  end
  return s
end
function f(n)
  var i
  var s = 0
  for (i = 0 to n)
    s += i
    t += 1
  end
  return [s, i]
end
function nested(n)
  var c = 0
  var i
  var j
  for (i = 0 to n)
    for (j = i to n)
      c += 1
      if (c >= 400)
        return [c, i, j]
      end
    end
  end
  return [c, i, j]
end
'''
    steps = [('init',)]
    for m in (n, -n, 0):
        steps += [('call', 'w', [m]), ('call', 'f', [m]), ('call', 'nested', [m])]
    steps += [('call', 'f', [n + 0.5]), ('globals',)]
    text_case(ctx, src, steps, 'wrong loop', budget=200000)


def do_forms(ctx, k):
    """loop forms: bounds of any type, changed while looping, variables of any kind"""
    r = ctx.rng()
    var = r.choice(['g', 'a', 'i'])
    start = r.choice(['0', '1', '-3', 'a', 'g', '0.5', 'echo(2)', 'b - 5', '"x"', 'none'])
    end = r.choice(['3', '5', 'a', 'b', 'echo(b)', 'g', 'len("abcd")', '4.5', 'echo(4) + 0', '"y"', var + ' + 1', 'lim()'])
    body = r.choice(['', '    b = b - 1', '    %s += 1' % var, '    if (%s > 2)\n      return %s\n    end' % (var, var),
                     '    var t\n    emit(t)\n    t = %s' % var, '    g = 3', '    a = a + 1',
                     '    var t = %s\n    while (t > 0)\n      t -= 1\n      emit(t)\n    end' % var])
    src = '''var g = 1
function lim()
  echo(g)
  return 3
end
function main(a, b)
  var i
  var cnt = 0
  for (%s = %s to %s)
%s
    cnt += 1
    if (cnt > 20)
      return "long"
    end
    emit(%s, a, b, g)
  end
  emit(cnt, %s)
end
''' % (var, start, end, body, var, var)
    r2 = text_case(ctx, src, [('init',), ('run', 'main', [1, 6]), ('globals',), ('call', 'main', [4, 2]), ('globals',)], 'wrong for loop')
    ctx.sample(src)


def do_scopes(ctx, k):
    """the same few names declared over and over in sibling and nested scopes"""
    r = ctx.rng()
    L = []
    late = r.random() < 0.3

    def block(d, vis, ind):
        vis = list(vis)
        mine = []
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            cand = [n for n in 'abcdef' if n not in vis]
            if x < 0.35 and cand:
                n = r.choice(cand)
                if r.random() < 0.4:
                    L.append(ind + 'var %s' % n)
                else:
                    L.append(ind + 'var %s = %s' % (n, r.choice(['%d' % r.randrange(1000), '"%s"' % n, '[1, %d]' % r.randrange(9)] + vis)))
                vis.append(n)
                L.append(ind + 'emit(%s)' % ', '.join(vis))
            elif x < 0.5 and vis:
                L.append(ind + '%s = %s' % (r.choice(vis), r.choice(['%d' % r.randrange(1000), '"q"'] + vis)))
            elif d > 0:
                y = r.random()
                if y < 0.45:
                    L.append(ind + 'if (%s)' % r.choice(['1', '0', 'echo(1)', 'echo(0)'] + vis))
                    block(d - 1, vis, ind + '  ')
                    if r.random() < 0.7:
                        L.append(ind + 'else')
                        block(d - 1, vis, ind + '  ')
                    L.append(ind + 'end')
                else:
                    c = 'n%d' % len(L)
                    L.append(ind + 'var %s = 0' % c)
                    L.append(ind + 'while (%s < %d)' % (c, r.randrange(0, 4)))
                    L.append(ind + '  %s += 1' % c)
                    block(d - 1, vis, ind + '  ')
                    L.append(ind + 'end')
        if vis:
            L.append(ind + 'emit(%s)' % ', '.join(vis))
    for f in range(2):
        params = r.sample('abcdef', r.randrange(0, 3))
        L.append('function f%d(%s)' % (f, ', '.join(params)))
        block(4, params, '  ')
        L.append('end')
        if f == 0:
            n0 = len(params)
        else:
            n1 = len(params)
    if late:
        # names of locals above, declared as globals only afterwards
        L += ['var %s = "global"' % n for n in r.sample('abcdef', 2)]
    src = '\n'.join(L) + '\n'
    text_case(ctx, src, [('init',), ('run', 'f0', [5, 6][:n0]), ('run', 'f1', [7, 8][:n1]), ('call', 'f0', [0, b'z'][:n0]), ('globals',)], 'wrong variable')
    ctx.sample(src[:1200])


def do_initorder(ctx, k):
    r = ctx.rng()
    L = []
    n = r.randrange(2, 12)
    fs = r.randrange(1, 4)
    funcs = []
    for f in range(fs):
        funcs.append(['function f%d(x)' % f, '  emit(%d, x, %s)' % (f, ', '.join('g%d' % i for i in range(n))),
                      '  g%d = %s' % (r.randrange(n), r.choice(['x', 'g%d' % r.randrange(n), '[x]'])), '  return x', 'end'])
    gl = []
    for i in range(n):
        e = r.choice(['%d' % i, 'f%d(%d)' % (r.randrange(fs), i), 'g%d' % r.randrange(n), '[g%d, f%d(0)]' % (r.randrange(n), r.randrange(fs)),
                      'echo("i%d")' % i, '"a" + f%d(%d)' % (r.randrange(fs), i), ''])
        # a global refers only to those before it, functions to all
        import re
        e = re.sub(r'g(\d+)', lambda m: 'g%d' % (int(m.group(1)) % i) if i else '0', e)
        gl.append(['var g%d%s' % (i, ' = ' + e if e else '')])
    parts = gl[:]
    if r.random() < 0.5:
        parts = gl + funcs
    else:
        for f in funcs:
            parts.append(f)
    src = '\n'.join('\n'.join(p) for p in parts) + '\n'
    text_case(ctx, src, [('init',), ('globals',), ('call', 'f0', [99]), ('globals',)], 'wrong initialisation')


def do_calls(ctx, k):
    """many calls in a row, from the host, share globals and nothing else"""
    r = ctx.rng()
    cfg = gen.Cfg(nest=2, stmts=4, depth=2, funcs=6, globals=6, recursion=0.5)
    g, decls, src = kit.random_program(ctx, r, cfg, False)
    steps = [('init',)]
    for _ in range(20):
        steps += kit.random_steps(g, r, 1)[1:]
    core.differential(ctx, decls, steps[:60], src=src, key='state leaks between calls', budget=60000)


def do_samples(ctx, k):
    """every construct of the reference manual once, as text"""
    src = '''
const K = 7
var acc = []x
'''.replace('[]x', '[0]') + '''
function fib(n)
  if (n < 2)
    return n
  end
  return fib(n - 1) + fib(n - 2)
end
function noret()
end
function bare(x)
  if (x)
    return
  end
end
function sort(a)
  var i
  var j
  for (i = 0 to a.length)
    for (j = 0 to a.length - 1)
      if (a[j] > a[j + 1])
        var t = a[j]
        a[j] = a[j + 1]
        a[j + 1] = t
      end
    end
  end
  return a
end
function main()
  emit(fib(12), noret(), bare(1), bare(0), K)
  emit(sort([5, 3, 9, 1, 7, 2]))
  return sort(["b", "a"][0] == "b")
end
'''
    text_case(ctx, src, [('init',), ('run', 'main', []), ('call', 'fib', [10])], 'wrong behaviour')


def do_shape(ctx, name, n):
    shapes.run(ctx, name, n, key=': wrong flow or variable')


def do_initwait(ctx, k):
    """initialisers that wait, at any place and for any time"""
    r = ctx.rng()
    L = ['function slow(x, n)', '  wait(n)', '  emit(x)', '  return x', 'end', 'function main()', '  return [a, b, c, d]', 'end']
    L = ['var a = slow(%d, %d)' % (k, r.choice([1, 2, 100, 100000])), 'var b = a + 1', 'var c = %s' % r.choice(['wait(1)', 'wait(5000)', '[wait(2), slow(b, 3)]', 'slow(wait(1), 2)']),
         'var d = [a, b, c]'] + L
    kit.text_case(ctx, '\n'.join(L) + '\n', [('init',), ('globals',), ('call', 'main', []), ('globals',)], 'waiting initialiser')


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    shapes.run_huge(ctx, name, n, key=': wrong flow or variable')
