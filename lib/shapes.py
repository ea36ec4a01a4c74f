"""programs that grow along one dimension.  Implementations tend to behave
differently from some size on (a counter overflows, a buffer is full, a fast
path ends), so every check runs its own oracle over these programs with sizes
around powers of two and around all numbers found in the sources."""
import kit

SHAPES = {}


def shape(limit, cost=1):
    def f(fn):
        SHAPES[fn.__name__] = (limit, cost, fn)
        return fn
    return f


def text(L):
    return '\n'.join(L) + '\n'


BAD = ['z9[9] = 1', 'z9 = z9 - none', 'z9 = z9[0 - 1]', 'z9 = opaque(1) / opaque(0)', 'herr(7)', 'z9 = z9.nope', 'emit(1, 2 - "x")']


def bad(err, r, ind='  '):
    """statements that fail at run time, at a line of their own, or calls of the host functions that look around"""
    if err in ('here', 'hvars'):
        return [ind + 'var z9 = [1, 2]', ind + err + '(1)', ind + 'z9[1] = ' + err + '(2) + 1', ind + 'emit(z9)']
    return [ind + 'var z9 = [1, 2]', ind + 'emit("before", z9)', ind + r.choice(BAD), ind + 'emit("never")', ind + 'z9 = 1']


def steps(*a):
    return [('init',), ('globals',)] + list(a) + [('globals',)]


@shape(600)
def params(n, r, err):
    ps = ['p%d' % i for i in range(n)]
    vals = ['%d' % (i * 3 + 1) if i % 5 else '"s%d"' % i for i in range(n)]
    k = r.randrange(n)
    body = ['function f(%s)' % ', '.join(ps), '  var loc = 77', '  emit(loc, p0, p%d, p%d, p%d)' % (n - 1, n // 2, k), '  p%d = p%d' % (k, n - 1), '  emit(p%d, loc, p0)' % k]
    if err:
        body += bad(err, r)
    body += ['  return [p0, p%d]' % (n - 1), 'end', 'function echo2(a)', '  return a', 'end']
    L = body + ['function main()', '  var before = 1', '  var r = f(%s)' % ', '.join(vals), '  var after = [before, r]', '  emit(before, r, after)',
                '  var h = f', '  emit(5, h(%s), after)' % ', '.join(vals), '  f(%s)' % ', '.join(vals), '  emit(before, after)', '  h(%s)' % ', '.join(vals), '  emit(before, after)', '  return after', 'end',
                'function wrong(d)', '  var h = f', '  emit("wrong", d)', '  if (d == 0)', '    return h(%s)' % ', '.join(vals[1:]), '  end', '  if (d == 1)',
                '    return h(%s)' % ', '.join(vals + ['1']), '  end', '  if (d == 2)', '    return echo2(h)(%s)' % ', '.join(vals + ['9'] * 256), '  end', '  return h', 'end']
    return text(L), steps(('run', 'main', []), ('run', 'wrong', [0]), ('run', 'wrong', [1]), ('call', 'wrong', [2]), ('call', 'f', list(range(n))), ('call', 'f', list(range(n + 1))), ('call', 'f', list(range(n - 1))))


@shape(600)
def locals_(n, r, err):
    L = ['function f(a, n)', '  var m = n']
    for i in range(n):
        L.append('  var v%d = %s' % (i, r.choice(['a + %d' % i, '"t%d"' % i, '[a, %d]' % i, '%d' % i]) if r.random() < 0.9 else 'none'))
    k = r.randrange(n)
    L += ['  if (n > 0)', '    emit(f(a + 1, n - 1))', '  end', '  v%d = "new"' % k]
    for i in sorted({0, n // 2, n - 1, k, r.randrange(n), max(0, n - 2)}):
        L.append('  emit(%d, v%d, m)' % (i, i))
    if err:
        L += bad(err, r)
    L += ['  return [v0, v%d, v%d]' % (n - 1, k), 'end', 'function main()', '  var x = 1', '  var y = f(5, 2)', '  emit(x, y)', '  return [x, f(7, 0), y]', 'end']
    return text(L), steps(('run', 'main', []), ('call', 'main', []))


@shape(700)
def globals_(n, r, err):
    L = []
    for i in range(n):
        L.append('var g%d = %s' % (i, r.choice(['%d' % i, '"g%d"' % i, '[%d, "x"]' % i, '%d.5' % i, 'none', 'echo(%d)' % i if i % 7 == 0 else '1', 'g%d' % (i - 1) if i else '0'])))
    k, j = r.randrange(n), r.randrange(n)
    if r.random() < 0.5:
        r.shuffle(L)
        L.sort(key=lambda l: ' = g' in l or 'echo' in l)
    L += ['function set(v)', '  g%d = v' % k, '  g%d = [v, g%d]' % (n - 1, k)] + (bad(err, r) if err else []) + ['  return g%d' % k, 'end',
          'function main()', '  emit(g0, g%d, g%d, g%d)' % (n - 1, k, j), '  set("one")', '  emit(g0, g%d, g%d, g%d)' % (n - 1, k, j), '  g%d = 0' % j, '  return g%d' % (n - 1), 'end']
    return text(L), steps(('run', 'main', []), ('globals',), ('call', 'set', [4]), ('call', 'main', []))


@shape(600)
def consts(n, r, err):
    L = []
    for i in range(n):
        L.append('const C%d = %s' % (i, r.choice(['%d' % i, '"c%d"' % i, '%d.25' % i, '%d + 1' % i, '0 - %d' % i])))
    ks = sorted({0, n // 2, n - 1, r.randrange(n)})
    L += ['var g = C%d' % (n - 1), 'function main(a)', '  emit(%s)' % ', '.join('C%d' % k for k in ks), '  var t = [C0, C%d, g]' % (n - 1)] + (bad(err, r) if err else []) + ['  return t', 'end']
    return text(L), steps(('run', 'main', [1]), ('call', 'main', [2]))


@shape(700)
def funcs(n, r, err):
    L = []
    for i in range(n):
        L += ['function f%d(a%s)' % (i, ', b' if i % 3 == 1 else ''), '  return [a, %d]' % i, 'end']
    ks = sorted({0, n // 2, n - 1, r.randrange(n), r.randrange(n)})
    call = lambda k: 'f%d(%d%s)' % (k, k, ', 1' if k % 3 == 1 else '')
    L += ['function main()', '  var t = [%s]' % ', '.join('f%d' % k for k in ks), '  emit(%s)' % ', '.join(call(k) for k in ks)]
    for i, k in enumerate(ks):
        L += ['  var h%d = t[%d]' % (i, i), '  emit(h%d(%d%s), h%d == f%d, t[0] == h%d)' % (i, k, ', 2' if k % 3 == 1 else '', i, k, i)]
    L += (bad(err, r) if err else []) + ['  return %s' % call(ks[-1]), 'end']
    return text(L), steps(('run', 'main', []), *[('call', 'f%d' % k, [1, 2][:2 if k % 3 == 1 else 1]) for k in ks])


@shape(700)
def strs(n, r, err):
    L = ['function main()', '  var t = ""']
    for i in range(n):
        L.append('  t = "s%d"' % i if i % 11 else '  emit("e%d", "s%d")' % (i, i))
    L += ['  emit(t, "s0", "end")', '  var u = t.mem'] if False else ['  emit(t, "s0", "end")']
    L += (bad(err, r) if err else []) + ['  return t + "x"', 'end']
    return text(L), steps(('run', 'main', []), ('call', 'main', []))


@shape(1500)
def arrlit(n, r, err):
    el = [r.choice(['%d' % i, '"e%d"' % i, '[%d]' % i, 'a', 'none', '%d.5' % i]) for i in range(n)]
    k = r.randrange(n)
    L = ['function main(a)', '  var x = [%s]' % ', '.join(el), '  emit(x.length, x[0], x[%d], x[%d])' % (n - 1, k), '  x[%d] = x' % k, '  emit(x[%d].length == %d)' % (k, n) if False else '  emit(len(x[%d]))' % k,
         '  x[%d] = 1' % k, '  emit(x)'] + (bad(err, r) if err else []) + ['  return [x, [%s]]' % ', '.join(el[:40]), 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [b'q']))


@shape(300, 2)
def nest(n, r, err):
    """blocks in blocks, each with a variable of its own"""
    L = ['var g = 0', 'function main(p)', '  var v = 100']
    ends = []
    ind = '  '
    for i in range(n):
        k = r.choice(['if', 'if', 'else', 'while', 'for'])
        L.append(ind + 'var a%d = [%d]' % (i, i))
        if k == 'if':
            L.append(ind + 'if (p > 0)')
            ends.append([ind + 'end'])
        elif k == 'else':
            L += [ind + 'if (p == 0)', ind + '  g += 1', ind + 'else']
            ends.append([ind + 'end'])
        elif k == 'while':
            L += [ind + 'var w%d = 0' % i, ind + 'while (w%d < 1)' % i, ind + '  w%d += 1' % i]
            ends.append([ind + 'end'])
        else:
            L += [ind + 'var f%d' % i, ind + 'for (f%d = 0 to 1)' % i]
            ends.append([ind + 'end'])
        ends[-1] += [ind + 'var b%d = "b%d"' % (i, i), ind + 'emit(a%d, b%d, v, p)' % (i, i)] if i % 4 == 0 or n < 40 else [ind + 'g += a%d[0]' % i]
        if n < 64:
            ind += '  '
    L += [ind + 'var deep = "bottom"', ind + 'emit(deep, a0, a%d, v, p)' % (n - 1), ind + 'v += 1', ind + 'a0 = [deep]']
    L += bad(err, r, ind) if err else []
    for e in reversed(ends):
        L += e
    L += ['  return [v, g, a0]', 'end']
    return text(L), steps(('run', 'main', [1]), ('call', 'main', [2]))


@shape(400)
def parens(n, r, err):
    ops = ['+', '-', '*']
    e = 'a'
    for i in range(n):
        o = r.choice(ops)
        e = r.choice(['(%d %s %s)', '(%d %s (%s))']) % (r.randrange(1, 9), o, e) if r.random() < 0.6 else r.choice(['(%s %s %d)', '-(%s %s %d)', '(not (%s %s %d))']) % (e, o, r.randrange(1, 9))
    L = ['function main(a)', '  var t = %s' % e, '  emit(t, a)', '  emit(%s)' % e] + (bad(err, r) if err else []) + ['  return %s' % e, 'end', 'var g = %s' % e.replace('a', '7')]
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [2.5]))


@shape(900)
def chain(n, r, err):
    op = r.choice([['+'], ['+', '-'], ['+', '*', '-'], ['and', 'or'], ['==', '<', '+'], ['*'], ['%', '/']])
    t = ['a'] + ['%s %s' % (r.choice(op), r.choice(['a', '%d' % r.randrange(1, 9), '%d' % r.randrange(1, 9), 'b'])) for _ in range(n)]
    e = ' '.join(t)
    L = ['function main(a, b)', '  var t = %s' % e, '  emit(t, a, b)', '  if (%s)' % e, '    emit("yes")', '  else', '    emit("no")', '  end'] + (bad(err, r) if err else []) + ['  return [%s, 1]' % e, 'end']
    return text(L), steps(('run', 'main', [3, 5]), ('call', 'main', [-7, 1]))


@shape(900)
def concat(n, r, err):
    e = ' + '.join(r.choice(['a', '"x%d"' % i, '%d' % i, '""', 'none' if i else '"s"']) if i else '"s"' for i in range(n + 1))
    L = ['function main(a)', '  var t = %s' % e, '  emit(len(t), t)', '  emit(t == %s)' % e] + (bad(err, r) if err else []) + ['  return t', 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [b'zz']))


@shape(250, 2)
def callnest(n, r, err):
    e = 'a'
    f = 'a'
    for i in range(n):
        e = r.choice(['id(%s)', 'add(%s, 1)', 'add(1, %s)', 'hv(%s)', 'echo(%s)' if i % 10 == 0 else 'id(%s)', 'tab[0](%s)']) % e
        f = 'id([%s, %d])' % (f, i) if i < 40 else f
    L = ['var tab = [id, add]', 'var hv = id', 'function id(x)', '  return x', 'end', 'function add(x, y)', '  return x + y', 'end',
         'function main(a)', '  var k = 9', '  var t = %s' % e, '  emit(k, t)', '  emit(k, %s, t)' % e, '  emit(%s)' % f] + (bad(err, r) if err else []) + ['  return [k, %s]' % e, 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [0]))


@shape(2000, 4)
def recursion(n, r, err):
    L = ['function down(i, keep)', '  var mine = [i]', '  if (i > 0)', '    var q = down(i - 1, mine)', '    mine[0] = mine[0] + q', '    return mine[0] - q + 1', '  end', '  emit("bottom", mine, keep)']
    L += bad(err, r) if err else []
    L += ['  return 0', 'end', 'function even(i)', '  if (i == 0)', '    return "even"', '  end', '  return odd(i - 1)', 'end',
          'function odd(i)', '  if (i == 0)', '    return "odd"', '  end', '  return even(i - 1)', 'end',
          'function pend(i)', '  if (i < 1)', '    return 1', '  end', '  return i * 2 - (pend(i - 1) - i)', 'end',
          'function main()', '  var t = "top"', '  emit(t, even(%d), odd(%d))' % (n, n), '  emit(t, pend(%d))' % n, '  var d = down(%d, t)' % n, '  emit(t, d)', '  return [t, d]', 'end']
    return text(L), steps(('run', 'main', []), ('call', 'even', [n]))


@shape(1500)
def stmts(n, r, err):
    L = ['var g = 0', 'function main(a)', '  var t = 0', '  var s = [0, 0]']
    for i in range(n):
        L.append('  ' + r.choice(['t += %d' % i, 't = t + a', 's[%d] = t' % (i & 1), 'g = t', 'nop(t)', 't -= 1', 'g = [t]' if i % 9 == 0 else 'g = s[0]']))
    L += ['  emit(t, s, g, a)'] + (bad(err, r) if err else []) + ['  return [t, s]', 'end', 'function nop(x)', '  return x', 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [1]))


@shape(400)
def ifrow(n, r, err):
    L = ['function main(a)', '  var t = 0']
    for i in range(n):
        L += ['  if (a == %d)' % i, '    t = %d' % (i + 1), '    var x%d = t' % i, '    t = x%d + 1' % i] + (['  else', '    t += 0'] if r.random() < 0.4 else []) + ['  end']
    L += ['  emit(t, a)'] + (bad(err, r) if err else []) + ['  return t', 'end']
    return text(L), steps(*[(r.choice(['run', 'call']), 'main', [k]) for k in sorted({0, n - 1, n, n // 2, r.randrange(n)})])


@shape(200)
def elseif(n, r, err):
    L = ['function main(a)', '  var t = 0']
    for i in range(n):
        L += ['  if (a == %d)' % i, '    t = %d' % (i + 1), '  else', '    var e%d = t + 1' % i, '    t = e%d' % i]
    L += ['    t = 0 - t', '    emit("last", e0, e%d)' % (n - 1)] + (bad(err, r, '    ') if err else []) + ['  end'] * n
    L += ['  emit(t, a)', '  return t', 'end']
    return text(L), steps(*[(r.choice(['run', 'call']), 'main', [k]) for k in sorted({0, n - 1, n, n // 2, r.randrange(n)})])


@shape(5000)
def strlen_(n, r, err):
    s = ''.join(chr(33 + (i * 7) % 90) if (i * 7) % 90 != 1 else '!' for i in range(n))
    L = ['var g = "%s"' % s, 'function main(p)', '  var q = "%s"' % s, '  emit(len(q), q == g, q == p, q[0], q[%d], g[%d])' % (n - 1, n // 2), '  var u = q + p', '  emit(len(u), u[%d], u[%d], q == p)' % (n, 2 * n - 1),
         '  u = "a" + q', '  emit(u == "a" + p, len(u), u == q + "a")'] + (bad(err, r) if err else []) + ['  return u', 'end']
    return text(L), steps(('run', 'main', [s.encode('latin1')]), ('call', 'main', [s.encode('latin1')[:-1] + b'?']))


@shape(17000, 2)
def arrsize(n, r, err):
    L = ['var g', 'function churn()', '  var i', '  var s = "dirt"', '  for (i = 0 to 10)', '    s = s + s', '  end', '  var t', '  for (i = 0 to 600)', '    t = s + i', '  end', 'end',
         'function main(n)', '  churn()', '  var a = new_array(n)', '  emit(a.length, a[0], a[n - 1], a[n / 2])', '  emit(a)', '  a[n - 1] = "last"', '  a[n / 2] = [n]', '  a[0] = 0', '  g = a',
         '  emit(len(a), a)', '  churn()', '  var b = new_array(n)', '  b[0] = a', '  emit(b[n - 1], b[0] == none, len(b))'] + (bad(err, r) if err else []) + ['  return b[n / 2]', 'end',
         'function over(n)', '  var a = new_array(n)', '  a[n] = 1', 'end', 'function overr(n)', '  var a = new_array(n)', '  return a[n]', 'end']
    return text(L), steps(('run', 'main', [n]), ('call', 'over', [n]), ('run', 'overr', [n]), ('call', 'main', [n]))


@shape(600)
def emitargs(n, r, err):
    vals = [r.choice(['%d' % i, '"v%d"' % i, '[%d]' % i, 'a', 'none', '%d.5' % i]) for i in range(n)]
    L = ['function main(a)', '  var k = 4', '  emit(%s)' % ', '.join(vals), '  emit(k)', '  var t = [k, emit(%s), a]' % ', '.join(vals), '  emit(t, k)', '  var h = emit', '  h(%s)' % ', '.join(vals), '  emit(t, k)'] + \
        (bad(err, r) if err else []) + ['  return [h(%s), t]' % ', '.join(vals), 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [0]))


@shape(70000)
def blank(n, r, err):
    L = [''] * (n // 2) + ['var g = echo(1)', 'function main(a)'] + [''] * (n - n // 2) + ['  emit(a)'] + (bad(err, r) if err else []) + ['  return a', 'end']
    return text(L), steps(('run', 'main', [3]))


@shape(3000, 3)
def iters(n, r, err):
    L = ['var g = 0', 'function main(n)', '  var i', '  var s = ""', '  var w = 0', '  var a = [0, 0, 0]', '  for (i = 0 to n)', '    g += i', '    a[i % 3] = a', '    a[i % 3] = i', '    w = [i, w == none]',
         '  end', '  emit(i, g, w, a)', '  while (i > 0)', '    i -= 1', '    s = "" + i'] + (['    if (i == 0)'] + bad(err, r, '      ') + ['    end'] if err else []) + ['  end', '  emit(i, s)', '  return [g, s]', 'end']
    return text(L), steps(('run', 'main', [n]), ('call', 'main', [n]))


@shape(1000)
def ident(n, r, err):
    b = ('abcdefghij_' * (n // 11 + 1))[:n - 1] if n > 1 else ''
    x, y, f, p = 'v' + b, 'w' + b, 'f' + b, 'p' + b
    L = ['var %s = "global"' % x, 'const k%s = 5' % b, 'function %s(%s)' % (f, p), '  var %s = [%s, k%s]' % (y, p, b), '  emit(%s, %s, %s)' % (x, y, p), '  %s = %s' % (x, y)] + (bad(err, r) if err else []) + ['  return %s' % y, 'end',
         'function main()', '  var h%s = %s' % (b, f), '  emit(h%s(3))' % b, '  return %s(4)' % f, 'end']
    return text(L), steps(('run', 'main', []), ('call', f, [1]))


@shape(120)
def indexes(n, r, err):
    L = ['function main(a)', '  var x = "core"', '  var keep = x']
    for i in range(n):
        L.append('  x = [%s]' % r.choice(['x', 'x, %d' % i]))
    L += ['  emit(x%s)' % ('[0]' * n), '  emit(x%s == keep, x%s.length)' % ('[0]' * n, '') if False else '  emit(x%s == keep)' % ('[0]' * n), '  var y = x%s' % ('[0]' * (n // 2))] + (bad(err, r) if err else []) + ['  return y', 'end']
    return text(L), steps(('run', 'main', [1]), ('call', 'main', [2]))


@shape(80, 2)
def forward(n, r, err):
    """a value handed through many functions, and back"""
    L = []
    for i in range(n):
        L += ['function h%d(v, f)' % i, '  var own = [v, %d]' % i, '  var res = %s' % ('h%d(own, f)' % (i + 1) if i + 1 < n else 'f(own)'), '  emit(%d, own[1])' % i if i % 5 == 0 else '  own[1] = res', '  return [%d, own == none]' % i, 'end']
    L += ['function last(x)', '  emit("last", x)'] + (bad(err, r) if err else []) + ['  return x', 'end', 'function main()', '  return h0("start", last)', 'end']
    return text(L), steps(('run', 'main', []), ('call', 'main', []))


@shape(300)
def updates(n, r, err):
    """one variable assigned again and again, aliases that must not follow"""
    L = ['var g = 0', 'function main(a)', '  var t = a', '  var old = t']
    for i in range(n):
        L.append('  ' + r.choice(['t = t + %d' % i, 't += %d' % i, 'old = t', 'g = old', 't = [t, old][%d]' % (i & 1), 'g += %d' % i, 'var c%d = t' % i, 'if (t == %d)\n    t = 0\n  end' % i]))
    L += ['  emit(t, old, g, a)'] + (bad(err, r) if err else []) + ['  return t', 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [1]))


def make(name, n, r, err=False):
    """(source, steps)"""
    return SHAPES[name][2](n, r, err)


def cases(ctx, thin=6, limit=None, skip=(), only=None):
    """(name, size) of the programs to run; sizes found in the sources are
    never left out"""
    out = []
    for name, (lim, cost, fn) in sorted(SHAPES.items()):
        if name in skip or (only and name not in only):
            continue
        lim = min(lim, limit) if limit else lim
        z = kit.sizes(ctx, lim, [lim])
        for i, n in enumerate(z):
            if n in ctx.new and gap(z, i, ctx):
                out.append((name, n))
            elif not ctx.quick or n == lim or (n <= lim // cost and (i + len(name)) % thin == 0):
                out.append((name, n))
    return out


def gap(z, i, ctx):
    """of three neighbouring sizes the largest will do in a quick run"""
    return not ctx.quick or i + 1 >= len(z) or z[i + 1] - z[i] > 1 or z[i + 1] not in ctx.new


def run(ctx, name, n, err=False, key='', opts=(0, 1), budget=400000, **kw):
    r = ctx.rng('shape', name, n)
    src, st = make(name, n, r, err)
    g = kit.text_case(ctx, src, st, '%s size %s%s' % (name, 'many' if n > 4 else 'few', key), opts=opts, budget=budget, **kw)
    if g is None:
        ctx.count['shapes_outside_bounds'] += 1
    else:
        ctx.count['shapes_run'] += 1
    return g


# programs beyond the range of 16 bit numbers, with values that need no room on
# the heap
HUGE = {}


def huge(*sizes):
    def f(fn):
        HUGE[fn.__name__] = (sizes, fn)
        return fn
    return f


def light(n, r):
    """n values, nearly all of them none"""
    some = {0, 1, n - 1, n - 2, n // 2, 255, 256, 257, 32767, 32768, 32769, 65535, 65536} | {r.randrange(n) for _ in range(20)}
    return [('%d' % i if i % 3 else '"s%d"' % i) if i in some else 'none' for i in range(n)]


@huge(33000)
def many_params(n, r, err):
    v = light(n, r)
    ks = sorted({0, 1, n - 1, n // 2, r.randrange(n)})
    L = ['function f(%s)' % ', '.join('p%d' % i for i in range(n)), '  var loc = 77', '  emit(loc, %s)' % ', '.join('p%d' % k for k in ks), '  p%d = "set"' % ks[2], '  emit(p%d, loc, p0)' % ks[2]]
    L += (bad(err, r) if err else []) + ['  return [p0, p%d]' % (n - 1), 'end', 'function main()', '  var before = 1', '  var r = f(%s)' % ', '.join(v), '  emit(before, r)', '  var h = f',
          '  emit(5, h(%s), before)' % ', '.join(v), '  f(%s)' % ', '.join(v), '  return [before, r]', 'end', 'function wrong(d)', '  var h = f', '  if (d == 0)', '    return h(%s)' % ', '.join(v[1:]), '  end',
          '  return h(%s)' % ', '.join(v + ['none']), 'end']
    return text(L), steps(('run', 'main', []), ('run', 'wrong', [0]), ('call', 'wrong', [1]))


@huge(33000, 66000)
def many_args(n, r, err):
    v = light(n, r)
    L = ['function main(a)', '  var k = 4', '  emit(%s)' % ', '.join(v), '  emit(k)', '  var h = emit', '  var t = [k, h(%s), a]' % ', '.join(v), '  emit(t, k)'] + (bad(err, r) if err else []) + ['  return t', 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [0]))


@huge(33000, 66000)
def many_items(n, r, err):
    v = light(n, r)
    k = r.randrange(n)
    L = ['function main(a)', '  var k = 4', '  var x = [%s]' % ', '.join(v), '  emit(k, x.length, x[0], x[%d], x[%d], x[%d])' % (n - 1, k, n // 2), '  x[%d] = a' % k, '  x[%d] = "end"' % (n - 1), '  emit(x[%d], x[%d], x[0], x)' % (k, n - 1)]
    L += (bad(err, r) if err else []) + ['  return x[%d]' % k, 'end', 'function over()', '  var x = [%s]' % ', '.join(v), '  return x[%d]' % n, 'end', 'function over2()', '  var x = [%s]' % ', '.join(v), '  x[%d] = 1' % n, 'end']
    return text(L), steps(('run', 'main', [3]), *([('call', 'main', [0]), ('call', 'over', []), ('call', 'over2', [])] if n < 40000 and not err else []))


@huge(33000, 66000)
def many_strs(n, r, err):
    L = ['function main(a)', '  var t = ""'] + ['  t = "s%d"' % i if i % 1100 and i % 32768 else '  emit(t, "e%d", "s%d")' % (i, i) for i in range(n)] + ['  emit(t, "s0", "s32767", "s32768", "end")']
    L += (bad(err, r) if err else []) + ['  return t', 'end']
    return text(L), steps(('run', 'main', [1]))


@huge(33000)
def many_locals(n, r, err):
    v = light(n, r)
    ks = sorted({0, 1, n - 1, n // 2, r.randrange(n), 32767, 32768})
    L = ['function f(a, n)'] + ['  var v%d = %s' % (i, x) for i, x in enumerate(v)] + ['  if (n > 0)', '    emit(f(a, n - 1))', '  end', '  if (n >= 0)', '    var w = "own"', '    if (n > 5)', '      var y = 3', '    else', '      var y = [w]', '      emit(y, w, v0, v1)', '    end', '  end', '  v%d = "new"' % ks[2], '  emit(a, n, %s)' % ', '.join('v%d' % k for k in ks)]
    L += (bad(err, r) if err else []) + ['  return v%d' % (n - 1), 'end', 'function main()', '  var x = 1', '  emit(x, f(5, 1))', '  return x', 'end']
    return text(L), steps(('run', 'main', []))


@huge(33000)
def many_globals(n, r, err):
    v = light(n, r)
    ks = sorted({0, 1, n - 1, n // 2, r.randrange(n), 32767, 32768})
    L = ['var g%d = %s' % (i, x) for i, x in enumerate(v)] + ['function main()', '  emit(%s)' % ', '.join('g%d' % k for k in ks)] + ['  g%d = "n%d"' % (k, k) for k in ks] + ['  emit(%s)' % ', '.join('g%d' % k for k in ks)]
    L += (bad(err, r) if err else []) + ['  return g%d' % (n - 1), 'end']
    return text(L), steps(('run', 'main', []), ('call', 'main', []))


@huge(33000)
def many_funcs(n, r, err):
    L = []
    for i in range(n):
        L += ['function f%d(a%s)' % (i, ', b' if i % 3 == 1 else ''), '  return [a, %d]' % i, 'end']
    ks = sorted({0, n // 2, n - 1, r.randrange(n), 32767, 32768})
    call = lambda f, k: '%s(%d%s)' % (f, k, ', 1' if k % 3 == 1 else '')
    L += ['function main()', '  emit(%s)' % ', '.join(call('f%d' % k, k) for k in ks)]
    for i, k in enumerate(ks):
        L += ['  var h%d = f%d' % (i, k), '  emit(%s, h%d == f%d, h%d == f1)' % (call('h%d' % i, k), i, k, i)]
    L += (bad(err, r) if err else []) + ['  return 1', 'end']
    return text(L), steps(('run', 'main', []), *[('call', 'f%d' % k, [1, 2][:2 if k % 3 == 1 else 1]) for k in ks])


@huge(9000, 20000)
def long_jumps(n, r, err):
    """blocks whose code is longer than 64 KiB"""
    fill = ['    t += %d' % (i & 7) for i in range(n)]
    L = ['function main(a)', '  var t = 0', '  var i', '  if (a > 0)'] + fill + ['    emit("then", t)', '  else'] + fill + ['    emit("else", t)', '  end', '  for (i = 0 to 2)'] + fill + ['    emit(i, t)', '  end', '  while (t > a and i > 0)'] + fill + \
        ['    i -= 1', '    emit("w", i, t)', '  end'] + (bad(err, r) if err else []) + ['  return t', 'end', 'function late(x)', '  emit(x)', '  return main(x - 1)', 'end']
    return text(L), steps(('run', 'main', [1]), ('call', 'main', [0]), ('run', 'late', [1]))


@huge(70000)
def long_loops(n, r, err):
    L = ['var g = 0', 'var early = spin(%d)' % n, 'var later = early[1] + 1', 'function spin(n)', '  var i', '  for (i = 0 to n)', '    g += 2', '  end', '  return [i, g]', 'end', 'function main(n)', '  var i', '  var w = 0', '  for (i = 0 to n)', '    w += 1', '    if (i % 8192 == 0)', '      emit(i, w)', '    end', '  end', '  emit(i, w)', '  while (i > 0)', '    i -= 1', '    g += 1', '  end', '  emit(i, g)']
    L += (bad(err, r) if err else []) + ['  return g', 'end']
    return text(L), steps(('run', 'main', [n]))


@huge(33000, 66000)
def big_values(n, r, err):
    L = ['var g', 'function grow(s, n)', '  while (len(s) < n)', '    s = s + "0123456789abcdef"', '    if (len(s) * 2 < n)', '      s = s + s', '    end', '  end', '  return s', 'end',
         'function main(n)', '  var a = new_array(n)', '  a[n - 1] = "last"', '  a[n / 2] = n', '  g = a', '  var s = grow("", n)', '  emit(len(s), s[n - 1], s[n / 2], s[0], s == s + "")', '  emit(a.length, a[0], a[n - 1], a[n / 2], len(s + s))', '  g = none']
    L += (bad(err, r) if err else []) + ['  return s[n - 1]', 'end', 'function over(n)', '  var a = new_array(n)', '  return a[n]', 'end', 'function over2(n)', '  var s = grow("", n)', '  return s[len(s)]', 'end']
    return text(L), steps(('run', 'main', [n]), *([('call', 'over', [n]), ('call', 'over2', [n])] if n < 40000 and not err else []))


@huge(70000)
def late_lines(n, r, err):
    L = ['# %d' % i if i % 100 == 0 else '' for i in range(n)] + ['var g = echo(1)', 'function main(a)', '  emit(a)'] + bad(err or True, r) + ['  return a', 'end']
    return text(L), steps(('run', 'main', [3]), ('call', 'main', [4]))


def huge_cases(ctx, *names):
    return [('huge', k, n) for k in names for n in HUGE[k][0]]


def make_huge(ctx, name, n, r, err=False):
    ctx.where = {'variant': 'plain', 'cpu': 150}
    return HUGE[name][1](n, r, err)


def run_huge(ctx, name, n, err=False, key='', opts=None, **kw):
    """on the build without sanitizers, which is fast enough"""
    r = ctx.rng('huge', name, n)
    src, st = make_huge(ctx, name, n, r, err)
    g = kit.text_case(ctx, src, st, '%s size huge%s' % (name, key), opts=opts or (r.randrange(2),), budget=6000000, **kw)
    ctx.count['huge_outside_bounds' if g is None else 'huge_run'] += 1
    return g
