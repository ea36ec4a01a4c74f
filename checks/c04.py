"""C04 arrays and strings: differential, with identity-preserving dumps"""
import lang, core, gen, kit, shapes
from lang import S, Fn, Sys
from kit import text_case

LEVEL = 'exploration'
RULE = ('Straight-line and looping programs that create, alias, nest, pass, return and update arrays and strings, with the complete '
        'object graph (including which elements are the same array) reported after each update; size sweeps for arrays and strings; '
        'every kind of object accessed with every kind of index. Compared with the reference interpreter, with and without optimisation. '
        'Non-trivial: log not seen before.')
CHUNK = 4


def cases(ctx):
    n = 14 if ctx.quick else 60
    out = [('alias', k) for k in range(500 * n)]
    out += [('random', k) for k in range(300 * n)]
    out += [('size', k) for k in kit.thin(ctx, 2100, 2)]
    out += [('literal', k) for k in kit.thin(ctx, 600, 2)]
    out += [('strings', k) for k in range(150 * n)]
    out += [('strsize', k) for k in kit.thin(ctx, 5000, 3)]
    out += [('bytes', k) for k in range(30 * n)]
    out += [('access', k) for k in range(12)]
    out += [('cycle', k) for k in range(30 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 2, only=('arrlit', 'indexes', 'arrsize', 'strlen_', 'concat', 'strs', 'updates', 'locals_', 'iters', 'globals_'))]
    out = shapes.huge_cases(ctx, 'many_items', 'big_values', 'many_args') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def do_alias(ctx, k):
    r = ctx.rng()
    names = ['a', 'b', 'c', 'd', 'G', 'H']
    size = {}
    L = ['var G = [1, 2, 3]', 'var H = new_array(4)',
         'function poke(x, i, v)', '  x[i] = v', '  return x', 'end',
         'function swap(x, y)', '  var t = x[0]', '  x[0] = y[0]', '  y[0] = t', '  return [x, y]', 'end',
         'function fresh(n)', '  var z = new_array(n)', '  z[0] = n', '  return z', 'end',
         'function main()']
    for n in 'abcd':
        L.append('  var %s = %s' % (n, r.choice(['[1, "x", none]', 'new_array(3)', '[0, 1, 2, 3, 4]', '[[1], [2], 3]', 'G', 'fresh(5)'])))
    for _ in range(r.randrange(8, 40)):
        x, y = r.choice(names), r.choice(names)
        i = r.choice(['0', '1', '2', '%s.length - 1' % x, 'len(%s) - 1' % x, '1 - 1', 'bitand(%d, 1)' % r.randrange(99)])
        v = r.choice(['%d' % r.randrange(100), '"s%d"' % r.randrange(9), y, 'none', '[%s, %s]' % (x, y), 'new_array(2)', '2.5', 'poke', '%s[0]' % y, 'abs'])
        L.append('  ' + r.choice(['%s[%s] = %s' % (x, i, v)] * 5 + ['%s = %s' % (x, y), 'emit(%s[%s])' % (x, i), 'emit(poke(%s, 0, %s))' % (x, v),
                                 '%s = [%s, %s, 7]' % (x, x, y), 'emit(swap(%s, %s))' % (x, y), 'emit(%s.length, len(%s))' % (x, y),
                                 '%s = fresh(%d)' % (x, r.randrange(2, 9)), 'var t%d = %s' % (len(L), v), 'emit(%s == none, not %s)' % (x, y)]))
        if r.random() < 0.5:
            L.append('  emit(%s)' % ', '.join(names))
    L += ['  emit(%s)' % ', '.join(names), '  return [a, b, c, d]', 'end']
    src = '\n'.join(L) + '\n'
    text_case(ctx, src, [('init',), ('run', 'main', []), ('globals',), ('call', 'main', []), ('globals',)], 'wrong array contents')
    ctx.sample(src[-1200:])


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0.05]), floats=0.3, nest=2, stmts=8, depth=3, funcs=4, globals=4, ints=gen.INTS + ctx.mined)
    g, decls, src = kit.random_program(ctx, r, cfg)
    core.differential(ctx, decls, kit.random_steps(g, r), src=src, key='wrong behaviour')


def do_size(ctx, n):
    src = '''var keep
function fill(n)
  var a = new_array(n)
  var b = new_array(n)
  emit(a.length, len(b), a[0], a[n - 1], b[n / 2])
  var i
  for (i = 0 to n)
    a[i] = i * 3
    b[i] = a[i] - i
  end
  keep = a
  return b
end
function verify(n)
  var i
  var bad = 0
  for (i = 0 to n)
    if (not (keep[i] == i * 3))
      bad += 1
    end
  end
  return [bad, keep.length, keep[n - 1]]
end
function back(n)
  var i = n
  var a = new_array(n)
  while (i > 0)
    i -= 1
    a[i] = "e" + i
    if (i + 1 < n)
      if (not (a[i + 1] == "e" + (i + 1)))
        return i
      end
    end
  end
  return a[n / 2]
end
function kinds(n, v)
  var a = new_array(n)
  var b = a
  var s = [n - 1, 0, n / 2, n / 3]
  var i
  for (i = 0 to 4)
    a[s[i]] = "old"
    a[s[i]] = v
    emit(b[s[i]])
    a[s[i]] = none
    emit(b[s[i]], b[s[0]])
    a[s[i]] = v
    a[s[i]] = a[s[i]]
    emit(b[s[i]])
  end
end
function over(n)
  var a = new_array(n)
  emit(a.length)
  a[n] = 1
end
function overr(n)
  var a = new_array(n)
  return a[n]
end
'''
    steps = [('init',), ('call', 'fill', [n]), ('call', 'verify', [n]), ('call', 'back', [n])] + [('call', 'kinds', [n, v]) for v in (7, 0, -2.5, b'', b'text', None, Fn('over'), Sys('abs'))] + [('call', 'over', [n]), ('call', 'overr', [n]), ('call', 'verify', [n]), ('globals',)]
    text_case(ctx, src, steps, 'wrong array of size', budget=400000, opts=(1,))


def do_literal(ctx, n):
    r = ctx.rng()
    el = [r.choice(['%d' % i, '"s%d"' % i, 'echo(%d)' % i if r.random() < 0.1 else '%d' % -i, '%d.5' % i, 'none', '[%d]' % i, 'x + %d' % i]) for i in range(n)]
    src = 'var g = [%s]\nfunction main(x)\n  var a = [%s]\n  var b = [%s]\n  a[%d] = "new"\n  emit(a, b, a.length, b[%d], b[%d])\n  return b\nend\n' % (
        ', '.join(e.replace('x', '1') for e in el), ', '.join(el), ', '.join(el), n // 2, n - 1, n // 2)
    text_case(ctx, src, [('init',), ('call', 'main', [4]), ('call', 'main', [2.5]), ('globals',)], 'wrong array literal')


ALPHA = [c for c in range(1, 256) if c not in (34, 10)]


def do_strings(ctx, k):
    r = ctx.rng()
    lits = []
    for _ in range(4):
        n = r.choice([0, 1, 2, 5, 17, 40])
        lits.append(bytes(r.choice(ALPHA) for _ in range(n)).decode('latin1'))
    L = ['var G = "%s"' % lits[0], 'function cat(x, y)', '  return x + y', 'end',
         'function codes(s)', '  var r = new_array(len(s) + 1)', '  var i', '  for (i = 0 to len(s))', '    r[i] = s[i]', '  end', '  return r', 'end',
         'function rev(s)', '  var o = ""', '  var i = len(s)', '  while (i > 0)', '    i -= 1', '    o = o + chr(s[i])', '  end', '  return o', 'end',
         'function main(p)', '  var a = "%s"' % lits[1], '  var b = "%s"' % lits[2], '  var c = [a, b, "%s", p]' % lits[3], '  var d = a']
    for _ in range(r.randrange(6, 20)):
        s = r.choice(['a', 'b', 'p', 'G', 'd', 'c[%d]' % r.randrange(4), '"%s"' % r.choice(lits), 'cat(a, b)', 'rev(d)', 'chr(%d)' % r.randrange(1, 256)])
        t = r.choice(['a', 'b', 'p', 'd', 'c[%d]' % r.randrange(4), '%d' % r.getrandbits(31), '1.5', 'none', '""'])
        L.append('  ' + r.choice(['emit(%s + %s)' % (s, t), '%s = %s + %s' % (r.choice('abdG'), s, t), 'c[%d] = %s' % (r.randrange(4), s), 'emit(codes(%s))' % s,
                                 'emit(len(%s), %s == %s)' % (s, s, t), '%s += %s' % (r.choice('abd'), t), 'emit(rev(%s))' % s, '%s = %s' % (r.choice('abdG'), s),
                                 'emit(%s + "" == %s)' % (s, s), 'emit(cat(%s, %s))' % (s, t), 'emit((%s)[0])' % s]))
        if r.random() < 0.3:
            L.append('  emit(a, b, c, d, G, p)')
    L += ['  emit(a, b, c, d, G, p)', '  return c', 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', [bytes(r.choice(ALPHA) for _ in range(9))]), ('call', 'main', [b'']), ('call', 'rev', [b'hello']), ('globals',)],
              'wrong string')


def do_bytes(ctx, k):
    """strings of the host may hold any character, also the zero"""
    r = ctx.rng()
    src = '''var g
var h
function cmp(a, b)
  emit(a == b, b == a, a == a, "" + a == a, a + b == b + a, [a][0] == b)
  if (a == b)
    return "same"
  end
  return "different"
end
function cat(a, b)
  var c = a + b
  var d = a
  d += b
  emit(c, d, len(c), len(a) + len(b), c == d, a, b)
  g = c
  h = [a, b, c]
  emit(g == h[2], h)
  return a + 1 + b + "x"
end
function codes(s)
  var r = new_array(len(s) + 1)
  var i
  for (i = 0 to len(s))
    r[i] = s[i]
  end
  return r
end
function at(s, i)
  return s[i]
end
function last()
  return [g, h, g == h[0], g == h[2]]
end
'''
    al = r.choice([[0, 97], [0, 1], [0, 97, 98], list(range(256)), [0], [0, 255, 128, 10, 34]])
    base = [bytes(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 40, 300]))) for _ in range(3)]
    steps = [('init',)]
    for _ in range(r.randrange(6, 16)):
        a = r.choice(base)
        b = r.choice([r.choice(base), a, a + b'\0', a[:-1], a + r.choice(base), bytes(reversed(a))])
        if b and r.random() < 0.5:
            i = r.randrange(len(b))
            b = b[:i] + bytes([r.choice(al)]) + b[i + 1:]
        m = r.choice(['call', 'run'])
        steps += [r.choice([(m, 'cmp', [a, b]), (m, 'cmp', [a, b]), (m, 'cat', [a, b]), (m, 'codes', [a]), (m, 'last', []) if any(s[1:2] == ('cat',) for s in steps) else (m, 'cmp', [b, a]),
                            (m, 'at', [a, r.choice([0, 1, len(a) - 1, len(a), len(a) // 2])])])]
    text_case(ctx, src, steps + [('globals',)], 'wrong string of any characters')


def do_strsize(ctx, n):
    r = ctx.rng()
    s = bytes(r.choice(ALPHA) for _ in range(n))
    lit = s.decode('latin1')
    src = '''var g = "%s"
function main(p)
  var q = "%s"
  emit(len(p), len(q), p == q, q == g, p[0], p[%d], q[%d], q[%d])
  var r = p + q
  emit(len(r), r[%d], r[%d], p == q)
  var s = r + 1
  q = q + "x"
  emit(len(s), len(q), q == p, q[%d], g == p)
  var t = ""
  var i
  for (i = 0 to 8)
    t = t + p
  end
  emit(len(t), t[%d], "a" + p == p + "a")
  return r
end
function at(p, i)
  return p[i]
end
''' % (lit, lit, n - 1, n // 2, n - 1, n - 1, n, n, 3 * n)
    steps = [('init',), ('call', 'main', [s]), ('call', 'at', [s, n]), ('call', 'at', [s, n - 1]), ('call', 'at', [s, -1]), ('globals',)]
    text_case(ctx, src, steps, 'wrong string of size')


def do_access(ctx, part):
    """every object with every index; nothing changes on failure"""
    objs = [None, 5, -1, 2.5, b'', b'abc', Fn('rd'), Sys('abs')]
    idx = [None, 0, 1, 2, 3, -1, 4, 100, 2147483647, -2147483648, 65536, 256, 0.0, 1.0, 1.5, -0.5, b'0', b'', Fn('rd'), Sys('len')]
    src = '''var a1 = [10, "x", none]
var a2 = [1]
var last
function rd(o, i)
  last = "rd"
  var v = o[i]
  last = v
  return v
end
function wr(o, i, v)
  last = "wr"
  o[i] = v
  last = "done"
end
function rdg(i)
  return a1[i]
end
function wrg(i, v)
  a1[i] = v
end
function rda(i)
  return a2[i]
end
function wra(i, v)
  a2[i] = v
end
function rdarr(i)
  return a1[[1, 2, 3]]
end
function wrarr(i)
  a1[a2] = i
end
function deep(i, j)
  var m = [[1, 2], [3, [4, 5]], "str"]
  return m[i][j]
end
'''
    r = ctx.rng()
    steps = [('init',)]
    todo = [('rd', [o, i]) for o in objs for i in idx] + [('wr', [o, i, 9]) for o in objs for i in idx]
    todo += [(f, [i]) for f in ('rdg', 'rda') for i in idx] + [(f, [i, v]) for f in ('wrg', 'wra') for i in idx for v in (7, None, b's')]
    todo += [('rdarr', [0]), ('wrarr', [1])] + [('deep', [i, j]) for i in (0, 1, 2, 3, -1) for j in (0, 1, 2, 3, -1)]
    for f, a in todo[part::12]:
        steps += [('call', f, a), ('globals',)]
    text_case(ctx, src, steps, 'wrong access')


def do_cycle(ctx, k):
    r = ctx.rng()
    n = r.choice([1, 2, 3, 5, 10, 50])
    L = ['var root', 'function main()']
    for i in range(n):
        L.append('  var n%d = new_array(3)' % i)
    for i in range(n):
        L.append('  n%d[0] = n%d' % (i, (i + 1) % n))
        L.append('  n%d[1] = %d' % (i, i))
        if r.random() < 0.5:
            L.append('  n%d[2] = n%d' % (i, r.randrange(n)))
    L += ['  root = n0', '  return n%d' % r.randrange(n), 'end', 'function walk(k)', '  var p = root', '  var s = ""', '  var i', '  for (i = 0 to k)', '    s = s + p[1] + ","',
          '    p = p[0]', '  end', '  p[1] = "mark"', '  return s', 'end']
    text_case(ctx, '\n'.join(L) + '\n', [('init',), ('run', 'main', []), ('call', 'walk', [n * 2 + 1]), ('globals',), ('call', 'walk', [n]), ('globals',)], 'wrong cyclic structure', budget=40000)


def do_shape(ctx, name, n):
    shapes.run(ctx, name, n, key=': wrong contents')


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    shapes.run_huge(ctx, name, n, key=': wrong contents')
