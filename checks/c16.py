"""C16 builtin functions: every argument value of every type against the mathematics"""
import math, struct
import lang, core, gen, kit
from lang import f32, dump
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Each builtin is called from the host through a wrapper, with every combination of value kinds and wrong argument counts (exhaustive), with '
        'extreme, structured (every exponent, both signs, edge mantissas) and random bit patterns of floats, extreme and random integers, strings of every byte and '
        'many lengths and arrays of many sizes; also amid pending operands, via function values, and with a collection before every instruction. Results are compared '
        'bit for bit with the mathematical result (2 units in the last place for sin, cos, tan), errors by kind, and globals and argument arrays before and after. '
        'Non-trivial: distinct (builtin, argument, result).')
ASSUME = ['open: sign of nan, max/min of nan or of zeros of different sign, abs(-0.0), chr of values outside 1..255, allocations between a quarter and all of the heap']
CHUNK = 4

ONE = ['abs', 'sin', 'cos', 'tan', 'round', 'floor', 'ceil', 'sqrt', 'chr', 'len', 'new_array']
TWO = ['min', 'max', 'bitand']
HEAD = 'var arr = [1, "e", none]\nvar big = new_array(300)\nvar nest = [[1], [2, [3]]]\nvar keep = "kept"\n' + \
    ''.join('function c_%s(a)\n  return %s(a)\nend\n' % (n, n) for n in ONE) + \
    ''.join('function c_%s(a, b)\n  return %s(a, b)\nend\n' % (n, n) for n in TWO) + \
    ''.join('function n_%s(a)\n  return a(%s)\nend\n' % (i, ', '.join(str(3 + j) for j in range(i))) for i in range(5)) + \
    ''.join('function p_%s(a)\n  var q = 5\n  emit(1, %s(a), q, [%s(a)], keep)\n  return "x" + q\nend\n' % (n, n, n) for n in ONE)


def cases(ctx):
    n = 4 if ctx.quick else 30
    out = [('matrix', k) for k in range(len(KINDS))]
    out += [('arity', k) for k in range(len(ONE + TWO) + 2)]
    out += [('exps', k) for k in range(256)]
    out += [('floats', k) for k in range(120 * n)]
    out += [('ints', k) for k in range(60 * n)]
    out += [('halves', k) for k in range(16 * n)]
    out += [('pairs', k) for k in range(60 * n)]
    out += [('spawn', k) for k in range(40 * n)]
    out += [('chars', k) for k in range(8)]
    out += [('lens', k) for k in range(24 * n)]
    out += [('arrays', k) for k in range(24 * n)]
    out += [('context', k) for k in range(60 * n)]
    out += [('pressure', k) for k in range(12 * n)]
    return out


def do_spawn(ctx, k):
    """threads started with fitting and unfitting arguments of every kind"""
    kit.spawn_args(ctx)


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def ok_float(x):
    """the set of acceptable bit patterns for a correctly rounded result"""
    return {dump(f32(x))}


def near(x):
    """2 units in the last place around x"""
    if x != x:
        return {'fnan'}
    b = struct.unpack('<i', struct.pack('<f', f32(x)))[0]
    out = set()
    for d in (-2, -1, 0, 1, 2):
        out.add('f%08x' % ((b + d) & 0xffffffff))
    if abs(x) < 1e-44:
        out |= {'f00000000', 'f80000000', 'f00000001', 'f80000001'}
    return out


def isnan(t):
    return t[0] == 'f' and (int(t[1:], 16) & 0x7f800000) == 0x7f800000 and (int(t[1:], 16) & 0x7fffff) != 0


def norm(t):
    return 'fnan' if t[0] == 'f' and t != 'fnan' and isnan(t) else t


def trig(fn, x):
    if x != x or x in (math.inf, -math.inf):
        return {'fnan'}
    return near(fn(x))


def zero_any(x):
    return {dump(x)} if x != 0 else {'f00000000', 'f80000000'}


def roundh(x):
    if x != x or abs(x) >= 8388608.0:
        return x
    r = math.floor(abs(x) + 0.0)
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def whole(fn, x):
    if x != x or x in (math.inf, -math.inf):
        return x
    return math.copysign(float(fn(x)), x) if float(fn(x)) == 0 else float(fn(x))


def want(name, args):
    """set of acceptable results, or the error that must be raised, or None when open"""
    num = [type(a) in (int, float) for a in args]
    x = args[0]
    if name in ('len',):
        if type(x) is bytes:
            return {dump(len(x))}
        if type(x) is lang.Arr:
            return {dump(len(x.v))}
        return 'bad_argument'
    if name == 'chr':
        if type(x) is not int:
            return 'bad_argument'
        return {dump(bytes([x]))} if 1 <= x <= 255 else None
    if name == 'bitand':
        if type(x) is int and type(args[1]) is int:
            return {dump(lang.i32(x & args[1]))}
        return 'bad_argument'
    if not all(num):
        return 'bad_argument'
    if name == 'abs':
        if type(x) is int:
            return {dump(lang.i32(abs(x)))}
        return zero_any(abs(x))
    if name == 'new_array':
        n = lang.as_int(x)
        if type(x) is float and x != x:
            return 'bad_argument'
        if n <= 0:
            return 'bad_argument'
        if n >= 1 << 20:
            return 'out_of_memory'
        return {'A0(' + ','.join('n' * n) + ')'} if n <= 20000 else None
    f = [f32(a) for a in args]
    if name in ('min', 'max'):
        if f[0] != f[0] or f[1] != f[1]:
            return {norm(dump(f[0])), norm(dump(f[1]))}
        if f[0] == f[1]:
            return {dump(f[0]), dump(f[1])}
        return {dump(max(f) if name == 'max' else min(f))}
    y = f[0]
    if name == 'sqrt':
        if y != y or y < 0:
            return {'fnan'}
        return {dump(y)} if y == math.inf or y == 0 else ok_float(math.sqrt(y))
    if name in ('sin', 'cos', 'tan'):
        return trig(getattr(math, name), y)
    if name == 'round':
        return {norm(dump(roundh(y)))}
    if name == 'floor':
        return {norm(dump(whole(math.floor, y)))}
    if name == 'ceil':
        return {norm(dump(whole(math.ceil, y)))}
    raise AssertionError(name)


GLOBALS = None


def bulk(ctx, calls, opt=None):
    """calls: (builtin, args[, text of the arguments]); all in one machine"""
    o = ctx.rng('o').randrange(2) if opt is None else opt
    s = core.script(HEAD, o, [('init',), ('globals',)])
    t = ''
    for c in calls:
        t += 'call 0 c_%s%s\n' % (c[0], c[2] if len(c) > 2 else core.args_text(c[1]))
    t += 'globals 0\n'
    lines = ctx.run(s + t.encode('latin1'))
    res = [l for l in lines if l.startswith('call ')]
    gl = [l for l in lines if l.startswith('globals')]
    if len(res) != len(calls) or len(gl) != 2 or 'init 1' not in lines:
        ctx.fail('calls missing', got=lines[:10])
    for c, l in zip(calls, res):
        verdict(ctx, c[0], c[1], l)
    if gl[0] != gl[1]:
        ctx.fail('a builtin changed other state', before=gl[0], after=gl[1], calls=[(c[0], c[1:]) for c in calls][:20])
    ctx.evals += len(calls)
    ctx.count['calls_judged'] += len(calls)


def verdict(ctx, name, args, l):
    d = dict(x.split('=', 1) for x in l.split(' ')[2:] if '=' in x)
    w = want(name, args)
    if w is None:
        ctx.count['open'] += 1
        return
    shown = [dump(a)[:60] for a in args]
    if isinstance(w, str):
        if l.split(' ')[1] != '0' or d['err'] != w:
            ctx.fail('%s: no error for unsupported argument' % name, args=shown, got=l[:300], want=w)
        if not d.get('line', '').startswith('0:') or d['line'] == '0:0':
            ctx.fail('%s: error without its line' % name, args=shown, got=l[:300])
    else:
        if l.split(' ')[1] != '1' or d['err'] != 'success':
            ctx.fail('%s: error for supported argument' % name, args=shown, got=l[:300], want=sorted(w)[:5])
        got = norm(d['ret'])
        if got not in w:
            ctx.fail('%s: wrong result' % name, args=shown, got=got[:300], want=sorted(w)[:5])
    ctx.seen(name, shown, d['ret'][:40], d['err'])


A = lang.Arr
KINDS = [(None, ' n'), (0, ' i0'), (7, ' i7'), (-3, ' i-3'), (2.5, ' f40200000'), (-0.5, ' fbf000000'), (b'', ' s'), (b'str', ' s737472'), (b'12', ' s3132'),
         (A([1, b'e', None]), ' G0'), (A([None] * 300), ' G1'), (lang.Fn('c_abs'), ' Fc_abs'), (lang.Sys('abs'), ' Yabs'), (lang.Sys('emit'), ' Yemit')]


def do_matrix(ctx, k):
    v, t = KINDS[k]
    calls = [(n, [v], t) for n in ONE]
    for w, u in KINDS:
        for n in TWO:
            calls.append((n, [v, w], t + u))
    ctx.rng().shuffle(calls)
    for o in (0, 1):
        bulk(ctx, calls, o)
    ctx.sample('%s with everything' % dump(v))


def do_arity(ctx, k):
    """any number of arguments, through a function value"""
    name = (ONE + TWO + ['wait', 'new_thread'])[k]
    n = 2 if name in TWO else 1
    for o in (0, 1):
        src = HEAD + 'function ref_%s()\n  var z = [%s]\n  return z[0]\nend\n' % (name, name)
        t = ''.join('call 0 n_%d Y%s\nglobals 0\n' % (i, name) for i in range(5)) + 'call 0 ref_%s\n' % name
        lines = ctx.run(core.script(src, o, [('init',), ('globals',)]) + t.encode())
        res = [l for l in lines if l.startswith('call ')]
        if len(set(l for l in lines if l.startswith('globals'))) != 1:
            ctx.fail('a builtin changed other state', name=name)
        for i, l in enumerate(res[:5]):
            d = dict(x.split('=', 1) for x in l.split(' ')[2:] if '=' in x)
            if name == 'new_thread':
                if d['err'] != 'bad_argument':
                    ctx.fail('new_thread of numbers', n=i, got=l)
            elif i != n:
                if d['err'] != 'bad_num_args':
                    ctx.fail('%s: wrong number of arguments accepted' % name, n=i, got=l)
            elif name != 'wait':
                verdict(ctx, name, [3 + j for j in range(i)], l)
            ctx.seen(name, i, d['err'])
        ctx.evals += 5


def fval(bits):
    return struct.unpack('<f', struct.pack('<I', bits))[0]


FN = ['abs', 'sin', 'cos', 'tan', 'round', 'floor', 'ceil', 'sqrt']


def do_exps(ctx, k):
    """every exponent, both signs, edge mantissas"""
    r = ctx.rng()
    calls = []
    man = [0, 1, 0x7fffff, 0x400000, 0x3fffff, 0x400001, r.randrange(1 << 23)]
    for s in (0, 1):
        for m in man:
            b = s << 31 | k << 23 | m
            for n in FN:
                calls.append((n, [fval(b)], ' f%08x' % b))
    bulk(ctx, calls)


def do_floats(ctx, k):
    r = ctx.rng()
    calls = []
    for _ in range(60):
        x = r.random()
        if x < 0.4:
            b = r.randrange(1 << 32)
        elif x < 0.7:
            b = struct.unpack('<I', struct.pack('<f', r.uniform(-1000, 1000)))[0]
        else:
            b = struct.unpack('<I', struct.pack('<f', r.choice([1, -1]) * 10 ** r.uniform(-6, 9)))[0]
        for n in r.sample(FN, 4):
            calls.append((n, [fval(b)], ' f%08x' % b))
        if not 1 <= fval(b) < 1048576:
            calls.append(('new_array', [fval(b)], ' f%08x' % b))
        if r.random() < 0.1:
            calls.append((r.choice(['chr', 'len', 'bitand']), [fval(b), 3][:1], ' f%08x' % b))
            if calls[-1][0] == 'bitand':
                calls[-1] = ('bitand', [fval(b), 3], ' f%08x i3' % b)
    bulk(ctx, calls)
    ctx.sample(repr(calls[0]))


def do_ints(ctx, k):
    r = ctx.rng()
    calls = []
    pool = gen.INTS + ctx.mined + [1 << j for j in range(31)] + [-(1 << j) for j in range(32)] + [(1 << j) - 1 for j in range(32)]
    for _ in range(50):
        v = lang.i32(r.choice(pool) + r.choice([0, 0, 1, -1])) if r.random() < 0.6 else r.randrange(-1 << 31, 1 << 31)
        w = lang.i32(r.choice(pool)) if r.random() < 0.6 else r.randrange(-1 << 31, 1 << 31)
        for n in r.sample(FN, 3):
            calls.append((n, [v]))
        for n in TWO:
            calls.append((n, [v, w]))
        calls.append(('chr', [v]))
        if not 0 < v < 200000:
            calls.append(('new_array', [v]))
    bulk(ctx, calls)


def do_halves(ctx, k):
    """around whole numbers and halves, where rounding is decided"""
    r = ctx.rng()
    calls = []
    for _ in range(60):
        base = r.choice([r.randrange(-50, 50), r.randrange(-70000, 70000), r.choice([4194303, 4194304, 8388607, 8388608, 16777215])])
        x = f32(base + r.choice([0.0, 0.5, 0.25, 0.75]))
        b = struct.unpack('<I', struct.pack('<f', x))[0]
        for d in (-1, 0, 1):
            c = (b + d) & 0xffffffff
            for n in ('round', 'floor', 'ceil'):
                calls.append((n, [fval(c)], ' f%08x' % c))
    bulk(ctx, calls)


def do_pairs(ctx, k):
    r = ctx.rng()
    calls = []

    def one():
        x = r.random()
        if x < 0.35:
            v = r.choice(gen.INTS + ctx.mined + [16777216, 16777217, -16777217, 2147483647])
            v = lang.i32(v)
            return v, ' i%d' % v
        if x < 0.5:
            v = r.randrange(-5, 6)
            return v, ' i%d' % v
        if x < 0.75:
            b = r.randrange(1 << 32)
        else:
            b = struct.unpack('<I', struct.pack('<f', r.choice([0.0, -0.0, 1.0, 1.5, -1.5, math.inf, -math.inf, 16777216.0, 3e38, 1e-45, 2147483648.0])))[0]
        return fval(b), ' f%08x' % b
    for _ in range(120):
        (v, t), (w, u) = one(), one()
        if r.random() < 0.15:
            w, u = v, t
        for n in ('min', 'max'):
            calls.append((n, [v, w], t + u))
            calls.append((n, [w, v], u + t))
    bulk(ctx, calls)
    ctx.sample(repr(calls[0]))


def do_chars(ctx, k):
    calls = [('chr', [v]) for v in range(k * 32, k * 32 + 32)]
    calls += [('len', [bytes([v])]) for v in range(max(1, k * 32), k * 32 + 32)]
    for o in (0, 1):
        bulk(ctx, calls, o)


def do_lens(ctx, k):
    """length of strings and arrays of many sizes, made in many ways"""
    r = ctx.rng()
    ns = [n for n in kit.sizes(ctx, 30000) if n > 0]
    n = r.choice(ns)
    s = bytes(r.randrange(1, 256) for _ in range(n))
    bulk(ctx, [('len', [s]), ('len', [s[:-1]]), ('len', [s + b'x'])])
    m = r.choice([x for x in ns if x <= 3000])
    lit = min(m, 100)
    src = '''var g
function main()
  var s = ""
  var i
  for (i = 0 to %d)
    s = s + "ab"
    if (len(s) == (i * 2) + 2)
      i = i + 0
    else
      emit("bad", i)
    end
  end
  emit(len(s), s.length)
  var a = new_array(%d)
  emit(len(a), a.length)
  a[%d] = s
  g = [a, %s]
  emit(len(g), len(g[0]), len(g[0][%d]), len([%s]))
  return len("" + 12345) + len(chr(65) + chr(66))
end
''' % (min(m, 1500), m, m - 1, ', '.join(str(j) for j in range(lit)), m - 1, ', '.join('none' for _ in range(lit)))
    kit.text_case(ctx, src, [('init',), ('run', 'main', []), ('globals',)], 'lengths', budget=60000)


def do_arrays(ctx, k):
    """new arrays: the length asked for, all none, shared with nothing, from any kind of number"""
    r = ctx.rng()
    L = ['var keep = []', 'function main(p)', '  var olds = new_array(40)', '  var i']
    L[0] = 'var keep = [0]'
    for j in range(r.randrange(3, 8)):
        n = r.choice([1, 2, 3, 7, 8, 16, 63, 100, 255, 256, 500, 1000])
        form = r.choice(['%d' % n, '%d.0' % n, '%d.9' % n, 'p + %d' % (n - 1), '%d / 2' % (n * 2), 'opaque(%d)' % n, 'len(new_array(%d))' % n])
        L += ['  var a%d = new_array(%s)' % (j, form), '  emit(a%d.length, a%d)' % (j, j),
              '  a%d[0] = a%d' % (j, r.randrange(0, j + 1)), '  a%d[%d] = "v%d"' % (j, n - 1, j), '  olds[%d] = a%d' % (j, j),
              '  a%d[%d] = %s' % (j, n // 2, r.choice(['1', '1.5', 'none', '"t"', 'new_array(2)']))]
    L += ['  emit(olds)', '  keep = olds', '  return olds.length', 'end']
    src = '\n'.join(L) + '\n'
    modes = (None, 'inst 2000000', 'slices 2000000 %d' % r.randrange(1, 40))
    kit.text_case(ctx, src, [('init',), ('run', 'main', [1]), ('run', 'main', [1]), ('globals',)], 'new arrays', modes=modes, budget=60000)
    ctx.sample(src[:500])


def do_context(ctx, k):
    """amid pending operands, nested, through variables, in threads of any pace"""
    r = ctx.rng()
    names = ['abs', 'round', 'floor', 'ceil', 'sqrt', 'len', 'chr', 'new_array', 'min', 'max', 'bitand']

    def val(d):
        if d <= 0 or r.random() < 0.3:
            return r.choice(['p', 'q', 'arr', 'g', '%d' % r.randrange(0, 300), '%d.5' % r.randrange(0, 99), '"%s"' % ('s' * r.randrange(0, 6)), 'arr[1]', 'none'])
        n = r.choice(names)
        a = [val(d - 1) for _ in range(2 if n in TWO else 1)]
        if n == 'new_array':
            a = [r.choice(['3', '2.7', 'p', 'q', '"s"', '0', '-1', 'none'])]
        x = r.random()
        if x < 0.7:
            return '%s(%s)' % (n, ', '.join(a))
        if x < 0.85:
            return 'ind%d(%s, %s)' % (len(a), n, ', '.join(a))
        return '(%s + %s)' % ('%s(%s)' % (n, ', '.join(a)), val(d - 1))
    L = ['var g = 5', 'var arr = [4, "five", 6.5]', 'function ind1(f, a)', '  return f(a)', 'end', 'function ind2(f, a, b)', '  return f(a, b)', 'end']
    fs = []
    for j in range(8):
        L += ['function t%d(p, q)' % j, '  var l = [p, q]', '  emit("pending", %s, p, [%s, g], q)' % (val(3), val(2)), '  emit(l, p, q, arr)',
              '  l[0] = %s' % val(2), '  g = g + 1', '  return %s' % val(3), 'end']
        fs.append('t%d' % j)
    steps = [('init',)]
    for f in fs:
        steps.append((r.choice(['run', 'call']), f, [r.choice([0, 3, -4, 70, 2.5, -9.75]), r.choice([1, 65, 200, 0.25, b'q'])]))
    steps.append(('globals',))
    kit.text_case(ctx, '\n'.join(L) + '\n', steps, 'builtin in context', modes=(None, 'inst 2000000'))


def do_pressure(ctx, k):
    """many results in a row: nothing is lost while the heap turns over"""
    r = ctx.rng()
    n = r.choice(['chr(65 + i %% 26)', 'new_array(1 + i %% 9)', 'sqrt(i)', 'max(i, 3)', 'len("abc")', 'floor(i / 2.0)', 'bitand(i, 7)', 'abs(0 - i)', '"" + round(i / 3.0)'])
    n = n.replace('%%', '%')
    src = '''var keep = new_array(10)
function main()
  var i
  for (i = 0 to 3000)
    keep[i %% 10] = %s
  end
  emit(keep)
  return keep[3]
end
''' % n
    kit.text_case(ctx, src, [('init',), ('run', 'main', []), ('globals',)], 'results under pressure', budget=80000, modes=(None, 'slices 2000000 %d' % r.randrange(3, 90)))
