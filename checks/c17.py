"""C17 the boundary between host and scripts: calls, results, handlers, callbacks, instances"""
import collections
import lang, core, gen, kit
from lang import dump, Arr, Fn, Sys
from parse import parse
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Programs call host functions with random argument lists (0..300 values of every kind) from every kind of place; the host pushes values of every kind; '
        'handlers of every mask and mode record what they are asked and with which operands; the host calls script functions, also from within host functions, '
        'with every kind of value and wrong counts; callbacks are recorded for threads run in slices, steps, passes, with errors and waits; several machines on one '
        'program are interleaved. Everything recorded is compared with the reference interpreter. Non-trivial: distinct log.')
CHUNK = 4
ASSUME = ['a handler answers by pushing one value (reads, operators) or nothing (stores), as handlers must']

MGET, MSET, AGET, ASET, EQ, ADD, SUB, MUL, DIV = 4, 8, 16, 32, 64, 128, 256, 512, 1024
BINS = {'+': (ADD, 'add', 1000), '-': (SUB, 'sub', 1001), '*': (MUL, 'mul', 1002), '/': (DIV, 'div', 1003), '==': (EQ, 'eq', 1004)}


def cases(ctx):
    n = 14 if ctx.quick else 60
    out = [('matrix', k) for k in range(3 * 13)]
    out += [('args', k) for k in range(120 * n)]
    out += [('hval', k) for k in range(60 * n)]
    out += [('handlers', k) for k in range(250 * n)]
    out += [('wild', k) for k in range(250 * n)]
    out += [('calls', k) for k in range(100 * n)]
    out += [('counts', k) for k in range(12)]
    out += [('nested', k) for k in range(100 * n)]
    out += [('callbacks', k) for k in range(150 * n)]
    out += [('passes', k) for k in range(60 * n)]
    out += [('machines', k) for k in range(80 * n)]
    out += [('binding', k) for k in range(40 * n)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


class Handlers:
    """what the handlers of the executor do"""

    def __init__(self, mask, mode):
        self.mask, self.mode = mask, mode
        self.asked = 0
        self.mget = self._mget if mask & MGET else None
        self.mset = self._mset if mask & MSET else None
        self.aget = self._aget if mask & AGET else None
        self.aset = self._aset if mask & ASET else None

    def log(self, I, kind, vals, tail=''):
        self.asked += 1
        seen = {}
        I.events.append(('A', 'A %s %s%s' % (kind, ' '.join(dump(v, seen) for v in vals), tail)))

    def bin(self, I, op, l, r):
        m, name, res = BINS[op]
        if not self.mask & m:
            return False, None
        self.log(I, name, [l, r])
        if self.mode == 1 or (self.mode == 2 and (type(l) is Arr or type(r) is Arr)):
            return True, res
        return False, None

    def _aget(self, I, a, i):
        self.log(I, 'aget', [a, i])
        if self.mode and type(i) is int and i < 0:
            return True, lang.i32(2000 - i)
        return False, None

    def _aset(self, I, a, i, v):
        self.log(I, 'aset', [a, i, v])
        return self.mode and type(i) is int and i < 0

    def _mget(self, I, o, m):
        self.log(I, 'mget', [o, None], ' .' + m)
        if self.mode and m != 'refused':
            return True, b'm:' + m.encode()
        return False, None

    def _mset(self, I, o, v, m):
        self.log(I, 'mset', [o, v], ' .' + m)
        return bool(self.mode and m != 'refused')


def with_handlers(ctx, src, steps, mask, mode, key, decls=None, opts=(0, 1), modes=(None,), budget=20000, hv=None, hvtext=''):
    decls = decls or parse(src)
    pre = 'hand 0 %d %d\n' % (mask, mode) + hvtext
    for o in opts:
        h = Handlers(mask, mode)
        try:
            if core.div_by_zero(decls):
                raise lang.Budget()
            I, want, keys = core.expect(decls, steps, handlers=h, budget=budget, hv=hv)
        except (lang.Budget, RecursionError):
            ctx.skipped += 1
            return None
        for m in modes:
            lines = ctx.run(core.script(src, o, steps, 'bh', pre, m))
            got, bases = core.judge(ctx, key, lines, want, src)
            ctx.evals += 1
            ctx.count['events_compared'] += len(got)
            ctx.count['handler_questions'] += h.asked
            callbacks(ctx, lines, mask, src)
    ctx.seen(want)
    return want


def callbacks(ctx, lines, mask, src):
    """one finish, and one error exactly when there is an error, per thread that ended; the thread ids of direct calls are
    not known, so those are matched by order"""
    te, tf = collections.Counter(), collections.Counter()
    err = {}
    ended = 0
    failed = 0
    for l in lines:
        p = l.split(' ')
        if p[0] == 'TE':
            te[p[1]] += 1
            err[p[1]] = p[2]
        elif p[0] == 'TF':
            tf[p[1]] += 1
            if (p[2] != 'success') != (te[p[1]] > 0) and mask & 1:
                ctx.fail('finish and error callbacks disagree', line=l, source=src)
        elif p[0] in ('run', 'call', 'init') and 'nothread' not in l and 'nofunc' not in l and p[1] not in ('gone', 'budget'):
            ended += 1
            if 'err=' in l and 'err=success' not in l:
                failed += 1
    for cnt, bit, n, what in ((te, 1, failed, 'error'), (tf, 2, ended, 'finish')):
        if any(v != 1 for v in cnt.values()):
            ctx.fail('%s callback fired more than once' % what, counts=dict(cnt), source=src)
        if sum(cnt.values()) != (n if mask & bit else 0):
            ctx.fail('%s callback count' % what, got=sum(cnt.values()), want=n if mask & bit else 0, source=src)
        ctx.count['callbacks_' + what] += sum(cnt.values())


OPS = ['+', '-', '*', '/', '==', '%', '<', '>', '<=', '>=', 'and', 'or', '[]']
VALS = ['none', '0', '7', '-2', '2.5', '""', '"s"', 'fn', 'abs', 'arr', 'emit', 'other']


def do_matrix(ctx, k):
    """every operator on every pair of kinds, with all handlers, in all modes"""
    mode, op = k % 3, OPS[k // 3]
    L = ['var arr = [1, "e", none]', 'var other = [2]', 'function fn(x)', '  return x', 'end']
    steps = [('init',)]
    for i, a in enumerate(VALS):
        for j, b in enumerate(VALS):
            e = 'p %s q' % op if op != '[]' else 'p[q]'
            n = 'm_%d_%d' % (i, j)
            L += ['function %s()' % n, '  var p = %s' % a, '  var q = %s' % b, '  var r = %s' % e, '  emit("r", r)', '  return r', 'end']
            steps.append(('run', n, []))
            if op == '[]':
                n = 's_%d_%d' % (i, j)
                L += ['function %s()' % n, '  var p = %s' % a, '  var q = %s' % b, '  p[q] = "stored"', '  emit("r", p)', '  return arr', 'end']
                steps.append(('run', n, []))
            if i == j or j == 0:
                n = 'g_%d_%d' % (i, j)
                L += ['function %s()' % n, '  var p = %s' % a, '  var r = p.%s' % ('length' if j == 0 else 'refused' if i % 2 else 'some'), '  emit(r)', '  p.%s = r' % ('refused' if i % 3 == 0 else 'len'),
                      '  emit("after")', '  return r', 'end']
                steps.append(('run', n, []))
    steps.append(('globals',))
    with_handlers(ctx, '\n'.join(L) + '\n', steps, 2047, mode, 'operator %s with handlers' % op)
    with_handlers(ctx, '\n'.join(L) + '\n', steps, 3, mode, 'operator %s without handlers' % op, opts=(1,))
    ctx.sample('%s in mode %d' % (op, mode))


def rmask(r):
    x = r.random()
    if x < 0.3:
        return 2047
    if x < 0.5:
        return 3 | 4 << r.randrange(9)
    if x < 0.7:
        return 2047 & ~(4 << r.randrange(9))
    return r.randrange(2048)


def val(r, d=2):
    x = r.random()
    if d and x < 0.2:
        return '[%s]' % ', '.join(val(r, d - 1) for _ in range(r.randrange(1, 5)))
    return r.choice(['none', '0', '1', '-7', '123456', '2147483647', '2.5', '-0.25', '""', '"text"', '"%s"' % ('long' * r.randrange(1, 60)), 'fn', 'abs', 'emit', 'arr', 'g', 'p'])


def do_args(ctx, k):
    """argument lists of host functions, direct and through values, from any place"""
    r = ctx.rng()
    L = ['var arr = [1, "e", none]', 'var g = 4', 'function fn(x)', '  emit("fn", x)', '  return x', 'end', 'function pass(f, x)', '  return f(x)', 'end']
    steps = [('init',)]
    for j in range(4):
        L += ['function t%d(p, em)' % j, '  var i = %d' % r.randrange(3), '  var ft = [em, echo, fn]']
        for _ in range(r.randrange(2, 6)):
            n = r.choice([0, 1, 2, 3, 5, 8, 16, 17, 40])
            a = ', '.join(val(r) for _ in range(n))
            v = val(r)
            L.append('  ' + r.choice(['emit(%s)' % a, 'emit(%s)' % a, 'em(%s)' % a, 'p = [emit(%s), two(%s, %s)]' % (a, v, val(r)), 'p = ft[1](%s)' % v, 'p = pass(echo, %s)' % v,
                                      'emit(1, echo(%s), [2, echo(echo(%s))], p)' % (v, val(r)), 'p = two(%s, fn(echo(3))) + emit(%s)' % (v, a), 'two(%s, p)' % v, 'var e%d = em' % len(L),
                                      'if (emit(%s))\n    emit("yes", p)\n  end' % a, 'while (i < echo(2))\n    i += 1\n    emit(i, p)\n  end', 'fn(ft[2](%s))' % v]))
            if L[-1].startswith('  ft['):
                L[-1] = '  p = ' + L[-1].strip()
        L += ['  return p', 'end']
        steps.append(('run', 't%d' % j, [r.choice([0, 5, b'arg', 1.5, None]), Sys('emit')]))
    if r.random() < 0.1:
        n = r.choice(kit.sizes(ctx, 300))
        L += ['function many(p)', '  emit(%s)' % ', '.join(r.choice(['1', 'p', '"s"', '2.5', 'none']) if i % 7 else str(i) for i in range(n)), '  return %d' % n, 'end']
        steps.append(('run', 'many', [3]))
    steps.append(('globals',))
    with_handlers(ctx, '\n'.join(L) + '\n', steps, r.choice([0, 3, 2047]), 0, 'arguments of host functions', modes=(None, 'mix 100000 %d 300 20' % r.randrange(99)))
    ctx.sample('\n'.join(L)[:700])


def rvalue(r, ctx, d=2):
    """a host made value: python value and its text"""
    x = r.random()
    if d and x < 0.25:
        vs = [rvalue(r, ctx, d - 1) for _ in range(r.choice([1, 1, 2, 3, 5, 9]))]
        return Arr([v for v, _ in vs]), 'A(%s)' % ','.join(t for _, t in vs)
    v = r.choice([None, 0, 1, -1, 2147483647, -2147483648, r.randrange(-1 << 31, 1 << 31), r.choice(ctx.mined), 0.0, 1.5, -2.25, 1e10, b'', b'a', b'\xff\x01', b'str' * r.randrange(1, 90), bytes(r.choice([0, 0, 65, 10, 255]) for _ in range(r.randrange(1, 9))),
                  Fn('fn'), Fn('main'), Sys('echo'), Sys('abs')])
    return v, dump(v)


def do_hval(ctx, k):
    """values pushed by the host"""
    r = ctx.rng()
    hv, text = {}, ''
    for i in range(r.randrange(1, 14)):
        v, t = rvalue(r, ctx)
        hv[i] = v
        text += 'hv %d %s\n' % (i, t)
    n = len(hv)
    src = '''var g
var seen = new_array(%d)
function fn(x)
  return x
end
function main(p)
  var i
  for (i = 0 to %d)
    var v = hval(i)
    emit(i, v, hval(i), [hval(i), v])
    seen[i] = v
    g = hval(i)
    fn(hval(i))
    if (hval(i))
      emit("true")
    end
  end
  emit(hval(%d), hval(0 - 1), hval("x"))
  return [hval(p), seen]
end
''' % (n, n, n + 5)
    # arrays are made anew at each question: the reference has to copy too
    steps = [('init',), ('run', 'main', [r.randrange(n)]), ('globals',), ('call', 'main', [0]), ('globals',)]
    with_handlers(ctx, src, steps, r.choice([0, 3]), 0, 'values from the host', hv=HV(hv), hvtext=text, modes=(None, 'inst 1000000'))


class HV(dict):
    def get(self, k, d=None):
        return copy(dict.get(self, k, d))


def copy(v):
    return Arr([copy(x) for x in v.v]) if type(v) is Arr else v


def do_handlers(ctx, k):
    """programs full of operations of all kinds"""
    r = ctx.rng()
    L = ['const K = 6', 'const KS = "ks"', 'var arr = [1, "e", none]', 'var g = 4', 'function fn(x)', '  return x', 'end']

    def ex(d):
        if d <= 0 or r.random() < 0.25:
            return r.choice(['p', 'q', 'g', 'arr', 'l', val(r, 1)])
        x = r.random()
        if x < 0.6:
            return '(%s %s %s)' % (ex(d - 1), r.choice(['+', '-', '*', '/', '==', '+', '-', '*', '/', '==', '%', '<', 'and']), ex(d - 1))
        if x < 0.75:
            return '%s[%s]' % (r.choice(['p', 'q', 'arr', 'l', 'g']), r.choice([ex(d - 1), '-1', '0', '1', '-%d' % r.randrange(1, 99)]))
        if x < 0.9:
            return '%s.%s' % (r.choice(['p', 'q', 'arr', 'l', 'g']), r.choice(['length', 'refused', 'foo', 'Length', 'a_b', 'x', 'len', 'length_', 'lengths', 'lengt', 'LENGTH', 'l', 'refused_', 'ref', 'm' * r.randrange(1, 80)]))
        return 'fn(%s)' % ex(d - 1)
    steps = [('init',)]
    for j in range(8):
        L += ['function t%d(p, q)' % j, '  var l = [p, 2]']
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            if x < 0.4:
                L.append('  emit(%s)' % ex(3))
            elif x < 0.55:
                L.append('  %s[%s] = %s' % (r.choice(['p', 'arr', 'l', 'g']), r.choice(['0', '-1', '1', '5', '"k"', ex(1)]), ex(2)))
            elif x < 0.7:
                L.append('  %s.%s = %s' % (r.choice(['p', 'arr', 'l', 'g', 'q']), r.choice(['foo', 'refused', 'length', 'b', 'refuse', 'lengths', 'Length', 'm' * r.randrange(1, 80)]), ex(2) if r.random() < 0.7 else r.choice(['1 + 2', 'K', '-K', '(2 * K) - 1', 'KS', 'not 0', '3'])))
            elif x < 0.85:
                L.append('  %s %s %s' % (r.choice(['p', 'g', 'l']), r.choice(['=', '+=', '-=', '*=', '/=']), ex(2)))
            else:
                L.append('  if (%s)\n    emit("then")\n  else\n    emit("else")\n  end' % ex(2))
        L += ['  return %s' % ex(2), 'end']
        steps.append((r.choice(['run', 'run', 'call']), 't%d' % j, [r.choice([0, 3, b's', 1.5, None, Fn('fn'), Sys('abs')]), r.choice([0, -1, b'q', 2.5, None])]))
    steps.append(('globals',))
    src = '\n'.join(L) + '\n'
    mode = r.choice([0, 1, 1, 2])
    modes = (None,) if r.random() < 0.7 else (None, r.choice(['inst 100000', 'qline 100000', 'slices 100000 3 1 7']))
    with_handlers(ctx, src, steps, rmask(r), mode, 'handlers', modes=modes)
    ctx.sample(src[:900])


def do_wild(ctx, k):
    """general random programs, ill typed often, with handlers"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0.1, 0.3]), nest=2, stmts=r.choice([3, 5]), depth=r.choice([2, 3, 4]), funcs=3, globals=3, emit=0.4)
    g, decls, src = kit.random_program(ctx, r, cfg)
    with_handlers(ctx, src, kit.random_steps(g, r, 4), rmask(r), r.choice([0, 1, 2]), 'random program with handlers', decls=decls, opts=(r.randrange(2),))


def do_calls(ctx, k):
    """host to script: arguments and results of every kind, any order of calls, direct and in threads"""
    r = ctx.rng()
    na = r.choice([0, 1, 2, 3, 4, 7, 12, 30])
    ps = ['a%d' % i for i in range(na)]
    L = ['var g = [1, [2]]', 'var h = 0', 'function fn(x)', '  return x', 'end', 'function main()', '  return fn', 'end']
    L += ['function all(%s)' % ', '.join(ps), '  emit(%s)' % ', '.join(ps), '  h = [%s]' % ', '.join(ps or ['0']), '  return [%s]' % ', '.join(reversed(ps or ['none'])), 'end']
    for i, p in enumerate(ps[:6]):
        L += ['function pick%d(%s)' % (i, ', '.join(ps)), '  var l = %s' % p, '  return %s' % r.choice([p, 'l', '[%s][0]' % p, 'fn(%s)' % p]), 'end']
    src = '\n'.join(L) + '\n'
    names = ['all'] * 2 + ['pick%d' % i for i in range(min(na, 6))]
    steps = [('init',)]
    for _ in range(r.randrange(2, 9)):
        args = []
        for _ in range(na):
            v = rvalue(r, ctx, 0)[0]
            args.append(v)
        if r.random() < 0.12 and na:
            args = args[:-1] if r.random() < 0.5 else args + [1]
        steps.append((r.choice(['run', 'call', 'call']), r.choice(names), args))
        if r.random() < 0.4:
            steps.append(('globals',))
    steps.append(('globals',))
    with_handlers(ctx, src, steps, r.choice([0, 3]), 0, 'calls from the host')
    ctx.sample(src[:400])


def do_counts(ctx, k):
    """functions of k parameters called with every number of arguments; nothing happens on a mismatch"""
    ps = ', '.join('p%d' % i for i in range(k))
    src = 'var g = 0\nfunction f(%s)\n  g += 1\n  emit(%s)\n  return g\nend\n' % (ps, ps)
    steps = [('init',)]
    for n in range(14):
        for how in ('call', 'run'):
            steps.append((how, 'f', list(range(n))))
        steps.append(('globals',))
    with_handlers(ctx, src, steps, 3, 0, 'number of arguments')


def do_nested(ctx, k):
    """script to host to script"""
    r = ctx.rng()
    L = ['var g = 0', 'var log = [0, 0, 0]', 'function id(x)', '  return x', 'end', 'function add(a, b)', '  var l = [a, b]', '  g += 1', '  return a + b', 'end',
         'function rec(n)', '  var here_ = [n, "r" + n]', '  if (n < 1)', '    return 0', '  end', '  var v = hcall(rec, n - 1)', '  emit(n, here_, v)', '  return v + n', 'end',
         'function churn(n)', '  var i', '  var s = ""', '  for (i = 0 to n)', '    s = s + "x"', '    log[i % 3] = [s, i]', '  end', '  return s', 'end', 'function bad(x)', '  emit("bad", x)', '  return x - "s"', 'end',
         'function store(v)', '  log[1] = v', '  return log', 'end']
    steps = [('init',)]
    for j in range(4):
        L += ['function t%d(p)' % j, '  var l = ["l", p]']
        for _ in range(r.randrange(1, 5)):
            L.append('  ' + r.choice(['emit(hcall(add, p, 1), l)', 'emit([l, hcall(churn, %d), hcall(id, l)])' % r.choice([3, 20, 60]), 'p = hcall(rec, %d)' % r.randrange(6), 'p = hcall(id, l)[0]',
                                      'hcall(store, [p, l])', 'emit(hcall(store, hcall(id, "v")), log)', 'var q%d = "k" + hcall(churn, 9)\n  emit(q%d)' % (len(L), len(L)), 'l[1] = hcall(id, 4)',
                                      'p = hcall(hcall(id, add), 1, hcall(id, 2))', 'g = g + hcall(id, 3) * hcall(add, 1, 1)']))
            if r.random() < 0.06:
                L.append('  ' + r.choice(['hcall(bad, 1)', 'hcall(id)', 'hcall(id, 1, 2)', 'hcall(3)', 'hcall()', 'emit(1, [hcall(bad, p)])', 'hcall(abs, 1)']))
        L += ['  emit("end", p, l, g)', '  return l', 'end']
        steps.append(('run', 't%d' % j, [r.choice([0, b'a', 2.5, 7])]))
        if r.random() < 0.4:
            steps.append(('globals',))
    steps.append(('globals',))
    src = '\n'.join(L) + '\n'
    modes = (None, 'inst 1000000', 'slices 100000 %d' % r.randrange(1, 30))
    with_nested(ctx, src, steps, modes)
    ctx.sample('\n'.join(L[-12:]))


def with_nested(ctx, src, steps, modes):
    try:
        I, want, keys = core.expect(parse(src), steps)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    for o in (0, 1):
        for m in modes:
            lines = ctx.run(core.script(src, o, steps, 'bh', 'hand 0 3 0\n', m))
            core.judge(ctx, 'calls from host functions', lines, want, src)
            te = [l.split(' ')[1] for l in lines if l.startswith('TE ')]
            tf = [l.split(' ')[1] for l in lines if l.startswith('TF ')]
            if len(set(tf)) != len(tf) or len(set(te)) != len(te) or not set(te) <= set(tf):
                ctx.fail('callbacks of nested threads', te=te, tf=tf)
            ctx.evals += 1
    ctx.seen(want)


def do_callbacks(ctx, k):
    """threads ended in every way: result, error, stepped, sliced, halted, direct"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0.05, 0.3]), nest=2, stmts=4, depth=3, funcs=3, globals=3, emit=0.3)
    g, decls, src = kit.random_program(ctx, r, cfg)
    steps = kit.random_steps(g, r, 5)
    mode = r.choice([None, 'go 100000 %d' % r.randrange(1, 40), 'inst 100000', 'qline 100000', 'slices 100000 1 2 3', 'mix 100000 %d 500 9' % r.randrange(99), 'mixline 100000 %d' % r.randrange(99)])
    with_handlers(ctx, src, steps, r.choice([1, 2, 3, 3, 3]), 0, 'callbacks', decls=decls, opts=(r.randrange(2),), modes=(mode,))


PASS = '''var total = 0
function leaf(n)
  emit("leaf", n)
  total += n
  return n
end
function work(n)
  var i
  for (i = 0 to n)
    total += 1
    if (i % 3 == 2)
      wait(i % 4)
    end
  end
  return n
end
function fails(n)
  var i
  for (i = 0 to n)
    total += 1
  end
  return n - "x"
end
function spawner(n)
  if (n > 0)
    new_thread(spawner, n - 1)
    new_thread(leaf, n)
  end
  return n
end
'''


def do_passes(ctx, k):
    """a machine scheduled to its end: exactly one finish per thread, and its result"""
    r = ctx.rng()
    t = 'hand 0 3 0\ninit 0\n'
    want = {}
    early = r.random() < 0.3
    for i in range(r.randrange(1, 9)):
        f = r.choice(['leaf', 'work', 'fails', 'spawner', 'work', 'leaf'])
        n = r.randrange(0, 12)
        t += 'spawn 0 %d %s i%d\n' % (10 + i, f, n)
        want[10 + i] = ('bad_type_operation', '') if f == 'fails' else ('success', 'i%d' % n)
        if r.random() < 0.3:
            t += 'pass 0 %d\n' % r.randrange(1, 60)
        if r.random() < 0.1:
            t += 'run 0 %d %s 5000\n' % (10 + i, r.choice(['go', 'inst', 'qline']))
    budget = r.choice([1, 7, 50, 1000])
    if not early:
        t += 'passes 0 %d %d\nthreads 0\npasses 0 3 100\nthreads 0\n' % (900 // min(budget, 9) + 300, budget)
    lines = ctx.run(core.script(PASS, r.randrange(2), []) + t.encode())
    ctx.evals += 1
    te, tf = {}, {}
    for l in lines:
        p = l.split(' ')
        if p[0] in ('TE', 'TF'):
            d = te if p[0] == 'TE' else tf
            if p[1] in d:
                ctx.fail('%s callback fired twice' % p[0], thread=p[1], script=t)
            d[p[1]] = p[2:]
    for i, (e, v) in want.items():
        f = tf.get(str(i))
        if f is None:
            if early:
                continue
            ctx.fail('no finish callback', thread=i, got=lines[-6:])
        if f[0] != e or (e == 'success' and f[1] != v) or (str(i) in te) != (e != 'success'):
            ctx.fail('callback of a scheduled thread', thread=i, finish=f, error=te.get(str(i)), want=(e, v))
    if not early:
        last = [l for l in lines if l.startswith('threads ')]
        if last[-1].split('|')[1].strip():
            ctx.fail('threads remain', got=last[-1])
    ctx.count['callbacks_finish'] += len(tf)
    ctx.seen(sorted(tf.items()), sorted(te.items()), budget)


def do_machines(ctx, k):
    """several machines on one program, interleaved at every grain: each as if alone"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0.1]), nest=2, stmts=4, depth=3, funcs=3, globals=4, emit=0.4)
    g, decls, src = kit.random_program(ctx, r, cfg)
    n = r.randrange(2, 5)
    args = [kit.value_args(g, r, g.margs) for _ in range(n)]
    try:
        if core.div_by_zero(decls):
            raise lang.Budget()
        wants = [core.expect(decls, [('init',), ('run', 'main', a), ('globals',)])[1] for a in args]
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    if 'init 1' not in wants[0]:
        return
    t = ''
    for i in range(1, n):
        t += 'vm %d 0\n' % i
    order = list(range(n))
    r.shuffle(order)
    for i in order:
        t += 'say V%d\ninit %d\n' % (i, i)
    for i in order:
        t += 'spawn %d 5 main%s\n' % (i, core.args_text(args[i]))
    for _ in range(r.randrange(5, 40)):
        i = r.randrange(n)
        t += 'say V%d\nslice %d 5 %s\n' % (i, i, r.choice(['1', '3', '10', '50', 'i', 'l']))
    r.shuffle(order)
    for i in order:
        t += 'say V%d\nrun %d 5 go 200000\nglobals %d\n' % (i, i, i)
        if r.random() < 0.5:
            t += 'vfree %d\n' % i
    lines = ctx.run(core.script(src, r.randrange(2), []) + t.encode('latin1'))
    ctx.evals += n
    logs = [[] for _ in range(n)]
    cur = None
    for l in lines:
        if l.startswith('say V'):
            cur = int(l[5:])
        elif cur is not None:
            logs[cur].append(l)
    for i in range(n):
        got = core.observe(logs[i])[0]
        d = core.first_diff(got, wants[i])
        if d:
            ctx.fail('machines influence each other', machine=i, source=src, **d)
    ctx.seen(wants)


def do_binding(ctx, k):
    """which function runs is decided by name, per program"""
    r = ctx.rng()
    names = ['alpha', 'beta', 'gamma', 'delta', 'Alpha', 'alph', 'alphaa', 'emit2', 'x']
    long = r.choice(['host_function_', 'h', 'set_the_position_of_the_object_']) * r.choice([1, 2, 5, 20])
    names += [long + x for x in ('a', 'b', 'A', 'bb', '', '0')] if len(long) > 1 else []
    r.shuffle(names)
    use = names[:r.randrange(2, 6)]
    src = 'function main(p)\n' + ''.join('  emit("%s", %s(p))\n' % (n, n) for n in use) + '  var t = [%s]\n' % ', '.join(use) + '  emit(t[%d](p))\n  return %s(p)\nend\n' % (r.randrange(len(use)), r.choice(use))
    t = ''.join('sys 0 %s 1\n' % n for n in names) + 'build 0 0\nbind 0 bh\n'
    host = {}
    for n in use:
        h = r.choice(['echo', 'opaque', 'emit'])
        if r.random() < 0.9:
            t += 'bindone 0 %s %s\n' % (n, h)
            host[n] = h
            if r.random() < 0.2:
                h = r.choice(['echo', 'opaque', 'emit'])
                t += 'bindone 0 %s %s\n' % (n, h)
                host[n] = h
            if r.random() < 0.08:
                # taken away again
                t += 'bindone 0 %s -\n' % n
                del host[n]
    t += 'say unknown\nbindone 0 nosuch echo\nvm 0 0\nspawn 0 5 main i7\nrun 0 5 go 1000\n'
    lines = ctx.run(src_cmd(0, src) + b'comp 0 0 %d bh\n' % r.randrange(2) + t.encode())
    ctx.evals += 1
    if 'build ok' not in lines:
        ctx.fail('rejected', got=[l for l in lines if l.startswith('build')], source=src)
    i = lines.index('say unknown')
    if lines[i + 1] != 'bindone 0' or any(l != 'bindone 1' for l in lines[:i] if l.startswith('bindone')):
        ctx.fail('binding reported wrongly', got=[l for l in lines if l.startswith('bindone')])
    # expected log
    want = []

    def call(n):
        h = host.get(n)
        if h is None:
            raise KeyError
        if h == 'echo':
            want.append('E echo i7')
            return 'i7'
        if h == 'opaque':
            return 'i7'
        want.append('E emit i7')
        return 'i1'
    import re
    try:
        for n in use:
            v = call(n)
            want.append('E emit s%s %s' % (n.encode().hex(), v))
        m = re.search(r'emit\(t\[(\d+)\]', src)
        v = call(use[int(m.group(1))])
        want.append('E emit ' + v)
        v = call(re.search(r'return (\w+)', src).group(1))
        want.append('run fin=1 err=success ret=' + v)
    except KeyError:
        pass
    got = core.observe(lines)[0]
    if len(host) < len(use) and (not got or 'err=bad_syscall' not in got[-1]):
        if want and not want[-1].startswith('run'):
            ctx.fail('unbound host function', got=got[-3:], source=src)
    if not want or not want[-1].startswith('run'):
        got = got[:-1]
    d = core.first_diff(got, want)
    if d:
        ctx.fail('wrong host function', source=src, bound=host, **d)
    ctx.seen(want)
