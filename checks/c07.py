"""C07 garbage is reclaimed: long allocation histories with little live data"""
import core, kit
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Loops that allocate many times the size of the heap by every kind of operation (arithmetic, strings, arrays, cycles, calls, '
        'builtins, threads, failing threads), with different amounts of live data, in different drive modes and in several threads. '
        'Monitors: the run ends without error and with the right result; bytes in use after a collection are the same whatever was '
        'allocated before (heap hook, or process memory when the hook is missing); low points of heap use do not grow; process memory '
        'does not grow with the number of turnovers. Non-trivial: distinct case in which the heap turned over several times.')
CHUNK = 1
ASSUME = ['live data below 45 % of the heap and single objects below 10 % of it', 'progress is bounded by executed instructions, not by time']

OPS = {
    'int': ('t = i * 3 + 1', 48), 'float': ('t = i * 0.5 - 2.5', 48), 'cmp': ('t = (i < 5) + (i == 7) + (i >= 2)', 120), 'logic': ('t = not (i and t or 1)', 48),
    'neg': ('t = -i', 16), 'str': ('t = "value " + i', 48), 'strlong': ('t = "%s" + i' % ('abcdefgh' * 20), 400), 'strtmp': ('t = "a" + i + "b" + i + "c"', 140),
    'lit': ('t = [i, i, i]', 64), 'nest': ('t = [[i, "x"], [[i]], [f0]]', 200), 'new': ('t = new_array(64)', 550), 'newbig': ('t = new_array(8000)', 64100),
    'cycle': ('t = cyc(i)', 120), 'chain': ('t = chain(20)', 900), 'call': ('t = add(i, 1)', 48), 'icall': ('t = fv(i, 2)', 64), 'rec': ('t = rec(12)', 500),
    'chr': ('t = chr(65 + i % 20)', 80), 'mathfn': ('t = abs(0 - i) + max(i, 3) + floor(2.5)', 160), 'fnval': ('t = add', 16), 'sysval': ('t = abs', 16),
    'setelem': ('box[i % 4] = "e" + i', 90), 'setarr': ('box[i % 4] = [i, box[0] == none]', 90), 'global': ('g = [i, "g" + i]', 90), 'idx': ('t = "hello"[i % 5] + [1, 2, 3][i % 3]', 120),
    'len': ('t = len("x" + i) + box.length', 120), 'compound': ('cnt += 2', 32), 'none': ('t = none', 16), 'discard': ('add(i, [i])', 64),
    'strgrow': ('if (len(s) > 400)\n      s = ""\n    end\n    s += "grow"', 500), 'selfref': ('t = [t, i]\n    if (i % 50 == 0)\n      t = none\n    end', 80),
    'emptystr': ('t = "" + ""', 48), 'deepdrop': ('t = rec2(6)', 500), 'mod': ('t = i % 7', 32), 'div': ('t = i / 7', 32), 'for': ('for (k = 0 to 3)\n      t = k\n    end', 200),
    'while': ('k = 0\n    while (k < 3)\n      k += 1\n    end', 200), 'ret': ('t = retarr(i)', 100),
}
BODY = '''var g
var keep
var fv = add
function f0()
end
function add(a, b)
  return a
end
function cyc(i)
  var a = [i, none]
  var b = [a, i]
  a[1] = b
  return a
end
function chain(n)
  var l = none
  var i
  for (i = 0 to n)
    l = [l, i]
  end
  return l
end
function rec(n)
  var loc = [n]
  if (n > 0)
    return rec(n - 1)
  end
  return loc
end
function rec2(n)
  var loc = "s" + n
  if (n > 0)
    return [rec2(n - 1), loc]
  end
end
function retarr(i)
  return [i, [i]]
end
function live(n)
  keep = new_array(n)
  var i
  for (i = 0 to n)
    keep[i] = [i, "live"]
  end
end
function sum()
  var i
  var t = 0
  if (keep == none)
    return 0
  end
  for (i = 0 to keep.length)
    t += keep[i][0]
    if (len(keep[i][1]) - 4)
      return "broken"
    end
  end
  return t
end
function clear()
  g = none
end
function churn(n)
  var i
  var k
  var t
  var s = ""
  var cnt = 0
  var box = new_array(4)
  for (i = 0 to n)
    %s
  end
  return "churned"
end
function low(n, m)
  var i
  var prev = 0
  var lo = 100000000
  var k
  for (k = 0 to m)
    lo = 100000000
    for (i = 0 to n)
      churn(3)
      var u = gcheap()
      if (u < prev)
        if (u < lo)
          lo = u
        end
      end
      prev = u
    end
    emit(k, lo)
  end
end
function noop()
  return 0
end
'''


def cases(ctx):
    out = []
    for k in OPS:
        out.append(('op', k, 0, 'go 100000000'))
        out.append(('op', k, 4000, 'go 100000000'))
        if not ctx.quick:
            for m in ['slices 100000000 1000 1 17', 'qline 100000000', 'go 100000000 1']:
                out.append(('op', k, 500, m))
    for k in ['int', 'str', 'cycle', 'newbig', 'call', 'nest']:
        out += [('op', k, 100, 'qline 100000000'), ('op', k, 100, 'slices 100000000 1000 1 17'), ('op', k, 100, 'mixline 100000000 %d' % ctx.seed)]
    out += [('low', k) for k in OPS]
    out += [('threads', k) for k in range(6 if ctx.quick else 40)]
    out += [('spawn', k) for k in range(4 if ctx.quick else 20)]
    out += [('calls', k) for k in range(4 if ctx.quick else 20)]
    out += [('errors', k) for k in range(4 if ctx.quick else 20)]
    out += [('shared', k) for k in range(40 if ctx.quick else 200)]
    out += [('init', k) for k in ['int', 'str', 'new', 'cycle', 'call']]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def heaps(lines):
    return [int(l.split()[1]) for l in lines if l.startswith('heap ')]


def mems(lines):
    return [int(l.split()[1]) for l in lines if l.startswith('mem ')]


def results(lines):
    return [core.observe([l])[0][0] for l in lines if l.startswith('run ') or l.startswith('call ')]


def turns(ctx, kind, total):
    want = total * (1 if ctx.quick else 5)
    return max(40, want * 1000000 // OPS[kind][1])


def do_op(ctx, kind, live, mode):
    n = turns(ctx, kind, 8 if mode.startswith('go') else 3)
    n = min(n, 120000 if ctx.quick else 1000000)
    src = BODY % OPS[kind][0]
    s = 'call 0 live %s\npass 0 1000\npass 0 10\n' % 'i%d' % live if live else ''
    want = ['call 1 err=success ret=i0'] if live else []
    # the same live state after histories of different length
    for k, m in enumerate((1, 2, n, n // 3, 1)):
        s += 'spawn 0 %d churn i%d\nrun 0 %d %s\npass 0 1000\npass 0 1000\n' % (10 + k, m, 10 + k, mode)
        s += 'call 0 clear\npass 0 1000\npass 0 1000\ncall 0 noop\nheap 0\nmem\n'
        want += ['run fin=1 err=success ret=s' + b'churned'.hex(), 'call 1 err=success ret=i0', 'call 1 err=success ret=i0']
    s += 'call 0 sum\n'
    want += ['call 1 err=success ret=i%d' % (live * (live - 1) // 2)]
    lines = [l for l in ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=120) if l[:2] != 'L ']
    judge(ctx, kind, lines, want)
    ctx.evals += 1
    ctx.count['loop_iterations'] += n
    ctx.seen(kind, live, mode)
    ctx.sample({'heap_after_collection': heaps(lines), 'process_bytes': mems(lines), 'iterations': n})


def judge(ctx, what, lines, want):
    got = results(lines)
    d = core.first_diff(got, want)
    if d:
        ctx.fail('long allocation failed: %s' % core.kind_of(d['got']), op=what, **d)
    h = heaps(lines)
    if h and h[0] >= 0 and len(set(h[1:])) > 1:
        ctx.fail('bytes in use depend on history', op=what, heap=h)
    m = mems(lines)
    if m and max(m[2:]) - m[1] > 262144:
        ctx.fail('process memory grows', op=what, mem=m)


def do_low(ctx, kind):
    """low points of heap use over many collections"""
    cost = OPS[kind][1] * 3 + 200
    n = min(6000, max(100, (3 if ctx.quick else 8) * 1000000 // cost))
    m = 4
    src = BODY % OPS[kind][0]
    s = 'maxev 2000000\nspawn 0 5 low i%d i%d\nrun 0 5 go 100000000\nmem\n' % (n, m)
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=120)
    r = results(lines)
    if r != ['run fin=1 err=success ret=i0']:
        ctx.fail('long allocation failed: %s' % core.kind_of(r[0] if r else ''), op=kind, got=r)
    lows = [int(l.split(' ')[5][1:]) for l in lines if l.startswith('E emit')]
    ctx.evals += 1
    if lows[0] != 100000000:
        ctx.count['collections_seen'] += len(lows)
        lo = [x for x in lows if x != 100000000]
        if lo and max(lo[1:] or lo) > lo[0] + 65536:
            ctx.fail('heap use after collection grows', op=kind, lows=lows)
        ctx.seen('low', kind)
        ctx.sample({'low_points': lows})


def do_threads(ctx, k):
    """several threads allocating at once"""
    r = ctx.rng()
    kind = r.choice(sorted(OPS))
    src = BODY % OPS[kind][0]
    nt = r.randrange(2, 7)
    n = min(turns(ctx, kind, 6) // nt, 20000)
    s = 'call 0 live i500\n'
    want = ['call 1 err=success ret=i0']
    for ph in range(3):
        for i in range(nt):
            s += 'spawn 0 %d churn i%d\n' % (100 * ph + 10 + i, n if ph else 1)
        b = r.choice([50, 333, 5000])
        s += 'passes 0 %d %d\n' % (n * 60 // b // 3, b)
        for i in range(nt):
            t = 100 * ph + 10 + i
            s += 'run 0 %d go 100000000\n' % t
        s += 'pass 0 1000\npass 0 1000\ncall 0 clear\npass 0 1000\npass 0 1000\ncall 0 noop\nheap 0\nmem\n'
        want += ['X', 'call 1 err=success ret=i0', 'call 1 err=success ret=i0']
    s += 'call 0 sum\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=120)
    # threads that ended in a pass are gone, the others must have succeeded
    bad = [l for l in lines if l.startswith('run ') and l != 'run gone' and ('err=success' not in l or 'fin=1' not in l)]
    bad += [l for l in lines if l.startswith('pass') and not l.startswith('pass 1') and l != 'passes 0']
    bad += [l for l in lines if l.startswith('call') and 'err=success' not in l]
    if bad:
        ctx.fail('long allocation in threads failed', op=kind, lines=bad[:3])
    h = heaps(lines)
    if h[0] >= 0 and len(set(h)) > 1:
        ctx.fail('bytes in use depend on history', op=kind, heap=h)
    m = mems(lines)
    if m[2] - m[1] > 262144:
        ctx.fail('process memory grows', op=kind, mem=m)
    if results(lines)[-1] != 'call 1 err=success ret=i%d' % (500 * 499 // 2):
        ctx.fail('live data damaged', got=results(lines)[-1])
    ctx.evals += 1
    ctx.seen('threads', kind, nt)


def do_spawn(ctx, k):
    """a script that starts one thread after another"""
    r = ctx.rng()
    n = 400 if ctx.quick else 3000
    src = '''var done = 0
var spawned = 0
function worker(x)
  var mine = [x, "w" + x]
  var i
  for (i = 0 to %d)
    mine[1] = "v" + i
  end
  done += 1
  return mine
end
function boss()
  while (1)
    new_thread(worker, spawned)
    spawned += 1
    wait(%d)
  end
end
function state()
  return [done, spawned]
end
function noop()
end
''' % (r.choice([1, 20, 200]), r.choice([0, 1, 2]))
    b = r.choice([30, 200, 1500])
    s = 'spawn 0 1 boss\n' + 'passes 0 40 %d\n' % b
    s += 'call 0 noop\nheap 0\nmem\nthreads 0\n'
    for _ in range(3):
        s += 'passes 0 %d %d\n' % (n, b) + 'call 0 noop\nheap 0\nmem\nthreads 0\n'
    s += 'call 0 state\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=120)
    bad = [l for l in lines if l.startswith('pass') and not l.startswith('pass 1') and l != 'passes 0']
    if bad:
        ctx.fail('threads failed', lines=bad[:2])
    nth = [len(l.split('|')[1].split()) for l in lines if l.startswith('threads')]
    h, m = heaps(lines), mems(lines)
    # when threads start faster than they end their number grows by design
    if max(nth) < 60:
        if max(m[1:]) - m[1] > 262144 or (h[0] >= 0 and max(h) - min(h) > 40000):
            ctx.fail('memory grows with finished threads', heap=h, mem=m, threads=nth)
        ctx.seen('spawn', nth, h)
    ctx.evals += 1


def do_calls(ctx, k):
    """host calls without end"""
    r = ctx.rng()
    kind = r.choice(sorted(OPS))
    src = BODY % OPS[kind][0]
    n = 150 if ctx.quick else 1500
    s = ''
    blk = 'call 0 churn i%d\ncall 0 add s%s i5\npass 0 100\n' % (r.choice([1, 50]), (b'arg' * r.choice([1, 100])).hex())
    for _ in range(4):
        s += blk * n + 'pass 0 10\npass 0 10\ncall 0 clear\npass 0 10\npass 0 10\ncall 0 noop\nheap 0\nmem\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=120)
    bad = [l for l in lines if l.startswith('call') and 'err=success' not in l]
    if bad:
        ctx.fail('host call failed', lines=bad[:2])
    h, m = heaps(lines), mems(lines)
    if h[0] >= 0 and len(set(h)) > 1:
        ctx.fail('bytes in use depend on history', op=kind, heap=h)
    # the log of this process grows a little with each pass
    if m[3] - m[1] > 600000:
        ctx.fail('process memory grows', mem=m)
    ctx.evals += 1
    ctx.seen('calls', kind, h)


def do_errors(ctx, k):
    """threads that fail, over and over, leave nothing behind"""
    r = ctx.rng()
    src = BODY % OPS['lit'][0] + '''function bad(x)
  var a = [x, "held", new_array(300)]
  churn(5)
  return a[%s]
end
''' % r.choice(['9', '"s"', 'none', '-1', '0 / opaque(0)'])
    n = 300 if ctx.quick else 3000
    s = ''
    for ph in range(4):
        s += 'spawn 0 1 bad i5\npass 0 5000\npass 0 10\ncall 0 bad s6162\npass 0 10\n' * n + 'pass 0 10\npass 0 10\ncall 0 clear\npass 0 10\npass 0 10\ncall 0 noop\nheap 0\nmem\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=120)
    h, m = heaps(lines), mems(lines)
    good = [l for l in lines if l.startswith('call ') and 'err=success' in l]
    if len(good) != 8:
        ctx.fail('machine unusable after errors', good=len(good))
    if h[0] >= 0 and len(set(h)) > 1:
        ctx.fail('bytes in use depend on history', heap=h)
    if m[3] - m[1] > 600000:
        ctx.fail('process memory grows', mem=m)
    ctx.evals += 1
    ctx.seen('errors', h)


def do_init(ctx, kind):
    """allocation during the initialisation of globals"""
    src = BODY % OPS[kind][0] + 'var boot = churn(%d)\n' % min(20000, turns(ctx, kind, 4)) + 'var boot2 = low(2, 2)\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + b'call 0 sum\nmem\n', cpu=120)
    if 'init 1' not in lines or 'call 1 err=success ret=i0' not in results(lines):
        ctx.fail('initialisation failed', lines=lines[-4:])
    ctx.evals += 1
    ctx.seen('init', kind)


def do_shared(ctx, k):
    """values that are referred to from many places: a collection never needs more memory than there was in use before"""
    r = ctx.rng()
    m = r.choice([2, 3, 8, 12, 30, 100])
    size = r.choice([0, 1, 5, 8, 10, 12])       # the text has 8 << size bytes
    where = k % 5
    what = [r.choice(['s', 's', 'a', 'b', 'i', 'f', 'q']) for _ in range(m)]
    L = ['var keep', 'var gs', 'var ga', 'function fn(x)', '  return x', 'end', 'function noop()', '  return 0', 'end', 'function id(x)', '  return x', 'end',
         'function build()', '  var s = "abcdefgh"', '  var n', '  for (n = 0 to %d)' % size, '    s = s + s', '  end', '  var a = [s, s, 1]', '  var b = [a, s, a]', '  a[2] = b', '  var i = 12345', '  var f = 2.5', '  var q = fn']
    if where == 0:
        L += ['  keep = [%s]' % ', '.join(what)]
    elif where == 1:
        L += ['  keep = [[%s], [%s]]' % (', '.join(what), ', '.join(reversed(what)))]
    elif where == 2:
        L += ['  gs = s', '  ga = [gs, gs, a]', '  keep = [ga, gs, s, id(s), id(a), [%s]]' % ', '.join(what[:12])]
    elif where == 3:
        L += ['  var l%d = %s' % (i, w) for i, w in enumerate(what)] + ['  keep = [l0, l1]']
    else:
        L += ['  keep = s', '  for (n = 0 to %d)' % m, '    keep = [keep, s, a]', '  end']
    L += ['  return gcheap()', 'end']
    src = '\n'.join(L) + '\n'
    s = 'call 0 build\n' + 'call 0 noop\nheap 0\n' * 4 + 'pass 0 10\npass 0 10\n' + 'call 0 noop\nheap 0\n' * 2
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode())
    x = results(lines)
    if not all(t.startswith('call 1 err=success') for t in x):
        ctx.fail('collection of shared values failed', got=x, source=src)
    u = int(x[0].rsplit('ret=i', 1)[1])
    h = heaps(lines)
    ctx.evals += 1
    if u > 0 and h[0] >= 0:
        ctx.count['collections with shared values'] += len(h)
        if max(h) > u + 1024:
            ctx.fail('a collection needs more memory than was in use', before=u, after=h, source=src)
        if max(h[1:4]) > h[0] + 64 or h[5] > h[3] + 64:
            ctx.fail('memory in use grows from collection to collection', before=u, after=h, source=src)
    ctx.seen('shared', m, size, where, what)
    ctx.sample({'before': u, 'after': h})
