"""C08 slicing: the same work cut into pieces in every way"""
import lang, core, gen, kit, shapes
from parse import parse

LEVEL = 'exploration'
RULE = ('Random and looping programs run in one go, in slices of fixed and varying sizes, instruction by instruction, line by line, in mixtures, '
        'through breakpoints, through scheduler passes and with unrelated calls in between. Every log is compared with the reference interpreter; '
        'the executor monitors that a slice of n runs at most n instructions, makes progress, reports errors by its result and that a '
        'finished thread stays finished; the total cycle count must not depend on the slicing. Non-trivial: log not seen before.')
CHUNK = 4


def cases(ctx):
    n = 8 if ctx.quick else 40
    out = [('random', k) for k in range(700 * n)]
    out += [('paused', k) for k in range(150 * n)]
    out += [('halt', k) for k in range(60 * n)]
    out += [('long', k) for k in range(14 * n)]
    out += [('edge', w, k) for w in ('call', 'init') for k in range(14 if ctx.quick else 60)]
    out += [('cut', k) for k in range(40 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 5, limit=3000)]
    out = shapes.huge_cases(ctx, 'long_jumps', 'long_loops', 'many_args') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def modes(ctx, r, n):
    sz = [1, 2, 3, 4, 5, 7, 10, 16, 31, 64, 100, 127, 128, 255, 256, 1000, 4096, 65536, 2147483647] + [x for x in ctx.mined if 0 < x < 1 << 20]
    out = []
    for _ in range(n):
        x = r.randrange(8)
        if x == 0:
            m = 'go 400000 %d' % r.choice(sz)
        elif x <= 2:
            m = 'slices 400000 ' + ' '.join(str(r.choice(sz + [0, 0, 1, 1, 2])) for _ in range(r.randrange(1, 7))) + ' 1'
        elif x == 3:
            m = 'inst 400000'
        elif x == 4:
            m = 'qline 400000'
        elif x == 5:
            m = 'mixline 400000 %d' % r.randrange(10**6)
        elif x == 6:
            m = 'mix 400000 %d %d %d' % (r.randrange(10**6), r.choice([0, 100, 500, 900]), r.choice([1, 2, 5, 30]))
        else:
            m = 'bp 400000'
        out.append(m)
    return out


def cycles(lines):
    return [int(l.split('cyc=')[1].split()[0]) for l in lines if l.startswith('run ') and 'cyc=' in l]


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0, 0.06]), nest=r.choice([1, 2, 3]), stmts=r.choice([3, 5, 7]), depth=r.choice([2, 3, 4]), funcs=r.choice([2, 4]), globals=4,
                  ints=gen.INTS + ctx.mined)
    g, decls, src = kit.random_program(ctx, r, cfg)
    steps = kit.random_steps(g, r)
    try:
        if core.div_by_zero(decls):
            raise lang.Budget()
        I, want, keys = core.expect(decls, steps, budget=3000)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    o = r.randrange(2)
    cyc = None
    for m in ['go 400000'] + modes(ctx, r, 3):
        lines = ctx.run(core.script(src, o, steps, mode=m))
        core.judge(ctx, 'slicing visible (%s)' % m.split()[0], lines, want, src)
        c = cycles(lines)
        if cyc is not None and c != cyc:
            ctx.fail('cycle count depends on slicing', mode=m, got=c, want=cyc, source=src)
        cyc = c
        ctx.evals += 1
        ctx.count['cycles'] += sum(c)
        ctx.count['mode ' + m.split()[0]] += 1
    ctx.seen(want)
    ctx.sample({'source': src[:800], 'cycles': cyc})


def do_paused(ctx, k):
    """a paused thread keeps its state while other things happen"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0.05]), nest=2, stmts=5, depth=3, funcs=3, globals=0, globals_init_calls=0)
    for _ in range(60):
        g, decls, src = kit.random_program(ctx, r, cfg, False)
        if not any(d.k == 'gvar' for d in decls):
            break
    else:
        return
    src += 'function zz_other(zz_n)\n  var zz_a = [zz_n, "other"]\n  if (zz_n > 0)\n    return [zz_a, zz_other(zz_n - 1)]\n  end\n  return zz_a\nend\nfunction zz_bad()\n  return 1 / opaque(0)\nend\n'
    args = kit.value_args(g, r, g.margs)
    try:
        if core.div_by_zero(decls):
            raise lang.Budget()
        I, want, keys = core.expect(parse(src), [('init',), ('run', 'main', args)], budget=2000)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    s = 'spawn 0 1 main%s\n' % core.args_text(args)
    other = ['call 0 zz_other i4\n', 'call 0 zz_bad\n', 'spawn 0 50 zz_other i2\nrun 0 50 inst 1000\n', 'spawn 0 51 zz_other i5\nslice 0 51 7\n', 'bp 0 1 add 0 3\nbp 0 1 clear\n', 'slice 0 1 0\n', 'globals 0\n', 'threads 0\n']
    for _ in range(r.choice([5, 20, 60])):
        s += 'slice 0 1 %s\n' % r.choice(['1', '2', '3', '9', 'i', 'l', '30'])
        if r.random() < 0.5:
            s += r.choice(other)
    s += 'say END\nrun 0 1 %s\n' % r.choice(modes(ctx, r, 1) + ['go 400000'])
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode('latin1'))
    got = ['init 1']
    end = False
    for l in lines:
        if l[:2] == 'E ' and l.split(' ')[2] == '1':
            got.append(core.observe([l])[0][0])
        end = end or l == 'say END'
        if end and l.startswith('run '):
            got.append(core.observe([l])[0][0])
    d = core.first_diff(got, want)
    if d:
        ctx.fail('paused thread changed', source=src, **d)
    ctx.evals += 1
    ctx.seen(want)


def do_halt(ctx, k):
    """host functions that halt the thread"""
    r = ctx.rng()
    L = ['var g = 0', 'function h(x)', '  hhalt()', '  g += x', '  return hhalt() + x', 'end', 'function main(n)', '  var i', '  var t = "t"', '  for (i = 0 to n)']
    for _ in range(r.randrange(1, 6)):
        L.append('    ' + r.choice(['hhalt()', 't = [i, hhalt(), t == none]', 'emit(h(i), i)', 'g += h(g)', 'emit(t, g)', 'if (hhalt() == 0)\n      g += 1\n    end']))
    L += ['  end', '  return [t, g, h(1) + h(2)]', 'end']
    src = '\n'.join(L) + '\n'
    steps = [('init',), ('run', 'main', [r.randrange(0, 6)]), ('globals',), ('call', 'main', [2]), ('globals',)]
    core.differential(ctx, parse(src), steps, src=src, key='halting visible', modes=modes(ctx, r, 4), opts=(r.randrange(2),))


def do_long(ctx, k):
    r = ctx.rng()
    src = 'var g = 0\nfunction f(x)\n  return x + 1\nend\nfunction main(n)\n  var i\n  var t = 0\n  for (i = 0 to n)\n    t = f(t)\n    g += 1\n  end\n  return t\nend\n'
    n = r.choice([700, 6553, 6554, 13107, 30000, 65535, 65537])
    s = ''
    want = ['init 1']
    cyc = set()
    for i in range(4):
        m = r.choice(['go 100000000', 'go 100000000 1', 'go 100000000 65536', 'go 100000000 2147483647', 'slices 100000000 8192 1 131072', 'slices 100000000 1000 0 3', 'mix 100000000 7 0 100000', 'qline 100000000'])
        s += 'spawn 0 %d main i%d\nrun 0 %d %s\ncall 0 main i%d\nglobals 0\n' % (i + 1, n, i + 1, m, n)
        want += ['run fin=1 err=success ret=i%d' % n, 'call 1 err=success ret=i%d' % n, 'globals i%d' % (n * 2 * (i + 1))]
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=60)
    core.judge(ctx, 'long run', lines, want, src)
    if len(set(cycles(lines))) != 1:
        ctx.fail('cycle count depends on slicing', got=cycles(lines))
    ctx.evals += 4
    ctx.seen('long', n, s)


def do_edge(ctx, where, k):
    """work that ends close to a multiple of the internal slice of call_once and
    call_init, which are found by the numbers in the sources"""
    r = ctx.rng()
    pads = k % 14
    bounds = [128 * 1024] if where == 'call' else [8 * 1024]
    bounds += [x for x in ctx.mined if 2000 < x < 200000][:6]
    body = 'var g = 0\nfunction w(n)\n  var i\n  for (i = 0 to n)\n    g += 1\n  end\n%s  return g\nend\n' % ''.join('  g = g\n' for _ in range(pads % 7))
    # cycles of one iteration and of the frame, measured
    def cyc(n):
        l = ctx.run(core.script(body, 1, [('init',)]) + b'spawn 0 1 w i%d\nrun 0 1 go 10000000\n' % n)
        return cycles(l)[0]
    a, b = cyc(0), cyc(10)
    per = max(1, (b - a) // 10)
    for bd in bounds:
        n = max(1, (bd - a) // per) + (k % 3) - 1
        if where == 'call':
            lines = ctx.run(core.script(body, 1, [('init',)]) + b'call 0 w i%d\nglobals 0\n' % n)
            want = ['init 1', 'call 1 err=success ret=i%d' % n, 'globals i%d' % n]
        else:
            lines = ctx.run(core.script(body + 'var h = w(%d)\nvar z = [h, "after"]\n' % n, 1, [('init',)]) + b'globals 0\ncall 0 w i1\n')
            want = ['init 1', 'globals i%d i%d A0(i%d,s%s)' % (n, n, n, b'after'.hex()), 'call 1 err=success ret=i%d' % (n + 1)]
        core.judge(ctx, 'long %s cut short' % where, lines, want, body)
        ctx.evals += 1
        ctx.seen(where, bd, n, pads)


def do_cut(ctx, k):
    """cut once at every possible cycle"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0.08]), nest=2, stmts=3, depth=3, funcs=2, globals=2, recursion=0.5)
    g, decls, src = kit.random_program(ctx, r, cfg, False)
    args = kit.value_args(g, r, g.margs)
    steps = [('init',), ('run', 'main', args), ('globals',)]
    try:
        if core.div_by_zero(decls):
            raise lang.Budget()
        I, want, keys = core.expect(decls, steps, budget=400)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    lines = ctx.run(core.script(src, 1, steps))
    core.judge(ctx, 'slicing visible', lines, want, src)
    total = cycles(lines)[0]
    how = r.choice(['go 400000 %d', 'slices 400000 %d 1 100000', 'slices 400000 %d 0 100000'])
    for n in range(1, min(total, 120) + 1):
        lines = ctx.run(core.script(src, 1, [('init',)]) + core.steps_text(steps[1:], mode=how % n).encode('latin1'))
        core.judge(ctx, 'slicing visible (cut)', lines, want, src)
        ctx.evals += 1
        if cycles(lines)[0] != total:
            ctx.fail('cycle count depends on slicing', cut=n, got=cycles(lines), want=total, source=src)
    ctx.seen('cut', want)


def do_shape(ctx, name, n):
    r = ctx.rng()
    ms = modes(ctx, r, 1 if ctx.quick else 3)
    ms = ['go 4000000'] + [m.replace(' 400000', ' 4000000') for m in ms if n < 400 or m.split()[0] != 'bp']
    shapes.run(ctx, name, n, key=': slicing visible', opts=(r.randrange(2),), modes=ms)


def do_huge(ctx, name, n):
    """code and counts beyond the range of 16 bit numbers"""
    r = ctx.rng()
    shapes.run_huge(ctx, name, n, key=': slicing visible', modes=['go 40000000 %d' % r.choice([65535, 65536, 65537, 70000, 32768, 2147483647]), 'slices 40000000 %d %d' % (r.randrange(1, 9), r.choice([65536, 131072, 100000]))])
