"""pieces shared by the checks"""
import lang, core, gen
from lang import S, dump
from parse import parse

SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]


def sizes(ctx, limit, extra=()):
    """interesting sizes up to limit: powers of two and their neighbours, and
    numbers that occur in the sources"""
    s = {x for x in SIZES if x <= limit}
    s |= {x for k in range(4, 20) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1) if x <= limit}
    s |= {x for x in ctx.mined if 0 < x <= limit}
    s |= {x for x in extra if x <= limit}
    return sorted(s)


def thin(ctx, limit, step, extra=()):
    """the same, with only every step-th size in a quick run"""
    z = sizes(ctx, limit, extra)
    return z if not ctx.quick else [n for i, n in enumerate(z) if i % step == 0 or n in ctx.new]


def text_case(ctx, src, steps, key, **kw):
    return core.differential(ctx, parse(src), steps, src=src, key=key, **kw)


def random_program(ctx, r, cfg, wild=None):
    g = gen.Gen(r, cfg)
    decls = g.program()
    style = lang.Style.wild(r) if (wild if wild is not None else r.random() < 0.3) else lang.Style(r)
    src = lang.Printer(style).program(decls)
    return g, decls, src


def value_args(g, r, types):
    I = lang.Interp(lang.Program([]))
    out = []
    for t in types:
        l = g.lit(t)
        while l[0] in ('id', 'arr'):
            l = g.lit('i')
        out.append(I.ev(l, None))
    return out


def random_steps(g, r, extra=3):
    """main first, then direct calls of other functions; globals in between"""
    steps = [('init',), ('run', 'main', value_args(g, r, g.margs)), ('globals',)]
    for _ in range(r.randrange(0, extra + 1)):
        if g.funcs and r.random() < 0.8:
            f = r.choice(g.funcs)
            ats = ['i' if a == 'a' else a for a in f[2]]
            args = value_args(g, r, ats)
            if f[4]:
                args[0] = r.randrange(0, 6)
            steps.append((r.choice(['call', 'run']), f[0], args))
        else:
            steps.append(('run', 'main', value_args(g, r, g.margs)))
        if r.random() < 0.5:
            steps.append(('globals',))
    steps.append(('globals',))
    return steps


SPAWN_BAD = ['none', '0', '-1', '7', '2.5', '""', '"kid2"', '[1]', 'abs', 'emit', 'new_thread', 'opaque(abs)', 'opaque(7)', 'g']


def spawn_args(ctx):
    """starting threads with any number of arguments and with things that are not functions: either a thread starts with all
    of them or the caller fails and nothing starts"""
    r = ctx.rng()
    ns = sorted(r.sample([0, 1, 2, 3, 4, 5, 8, 17, 40], 4))
    L = ['var g = [5]']
    for n in ns:
        L += ['function kid%d(%s)' % (n, ', '.join('p%d' % i for i in range(n))), '  emit("kid", %s)' % ', '.join(['%d' % n] + ['p%d' % i for i in range(n)]), '  return 0', 'end']
    W, s = [], ''
    k = 0
    for n in ns:
        for m in sorted({max(0, n - 1), n, n + 1, n + 2, 0, r.randrange(0, 45)}):
            W.append(('kid%d' % n, n, m))
    for b in r.sample(SPAWN_BAD, 5):
        W.append((b, None, r.choice([0, 1, 2, 5])))
    W.append((None, None, 0))
    r.shuffle(W)
    want = {}
    for k, (f, n, m) in enumerate(W):
        args = ([f] if f is not None else []) + [str(100 + i) for i in range(m)]
        how = r.randrange(5)
        if f is not None and how == 1:
            L += ['function t%d()' % k, '  var f = %s' % f, '  var q = "q"', '  emit("at", q, new_thread(%s))' % ', '.join(['f'] + args[1:])]
        elif how == 2:
            L += ['function t%d()' % k, '  var nt = new_thread', '  var q = "q"', '  emit("at", q, nt(%s))' % ', '.join(args)]
        elif how == 3 and f is not None:
            L += ['function t%d()' % k, '  var q = [%s]' % f, '  var z = [1, 2, new_thread(%s)]' % ', '.join(['q[0]'] + args[1:]), '  emit("at", "q", z[2])']
        else:
            L += ['function t%d()' % k, '  var q = "q"', '  emit("at", q, new_thread(%s))' % ', '.join(args)]
        L += ['  emit("after")', '  return %d' % k, 'end']
        s += 'say case %d\ncall 0 t%d\npasses 0 3 5000\nthreads 0\n' % (k, k)
        want[k] = n is not None and n == m
    src = '\n'.join(L) + '\n'
    o = r.randrange(2)
    lines = ctx.run(core.script(src, o, [('init',)]) + s.encode())
    if 'build ok' not in lines:
        ctx.fail('rejected', source=src, lines=lines[:3])
    cur, got = None, {}
    for l in lines:
        if 'case ' in l:
            cur = int(l.split('case ')[1])
            got[cur] = []
        elif cur is not None:
            got[cur].append(l)
    D = lang.dump
    for k, (f, n, m) in enumerate(W):
        ev = [l.split(' ')[4:] for l in got[k] if l.startswith('E ')]
        call = [l for l in got[k] if l.startswith('call ')]
        ctx.evals += 1
        info = dict(function=f, parameters=n, given=m, got=got[k], source=src, opt=o)
        if want[k]:
            if ev[:2] != [[D(b'at'), D(b'q'), 'i0'], [D(b'after')]] or len(call) != 1 or 'err=success' not in call[0]:
                ctx.fail('starting a thread failed', **info)
            if ev[2:] != [[D(b'kid'), 'i%d' % n] + ['i%d' % (100 + i) for i in range(m)]]:
                ctx.fail('a new thread did not run with the arguments given', **info)
        else:
            if ev or len(call) != 1 or 'err=success' in call[0]:
                ctx.fail('a thread that can not start is not an error', **info)
            if 'err=bad_argument' not in call[0] and 'err=bad_num_args' not in call[0]:
                ctx.fail('a thread that can not start: wrong error', **info)
        ctx.seen('spawn', f, n, m, want[k])
