"""C05 optimisation: the same source built with and without, compared"""
import lang, core, gen, kit, mutate, shapes
from lang import S
from kit import text_case
from parse import parse

LEVEL = 'exploration'
RULE = ('Sources: random programs dense in constant subexpressions, constant conditions, dead code and constants; exhaustive '
        'placements of constant expressions; the sample programs of the repository; and damaged versions of all of these. Each is '
        'built with and without optimisation; acceptance, host calls, results, errors with their lines, and globals are compared between the two (and '
        'with the reference interpreter where the source is in its domain). Non-trivial: both accepted and the log not seen before.')
CHUNK = 8
ASSUME = ['programs that do not finish within the instruction budget are compared on the common part of their logs',
          'the text of a function value (function@address) may differ between the settings']


def cases(ctx):
    n = 8 if ctx.quick else 60
    out = [('random', k) for k in range(350 * n)]
    out += [('place', k) for k in range(60 * n)]
    out += [('branch', k) for k in range(150 * n)]
    out += [('damage', k) for k in range(700 * n)]
    out += [('corpus', k) for k in range(0, 1300, 4 if ctx.quick else 1)]
    out += [('reuse', k) for k in range(30 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 2)]
    out += [('constop', op, k) for op in COPS for k in range(len(CONSTS))]
    out += [('constcond', k) for k in range(len(CCOND))]
    out += [('constdecl', k) for k in range(40 * n)]
    out = shapes.huge_cases(ctx, 'long_jumps', 'many_strs', 'many_items') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def both(ctx, src, steps, text=None):
    """run both settings, compare the two logs"""
    res = []
    for o in (0, 1):
        s = core.script(src, o, [], 'bh', 'maxev 3000\n') + text
        lines = ctx.run(s)
        got, bases, build = core.observe(lines, stop_init=False)
        ctx.evals += 1
        res.append((got, build))
    (g0, b0), (g1, b1) = res
    dz = 'constant divide by zero'
    if (b0 == 'build ok') != (b1 == 'build ok'):
        if b0 == 'build ok' and dz in g1[0]:
            ctx.count['diagnosed_early'] += 1
            return None
        ctx.fail('accepted with one setting only', without=g0[:1], with_=g1[:1], source=src)
    if b0 != 'build ok':
        ctx.count['both_rejected'] += 1
        # the place is the same unless one of several errors is found earlier
        if dz not in g0[0] + g1[0] and g0[0] != g1[0]:
            ctx.fail('different diagnosis', without=g0[0], with_=g1[0], source=src)
        return None
    n = min(len(g0), len(g1))
    cut = [i for g in (g0, g1) for i, l in enumerate(g) if l.startswith('run budget') or 'max_cycle_count' in l]
    if cut:
        n = min(cut)
        ctx.count['cut_at_budget'] += 1
        g0, g1 = g0[:n], g1[:n]
    d = core.first_diff(g1, g0)
    if d and address_dependent(ctx, src, text):
        ctx.count['text_of_function_values'] += 1
        return None
    if d:
        ctx.fail('optimisation changes behaviour', source=src, with_opt=d['got'], without=d['want'], at=d['at'])
    ctx.count['behaviours_compared'] += 1
    ctx.count['events_compared'] += len(g0)
    ctx.seen(g0)
    return g0


def address_dependent(ctx, src, text):
    """the text of a function value contains its code address; a program that
    looks at it behaves differently already when unrelated code precedes it"""
    logs = []
    for pad in ('function zz_pad(q)\nreturn q + q * q\nend\n', '\n\n\n'):
        lines = ctx.run(core.script(pad + src, 0, [], 'bh', 'maxev 3000\n') + text)
        logs.append(core.observe(lines, stop_init=False)[0])
    return logs[0] != logs[1]


def tail(r, calls):
    t = 'spawn 0 50 @init\nrun 0 50 go 20000\n'
    for i, (f, a) in enumerate(calls):
        t += 'spawn 0 %d %s%s\nrun 0 %d go 20000\n' % (60 + i, f, core.args_text(a), 60 + i)
    return (t + 'globals 0\n').encode('latin1')


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0.02, 0.1]), constfold=0.5, deadcode=0.3, nest=r.choice([2, 3, 4]), stmts=r.choice([4, 8]), depth=r.choice([2, 3, 5]),
                  consts=5, funcs=4, ints=gen.INTS + ctx.mined)
    g, decls, src = kit.random_program(ctx, r, cfg)
    calls = [('main', kit.value_args(g, r, g.margs))]
    for f in g.funcs:
        args = kit.value_args(g, r, ['i' if a == 'a' else a for a in f[2]])
        if f[4]:
            args[0] = r.randrange(5)
        calls.append((f[0], args))
    both(ctx, src, None, tail(r, calls))
    ctx.sample(src[:1500])


def cexpr(r, ctx, d, extra=()):
    if d <= 0 or r.random() < 0.2:
        x = r.random()
        if x < 0.65:
            v = r.choice([0, 1, 1, 2, 3, 7, 10, 255, 65536, 2147483647, r.choice(ctx.mined) & 0x7fffffff])
            return '%d' % v if r.random() < 0.8 else '(-%d)' % v
        return r.choice(['K1', 'K2', 'K3', 'a', 'g', '1.5', '0.0', '"s"', '""', 'none', 'echo(1)', 'echo(0)', 'opaque(0)', 'f', '[0]', '[1][0]'] + list(extra))
    x = r.random()
    if x < 0.1:
        return '(not %s)' % cexpr(r, ctx, d - 1)
    if x < 0.2:
        return '(-%s)' % cexpr(r, ctx, d - 1)
    return '(%s %s %s)' % (cexpr(r, ctx, d - 1), r.choice(['+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', 'and', 'or']), cexpr(r, ctx, d - 1))


HEAD = 'const K1 = 0\nconst K2 = 5\nconst K3 = "k"\nvar g = 3\nfunction f(x)\n  emit("f", x)\n  return x\nend\n'


def do_place(ctx, k):
    """constant expressions in every place an expression can stand"""
    r = ctx.rng()
    forms = ['return %s', 'var v = %s\n  emit(v)', 'g = %s', 'g += %s', 'g *= %s', 'if (%s)\n    emit("then")\n  else\n    emit("else")\n  end',
             'if (%s)\n    emit("then")\n  end', 'var c = 0\n  while (%s)\n    c += 1\n    if (c > 3)\n      return c\n    end\n  end',
             'var i\n  for (i = %s to 4)\n    emit(i)\n    if (i < -9)\n      return i\n    end\n  end', 'var i\n  for (i = 0 to %s)\n    emit(i)\n    if (i > 3)\n      return i\n    end\n  end',
             'emit(%s)', 'f(%s)', 'return f(%s)', 'return [%s, 1]', 'var z = [1, 2, 3]\n  z[%s] = 1\n  emit(z)', 'var z = [1, 2, 3]\n  z[1] = %s\n  emit(z)',
             'return [1, 2, 3][%s]', 'var z = [1, 2, 3]\n  z.m = %s\n  emit(z)', 'return -(%s)', 'return not (%s)', 'return f(1) + (%s)', 'return (%s) + echo(2)', 'return f', 'f(%s)']
    L = HEAD
    calls = []
    for i in range(12):
        fm = r.choice(forms)
        L += 'function p%d(a)\n  %s\n  emit("end", g)\nend\n' % (i, fm.replace('%s', cexpr(r, ctx, r.randrange(1, 4))))
        calls.append(('p%d' % i, [r.choice([0, 1, 9])]))
    both(ctx, L, None, tail(r, calls))
    ctx.sample(L[-600:])


def do_branch(ctx, k):
    """constant conditions, nested, with declarations in kept and removed parts"""
    r = ctx.rng()
    L = [HEAD, 'function main(a)', 'var x = 1']
    cnt = [0]

    def block(d):
        for _ in range(r.randrange(0, 4)):
            cnt[0] += 1
            n = cnt[0]
            x = r.random()
            c = r.choice(['0', '1', 'K1', 'K2', '1 - 1', '2 > 1', 'K1 == 0', 'not 1', 'not 0', '-1', '0.0', '0.5', '"t"', '""', 'none', 'a', 'x', 'echo(0)', 'echo(1)', '1 and 0', '0 or 3',
                          'K2 - 5', 'K2 and K1', '"" == ""', 'K3 == "k"', '1 == 1.0', '2 % 2', '7 / 8', 'f', '[0]', '(((0)))', '- -1', 'not not 0', '0 and echo(1)', '1 or echo(2)'])
            if x < 0.4 and d:
                L.append('if (%s)' % c)
                block(d - 1)
                if r.random() < 0.6:
                    L.append('else')
                    block(d - 1)
                L.append('end')
            elif x < 0.55 and d:
                # runs at most twice
                L.append('var w%d = 0' % n)
                L.append('while (%s)' % (c if r.random() < 0.3 else '(%s) and w%d < 2' % (c, n)))
                L.append('w%d += 1' % n)
                block(d - 1)
                L.append('if (w%d > 2)\nreturn "many"\nend' % n)
                L.append('end')
            elif x < 0.65:
                L.append('var v%d = %s' % (n, r.choice(['x', 'K1', 'K2 * 2', '%d' % n])))
                L.append('emit(v%d, K1, K2)' % n)
            elif x < 0.72:
                L.append('return %s' % r.choice(['x', 'K1', '', 'g', c]))
                if r.random() < 0.5:
                    L.append('emit("dead")')
            elif x < 0.85:
                L.append('emit(%d, x, g, K1, K2)' % n)
            else:
                L.append('%s = %s' % (r.choice('xg'), r.choice(['K1', 'K2', '0', '1', 'x + 1'])))
    block(4)
    L += ['emit("end", x, g, K1, K2)', 'return x', 'end']
    src = '\n'.join(L) + '\n'
    both(ctx, src, None, tail(r, [('main', [0]), ('main', [1])]))
    ctx.sample(src[-800:])


COPS = ['+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', 'and', 'or']
CONSTS = ['0', '1', '2', '3', '4', '7', '8', '10', '16', '31', '32', '64', '100', '255', '256', '1000', '1024', '46341', '65536', '16777217', '2147483646', '2147483647',
          '(0 - 1)', '(0 - 2)', '(0 - 3)', '(0 - 7)', '(0 - 8)', '(-16)', '(-100)', '(0 - 65536)', '(-2147483647 - 1)', '(not 0)', '(not 5)',
          '0.0', '0.5', '1.0', '2.5', '(-0.5)', '(0.0 - 3.0)', '100000.0', '"s"', '""', '"1"', 'none', 'KI', 'KN', 'KF', 'KS', 'K0']
CHEAD = 'const KI = 6\nconst KN = 0 - 9\nconst KF = 1.5\nconst KS = "k"\nconst K0 = 0\nvar g = 0\n'


def do_constop(ctx, op, k):
    """every operator between every two constants, as a value, as a condition, and with one side unknown to the compiler"""
    r = ctx.rng()
    extra = [str(x) if x >= 0 else '(0 - %d)' % -x for x in sorted(ctx.new) if x > -2147483648]
    a = CONSTS[k]
    L = [CHEAD]
    calls = []
    for i, b in enumerate(CONSTS + extra):
        e = '%s %s %s' % (a, op, b)
        h = '%s %s %s' % (('opaque(%s)' % a, op, b) if i & 1 else (a, op, 'opaque(%s)' % b))
        L.append('function f%d(a)\n  return %s\nend\nfunction h%d(a)\n  return %s\nend\n' % (i, e, i, h))
        L.append('function c%d(a)\n  if (%s)\n    return "T"\n  end\n  while (%s)\n    return "W"\n  end\n  return [-(%s), not (%s), (%s) + 1]\nend\n' % (i, e, e, e, e, e))
        if core.div_by_zero(parse(L[0] + L[-2])) or core.div_by_zero(parse(L[0] + L[-1])):
            del L[-2:]
            continue
        calls += [('call', 'f%d' % i, [0]), ('call', 'h%d' % i, [0]), ('call', 'c%d' % i, [0])]
    text_case(ctx, ''.join(L), [('init',)] + calls, 'constant operands')


CCOND = CONSTS + ['1 - 1', '2 - 3', '0 * 7', '3 % 3', '7 / 8', '8 / 7', '0 == 0', '1 == 2', '1 < 2', '2 < 1', '0 - 0', 'not 1', 'not not 1', '-1', '- -1', '-0', '0.0 - 0.0', '0.25 * 4.0',
                  '0 and 1', '1 and 0', '1 and 2', '0 or 0', '0 or 5', '5 or 0', '0 - 1 and 1', 'KN + 9', 'KI - 6', 'KN < 0', 'KS == "k"', '"" == ""', '"a" == "b"', 'none == 0', 'none == none',
                  '1 == 1.0', '(((0)))', '(((1)))', '(((0 - 1)))', '0 + (0 - 1)', 'K0', 'KI * K0', 'KI and K0', 'KI or K0', 'not KI', 'not K0', '-KI', '-KN', '[0]', '[1] == none', 'twice', 'a', 'not a', 'a and 0', 'a or 1',
                  '0 and a', '1 or a', '0 and echo(3)', '1 and echo(3)', '1 or echo(4)', '0 or echo(0)', 'echo(0) and 0', 'echo(1) or 1', 'a * 0', 'a - a', 'a == a', '0 < a', '1 / a', '2147483647 + 1', '65536 * 65536', '256 * 256']


def do_constcond(ctx, k):
    """a constant condition in every statement that has one, with bodies of every kind"""
    c = CCOND[k]
    L = [CHEAD + 'function twice(x)\n  emit("twice", x)\n  return x\nend\n']
    forms = ['if (%s)\nemit("t")\nend', 'if (%s)\nemit("t")\nelse\nemit("e")\nend', 'if (%s)\nelse\nemit("e")\nend', 'if (%s)\nend', 'if (%s)\nreturn 1\nend', 'if (%s)\nreturn 1\nelse\nreturn 2\nend',
             'if (%s)\nvar t = 5\nemit(t)\nelse\nvar e = 6\nvar e2 = 7\nemit(e, e2)\nend\nvar after = 8\nemit(after)', 'while (%s)\nn += 1\nemit(n)\nif (n > 2)\nreturn "many"\nend\nend', 'while (%s)\nreturn "in"\nend',
             'while ((%s) and n < 2)\nn += 1\nend\nemit(n)', 'while (n < 2 and (%s))\nn += 1\nend\nemit(n)', 'while (not (%s))\nn += 1\nif (n > 2)\nreturn "many"\nend\nend',
             'if (a)\nif (%s)\nemit("at")\nelse\nemit("ae")\nend\nelse\nif (%s)\nemit("bt")\nend\nend', 'if (%s)\nif (a)\nemit("ta")\nelse\nemit("tb")\nend\nelse\nif (a)\nemit("ea")\nend\nend',
             'if (%s)\nwhile (n < 2)\nvar q = n\nn = q + 1\nend\nend\nemit(n)', 'while (n < 2)\nn += 1\nif (%s)\nvar z = n\nemit(z)\nelse\nreturn "else"\nend\nend', 'var i\nfor (i = 0 to 2)\nif (%s)\nn += i\nelse\nn -= 1\nend\nend\nemit(n)',
             'if (not (%s))\nemit("n")\nelse\nemit("y")\nend', 'if ((%s) == 0)\nemit("zero")\nend', 'var v = (%s)\nif (v)\nemit("v", v)\nend', 'n = (%s)\nemit(n)', 'emit(1, (%s), 2)', 'twice((%s))', 'return [1, (%s)]', 'g = [(%s)]']
    calls = []
    for i, f in enumerate(forms):
        L.append('function c%d(a)\nvar n = 0\nvar m = "m"\n%s\nemit("end", n, m)\nreturn n\nend\n' % (i, f.replace('%s', c)))
        if core.div_by_zero(parse(L[0] + L[-1])):
            L.pop()
            continue
        calls += [('call', 'c%d' % i, [0]), ('run', 'c%d' % i, [1])]
    text_case(ctx, ''.join(L), [('init',)] + calls + [('globals',)], 'constant condition')


def do_constdecl(ctx, k):
    """constants defined from constants, used everywhere"""
    r = ctx.rng()
    L = []
    names = []
    for i in range(r.randrange(1, 12)):
        def e(d):
            if d == 0 or r.random() < 0.3:
                return r.choice(names[-4:] + CONSTS[:43]) if names and r.random() < 0.6 else r.choice(CONSTS[:43])
            return r.choice(['(%s %s %s)' % (e(d - 1), r.choice(COPS), e(d - 1)), '(-%s)' % e(d - 1), '(not %s)' % e(d - 1)])
        L.append('const Q%d = %s' % (i, e(r.randrange(0, 3))))
        names.append('Q%d' % i)
    use = lambda: r.choice(names)
    for i in range(6):
        L.append('var v%d = %s' % (i, r.choice([use(), '[%s, %s]' % (use(), use()), '%s + %s' % (use(), use())])))
    L += ['function main(a)', '  emit(%s)' % ', '.join(names), '  if (%s)' % use(), '    emit("t")', '  else', '    emit("e")', '  end', '  if (%s == %s)' % (use(), use()), '    emit("eq")', '  end',
          '  var x = [%s, %s, a]' % (use(), use()), '  return x', 'end']
    src = '\n'.join(L) + '\n'
    both(ctx, src, None, tail(r, [('main', [1])]))
    ctx.sample(src[:600])


def fnames(src):
    import re
    return re.findall(r'(?im)^\s*function\s+(\w+)\s*\(([^)]*)\)', src)


def entry(src, r):
    calls = []
    for n, a in fnames(src)[:6]:
        k = len([x for x in a.split(',') if x.strip()])
        calls.append((n, [r.choice([0, 1, 5, 3.5, b's']) for _ in range(k)]))
    return calls


def do_damage(ctx, k):
    r = ctx.rng()
    if r.random() < 0.5:
        g, decls, src = kit.random_program(ctx, r, gen.Cfg(constfold=0.4, funcs=2, stmts=4, nest=2, depth=2), False)
    else:
        src = r.choice(mutate.corpus()[::1])
    for _ in range(r.choice([1, 1, 2])):
        src = mutate.mutate(r, src, extra=ctx.mined_strings)
    if 'import' in src.lower():
        src = src.lower().replace('import', 'x')
    calls = [c for c in entry(src, r)]
    both(ctx, src, None, tail(r, calls))


def do_corpus(ctx, k):
    c = mutate.corpus()
    if k >= len(c):
        return
    r = ctx.rng()
    src = c[k]
    if 'import' in src.lower():
        return
    both(ctx, src, None, tail(r, entry(src, r)))


def do_reuse(ctx, k):
    """switching the setting of one compiler between builds"""
    r = ctx.rng()
    g, decls, src = kit.random_program(ctx, r, gen.Cfg(constfold=0.5, funcs=2), False)
    from probe import src_cmd
    outs = []
    s = src_cmd(0, src) + b'comp 0 0 1 bh\n'
    for o in (1, 0, 1):
        s += b'opt 0 %d\nbuild 0 0\nbind 0 bh\nvm 0 0\n' % o + tail(r, [('main', kit.value_args(g, r, g.margs))]) + b'say --\ncreset 0\ncflags 0 bh\n'
    r2 = ctx.rng('x')
    lines = ctx.run(s)
    part, cur = [], []
    for l in lines:
        if l == 'say --':
            part.append(core.observe(cur, stop_init=False)[0])
            cur = []
        else:
            cur.append(l)
    ctx.evals += 3
    # arguments are drawn afresh for each part, so only compare when there are none
    if not g.margs:
        if part[0] != part[1] or part[1] != part[2]:
            d = core.first_diff(part[1], part[0]) or core.first_diff(part[2], part[1])
            ctx.fail('optimisation changes behaviour of a reused compiler', source=src, **d)
        ctx.seen(part[0])


def do_shape(ctx, name, n):
    shapes.run(ctx, name, n, key=': optimisation changes behaviour')


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    shapes.run_huge(ctx, name, n, key=': optimisation changes behaviour', opts=(0, 1))
