"""C12 static rules: an independent reader and rule checker decides accept or
reject (and where) for every text, and the compiler must agree"""
import re
import gen, kit, mutate, lang, rules, core, shapes
from lang import S, Style, Printer, KEYWORDS
from parse import Parser, SyntaxErr, parse
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Valid random programs, the sample programs, and both after edits that typically break one rule (names replaced, dropped or duplicated '
        'declarations, wrong argument counts, constants assigned, uses moved out of scope, tokens, lines and bytes damaged). An independent '
        'parser and rule checker decides for each text whether and on which lines a rule is broken; the compiler must accept exactly the others, with and '
        'without optimisation, and report a line that is one of those. Non-trivial: distinct (text, answer).')
CHUNK = 4
EXTRA = {'putc': 1, 'getc': 0, 'puts': 1, 'gets': 0, 'rand': 0, 'print': 1, **{'host_%d' % n: n for n in (2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 200, 256, 257)}, 'host_any': -1}
SYSC = dict(rules.SYS, **EXTRA)
REG = ''.join('sys 1 %s %d\n' % x for x in EXTRA.items()).encode()
ASSUME = ['which of several violations in one text is reported is not specified', 'initialisers of constants that are neither literals nor integer '
          'expressions, and chains of constants, are not judged here']


def cases(ctx):
    n = 3 if ctx.quick else 50
    out = [('rule', k) for k in range(len(RULES))]
    out += [('valid', k) for k in range(150 * n)]
    out += [('names', k) for k in range(350 * n)]
    out += [('tree', k) for k in range(350 * n)]
    out += [('corpus', k) for k in range(250 * n)]
    out += [('damage', k) for k in range(350 * n)]
    out += [('lexical', k) for k in range(60 * n)]
    out += [('arity', k) for k in range(60 * n)]
    out += [('token', k) for k in range(len(TOKENS_OF))]
    out += [('deep', k) for k in list(range(1, 16)) + [20, 33, 64]]
    out += [('shape', s, m) for s, m in shapes.cases(ctx, 3, limit=700)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def oracle(text):
    """('ok', zero division possible lines) | ('err', lines) | ('skip', why)"""
    p = None
    try:
        p = Parser(text)
        decls = p.program()
    except SyntaxErr as e:
        if p is not None and getattr(p, 'out', None):
            for d in p.out:
                if d.k == 'import':
                    return 'err', {d.line}, 'import'
        return 'err', {e.line}, 'syntax'
    except RecursionError:
        return 'skip', 'depth', ''
    for d in decls:
        if d.k == 'import':
            return 'err', {d.line}, 'import'
    try:
        err, maybe, unsure = rules.check(decls, SYSC)
    except RecursionError:
        return 'skip', 'depth', ''
    if unsure:
        return 'skip', unsure, ''
    if err:
        return 'err', {l for l, _ in err} | {l for l, _ in maybe}, err[0][1].split()[0]
    if maybe:
        return 'maybe', {l for l, _ in maybe}, 'maybe'
    return 'ok', set(), 'ok'


def check(ctx, texts, opts=(0, 1)):
    s = []
    todo = []
    for t in texts:
        t = t.replace('\0', ' ') or '\n'
        v = oracle(t)
        if v[0] == 'skip':
            ctx.skipped += 1
            continue
        i = len(todo)
        todo.append((t, v))
        for o in opts:
            s.append(b'say #%d.%d\nprog 1\ncomp 1 1 %d bh\n' % (i, o, o) + REG + src_cmd(1, t) + b'build 1 1\ncfree 1\npfree 1\nsrcfree 1\n')
    if not todo:
        return
    n = 0
    cur = None
    for l in ctx.run(b''.join(s)):
        if '#' in l[:6]:
            cur, o = map(int, l.split('#')[1].split('.'))
        elif l.startswith('build '):
            n += 1
            ctx.evals += 1
            t, (want, lines, what) = todo[cur]
            m = re.match(r'build err (-?\d+):(-?\d+) ([0-9a-f]*)$', l)
            msg = bytes.fromhex(m.group(3)).decode('latin1') if m else ''
            at = int(m.group(2)) if m else None
            d = dict(text=t[:6000], opt=o, answer=l, message=msg, lines=sorted(lines), rule=what)
            if m and int(m.group(1)) != 0:
                ctx.fail('error names another file', **d)
            if want == 'ok' and m:
                ctx.fail('accepted by the rules but rejected: ' + re.sub(r"'.*?'|\d+", '', msg)[:60], **d)
            if want == 'err' and not m:
                ctx.fail('broken rule not reported: ' + what, **d)
            if want == 'maybe' and o == 0 and not m:
                pass
            if m and want in ('err', 'maybe') and at not in lines:
                ctx.fail('error reported at another line: ' + what, **d)
            ctx.count[('rejected ' if m else 'accepted ') + what] += 1
            ctx.seen(t, l)
    if n != len(todo) * len(opts):
        ctx.fail('missing answers')
    ctx.sample(todo[0][0][:300])


def cfg(r):
    return gen.Cfg(err=0.0, nest=r.randrange(1, 4), stmts=r.randrange(1, 4), depth=r.randrange(1, 4), funcs=r.randrange(1, 5), globals=r.randrange(1, 6))


def do_valid(ctx, k):
    r = ctx.rng()
    check(ctx, [kit.random_program(ctx, r, cfg(r), wild=r.random() < 0.6)[2] for _ in range(6)])


IDRE = re.compile(r'"[^"\n]*"|#[^\n]*|[A-Za-z_]\w*|\d[\w.]*')


def idents(t):
    return [m for m in IDRE.finditer(t) if (m.group()[0].isalpha() or m.group()[0] == '_') and m.group().lower() not in KEYWORDS]


def do_names(ctx, k):
    """exchange names"""
    r = ctx.rng()
    T = []
    for _ in range(4):
        t = kit.random_program(ctx, r, cfg(r))[2] if r.random() < 0.6 else r.choice(mutate.corpus())
        for _ in range(6):
            ids = idents(t)
            if not ids:
                continue
            u = t
            for _ in range(r.choice([1, 1, 1, 2])):
                ids = idents(u)
                if not ids:
                    break
                m = r.choice(ids)
                x = r.random()
                if x < 0.5:
                    w = r.choice(ids).group()
                elif x < 0.65:
                    w = r.choice(['q', 'undefined_name', m.group() + 'x', m.group()[:-1] or 'z', m.group().swapcase(), '_' + m.group()])
                elif x < 0.8:
                    w = r.choice(list(SYSC))
                elif x < 0.9:
                    w = m.group() + r.choice(['()', '(1)', '(1, 2)', '[0]', '.length', '.x'])
                else:
                    w = r.choice(['1', '"s"', 'none', '(', ')', 'var', 'end', 'not'])
                u = u[:m.start()] + w + u[m.end():]
            T.append(u)
    check(ctx, T)


# ---- edits of the tree that keep the text well formed
def walk(body, f, path=()):
    """every statement list"""
    f(body)
    for s in body:
        for x in (s.b, s.c, s.d):
            if isinstance(x, list) and x and isinstance(x[0], S):
                walk(x, f)


def exprs_of(s):
    return [k for k in 'abcd' if isinstance(getattr(s, k), tuple)]


def edit(r, decls):
    bodies = []
    for d in decls:
        if d.k == 'func':
            walk(d.c, bodies.append)
    names = [d.a for d in decls if d.k != 'import'] + [p for d in decls if d.k == 'func' for p in d.b]
    for b in bodies:
        names += [s.a for s in b if s.k == 'var']
    N = lambda: r.choice(names + ['nope', 'abs', 'main', 'emit'])
    x = r.randrange(12)
    body = r.choice(bodies) if bodies else []
    if x == 0 and decls:
        del decls[r.randrange(len(decls))]
    elif x == 1 and decls:
        decls.insert(r.randrange(len(decls) + 1), r.choice(decls))
    elif x == 2 and decls:
        r.shuffle(decls)
    elif x == 3:
        fs = [d for d in decls if d.k == 'func']
        if fs:
            d = r.choice(fs)
            if r.random() < 0.5 and d.b:
                d.b = list(d.b)
                del d.b[r.randrange(len(d.b))]
            else:
                d.b = list(d.b) + [N()]
    elif x == 4:
        decls.insert(r.randrange(len(decls) + 1), S(r.choice(['const', 'gvar']), N(), r.choice([None, ('int', 3), ('str', b'x'), ('none',), ('flt', '1.5'), ('bin', '/', ('int', 1), ('int', r.choice([0, 1]))), ('id', N())])))
    elif x == 5 and body:
        del body[r.randrange(len(body))]
    elif x == 6:
        i = r.randrange(len(body) + 1)
        body.insert(i, S('var', N(), r.choice([None, ('int', 1), ('id', N())])))
    elif x == 7:
        i = r.randrange(len(body) + 1)
        body.insert(i, r.choice([S('set', N(), ('id', N())), S('cset', N(), r.choice('+-*/'), ('int', r.randrange(3))), S('seta', N(), ('int', 0), ('id', N())), S('setm', N(), 'm', ('int', 1)),
                                 S('for', N(), ('int', 0), ('int', 2), [S('set', N(), ('int', 1))]), S('call', ('call', ('id', N()), [('int', 1)] * r.randrange(4))),
                                 S('ret', ('mem', N(), 'length')), S('ret', ('bin', r.choice('/%'), ('int', 1), ('int', r.choice([0, 2]))))]))
    elif x == 8 and bodies and body:
        # move a statement elsewhere
        s = body.pop(r.randrange(len(body)))
        b = r.choice(bodies)
        b.insert(r.randrange(len(b) + 1), s)
    elif x == 9 and decls:
        d = r.choice(decls)
        if d.k in ('gvar', 'const'):
            d.k = r.choice(['gvar', 'const'])
            if r.random() < 0.3:
                d.b = None
        else:
            d.a = N()
    elif x == 10:
        es = [(s, k) for b in bodies for s in b for k in exprs_of(s)]
        if es:
            s, k = r.choice(es)
            if s.k != 'call':
                setattr(s, k, sub(r, getattr(s, k), ('id', N())))
    elif x == 11:
        es = [(s, k) for b in bodies for s in b for k in exprs_of(s)]
        if es:
            s, k = r.choice(es)
            setattr(s, k, arity(r, getattr(s, k)))


def sub(r, e, y):
    if r.random() < 0.25 or e[0] in ('int', 'flt', 'str', 'none', 'id', 'mem'):
        return y
    e = list(e)
    ks = [i for i in range(1, len(e)) if isinstance(e[i], (tuple, list)) and e[i]]
    if not ks:
        return y
    i = r.choice(ks)
    if isinstance(e[i], tuple):
        e[i] = sub(r, e[i], y)
    else:
        l = list(e[i])
        j = r.randrange(len(l))
        l[j] = sub(r, l[j], y)
        e[i] = l
    return tuple(e)


def arity(r, e):
    """change the number of arguments of some call"""
    out = list(e)
    if e[0] == 'call':
        a = [arity(r, x) if r.random() < 0.3 else x for x in e[2]]
        if r.random() < 0.6:
            if a and r.random() < 0.5:
                a.pop()
            else:
                a.append(('int', 5))
        return ('call', e[1], a)
    for i in range(1, len(out)):
        if isinstance(out[i], tuple):
            out[i] = arity(r, out[i])
        elif isinstance(out[i], list):
            out[i] = [arity(r, y) for y in out[i]]
    return tuple(out)


def do_tree(ctx, k):
    r = ctx.rng()
    T = []
    for _ in range(12):
        g, decls, src = kit.random_program(ctx, r, cfg(r))
        decls = parse(src)
        for _ in range(r.choice([1, 1, 2])):
            edit(r, decls)
        st = Style.wild(r) if r.random() < 0.4 else Style(r)
        T.append(Printer(st).program(decls))
    check(ctx, T)


def do_corpus(ctx, k):
    r = ctx.rng()
    c = mutate.corpus()
    if k < len(c):
        check(ctx, [c[k]])
    T = []
    for _ in range(12):
        t = r.choice(c)
        T.append(mutate.mutate(r, t, extra=[m.group() for m in idents(t)][:20]))
    check(ctx, T)


def do_damage(ctx, k):
    r = ctx.rng()
    T = []
    for _ in range(3):
        t = kit.random_program(ctx, r, cfg(r), wild=False)[2]
        for _ in range(5):
            T.append(mutate.mutate(r, t, extra=[m.group() for m in idents(t)][:20]))
    check(ctx, T)


def do_lexical(ctx, k):
    """names, numbers, strings and stray characters at every place"""
    r = ctx.rng()
    T = []
    for _ in range(12):
        t = r.choice(mutate.corpus()) if r.random() < 0.5 else kit.random_program(ctx, r, cfg(r))[2]
        i = r.randrange(len(t) + 1)
        T.append(t[:i] + r.choice([chr(r.randrange(1, 256)), '"', '\n', '\r', '\t', '#', '\\', '{', '}', '!', '&&', "'", ';', ':', '?', '~', '^', '|', '$', '@', '`', '\x0b', '\x0c', '\x7f', '_', '0', '.', '00', '1.2.3', '1..2']) + t[i:])
    check(ctx, T)


# ---- each rule by itself, at a known place of a larger program
PRE = ['# first', 'var g = 1', 'const C = 5', 'const T = "t"', 'var arr = [1, 2]', 'function f0()', '  return 1', 'end', 'function f2(a, b)', '  return a + b', 'end', '']
OK, BAD = True, False
RULES = [
    # global level: (lines, offending line offset or None)
    (['var g'], 0), (['const g = 1'], 0), (['function g()', 'end'], 0), (['var f0'], 0), (['const C = 6'], 0), (['function f2(x)', 'end'], 0),
    (['var abs = 1'], 0), (['function len(x)', 'end'], 0), (['const emit = 1'], 0), (['var new1'], None), (['var G'], None), (['var _ = 1'], None), (['var _9 = 1'], None),
    (['const N'], 0), (['const N = none'], 0), (['const N = 1'], None), (['const N = -1'], None), (['const N = 2 * 3 + 1'], None), (['const N = "s"'], None), (['const N = 1.5'], None),
    (['var z = 1 / 0'], 0), (['var z = 1 % 0'], 0), (['var z = 3 / (2 - 2)'], 0), (['var z = 7 % (1 * 0)'], 0), (['const z = 1 / 0'], 0), (['const z = 1 % 0'], 0), (['var z = 1 / 1'], None), (['var z = 0 / 5'], None),
    (['var z = nope'], 0), (['var z = f2(1)'], 0), (['var z = f2(1, 2)'], None), (['var z = f2(1, 2, 3)'], 0), (['var z = lat3', 'var lat3 = 1'], None), (['var z = z'], None),
    (['var z = g.x'], None), (['var z = C.x'], 0), (['var z = f0.x'], 0), (['var z = nope.x'], 0), (['var z = abs'], None), (['var z = f0'], None), (['var z = [g, C, nope]'], 0), (['var z = arr[nope]'], 0),
    (['import "nowhere"'], 0), (['import nowhere'], 0), (['import'], 0), (['import "nowhere" import "x"'], 0),
    (['var'], 0), (['var 1'], 0), (['var x ='], 0), (['const'], 0), (['const 1 = 2'], 0), (['function'], 0), (['function x'], 0), (['function x('], 0), (['function x()'], 'end'), (['function x(1)', 'end'], 0), (['function x(a,)', 'end'], 0),
    (['function x(a b)', 'end'], 0), (['function x(a, a)', 'end'], 0), (['function x(g)', 'end'], 0), (['function x(x)', 'end'], 0), (['function x(C)', 'end'], 0), (['function x(abs)', 'end'], 0), (['function x() end'], 0),
    (['end'], 0), (['else'], 0), (['if (1)', 'end'], 0), (['while (1)', 'end'], 0), (['for (g = 0 to 1)', 'end'], 0), (['return 1'], 0), (['g = 1'], 0), (['f0()'], 0), (['1'], 0), (['"s"'], 0), (['('], 0), (['var x = (1'], 0), (['var x = 1)'], 0),
    (['var x = "abc'], 0), (['var x = abc"'], 0), (['var x = 1 ?'], 0), (['var x = @'], 0), (['var x = [1, 2'], 0), (['var x = [1,, 2]'], 0), (['var x = []'], 0), (['var x = [1 2]'], 0), (['var x = 1 +'], 0), (['var x = * 1'], 0), (['var x = 1 2'], 0),
    (['var x = f0('], 0), (['var x = f2(1,)'], 0), (['var x = f2(,1)'], 0), (['var x = arr[]'], 0), (['var x = arr[1'], 0), (['var x = g.'], 0), (['var x = g.1'], 0), (['var x = none'], None), (['var x = not'], 0), (['var x = not 1'], None), (['var x = 1 not 2'], 0),
    (['var x = 1 and'], 0), (['var x = 1 == == 1'], 0), (['var x = 1 = 1'], 0), (['var x = var'], 0), (['var x, y'], 0), (['var x = 1, y = 2'], 0), (['var x = (', '1)'], 0), (['var x = -'], 0), (['var x = - - 1'], None), (['var x = ()'], 0),
    (['var x = 1 # c "'], None), (['var x = "#"'], None), (['VAR x = 1'], None), (['Function q() ', 'END'], None), (['var End2'], None), (['var endx = 1'], None), (['var forx = 1'], None), (['var x=1'], None), (['var\tx\t=\t1\r'], None), (['var x = .5'], 0), (['var x = 5.'], None),
]
INNER = [
    (['nope = 1'], 0), (['g = 2'], None), (['C = 2'], 0), (['T = "x"'], 0), (['f0 = 1'], 0), (['abs = 1'], 0), (['g += nope'], 0), (['nope += 1'], 0), (['C += 1'], 0), (['C -= 1'], 0), (['C *= 1'], 0), (['C /= 1'], 0), (['g -= 1'], None), (['g %= 1'], 0),
    (['arr[0] = nope'], 0), (['arr[nope] = 1'], 0), (['nope[0] = 1'], 0), (['C[0] = 1'], 0), (['T[0] = 1'], 0), (['f0[0] = 1'], 0), (['arr[0] = 1'], None), (['arr[0] += 1'], 0), (['arr[0][1] = 2'], 0), (['g.x = 1'], None), (['C.x = 1'], 0), (['nope.x = 1'], 0), (['f0.x = 1'], 0), (['g.x.y = 1'], 0), (['g.x += 1'], 0),
    (['f0()'], None), (['f0(1)'], 0), (['f2(1)'], 0), (['f2(1, 2)'], None), (['f2(1, 2, 3)'], 0), (['nope()'], 0), (['nope(f0(1))'], 0), (['f2(f0(1), 2)'], 0), (['f2(f0(), f2(1, 2))'], None), (['abs()'], 0), (['abs(1)'], None), (['abs(1, 2)'], 0), (['emit()'], None), (['emit(1, 2, 3, 4, 5)'], None), (['emit(nope)'], 0), (['two(1)'], 0), (['g()'], None), (['g(1, 2)'], None),
    (['C()'], None), (['T(1)'], None), (['p()'], None), (['var l = f2', 'l(1)'], None), (['later(1)'], None), (['later()'], 0), (['later(1, 2)'], 0), (['user(1)'], None), (['user(1, 2)'], 0), (['user()'], 0),
    (['var g'], 0), (['var C'], 0), (['var f0'], 0), (['var user'], 0), (['var p'], 0), (['var abs'], 0), (['var l', 'var l'], 1), (['var l', 'if (1)', '  var l', 'end'], 2), (['if (1)', '  var l', 'end', 'l = 1'], 3), (['if (1)', '  var l', 'end', 'var l'], None), (['if (1)', '  var l', 'else', '  l = 1', 'end'], 3),
    (['if (1)', '  var l', 'else', '  var l', 'end'], None), (['while (0)', '  var l', 'end', 'emit(l)'], 3), (['var l', 'for (l = 0 to 1)', '  var m', 'end', 'm = l'], 4), (['for (l = 0 to 1)', 'end'], 0), (['for (C = 0 to 1)', 'end'], 0), (['for (f0 = 0 to 1)', 'end'], 0), (['for (g = 0 to 1)', 'end'], None), (['for (p = nope to 1)', 'end'], 0), (['for (p = 0 to nope)', 'end'], 0),
    (['emit(l)', 'var l'], 0), (['var l = l'], 0), (['var later2', 'later2 = 1'], None), (['var later'], None), (['var laterv = 1'], None), (['laterv = 2'], None), (['laterc = 2'], 0), (['emit(laterc, laterv, later)'], None),
    (['if (nope)', 'end'], 0), (['if (1', 'end'], 0), (['if 1', 'end'], 0), (['if (1) g = 1', 'end'], 0), (['if (1)', 'else', 'else', 'end'], 2), (['if ()', 'end'], 0), (['while ()', 'end'], 0), (['while (1', 'end'], 0), (['while 1', 'end'], 0), (['while (nope)', 'end'], 0), (['for (p = 0)', 'end'], 0), (['for (p to 1)', 'end'], 0), (['for (p = 0 to)', 'end'], 0), (['for (1 = 0 to 1)', 'end'], 0), (['for p = 0 to 1', 'end'], 0),
    (['for (var q = 0 to 1)', 'end'], 0), (['for (arr[0] = 0 to 1)', 'end'], 0), (['else'], 'any'), (['return'], None), (['return 1'], None), (['return nope'], 0), (['return 1 2'], 0), (['return)'], 0), (['return p', 'return p'], None), (['return', 'g = 1'], None), (['1'], 0), (['p'], 0), (['p + 1'], 0), (['(p)'], 0), (['p == 1'], 0), (['p = = 1'], 0), (['p = '], 0), (['p ='], 0), (['p + = 1'], None), (['-p = 1'], 0), (['"s"'], 0), (['"s" = 1'], 0), (['function q()', 'end'], 0), (['import "x"'], 0), (['const q = 1'], 0),
    (['p = 1 p = 2'], 0), (['p = f0() f0()'], 0), (['f0() f0()'], 0), (['f0()()'], 0), (['f0()[0] = 1'], 0), (['f0('], 0), (['f0(1'], 0), (['f0)'], 0), (['p = f0()()'], None), (['p = arr[0](1)'], None), (['p = f0(1)()'], 0), (['p = (f0)(1)'], 'any'), (['p = [f0(1)]'], 0), (['p = -nope'], 0), (['p = not nope'], 0), (['p = 1 + nope * 2'], 0), (['p = f0() and nope'], 0),
    (['p = C.length'], 0), (['p = T.length'], 0), (['p = f0.length'], 0), (['p = nope.length'], 0), (['p = p.length'], None), (['p = "s".length'], 0), (['p = (p).length'], 0), (['p = arr[0].length'], 0), (['p = p.length.x'], 0), (['p = p.length[0]'], None), (['p = p.length()'], None),
    (['var 1'], 0), (['var l ='], 0), (['var'], 0), (['var l m'], 0), (['var end'], 0), (['var if = 1'], 0), (['p = "abc'], 0), (['p = `'], 0), (['p = 1 & 2'], 0), (['p = 1 != 2'], 0), (['p = 1 <> 2'], 0), (['p = 1 < 2'], None), (['p = 1 <= 2 == 1'], None), (['p++'], 0), (['p += 1'], None), (['p -+ 1'], 0),
    (['p = 1 / 0'], 'zero'), (['p = p / 0'], None), (['p = C / (5 - C)'], 'zero'), (['p /= 0'], None), (['p = 1.0 / 0'], None), (['end'], 'end2'), (['if (1)'], 'end'),
]
POST = ['', 'function later(a)', '  return a', 'end', 'var laterv = 3', 'const laterc = 4', '# last']
RULES = [('g', a, b) for a, b in RULES] + [('i', a, b) for a, b in INNER]


def do_rule(ctx, k):
    where, lines, off = RULES[k]
    r = ctx.rng()
    T = []
    for v in range(3 if ctx.quick else 10):
        pre = list(PRE)
        # push everything around
        for _ in range(r.randrange(0, 6)):
            pre.insert(r.randrange(0, 2), r.choice(['', '# c', '  ', '\t# "']))
        if where == 'i':
            pre += ['function user(p)', '  var own = p']
            d = r.randrange(0, 3)
            for i in range(d):
                pre.append('  ' * (i + 1) + r.choice(['if (p)', 'while (0)', 'for (p = 0 to 0)']))
            body = [('  ' * (d + 1)) + x for x in lines]
            post = ['  ' * (i + 1) + 'end' for i in range(d)] + ['  return own', 'end'] + POST
            if r.random() < 0.3:
                body = ['  emit(p)', ''] + body
                sh = 2
            else:
                sh = 0
        else:
            body, post, sh = list(lines), list(POST), 0
        T.append((pre + body + post, len(pre) + 1 + sh))
    texts = ['\n'.join(t) + r.choice(['', '\n', '\n\n']) for t, _ in T]
    # the table and the rule checker must say the same
    for t, (full, at) in zip(texts, T):
        v = oracle(t)
        if off is None and v[0] not in ('ok', 'maybe'):
            raise AssertionError('rule table: %r is %r' % (lines, v))
        if isinstance(off, int) and (v[0] != 'err' or v[1] != {at + off}):
            raise AssertionError('rule table: %r line %d is %r' % (lines, at + off, v))
        if off == 'zero' and (v[0] != 'maybe' or v[1] != {at}):
            raise AssertionError('rule table: %r is %r' % (lines, v))
    check(ctx, texts)


STATEMENTS = ['var l = p', 'var l', 'p = g + 1', 'p + = 2', 'g * = f0 ( )', 'p -= 2', 'arr [ 0 ] = p', 'g . x = 3', 'f2 ( p , g )', 'emit ( arr [ 1 ] , - p )', 'if ( p )\n  end', 'while ( 0 )\n  end', 'for ( p = 0 to 2 )\n  end',
              'if ( not p )\n  else\n  end', 'return', 'return p == "s"', 'p = [ 1 , g ]', 'p = ( g < 1.5 ) and C', 'p = arr . length', 'p = f0 ( ) [ 2 ] ( 1 )', 'p = none']
GLOBALS = ['var q = 1', 'const q = 2', 'var q', 'function q ( a , b )\n  end', 'var q = - C + 2', 'var q = [ g , "s" ]']
VOCAB = ['var', 'const', 'function', 'end', 'if', 'else', 'while', 'for', 'to', 'return', 'import', 'and', 'or', 'not', 'none', '(', ')', '[', ']', ',', '.', '+', '-', '*', '/', '%', '=', '==', '<', '>', '<=', '>=', '7', '2.5', '"s"', 'p', 'g', 'C', 'f0', 'nope', '\n', '#', '= =', '!=']
TOKENS_OF = [('i', s, i) for s in STATEMENTS for i in range(len(s.split(' ')) + 1)] + [('g', s, i) for s in GLOBALS for i in range(len(s.split(' ')) + 1)]


def do_token(ctx, k):
    """every statement with every token replaced by, or preceded by, every other token"""
    where, s, i = TOKENS_OF[k]
    r = ctx.rng()
    toks = s.split(' ')
    V = [toks[:i] + toks[i + 1:], toks[:i] + toks[i:i + 1] * 2 + toks[i + 1:]]
    for v in VOCAB:
        V.append(toks[:i] + [v] + toks[i:])
        if i < len(toks):
            V.append(toks[:i] + [v] + toks[i + 1:])
    T = []
    for v in V:
        t = r.choice([' ', ' ', '  ', '\t']).join(v).replace('\n  end', '\n  END' if r.random() < 0.2 else '\n  end')
        pre = PRE + (['function user(p)', '  var own = p'] if where == 'i' else [])
        post = (['  return own', 'end'] if where == 'i' else []) + POST
        T.append('\n'.join(pre + ['  ' + t] + post) + '\n')
    check(ctx, T)


BLOCKS = [(['if (p)'], ['end']), (['while (0)'], ['end']), (['for (p = 0 to 0)'], ['end']), (['if (p)', 'else'], ['end']), (['if (p)'], ['else', 'end'])]


def do_arity(ctx, k):
    """functions of any number of parameters called with any number of arguments"""
    r = ctx.rng()
    T = []
    for _ in range(12):
        host = r.random() < 0.5
        if host:
            f = r.choice([x for x in EXTRA if x.startswith('host_')] + list(rules.SYS))
            n = SYSC[f]
        else:
            n = r.choice([0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, r.randrange(300)])
            f = 'fn'
        m = max(0, r.choice([n, n, n, n + 1, n - 1, n - 1, n + 2, 0, n + 16, n - 16, n + 256, n + 128, n % 16, n % 64, n * 2]) if n >= 0 else r.randrange(40))
        call = '%s(%s)' % (f, ', '.join(r.choice(['1', 'p', '"s"', 'g']) for _ in range(m)))
        decl = [] if host else ['function fn(%s)' % ', '.join('a%d' % i for i in range(n)), 'end']
        use = r.choice([['  ' + call], ['  var v = ' + call], ['  emit([1, %s])' % call], ['  if (%s)' % call, '  end'], ['  return ' + call], ['  p = 1 + %s' % call]])
        body = ['function main(p)'] + [''] * r.randrange(3) + use + ['end']
        L = ['var g = 1'] + (decl + body if r.random() < 0.5 else body + decl)
        if r.random() < 0.2:
            L = ['var g = 1'] + decl + ['var h = ' + call.replace('p', '1') if 'p' not in f else 'var h = 1'] + body
        T.append('\n'.join(L) + '\n')
    check(ctx, T)


def do_deep(ctx, d):
    """names of every enclosing level, declared again or used, at every depth and after every end"""
    r = ctx.rng()
    T = []
    inner = ['var v%d', 'v%d = 1', 'emit(v%d)', 'v%d[0] = 1', 'for (v%d = 0 to 1)\nend', 'var q = v%d', 'var w = [v%d]\nvar w', 'v%d(1)', 'v%d.x = 2', 'var w%d = 1']
    js = range(d + 1) if d < 16 else sorted({0, 1, 2, d // 2, d - 2, d - 1, d})
    for j in js:
        for what in ['var v%d'] + r.sample(inner, 2):
            L = ['var g', 'const C = 1', 'function f(p, v0)']
            close = []
            for i in range(1, d + 1):
                o, c = r.choice(BLOCKS)
                L += o + ['var v%d = p' % i]
                close.append(c)
                if r.random() < 0.1:
                    L += ['if (p)', 'var w%d' % i, 'end']
            x = what % j
            out = r.randrange(0, d + 1)
            A, B = list(L), list(L)
            A.append(x)
            for c in reversed(close):
                A += c
            # the same after some blocks have ended
            for i, c in enumerate(reversed(close)):
                if i == out:
                    B.append(x)
                B += c
            if out == d:
                B.append(x)
            T += ['\n'.join(A + ['end', '']), '\n'.join(B + ['end', ''])]
        y = r.choice(['var g', 'var C', 'var f', 'var p', 'C = 1', 'C += 1', 'f(1)', 'f(1, 2)', 'f(1, 2, 3)', 'var abs', 'nope = 1', 'f = 1', 'emit(nope)', 'var late', 'late(1)', 'late = 2'])
        A = L + [y]
        for c in reversed(close):
            A += c
        T.append('\n'.join(A + ['end', 'function late()', 'end', '']))
    check(ctx, T)


CALL = re.compile(r'\b([a-z]\w*)\(([^()]*)\)')


def do_shape(ctx, name, n):
    """large programs, as they are and with one rule broken somewhere"""
    r = ctx.rng()
    src = shapes.make(name, n, r)[0]
    T = [src]
    lines = src.split('\n')
    inside = [i for i, l in enumerate(lines) if l.startswith('  ')]
    ids = sorted({m.group() for m in idents(src)})
    for _ in range(5):
        L = list(lines)
        x = r.randrange(5)
        i = r.choice(inside) if inside else 0
        if x == 0:
            L.insert(i, '  var ' + r.choice(ids))
        elif x == 1:
            L.insert(i, '  ' + r.choice(['nope = 1', 'emit(nope)', r.choice(ids) + ' = 1', 'emit(%s)' % r.choice(ids), r.choice(ids) + '(1)', 'return nope']))
        elif x == 2:
            L.insert(r.choice([0, len(L)]), r.choice(['var ', 'const ', 'function ']) + r.choice(ids))
        elif x == 3:
            c = [(i, m) for i, l in enumerate(L) if l.startswith('  ') for m in CALL.finditer(l) if not m.group(1) in ('if', 'while', 'for', 'not', 'and', 'or')]
            if c:
                i, m = r.choice(c)
                a = [y for y in m.group(2).split(', ') if y]
                a = a + ['1'] if r.random() < 0.5 or not a else a[:-1]
                L[i] = L[i][:m.start(2)] + ', '.join(a) + L[i][m.end(2):]
        else:
            i = r.randrange(len(L))
            del L[i]
        T.append('\n'.join(L))
    check(ctx, T)
