"""C01 expressions: differential against the reference interpreter"""
import lang, core, shapes
from lang import S, PREC, dump, f32, strtof
import gen

LEVEL = 'exploration'
RULE = ('Expressions are made five ways: (matrix) every operator on every ordered pair of a value grid of all types, '
        'with operands passed as values; (literal) the same operators on literals so that folding is exercised; '
        '(chain) every unparenthesised sequence of up to three binary operators with optional unary operators, grouped by an '
        'independent precedence parser; (random) random typed expression trees with tracing host calls for evaluation order; '
        '(lex) numeric and string literals. Each result is compared with the reference interpreter, with and without '
        'optimisation. Non-trivial: the compared log has a value or error not seen before in this run.')
ASSUME = ['sign and payload of NaN are unspecified', 'no x87: single precision arithmetic rounds each operation once']
OPS = ['+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', 'and', 'or']
CHUNK = 4

GRID = [None, 0, 1, -1, 2, 3, 7, -7, 10, 100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 16777215, 16777216,
        16777217, 46340, 46341, 2147483646, 2147483647, -2147483647, -2147483648, -128, -256, -65536,
        0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 2.5, 3.0, f32(0.1), f32(1e-7), 16777216.0, 2147483648.0, -2147483648.0,
        f32(3e38), f32(-3e38), f32(1e-40), float('inf'), float('-inf'),
        b'', b'a', b'ab', b'b', b'0', b'none', b'abc' * 11, b'x' * 32, b'y' * 255, b'z' * 257, b'\xff\x01']


def cases(ctx):
    n = 12 if ctx.quick else 60
    out = [('matrix', op, k) for op in OPS for k in range(4)]
    out += [('minedmatrix', op, k) for op in OPS for k in range(4 if ctx.quick else 40)]
    out += [('unary', k) for k in range(4)]
    out += [('literal', op, k) for op in OPS for k in range(4 if ctx.quick else 40)]
    out += [('chain2', a, b) for a in OPS for b in OPS]
    out += [('chain3', a, k) for a in OPS for k in range(4 if ctx.quick else 40)]
    out += [('random', k) for k in range(220 * n)]
    out += [('fold', k) for k in range(100 * n)]
    out += [('globals', k) for k in range(20 * n)]
    out += [('lex', k) for k in range(20 * n)]
    out += [('digits', k) for k in range(12 * n)]
    out += [('twins', k) for k in range(12 * n)]
    out += [('deep', k) for k in range(16 * n)]
    out += [('shape', s, n) for s, n in shapes.cases(ctx, 2, only=('parens', 'chain', 'concat', 'callnest', 'consts', 'emitargs'))]
    out = shapes.huge_cases(ctx, 'many_strs', 'big_values') + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


def batch(ctx, decls, calls, opts=(0, 1), key='wrong value', src=None):
    steps = [('init',)] + [('call', f, a) for f, a in calls]
    r = core.differential(ctx, decls, steps, opts=opts, key=key, src=src)
    if r:
        I, want = r
        ctx.evals += len(calls) * len(opts)
        for (f, a), w in zip(calls, want[-len(calls):]):
            ctx.seen(f, dump(w) if not isinstance(w, str) else w)
    return r


def do_matrix(ctx, op, part):
    decls = [S('func', 'f', ['a', 'b'], [S('ret', ('bin', op, ('id', 'a'), ('id', 'b')))])]
    vals = GRID
    pairs = [(x, y) for i, x in enumerate(vals) for y in vals if i % 4 == part]
    pairs += [(lang.Fn('f'), x) for x in vals[part::4]] + [(x, lang.Sys('abs')) for x in vals[part::4]]
    if op == '+':
        pairs = [p for p in pairs if not any(isinstance(x, lang.Fn) for x in p) or not any(isinstance(x, bytes) for x in p)]
    ok = []
    for p in pairs:
        try:
            lang.binop(op, *p)
        except lang.RtErr:
            pass
        except lang.Budget:
            continue
        ok.append(p)
    batch(ctx, decls, [('f', list(p)) for p in ok], opts=(1,))
    ctx.sample('%s on %d pairs' % (op, len(ok)))


def do_minedmatrix(ctx, op, k):
    r = ctx.rng()
    decls = [S('func', 'f', ['a', 'b'], [S('ret', ('bin', op, ('id', 'a'), ('id', 'b')))])]
    m = ctx.mined
    pairs = []
    for x in m:
        pairs.append((x, r.choice(m)))
        pairs.append((r.choice(GRID), x))
        pairs.append((x, r.choice(GRID)))
        pairs.append((float(f32(x)), r.choice([0.5, 2.0, x])))
        if 0 <= x <= 5000:
            pairs.append((b'q' * x, b'r' * r.randrange(3)))
            pairs.append((b'q' * x, b'q' * (x - 1) + b'Z'))
            if x > 1:
                pairs.append((b'q' * (x // 2), b'r' * (x - x // 2)))
    r.shuffle(pairs)
    batch(ctx, decls, [('f', list(p)) for p in pairs[:900]], opts=(1,))


def do_unary(ctx, part):
    decls = [S('func', 'n', ['a'], [S('ret', ('neg', ('id', 'a')))]),
             S('func', 't', ['a'], [S('ret', ('not', ('id', 'a')))]),
             S('func', 'i', ['a'], [S('if', ('id', 'a'), [S('ret', ('int', 1))], [S('ret', ('int', 0))])])]
    vals = (GRID + ctx.mined + [lang.Fn('n'), lang.Sys('abs'), float('nan')])[part::4]
    batch(ctx, decls, [(f, [v]) for v in vals for f in 'nti'])


def lit_of(v):
    """an expression that denotes v, or None"""
    if v is None:
        return ('none',)
    if type(v) is int:
        if v == -2147483648:
            return ('bin', '-', ('neg', ('int', 2147483647)), ('int', 1))
        return ('int', v) if v >= 0 else ('neg', ('int', -v))
    if type(v) is bytes:
        return ('str', v)
    if v != v or v in (float('inf'), float('-inf')):
        return None
    t = '%.60f' % abs(v)
    t = t.rstrip('0')
    e = ('flt', t)
    import math
    return ('neg', e) if math.copysign(1, v) < 0 else e


def do_literal(ctx, op, k):
    r = ctx.rng()
    vals = [v for v in GRID if lit_of(v) is not None]
    decls, calls = [], []
    for i in range(60):
        a, b = lit_of(r.choice(vals)), lit_of(r.choice(vals))
        e = ('bin', op, a, b)
        try:
            lang.fold(e)
        except ZeroDivisionError:
            continue
        decls.append(S('func', 'f%d' % i, [], [S('ret', e)]))
        calls.append(('f%d' % i, []))
        # the same in a condition
        decls.append(S('func', 'c%d' % i, [], [S('if', e, [S('ret', ('int', 10))], None), S('ret', ('int', 20))]))
        calls.append(('c%d' % i, []))
    batch(ctx, decls, calls, key='wrong value of constant expression')


# ---- independent precedence parser over token lists
def group(toks):
    """toks: operands ('v', expr, unaries) and operators alternating; returns a tree.
    `not` captures everything to its right of a higher level"""
    pos = 0

    def operand():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == 'not':
            e = parse(3)
            return ('not', e)
        if t == '-':
            return ('neg', operand_primary())
        return t

    def operand_primary():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '-':
            return ('neg', operand_primary())
        return t

    def parse(minp):
        nonlocal pos
        l = operand()
        while pos < len(toks) and PREC[toks[pos]] >= minp:
            op = toks[pos]
            pos += 1
            l = ('bin', op, l, parse(PREC[op] + 1))
        return l
    return parse(0)


def text(toks):
    out = []
    for t in toks:
        if isinstance(t, tuple):
            out.append(t[1] if t[0] == 'id' else '%d' % t[1])
        else:
            out.append(t)
    return ' '.join(out)


def chain_batch(ctx, r, seqs):
    decls, raw, calls = [], [], []
    vals = [2, 3, 5, 7, 11, 0, 1, -4, 6, 2.5, 9]
    for i, ops in enumerate(seqs):
        names = ['a', 'b', 'c', 'd', 'e'][:len(ops) + 1]
        toks = []
        for j, nme in enumerate(names):
            if j:
                toks.append(ops[j - 1])
            x = r.random()
            if x < 0.15:
                toks.append('-')
                if r.random() < 0.2:
                    toks.append('-')
            elif x < 0.3:
                toks.append('not')
                if r.random() < 0.3:
                    toks.append('-')
            toks.append(('id', nme) if r.random() < 0.6 else ('int', r.choice([0, 1, 2, 3, 4, 5])))
        e = group(toks)
        try:
            lang.fold(e)
            # any constant part may be folded too
            for sub in subs(e):
                lang.fold(sub)
        except ZeroDivisionError:
            continue
        f = 'f%d' % len(calls)
        d = S('func', f, names, [S('ret', e)])
        decls.append(d)
        raw.append('function %s(%s)\n  return %s\nend\n' % (f, ', '.join(names), text(toks)))
        d.line = 3 * len(calls) + 1
        d.c[0].line = d.line + 1
        calls.append((f, [r.choice(vals) for _ in names]))
    src = ''.join(raw)
    batch(ctx, decls, calls, key='wrong grouping', src=src)
    ctx.sample(raw[0] if raw else '')


def subs(e):
    if e[0] == 'bin':
        yield e
        yield from subs(e[2])
        yield from subs(e[3])
    elif e[0] in ('neg', 'not'):
        yield e
        yield from subs(e[1])


def do_chain2(ctx, a, b):
    r = ctx.rng()
    chain_batch(ctx, r, [[a, b]] * 12)


def do_chain3(ctx, a, k):
    r = ctx.rng()
    chain_batch(ctx, r, [[a, r.choice(OPS), r.choice(OPS)] + ([r.choice(OPS)] if r.random() < 0.4 else []) for _ in range(60)])


def do_random(ctx, k):
    """random trees; every subexpression may report itself, so order and
    number of evaluations are observed as well"""
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0.05, 0.2]), depth=r.choice([2, 3, 4, 5, 6]), ints=gen.INTS + ctx.mined, funcs=2, globals=3,
                  stmts=2, nest=1)
    g = gen.Gen(r, cfg)
    decls = g.program()
    calls = []
    g.scopes = []
    new = []
    for i in range(8):
        params = ['pa', 'pb', 'pc']
        ts = [r.choice('ifsax') for _ in params]
        g.scopes = [[gen.V(p, t) for p, t in zip(params, ts)]]
        e = g.expr('x', cfg.depth)
        new.append(S('func', 'zz%d' % i, params, [S('ret', e)]))
        I = lang.Interp(lang.Program([]))
        av = []
        for t in ts:
            l = g.lit(t if t != 'a' else 'i')
            while l[0] in ('id', 'arr'):
                l = g.lit('i')
            av.append(I.ev(l, None))
        calls.append(('zz%d' % i, av))
    g.scopes = []
    style = lang.Style.wild(r) if r.random() < 0.4 else lang.Style(r)
    decls = decls + new
    src = lang.Printer(style).program(decls)
    ctx.sample(src[-1500:])
    batch(ctx, decls, calls, src=src)


def do_fold(ctx, k):
    """constant subexpressions of all kinds inside larger ones"""
    r = ctx.rng()
    decls, calls = [], []
    ints = gen.INTS + ctx.mined

    def cexpr(d):
        if d <= 0 or r.random() < 0.15:
            x = r.random()
            v = r.choice(ints) if x < 0.6 else r.randrange(-9, 10)
            if x > 0.9:
                return ('id', 'a')
            if x > 0.87:
                return ('flt', r.choice(['0.5', '2.0', '1.25']))
            if v == -2147483648:
                v += 1
            return ('int', v) if v >= 0 else ('neg', ('int', -v))
        x = r.random()
        if x < 0.1:
            return ('neg', cexpr(d - 1))
        if x < 0.2:
            return ('not', cexpr(d - 1))
        return ('bin', r.choice(OPS), cexpr(d - 1), cexpr(d - 1))
    for i in range(24):
        e = cexpr(r.randrange(1, 6))
        try:
            for s in subs(e):
                lang.fold(s)
        except ZeroDivisionError:
            continue
        decls.append(S('func', 'f%d' % i, ['a'], [S('ret', e)]))
        calls.append(('f%d' % i, [r.choice([0, 1, 5, -3])]))
    style = lang.Style(r, paren=r.choice([0, 0.2]), spaces=r.choice([0, 0.3]))
    batch(ctx, decls, calls, src=lang.Printer(style).program(decls), key='wrong value of constant expression')


def do_globals(ctx, k):
    """constant expressions as initial values of globals and constants"""
    r = ctx.rng()
    ints = gen.INTS + ctx.mined + list(range(-9, 20)) + [1 << j for j in range(31)]
    decls, names = [], []

    def cexpr(d):
        if d <= 0 or r.random() < 0.1:
            if names and r.random() < 0.3:
                return ('id', r.choice(names))
            v = max(r.choice(ints), -2147483647)
            return ('int', v) if v >= 0 else ('neg', ('int', -v))
        x = r.random()
        if x < 0.1:
            return ('neg', cexpr(d - 1))
        if x < 0.2:
            return ('not', cexpr(d - 1))
        return ('bin', r.choice(OPS), cexpr(d - 1), cexpr(d - 1))
    G = []
    for i in range(30):
        e = cexpr(r.choice([1, 1, 2, 3]))
        if any(s[0] == 'bin' and s[1] in '/%' for s in subs(e)):
            # no division by anything but a plain number
            if not all(s[3][0] == 'int' and s[3][1] for s in subs(e) if s[0] == 'bin' and s[1] in '/%'):
                continue
        if r.random() < 0.25:
            if any(x[0] == 'id' for x in core.subexprs(e)) or e[0] not in ('bin', 'neg', 'not', 'int'):
                continue
            decls.append(S('const', 'K%d' % i, e))
            names.append('K%d' % i)
        else:
            decls.append(S('gvar', 'g%d' % i, e))
            G.append('g%d' % i)
            if r.random() < 0.3:
                names.append('g%d' % i)
    alln = names + G
    if not alln:
        ctx.skipped += 1
        return
    decls.append(S('func', 'all', [], [S('ret', ('arr', [('id', n) for n in alln]))]))
    batch(ctx, decls, [('all', [])], key='wrong initial value', src=lang.Printer(lang.Style(r, paren=r.choice([0, 0.2]), spaces=0.1)).program(decls))


def do_lex(ctx, k):
    r = ctx.rng()
    decls, calls = [], []
    for i in range(40):
        x = r.random()
        if x < 0.4:
            v = r.choice([r.randrange(0, 1 << r.randrange(1, 32)), r.choice(ctx.mined) & 0x7fffffff, 10 ** r.randrange(0, 10), 2147483647])
            v = min(v, 2147483647)
            e = ('int', v)
        elif x < 0.75:
            a = r.choice(['0', '1', '12', '%d' % r.getrandbits(31), '0%d' % r.randrange(9), '9' * r.randrange(1, 30)])
            b = ''.join(r.choice('0123456789') for _ in range(r.randrange(0, 30)))
            e = ('flt', a + '.' + b)
        else:
            n = r.choice([0, 1, 2, 3, r.randrange(300), r.choice(ctx.mined) & 0x7ff])
            e = ('str', bytes(r.choice([c for c in range(1, 256) if c not in (34, 10)]) for _ in range(n)))
        decls.append(S('func', 'f%d' % i, [], [S('ret', e)]))
        calls.append(('f%d' % i, []))
    batch(ctx, decls, calls, key='wrong value of literal')


def halfway(r):
    """the text of a number next to the middle between two neighbouring floats"""
    from fractions import Fraction
    import struct
    f = struct.unpack('<f', struct.pack('<I', r.randrange(0x38000000, 0x4e000000)))[0]
    g = struct.unpack('<f', struct.pack('<I', struct.unpack('<I', struct.pack('<f', f))[0] + 1))[0]
    m = (Fraction(f) + Fraction(g)) / 2
    d = 0
    while (m * 10 ** d).denominator != 1:
        d += 1
    d = max(d, 1)
    t = '%0*d' % (d + 1, (m * 10 ** d).numerator)
    t = t[:-d] + '.' + t[-d:]
    x = r.randrange(3)
    if x == 0:
        return t
    if x == 1:
        return t + '0' * r.randrange(4) + '1'
    # just below: the last digit of a midpoint is 5
    return t[:-1] + '4' + '9' * r.randrange(1, 5) if t[-1] == '5' else t


def do_digits(ctx, k):
    """numbers of any length, with leading zeros, beyond the range, next to rounding boundaries"""
    r = ctx.rng()
    L, steps = [], [('init',)]
    decls = []
    texts = []
    for i in range(30):
        x = r.randrange(4)
        if x == 0:
            t = halfway(r)
            e = ('flt', t)
        elif x == 1:
            t = '0' * r.randrange(1, 25) + '%d' % r.getrandbits(r.randrange(1, 31))
            e = ('int', int(t))
        elif x == 2:
            t = '0' * r.choice([0, 0, 1, 5, 12]) + ''.join(r.choice('0123456789') for _ in range(r.randrange(9, 24)))
            e = ('int', lang.i32(int(t)))
        else:
            t = '0' * r.randrange(20) + '%d' % r.getrandbits(r.randrange(1, 40)) + '.' + '0' * r.randrange(12) + '%d' % r.getrandbits(r.randrange(1, 60))
            e = ('flt', t)
        texts.append(t)
        decls.append(S('func', 'f%d' % i, [], [S('ret', e)]))
    src = ''.join('function f%d()\n  return %s\nend\n' % (i, t) for i, t in enumerate(texts))
    batch(ctx, decls, [('f%d' % i, []) for i in range(30)], src=src, key='wrong value of literal')


def do_twins(ctx, k):
    """pairs of strings that differ in a single place, or in length only"""
    r = ctx.rng()
    n = r.choice([1, 2, 4, 8, 16, 31, 32, 33, 63, 64, 65, 128, 200, 256, 257, 400, abs(r.choice(ctx.mined)) & 0x3ff])
    n = max(1, n)
    base = bytearray(r.choice(b'abcXYZ 09_#') for _ in range(n))
    out = [bytes(base)]
    for p in set([0, n // 2, n - 1, r.randrange(n), r.randrange(n), max(0, n - 2)]):
        t = bytearray(base)
        t[p] = r.choice([c for c in (t[p] ^ 32, t[p] ^ 1, 200, 9, t[p] | 128) if c not in (t[p], 34, 10, 0)])
        out.append(bytes(t))
    out += [bytes(base) + b'x', bytes(base)[:-1], bytes(base) + bytes(base), bytes(base)]
    r.shuffle(out)
    decls = [S('func', 'f%d' % i, [], [S('ret', ('str', t))]) for i, t in enumerate(out)]
    calls = [('f%d' % i, []) for i in range(len(out))]
    for i in range(8):
        a, b = r.choice(out), r.choice(out)
        decls.append(S('func', 'e%d' % i, ['x'], [S('ret', ('bin', '+', ('bin', '+', ('bin', '==', ('str', a), ('str', b)), ('str', a)),
                                                             ('bin', '==', ('id', 'x'), ('str', b))))]))
        calls.append(('e%d' % i, [r.choice(out)]))
    batch(ctx, decls, calls, key='wrong string')


def do_deep(ctx, k):
    """long chains and deep nesting, around sizes where an implementation may
    switch representation"""
    r = ctx.rng()
    n = [3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 400][(k * 5 + r.randrange(3)) % 19]
    shape = k % 4
    leaf = lambda: ('call', ('id', 'echo'), [('id', r.choice('ab'))]) if r.random() < 0.3 else ('id', r.choice('ab'))
    op = r.choice(['+', '-', '*'])
    if shape == 0:
        e = leaf()
        for _ in range(n):
            e = ('bin', r.choice('+-*'), e, leaf())
    elif shape == 1:
        e = leaf()
        for _ in range(n):
            e = ('bin', r.choice('+-*'), leaf(), e)
    elif shape == 2:
        e = leaf()
        for _ in range(n):
            e = r.choice([lambda: ('neg', e), lambda: ('not', e), lambda: ('bin', '+', ('int', 1), e)])()
    else:
        def tree(m):
            if m <= 1:
                return leaf()
            q = r.randrange(1, m)
            return ('bin', r.choice('+-*<'), tree(q), tree(m - q))
        e = tree(n)
    decls = [S('func', 'f', ['a', 'b'], [S('ret', e)])]
    batch(ctx, decls, [('f', [3, 5]), ('f', [-7, 2]), ('f', [2147483647, 0.5])])


def do_shape(ctx, name, n):
    shapes.run(ctx, name, n, key=': wrong value')


def do_huge(ctx, name, n):
    """programs beyond the range of 16 bit numbers"""
    shapes.run_huge(ctx, name, n, key=': wrong value')
