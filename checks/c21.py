"""C21 compilation depends only on the meaning of the text"""
import os
import core, gen, kit, lang, mutate, shapes
import c13
from lang import Style, Printer, KEYWORDS
import parse as PA
from parse import parse
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Each program is built again in the same process, in other processes and other builds of the tools, and saved: all dumps and files must be byte-identical. Each text is then rewritten by '
        'an independent tokeniser (spaces, tabs, carriage returns, blank lines, comments, keyword case, end of file, consistent renaming to hostile names) and by a printer that adds redundant '
        'parentheses; code, strings, calls and function extents must be equal, the line table must be that of the original carried through the known line mapping, and rejected texts stay rejected. '
        'The rewritten program must also behave as the reference interpreter says. Non-trivial: distinct rewritten text.')
CHUNK = 6
BUILDS = [('asan', 'probe'), ('plain', 'probe'), ('tsan', 'probe')]

BUILTIN = {'abs', 'min', 'max', 'bitand', 'sin', 'cos', 'tan', 'len', 'chr', 'round', 'ceil', 'floor', 'sqrt', 'new_thread', 'wait', 'new_array', 'emit', 'echo', 'opaque', 'two', 'hval', 'herr',
           'hhalt', 'here', 'gcheap', 'hcall', 'putc', 'getc', 'puts', 'gets', 'rand', 'print'}
TOOLS = (('putc', 1), ('getc', 0), ('puts', 1), ('gets', 0), ('rand', 0), ('print', 1))


def cases(ctx):
    n = 5 if ctx.quick else 40
    out = [('layout', k) for k in range(450 * n)]
    out += [('paren', k) for k in range(300 * n)]
    out += [('rename', k) for k in range(300 * n)]
    out += [('again', k) for k in range(100 * n)]
    out += [('corpus', k) for k in range(200 if ctx.quick else 1000)]
    out += [('invalid', k) for k in range(300 * n)]
    out += [('multi', k) for k in range(60 * n)]
    out += [('tail', k) for k in range(len(TAILS))]
    out += [('big', s, m) for s, m in shapes.cases(ctx, 8)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


# ---------------------------------------------------------------- rewriting
def toks(text):
    """tokens with their text; comments and spaces dropped; None when the text is not made of tokens"""
    out = []
    pos = 0
    while pos < len(text):
        m = PA.TOK.match(text, pos)
        if not m:
            return None
        pos = m.end()
        if m.lastgroup == 'ws' or m.lastgroup == 'comment':
            continue
        out.append((m.lastgroup, m.group()))
    return out


def glue(a, b):
    """may two tokens touch"""
    t = toks(a + b)
    return t is not None and [x[1] for x in t] == [a, b]


HOSTILE = ['end_', 'iff', 'ifx', 'nott', 'forr', 'tox', 'none1', 'functionx', 'var_', 'vars', 'consta', 'elses', 'ends', 'whiley', 'returns', 'importx', 'ands', 'orr', 'oR_', 'length', '_', '__', '_1', 'a',
           'A', 'aa', 'aA', 'AA', 'x1', 'x10', 'x', 'X', 'z' * 300, 'z' * 301, 'abs_', 'Abs', 'LEN', 'main_', 'Main', 'mainn', 'init', '_init', 'string', 'main1', 'int', 'i', 'I', 'l', 'O', 'o', 'e', 'E1', 'e1', 'f', 'F',
           'n', 's', 'emi', 'emitt', 'a_b', 'a__b', 'true', 'false', 'ccml', 'nano', 'this', 'self', 'null', 'new', 'newthread', 'wait_', 'q' * 64, 'q' * 63, 'Q9']


def new_names(ctx, r, names):
    pool = [h for h in HOSTILE + [s for s in ctx.mined_strings if s.isidentifier() and s.isascii()] if h not in BUILTIN and h.lower() not in KEYWORDS]
    pool = sorted(set(pool))
    out = {}
    used = set()
    for n in sorted(names):
        while True:
            x = r.choice(pool) if r.random() < 0.8 else ''.join(r.choice('abAB_019') for _ in range(r.choice([1, 2, 2, 3, 8, 40])))
            if not (x[0].isalpha() or x[0] == '_') or x.lower() in KEYWORDS or x in BUILTIN:
                continue
            if x in used:
                x += '_%d' % len(used)
                if x in used:
                    continue
            break
        used.add(x)
        out[n] = x
    return out


def names_of(tk):
    """user chosen names: no members, nothing of the host"""
    out = set()
    for i, (k, t) in enumerate(tk):
        if k == 'id' and t.lower() not in KEYWORDS and t not in BUILTIN and not (i and tk[i - 1][1] == '.'):
            out.add(t)
    return out


COMMENTS = ['#', '# c', '# "', '#"open', '# end', '#end', '# function f()', '#\t', '# # #', '#=', '# \x80\xff', '#\\', "# it's", '# )', '#x' * 40, '# if (1)', '#\r']


def rewrite(r, text, rename=None, wild=1.0):
    """another text with the same tokens; returns (text, line mapping)"""
    tk = toks(text)
    if tk is None:
        return None
    p = [r.random() * 0.8 * wild for _ in range(5)]
    cr = r.choice([0, 0, 0.5, 1]) * wild
    sp = lambda: r.choice([' ', '  ', '\t', ' \t', '\t\t ', '    ', ' \r' if cr and r.random() < 0.2 else ' '])
    out = []
    line, new = 1, 1
    mp = {}

    def filler():
        n = 0
        while r.random() < p[0] * 0.5:
            x = r.random()
            s = ''
            if x < 0.4:
                s = sp() if r.random() < 0.5 else ''
            else:
                s = (sp() if r.random() < 0.5 else '') + r.choice(COMMENTS)
            out.append(s + ('\r' if r.random() < cr else '') + '\n')
            n += 1
        return n
    new += filler()
    bol = True
    prev = None
    mp[1] = new
    for i, (k, t) in enumerate(tk):
        if k == 'nl':
            if r.random() < p[1] * 0.4:
                out.append((sp() if r.random() < 0.7 or (prev and not glue_comment(prev)) else '') + r.choice(COMMENTS))
            elif r.random() < p[2] * 0.3:
                out.append(sp())
            out.append(('\r' if r.random() < cr else '') + '\n')
            line += 1
            new += 1
            new += filler()
            mp[line] = new
            bol, prev = True, None
            continue
        if k == 'id':
            if t.lower() in KEYWORDS:
                if r.random() < p[3]:
                    t = ''.join(c.upper() if r.random() < 0.5 else c.lower() for c in t)
            elif rename and t in rename and not (i and tk[i - 1][1] == '.'):
                t = rename[t]
        if bol:
            out.append(r.choice(['', sp(), '  ', sp() + sp()]))
        elif not glue(prev, t):
            out.append(sp() if r.random() < p[4] else ' ')
        elif r.random() < p[4]:
            out.append(sp())
        out.append(t)
        bol, prev = False, t
    # the end of the file
    s = ''.join(out)
    x = r.random()
    if s.endswith('\n'):
        if x < 0.25 * wild and s.strip():
            s = s[:-1] if not s.endswith('\r\n') else s[:-2]
        elif x < 0.5 * wild:
            s += r.choice(COMMENTS) if r.random() < 0.6 else sp()
        elif x < 0.7 * wild:
            s += r.choice(['\n', '\n\n', ' \n', '# c\n', '\t\n\t', '\r\n'])
    elif x < 0.5 * wild:
        s += r.choice(['\n', ' ', ' # c', ' # c\n', '\n\n', '\t'])
    return s, mp


def glue_comment(prev):
    return True


# ---------------------------------------------------------------- comparing
def dump_of(part):
    d = {'code': None, 'func': [], 'str': [], 'sysc': [], 'lines': [], 'globs': []}
    for l in part:
        p = l.split(' ')
        if p[0] == 'code':
            d['code'] = l
        elif p[0] == 'func':
            d['func'].append(l)
        elif p[0] == 'str':
            d['str'].append(l)
        elif p[0] == 'sysc':
            d['sysc'].append(p[1])
        elif p[0] == 'lines':
            d['lines'] = [(int(x.split('=')[0]), tuple(map(int, x.split('=')[1].split(':')))) for x in p[1:]]
        elif p[0] == 'globs':
            d['globs'] = p[1:]
    return d


def named(d, back):
    """names carried back through the renaming"""
    def nm(h):
        if ':' in h:
            a, b = h.split(':')
            return nm(a) + ':' + b
        try:
            n = bytes.fromhex(h).decode('latin1')
        except ValueError:
            return h
        return back.get(n, n)
    f = []
    for l in d['func']:
        p = l.split(' ')
        f.append((p[2], p[3], nm(p[1]), tuple(x if x in ('args', 'locals') else nm(x) for x in p[4:])))
    return sorted(f, key=lambda x: int(x[0])), sorted((int(g.split(':')[1]), nm(g)) for g in d['globs'])


def build_cmd(slot, srcs, opt, tools=False):
    s = b'say #build%d\n' % slot
    for t in srcs:
        s += src_cmd(slot, t)
    s += b'comp %d %d %d %s\n' % (slot, slot, opt, b'b' if tools else b'bh')
    if tools:
        s += b''.join(b'sys %d %s %d\n' % (slot, a.encode(), n) for a, n in TOOLS)
    return s + b'build %d %d\nsay #dump%d\npdump %d\n' % (slot, slot, slot, slot)


def same_code(ctx, A, Bd, mps, back, bad):
    a, b = dump_of(A), dump_of(Bd)
    for k in ('code', 'str', 'sysc'):
        if a[k] != b[k]:
            bad('%s changes' % {'code': 'code', 'str': 'string table', 'sysc': 'system call table'}[k], got=str(b[k])[:1500], want=str(a[k])[:1500])
    fa, fb = named(a, {}), named(b, back or {})
    if fa[0] != fb[0]:
        bad('function table changes', got=str(fb[0])[:1500], want=str(fa[0])[:1500])
    if fa[1] != fb[1]:
        bad('global table changes', got=str(fb[1])[:1500], want=str(fa[1])[:1500])
    if mps is not None:
        want = [(pc, (f, mps[f].get(l, l) if 0 <= f < len(mps) else l)) for pc, (f, l) in a['lines']]
        if want != b['lines']:
            x = core.first_diff([str(t) for t in b['lines']], [str(t) for t in want])
            bad('line table is not that of the rewritten text', **x)
        ctx.count['lines carried over'] += len(want)
    else:
        if len(a['lines']) != len(b['lines']) or [x[0] for x in a['lines']] != [x[0] for x in b['lines']]:
            bad('line table covers other instructions')
    ctx.count['code bytes compared'] += len(a['code'] or '') // 2


def compare(ctx, what, srcs, news, opt, mps=None, rename=None, tools=False, steps=None):
    """both builds in one process; True when accepted"""
    s = build_cmd(0, srcs, opt, tools) + build_cmd(1, news, opt, tools) + b'say #end\n'
    P = c13.split(ctx.run(s))
    ctx.evals += 1
    back = {v: k for k, v in (rename or {}).items()}
    bad = lambda key, **kw: ctx.fail('%s: %s' % (what, key), original=srcs, rewritten=news, opt=opt, **kw)
    b0, b1 = ([l for l in P['build%d' % i] if l.startswith('build ')][0] for i in (0, 1))
    if (b0 == 'build ok') != (b1 == 'build ok'):
        bad('one text is accepted, the other not', got=b1, want=b0)
    ctx.seen(tuple(news))
    if b0 != 'build ok':
        ctx.count['rejected alike'] += 1
        if mps is not None and rename is None:
            # the same complaint, about the line that moved
            p, q = b0.split(' '), b1.split(' ')
            f, l = map(int, p[2].split(':'))
            if p[3:] == q[3:] and 0 <= f < len(mps) and l in mps[f] and mps[f][l] != int(q[2].split(':')[1]) and l < max(mps[f]):
                bad('complaint about another line', got=b1, want='%d:%d' % (f, mps[f][l]))
        return False
    same_code(ctx, P['dump0'], P['dump1'], mps, back, bad)
    return True


def behave(ctx, what, srcs, steps, opt):
    decls = [d for i, t in enumerate(srcs) for d in parse(t, i)]
    try:
        _, want, _ = core.expect(decls, steps, budget=20000)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    got = core.observe(ctx.run(core.script(srcs, opt, steps)))[0]
    x = core.first_diff(got, want)
    if x:
        ctx.fail('%s: behaves differently: %s instead of %s' % (what, core.kind_of(x['got']), core.kind_of(x['want'])), source=srcs, **x)
    ctx.count['events'] += len(got)


def program(ctx, r):
    cfg = gen.Cfg(err=r.choice([0, 0, 0.05]), nest=r.randrange(1, 4), stmts=r.randrange(1, 5), depth=r.randrange(1, 5), funcs=r.randrange(0, 5), globals=r.randrange(0, 5), here=r.choice([0, 0.1]))
    g, decls, src = kit.random_program(ctx, r, cfg, wild=False)
    opt = 0 if core.div_by_zero(decls) else r.randrange(2)
    return g, decls, src, opt


def mapped(steps, rename):
    """names of functions, also those given as values"""
    def val(v):
        if isinstance(v, lang.Fn):
            return lang.Fn(rename.get(v.name, v.name))
        return v
    return [(s[0], rename.get(s[1], s[1]), [val(v) for v in s[2]]) + tuple(s[3:]) if s[0] in ('run', 'call') else s for s in steps]


def do_layout(ctx, k):
    r = ctx.rng()
    g, decls, src, opt = program(ctx, r)
    for _ in range(2 if ctx.quick else 4):
        new, mp = rewrite(r, src)
        compare(ctx, 'layout', [src], [new], opt, [mp])
    behave(ctx, 'layout', [new], kit.random_steps(g, r), opt)
    ctx.sample(new[:300])


def do_paren(ctx, k):
    r = ctx.rng()
    g, decls, src, opt = program(ctx, r)
    st = Style(r, paren=r.random() * 0.6)
    new = Printer(st).program(decls)
    # one line per statement in both
    compare(ctx, 'parentheses', [src], [new], opt, [{i: i for i in range(1, src.count('\n') + 2)}])
    new = Printer(Style.wild(r)).program(decls)
    compare(ctx, 'layout and parentheses', [src], [new], opt)
    behave(ctx, 'parentheses', [new], kit.random_steps(g, r), opt)


def do_rename(ctx, k):
    r = ctx.rng()
    g, decls, src, opt = program(ctx, r)
    tk = toks(src)
    m = new_names(ctx, r, names_of(tk))
    if r.random() < 0.3:
        # only one name
        n = r.choice(sorted(m))
        if m[n] in m:
            return
        m = {n: m[n]}
    elif r.random() < 0.2:
        # swap what is there
        ns = sorted(m)
        sh = ns[:]
        r.shuffle(sh)
        m = dict(zip(ns, sh))
    new, mp = rewrite(r, src, m, wild=r.choice([0, 1]))
    if not compare(ctx, 'renaming', [src], [new], opt, [mp], m):
        ctx.fail('renaming: rejected', source=src)
    behave(ctx, 'renaming', [new], mapped(kit.random_steps(g, r), m), opt)


def do_again(ctx, k):
    """the same text gives the same bytes, everywhere"""
    r = ctx.rng()
    if k % 4 == 0:
        srcs, opt = [c13.SHAPES[(k // 4) % len(c13.SHAPES)]], k & 1
    else:
        g, decls, src, opt = program(ctx, r)
        srcs = [src]
        if k % 4 == 1:
            cut = r.randrange(1, len(decls) + 1)
            srcs = [Printer(Style(r)).program(x) for x in (decls[:cut], decls[cut:]) if x]
    d = ctx.tmp()
    res = []
    for v in ('asan', 'plain', 'tsan'):
        f = os.path.join(d, v + '.bin')
        g2 = os.path.join(d, v + '2.bin')
        s = build_cmd(0, srcs, opt) + b'say #s0\nsave 0 %s\n' % f.encode()
        # after something else, and with other objects around
        s += build_cmd(2, ['function other(a)\n  return emit("other", a)\nend\n'], 1)
        s += build_cmd(1, srcs, opt) + b'say #s1\nsave 1 %s\nsay #end\n' % g2.encode()
        P = c13.split(ctx.run(s, variant=v))
        if not any('build ok' in P['build%d' % i] for i in (0, 1)):
            ctx.fail('rejected', source=srcs, lines=P['build0'])
        for i, fn in ((0, f), (1, g2)):
            with open(fn, 'rb') as fd:
                res.append((v, i, P['dump%d' % i], fd.read()))
            os.unlink(fn)
    ctx.evals += 1
    for v, i, dm, b in res[1:]:
        if dm != res[0][2]:
            ctx.fail('another build of the same text gives another program', build=v, nth=i, source=srcs, **core.first_diff(dm, res[0][2]))
        if b != res[0][3]:
            ctx.fail('another build of the same text saves another file', build=v, nth=i, source=srcs)
    ctx.count['builds compared'] += len(res)
    ctx.seen(tuple(srcs))


def do_corpus(ctx, k):
    c = mutate.corpus()
    r = ctx.rng()
    t = c[k % len(c)]
    if 'import' in t.lower() or toks(t) is None:
        return
    tk = toks(t)
    m = new_names(ctx, r, names_of(tk)) if r.random() < 0.5 else None
    w = rewrite(r, t, m)
    compare(ctx, 'sample program', [t], [w[0]], k & 1, [w[1]], m, tools=True)
    d = c13.parse_ok(t)
    if d is not None:
        compare(ctx, 'sample program, parentheses', [t], [Printer(Style.wild(r)).program(d)], k & 1, None, None, tools=True)


def do_invalid(ctx, k):
    """texts that are wrong stay wrong"""
    r = ctx.rng()
    g, decls, src, opt = program(ctx, r)
    for _ in range(3):
        t = mutate.mutate_tokens(r, src) if r.random() < 0.8 else mutate.mutate_lines(r, src)
        w = rewrite(r, t) if 'import' not in t.lower() else None
        if w is None:
            continue
        compare(ctx, 'damaged program', [t], [w[0]], opt, [w[1]])


def do_multi(ctx, k):
    r = ctx.rng()
    g, decls, src, opt = program(ctx, r)
    n = r.randrange(2, 5)
    parts = [[] for _ in range(n)]
    for d, i in zip(decls, sorted(r.randrange(n) for _ in decls)):
        parts[i].append(d)
    srcs = [Printer(Style(r)).program(p) for p in parts if p]
    m = new_names(ctx, r, set().union(*(names_of(toks(t)) for t in srcs))) if r.random() < 0.5 else None
    W = [rewrite(r, t, m) for t in srcs]
    compare(ctx, 'several files', srcs, [w[0] for w in W], opt, [w[1] for w in W], m)
    behave(ctx, 'several files', [w[0] for w in W], mapped(kit.random_steps(g, r), m or {}), opt)


BASE = 'var g = 3\nfunction main(a)\n  if (a == g)\n    emit("eq", a)\n  else\n    emit("ne", a)\n  end\n  return [a, g]\nend'
TAILS = ['', '\n', '\r\n', '#', ' #', '\n#', '# x', '\n# x', '\n# x\n', '\n\n\n', ' ', '\t', '\n\t', '\n \n ', '\r', '\n\r', '#\r', '\n#\n#', '\n# "', '#"', '\n# end', '\n#end\n#', '\n' * 500, ' ' * 500, '\n#' + 'x' * 5000]


def do_tail(ctx, k):
    t = TAILS[k]
    one = {i: i for i in range(1, 60)}
    for b in (BASE, 'var g = 3', 'function main(a)\nend', 'const A = "x"', 'var g', 'var g = none', 'var q = 1.5'):
        for opt in (0, 1):
            compare(ctx, 'end of the file', [b + '\n'], [b + t], opt, [one])
            if '\n' in t or not t.strip().startswith('#'):
                # and at the start
                lead = t if t.endswith('\n') or not t.strip(' \t\r\n') else t + '\n'
                if toks(lead + b):
                    sh = lead.count('\n')
                    compare(ctx, 'start of the file', [b + '\n'], [lead + b + '\n'], opt, [{i: i + sh for i in range(1, 60)}])


def do_big(ctx, name, n):
    """large programs"""
    r = ctx.rng()
    src, steps = shapes.make(name, n, r, r.choice([False, True]))
    opt = r.randrange(2)
    new, mp = rewrite(r, src, wild=r.choice([0.1, 1]))
    compare(ctx, 'layout', [src], [new], opt, [mp])
    m = new_names(ctx, r, names_of(toks(src)))
    new, mp = rewrite(r, src, m, wild=0)
    if not compare(ctx, 'renaming', [src], [new], opt, [mp], m):
        ctx.fail('renaming: rejected', source=src)
    steps = [s for s in mapped(steps, m) if s[0] != 'globals']
    behave(ctx, 'renaming', [new], steps, opt)
