"""C15 lines, stepping, breakpoints and function tables against the execution of
the reference interpreter"""
import re
import core, gen, kit, lang, shapes
from lang import S, Style, Printer, canon
from parse import parse
from probe import src_cmd
from c13 import split

LEVEL = 'exploration'
RULE = ('The reference interpreter notes the line of every statement it executes, with calls and returns, and the host calls in between. Random programs (any layout, several files, loops, '
        'recursion, errors) are stepped by line, run with random sets of breakpoints, and driven by random commands that step, resume, add and remove breakpoints; every stop must be the next '
        'change of line (to a line with a breakpoint), with exactly the host calls in between. A host function reports the lines, functions and variables (at the positions the function table gives) of all active calls; every instruction but a jump has a line. Function tables, '
        'address maps and texts of lines are compared with the source. Non-trivial: distinct (program, stops).')
CHUNK = 4
ASSUME = ['stops at the line of a function head, of its end, and of a condition without variables are optional', 'a breakpoint on the line a thread starts at need not stop it there']


def cases(ctx):
    n = 4 if ctx.quick else 100
    out = [('steps', k) for k in range(600 * n)]
    out += [('breaks', k) for k in range(700 * n)]
    out += [('drive', k) for k in range(700 * n)]
    out += [('here', k) for k in range(500 * n)]
    out += [('vars', k) for k in range(300 * n)]
    out += [('tables', k) for k in range(300 * n)]
    out += [('texts', k) for k in range(60 * n)]
    out += [('initial', k) for k in range(100 * n)]
    out += [('shape', w, s, m) for w in ('steps', 'breaks', 'drive', 'here', 'vars', 'tables') for s, m in shapes.cases(ctx, 8, limit=300, skip=('blank',) if w not in ('steps', 'breaks') else ())]
    out += [('shape', w, s, m) for w in ('steps', 'breaks', 'here') for s, m in shapes.cases(ctx, 4, limit=520 if w == 'steps' else 1100, only=('recursion',))]
    out = [('huge', w) + c[1:] for w in ('steps', 'breaks', 'drive', 'here', 'tables') for c in shapes.huge_cases(ctx, 'late_lines', 'many_strs')] + out
    return out


def case(ctx, c):
    ctx.over = None
    globals()['do_' + c[0]](ctx, *c[1:])


def program(ctx, r, here=0.0, err=None):
    """(g, decls with lines, texts); one or several files"""
    if ctx.over:
        return None, ctx.over[0], ctx.over[1]
    cfg = gen.Cfg(err=r.choice([0, 0, 0.03]) if err is None else err, nest=r.randrange(1, 4), stmts=r.randrange(1, 6), depth=r.randrange(1, 4), funcs=r.randrange(1, 6),
                  globals=r.randrange(0, 5), here=here, maxloop=4)
    g = gen.Gen(r, cfg)
    decls = g.program()
    n = r.choice([1, 1, 1, 2, 3])
    at = sorted(r.randrange(n) for _ in decls)
    texts, out = [], []
    for i in range(n):
        p = [d for d, a in zip(decls, at) if a == i]
        if not p:
            continue
        t = Printer(Style.wild(r) if r.random() < 0.6 else Style(r)).program(p)
        if r.random() < 0.3:
            t = '\n' * r.randrange(1, 300) + t
        texts.append(t)
        out += parse(t, len(texts) - 1)
    return g, out, texts


def trace(decls, entry, args, budget=3000):
    """[('L', pos, optional) | ('E', text)], result line; None when too long"""
    I = lang.Interp(lang.Program(decls), budget=budget)
    try:
        if I.init()[0] != 'ok':
            return None
        I.events.trace = []
        if entry == '@init':
            I.g = [None] * len(I.g)
            r = I.init()
        else:
            r = I.call(entry, list(args))
    except lang.Budget:
        return None
    out = []
    for x in I.events.trace:
        if x[0] == 'L':
            out.append(x)
        else:
            e = x[1]
            if e[0] == 'E':
                out.append(('E', 'E %s %s' % (e[1], ' '.join(e[2]))))
            elif e[0] == 'H':
                out.append(('E', 'H %d %s' % (e[1], ' '.join('%d:%d' % y for y in e[2]))))
            else:
                out.append(('E', e[1]))
    if r[0] == 'ok':
        end = 'success'
        ret = lang.dump(r[1])
    else:
        end, ret = r[1], '%d:%d' % r[2]
    return out, end, ret


class Match:
    """which places of the expected trace the thread can be at"""

    def __init__(self, want, start):
        self.want = want
        self.st = {(0, start)}
        self.start = start
        self.fresh = True

    def close(self, brk):
        """moves that are not visible; brk: lines that stop, None for all"""
        todo = list(self.st)
        seen = set(todo)
        while todo:
            i, cur = todo.pop()
            if i >= len(self.want):
                continue
            w = self.want[i]
            nxt = []
            if w[0] == 'L':
                if w[1] == cur:
                    nxt.append((i + 1, cur))
                elif brk is not None and w[1] not in brk:
                    nxt.append((i + 1, w[1]))
                if w[2]:
                    nxt.append((i + 1, cur))
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def stop(self, pos, brk):
        if brk is not None and self.fresh and pos == self.start and pos in brk:
            # the line it starts at: may count as an arrival
            self.fresh = False
            return True
        self.fresh = False
        s = self.close(brk)
        self.st = {(i + 1, pos) for i, cur in s if i < len(self.want) and self.want[i][0] == 'L' and self.want[i][1] == pos and cur != pos}
        return bool(self.st)

    def event(self, text, brk):
        s = self.close(brk)
        self.st = {(i + 1, cur) for i, cur in s if i < len(self.want) and self.want[i] == ('E', text)}
        return bool(self.st)

    def end(self, brk):
        return any(i == len(self.want) for i, cur in self.close(brk))

    def next(self, brk):
        s = self.close(brk)
        return sorted({str(self.want[i][1]) if i < len(self.want) else 'end' for i, cur in s})[:8]


def pos(t):
    a, b = t.split(':')
    return int(a), int(b)


def event_text(l):
    return core.observe([l])[0][0]


def finish(ctx, m, l, brk, end, ret, kw):
    d = dict(x.split('=', 1) for x in l.split(' ')[1:] if '=' in x)
    if not m.end(brk):
        ctx.fail('thread ended where it should go on', line=l, expected=m.next(brk), **kw)
    if d['err'] != end or (end == 'success' and canon('x ' + d['ret']) != canon('x ' + ret)) or (end != 'success' and d['line'] != ret):
        ctx.fail('stepping changed the result', line=l, want=end + ' ' + ret, **kw)


def start(ctx, texts, opt, entry, args, more):
    s = b''.join(src_cmd(0, t) for t in texts)
    s += b'comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\n' % opt
    if entry != '@init':
        s += b'init 0\n'
    s += b'say #go\n' + ('spawn 0 100 %s%s\nwhere 0 100\n' % (entry, core.args_text(args))).encode('latin1') + more.encode()
    lines = ctx.run(s)
    return split(lines)['go']


def lines_of(decls):
    out = set()

    def walk(b):
        for s in b:
            out.add((s.file, s.line))
            for x in (s.b, s.c, s.d):
                if isinstance(x, list) and x and isinstance(x[0], S):
                    walk(x)
    for d in decls:
        out.add((d.file, d.line))
        if d.k == 'func':
            walk(d.c)
            out.add((d.file, d.d))
    return sorted(out)


def pick(ctx, r, entry=None):
    if ctx.over:
        d, t, st, b = ctx.over
        e, args = [s for s in st if s[0] in ('run', 'call')][0][1:]
        w = trace(d, e, args, b)
        return w and (d, t, e, args, w)
    for _ in range(20):
        g, decls, texts = program(ctx, r, here=r.choice([0, 0, 0.1]))
        e = entry or 'main'
        args = kit.value_args(g, r, g.margs) if e == 'main' else []
        w = trace(decls, e, args)
        if w and len(w[0]) > 3:
            return decls, texts, e, args, w
    return None


def follow(ctx, lines, m, brk, end, ret, kw, mark):
    """a run that stops by itself; mark: the letter of its stops"""
    n = 0
    for l in lines:
        c = l[:2]
        if c in ('E ', 'H '):
            if not m.event(event_text(l), brk):
                ctx.fail('host call at the wrong place', line=l, expected=m.next(brk), **kw)
        elif c == 'U ' and kw['entry'] != '@init' and l[2:] != kw['jump']:
            ctx.fail('instruction without a line', line=l, expected=m.next(brk), **kw)
        elif c == mark:
            n += 1
            if not m.stop(pos(l[2:].split(' ')[0]), brk):
                ctx.fail('stop at the wrong line', line=l, expected=m.next(brk), number=n, **kw)
        elif l.startswith('run '):
            finish(ctx, m, l, brk, end, ret, kw)
            return n
    ctx.fail('no end', lines=lines[-3:], **kw)


def do_steps(ctx, k, entry=None):
    r = ctx.rng()
    p = pick(ctx, r, entry)
    if not p:
        ctx.skipped += 1
        return
    decls, texts, e, args, (want, end, ret) = p
    for opt in (0, 1):
        if opt and core.div_by_zero(decls):
            continue
        mode = r.choice(['line', 'trace'])
        go = start(ctx, texts, opt, e, args, 'opcodes\nrun 0 100 %s 300000\n' % mode)
        kw = dict(source='\n=====\n'.join(texts)[:6000], opt=opt, mode=mode, entry=e, jump=[y[4:] for x in go if x.startswith('opcodes') for y in x.split(' ') if y.startswith('JMP=')][0])
        w = [l for l in go if l.startswith('where ')][0].split(' ')[1]
        m = Match(want, pos(w))
        n = follow(ctx, go, m, None, end, ret, kw, 'L ')
        ctx.evals += 1
        ctx.count['line stops'] += n
        ctx.seen(texts, opt, n)
        ctx.sample('%d stops: %s' % (n, texts[0][:200]))


def do_initial(ctx, k):
    do_steps(ctx, k, '@init')


def do_breaks(ctx, k):
    r = ctx.rng()
    p = pick(ctx, r)
    if not p:
        ctx.skipped += 1
        return
    decls, texts, e, args, (want, end, ret) = p
    L = lines_of(decls)
    for opt in (0, 1):
        if opt and core.div_by_zero(decls):
            continue
        x = r.random()
        if x < 0.3:
            brk = {r.choice(L)}
        elif x < 0.7:
            brk = {l for l in L if r.random() < 0.3}
        elif x < 0.8:
            brk = set(L)
        else:
            brk = {l for l in L if r.random() < 0.1}
        odd = [(f, n + d) for f, n in brk for d in (-1, 1, 1000)] + [(f + 1, n) for f, n in brk] + [(-1, 5), (0, 0)]
        brk |= {l for l in odd if r.random() < 0.15}
        cmd = ''.join('bp 0 100 add %d %d\n' % b for b in sorted(brk))
        if r.random() < 0.3 and brk:
            # one that is taken back
            b = r.choice(sorted(brk))
            cmd += 'bp 0 100 rem %d %d\n' % b
            brk.discard(b)
        go = start(ctx, texts, opt, e, args, cmd + 'run 0 100 bp 3000000\n')
        kw = dict(source='\n=====\n'.join(texts)[:6000], opt=opt, breakpoints=sorted(brk))
        w = [l for l in go if l.startswith('where ')][0].split(' ')[1]
        m = Match(want, pos(w))
        n = follow(ctx, go, m, brk, end, ret, kw, 'B ')
        ctx.evals += 1
        in_slices(ctx, r, go, start, (ctx, texts, opt, e, args), cmd, kw)
        ctx.count['breakpoint stops'] += n
        ctx.seen(texts, opt, sorted(brk))
        ctx.sample('%d stops at %r' % (n, sorted(brk)[:5]))


def in_slices(ctx, r, go, start, a, cmd, kw):
    """the same breakpoints while the thread runs in slices: every slice ends at
    the next breakpoint or when it is used up"""
    stops = [int(l.split(' ')[2]) for l in go if l.startswith('B ')]
    end = [l for l in go if l.startswith('run ')][0]
    cyc = int([x for x in end.split(' ') if x.startswith('cyc=')][0][4:])
    if cyc > 60000:
        return
    big = max(2, cyc // 100)
    sizes = r.choice([[1], [1, 2], [3], [7, 1, 2], [r.randrange(1, 30) for _ in range(5)], [big], [big, 1]])
    if cyc * len(sizes) // sum(sizes) > 600:
        sizes = [big, big + 1, 1]
    out = start(*a, cmd + 'run 0 100 bps 3000000 %s\n' % ' '.join(map(str, sizes)))
    ends = {int(l.split(' ')[2]) for l in out if l[:2] in ('b ', 'B ')}
    short = {int(l.split(' ')[2]) for l in out if l[:2] == 'B '}
    ctx.evals += 1
    ctx.count['slices with breakpoints'] += len(ends)
    if set(stops) - ends:
        ctx.fail('breakpoint missed in slices', cycles=sorted(set(stops) - ends)[:5], sizes=sizes, **kw)
    if short - set(stops):
        ctx.fail('slice ends early at no breakpoint', cycles=sorted(short - set(stops))[:5], sizes=sizes, **kw)
    a = [l for l in go if l[:2] in ('E ', 'H ')]
    b = [l for l in out if l[:2] in ('E ', 'H ')]
    if a != b or not [l for l in out if l.startswith('run ')]:
        ctx.fail('breakpoints and slices change the run', sizes=sizes, **core.first_diff(b, a) or {}, **kw)


def do_drive(ctx, k):
    """commands in any order"""
    r = ctx.rng()
    p = pick(ctx, r)
    if not p:
        ctx.skipped += 1
        return
    decls, texts, e, args, (want, end, ret) = p
    L = lines_of(decls)
    opt = 0 if core.div_by_zero(decls) else r.randrange(2)
    cmds = []
    for _ in range(r.randrange(3, 60)):
        x = r.random()
        if x < 0.25:
            cmds.append(('add', r.choice(L)))
        elif x < 0.4:
            cmds.append(('rem', r.choice(L)))
        elif x < 0.44:
            cmds.append(('clear', (0, 0)))
        elif x < 0.7:
            cmds.append(('line',))
        else:
            cmds.append(('go',))
    cmds += [('clear', (0, 0)), ('go',)]
    t = ''
    for i, c in enumerate(cmds):
        if c[0] in ('add', 'rem', 'clear'):
            t += 'bp 0 100 %s %d %d\n' % (c[0], *c[1])
        elif c[0] == 'line':
            t += 'say @%d\nslice 0 100 l\n' % i
        else:
            t += 'say @%d\nslice 0 100 3000000\n' % i
    go = start(ctx, texts, opt, e, args, t)
    kw = dict(source='\n=====\n'.join(texts)[:6000], opt=opt, commands=cmds)
    w = [l for l in go if l.startswith('where ')][0].split(' ')[1]
    m = Match(want, pos(w))
    brk = set()
    done = False
    # breakpoints in force at every command
    state = []
    for c in cmds:
        if c[0] == 'add':
            brk = brk | {c[1]}
        elif c[0] == 'rem':
            brk = brk - {c[1]}
        elif c[0] == 'clear':
            brk = set()
        state.append(None if c[0] == 'line' else brk)
    i = None
    stops = []
    for l in go:
        c = l[:2]
        if '@' in l[:5]:
            i = int(l.split('@')[1])
        elif c in ('E ', 'H '):
            if not m.event(event_text(l), state[i]):
                ctx.fail('host call at the wrong place', line=l, command=i, expected=m.next(state[i]), **kw)
        elif l.startswith('slice '):
            d = dict(x.split('=', 1) for x in l.split(' ')[1:] if '=' in x)
            if done:
                if d['was'] != '1' or d['used'] != '0':
                    ctx.fail('finished thread runs', line=l, **kw)
                continue
            if d['fin'] == '1':
                finish(ctx, m, l, state[i], end, ret, kw)
                done = True
            elif not m.stop(pos(d['line']), state[i]):
                ctx.fail('stop at the wrong line', line=l, command=i, expected=m.next(state[i]), **kw)
            else:
                stops.append(d['line'])
    if not done:
        ctx.fail('thread does not end', **kw)
    ctx.evals += 1
    ctx.count['driven stops'] += len(stops)
    ctx.seen(texts, opt, stops)
    ctx.sample('driven: ' + ' '.join(stops)[:200])


def do_here(ctx, k):
    """the lines and names of every active call"""
    r = ctx.rng()
    g, decls, texts = program(ctx, r, here=0.3, err=0)
    steps = kit.random_steps(g, r) if g else ctx.over[2]
    try:
        I, want, keys = core.expect(decls, steps, budget=20000 if g else ctx.over[3])
    except lang.Budget:
        ctx.skipped += 1
        return
    if any(l.startswith('init 0') for l in want):
        ctx.skipped += 1
        return
    W = []
    for e in I.events:
        if e[0] == 'H':
            W.append('H %d %s | %s | %s' % (e[1], ' '.join('%d:%d' % x for x in e[2]), ' '.join(reversed(e[3])), e[3][-1]))
    for opt in (0, 1):
        if opt and core.div_by_zero(decls):
            continue
        for mode in (None, r.choice(['inst 3000000', 'mixline 3000000 %d' % r.randrange(999), 'slices 3000000 3 1 7'])):
            lines = ctx.run(core.script(texts, opt, steps, mode=mode))
            got = [l.split(' ', 2) for l in lines if l.startswith('H ')]
            got = ['H ' + x[2] for x in got]
            ctx.evals += 1
            d = core.first_diff(got, W)
            if d:
                ctx.fail('lines or functions of the active calls', source='\n=====\n'.join(texts)[:6000], opt=opt, **d)
            ctx.count['active calls looked at'] += len(W)
            ctx.seen(texts, opt, tuple(got))
            ctx.sample(got[0] if got else '')


def do_vars(ctx, k):
    """the variables of every active call, found by the positions in the
    function table"""
    r = ctx.rng()
    g, decls, texts = program(ctx, r, here=0.3, err=0)
    texts = [re.sub(r'\bhere\b', 'hvars', t) for t in texts]
    decls = [d for i, t in enumerate(texts) for d in parse(t, i)]
    if g:
        entry, args = 'main', kit.value_args(g, r, g.margs)
    else:
        entry, args = [s for s in ctx.over[2] if s[0] in ('run', 'call')][0][1:]
    I = lang.Interp(lang.Program(decls), budget=3000 if g else ctx.over[3])
    try:
        if I.init()[0] != 'ok':
            raise lang.Budget()
        n = len(I.events)
        I.call(entry, list(args))
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    want = [e for e in I.events[n:] if e[0] == 'V']
    for opt in (0, 1):
        if opt and core.div_by_zero(decls):
            continue
        kw = dict(source='\n=====\n'.join(texts)[:6000], opt=opt)
        got = [l for l in start(ctx, texts, opt, entry, args, 'run 0 100 %s\n' % r.choice(['inst 3000000', 'go 3000000', 'qline 3000000'])) if l.startswith('V ')]
        if len(got) != len(want):
            ctx.fail('host calls', got=got[-1:], want=want[-1:], **kw)
        for l, w in zip(got, want):
            p = l.split(' |')
            fr = [x.split(' ') for x in p[1:]]
            if [f[0] for f in fr] != [f for f, _ in w[2]] or p[0].split(' ')[2] != str(w[1]):
                ctx.fail('functions of the active calls', got=l, want=w, **kw)
            for f, (name, env) in zip(fr, w[2]):
                have = {}
                for x in f[1:]:
                    a, b = x.split('=', 1)
                    have.setdefault(a, []).append(canon('x ' + b))
                for v, x in env.items():
                    ctx.count['variables looked at'] += 1
                    if v not in have:
                        if not opt:
                            ctx.fail('variable is not in the function table', function=name, variable=v, got=l, **kw)
                    elif canon('x ' + x) not in have[v]:
                        ctx.fail('variable is not at its position in the function table', function=name, variable=v, got=have[v], want=x, event=l[:500], **kw)
        ctx.evals += 1
        ctx.seen(texts, opt, tuple(got))
        ctx.sample(got[0][:300] if got else '')


def do_tables(ctx, k):
    r = ctx.rng()
    g, decls, texts = program(ctx, r)
    funcs = {}
    for d in decls:
        if d.k == 'func':
            loc = []

            def walk(b):
                for s in b:
                    if s.k == 'var':
                        loc.append(s.a)
                    for x in (s.b, s.c, s.d):
                        if isinstance(x, list) and x and isinstance(x[0], S):
                            walk(x)
            walk(d.c)
            funcs[d.a] = (list(d.b), loc)
    for opt in (0, 1):
        s = b''.join(src_cmd(0, t) for t in texts) + b'comp 0 0 %d bh\nbuild 0 0\nsay #d\npdump 0\nsay #m\npcmap 0\n' % opt
        s += b''.join(b'say #f%d\nffind 0 %s\n' % (i, f.encode()) for i, f in enumerate(funcs)) + b'say #n\nffind 0 no_such_function\n'
        P = split(ctx.run(s))
        if opt and core.div_by_zero(decls) and not P['d']:
            continue
        kw = dict(source='\n=====\n'.join(texts)[:6000], opt=opt)
        got = {}
        size = 0
        for l in P['d']:
            p = l.split(' ')
            if p[0] == 'code':
                size = len(p[1]) // 2 if len(p) > 1 else 0
            elif p[0] == 'func':
                name = bytes.fromhex(p[1]).decode('latin1')
                i, j = p.index('args'), p.index('locals')
                nm = lambda q: [bytes.fromhex(x.split(':')[0]).decode('latin1') for x in q]
                if name in got:
                    ctx.fail('function listed twice', name=name, **kw)
                got[name] = (int(p[2]), int(p[3]), nm(p[i + 1:j]), nm(p[j + 1:]))
        if set(got) != set(funcs) | {'@init'}:
            ctx.fail('function table names other functions', got=sorted(got), want=sorted(funcs), **kw)
        for n, (a, loc) in funcs.items():
            if got[n][2] != a:
                ctx.fail('parameters in the function table', function=n, got=got[n][2], want=a, **kw)
            if opt == 0 and sorted(got[n][3]) != sorted(loc) or not set(got[n][3]) <= set(loc):
                ctx.fail('locals in the function table', function=n, got=got[n][3], want=loc, **kw)
        # every address
        want = ['-'] * size
        for n, (a, b, _, _) in got.items():
            for x in range(a, b):
                if want[x] != '-':
                    ctx.fail('functions overlap', **kw)
                want[x] = n.encode('latin1').hex()
        m = ['-'] * size
        for x in P['m'][0].split(' ')[1:]:
            rg, n = x.split('=')
            a, b = rg.split('..')
            for q in range(int(a), min(int(b), size)):
                m[q] = n
        if m != want or '-' in m:
            ctx.fail('address mapped to another function', got=P['m'][0], want={n: v[:2] for n, v in got.items()}, **kw)
        for i, f in enumerate(funcs):
            if P['f%d' % i] != ['ffind ' + f]:
                ctx.fail('function not found by name', got=P['f%d' % i], **kw)
        if P['n'] != ['ffind -']:
            ctx.fail('unknown function found', got=P['n'], **kw)
        ctx.evals += 1
        ctx.seen(texts, opt)
        ctx.count['functions looked up'] += len(got)
    ctx.sample(texts[0][:300])


def do_texts(ctx, k):
    """the text of a line"""
    r = ctx.rng()
    T = []
    for _ in range(r.randrange(1, 4)):
        T.append('\n'.join(''.join(r.choice('ab #"\t=') for _ in range(r.choice([0, 0, 1, 5, 30, 300]))) for _ in range(r.randrange(1, 12))) + r.choice(['', '\n', '\n\n']))
    T = [t or 'x' for t in T]
    s = b''.join(src_cmd(0, t) for t in T)
    want = []
    for f, t in enumerate(T):
        L = t.split('\n')
        if t.endswith('\n'):
            L.pop()
        for i, x in enumerate(L):
            s += b'srcline 0 %d %d\n' % (f, i + 1)
            want.append(x)
        # there are no lines past the last
        for i in (len(L) + 2, len(L) + 3, len(L) + r.randrange(2, 4000)):
            s += b'srcline 0 %d %d\n' % (f, i)
            want.append('')
    got = [bytes.fromhex(l.split(' ')[1]).decode('latin1') if ' ' in l.strip() else '' for l in ctx.run(s) if l.startswith('srcline')]
    ctx.evals += len(want)
    if [x.rstrip('\r\n') for x in got] != want:
        x = core.first_diff([x.rstrip('\r\n') for x in got], want)
        ctx.fail('text of a line', texts=T, **x)
    ctx.seen(tuple(T))


def do_shape(ctx, what, name, n):
    """large programs: the same questions"""
    r = ctx.rng()
    src, steps = shapes.make(name, n, r, what if what == 'here' else 'hvars' if what == 'vars' else r.choice([False, True]))
    if what == 'steps' and len(src) > 400000:
        return
    ctx.over = (parse(src), [src], steps, 60000)
    globals()['do_' + what](ctx, 0)
    ctx.count['shapes_run'] += 1


def do_huge(ctx, what, name, n):
    """positions beyond the range of 16 bit numbers"""
    r = ctx.rng()
    src, steps = shapes.make_huge(ctx, name, n, r, what if what == 'here' else r.choice([False, True]))
    ctx.over = (parse(src), [src], steps, 6000000)
    globals()['do_' + what](ctx, 0)
    ctx.count['huge_run'] += 1
