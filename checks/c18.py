"""C18 programs in several files"""
import os
import lang, core, gen, kit, shapes
from lang import S, Printer, Style
from parse import parse
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Random programs are spread over 1..12 (at times 150) files in a directory tree, connected by random import graphs (chains, diamonds, cycles, self imports, '
        'repeats, any spelling of relative paths) or loaded one by one as files or texts. Loaded set and order, table of functions, behaviour, and file and line of every '
        'reported position are compared with the reference interpreter running the concatenation. Missing, empty and unreadable targets and errors planted in one file '
        'must be reported at exactly that place. Non-trivial: distinct (graph, log).')
CHUNK = 4
ASSUME = ['all loads of a case use the same starting point (absolute, or relative to the working directory), so that equal files have equal normalised paths; no symbolic links']


def opn(path, *a, **k):
    # file names are bytes
    return open(path.encode('latin1'), *a, **k)


def cases(ctx):
    n = 24 if ctx.quick else 60
    out = [('graph', k) for k in range(250 * n)]
    out += [('shape', k) for k in range(len(SHAPES) * 3)]
    out += [('missing', k) for k in range(60 * n)]
    out += [('text', k) for k in range(40 * n)]
    out += [('planted', k) for k in range(60 * n)]
    out += [('loads', k) for k in range(40 * n)]
    out += [('loadfail', k) for k in range(8)]
    out += [('again', k) for k in range(30 * n)]
    out += [('above', k) for k in range(20 * n)]
    out += [('many', k) for k in kit.thin(ctx, 300, 25)]
    out += [('chain', k) for k in range(4)]
    out += [('big', s, m) for s, m in shapes.cases(ctx, 12, limit=400)]
    out += [('dirs', k, s) for k in list(range(1, 30)) + [40, 60, 100] for s in range(3)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


NAMES = ['main.nano', 'a.ccml', 'lib.txt', 'B', 'x.y.z', 'with space.nano', 'unknown', 'n#1.nano', 'A', 'aa', 'a', 'b.inc', '-dash', '@init', 'end.nano', 'caf\xe9', 'verylong' * 12,
         'a~', 'a.', '...', '..a', 'a..', '.a', '....', 'aa.', 'A~', 'lib.txt~', 'main.nano.', 'a b', 'a,b', 'lib.txt.nano', 'main', 'nano']
DIRS = ['', 'sub', 'sub/deep', 'other', 'sub/sub', 'o ther', 'sub2', 'a.d', '....d', '..d', 'sub.', '.sub', 'sub/...']


class Tree:
    """files with declarations and imports, written to a scratch directory"""

    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.root = ctx.tmp()
        self.files = []       # dir, name, decls (with import nodes)
        self.texts = []
        self.wild = r.random() < 0.4
        self.dirs = DIRS
        self.cd = None

    def add(self, n):
        used = set()
        for i in range(n):
            while True:
                d, f = self.r.choice(DIRS), self.r.choice(NAMES)
                if n > 12:
                    d, f = self.r.choice(DIRS), 'f%d' % i
                p = os.path.join(d, f)
                # a name must not be a file and a directory
                if p not in used and p not in DIRS and not any(q.startswith(p + '/') for q in used):
                    break
            used.add(p)
            self.files.append([d, f, []])

    def spell(self, i, j):
        """a way to write the path of file j in file i"""
        r = self.r
        d, (e, f, _) = self.files[i][0], self.files[j]
        rel = os.path.relpath(os.path.join('/R', e, f), os.path.join('/R', d))
        if not r.random() < 0.5:
            parts = rel.split('/')
            out = []
            cur = os.path.normpath(os.path.join('/R', d))
            for p in parts:
                x = r.random()
                if x < 0.15:
                    out.append('.')
                elif x < 0.25 and cur == '/R' and self.dirs is DIRS:
                    out += [r.choice(['sub', 'other', 'sub2']), '..']
                elif x < 0.3:
                    out.append('')
                out.append(p)
                cur = os.path.normpath(os.path.join(cur, p))
            if out[0] == '':
                out = out[1:]
            rel = '/'.join(out)
        return rel

    def link(self, i, j, first=False):
        s = S('import', self.spell(i, j))
        s.d = j
        k = 0 if first else self.r.randrange(len(self.files[i][2]) + 1)
        self.files[i][2].insert(k, s)

    def order(self, starts):
        """files in the order they are loaded"""
        out = list(dict.fromkeys(starts))
        k = 0
        while k < len(out):
            for s in self.files[out[k]][2]:
                if s.k == 'import' and s.d is not None and s.d not in out:
                    out.append(s.d)
            k += 1
        return out

    def write(self, order):
        for d in self.dirs:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for i, (d, f, decls) in enumerate(self.files):
            st = Style.wild(self.r) if self.wild else Style(self.r)
            num = order.index(i) if i in order else 99
            t = Printer(st).program(decls, num)
            if not decls:
                t = '# nothing\n'
            with opn(os.path.join(self.root, d, f), 'w', encoding='latin1', newline='') as fd:
                fd.write(t)

    def path(self, i, how):
        d, f, _ = self.files[i]
        p = os.path.join(self.root, d, f)
        if how == 'abs':
            return p
        q = os.path.relpath(p, self.cd or self.ctx.scratch)
        return q if how == 'rel' else './' + q

    def decls(self, order):
        return [s for i in order for s in self.files[i][2] if s.k != 'import']

    def source(self, order):
        out = ''
        for i in order:
            d, f, _ = self.files[i]
            with opn(os.path.join(self.root, d, f), encoding='latin1', newline='') as fd:
                out += '#### %s/%s\n%s' % (d, f, fd.read())
        return out


def spread(r, T, decls, order):
    """give every declaration to a file; constants and globals stay in order along the loading order"""
    n = len(order)
    for kind in (('const',), ('gvar',), ('func',)):
        ds = [d for d in decls if d.k in kind]
        at = [r.randrange(n) for _ in ds]
        if kind != ('func',):
            at.sort()
        for d, i in zip(ds, at):
            T.files[order[i]][2].append(d)
    for f in T.files:
        if r.random() < 0.3:
            # functions in front
            f[2].sort(key=lambda d: d.k != 'func')


def run_tree(ctx, T, starts, steps, how, opt, pre='', hv=None):
    t = 'cd %s\n' % T.cd if T.cd else ''
    for i in starts:
        t += 'srcfile 0 %s\n' % T.path(i, how)
    t += 'comp 0 0 %d bh\nbuild 0 0\nsrclist 0\nbind 0 bh\nvm 0 0\n%s' % (opt, pre)
    t += core.steps_text(steps) + 'pdump 0\n'
    if T.cd:
        t += 'cd %s\n' % ctx.scratch
    return ctx.run(t.encode('latin1'))


def names_of(lines):
    p = [l for l in lines if l.startswith('srclist')]
    return [bytes.fromhex(x).decode('latin1') for x in p[0].split(' ')[1:]] if p else []


def judge(ctx, T, order, lines, want, src):
    if [l for l in lines if l.startswith('src ') and not l.startswith('src ok')]:
        ctx.fail('a file did not load', got=lines[:3], source=src)
    got = core.observe(lines)[0]
    d = core.first_diff(got, want)
    if d:
        ctx.fail('several files: %s instead of %s' % (core.kind_of(d['got']), core.kind_of(d['want'])), source=src, **d)
    files = [os.path.normpath(os.path.join(T.cd or ctx.scratch, x)) for x in names_of(lines)]
    if files != [os.path.normpath(T.path(i, 'abs')) for i in order]:
        ctx.fail('wrong set of files', got=files, want=[T.path(i, 'abs') for i in order], source=src)
    fn = [bytes.fromhex(l.split(' ')[1]).decode('latin1') for l in lines if l.startswith('func ')]
    wfn = [d.a for d in T.decls(order) if d.k == 'func']
    if sorted(x for x in fn if x != '@init') != sorted(wfn):
        ctx.fail('functions missing or doubled', got=fn, want=wfn, source=src)


def go(ctx, r, T, starts, decls, steps, how=None, budget=20000):
    order = T.order(starts)
    spread(r, T, decls, order)
    T.write(order)
    src = T.source(order)
    full = T.decls(order)
    try:
        if core.div_by_zero(full):
            raise lang.Budget()
        I, want, _ = core.expect(full, steps, budget=budget)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return None
    how = how or r.choice(['abs', 'rel', 'dot'])
    for o in (0, 1):
        lines = run_tree(ctx, T, starts, steps, how, o)
        judge(ctx, T, order, lines, want, src)
        ctx.evals += 1
        ctx.count['files_compiled'] += len(order)
    ctx.seen(order, want)
    return src


def program(ctx, r):
    cfg = gen.Cfg(err=r.choice([0, 0.03, 0.15]), nest=2, stmts=4, depth=2, funcs=r.choice([2, 4, 7]), globals=4, consts=3, emit=0.4, here=0.1)
    g = gen.Gen(r, cfg)
    decls = g.program()
    return g, decls


def do_graph(ctx, k):
    r = ctx.rng()
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12])
    T.add(n)
    how = None
    if k % 4 == 0:
        # by bare names, from the working directory
        T.root = ctx.scratch
        if not any(f[0] == '' and f[1] == T.files[0][1] for f in T.files):
            T.files[0][0] = ''
        how = 'rel'
    # reachable, then more edges of any direction
    for j in range(1, n):
        T.link(r.randrange(j), j)
    for _ in range(r.randrange(0, n + 2)):
        T.link(r.randrange(n), r.randrange(n))
    starts = [0]
    if r.random() < 0.2:
        starts.append(r.randrange(n))
    src = go(ctx, r, T, starts, decls, kit.random_steps(g, r, 3), how)
    if src:
        ctx.sample(src[:1200])


SHAPES = [('self', [(0, 0)]), ('mutual', [(0, 1), (1, 0)]), ('diamond', [(0, 1), (0, 2), (1, 3), (2, 3)]), ('repeat', [(0, 1), (0, 1), (0, 1)]), ('ring', [(0, 1), (1, 2), (2, 3), (3, 0)]),
          ('star', [(0, j) for j in range(1, 9)]), ('complete', [(i, j) for i in range(4) for j in range(4)]), ('late', [(0, 1), (1, 2), (2, 1), (2, 3), (0, 3)]), ('two roots', [(0, 2), (1, 2), (2, 3)])]


def do_shape(ctx, k):
    r = ctx.rng()
    name, edges = SHAPES[k % len(SHAPES)]
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    T.add(max(max(e) for e in edges) + 1)
    for i, j in edges:
        T.link(i, j)
    go(ctx, r, T, [0, 1] if name == 'two roots' else [0], decls, kit.random_steps(g, r, 2), ['abs', 'rel', 'dot'][k // len(SHAPES)])


def do_chain(ctx, k):
    """many files"""
    r = ctx.rng()
    n = [40, 150, 150, 60][k]
    T = Tree(ctx, r)
    T.wild = False
    T.add(n)
    decls = [S('gvar', 'total', ('int', 0))]
    for i in range(n):
        body = [S('call', ('call', ('id', 'here'), [('int', i)])), S('set', 'total', ('bin', '+', ('id', 'total'), ('int', i)))]
        if i + 1 < n:
            body.append(S('ret', ('call', ('id', 'f%d' % (i + 1)), [])))
        decls.append(S('func', 'f%d' % i, [], body))
    for j in range(1, n):
        T.link(j - 1 if k % 2 == 0 else 0 if k == 1 else r.randrange(j), j)
    go(ctx, r, T, [0], decls, [('init',), ('run', 'f0', []), ('globals',)], 'abs')


def do_missing(ctx, k):
    """a target that cannot be had: reported at the import"""
    r = ctx.rng()
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    n = r.choice([1, 2, 3, 4])
    T.add(n)
    for j in range(1, n):
        T.link(r.randrange(j), j)
    order = T.order([0])
    spread(r, T, decls, order)
    at = r.choice(order)
    kind = r.choice(['missing', 'empty', 'directory', 'wrong dir', 'nothing', 'through a file'])
    target = {'missing': 'nosuch.nano', 'empty': 'empty.nano', 'directory': 'adir', 'wrong dir': 'nodir/main.nano', 'nothing': '', 'through a file': 'empty.nano/x'}[kind]
    bad = S('import', target)
    L = T.files[at][2]
    pos = r.randrange(len(L) + 1)
    L.insert(pos, bad)
    # imports that follow in the same file are never reached, nor files after it
    T.write(order)
    d = os.path.join(T.root, T.files[at][0])
    opn(os.path.join(d, 'empty.nano'), 'w').close()
    os.makedirs(os.path.join(d, 'adir'), exist_ok=True)
    how = r.choice(['abs', 'rel'])
    src = T.source(order)
    for o in (0, 1):
        lines = run_tree(ctx, T, [0], [], how, o)
        b = [l for l in lines if l.startswith('build')]
        ctx.evals += 1
        if not b or not b[0].startswith('build err'):
            ctx.fail('import of %s accepted' % kind, source=src, got=b)
        w, msg = b[0].split(' ')[2], b[0].split(' ')[3:]
        names = names_of(lines)
        if w != '%d:%d' % (bad.file, bad.line) or not msg or not msg[0]:
            ctx.fail('failed import reported at another place', got=w, want='%d:%d' % (bad.file, bad.line), kind=kind, source=src)
        if os.path.normpath(os.path.join(ctx.scratch, names[bad.file])) != os.path.normpath(T.path(at, 'abs')):
            ctx.fail('failed import reported in another file', got=names[bad.file], want=T.path(at, 'abs'))
    ctx.seen(kind, order, at, bad.line)
    # once the file is there it works
    if kind == 'missing':
        with opn(os.path.join(d, 'nosuch.nano'), 'w') as f:
            f.write('function now_there()\n  return 7\nend\n')
        t = 'srcfile 0 %s\ncomp 0 0 1 bh\nbuild 0 0\nbind 0 bh\nvm 0 0\nspawn 0 5 now_there\nrun 0 5 go 100\n' % T.path(0, how)
        lines = ctx.run(t.encode('latin1'))
        if not any(l.startswith('run fin=1 err=success ret=i7') for l in lines):
            ctx.fail('import that exists now', got=lines[-4:], source=src)


def do_text(ctx, k):
    """imports of a source given as text are relative to the working directory"""
    r = ctx.rng()
    T = Tree(ctx, r)
    n = r.choice([1, 2, 3])
    T.add(n)
    order = list(range(n))
    for i in order:
        T.files[i][2].extend(parse('function in%d()\n  return %d\nend\n' % (i, 40 + i)))
    T.write(order)
    missing = r.random() < 0.5
    L = ['import "%s"' % T.path(i, 'rel') for i in order]
    L += ['function tmain()', '  return [%s]' % ', '.join('in%d()' % i for i in order), 'end']
    if missing:
        at = r.choice([0, n, n + 3, r.randrange(n + 1)])
        L.insert(at, 'import "%s"' % r.choice(['zz_miss.nano', 'zz_miss/x.nano', 'zz_miss', 'zz_miss no such']))
    for _ in range(r.randrange(3)):
        L.insert(0, r.choice(['', '# text', 'function zz%d()\nend' % r.randrange(10**6)]))
    text = '\n'.join(L) + r.choice(['', '\n'])
    front = r.randrange(3)
    cmds = b''.join(src_cmd(0, 'function tz%d()\n  return 1\nend\n' % i) for i in range(front)) + src_cmd(0, text)
    for o in (0, 1):
        lines = ctx.run(cmds + b'comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\ninit 0\nspawn 0 5 tmain\nrun 0 5 go 10000\n' % o)
        b = [l for l in lines if l.startswith('build')]
        ctx.evals += 1
        if missing:
            ln = [i for i, l in enumerate(text.split('\n')) if l.startswith('import "zz_miss')]
            if not b or not b[0].startswith('build err'):
                ctx.fail('missing import of a text accepted', text=text, got=b)
            if b[0].split(' ')[2] != '%d:%d' % (front, ln[0] + 1):
                ctx.fail('missing import of a text reported at another place', text=text, got=b, want='%d:%d' % (front, ln[0] + 1))
        else:
            w = 'ret=A0(%s)' % ','.join('i%d' % (40 + i) for i in order)
            if not any(l.startswith('run fin=1 err=success') and w in l for l in lines):
                ctx.fail('import of a text', text=text, got=lines[-6:], want=w)
    ctx.seen(text, front)


def do_planted(ctx, k):
    """an error of one file is reported there"""
    r = ctx.rng()
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    T.wild = False
    n = r.choice([2, 3, 4, 5])
    T.add(n)
    for j in range(1, n):
        T.link(r.randrange(j), j)
    order = T.order([0])
    spread(r, T, decls, order)
    at = r.choice(order)
    if core.div_by_zero(decls):
        return
    raw = r.choice(['function zz_(', 'var 9', ')', 'return 1', 'var zz_ = "open', 'const zz_', '?', 'zz_ = 1', 'var zz_ = zz_no', 'var zz_ = emit2(1)', 'const zz_ = zz_no', 'var zz_ = echo(1, 2)',
                    'import 5', 'var zz_ = 1 1', 'end', 'else'])
    bad = S('raw', raw)
    L = T.files[at][2]
    L.insert(r.randrange(len(L) + 1), bad)
    T.write(order)
    src = T.source(order)
    how = r.choice(['abs', 'rel'])
    for o in (0, 1):
        lines = run_tree(ctx, T, [0], [], how, o)
        b = [l for l in lines if l.startswith('build')]
        ctx.evals += 1
        if not b or not b[0].startswith('build err'):
            ctx.fail('error in an imported file accepted', text=raw, source=src, got=b)
        w = b[0].split(' ')[2]
        f, ln = map(int, w.split(':'))
        # an error at the end of a line may be seen at the start of what follows
        hi = bad.line if not at_end(raw) else next_text(T, at, bad.line)
        if f != bad.file or not bad.line <= ln <= hi:
            ctx.fail('error reported at another place', got=w, want='%d:%d' % (bad.file, bad.line), text=raw, source=src)
        text = None
    lines = ctx.run(('srcfile 0 %s\ncomp 0 0 1 bh\nbuild 0 0\nsrcline 0 %d %d\n' % (T.path(0, how), f, ln)).encode('latin1'))
    sl = [l for l in lines if l.startswith('srcline')]
    with opn(T.path(at, 'abs'), encoding='latin1', newline='') as fd:
        real = fd.read().split('\n')[ln - 1]
    if bytes.fromhex(sl[0].split(' ')[1] if ' ' in sl[0] else '').decode('latin1').rstrip('\n\r') != real.rstrip('\r'):
        ctx.fail('wrong text of the line', got=sl[0], want=real)
    ctx.seen(raw, order, at, bad.line)
    ctx.sample('%r in file %d of %d: reported %s' % (raw, order.index(at), len(order), w))


def at_end(raw):
    return raw in ('function zz_(', 'const zz_', 'var 9', 'zz_ = 1', 'var zz_ = 1 1')


def next_text(T, at, line):
    with opn(T.path(at, 'abs'), encoding='latin1', newline='') as fd:
        ls = fd.read().split('\n')
    for i in range(line, len(ls)):
        t = ls[i].strip()
        if t and not t.startswith('#'):
            return i + 1
    return len(ls) + 1


def do_loads(ctx, k):
    """several sources loaded by the host: files, texts, repeats in other spellings"""
    r = ctx.rng()
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    n = r.choice([2, 3, 4, 6])
    T.add(n)
    starts = list(range(n))
    r.shuffle(starts)
    for _ in range(r.randrange(0, 4)):
        T.link(r.randrange(n), r.randrange(n))
    order = T.order(starts)
    spread(r, T, decls, order)
    # a text source in front at times, which is no file whatever it is called
    steps = kit.random_steps(g, r, 2)
    front = r.random() < 0.5
    extra = parse('function zz_front()\n  return "front"\nend\n') if front else []
    T.write([-1] + order if front else order)
    for d in extra:
        d.file = 0
    full = extra + T.decls(order)
    src = T.source(order)
    try:
        if core.div_by_zero(full):
            raise lang.Budget()
        I, want, _ = core.expect(full, steps)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    how = r.choice(['abs', 'rel', 'dot'])
    s = b''
    if front:
        s += src_cmd(0, 'function zz_front()\n  return "front"\nend\n')
    for i in starts:
        s += ('srcfile 0 %s\n' % T.path(i, how)).encode('latin1')
        if r.random() < 0.4:
            p = T.path(r.choice(starts[:starts.index(i) + 1]), how)
            if '/' in p:
                a, b = p.rsplit('/', 1)
                p = a + r.choice(['/./', '//', '/']) + b
            s += ('srcfile 0 %s\n' % p).encode('latin1')
    for o in (0, 1):
        lines = ctx.run(s + ('comp 0 0 %d bh\nbuild 0 0\nsrclist 0\nbind 0 bh\nvm 0 0\n' % o + core.steps_text(steps)).encode('latin1'))
        got = core.observe(lines)[0]
        d = core.first_diff(got, want)
        if d:
            ctx.fail('several sources', source=src, **d)
        ctx.evals += 1
        if len(names_of(lines)) != len(order) + front:
            ctx.fail('wrong set of sources', got=names_of(lines), source=src)
    ctx.seen(starts, want)


def do_loadfail(ctx, k):
    d = ctx.tmp()
    opn(os.path.join(d, 'empty'), 'w').close()
    os.makedirs(os.path.join(d, 'dir'))
    with opn(os.path.join(d, 'good'), 'w') as f:
        f.write('function good()\n  return 1\nend\n')
    bad = [d + '/nosuch', d + '/empty', d + '/dir', d, d + '/good/x', d + '/nodir/good', '/proc/self/mem', d + '/dir/'][k]
    t = 'srcfile 0 %s\nsrclist 0\nsrcfile 0 %s/good\nsrcfile 0 %s\nsrclist 0\ncomp 0 0 1 bh\nbuild 0 0\nbind 0 bh\nvm 0 0\nspawn 0 5 good\nrun 0 5 go 100\nmem\n' % (bad, d, bad)
    lines = ctx.run(t.encode())
    ctx.evals += 1
    loads = [l.split(' ')[1] for l in lines if l.startswith('src ')]
    if loads != ['fail', 'ok', 'fail'] or not any(l.startswith('run fin=1 err=success ret=i1') for l in lines):
        ctx.fail('failed load', target=bad, got=lines)
    ctx.seen(bad[len(d):], lines[-2])
    m0 = lines[-1]
    lines = ctx.run(('srcfile 0 %s\n' % bad * 50 + 'mem\n').encode())
    if m0.split('fds=')[1] != lines[-1].split('fds=')[1]:
        ctx.fail('failed loads keep files open', before=m0, after=lines[-1])


def do_again(ctx, k):
    """the same set of sources built again, also after the files are gone: each file is compiled once per build"""
    r = ctx.rng()
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    n = r.choice([2, 3, 4])
    T.add(n)
    for j in range(1, n):
        T.link(r.randrange(j), j)
    order = T.order([0])
    spread(r, T, decls, order)
    T.write(order)
    full = T.decls(order)
    steps = kit.random_steps(g, r, 2)
    src = T.source(order)
    try:
        if core.div_by_zero(full):
            raise lang.Budget()
        I, want, _ = core.expect(full, steps)
    except (lang.Budget, RecursionError):
        ctx.skipped += 1
        return
    one = 'comp %d %d %d bh\nbuild %d 0\nbind %d bh\nvm %d %d\n'
    t = 'srcfile 0 %s\n' % T.path(0, 'abs')
    for i in range(3):
        t += 'say #\n' + one % (i, i, r.randrange(2), i, i, i, i) + core.steps_text(steps, vm=i)
        if i == 1:
            # into the same compiler
            t += 'say #\ncreset 0\ncflags 0 bh\nbuild 0 0\nbind 0 bh\nvm 9 0\n' + core.steps_text(steps, vm=9)
    lines = ctx.run(t.encode('latin1'))
    part = []
    for l in lines:
        if l == 'say #':
            part.append([])
        elif part:
            part[-1].append(l)
    for i, p in enumerate(part):
        d = core.first_diff(core.observe(p)[0], want)
        if d:
            ctx.fail('build %d of the same sources' % i, source=src, **d)
        ctx.evals += 1
    ctx.seen(want)


def do_big(ctx, name, n):
    """large programs over several files"""
    r = ctx.rng()
    src, steps = shapes.make(name, n, r, r.choice([False, True]))
    T = Tree(ctx, r)
    T.wild = False
    k = r.choice([2, 3, 5])
    T.add(k)
    for j in range(1, k):
        T.link(r.randrange(j), j)
    go(ctx, r, T, [0], parse(src), steps, budget=400000)


def do_dirs(ctx, n, k):
    """directories in directories, paths going up and down"""
    r = ctx.rng()
    T = Tree(ctx, r)
    T.wild = False
    up = ['d%d' % i if i % 7 else 'd' for i in range(n)]
    at = sorted({0, n, n // 2, r.randrange(n + 1), r.randrange(n + 1)})
    dirs = ['/'.join(up[:i]) for i in at] + ['/'.join(up[:i] + ['side'] * r.randrange(1, n + 1)) for i in r.sample(at, 2 if len(at) > 1 else 1)]
    T.dirs = ['/'.join(up)] + dirs
    for i, d in enumerate(dict.fromkeys(dirs)):
        T.files.append([d, 'f%d' % i if k else 'same', []])
    m = len(T.files)
    perm = list(range(m))
    r.shuffle(perm)
    for a, b in zip(perm, perm[1:]):
        T.link(a, b)
    for _ in range(r.randrange(0, 2 * m)):
        T.link(r.randrange(m), r.randrange(m))
    decls = [S('gvar', 'total', ('int', 0))]
    for i in range(m):
        body = [S('call', ('call', ('id', 'here'), [('int', i)])), S('set', 'total', ('bin', '+', ('id', 'total'), ('int', i)))]
        if i + 1 < m:
            body.append(S('ret', ('call', ('id', 'g%d' % (i + 1)), [])))
        decls.append(S('func', 'g%d' % i, [], body))
    go(ctx, r, T, [perm[0]], decls, [('init',), ('run', 'g0', []), ('globals',)])


def do_above(ctx, k):
    """files in the directories above the working directory, the same names at every level"""
    r = ctx.rng()
    g, decls = program(ctx, r)
    T = Tree(ctx, r)
    depth = r.randrange(1, 7)
    up = ['%s%d' % (r.choice(['d', '..d', 'x.']), i) for i in range(depth)]
    level = ['/'.join(up[:depth - i]) for i in range(depth + 1)]     # level 0 is the working directory
    T.dirs = level
    T.cd = os.path.join(T.root, level[0])
    names = r.sample(["u", "v", "u.nano", "...", "main"], 3)
    at = [(i, x) for i in range(depth + 1) for x in names if r.random() < 0.7] or [(0, names[0])]
    lv = [i for i, x in at]
    for i, x in at:
        T.files.append([level[i], x, []])
    starts = [0] if r.random() < 0.7 else [0, r.randrange(len(at))]
    # links go up only, so that every file has a single name
    for j in range(1, len(at)):
        T.link(r.choice([i for i in range(j) if lv[i] <= lv[j]]), j)
    for _ in range(r.randrange(len(at))):
        i, j = r.randrange(len(at)), r.randrange(len(at))
        if lv[i] <= lv[j]:
            T.link(i, j)
    src = go(ctx, r, T, starts, decls, kit.random_steps(g, r, 3), r.choice(['rel', 'rel', 'dot']))
    if src:
        ctx.sample('%d files, %d levels up' % (len(at), depth))


def do_many(ctx, n):
    """any number of files"""
    r = ctx.rng()
    T = Tree(ctx, r)
    T.wild = False
    T.files = [[r.choice(DIRS), 'f%d' % i, []] for i in range(n)]
    for j in range(1, n):
        T.link(r.choice([0, j - 1, r.randrange(j)]), j)
    decls = [S('gvar', 'total', ('int', 0))]
    for i in range(max(n, 6)):
        decls.append(S('func', 'g%d' % i, ['a'], [S('call', ('call', ('id', 'here'), [('int', i)])), S('set', 'total', ('bin', '+', ('id', 'total'), ('int', i))), S('ret', ('id', 'total'))]))
    steps = [('init',)] + [('run', 'g%d' % i, [i]) for i in sorted({0, 5, n // 2, max(n, 6) - 1})] + [('globals',)]
    go(ctx, r, T, [0], decls, steps)
