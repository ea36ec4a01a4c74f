"""C20 compilers and machines can be reused, combined and destroyed freely"""
import core, gen, kit, lang, mutate, shapes
import c13
from lang import Style, Printer
from parse import parse
from probe import src_cmd, Probe
import build as B

LEVEL = 'exploration'
RULE = ('Random histories of create, build (also failing ones), run, abandon, reset and destroy over several compilers, programs, source sets and machines in one process; every job in a '
        'history must give the tables, errors and event log that the same job gives in a fresh process and that the reference interpreter gives. AddressSanitizer, exact heap and '
        'descriptor accounting over repeated histories, valgrind memcheck for uninitialised reads, and ThreadSanitizer with histories running in parallel operating system threads. '
        'Non-trivial: distinct history of operations.')
CHUNK = 3
BUILDS = [('asan', 'probe'), ('plain', 'probe'), ('tsan', 'probe')]


def cases(ctx):
    n = 3 if ctx.quick else 20
    out = [('history', k) for k in range(220 * n)]
    out += [('leak', k) for k in range(60 * n)]
    out += [('grow', k) for k in range(40 * n)]
    out += [('par', k) for k in range(48 * n)]
    out += [('grind', k) for k in range(16 if ctx.quick else 160)]
    out += [('again', k) for k in range(60 * n)]
    out += [('pairs', k) for k in range(60 * n)]
    return sorted(out, key=lambda c: c[0] != 'grind')


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


# ---------------------------------------------------------------- jobs
BAD = ['function broken(\n', 'function x()\n  return undefined_name\nend\n', 'var zz = "open\n', 'var q1 = 1\nvar q1 = 2\n', 'function x()\n  return 1 / 0\nend\n',
       'const C = x()\n', 'function x()\n  x(1)\nend\n', 'function x()\n  while (1)\n', '?\n', 'import "/nonexistent/file.nano"\n', 'function main(a, a)\nend\n', 'end\n',
       'function x()\n  y = 1\nend\n']
THREADS = '''
var shared = [0, 0, 0]
var log = ""
function spin(n)
  var i = 0
  while (i < n)
    i += 1
    shared[0] = shared[0] + i
    log = "" + i + "abcdefghijklmnop"
  end
  return i
end
function forever()
  var a = [1, 2, 3]
  while (1)
    a = [a, "x"]
    a = a[0]
    shared[1] = "t" + shared[0]
  end
end
function sleeper()
  wait(1000)
  return emit("woke")
end
function fail(a)
  var k = [a, "deep"]
  return none[k]
end
function deep(n)
  if (n <= 0)
    return fail(n)
  end
  return deep(n - 1) + 1
end
function spawn2()
  new_thread(spin, 5)
  new_thread(sleeper)
  return new_thread(forever)
end
function main(n)
  emit(shared, log, n)
  shared[2] = n
  spin(n)
  emit(shared, log)
  return [n, shared]
end
'''.replace('none[k]', 'shared.nosuch')


class Job:
    """a build and what is done with the result"""

    def __init__(self, ctx, r, kind=None):
        k = kind or r.choice(['plain', 'plain', 'plain', 'error', 'broken', 'threads', 'multi', 'big'])
        self.kind = k
        self.opt = r.randrange(2)
        self.want = None
        self.steps = []
        if k == 'threads':
            self.srcs = [THREADS]
            self.decls = parse(THREADS)
            self.steps = [('init',), ('run', 'main', [r.randrange(0, 40)]), ('globals',)]
        elif k == 'globals':
            n = r.choice([1, 2, 5, 20, r.choice(kit.sizes(ctx, 130))])
            src = ''.join('var g%d%s\n' % (i, r.choice(['', '', ' = %d' % i, ' = "t"', ' = [%d]' % i, ' = none', ' = g%d' % r.randrange(n)])) for i in range(n))
            src += 'function main(x)\n' + ''.join('  emit(g%d)\n' % i for i in range(n)) + ''.join('  g%d = %s\n' % (i, r.choice(['x', '[x, g%d]' % (i // 2), '"s" + x', 'main'])) for i in range(n))
            src += '  emit(g%d, g0)\nend\n' % (n - 1)
            self.srcs = [src]
            self.decls = parse(src)
            self.steps = [('init',), ('globals',)] + [('run', 'main', [r.randrange(99)])] * r.randrange(1, 3) + [('globals',)]
        elif k == 'big':
            name = r.choice([s for s in shapes.SHAPES if s not in ('blank', 'arrsize', 'strlen_')])
            src, self.steps = shapes.make(name, r.choice(kit.sizes(ctx, 130)), r, r.choice([False, True]))
            self.srcs = [src]
            self.decls = parse(src)
        else:
            cfg = gen.Cfg(err=0.05 if k == 'error' else 0, nest=2, stmts=r.randrange(1, 5), depth=r.randrange(1, 4), funcs=r.randrange(0, 5), globals=r.randrange(0, 5), here=r.choice([0, 0.1]))
            g, decls, src = kit.random_program(ctx, r, cfg)
            self.srcs = [src]
            self.decls = parse(src)
            self.steps = kit.random_steps(g, r)
            if k == 'multi':
                cut = r.randrange(len(decls) + 1)
                self.srcs = [Printer(Style(r)).program(x) for x in (decls[:cut], decls[cut:]) if x]
                self.decls = [d for i, t in enumerate(self.srcs) for d in parse(t, i)]
            if k == 'broken':
                self.srcs.append(r.choice(BAD))
                self.decls = None
                self.steps = []
        if self.decls and self.opt and core.div_by_zero(self.decls):
            self.opt = 0
        if self.decls:
            try:
                _, self.want, _ = core.expect(self.decls, self.steps, budget=20000)
            except (lang.Budget, RecursionError):
                self.steps = [('init',)]
                try:
                    _, self.want, _ = core.expect(self.decls, self.steps, budget=20000)
                except (lang.Budget, RecursionError):
                    self.steps, self.want = [], []
        self.src = '\n----\n'.join(self.srcs)

    def sources(self, slot):
        return b''.join(src_cmd(slot, t) for t in self.srcs)

    def run(self, vm):
        return core.steps_text(self.steps, vm=vm).encode('latin1')

    def alone(self):
        return b'say #build\n' + self.sources(0) + b'comp 0 0 %d bh\nbuild 0 0\nsay #dump\npdump 0\nsay #run\nbind 0 bh\nvm 0 0\n' % self.opt + (self.run(0) if self.kind != 'broken' else b'') + b'say #end\n'


def facts(P, tag=''):
    """what a build and run gave"""
    b = [l for l in P['build' + tag] if l.startswith('build ')]
    d = [l for l in P['dump' + tag] if l.split(' ')[0] in ('code', 'func', 'str', 'sysc', 'lines', 'globs')]
    if b and b[0] != 'build ok':
        d = []      # what is left of a rejected program is nobody's business
    else:
        d = [' '.join(l.split(' ')[:2]) if l.startswith('sysc') else l for l in d]
    return b, d, core.observe(P['run' + tag])[0]


class Mess:
    """writes a history; keeps track of what is allowed"""

    def __init__(self, ctx, r):
        self.ctx, self.r = ctx, r
        self.progs = {}     # slot -> state: 'clean', 'dirty'
        self.comps = {}     # slot -> prog slot
        self.vms = {}       # slot -> prog slot
        self.srcs = set()
        self.s = b''
        self.ops = []
        self.ids = 1000

    def do(self, line):
        self.s += line.encode('latin1') + b'\n'
        self.ops.append(' '.join(line.split(' ')[:2]))

    def drop_vms(self, p, keep=()):
        for v in [v for v, q in self.vms.items() if q == p and v not in keep]:
            self.do('vfree %d' % v)
            del self.vms[v]

    def drop_comps(self, p):
        for c in [c for c, q in self.comps.items() if q == p]:
            self.do('cfree %d' % c)
            del self.comps[c]

    def litter(self, j):
        """things a host may do with machines that work, their outcome is not looked at"""
        r = self.r
        for _ in range(r.randrange(0, 4)):
            vs = [v for v, p in self.vms.items() if self.progs.get(p) == 'threads']
            if not vs:
                return
            v = r.choice(vs)
            self.ids += 1
            f = r.choice(['spin i500', 'forever', 'sleeper', 'fail i1', 'deep i30', 'spawn2', 'main i3'])
            k = r.randrange(6)
            if k == 0:
                self.do('call %d %s' % (v, f if f != 'forever' else 'spin i9'))
            elif k == 1:
                self.do('spawn %d %d %s' % (v, self.ids, f))
                self.do('slice %d %d %d' % (v, self.ids, r.choice([1, 2, 7, 100, 3000])))
            elif k == 2:
                self.do('spawn %d %d %s' % (v, self.ids, f))
                self.do('slice %d %d %s' % (v, self.ids, r.choice('il')))
            elif k == 3:
                self.do('spawn %d %d %s' % (v, self.ids, f))
                self.do('pass %d %d' % (v, r.choice([1, 5, 50, 500])))
            elif k == 4:
                self.do('passes %d %d %d' % (v, r.randrange(1, 5), r.choice([1, 10, 100])))
            else:
                self.do('vreset %d' % v)
                if r.random() < 0.5:
                    self.do('init %d' % v)

    def job(self, n, j):
        """one judged job, on new or used objects"""
        r = self.r
        p = r.randrange(3)
        how = r.randrange(4)
        comps = [c for c, q in self.comps.items() if q == p]
        self.do('say #build%d' % n)
        c = r.randrange(3)
        if how == 0 or p not in self.progs or (how == 1 and not comps):
            # everything new
            self.drop_vms(p)
            self.drop_comps(p)
            self.do('prog %d' % p)
            if c in self.comps:
                self.do('cfree %d' % c)
            self.do('comp %d %d %d bh' % (c, p, j.opt))
        elif how == 1:
            c = r.choice(comps)
            for o in comps:
                if o != c:
                    self.do('cfree %d' % o)
                    del self.comps[o]
            self.idle(p)
            self.do('creset %d' % c)
            if r.random() < 0.2:
                self.do('creset %d' % c)
            self.do('cflags %d bh' % c)
            self.do('opt %d %d' % (c, j.opt))
        else:
            # the program is emptied and another compiler fills it
            self.idle(p)
            self.drop_comps(p)
            self.do('preset %d' % p)
            if c in self.comps:
                self.do('cfree %d' % c)
            self.do('comp %d %d %d bh' % (c, p, j.opt))
        self.comps[c] = p
        s = r.randrange(3)
        if s in self.srcs:
            if r.random() < 0.5:
                self.do('srcclear %d' % s)
            else:
                # other compilers may hold on to their text no longer
                self.do('srcfree %d' % s)
        self.srcs.add(s)
        self.s += j.sources(s)
        self.do('build %d %d' % (c, s))
        self.progs[p] = 'bad' if j.kind == 'broken' else j.kind
        self.do('say #dump%d' % n)
        self.do('pdump %d' % p)
        if r.random() < 0.3:
            self.do('ast %d' % c)
        if r.random() < 0.3:
            self.do('disasm %d' % p)
        if r.random() < 0.3:
            self.do('srcfree %d' % s)
            self.srcs.discard(s)
        if r.random() < 0.3:
            self.do('cfree %d' % c)
            del self.comps[c]
        self.do('say #between%d' % n)
        if j.kind != 'broken':
            self.do('bind %d bh' % p)
            old = [v for v, q in self.vms.items() if q == p]
            if old and r.random() < 0.6:
                v = r.choice(old)
                self.do('vreset %d' % v)
            else:
                v = r.randrange(4)
                if v in self.vms:
                    self.do('vfree %d' % v)
                self.vms[v] = p
                self.do('vm %d %d' % (v, p))
            self.do('say #run%d' % n)
            self.s += j.run(v)
            self.ops.append('run %s' % j.kind)
            self.do('say #after%d' % n)
        else:
            # no machine of it is of use
            self.drop_vms(p)
            self.do('say #run%d' % n)
            self.do('say #after%d' % n)
        self.litter(j)
        if r.random() < 0.25 and self.vms:
            v = r.choice(sorted(self.vms))
            self.do('vfree %d' % v)
            del self.vms[v]
        if r.random() < 0.15 and self.progs:
            p = r.choice(sorted(self.progs))
            self.drop_vms(p)
            self.drop_comps(p)
            self.do('pfree %d' % p)
            del self.progs[p]

    def idle(self, p):
        """machines of a program that goes away are emptied or freed"""
        for v in [v for v, q in self.vms.items() if q == p]:
            if self.r.random() < 0.5:
                self.do('vreset %d' % v)
            else:
                self.do('vfree %d' % v)
                del self.vms[v]


def history(ctx, r, n=None, kinds=None):
    m = Mess(ctx, r)
    jobs = [Job(ctx, r, r.choice(kinds) if kinds else None) for _ in range(n or r.randrange(2, 7))]
    if r.random() < 0.4:
        jobs.append(r.choice(jobs))     # the same again
    for i, j in enumerate(jobs):
        m.job(i, j)
    return m, jobs


def fresh(ctx, j, variant='plain'):
    if getattr(j, 'fresh', None) is None:
        p = Probe(B.build(variant), cwd=ctx.scratch)
        try:
            j.fresh = facts(c13.split(p.run(j.alone())))
        finally:
            p.close()
    return j.fresh


def judge(ctx, lines, jobs, what, ops):
    P = c13.split(lines)
    for i, j in enumerate(jobs):
        want = fresh(ctx, j)
        got = facts(P, str(i))
        ctx.evals += 1
        for name, g, w in zip(('build', 'program', 'run'), got, want):
            if g != w:
                x = core.first_diff(g, w)
                ctx.fail('%s: %s differs from that in a fresh process' % (what, name), job=i, kind=j.kind, source=j.src[:6000], ops=ops, **x)
        if j.want is not None:
            x = core.first_diff(got[2], j.want)
            if x:
                ctx.fail('%s: run differs from what the program means' % what, job=i, source=j.src[:6000], ops=ops, **x)
        ctx.count['jobs judged'] += 1
        ctx.count['events'] += len(got[2])
    ctx.count['operations'] += len(ops)


def do_history(ctx, k):
    r = ctx.rng()
    m, jobs = history(ctx, r)
    judge(ctx, ctx.run(m.s), jobs, 'after a history', m.ops)
    ctx.seen(tuple(m.ops))
    ctx.sample(m.ops[:40])


def rep(ctx, body, n, ops, src=None):
    lines = ctx.run(b'rep %d %d\n%s\n' % (n, len(body), body))
    l = [x for x in lines if x.startswith('rep ')][-1]
    p = l.split(' ')
    mem = [int(x) for x in p[3:] if not x.startswith('fds')]
    ctx.evals += 1
    ctx.count['repetitions'] += n
    if 'same=1' not in p:
        ctx.fail('repeating a history gives another result', ops=ops, source=src)
    if len(set(mem[2:])) != 1:
        ctx.fail('memory is not released', growth=mem, ops=ops, source=src)
    return lines


def do_leak(ctx, k):
    """everything destroyed at the end, the heap is as before"""
    r = ctx.rng()
    m, jobs = history(ctx, r, n=r.randrange(1, 4))
    lines = rep(ctx, m.s, 6, m.ops)
    judge(ctx, lines[:-1], jobs, 'repeated', m.ops)
    ctx.seen(('leak', tuple(m.ops)))


def do_grow(ctx, k):
    """the same objects over and over: the heap does not grow"""
    r = ctx.rng()
    j = Job(ctx, r, r.choice(['plain', 'error', 'broken', 'threads', 'multi', 'big']))
    how = k % 4
    N = 8
    s = b''
    ops = []
    rounds = []
    if how == 0:        # compiler reset
        s += b'comp 0 0 %d bh\n' % j.opt
        for i in range(N):
            t = (b'creset 0\ncflags 0 bh\n' if i else b'') + b'srcclear 0\n' + j.sources(0) + b'say #build%d\nbuild 0 0\nsay #dump%d\npdump 0\nsay #run%d\n' % (i, i, i)
            if j.kind != 'broken':
                t += b'bind 0 bh\nvm 0 0\n' + j.run(0)
            s += t + b'vfree 0\nsay #m%d\nmem\n' % i
    elif how == 1:      # machine reset, with threads left over
        s += b'say #build0\n' + j.sources(0) + b'comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\n' % j.opt
        for i in range(N):
            s += b'say #run%d\n' % i
            if j.kind != 'broken':
                s += j.run(0)
                if j.kind == 'threads':
                    s += b'spawn 0 7 forever\nslice 0 7 50\nspawn 0 8 sleeper\npass 0 100\ncall 0 deep i5\n'
            s += b'vreset 0\nsay #m%d\nmem\n' % i
    elif how == 2:      # program reset
        s += b'prog 0\n'
        for i in range(N):
            s += b'preset 0\nsrcclear 0\n' + j.sources(0) + b'comp 0 0 %d bh\nsay #build%d\nbuild 0 0\nsay #dump%d\npdump 0\nsay #run%d\n' % (j.opt, i, i, i)
            if j.kind != 'broken':
                s += b'bind 0 bh\nvm 0 0\n' + j.run(0)
            s += b'vfree 0\ncfree 0\nsay #m%d\nmem\n' % i
    else:               # threads come and go in one machine
        j = Job(ctx, r, 'threads')
        s += b'say #build0\n' + j.sources(0) + b'comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\ninit 0\n' % j.opt
        for i in range(N):
            for q in range(6):
                s += b'spawn 0 %d %s\n' % (100 + q, r.choice([b'spin i20', b'fail i1', b'deep i8', b'main i4']) if i == 0 else b'spin i20')
            s += b'passes 0 12 400\nsay #run%d\ncall 0 main i5\npasses 0 4 10\nsay #m%d\nmem\n' % (i, i)
    lines = ctx.run(s)
    P = c13.split(lines)
    mem = [int([l for l in P['m%d' % i] if l.startswith('mem ')][0].split(' ')[1]) for i in range(N)]
    ctx.evals += 1
    # the answer itself grows in the executor, and the containers grow in steps
    out = [sum(len(x) + 1 for q in P for x in P[q])]
    ctx.count['heap samples'] += N
    steps = [b - a for a, b in zip(mem, mem[1:])]
    if min(steps[2:]) > 0 and sum(s > 0 for s in steps) == len(steps):
        # grows every time: more than the executor's own log?
        ctx.fail('heap grows with every use', growth=steps, how=how, kind=j.kind, source=j.src[:3000])
    if how in (0, 2):
        for i in range(1, N):
            for q in ('build', 'dump', 'run'):
                a, b = P.get('%s0' % q), P.get('%s%d' % (q, i))
                if q == 'run':
                    a, b = core.observe(a)[0], core.observe(b)[0]
                if a != b:
                    x = core.first_diff(b, a)
                    ctx.fail('another round gives another result: ' + q, round=i, how=how, kind=j.kind, source=j.src[:3000], **x)
    elif how == 1 and j.kind != 'broken':
        for i in range(1, N):
            a, b = core.observe(P['run0'])[0], core.observe(P['run%d' % i])[0]
            if a != b:
                ctx.fail('another round gives another result: run', round=i, how=how, kind=j.kind, source=j.src[:3000], **core.first_diff(b, a))
    ctx.seen(('grow', how, j.kind, j.src[:2000]))


def do_again(ctx, k):
    """the globals initialised again in the same machine, everything after that is as the first time"""
    r = ctx.rng()
    j = Job(ctx, r, r.choice(['plain', 'error', 'threads', 'multi', 'big', 'globals', 'globals']))
    if not j.want or j.want[0].split(' ')[:2] != ['init', '1']:
        ctx.skipped += 1
        return
    N = r.randrange(2, 6)
    s = j.sources(0) + b'comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\n' % j.opt
    for i in range(N):
        s += b'say #run%d\n' % i + j.run(0)
        if j.kind == 'threads' and r.random() < 0.5:
            s += b'say #left%d\nspawn 0 %d forever\nslice 0 %d 50\ncall 0 deep i5\n' % (i, 70 + i, 70 + i)
    P = c13.split(ctx.run(s))
    for i in range(N):
        got = core.observe(P['run%d' % i])[0]
        ctx.evals += 1
        ctx.count['initialised again'] += 1
        x = core.first_diff(got, j.want)
        if x:
            ctx.fail('initialised again: run differs', round=i, kind=j.kind, source=j.src[:3000], **x)
    ctx.seen(('again', j.src[:2000]))


def do_par(ctx, k):
    """independent instances in parallel operating system threads"""
    r = ctx.rng()
    n = r.choice([2, 3, 4, 6, 8])
    H = [history(ctx, r, n=r.randrange(1, 4)) for _ in range(n)]
    if r.random() < 0.5:
        H = [H[0]] * n      # the same in all
    s = b'par %d\n' % n + b''.join(b'%d\n%s\n' % (len(m.s), m.s) for m, _ in H)
    lines = ctx.run(s, variant='tsan')
    parts = []
    for l in lines:
        if l.startswith('par '):
            parts.append([])
        elif parts:
            parts[-1].append(l)
    for i, (m, jobs) in enumerate(H):
        judge(ctx, parts[i], jobs, 'in parallel threads', m.ops)
    ctx.seen(('par', n, tuple(tuple(m.ops) for m, _ in H)))
    ctx.count['operating system threads'] += n


def do_grind(ctx, k):
    """no result depends on uninitialised memory"""
    r = ctx.rng()
    m, jobs = history(ctx, r, n=r.randrange(2, 4), kinds=[['plain', 'broken', 'threads', 'error', 'multi'][k % 5], 'threads', 'plain', 'broken'])
    p = Probe(B.build('plain'), prefix=['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=no', '--undef-value-errors=yes', '--track-origins=no'],
              cwd=ctx.scratch, cpu=120, stack_mb=64)
    try:
        lines = p.run(m.s + b'say #last\nsave 0 /dev/null\n' if 0 in m.progs else m.s)
    finally:
        p.close()
    judge(ctx, lines, jobs, 'under valgrind', m.ops)
    ctx.count['histories under valgrind'] += 1
    ctx.seen(('grind', tuple(m.ops)))


def do_pairs(ctx, k):
    """two machines of one program, and two programs, step by step in turn"""
    r = ctx.rng()
    j1 = Job(ctx, r, r.choice(['plain', 'threads', 'error']))
    j2 = Job(ctx, r, r.choice(['plain', 'threads', 'error'])) if r.random() < 0.5 else j1
    s = b'say #build0\n' + j1.sources(0) + b'comp 0 0 %d bh\nbuild 0 0\nbind 0 bh\nvm 0 0\n' % j1.opt
    if j2 is j1:
        s += b'vm 1 0\n'
    else:
        s += b'say #build1\n' + j2.sources(1) + b'comp 1 1 %d bh\nbuild 1 1\nbind 1 bh\nvm 1 1\n' % j2.opt
    q = [list(j1.steps), list(j2.steps)]
    pos = [0, 0]
    n = [0, 0]
    order = []
    while q[0] or q[1]:
        i = r.randrange(2)
        if not q[i]:
            i = 1 - i
        t = core.steps_text([q[i].pop(0)], vm=i)
        n[i] += 1
        s += b'say #r%d_%d\n' % (i, n[i]) + t.encode('latin1')
        order.append(i)
    P = c13.split(ctx.run(s))
    ctx.evals += 1
    for i, j in ((0, j1), (1, j2)):
        lines = [l for x in range(1, n[i] + 1) for l in P['r%d_%d' % (i, x)]]
        x = core.first_diff(core.observe(lines)[0], j.want)
        if x:
            ctx.fail('machines influence each other', order=order, machine=i, same=j1 is j2, source=[j1.src[:3000], j2.src[:3000]], **x)
    ctx.seen(('pairs', tuple(order), j1.src[:500], j2.src[:500]))
