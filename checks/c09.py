"""C09 scheduling: an online checker over the log of passes, plus a model of
every thread's own events"""
import math
import core, kit
from lang import dump

LEVEL = 'exploration'
RULE = ('Random families of threads that emit, wait, halt, call, start each other and are started by the host between passes; driven with '
        'budgets from one cycle to unlimited. Each pass line (thread, waits, finished, error, cycles used) is checked against the rules: every '
        'live thread that does not wait runs once for at most the budget, waiting threads are skipped exactly as often as asked, new '
        'threads start in the next pass, finished threads are reported once and removed, finished() is exact. The events of each thread must '
        'be those of its own program in order, with unlimited budgets also in the predicted pass. Non-trivial: distinct trace.')
CHUNK = 4
ASSUME = ['the order of threads within one pass is not specified', 'in a pass that reports an error the threads after the failing one may not run']


def cases(ctx):
    n = 24 if ctx.quick else 80
    out = [('family', k) for k in range(900 * n)]
    out += [('waits', k) for k in range(150 * n)]
    out += [('oddwaits', k) for k in range(60 * n)]
    out += [('long', k) for k in range(12 * n)]
    out += [('args', k) for k in range(100 * n)]
    out += [('spawn', k) for k in range(40 * n)]
    out += [('many', k) for k in ([5, 40, 150] if ctx.quick else [5, 40, 150, 600, 1500])]
    out += [('share', k) for k in range(80 * n)]
    return out


def do_spawn(ctx, k):
    kit.spawn_args(ctx)


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


# ---- a family of thread bodies.  op: ('emit', n) ('wait', n) ('halt',)
# ('calc', n) ('spawn', template, tag) ('call', helper) ('err',)
def make(r, errs):
    ts = []
    nt = r.randrange(1, 5)
    for t in range(nt):
        ops = []
        for i in range(r.randrange(1, 9)):
            x = r.random()
            if x < 0.3:
                ops.append(('emit', r.randrange(100)))
            elif x < 0.5:
                ops.append(('wait', r.choice([0, 0, 1, 1, 2, 3, 5, 10, 40, -1, -7])))
            elif x < 0.58:
                ops.append(('halt',))
            elif x < 0.68:
                ops.append(('calc', r.randrange(1, 12)))
            elif x < 0.78:
                ops.append(('loopwait', r.randrange(1, 4), r.choice([0, 1, 2])))
            elif x < 0.88 and t + 1 < nt:
                ops.append(('spawn', r.randrange(t + 1, nt), i))
            elif x < 0.94:
                ops.append(('callwait', r.choice([0, 1, 2, 4])))
            elif errs and x < 0.96:
                ops.append(('err',))
            else:
                ops.append(('exprwait', r.choice([0, 1, 3])))
        ts.append(ops)
    return ts


def text(ts):
    L = ['var shared = 0', 'var slots = new_array(8)',
         'function waiter(id, n)', '  var mine = "w" + id', '  emit(id, "cw", n)', '  wait(n)', '  emit(id, "cwa", mine)', '  return n + 1', 'end',
         'function calc(n)', '  var t = 0', '  var i', '  for (i = 0 to n)', '    t += i * 2', '  end', '  return t', 'end']
    for k, ops in enumerate(ts):
        L += ['function T%d(id, arr)' % k, '  var loc = "L" + id', '  var i', '  emit(id, "start", arr)']
        for j, o in enumerate(ops):
            if o[0] == 'emit':
                L.append('  emit(id, %d, loc)' % o[1])
            elif o[0] == 'wait':
                L += ['  emit(id, "w", %d)' % o[1], '  wait(%d)' % o[1], '  emit(id, "a")']
            elif o[0] == 'halt':
                L += ['  hhalt()']
            elif o[0] == 'calc':
                L.append('  emit(id, calc(%d), loc)' % o[1])
            elif o[0] == 'loopwait':
                L += ['  for (i = 0 to %d)' % o[1], '    emit(id, "w", %d)' % o[2], '    wait(%d)' % o[2], '    emit(id, "a", i)', '  end']
            elif o[0] == 'spawn':
                L.append('  emit(id, "sp", new_thread(T%d, id + ".%d", [id, %d]))' % (o[1], o[2], j))
            elif o[0] == 'callwait':
                L.append('  emit(id, waiter(id, %d), loc)' % o[1])
            elif o[0] == 'exprwait':
                L += ['  emit(id, "w", %d)' % o[1], '  emit(id, "a", [1, wait(%d), loc])' % o[1]]
            elif o[0] == 'err':
                L += ['  emit(id, "err")', '  slots[99] = 1', '  emit(id, "never")']
        L += ['  emit(id, "end", loc)', '  return [id, %d]' % k, 'end']
    return '\n'.join(L) + '\n'


def events(ts, k, tid, arr, out, kids):
    """the events of one thread, and the segments between stops; a segment ends
    with ('stop', passes to skip)"""
    d = lambda *a: 'E emit ' + ' '.join(dump(x) if not isinstance(x, str) else x for x in a)
    i = dump(tid)
    loc = dump(b'L' + tid)
    e = out.append
    e(d(i, dump(b'start'), arr))

    def stop(n):
        if n > 0:
            e(('stop', n))
    for j, o in enumerate(ts[k]):
        if o[0] == 'emit':
            e(d(i, o[1], loc))
        elif o[0] == 'wait':
            e(d(i, dump(b'w'), o[1]))
            stop(o[1])
            e(d(i, dump(b'a')))
        elif o[0] == 'halt':
            e('E halt ')
            e(('stop', 0))
        elif o[0] == 'calc':
            e(d(i, o[1] * (o[1] - 1), loc))
        elif o[0] == 'loopwait':
            for c in range(o[1]):
                e(d(i, dump(b'w'), o[2]))
                stop(o[2])
                e(d(i, dump(b'a'), c))
        elif o[0] == 'spawn':
            kid = tid + b'.%d' % o[2]
            e(('kid', o[1], kid, 'A0(%s,i%d)' % (i, j)))
            e(d(i, dump(b'sp'), 0))
        elif o[0] == 'callwait':
            e(d(i, dump(b'cw'), o[1]))
            stop(o[1])
            e(d(i, dump(b'cwa'), dump(b'w' + tid)))
            e(d(i, o[1] + 1, loc))
        elif o[0] == 'exprwait':
            e(d(i, dump(b'w'), o[1]))
            stop(o[1])
            e(d(i, dump(b'a'), 'A0(i1,i0,%s)' % loc))
        elif o[0] == 'err':
            e(d(i, dump(b'err')))
            e(('fail',))
            return
    e(d(i, dump(b'end'), loc))
    e(('done', 'A0(%s,i%d)' % (i, k)))


class Checker:
    """rules that hold for every pass, whatever the threads do"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.state = {}          # id -> (waits, fin, err)
        self.fresh = set()
        self.ended = {}          # id -> how often reported
        self.gone = set()
        self.skips = {}
        self.halted = set()
        self.used = {}
        self.passes = 0

    def spawned(self, t):
        self.state[t] = (0, 0, 'success')

    def handler(self, l):
        p = l.split(' ')
        if p[0] == 'TF':
            t = int(p[1])
            self.ended[t] = self.ended.get(t, 0) + 1
            if self.ended[t] > 1:
                self.ctx.fail('thread reported finished twice', line=l)

    def halt(self, t):
        self.halted.add(t)

    def pas(self, l, budget):
        f = self.ctx.fail
        self.passes += 1
        head, rest = l.split('|')
        h = head.split()
        ok = h[1] == '1'
        now = {}
        for x in rest.split():
            t, w, fin, err, cyc = x.split(':')
            new = t.endswith('*')
            t = int(t.rstrip('*'))
            if t in now:
                f('thread listed twice', line=l)
            now[t] = (int(w), int(fin), err, int(cyc), new)
        failing = [t for t in now if now[t][2] != 'success' and (t not in self.state or self.state[t][2] == 'success')]
        if ok != (not failing):
            f('result of a pass does not tell whether a thread failed', line=l)
        if int(h[2].split('=')[1]) != int(all(x[1] for x in now.values())):
            f('vm finished state wrong', line=l)
        if int(h[3].split('=')[1]) != int(any(x[2] != 'success' for x in now.values())):
            f('vm error state wrong', line=l)
        self.used = {}
        for t, (w, fin, err) in self.state.items():
            dead = fin or err != 'success'
            if t not in now:
                if not dead:
                    f('live thread removed', thread=t, line=l)
                self.gone.add(t)
                continue
            w2, fin2, err2, cyc, new = now[t]
            self.used[t] = cyc
            if new:
                f('known thread listed as new', line=l)
            if dead:
                if ok:
                    f('finished thread not removed', thread=t, line=l)
                if cyc:
                    f('finished thread ran', thread=t, line=l)
                continue
            if cyc > budget:
                f('thread ran longer than its budget', thread=t, line=l, budget=budget)
            if w:
                if cyc:
                    f('waiting thread ran', thread=t, line=l)
                if w2 != w - 1 and (ok or w2 != w):
                    f('wait not counted down', thread=t, line=l)
                self.ctx.count['skipped_runs'] += 1
                continue
            if cyc == 0:
                if ok or t in failing:
                    f('live thread did not run', thread=t, line=l)
                continue
            self.ctx.count['thread_runs'] += 1
            if cyc < budget and not fin2 and w2 == 0 and t not in self.halted:
                f('thread stopped early', thread=t, line=l, budget=budget)
        for t, (w2, fin2, err2, cyc, new) in now.items():
            if t not in self.state:
                if t in self.gone:
                    f('removed thread came back', thread=t, line=l)
                if not new:
                    f('unknown thread', line=l)
                if cyc or fin2:
                    f('new thread ran in the pass it was started in', thread=t, line=l)
            if (fin2 or err2 != 'success') and self.ended.get(t, 0) != 1 and t < 1000000 + 10**6:
                f('end of thread not reported once', thread=t, line=l)
            if not fin2 and self.ended.get(t):
                f('live thread reported finished', thread=t, line=l)
        self.state = {t: x[:3] for t, x in now.items()}
        self.halted = set()


def drive(ctx, r, ts, budgets, hostspawn, npass=None):
    """returns (lines of the log with pass numbers, expectations by root)"""
    src = text(ts)
    s = 'passes 0 2 10\nhand 0 3 0\n'
    roots = []
    nid = 1
    plan = []
    n = npass or r.choice([20, 60, 120])
    for p in range(n):
        while nid < 6 and (p == 0 and nid == 1 or hostspawn and r.random() < (0.3 if p < 5 else 0.05)):
            k = r.randrange(len(ts))
            s += 'spawn 0 %d T%d s%s i%d\n' % (nid, k, (b'%d' % nid).hex(), nid)
            roots.append((nid, k, p))
            plan.append(('spawn', nid))
            nid += 1
        b = r.choice(budgets)
        s += 'pass 0 %d\n' % b
        plan.append(('pass', b))
    return src, s, roots, plan, n


def do_family(ctx, k):
    r = ctx.rng()
    errs = r.random() < 0.25
    ts = make(r, errs)
    big = r.random() < 0.5
    budgets = [100000] if big else r.choice([[1], [2], [3], [7], [20], [50], [1, 5, 30], [3, 100], [9]])
    src, s, roots, plan, n = drive(ctx, r, ts, budgets, r.random() < 0.6, None if big else r.choice([150, 400]))
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode('latin1'))
    check_log(ctx, ts, src, lines, roots, plan, big)
    ctx.sample({'source': src[-700:], 'tail': lines[-6:]})


def check_log(ctx, ts, src, lines, roots, plan, big):
    if 'build ok' not in lines or 'init 1' not in lines:
        ctx.fail('not started', lines=lines[:4], source=src)
    ck = Checker(ctx)
    byid = {}        # string id -> list of (pass, event)
    tidof = {}
    passno = 0
    pi = 0
    rets = {}
    ran = {}         # tid -> list of passes in which it ran
    errpass = set()
    try:
        for l in lines:
            if l.startswith('E '):
                p = l.split(' ')
                t = int(p[2])
                if p[1] == 'halt':
                    ck.halt(t)
                    key = None
                    for sid, tt in tidof.items():
                        if tt == t:
                            key = sid
                    byid[key].append((passno, 'E halt '))
                    continue
                sid = p[4]
                if sid not in byid:
                    byid[sid] = []
                    tidof[sid] = t
                elif tidof[sid] != t:
                    ctx.fail('one thread under two identities', line=l)
                byid[sid].append((passno, core.observe([l])[0][0]))
            elif l.startswith('T'):
                ck.handler(l)
                if l.startswith('TF'):
                    rets[int(l.split(' ')[1])] = l.split(' ')[2:]
            elif l.startswith('spawn'):
                ck.spawned(int(l.split()[1]))
            elif l.startswith('pass '):
                while plan[pi][0] != 'pass':
                    pi += 1
                ck.pas(l, plan[pi][1])
                for t, c in ck.used.items():
                    if c:
                        ran.setdefault(t, []).append(passno)
                if l.startswith('pass 0'):
                    errpass.add(passno)
                pi += 1
                passno += 1
    except Exception as e:
        if hasattr(e, 'detail'):
            e.detail['source'] = src
            e.detail['recent'] = lines[max(0, lines.index(l) - 6):lines.index(l) + 1]
        raise
    # every thread: the events of its own program, in order, a prefix if unfinished
    expected = []
    for nid, k, p in roots:
        expected.append((b'%d' % nid, k, 'i%d' % nid, p))
    seen_ids = set()
    while expected:
        sid, k, arr, birth = expected.pop()
        ev = []
        events(ts, k, sid, arr, ev, None)
        got = byid.get(dump(sid), [])
        seen_ids.add(dump(sid))
        gi = 0
        at = birth           # pass in which it runs next, with unlimited budgets
        t = tidof.get(dump(sid))
        for e in ev:
            if isinstance(e, str):
                if gi >= len(got):
                    if big and at < passno and not any(q <= at for q in errpass):
                        ctx.fail('thread missed a pass', thread=sid.decode(), want=e, due=at, source=src)
                    break
                if got[gi][1] != e:
                    ctx.fail('thread disturbed', thread=sid.decode(), got=got[gi][1], want=e, before=[x[1] for x in got[max(0, gi - 3):gi]], source=src)
                if big and not errpass and got[gi][0] != at:
                    ctx.fail('thread ran in the wrong pass', thread=sid.decode(), event=e, got=got[gi][0], want=at, source=src)
                gi += 1
            elif e[0] == 'stop':
                if gi and gi < len(got):
                    # passes in which it ran between the two events
                    a, b = got[gi - 1][0], got[gi][0]
                    idle = (b - a + 1) - len([x for x in ran.get(t, []) if a <= x <= b])
                    idle_err = len([q for q in errpass if a < q < b])
                    if not (e[1] <= idle <= e[1] + idle_err):
                        ctx.fail('waited for the wrong number of passes', thread=sid.decode(), asked=e[1], idle=idle, source=src)
                    ctx.count['waits_checked'] += 1
                at += e[1] + 1
            elif e[0] == 'kid':
                b = got[gi][0] if gi < len(got) else None
                if gi < len(got):
                    expected.append((e[2], e[1], e[3], b + 1))
                elif dump(e[2]) in byid:
                    expected.append((e[2], e[1], e[3], 0 if not big else at + 1))
            elif e[0] == 'done':
                if gi < len(got):
                    ctx.fail('events after the end', thread=sid.decode(), got=got[gi][1])
                if t in rets and (rets[t][0] != 'success' or rets[t][1] != e[1]):
                    ctx.fail('wrong result of a thread', got=rets[t], want=e[1], source=src)
            elif e[0] == 'fail':
                if gi < len(got):
                    ctx.fail('events after a failure', thread=sid.decode(), got=got[gi][1], source=src)
                if t in rets and rets[t][0] != 'bad_array_bounds':
                    ctx.fail('wrong error of a thread', got=rets[t])
        if gi < len(got):
            ctx.fail('too many events', thread=sid.decode(), got=got[gi][1])
    extra = set(byid) - seen_ids
    if extra:
        ctx.fail('events of unknown threads', ids=sorted(extra)[:3], source=src)
    ctx.evals += 1
    ctx.count['passes'] += passno
    ctx.count['threads'] += len(byid)
    ctx.seen(tuple(lines))


def do_waits(ctx, k):
    """exact number of skipped passes for many values"""
    r = ctx.rng()
    vals = [r.choice([1, 2, 3, 4, 7, 8, 15, 16, 31, 100, 127, 128, 200, 255, 256, 257, 300] + [x for x in ctx.mined if 0 < x < 300]) for _ in range(r.randrange(1, 4))]
    how = r.choice(['wait(%s)', 'var q = wait(%s)', 'w(%s)', 'emit(id, [wait(%s)])'])
    lit = r.choice(['%d', '%d.0', '%d.75', 'opaque(%d)', '(%d + 0)'])
    L = ['function w(n)', '  return wait(n)', 'end', 'function main(id)', '  emit(id, "s")']
    for i, v in enumerate(vals):
        h = how % (lit % v)
        L += ['  ' + (h if not h.startswith('var') else 'var q%d = %s' % (i, h[8:])), '  emit(id, %d)' % i]
    L += ['end']
    src = '\n'.join(L) + '\n'
    s = 'passes 0 2 10\nhand 0 3 0\nspawn 0 1 main i1\n' + 'pass 0 100000\n' * (sum(vals) + len(vals) + 4)
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode())
    at, p, gi = [], 0, 0
    fin = None
    for l in lines:
        if l.startswith('E emit') and not l.endswith('A0(i0)'):
            at.append(p)
        if l.startswith('TF'):
            fin = p
        if l.startswith('pass '):
            p += 1
    want = [0]
    for v in vals:
        want.append(want[-1] + v + 1)
    if at != want or fin != want[-1]:
        ctx.fail('waited for the wrong number of passes', values=vals, got=at, want=want, fin=fin, source=src)
    ctx.evals += 1
    ctx.seen(how, lit, vals)


def do_oddwaits(ctx, k):
    """values that ask for no wait, for an endless one, or for nonsense"""
    r = ctx.rng()
    none = [('i0', 0), ('i-1', 0), ('i-2147483648', 0), (dump(0.0), 0), (dump(-0.5), 0), (dump(0.99), 0), (dump(-3.5e9), 0), (dump(-1e30), 0), (dump(-math.inf), 0), (dump(2.99), 2), (dump(1.0), 1)]
    ever = ['i2147483647', 'i1000000', dump(2147483648.0), dump(1e10), dump(3e38), dump(math.inf), dump(2147483520.0)]
    bad = ['n', 's', 's31', 'Fmain', 'Ywait', 'G0']
    kind = r.choice([0, 0, 1, 2])
    a, v = r.choice(none) if kind == 0 else (r.choice(ever), None) if kind == 1 else (r.choice(bad), None)
    src = 'var g = [1]\nfunction main(id, n)\n  emit(id, "s")\n  %s\n  emit(id, "e")\nend\nfunction other(id)\n  var i\n  for (i = 0 to 20)\n    emit(id, i)\n    wait(1)\n  end\nend\n' % r.choice(['wait(n)', 'var q = wait(n)', 'var w = wait\n  w(n)'])
    s = 'passes 0 2 10\nhand 0 3 0\nspawn 0 2 other i2\nspawn 0 1 main i1 %s\n' % a + 'pass 0 100000\n' * 30 + 'threads 0\n'
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode())
    at, p, fin, err, other = [], 0, None, None, []
    for l in lines:
        if l.startswith('E emit') and ' i1 s' in l:
            at.append(p)
        elif l.startswith('E emit'):
            other.append(p)
        elif l.startswith('TE'):
            err = p
        elif l.startswith('TF 1'):
            fin = p
        elif l.startswith('pass '):
            p += 1
    ctx.evals += 1
    ctx.seen(a, kind)
    if kind == 0:
        ok = at == [0, v + 1 if v else 0] and err is None
    elif kind == 1:
        ok = at == [0] and err is None and fin is None
    else:
        ok = at == [0] and err == 0
    if not ok or other != [2 * i for i in range(15)] and not err == 0:
        ctx.fail('unusual value to wait for', value=a, got=at, error=err, finished=fin, other=other, source=src, lines=lines[:12])


def do_long(ctx, k):
    """long waits, several threads at once"""
    r = ctx.rng()
    big = [1000, 1023, 1024, 1025, 2000, 4095, 4096, 5000, 9999, 10000, 32767, 32768, 65535, 65536, 70000] + [x for x in ctx.mined if 300 < x <= 80000]
    vals = [r.choice(big) if i else r.choice(big + sorted(ctx.new)) for i in range(r.randrange(1, 4))]
    vals = [v if 0 < v <= 80000 else 1000 for v in vals]
    src = 'function main(id, n)\n  emit(id, "s")\n  wait(n)\n  emit(id, "e")\nend\n'
    if any(v + 1 in vals for v in vals):
        ctx.skipped += 1
        return
    s = 'passes 0 2 10\nhand 0 3 0\n'
    for i, v in enumerate(vals):
        s += 'spawn 0 %d main i%d i%d\n' % (i + 1, i + 1, v)
    s += 'pass 0 1000\n'
    at = 0
    for v in sorted(set(vals)):
        # waiting is over in the pass after v more passes
        s += 'passes 0 %d 1000\nsay @early %d\npass 0 1000\nsay @late %d\n' % (v - at, v, v)
        at = v + 1
    s += 'pass 0 1\nthreads 0\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode())
    phase, got = None, {}
    for l in lines:
        if '@early' in l or '@late' in l:
            phase = l.split('@')[1]
        elif l.startswith('E emit') and l.endswith(b'e'.hex()):
            got.setdefault(int(l.split(' ')[-2][1:]), phase)
    ctx.evals += 1
    ctx.count['long waits'] += len(vals)
    for i, v in enumerate(vals):
        if got.get(i + 1) != 'early %d' % v:
            ctx.fail('long wait of the wrong length', value=v, values=vals, got=got, source=src)
    ctx.seen('long', vals)


def do_args(ctx, k):
    """arguments of new threads"""
    r = ctx.rng()
    n = r.choice([0, 1, 2, 3, 5, 8, 17, 40])
    vals = [r.choice(['1', '"s%d"' % i, '2.5', 'none', 'main', 'abs', '[%d, "a"]' % i, 'g', '"%s"' % ('x' * 200), '-7', 'opaque("o")']) for i in range(n)]
    direct = r.random() < 0.5
    src = 'var g = [0, "shared"]\nfunction kid(%s)\n  emit(%s)\n%s  return "kid"\nend\nfunction main()\n  var loc = "mine"\n  var f = kid\n  emit(new_thread(%s), loc)\n  g[1] = "later"\n  hhalt()\n  emit("back", loc, g)\nend\nfunction same()\n  var loc = "mine"\n  emit(%s)\nend\n' % (
        ', '.join('p%d' % i for i in range(n)), ', '.join('p%d' % i for i in range(n)), '  g[0] = "kid was here"\n', ', '.join([('kid' if direct else 'f')] + vals), ', '.join(vals))
    # what the values look like when emitted directly
    b = r.choice([100000, 1, 4])
    s = 'call 0 same\npasses 0 2 10\nhand 0 3 0\nspawn 0 1 main\n' + ('pass 0 %d\n' % b) * (4 if b == 100000 else 400) + 'threads 0\nglobals 0\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode())
    if 'build ok' not in lines:
        ctx.fail('rejected', source=src, lines=lines[:3])
    ev = [l.split(' ')[4:] for l in lines if l.startswith('E emit')]
    tid = [l.split(' ')[2] for l in lines if l.startswith('E emit')]
    ref = ev[0]
    kid = [e for e, t in zip(ev[1:], tid[1:]) if t != '1']
    norm = lambda e: [x.replace(b'later'.hex(), b'shared'.hex()) for x in e]
    if len(kid) != 1 or norm(kid[0]) != norm(ref):
        ctx.fail('new thread got wrong arguments', got=kid, want=ref, source=src)
    mine = [e for e, t in zip(ev, tid) if t == '1']
    if mine[0] != ['i0', dump(b'mine')] or mine[1][:2] != [dump(b'back'), dump(b'mine')]:
        ctx.fail('starting thread disturbed', got=mine, source=src)
    if lines[-1] != 'globals A0(%s,%s)' % (dump(b'kid was here'), dump(b'later')):
        ctx.fail('shared array not shared', got=lines[-1])
    if not [l for l in lines if l.startswith('threads fin=1 err=0')]:
        ctx.fail('threads not finished', line=[l for l in lines if l.startswith('threads')])
    ctx.evals += 1
    ctx.seen(vals, b)


def do_many(ctx, n):
    """many threads at once, each a counter of its own"""
    src = '''var slots = new_array(%d)
function w(id)
  var c = 0
  var i
  for (i = 0 to 20)
    c += id
    slots[id] = c
    if (i %% 5 == 0)
      wait(id %% 4)
    end
  end
  return c
end
function boss(n)
  var i
  for (i = 0 to n)
    new_thread(w, i)
  end
end
''' % n
    r = ctx.rng()
    b = r.choice([50, 100000])
    s = 'passes 0 2 10\nhand 0 3 0\nmaxev 1000000\nspawn 0 1 boss i%d\n' % n
    np = 60 + (n * 12 // b if b == 50 else 0) + (30 if b == 50 else 0)
    s += ('pass 0 %d\n' % b) * np + 'globals 0\nthreads 0\n'
    lines = ctx.run(core.script(src, 1, [('init',)]) + s.encode(), cpu=60)
    ck = Checker(ctx)
    fins = 0
    for l in lines:
        if l.startswith('spawn'):
            ck.spawned(1)
        elif l.startswith('T'):
            ck.handler(l)
            fins += l.startswith('TF')
        elif l.startswith('pass '):
            ck.pas(l, b)
    g = [l for l in lines if l.startswith('globals')][0]
    if g != 'globals A0(%s)' % ','.join('i%d' % (i * 20) for i in range(n)):
        ctx.fail('threads disturbed each other', got=g[:500])
    if fins != n + 1 or not lines[-1].startswith('threads fin=1 err=0'):
        ctx.fail('not all threads finished once', n=n, finished=fins, last=lines[-1][:300])
    ctx.evals += 1
    ctx.count['threads'] += n
    ctx.seen('many', n, b)


def do_share(ctx, k):
    """what threads share: globals and arrays, updated in unbroken segments"""
    r = ctx.rng()
    nt = r.randrange(2, 6)
    rounds = r.randrange(1, 7)
    src = '''var sum = 0
var log = new_array(%d)
var pos = 0
function w(id, n)
  var i
  for (i = 0 to n)
    sum += id
    log[pos] = id * 100 + i
    pos += 1
    %s
  end
  return sum
end
''' % (nt * rounds + 1, r.choice(['wait(%d)' % r.randrange(1, 4), 'hhalt()', 'wait(id % 3)', 'emit(id)']))
    s = 'passes 0 2 10\nhand 0 3 0\n' + ''.join('spawn 0 %d w i%d i%d\n' % (i + 1, i + 1, rounds) for i in range(nt))
    s += 'pass 0 100000\n' * (rounds * 4 + 4) + 'globals 0\nthreads 0\n'
    lines = ctx.run(core.script(src, r.randrange(2), [('init',)]) + s.encode())
    g = [l for l in lines if l.startswith('globals')][0].split(' ')
    total = rounds * nt * (nt + 1) // 2
    items = g[2][3:-1].split(',')
    want = sorted('i%d' % ((i + 1) * 100 + j) for i in range(nt) for j in range(rounds)) + ['n']
    if g[1] != 'i%d' % total or sorted(items[:-1]) != want[:-1] or items[-1] != 'n' or g[3] != 'i%d' % (nt * rounds):
        ctx.fail('shared state wrong', got=g, source=src)
    for i in range(nt):
        own = [x for x in items[:-1] if 100 * (i + 1) <= int(x[1:]) < 100 * (i + 2)]
        if own != ['i%d' % ((i + 1) * 100 + j) for j in range(rounds)]:
            ctx.fail('program order broken', thread=i + 1, got=own)
    if not lines[-1].startswith('threads fin=1 err=0'):
        ctx.fail('threads not finished', line=lines[-1])
    ctx.evals += 1
    ctx.seen(src, g)
