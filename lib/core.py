"""The differential core: a scenario (program text + what the host does with it)
is carried out by the real compiler and machine and by the reference
interpreter, and the two logs are compared line by line."""
import lang
from lang import S, dump, canon, Interp, Program, Budget, RtErr
from probe import src_cmd


def args_text(args):
    return ''.join(' ' + dump(a) for a in args).replace('fnan', 'f7fc00000')


def script(srcs, opt, steps, flags='bh', pre='', mode=None):
    """srcs: list of texts loaded in order into source set 0"""
    out = b''
    for s in srcs if isinstance(srcs, (list, tuple)) else [srcs]:
        out += src_cmd(0, s)
    t = 'comp 0 0 %d %s\nbuild 0 0\nbind 0 %s\nvm 0 0\n%s' % (opt, flags, flags, pre)
    return out + (t + steps_text(steps, mode=mode)).encode('latin1')


def steps_text(steps, vm=0, mode=None):
    t = ''
    n = 100
    for s in steps:
        if s[0] == 'init':
            if mode:
                # the same through a thread of its own
                t += 'say INIT\nspawn %d 99 @init\nrun %d 99 %s\n' % (vm, vm, mode)
            else:
                t += 'init %d\n' % vm
        elif s[0] == 'call':
            t += 'call %d %s%s\n' % (vm, s[1], args_text(s[2]))
        elif s[0] == 'run':
            n += 1
            m = mode or (s[3] if len(s) > 3 else 'go 5000000')
            t += 'spawn %d %d %s%s\nrun %d %d %s\n' % (vm, n, s[1], args_text(s[2]), vm, n, m)
        elif s[0] == 'globals':
            t += 'globals %d\n' % vm
        else:
            raise AssertionError(s)
    return t


def expect(decls, steps, **kw):
    """log the reference interpreter makes of the same scenario; raises Budget"""
    I = Interp(Program(decls), **kw)
    out = []
    keys = []
    dead = False
    for s in steps:
        if dead:
            break
        n0 = len(I.events)
        if s[0] == 'init':
            r = I.init()
            tail = ['init 1'] if r[0] == 'ok' else ['init 0 err=%s line=%d:%d' % (r[1], *r[2])]
            dead = r[0] != 'ok'
        elif s[0] in ('call', 'run'):
            r = I.call(s[1], list(s[2]))
            if s[0] == 'run':
                if r[0] == 'ok':
                    tail = ['run fin=1 err=success ret=' + dump(r[1])]
                elif r[2] is None:
                    tail = ['spawn null', 'run gone']
                else:
                    tail = ['run fin=1 err=%s ret=- line=%d:%d' % (r[1], *r[2])]
            else:
                if r[0] == 'ok':
                    tail = ['call 1 err=success ret=' + dump(r[1])]
                elif r[2] is None:
                    tail = ['call 0 err=%s ret=- nothread' % r[1]]
                else:
                    tail = ['call 0 err=%s ret=- line=%d:%d' % (r[1], *r[2])]
        elif s[0] == 'globals':
            seen = {}
            tail = [' '.join(['globals'] + [dump(x, seen) for x in I.g])]
        for e in I.events[n0:]:
            if e[0] == 'E':
                out.append('E %s %s' % (e[1], ' '.join(e[2])))
                keys.append((len(out), e[3]))
            elif e[0] == 'H':
                out.append('H %d %s' % (e[1], ' '.join('%d:%d' % x for x in e[2])))
            else:
                out.append(e[1])
        out += tail
    return I, out, keys


def observe(lines, stop_init=True):
    """the same log from the executor's answer"""
    out = []
    bases = []
    build = None
    initing = False
    for l in lines:
        c = l[:2]
        if initing and l.startswith('run '):
            initing = False
            d = dict(x.split('=', 1) for x in l.split(' ')[1:] if '=' in x)
            l = 'init 1' if d.get('err') == 'success' else 'init 0 err=%s line=%s' % (d.get('err'), d.get('line'))
        if c == 'E ':
            p = l.split(' ')
            out.append(canon('E %s %s' % (p[1], ' '.join(p[4:]))))
            bases.append((len(out), int(p[3])))
        elif c == 'H ':
            p = l.split(' ')
            out.append('H %s %s' % (p[2], ' '.join(p[3:p.index('|')])))
        elif c == 'A ':
            p = l.split(' ')
            out.append(canon('A %s %s' % (p[1], ' '.join(p[3:]))))
        elif l.startswith('run '):
            p = l.split(' ')
            d = dict(x.split('=', 1) for x in p[1:] if '=' in x)
            if 'fin' not in d:
                out.append('run ' + p[1])
            elif d['err'] == 'success':
                out.append(canon('run fin=%s err=%s ret=%s' % (d['fin'], d['err'], d['ret'])))
            else:
                out.append('run fin=%s err=%s ret=- line=%s' % (d['fin'], d['err'], d['line']))
        elif l.startswith('call ') or l.startswith('globals'):
            out.append(canon(l))
        elif l.startswith('init '):
            out.append(l)
            if stop_init and l != 'init 1':
                break
        elif l.startswith('spawn null'):
            out.append(l)
        elif l.startswith('build '):
            build = l
            if l != 'build ok':
                p = l.split(' ')
                out.append('build err %s %s' % (p[2], bytes.fromhex(p[3]).decode('latin1') if len(p) > 3 else ''))
                break
        elif l == 'say INIT':
            initing = True
        elif l.startswith('src fail'):
            out.append(l)
    return out, bases, build


def exprs(decls):
    """every expression of a program"""
    for s in decls:
        for x in (s.a, s.b, s.c, s.d):
            if isinstance(x, tuple):
                yield x
            elif isinstance(x, list) and x and isinstance(x[0], S):
                yield from exprs(x)


def subexprs(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from subexprs(x)
        elif isinstance(x, list):
            for y in x:
                yield from subexprs(y)


def div_by_zero(decls):
    """a constant division by zero somewhere: may be diagnosed early"""
    consts = {d.a: d.b for d in decls if d.k == 'const'}
    for e in exprs(decls):
        for x in subexprs(e):
            if x[0] == 'bin' and x[1] in '/%':
                try:
                    lang.fold(x, consts)
                except ZeroDivisionError:
                    return True
    return False


def first_diff(got, want):
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else '(nothing)'
        b = want[i] if i < len(want) else '(nothing)'
        if a != b:
            return {'at': i, 'got': a[:2000], 'want': b[:2000], 'before': [x[:200] for x in got[max(0, i - 3):i]]}
    return None


def judge(ctx, key, lines, want, src=None):
    got, bases, build = observe(lines)
    d = first_diff(got, want)
    if d:
        d['source'] = src if isinstance(src, str) else repr(src)
        k = d['got'].split(' ')[0:2]
        ctx.fail('%s: %s instead of %s' % (key, kind_of(d['got']), kind_of(d['want'])), **d)
    return got, bases


def kind_of(l):
    p = l.split(' ')
    if p[0] == 'build':
        return 'rejected'
    if p[0] in ('run', 'call', 'init'):
        import re
        m = re.search(r'err=(\w+)', l)
        return p[0] + (' ' + m.group(1) if m else ' ok')
    return ' '.join(p[:2]) if p[0] in 'EA' else p[0]


def balance(ctx, bases, keys):
    """the operand stack is equally deep whenever the same call of a host
    function is reached through the same chain of calls"""
    m = {}
    n = 0
    for (i, b), (j, k) in zip(bases, keys):
        if i != j:
            return n
        if k in m:
            n += 1
            if m[k] != b:
                ctx.fail('stack out of balance', event=i, first=m[k], now=b)
        else:
            m[k] = b
    return n


def differential(ctx, decls, steps, src=None, opts=(0, 1), flags='bh', style=None, check_balance=False,
                 key='differs', nontrivial=None, hv=None, pre='', budget=20000, fnoff=False, modes=(None,)):
    """the whole round for one program; returns the expected log or None when
    the program leaves the bounds of the reference"""
    if src is None:
        src = lang.Printer(style).program(decls)
    try:
        if div_by_zero(decls):
            raise Budget()
        I, want, keys = expect(decls, steps, hv=hv, budget=budget)
    except (Budget, RecursionError):
        ctx.skipped += 1
        return None
    for o in opts:
      for mode in modes:
        lines = ctx.run(script(src, o, steps, flags, pre, mode))
        got, bases = judge(ctx, key if mode is None else '%s (%s)' % (key, mode.split(' ')[0]), lines, want, src)
        ctx.evals += 1
        ctx.count['events_compared'] += len(got)
        if check_balance:
            ctx.count['balance_points'] += balance(ctx, bases, keys)
    if nontrivial is None or nontrivial(want):
        ctx.seen(want)
    return I, want
