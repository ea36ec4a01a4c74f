"""C14 damaged program files and failed input or output"""
import os, struct
import core, gen, kit, lang, mutate
from c13 import split, tables
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Programs are saved and the files damaged: cut at every byte, every aligned word and every recognised size field replaced by hostile values, bytes flipped, inserted, removed and '
        'replaced, files exchanged for directories, devices and nothing. Every load runs under the address sanitizer with a 64 MB limit on single allocations; the oracle is an independent '
        'reader of the file: a load succeeds only if the tables are complete, and then holds exactly them. Saving is repeated with room for every number of bytes (file size limit), on full '
        'devices, unwritable paths and without free file handles. After failures the same object must load and build a good program and run it, with no file handle left. '
        'Non-trivial: distinct damaged file.')
CHUNK = 2
ENVV = {'ASAN_OPTIONS': 'exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:allocation_size_limit_mb=64:max_malloc_fill_size=4096:malloc_fill_byte=190'}
ASSUME = ['bytes after a complete program and negative table sizes may be ignored', 'the contents of a program object after a failed load are not specified, except that a partly read program must not remain']


def cases(ctx):
    n = 4 if ctx.quick else 20
    out = [('cut', k) for k in range(30 * n)]
    out += [('fields', k) for k in range(40 * n)]
    out += [('flip', k) for k in range(120 * n)]
    out += [('files', k) for k in range(8)]
    out += [('room', k) for k in range(20 * n)]
    out += [('bigroom', k) for k in range(3 * n)]
    out += [('handles', k) for k in range(4)]
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


# ---- the file, read independently
class Short(Exception):
    pass


class Reader:
    def __init__(self, b):
        self.b, self.p = b, 0
        self.words = []          # offsets of size fields

    def i(self, size=False):
        if self.p + 4 > len(self.b):
            raise Short
        if size:
            self.words.append(self.p)
        v = struct.unpack_from('<i', self.b, self.p)[0]
        self.p += 4
        return v

    def raw(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Short
        v = self.b[self.p:self.p + n]
        self.p += n
        return v

    def s(self):
        return self.raw(self.i(True))

    def var(self):
        n = self.s()
        return n, self.i()

    def many(self, f):
        n = self.i(True)
        return [f() for _ in range(n)] if n > 0 else []

    def func(self):
        name = self.s()
        a, b = self.i(), self.i()
        loc = self.many(self.var)
        args = self.many(self.var)
        return name, a, b, args, loc

    def program(self):
        if self.i() != 0x4c4d4343:
            raise Short
        sysc = self.many(self.s)
        funcs = self.many(self.func)
        code = self.raw(self.i(True))
        lines = {}
        for pc, f, l in self.many(lambda: (self.i(), self.i(), self.i())):
            lines[pc] = (f, l)
        strs = self.many(self.s)
        out = ['code ' + code.hex()]
        v = lambda x: ''.join(' %s:%d' % (n.hex(), o) for n, o in x)
        for n, a, b, args, loc in funcs:
            out.append('func %s %d %d args%s locals%s' % (n.hex(), a, b, v(args), v(loc)))
        out += ['str %s.' % x.hex() for x in strs]
        out += ['sysc %s' % x.hex() for x in sysc]
        out.append('lines' + ''.join(' %d=%d:%d' % (pc, *lines[pc]) for pc in sorted(lines)))
        return out


def norm(t):
    return [l.rstrip() for l in t]


GOOD = 'var q = "good"\nfunction good(k)\n  return q + k\nend\n'


def program(ctx, r, big=False):
    if big:
        t = ''.join('function f%d(aa, bb)\n  var cc = "%s"\n  return cc + aa\nend\n' % (i, chr(97 + i % 26) * 50) for i in range(100))
    else:
        t = kit.random_program(ctx, r, gen.Cfg(err=0, nest=1, stmts=r.randrange(1, 4), depth=r.randrange(1, 3), funcs=r.randrange(0, 4), globals=r.randrange(0, 4)))[2]
    return t


def save(ctx, t, path, opt=1):
    P = split(ctx.run(src_cmd(0, t) + b'comp 0 0 %d bh\nsay #b\nbuild 0 0\nsay #s\nsave 0 %s\nsay #d\npdump 0\n' % (opt, path.encode())))
    if P['b'] != ['build ok'] or P['s'] != ['save 1']:
        ctx.fail('good program not built or saved', source=t, got=P['b'] + P['s'])
    b = open(path, 'rb').read()
    R = Reader(b)
    known = False
    try:
        known = norm(R.program()) == norm(tables(P['d'])) and R.p == len(b)
    except Short:
        pass
    if not known:
        ctx.count['unknown file format'] += 1
    return b, R.words if known else None, tables(P['d'])


def after(ctx, path, slot=1):
    """the object can be loaded and built again"""
    return (b'say #after\nload %d %s\npdump %d\nsay #built\npreset %d\ncomp 7 %d 1 bh\n' % (slot, path.encode(), slot, slot, slot) + src_cmd(7, GOOD) +
            b'build 7 7\nbind %d bh\nvm 7 %d\ninit 7\ncall 7 good i5\nvfree 7\ncfree 7\nsrcfree 7\n' % (slot, slot))


def check_after(ctx, P, want, **kw):
    if P['after'][0] != 'load 1' or tables(P['after']) != want:
        ctx.fail('good file not loaded after a failure', got=P['after'][:1], **kw)
    if not any('s' + b'good5'.hex() in l for l in P['built']):
        ctx.fail('program not usable after a failed load', got=P['built'], **kw)


def do_cut(ctx, k):
    r = ctx.rng()
    t = program(ctx, r) if k else 'function main()\nend\n'
    f = ctx.tmp() + '/p.bin'
    b, w, dump = save(ctx, t, f, k & 1)
    if len(b) > 6000 and ctx.quick:
        t = 'var a = "x"\nfunction main(b)\n  var c = b\n  return emit(a + c)\nend\n'
        b, w, dump = save(ctx, t, f, k & 1)
    P = split(ctx.run(b'prog 1\nsay #scan\nloadscan 1 %s 0 %d 1\n' % (f.encode(), len(b) + 1) + after(ctx, f), env=ENVV))
    p = P['scan'][0].split(' ')
    ok = [int(x[2:]) for x in p if x.startswith('ok')]
    half = [x for x in p if x.startswith('half')]
    if ok != [len(b)]:
        ctx.fail('a truncated file is taken for a program', source=t, size=len(b), loaded=ok[:20])
    if half:
        ctx.fail('part of a program remains after a failed load', source=t, at=half[:20])
    if 'fds=0' not in p:
        ctx.fail('file handles leak', got=P['scan'][0][-100:])
    check_after(ctx, P, dump, source=t)
    ctx.evals += len(b) + 1
    ctx.count['truncations'] += len(b)
    for n in range(len(b)):
        ctx.seen(b[:n])
    ctx.sample('%d truncations of a file' % len(b))


def tryload(ctx, variants, good, dump, known, src):
    """variants: list of file contents"""
    d = ctx.tmp()
    s = b'say #mem0\nmem\n'
    for i, v in enumerate(variants):
        p = d + '/v%d.bin' % i
        with open(p, 'wb') as fd:
            fd.write(v)
        s += b'prog 2\nsay #%d\nload 2 %s\npdump 2\nsave 2 %s.re\nprog 3\nload 3 %s.re\nsay #%dr\npdump 3\npfree 3\npfree 2\n' % ((i,) + (p.encode(),) * 3 + (i,))
        s += b'prog 1\nload 1 %s\n' % p.encode()
    s += b'say #mem1\nmem\n' + after(ctx, good)
    P = split(ctx.run(s, env=ENVV))
    for i, v in enumerate(variants):
        ctx.evals += 1
        got = P[str(i)]
        t = norm(tables(got))
        try:
            want = norm(Reader(v).program()) if known else None
        except Short:
            want = 'short'
        kw = dict(source=src, file=v.hex()[:8000])
        if got[0] == 'load 1':
            ctx.count['damaged but complete'] += 1
            if want == 'short':
                ctx.fail('an incomplete file is taken for a program', **kw)
            if want is not None:
                x = core.first_diff(t, want)
                if x:
                    ctx.fail('a damaged file is read wrongly', **dict(x, **kw))
            if norm(tables(P['%dr' % i])) != t:
                ctx.fail('a loaded program does not survive saving and loading', **kw)
        else:
            ctx.count['refused'] += 1
            if any(not l.startswith('lines') or l != 'lines' for l in t if l not in ('code', 'code ', 'lines')):
                ctx.fail('part of a program remains after a failed load', got=t[:5], **kw)
        ctx.seen(v)
        for x in ('', '.re'):
            try:
                os.unlink(d + '/v%d.bin%s' % (i, x))
            except OSError:
                pass
    f = [l.split('fds=')[1] for k in ('mem0', 'mem1') for l in P[k] if 'fds=' in l]
    if len(set(f)) != 1:
        ctx.fail('file handles leak', got=f)
    check_after(ctx, P, dump, source=src)
    ctx.sample('%d damaged files' % len(variants))


HOSTILE = [0, 1, 2, 3, 255, 256, 65535, 65536, 0x7fffffff, 0x7ffffffe, 0x40000000, 0x10000000, 0x01000000, -1, -2, -4, -256, -0x80000000, 0x4c4d4343]


def do_fields(ctx, k):
    r = ctx.rng()
    t = program(ctx, r)
    f = ctx.tmp() + '/p.bin'
    b, w, dump = save(ctx, t, f, k & 1)
    at = list(w) if w else []
    at += [x for x in range(0, len(b) - 3, 4)] + [0]
    V = []
    for _ in range(60 if ctx.quick else 200):
        p = r.choice(w) if w and r.random() < 0.7 else r.choice(at)
        old = struct.unpack_from('<i', b, p)[0]
        n = r.choice(HOSTILE + [old + 1, old - 1, old * 2, old // 2, len(b), len(b) - p, len(b) - p - 4, len(b) - p - 3])
        n = (n + 2**31) % 2**32 - 2**31
        v = b[:p] + struct.pack('<i', n) + b[p + 4:]
        if r.random() < 0.2:
            v += bytes(r.randrange(256) for _ in range(r.randrange(1, 60)))
        V.append(v)
    tryload(ctx, V, f, dump, w is not None, t)


def do_flip(ctx, k):
    r = ctx.rng()
    t = program(ctx, r)
    f = ctx.tmp() + '/p.bin'
    b, w, dump = save(ctx, t, f, k & 1)
    V = []
    for _ in range(40 if ctx.quick else 120):
        v = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5])):
            i = r.randrange(len(v))
            x = r.random()
            if x < 0.4:
                v[i] ^= 1 << r.randrange(8)
            elif x < 0.6:
                v[i] = r.choice([0, 255, 128, 127, r.randrange(256)])
            elif x < 0.7:
                v[i:i] = bytes(r.randrange(256) for _ in range(r.randrange(1, 9)))
            elif x < 0.8 and len(v) > 20:
                del v[i:i + r.randrange(1, 9)]
            elif x < 0.9:
                j = r.randrange(len(v))
                v[i:i + 16] = v[j:j + 16]
            else:
                v = v[:max(1, i)]
            v = v or bytearray(b'x')
        if r.random() < 0.1:
            v = bytearray(r.randrange(256) for _ in range(r.choice([1, 4, 8, 100, 1000])))
        V.append(bytes(v))
    tryload(ctx, V, f, dump, w is not None, t)


def do_files(ctx, k):
    r = ctx.rng()
    d = ctx.tmp()
    f = d + '/p.bin'
    t = program(ctx, r, big=k & 1)
    b, w, dump = save(ctx, t, f)
    os.makedirs(d + '/dir/sub', exist_ok=True)
    open(d + '/empty', 'wb').close()
    open(d + '/text', 'wb').write(b'function main()\nend\n')
    open(d + '/plain', 'wb').write(b)
    open(d + '/zeros', 'wb').write(b'\0' * 5000)
    bad = [d + '/missing', d + '/dir', d + '/missing/x.bin', d + '/plain/x.bin', d + '/empty', d + '/text', d + '/zeros', '/dev/null', '/dev/zero', d + '/' + 'n' * 300, '/proc/self/mem', d]
    s = b'prog 1\nsay #m0\nmem\n'
    for i, p in enumerate(bad):
        s += b'say #l%d\nload 1 %s\npdump 1\n' % (i, p.encode())
    s += b'say #m1\nmem\n' + after(ctx, f) + b'load 1 %s\n' % f.encode()
    un = [d + '/dir', d + '/missing/x.bin', d + '/plain/x.bin', '/dev/full', d + '/' + 'n' * 300, d]
    for i, p in enumerate(un):
        s += b'say #s%d\nsave 1 %s\n' % (i, p.encode())
    s += b'say #m2\nmem\nsay #n\nsave 1 %s\nsave 1 /dev/null\nprog 2\nload 2 %s\npdump 2\n' % ((d + '/again').encode(), (d + '/again').encode())
    P = split(ctx.run(s, env=ENVV))
    ctx.evals += len(bad) + len(un)
    for i, p in enumerate(bad):
        if P['l%d' % i][0] != 'load 0':
            ctx.fail('load of something that is no program succeeds', what=p.replace(d, ''))
        ctx.seen('load', p.replace(d, ''), k)
    for i, p in enumerate(un):
        if P['s%d' % i] != ['save 0']:
            ctx.fail('failed save not reported', what=p.replace(d, ''))
        ctx.seen('save', p.replace(d, ''), k)
    check_after(ctx, P, dump)
    if P['n'][:3] != ['save 1', 'save 1', 'load 1'] or tables(P['n']) != dump:
        ctx.fail('save after failures', got=P['n'][:3])
    fds = {l.split('fds=')[1] for x in ('m0', 'm1', 'm2') for l in P[x]}
    if len(fds) != 1:
        ctx.fail('file handles leak', got=sorted(fds))
    if os.listdir(d + '/dir') != ['sub']:
        ctx.fail('failed save changed a directory')


def do_room(ctx, k):
    """saving with room for n bytes only, for every n"""
    r = ctx.rng()
    t = program(ctx, r) if k else 'function main()\nend\n'
    f = ctx.tmp() + '/p.bin'
    b, w, dump = save(ctx, t, f, k & 1)
    if len(b) > 3000 and ctx.quick:
        t = 'var a = "x"\nfunction main(b)\n  var c = b\n  return emit(a + c)\nend\n'
        b, w, dump = save(ctx, t, f)
    room(ctx, t, f, b, 0, len(b) + 3, 1)


def do_bigroom(ctx, k):
    """the same beyond the size of stream buffers"""
    r = ctx.rng()
    t = ''.join('var s%d = "%s"\n' % (i, chr(97 + i % 26) * r.randrange(1, 900)) for i in range(60)) + program(ctx, r, big=True)
    f = ctx.tmp() + '/p.bin'
    b, w, dump = save(ctx, t, f)
    room(ctx, t, f, b, 0, len(b), 401 if ctx.quick else 37)
    for m in (4096, 8192, 16384, len(b) - len(b) % 4096, len(b)):
        if m - 3 > 0:
            room(ctx, t, f, b, m - 3, m + 4, 1)


def room(ctx, t, f, b, lo, hi, step):
    g = f + '.room'
    if os.path.exists(g):
        os.unlink(g)
    P = split(ctx.run(b'prog 1\nsay #l\nload 1 %s\nsay #r\nsavescan 1 %s %d %d %d\nsay #e\nsave 1 %s\n' % (f.encode(), g.encode(), lo, hi, step, g.encode())))
    p = P['r'][0].split(' ')
    ok = [int(x[2:]) for x in p if x.startswith('ok')]
    want = [n for n in range(lo, hi, step) if n >= len(b)]
    ctx.evals += len(range(lo, hi, step))
    ctx.count['failed writes'] += len(range(lo, hi, step)) - len(want)
    if ok != want:
        ctx.fail('incomplete save reported as success' if len(ok) > len(want) else 'complete save reported as failure', source=t[:3000], size=len(b), said_ok=ok[:20])
    if 'fds=0' not in p:
        ctx.fail('file handles leak', got=P['r'][0][-60:])
    if P['e'] != ['save 1'] or open(g, 'rb').read() != b:
        ctx.fail('save after a failed save', source=t[:3000])
    for n in range(lo, hi, step):
        ctx.seen('room', b, n)
    ctx.sample('%d saves with limited room' % len(range(lo, hi, step)))


def do_handles(ctx, k):
    """no file handle to be had"""
    r = ctx.rng()
    t = program(ctx, r)
    f = ctx.tmp() + '/p.bin'
    b, w, dump = save(ctx, t, f)
    P = split(ctx.run(b'prog 1\nsay #l\nload 1 %s\nnofile 0\nsay #x\nload 1 %s\nsave 1 %s.no\nnofile -1\nsay #y\nload 1 %s\nsave 1 %s.no\nnofile 1\nsay #z\nload 1 %s\nload 1 %s\nload 1 %s\nsave 1 %s.no\nsave 1 %s.no\nnofile -1\n' % ((f.encode(),) * 10) + after(ctx, f)))
    ctx.evals += 5
    if P['x'] != ['load 0', 'save 0']:
        ctx.fail('impossible load or save succeeds', got=P['x'])
    if P['y'] != ['load 1', 'save 1']:
        ctx.fail('load or save fails after a failure', got=P['y'])
    if P['z'] != ['load 1'] * 3 + ['save 1'] * 2:
        ctx.fail('one free handle does not suffice', got=P['z'])
    check_after(ctx, P, dump)
    ctx.seen('handles', k)
