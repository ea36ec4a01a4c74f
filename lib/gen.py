"""Random programs.  Types steer the generator towards programs that run far;
what a program means is decided by lang.Interp only."""
import os, re, random
from lang import S, fold, BUILTIN, HOST, KEYWORDS, i32

INTS = [0, 1, 2, 3, 5, 7, 10, 16, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024,
        32767, 32768, 65535, 65536, 65537, 16777215, 16777216, 16777217, 2147483646, 2147483647,
        -1, -2, -3, -7, -128, -129, -256, -32768, -32769, -65536, -2147483647, -2147483648]
FLTS = ['0.0', '1.0', '0.5', '2.5', '1.5', '3.25', '0.1', '100.75', '16777216.0', '3000000000.0',
        '0.000001', '123456.789', '65535.5', '1.', '0.999999', '99999999999999999999.0',
        '340000000000000000000000000000000000000.0', '0.0000000000000000000000000000000000000001', '7.0',
        '-0.5', '-1.0', '-2.5', '-1000.125']
STRS = [b'', b'a', b'ab', b'hello', b'none', b'0', b'1', b'end', b'# no comment', b'  sp  ', b'x' * 31,
        b'y' * 32, b'z' * 33, b'q' * 63, b'q' * 64, b'w' * 127, b'w' * 128, b'e' * 255, b'e' * 256,
        b'\xff\x80\x01', b'tab\tin', b'%s%d%n%f', b'a\\b', b'if (1)', b"it's", b'\r', b'k' * 511, b'k' * 1023, b'k' * 1024,
        b'k' * 1025]
# identifiers chosen to look like keywords and builtins
NAMES = ['x', 'y', 'z', 'i', 'j', 'k', 'n', 'foo', 'bar', 'end_', 'ending', 'iff', 'fort', 'nothing', 'android',
         'orb', 'variable', 'constant', 'returned', 'elsewhere', 'tox', 'whiles', 'functional', 'nonesuch',
         'imports', 'length', 'a1', '_a', '__', 'A', 'Ab', 'aB', 'a_very_long_name_that_goes_on_and_on_and_on_for_ever',
         'x1y2z3', 'e', 'E', 'o', 'N', 'T', '_', 'main2', 'init', 'f_', 'vAr_', 'not_', 'a', 'b', 'c', 'd', 'to_']


def mine(repo):
    """numbers written in the sources, and their neighbours: values at which
    the implementation might behave differently"""
    nums = set()
    for root, _, files in os.walk(os.path.join(repo, 'source')):
        if 'sdl' in root:
            continue
        for f in files:
            if f.endswith(('.cpp', '.h')):
                with open(os.path.join(root, f), encoding='latin1') as fd:
                    t = fd.read()
                for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:u|U|l|L)*(?![\w.])', t):
                    try:
                        v = int(m.group(1), 0)
                    except ValueError:
                        try:
                            v = int(m.group(1))
                        except ValueError:
                            continue
                    if v <= 0xffffffff:
                        for d in (-1, 0, 1):
                            nums.add(i32(v + d))
                # products and shifts: 1024 * 4, 1u << 12
                for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|[1-9]\d*)[uUlL]*\s*(\*|<<)\s*(0[xX][0-9a-fA-F]+|[1-9]\d*)(?![\w.]*\.)', t):
                    a, b = int(m.group(1), 0), int(m.group(3), 0)
                    v = a * b if m.group(2) == '*' else a << b if b < 32 else 1 << 40
                    if v <= 0xffffffff:
                        for d in (-1, 0, 1):
                            nums.add(i32(v + d))
    return sorted(nums)


# numbers in the sources that say nothing about sizes (character codes, small
# counts, the seed of the random numbers); only used to order the work
COMMON = set(range(-300, 19)) | {12344, 12345, 12346}
for _v in (24, 32, 64, 75, 79, 80, 100, 128, 222, 255, 256, 1024, 8192, 65536, 131072, 1048576, 8388607):
    COMMON |= {_v - 1, _v, _v + 1}


def mine_strings(repo):
    out = set()
    for root, _, files in os.walk(os.path.join(repo, 'source')):
        if 'sdl' in root:
            continue
        for f in files:
            if f.endswith(('.cpp', '.h')):
                with open(os.path.join(root, f), encoding='latin1') as fd:
                    for m in re.finditer(r'"([^"\\\n]{1,24})"', fd.read()):
                        out.add(m.group(1))
    return sorted(out)


class Cfg:
    def __init__(self, **kw):
        self.funcs = 4          # user functions beside main
        self.globals = 4
        self.consts = 2
        self.depth = 4          # expression depth
        self.stmts = 6          # statements per block
        self.nest = 3           # block nesting
        self.err = 0.0          # chance of an ill typed operand
        self.arrays = 1.0
        self.strings = 1.0
        self.floats = 1.0
        self.funcvals = 1.0
        self.builtins = 1.0
        self.recursion = 1.0
        self.emit = 0.25        # chance a statement is an emit
        self.deadcode = 0.05
        self.globals_init_calls = 0.3
        self.constfold = 0.15   # chance of a constant condition or operand
        self.here = 0.0
        self.members = 0.0
        self.maxloop = 6
        self.fnstr = False      # text of function values
        self.ints = INTS
        self.extra = []
        self.__dict__.update(kw)


class V:
    """a visible variable"""
    __slots__ = ('name', 't', 'ro')

    def __init__(self, name, t, ro=False):
        self.name, self.t, self.ro = name, t, ro


class Gen:
    def __init__(self, rng, cfg=None):
        self.r = rng
        self.c = cfg or Cfg()
        self.uid = 0
        self.funcs = []          # (name, nargs, argtypes, rettype, recursive)
        self.gvars = []
        self.consts = {}
        self.ctype = {}
        self.taken = set(BUILTIN) | set(HOST) | {'new_thread', 'main'} | KEYWORDS
        self.scopes = []
        self.indef = None
        self.site = 0
        self.lnames = set()

    # ---- names
    def fresh(self, prefix='v'):
        r = self.r
        if r.random() < 0.25:
            n = r.choice(NAMES)
            # declarations are reordered later, so a global may not carry a
            # name that any local has
            if prefix != 'l' and n in self.lnames:
                n = 'var'
            if n not in self.taken and n.lower() not in KEYWORDS and not any(n == v.name for s in self.scopes for v in s):
                if prefix == 'l':
                    self.lnames.add(n)
                return n
        self.uid += 1
        return '%s%d' % (prefix, self.uid)

    def local_name(self):
        # names may be reused once their scope is closed
        r = self.r
        if r.random() < 0.5:
            n = r.choice(['t', 'u', 'w', 'p', 'q', 'x', 'y', 'i'])
            if n not in self.taken and not any(n == v.name for s in self.scopes for v in s):
                self.lnames.add(n)
                return n
        return self.fresh('l')

    def visible(self, t=None, writable=False):
        out = []
        for s in self.scopes:
            for v in s:
                if (t is None or v.t == t) and not (writable and v.ro):
                    out.append(v)
        for v in self.gvars:
            if (t is None or v.t == t) and not (writable and v.ro):
                out.append(v)
        return out

    # ---- expressions
    def lit(self, t):
        r = self.r
        if t == 'i':
            x = r.random()
            if x < 0.5:
                return ('int', r.randrange(-20, 100))
            if x < 0.85:
                return ('int', r.choice(self.c.ints))
            return ('int', i32(r.getrandbits(32)))
        if t == 'f':
            x = r.choice(FLTS)
            return ('neg', ('flt', x[1:])) if x[0] == '-' else ('flt', x)
        if t == 's':
            if r.random() < 0.6:
                return ('str', r.choice(STRS[:12]))
            if r.random() < 0.5:
                return ('str', r.choice(STRS))
            n = r.choice([1, 2, 3, 8, 20])
            return ('str', bytes(r.choice(b'abcXYZ 0189_+-#%$!@(){}[];:,.<>/?~`^&*|=\'') for _ in range(n)))
        if t == 'n':
            return ('none',)
        if t == 'a':
            return ('arr', [self.lit(r.choice('iifsn')) for _ in range(r.randrange(1, 5))])
        if t == 'F':
            return self.fnval(None)
        return self.lit(self.some_type())

    def some_type(self):
        c, r = self.c, self.r
        ts = ['i'] * 6
        if r.random() < c.floats:
            ts += ['f', 'f']
        if r.random() < c.strings:
            ts += ['s', 's']
        if r.random() < c.arrays:
            ts += ['a', 'a']
        ts += ['n']
        return r.choice(ts)

    def fnval(self, nargs):
        r = self.r
        fs = [f for f in self.funcs if nargs is None or f[1] == nargs]
        if fs and r.random() < 0.85:
            return ('id', r.choice(fs)[0])
        if nargs in (None, 1):
            return ('id', r.choice(['abs', 'echo', 'opaque', 'floor', 'round']))
        return ('none',)

    def safe_div(self, op, l, rt, e):
        try:
            v = fold(e, self.consts)
            return e
        except ZeroDivisionError:
            return ('bin', op, l, ('int', self.r.choice([1, 2, 3, 7, -1, -3])))

    def expr(self, t, d=None):
        c, r = self.c, self.r
        if d is None:
            d = r.randrange(0, c.depth + 1)
        if c.err and r.random() < c.err:
            t = r.choice(['i', 'f', 's', 'a', 'n', 'F'])
        if t == 'x':
            t = self.some_type()
        if d <= 0:
            return self.leaf(t)
        x = r.random()
        # forms that work for any type
        if x < 0.12:
            e = self.call(t, d - 1)
            if e:
                return e
        elif x < 0.18:
            return ('call', ('id', r.choice(['echo', 'opaque'])), [self.expr(t, d - 1)])
        elif x < 0.24 and c.arrays:
            arrs = self.visible('a')
            if arrs and r.random() < 0.5:
                a = r.choice(arrs)
                # element types are unknown, so keep the use robust
                return ('idx', ('id', a.name), ('bin', '%', ('call', ('id', 'bitand'), [self.expr('i', d - 1), ('int', 2147483647)]), ('mem', a.name, 'length'))) \
                    if t == 'x' or r.random() < 0.3 else ('idx', ('arr', [self.expr(t, d - 2) for _ in range(r.randrange(1, 4))]), ('int', 0))
            n = r.randrange(1, 4)
            return ('idx', ('arr', [self.expr(t, d - 2) for _ in range(n)]), ('int', r.randrange(n)))
        if t == 'i':
            k = r.random()
            if k < 0.45:
                op = r.choice(['+', '-', '*', '+', '-', '*', '/', '%'])
                l, rr = self.expr('i', d - 1), self.expr('i', d - 1)
                if op in '/%':
                    if r.random() < 0.8:
                        rr = r.choice([('int', r.choice([1, 2, 3, 5, 7, 10, -1, -2, -7, 256])),
                                       ('bin', '+', ('call', ('id', 'bitand'), [rr, ('int', r.choice([1, 7, 255]))]), ('int', 1))])
                    elif not c.err:
                        rr = ('int', r.choice([1, 2, 3, -1]))
                    return self.safe_div(op, l, 'i', ('bin', op, l, rr))
                return ('bin', op, l, rr)
            if k < 0.65:
                op = r.choice(['<', '>', '<=', '>=', '=='])
                tt = 'f' if r.random() < 0.3 * c.floats else 'i'
                e = ('bin', op, self.expr(tt, d - 1), self.expr(r.choice([tt, 'i']), d - 1))
                return e
            if k < 0.75:
                return ('bin', r.choice(['and', 'or']), self.expr('x', d - 1), self.expr('x', d - 1))
            if k < 0.81:
                return ('not', self.expr('x', d - 1))
            if k < 0.88:
                return ('neg', self.expr('i', d - 1))
            if k < 0.92 and c.strings:
                return ('bin', '==', self.expr('s', d - 1), self.expr('s', d - 1))
            if k < 0.94:
                return ('bin', '==', self.expr(r.choice('nisf'), d - 1), ('none',))
            if c.builtins:
                q = r.random()
                if q < 0.3:
                    return ('call', ('id', 'bitand'), [self.expr('i', d - 1), self.expr('i', d - 1)])
                if q < 0.5:
                    return ('call', ('id', 'len'), [self.expr(r.choice('sa'), d - 1)])
                if q < 0.7:
                    return ('call', ('id', 'abs'), [self.expr('i', d - 1)])
                arrs = self.visible('a')
                if arrs:
                    return ('mem', r.choice(arrs).name, 'length')
            return self.leaf('i')
        if t == 'f':
            k = r.random()
            if k < 0.6:
                op = r.choice(['+', '-', '*', '/'])
                a, b = r.choice([('f', 'f'), ('f', 'i'), ('i', 'f')])
                return ('bin', op, self.expr(a, d - 1), self.expr(b, d - 1))
            if k < 0.7:
                return ('neg', self.expr('f', d - 1))
            if c.builtins:
                fn = r.choice(['max', 'min', 'round', 'floor', 'ceil', 'sqrt', 'abs'])
                if fn in ('max', 'min'):
                    return ('call', ('id', fn), [self.expr(r.choice('if'), d - 1), self.expr(r.choice('if'), d - 1)])
                return ('call', ('id', fn), [self.expr('f', d - 1)])
            return self.leaf('f')
        if t == 's':
            k = r.random()
            if k < 0.7:
                a, b = r.choice([('s', 's'), ('s', 'i'), ('i', 's'), ('s', 'f'), ('f', 's'), ('s', 'n'), ('n', 's')])
                if c.fnstr and r.random() < 0.05:
                    b = 'F'
                return ('bin', '+', self.expr(a, d - 1), self.expr(b, d - 1))
            if k < 0.8 and c.builtins:
                return ('call', ('id', 'chr'), [('bin', '+', ('call', ('id', 'bitand'), [self.expr('i', d - 1), ('int', 63)]), ('int', 33))])
            return self.leaf('s')
        if t == 'a':
            k = r.random()
            if k < 0.5:
                return ('arr', [self.expr('x', d - 1) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))])
            if k < 0.65 and c.builtins:
                return ('call', ('id', 'new_array'), [('int', r.randrange(1, 9))])
            return self.leaf('a')
        if t == 'F':
            return self.fnval(None)
        return self.leaf(t)

    def leaf(self, t):
        r = self.r
        if r.random() < 0.65:
            vs = self.visible(t)
            if vs:
                return ('id', r.choice(vs).name)
        if r.random() < 0.2:
            cs = [n for n, ct in self.ctype.items() if ct == t]
            if cs:
                return ('id', r.choice(cs))
        return self.lit(t)

    def call(self, t, d):
        c, r = self.c, self.r
        fs = [f for f in self.funcs if f[3] == t or t == 'x']
        if not fs:
            return None
        f = r.choice(fs)
        args = [self.expr(at, max(0, d - 1)) for at in f[2]]
        if f[4]:
            args[0] = ('int', r.randrange(0, 4))
        callee = ('id', f[0])
        k = r.random()
        if k < 0.25 * c.funcvals:
            # through a value
            q = r.random()
            if q < 0.3:
                callee = ('call', ('id', 'opaque'), [callee])
            elif q < 0.6:
                callee = ('idx', ('arr', [('int', 1), callee, ('none',)]), ('int', 1))
            else:
                callee = ('idx', ('arr', [callee]), ('bin', '-', ('int', 1), ('int', 1)))
        if c.err and r.random() < c.err * 0.5:
            # wrong number of arguments is only allowed through a value
            if callee[0] != 'id':
                args = args[:-1] if args and r.random() < 0.5 else args + [('int', 9)]
        return ('call', callee, args)

    # ---- statements
    def emit(self, d=2):
        r = self.r
        self.site += 1
        args = [('int', self.site)]
        for _ in range(r.randrange(0, 3)):
            args.append(self.expr('x', r.randrange(0, d + 1)))
        vs = self.visible()
        for _ in range(r.randrange(0, 3)):
            if vs:
                args.append(('id', r.choice(vs).name))
        return S('call', ('call', ('id', 'emit'), args))

    def emit_all(self):
        """show every visible variable"""
        self.site += 1
        vs = self.visible()
        self.r.shuffle(vs)
        return S('call', ('call', ('id', 'emit'), [('int', self.site)] + [('id', v.name) for v in vs[:12]]))

    def cond(self):
        r, c = self.r, self.c
        if r.random() < c.constfold:
            return r.choice([('int', 0), ('int', 1), ('int', 7), ('bin', '<', ('int', 1), ('int', 2)),
                             ('bin', '-', ('int', 3), ('int', 3)), ('not', ('int', 0)), ('neg', ('int', 1)),
                             ('bin', 'and', ('int', 1), ('int', 0)), ('bin', '==', ('int', 2), ('int', 2)),
                             ('str', b''), ('str', b'x'), ('flt', '0.0'), ('flt', '0.5'), ('none',)] +
                            [('id', n) for n in self.ctype])
        return self.expr(r.choice('iiiix'), r.randrange(0, c.depth))

    def block(self, nest, in_loop=False, n=None):
        r, c = self.r, self.c
        self.scopes.append([])
        out = []
        n = n if n is not None else r.randrange(0 if nest < c.nest else 1, c.stmts + 1)
        for _ in range(n):
            out += self.stmt(nest, in_loop)
        if r.random() < 0.5:
            out.append(self.emit_all())
        if r.random() < c.deadcode and self.in_func:
            out.append(S('ret', self.expr(self.rett, 2)))
            if r.random() < 0.5:
                out.append(self.emit())
        self.scopes.pop()
        return out

    def stmt(self, nest, in_loop):
        r, c = self.r, self.c
        x = r.random()
        if x < c.emit:
            return [self.emit()]
        x = r.random()
        if c.here and r.random() < c.here:
            return [S('call', ('call', ('id', 'here'), [('int', 0)]))]
        if x < 0.22 or not self.scopes[-1]:
            t = r.choice([self.some_type(), self.some_type(), 'F' if r.random() < c.funcvals * 0.3 else 'i'])
            e = self.expr(t)
            if r.random() < 0.1:
                e, t = None, 'n'
            name = self.local_name()
            s = S('var', name, e)
            self.scopes[-1].append(V(name, t))
            return [s]
        if x < 0.42:
            vs = self.visible(writable=True)
            if vs:
                v = r.choice(vs)
                if r.random() < 0.1 and v.t == 'n':
                    return [S('set', v.name, self.expr('x'))]
                return [S('set', v.name, self.expr(v.t))]
        if x < 0.52:
            vs = [v for v in self.visible(writable=True) if v.t in 'ifs']
            if vs:
                v = r.choice(vs)
                if v.t == 's':
                    return [S('cset', v.name, '+', self.expr(r.choice('si'), 2))]
                op = r.choice('+-*/')
                e = self.expr(v.t, 2)
                if op == '/':
                    e = ('int', r.choice([1, 2, 3, -1, 7])) if v.t == 'i' else ('flt', '2.5')
                return [S('cset', v.name, op, e)]
        if x < 0.62 and c.arrays:
            vs = self.visible('a')
            if vs:
                v = r.choice(vs)
                if r.random() < 0.7:
                    i = ('bin', '%', ('call', ('id', 'bitand'), [self.expr('i', 1), ('int', 2147483647)]), ('mem', v.name, 'length'))
                else:
                    i = ('int', 0)
                if c.err and r.random() < c.err:
                    i = self.expr('x', 1)
                    if r.random() < 0.3:
                        return [S('setm', v.name, r.choice(['foo', 'length', 'x']), self.expr('x', 2))]
                return [S('seta', v.name, i, self.expr('x', 2))]
        if nest > 0:
            if x < 0.76:
                els = None
                cnd = self.cond()
                th = self.block(nest - 1, in_loop)
                if r.random() < 0.5:
                    els = self.block(nest - 1, in_loop)
                return [S('if', cnd, th, els)]
            if x < 0.84:
                name = self.local_name()
                k = r.randrange(0, c.maxloop)
                self.scopes[-1].append(V(name, 'i', True))
                body = self.block(nest - 1, True)
                if r.random() < 0.08:
                    return [S('var', name, ('int', 0)), S('while', ('int', 0), body)]
                op = r.choice(['<', '<='])
                cnd = ('bin', op, ('id', name), ('int', k))
                if r.random() < 0.2:
                    cnd = ('bin', 'and', cnd, self.expr('i', 1))
                # the counter advances first, so nothing in the body can skip it
                return [S('var', name, ('int', 0)),
                        S('while', cnd, [S('cset', name, '+', ('int', 1))] + body)]
            if x < 0.92:
                name = self.local_name()
                self.scopes[-1].append(V(name, 'i', True))
                lo = r.randrange(-2, 3)
                body = self.block(nest - 1, True)
                st = ('int', lo)
                en = ('int', lo + r.randrange(-1, c.maxloop))
                if r.random() < 0.2:
                    st = self.expr('i', 1)
                    en = ('bin', '+', ('id', name), ('int', 0))
                return [S('var', name, None), S('for', name, st, en, body)]
        if x < 0.96:
            e = self.call('x', 2)
            if e and e[1][0] == 'id':
                return [S('call', e)]
        if r.random() < 0.15 and in_loop and self.in_func:
            return [S('ret', self.expr(self.rett, 2) if r.random() < 0.9 else None)]
        return [self.emit()]

    # ---- declarations
    def function(self, name, recursive=False):
        c, r = self.c, self.r
        nargs = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])
        if recursive:
            nargs = max(1, nargs)
        ats = [r.choice(['i', 'i', 'f', 's', 'a', 'x']) for _ in range(nargs)]
        rett = r.choice(['i', 'i', 'f', 's', 'a', 'x'])
        params = []
        self.scopes = [[]]
        for i, t in enumerate(ats):
            p = self.local_name()
            params.append(p)
            self.scopes[0].append(V(p, t, recursive and i == 0))
        if recursive:
            ats[0] = 'i'
            self.scopes[0][0].t = 'i'
        self.rett = rett
        self.in_func = True
        me = (name, nargs, ats, rett, recursive)
        body = []
        if recursive:
            body.append(S('if', ('bin', '<', ('id', params[0]), ('int', 1)), [S('ret', self.leaf(rett))], None))
        self.scopes.append([])
        for _ in range(r.randrange(1, c.stmts + 1)):
            body += self.stmt(c.nest - 1, False)
        if recursive:
            args = [('bin', '-', ('id', params[0]), ('int', 1))] + [self.expr(t, 1) for t in ats[1:]]
            callee = ('id', name)
            if r.random() < 0.2:
                callee = ('call', ('id', 'opaque'), [callee])
            ce = ('call', callee, args)
            v = self.local_name()
            k = r.random()
            if k < 0.4:
                body.append(S('var', v, ce))
                self.scopes[-1].append(V(v, rett))
                body.append(self.emit_all())
            elif k < 0.7:
                body.append(S('call', ('call', ('id', 'emit'), [('int', 5000), self.leaf('i'), ce, self.leaf('x')])))
            else:
                body.append(self.emit_all())
                body.append(S('ret', ce))
        if r.random() < 0.85:
            body.append(S('ret', self.expr(rett, 3) if r.random() < 0.93 else None))
        self.scopes = []
        self.funcs.append(me)
        self.in_func = False
        return S('func', name, params, body)

    def program(self):
        c, r = self.c, self.r
        decls = []
        self.in_func = False
        self.rett = 'i'
        for i in range(r.randrange(0, c.consts + 1)):
            n = self.fresh('K')
            self.taken.add(n)
            t = r.choice('iiifs')
            e = self.lit(t)
            if e[0] == 'neg':
                e = e[1]
            if t == 'i' and e[1] < 0:
                e = ('neg', ('int', -e[1]))
            if t == 'i' and r.random() < 0.4:
                e = ('bin', r.choice('+-*'), e, self.lit('i'))
            self.consts[n] = e
            self.ctype[n] = t
            decls.append(S('const', n, e))
        for i in range(r.randrange(0, c.globals + 1)):
            n = self.fresh('g')
            t = self.some_type()
            e = self.expr(t, r.randrange(0, 3)) if r.random() < 0.85 else None
            if e is None:
                t = 'n'
            decls.append(S('gvar', n, e))
            self.taken.add(n)
            self.gvars.append(V(n, t))
        nf = r.randrange(0, c.funcs + 1)
        for i in range(nf):
            n = self.fresh('f')
            self.taken.add(n)
            decls.append(self.function(n, r.random() < 0.25 * c.recursion))
        # globals whose initialiser calls functions
        if self.funcs and r.random() < c.globals_init_calls:
            n = self.fresh('g')
            self.taken.add(n)
            t = self.some_type()
            e = self.call(t, 2) or self.expr(t, 2)
            decls.append(S('gvar', n, e))
            self.gvars.append(V(n, t))
        self.taken.discard('main')
        # main
        nargs = r.choice([0, 0, 0, 1, 2])
        self.scopes = [[]]
        params = []
        self.margs = []
        for i in range(nargs):
            p = self.fresh('m')
            params.append(p)
            t = r.choice('ifs')
            self.margs.append(t)
            self.scopes[0].append(V(p, t))
        self.in_func = True
        body = []
        self.scopes.append([])
        for _ in range(r.randrange(2, c.stmts * 2 + 1)):
            body += self.stmt(c.nest, False)
        body.append(self.emit_all())
        self.rett = r.choice('ifsax')
        if r.random() < 0.9:
            body.append(S('ret', self.expr(self.rett, 3)))
        main = S('func', 'main', params, body)
        if r.random() < 0.3:
            # order of functions does not matter
            fs = [d for d in decls if d.k == 'func'] + [main]
            r.shuffle(fs)
            decls = [d for d in decls if d.k != 'func'] + fs
        else:
            decls.append(main)
        self.scopes = []
        return decls
