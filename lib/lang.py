"""The language as data: syntax trees, a printer that can vary everything that
must not matter, and a reference interpreter that says what a program means.

The interpreter follows the language (LanguageRef.md and the rules stated in
properties.jsonl), not the implementation: it walks the tree, it has no code
generator, no stack machine and no collector.

expressions (tuples)
  ('int', v) ('flt', text) ('str', bytes) ('none',) ('id', name)
  ('bin', op, l, r) ('neg', e) ('not', e)
  ('call', callee_expr, [args]) ('idx', obj, index) ('mem', name, member)
  ('arr', [e...])
statements: class S(kind, ...)
"""
import ctypes, math, sys

sys.setrecursionlimit(200000)
_c_float = ctypes.c_float
_libc = ctypes.CDLL('libc.so.6')
_libc.strtof.restype = ctypes.c_float
_libc.strtof.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
_libm = ctypes.CDLL('libm.so.6')
for _n in ('sinf', 'cosf', 'tanf', 'roundf'):
    getattr(_libm, _n).restype = ctypes.c_float
    getattr(_libm, _n).argtypes = [ctypes.c_float]


def f32(x):
    return _c_float(x).value


def strtof(t):
    return _libc.strtof(t.encode(), None)


def i32(x):
    x &= 0xffffffff
    return x - 0x100000000 if x & 0x80000000 else x


class S:
    """statement or declaration"""
    __slots__ = ('k', 'a', 'b', 'c', 'd', 'line', 'file', 'tag')

    def __init__(self, k, a=None, b=None, c=None, d=None):
        self.k, self.a, self.b, self.c, self.d = k, a, b, c, d
        self.line = self.file = 0
        self.tag = None

    # k        a        b        c       d
    # var      name     expr|None
    # set      name     expr
    # cset     name     op       expr
    # seta     name     index    expr
    # setm     name     member   expr
    # if       cond     then     else|None
    # while    cond     body
    # for      name     start    end     body
    # ret      expr|None
    # call     callexpr
    # gvar     name     expr|None          (top level)
    # const    name     expr               (top level)
    # func     name     params   body      (top level)
    # import   path                        (top level)
    # raw      text                        (any)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Sys:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Arr:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class RtErr(Exception):
    def __init__(self, code):
        self.code = code


# live data has to stay small relative to the 1 MiB heap of the machine
MAXSTR = 12000
MAXARR = 4500


class Budget(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- dumping
def dump(v, seen=None):
    """the text form the executor uses for values"""
    if seen is None:
        seen = {}
    out = []
    _dump(v, seen, out)
    return ''.join(out)


def _dump(v, seen, out):
    t = type(v)
    if v is None:
        out.append('n')
    elif t is int:
        out.append('i%d' % v)
    elif t is float:
        out.append(fdump(v))
    elif t is bytes:
        out.append('s' + v.hex())
    elif t is Fn:
        out.append('F' + v.name)
    elif t is Sys:
        out.append('Y' + v.name)
    elif t is Arr:
        if id(v) in seen:
            out.append('A%d' % seen[id(v)])
            return
        n = seen[id(v)] = len(seen)
        out.append('A%d(' % n)
        for i, e in enumerate(v.v):
            if i:
                out.append(',')
            _dump(e, seen, out)
        out.append(')')
    else:
        raise AssertionError(v)


def fdump(v):
    if v != v:
        return 'fnan'
    return 'f%08x' % (ctypes.c_uint32.from_buffer(_c_float(v)).value)


def canon(tok):
    """nan has many bit patterns"""
    if 'f7f' in tok or 'fff' in tok:
        import re
        def sub(m):
            b = int(m.group(2), 16)
            if (b & 0x7f800000) == 0x7f800000 and (b & 0x7fffff):
                return m.group(1) + 'fnan'
            return m.group(0)
        return re.sub(r'(^|[ ,(=])f([0-9a-f]{8})(?![0-9a-f])', sub, tok)
    return tok


# ---------------------------------------------------------------- meaning
def fdiv(a, b):
    if b == 0 or b != b or a != a:
        if a != a or b != b or a == 0:
            return math.nan
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf
    return a / b


def truth(v):
    t = type(v)
    if v is None:
        return 0
    if t is int or t is float:
        return 1 if v != 0 else 0
    if t is bytes:
        return 1 if v else 0
    return 1


def text(v, fnoff=None):
    t = type(v)
    if v is None:
        return b'none'
    if t is bytes:
        return v
    if t is int:
        return b'%d' % v
    if t is float:
        if v != v:
            # the sign of a nan is not specified, so neither is its text
            raise Budget()
        return ('%f' % v).encode()
    if t is Fn:
        # contains a code address, known only when asked from the program
        if not fnoff:
            raise Budget()
        return b'function@%d' % fnoff(v.name)
    return None


def binop(op, l, r, handler=None, fnoff=None):
    tl, tr = type(l), type(r)
    if op == 'and':
        return 1 if truth(l) and truth(r) else 0
    if op == 'or':
        return 1 if truth(l) or truth(r) else 0
    if tl is int and tr is int:
        if op == '+':
            return i32(l + r)
        if op == '-':
            return i32(l - r)
        if op == '*':
            return i32(l * r)
        if op == '/' or op == '%':
            if r == 0:
                raise RtErr('bad_divide_by_zero')
            q = abs(l) // abs(r)
            if (l < 0) != (r < 0):
                q = -q
            return i32(q) if op == '/' else i32(l - q * r)
        if op == '<':
            return 1 if l < r else 0
        if op == '>':
            return 1 if l > r else 0
        if op == '<=':
            return 1 if l <= r else 0
        if op == '>=':
            return 1 if l >= r else 0
        if op == '==':
            return 1 if l == r else 0
    nl = tl is int or tl is float
    nr = tr is int or tr is float
    if nl and nr and op != '%':
        a, b = f32(l), f32(r)
        if op == '+':
            return f32(a + b)
        if op == '-':
            return f32(a - b)
        if op == '*':
            return f32(a * b)
        if op == '/':
            return f32(fdiv(a, b))
        if op == '<':
            return 1 if a < b else 0
        if op == '>':
            return 1 if a > b else 0
        if op == '<=':
            return 1 if a <= b else 0
        if op == '>=':
            return 1 if a >= b else 0
        if op == '==':
            return 1 if a == b else 0
    if op == '+' and (tl is bytes or tr is bytes):
        x, y = text(l, fnoff), text(r, fnoff)
        if x is not None and y is not None:
            return x + y
    if op == '==':
        if tl is bytes and tr is bytes:
            return 1 if l == r else 0
        if tl is Fn and tr is Fn:
            return 1 if l.name == r.name else 0
        if l is None or r is None:
            return 1 if (l is None and r is None) else 0
    if handler and op in ('+', '-', '*', '/', '=='):
        ok, v = handler(op, l, r)
        if ok:
            return v
    raise RtErr('bad_type_operation')


def as_int(v):
    if type(v) is int:
        return v
    if v != v:
        return 0
    if v >= 2147483648.0:
        return 2147483647
    if v < -2147483648.0:
        return -2147483648
    return int(v)


def _isnum(v):
    return type(v) is int or type(v) is float


def bi_abs(a):
    v = a[0]
    if type(v) is int:
        return i32(-v) if v < 0 else v
    if type(v) is float:
        return -v if v < 0 else v
    raise RtErr('bad_argument')


def _num2(fn):
    def f(a):
        if _isnum(a[0]) and _isnum(a[1]):
            return fn(f32(a[0]), f32(a[1]))
        raise RtErr('bad_argument')
    return f


def _num1(fn):
    def f(a):
        if _isnum(a[0]):
            return f32(fn(f32(a[0])))
        raise RtErr('bad_argument')
    return f


def _whole(fn):
    def g(x):
        if x != x or x in (math.inf, -math.inf):
            return x
        r = float(fn(x))
        return math.copysign(r, x) if r == 0 else r
    return g


def bi_len(a):
    if type(a[0]) is Arr:
        return len(a[0].v)
    if type(a[0]) is bytes:
        return len(a[0])
    raise RtErr('bad_argument')


def bi_chr(a):
    if type(a[0]) is int:
        c = a[0] & 255
        return bytes([c]) if c else b''
    raise RtErr('bad_argument')


def bi_bitand(a):
    if type(a[0]) is int and type(a[1]) is int:
        return i32(a[0] & a[1])
    raise RtErr('bad_argument')


def bi_new_array(a):
    if not _isnum(a[0]):
        raise RtErr('bad_argument')
    n = as_int(a[0])
    if n <= 0:
        raise RtErr('bad_argument')
    if n > MAXARR:
        raise Budget()
    return Arr([None] * n)


def bi_wait(a):
    if not _isnum(a[0]):
        raise RtErr('bad_argument')
    return 0


def _sqrt(x):
    if x != x:
        return x
    return math.sqrt(x) if x >= 0 else math.nan


BUILTIN = {
    'abs': (1, bi_abs), 'len': (1, bi_len), 'chr': (1, bi_chr), 'bitand': (2, bi_bitand),
    'max': (2, _num2(lambda a, b: b if b > a else a)),
    'min': (2, _num2(lambda a, b: b if b < a else a)),
    'sin': (1, _num1(lambda x: _libm.sinf(x))), 'cos': (1, _num1(lambda x: _libm.cosf(x))),
    'tan': (1, _num1(lambda x: _libm.tanf(x))),
    'round': (1, _num1(lambda x: _libm.roundf(x))),
    'floor': (1, _num1(_whole(math.floor))), 'ceil': (1, _num1(_whole(math.ceil))),
    'sqrt': (1, _num1(_sqrt)), 'new_array': (1, bi_new_array), 'wait': (1, bi_wait),
}
# name -> number of arguments (-1: any)
HOST = {'emit': -1, 'echo': 1, 'opaque': 1, 'two': 2, 'hval': 1, 'herr': 1, 'hhalt': 0,
        'here': 1, 'gcheap': 0, 'hcall': -1, 'hvars': 1}
ERRORS = ['success', 'max_cycle_count', 'bad_prepare', 'bad_getv', 'bad_setv', 'bad_num_args',
          'bad_syscall', 'bad_opcode', 'bad_set_global', 'bad_get_global', 'bad_pop',
          'bad_divide_by_zero', 'stack_overflow', 'stack_underflow', 'bad_globals_size',
          'bad_array_bounds', 'bad_array_index', 'bad_array_object', 'bad_type_operation',
          'bad_argument', 'bad_member_access', 'out_of_memory']


class Program:
    """decls: list of top level S in order (files already merged)"""

    def __init__(self, decls):
        self.decls = decls

    def funcs(self):
        return {d.a: d for d in self.decls if d.k == 'func'}


def fixed(e):
    """no variables and calls in it"""
    if e[0] in ('id', 'call', 'mem', 'idx', 'arr'):
        return e[0] == 'id'
    return all(fixed(x) for x in e[1:] if isinstance(x, tuple))


class Events(list):
    """events, also noted in the trace of lines"""
    trace = None

    def append(self, e):
        list.append(self, e)
        if self.trace is not None:
            self.trace.append(('E', e))


class Interp:
    def __init__(self, prog, budget=20000, hv=None, handlers=None, fnoff=None):
        self.funcs = prog.funcs()
        self.gdecl = [d for d in prog.decls if d.k == 'gvar']
        self.gidx = {d.a: i for i, d in enumerate(self.gdecl)}
        self.g = [None] * len(self.gdecl)
        self.consts = {}
        for d in prog.decls:
            if d.k == 'const':
                self.consts[d.a] = d.b
        self.events = Events()
        self.budget = budget
        self.steps = 0
        self.hv = hv or {}
        self.handlers = handlers
        self.fnoff = fnoff
        self.chain = []          # active calls, for balance monitoring
        self.lines = []          # current statement of every activation
        self.depth = 0
        self.fnames = []
        self.envs = []           # scopes of every activation
        self.on_stmt = None
        self.maxdepth = 0
        self.nested = 0
        self.alloc = 0           # bytes of big objects ever made, bounds live data
        self.cap = 400000 if budget <= 60000 else 1 << 60
        global MAXARR, MAXSTR
        MAXARR = 4500 if budget <= 60000 else 30000 if budget <= 1000000 else 70000
        MAXSTR = 12000 if budget <= 1000000 else 150000

    def at(self, s, optional=False):
        self.lines[-1] = s
        if self.events.trace is not None:
            self.events.trace.append(('L', (s.file, s.line), optional))

    # ---- entry points
    def init(self):
        self.lines = [None]
        self.fnames = ['@init']
        self.envs = [[]]
        try:
            for d in self.gdecl:
                if d.b is not None:
                    self.at(d, d.b[0] == 'none')
                    self.g[self.gidx[d.a]] = self.ev(d.b, None)
            return ('ok', 0)
        except RtErr as e:
            return ('err', e.code, self._where())

    def call(self, name, args=()):
        self.lines = []
        self.fnames = []
        self.envs = []
        self.chain = []
        self.depth = 0
        f = self.funcs[name]
        if len(f.b) != len(args):
            return ('err', 'bad_num_args', None)
        try:
            return ('ok', self._invoke(f, list(args)))
        except RtErr as e:
            return ('err', e.code, self._where())

    def _where(self):
        d = self.lines[-1] if self.lines else None
        return (d.file, d.line) if d is not None else (0, 0)

    # ---- calls
    def _invoke(self, f, args):
        env = [dict(zip(f.b, args))]
        self.lines.append(f)
        self.fnames.append(f.a)
        self.envs.append(env)
        self.at(f, True)
        self.depth += 1
        if self.depth > self.maxdepth:
            self.maxdepth = self.depth
        if self.depth > 3000:
            raise Budget()
        try:
            self.block(f.c, env)
            r = 0
            if f.d and self.events.trace is not None:
                self.events.trace.append(('L', (f.file, f.d), True))
        except _Ret as e:
            r = e.v
        # only on normal return: an error leaves the failing line on top
        self.lines.pop()
        self.fnames.pop()
        self.envs.pop()
        self.depth -= 1
        if self.lines and self.lines[-1] is not None:
            self.at(self.lines[-1])
        return r

    def syscall(self, name, args, node):
        if name in BUILTIN:
            n, fn = BUILTIN[name]
            if len(args) != n:
                raise RtErr('bad_num_args')
            v = fn(args)
            if type(v) is Arr and len(v.v) > 50:
                self.alloc += 8 * len(v.v)
                if self.alloc > self.cap:
                    raise Budget()
            return v
        seen = {}
        if name == 'emit':
            self.events.append(('E', 'emit', [dump(a, seen) for a in args], self._key(node)))
            return len(args)
        if name == 'echo':
            self.events.append(('E', 'echo', [dump(a, seen) for a in args], self._key(node)))
            return args[0] if args else None
        if name == 'two':
            self.events.append(('E', 'two', [dump(a, seen) for a in args], self._key(node)))
            return 2
        if name == 'hhalt':
            self.events.append(('E', 'halt', [dump(a, seen) for a in args], self._key(node)))
            return 0
        if name == 'opaque':
            return args[0] if args else None
        if name == 'hval':
            return self.hv.get(args[0]) if args and type(args[0]) is int else None
        if name == 'herr':
            k = (args[0] & 0xffffffff) if args and type(args[0]) is int else 1
            raise RtErr(ERRORS[1 + k % (len(ERRORS) - 1)])
        if name == 'hcall':
            if not args or type(args[0]) is not Fn:
                raise RtErr('bad_argument')
            f = self.funcs[args[0].name]
            if len(f.b) != len(args) - 1:
                raise RtErr('bad_num_args')
            keep = self.lines, self.fnames, self.chain, self.depth, self.envs
            self.lines, self.fnames, self.chain, self.envs = [], [], [], []
            self.nested += 1
            if self.nested > 12:
                raise Budget()
            try:
                return self._invoke(f, list(args[1:]))
            finally:
                # an error is passed on at the line of the outer call
                self.lines, self.fnames, self.chain, self.depth, self.envs = keep
                self.nested -= 1
        if name == 'here':
            n = args[0] if args and type(args[0]) is int else 0
            self.events.append(('H', n, [(d.file, d.line) for d in reversed(self.lines)], list(self.fnames)))
            return n
        if name == 'hvars':
            n = args[0] if args and type(args[0]) is int else 0
            self.events.append(('V', n, [(f, {k: dump(v) for sc in env for k, v in sc.items()}) for f, env in zip(reversed(self.fnames), reversed(self.envs))]))
            return n
        raise AssertionError(name)

    def _key(self, node):
        return (id(node), tuple(self.chain))

    # ---- statements
    def block(self, body, env):
        env.append({})
        for s in body:
            self.stmt(s, env)
        env.pop()

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def assign(self, name, v, env):
        for sc in reversed(env):
            if name in sc:
                sc[name] = v
                return
        self.g[self.gidx[name]] = v

    def stmt(self, s, env):
        self.tick()
        self.at(s, s.k in ('if', 'while') and self.events.trace is not None and fixed(s.a))
        if self.on_stmt:
            self.on_stmt(s)
        k = s.k
        if k == 'var':
            v = self.ev(s.b, env) if s.b is not None else None
            env[-1][s.a] = v
        elif k == 'set':
            self.assign(s.a, self.ev(s.b, env), env)
        elif k == 'cset':
            l = self.lookup(s.a, env)
            r = self.ev(s.c, env)
            v = self.bin(s.b, l, r)
            if type(v) is bytes and len(v) > 200:
                self.alloc += len(v)
                if len(v) > MAXSTR or self.alloc > self.cap:
                    raise Budget()
            self.assign(s.a, v, env)
        elif k == 'seta':
            v = self.ev(s.c, env)
            i = self.ev(s.b, env)
            a = self.lookup(s.a, env)
            if self.handlers and self.handlers.aset:
                if self.handlers.aset(self, a, i, v):
                    return
            if type(a) is not Arr:
                raise RtErr('bad_array_object')
            if type(i) is not int:
                raise RtErr('bad_array_index')
            if not 0 <= i < len(a.v):
                raise RtErr('bad_array_bounds')
            a.v[i] = v
        elif k == 'setm':
            v = self.ev(s.c, env)
            o = self.lookup(s.a, env)
            if self.handlers and self.handlers.mset:
                if self.handlers.mset(self, o, v, s.b):
                    return
            raise RtErr('bad_member_access')
        elif k == 'if':
            if truth(self.ev(s.a, env)):
                self.block(s.b, env)
            elif s.c is not None:
                self.block(s.c, env)
        elif k == 'while':
            while True:
                self.at(s, self.events.trace is not None and fixed(s.a))
                self.tick()
                if not truth(self.ev(s.a, env)):
                    break
                self.block(s.b, env)
        elif k == 'for':
            self.assign(s.a, self.ev(s.b, env), env)
            while True:
                self.at(s)
                self.tick()
                v = self.lookup(s.a, env)
                e = self.ev(s.c, env)
                if not self.bin('<', v, e):
                    break
                self.block(s.d, env)
                self.at(s)
                self.assign(s.a, self.bin('+', self.lookup(s.a, env), 1), env)
        elif k == 'ret':
            raise _Ret(self.ev(s.a, env) if s.a is not None else None)
        elif k == 'call':
            self.ev(s.a, env)
        else:
            raise AssertionError(k)

    # ---- expressions
    def lookup(self, name, env):
        if env:
            for sc in reversed(env):
                if name in sc:
                    return sc[name]
        i = self.gidx.get(name)
        if i is not None:
            return self.g[i]
        c = self.consts.get(name)
        if c is not None:
            return self.ev(c, None)
        if name in self.funcs:
            return Fn(name)
        if name in BUILTIN or name in HOST:
            return Sys(name)
        raise AssertionError('unknown name ' + name)

    def bin(self, op, l, r):
        h = self.handlers.bin if self.handlers else None
        if h:
            return binop(op, l, r, lambda o, a, b: h(self, o, a, b), self.fnoff)
        return binop(op, l, r, None, self.fnoff)

    def ev(self, e, env):
        self.steps += 1
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'id':
            return self.lookup(e[1], env)
        if k == 'bin':
            l = self.ev(e[2], env)
            r = self.ev(e[3], env)
            v = self.bin(e[1], l, r)
            if type(v) is bytes:
                if len(v) > 200:
                    self.alloc += len(v)
                if len(v) > MAXSTR or self.alloc > self.cap:
                    raise Budget()
            return v
        if k == 'str':
            return e[1]
        if k == 'flt':
            return strtof(e[1])
        if k == 'none':
            return None
        if k == 'neg':
            v = self.ev(e[1], env)
            if type(v) is int:
                return i32(-v)
            if type(v) is float:
                return -v
            raise RtErr('bad_type_operation')
        if k == 'not':
            return 0 if truth(self.ev(e[1], env)) else 1
        if k == 'idx':
            i = self.ev(e[2], env)
            a = self.ev(e[1], env)
            if self.handlers and self.handlers.aget:
                ok, v = self.handlers.aget(self, a, i)
                if ok:
                    return v
            if a is None:
                raise RtErr('bad_array_object')
            if type(i) is not int:
                raise RtErr('bad_array_index')
            if type(a) is Arr:
                if not 0 <= i < len(a.v):
                    raise RtErr('bad_array_bounds')
                return a.v[i]
            if type(a) is bytes:
                if not 0 <= i < len(a):
                    raise RtErr('bad_array_bounds')
                return a[i]
            raise RtErr('bad_type_operation')
        if k == 'arr':
            if len(e[1]) > 50:
                self.alloc += 8 * len(e[1])
            return Arr([self.ev(x, env) for x in e[1]])
        if k == 'mem':
            o = self.lookup(e[1], env)
            if type(o) is Arr and e[2] == 'length':
                return len(o.v)
            if self.handlers and self.handlers.mget:
                ok, v = self.handlers.mget(self, o, e[2])
                if ok:
                    return v
            raise RtErr('bad_member_access')
        if k == 'call':
            self.tick()
            args = []
            for x in e[2]:
                args.append(self.ev(x, env))
            callee = self.ev(e[1], env)
            if type(callee) is Sys:
                return self.syscall(callee.name, args, e)
            if type(callee) is Fn:
                f = self.funcs[callee.name]
                if len(f.b) != len(args):
                    raise RtErr('bad_num_args')
                self.chain.append(id(e))
                v = self._invoke(f, args)
                self.chain.pop()
                return v
            raise RtErr('bad_type_operation')
        raise AssertionError(k)


def fold(e, consts=None):
    """value of an int constant expression, None if it is not one, or
    ZeroDivisionError when it divides by zero"""
    k = e[0]
    if k == 'int':
        return e[1]
    if k == 'neg':
        v = fold(e[1], consts)
        return None if v is None else i32(-v)
    if k == 'not':
        v = fold(e[1], consts)
        return None if v is None else (0 if v else 1)
    if k == 'bin':
        l, r = fold(e[2], consts), fold(e[3], consts)
        if l is None or r is None:
            return None
        try:
            return binop(e[1], l, r)
        except RtErr:
            raise ZeroDivisionError
    if k == 'id' and consts and e[1] in consts:
        return fold(consts[e[1]], consts)
    return None


# ---------------------------------------------------------------- printing
PREC = {'and': 1, 'or': 1, '<': 3, '>': 3, '<=': 3, '>=': 3, '==': 3, '+': 4, '-': 4,
        '*': 5, '/': 5, '%': 5}
KEYWORDS = {'and', 'const', 'end', 'else', 'for', 'function', 'if', 'import', 'not', 'none', 'or',
            'return', 'to', 'var', 'while'}


class Style:
    """how a program is laid out; nothing here may change its meaning"""

    def __init__(self, rng=None, spaces=0, blank=0, comment=0, case=0, paren=0, tabs=0, cr=0,
                 tail_comment=0, no_final_eol=0, rename=None):
        self.rng = rng
        self.spaces, self.blank, self.comment, self.case = spaces, blank, comment, case
        self.paren, self.tabs, self.cr = paren, tabs, cr
        self.tail_comment, self.no_final_eol = tail_comment, no_final_eol
        self.rename = rename or {}

    @staticmethod
    def wild(rng, rename=None):
        r = rng.random
        return Style(rng, spaces=r() * 0.5, blank=r() * 0.4, comment=r() * 0.3, case=r() * 0.6,
                     paren=r() * 0.3, tabs=r() * 0.5, cr=rng.choice([0, 0, 1, 0.5]),
                     tail_comment=rng.choice([0, 1]), no_final_eol=rng.choice([0, 1]), rename=rename)


class Printer:
    def __init__(self, style=None):
        self.st = style or Style()
        self.out = []
        self.file = 0

    def chance(self, p):
        return p > 0 and self.st.rng.random() < p

    def kw(self, w):
        if self.chance(self.st.case):
            return ''.join(c.upper() if self.st.rng.random() < 0.5 else c for c in w)
        return w

    def nm(self, n):
        return self.st.rename.get(n, n)

    def sp(self):
        if self.chance(self.st.spaces):
            return self.st.rng.choice([' ', '  ', '\t', ' \t '])
        return ''

    # e at a place that needs operator level `need`; edge: nothing follows e
    # within the same parentheses
    def expr(self, e, need=0, edge=True):
        if self.chance(self.st.paren):
            return '(' + self.sp() + self._expr(e, 0, True) + self.sp() + ')'
        return self._expr(e, need, edge)

    def _expr(self, e, need, edge):
        k = e[0]
        if k == 'bin':
            op = e[1]
            p = PREC[op]
            wrap = p < need
            l = self.expr(e[2], p, False)
            r = self.expr(e[3], p + 1, edge or wrap)
            if op in ('and', 'or'):
                t = l + ' ' + self.sp() + self.kw(op) + ' ' + self.sp() + r
            elif self.chance(self.st.spaces * 0.5):
                t = l + op + r
            else:
                t = l + ' ' + self.sp() + op + ' ' + self.sp() + r
            return '(' + t + ')' if wrap else t
        if k == 'not':
            # `not` takes everything of a higher level to its right, so it
            # can stand bare where nothing follows it
            wrap = need > 2 and not (edge and self.chance(self.st.paren))
            t = self.kw('not') + ' ' + self.sp() + self.expr(e[1], 2, edge or wrap)
            return '(' + t + ')' if wrap else t
        if k == 'neg':
            return '-' + self.sp() + self.post(e[1], True)
        if k == 'int' and e[1] < 0:
            return '-%d' % (-e[1])
        return self.post(e, False)

    def post(self, e, after_minus):
        k = e[0]
        if k in ('bin', 'not') or (k == 'int' and e[1] < 0 and not after_minus):
            return '(' + self.expr(e) + ')'
        if k == 'int' and e[1] < 0:
            return '-%d' % (-e[1])
        if k == 'neg':
            if after_minus:
                return self.st.rng.choice(['-', '- ']) + self.post(e[1], True) if self.st.rng else '-' + self.post(e[1], True)
            return '(' + self.expr(e) + ')'
        if k == 'int':
            return '%d' % e[1]
        if k == 'flt':
            return e[1]
        if k == 'str':
            return '"' + e[1].decode('latin1') + '"'
        if k == 'none':
            return self.kw('none')
        if k == 'id':
            return self.nm(e[1])
        if k == 'mem':
            return self.nm(e[1]) + self.sp() + '.' + self.sp() + e[2]
        if k == 'arr':
            return '[' + self.sp() + (self.sp() + ',' + self.sp()).join(self.expr(x) for x in e[1]) + self.sp() + ']'
        if k == 'idx':
            return self.base(e[1]) + self.sp() + '[' + self.sp() + self.expr(e[2]) + self.sp() + ']'
        if k == 'call':
            a = (self.sp() + ',' + self.sp()).join(self.expr(x) for x in e[2])
            return self.base(e[1]) + self.sp() + '(' + self.sp() + a + self.sp() + ')'
        raise AssertionError(k)

    def base(self, e):
        if e[0] in ('bin', 'not', 'neg') or (e[0] == 'int' and e[1] < 0):
            return '(' + self.expr(e) + ')'
        return self.post(e, False)

    # ---- lines
    def emit_line(self, text, node=None, depth=0):
        st = self.st
        while self.chance(st.blank):
            self.out.append(self.st.rng.choice(['', '  ', '\t']))
        while self.chance(st.comment):
            self.out.append(st.rng.choice(['# note', '#', '  # if (', '# "quote', '#end', '# end # x']))
        ind = '\t' * depth if self.chance(st.tabs) else '  ' * depth
        line = ind + text
        if self.chance(st.comment):
            line += st.rng.choice([' # c', '# "', ' # end', '\t#'])
        elif self.chance(st.spaces):
            line += st.rng.choice([' ', '\t', '  '])
        self.out.append(line)
        if node is not None:
            node.line = len(self.out)
            node.file = self.file

    def stmts(self, body, d):
        for s in body:
            self.stmt(s, d)

    def stmt(self, s, d):
        k = s.k
        kw = self.kw
        if k == 'var' or k == 'gvar' or k == 'const':
            t = kw('const' if k == 'const' else 'var') + ' ' + self.nm(s.a)
            if s.b is not None:
                t += self.sp() + ' =' + self.sp() + ' ' + self.expr(s.b)
            self.emit_line(t, s, d)
        elif k == 'set':
            self.emit_line(self.nm(s.a) + ' ' + self.sp() + '= ' + self.expr(s.b), s, d)
        elif k == 'cset':
            self.emit_line(self.nm(s.a) + ' ' + s.b + self.sp() + '= ' + self.expr(s.c), s, d)
        elif k == 'seta':
            self.emit_line(self.nm(s.a) + '[' + self.expr(s.b) + '] = ' + self.expr(s.c), s, d)
        elif k == 'setm':
            self.emit_line(self.nm(s.a) + '.' + s.b + ' = ' + self.expr(s.c), s, d)
        elif k == 'if':
            self.emit_line(kw('if') + ' ' + self.sp() + '(' + self.expr(s.a) + ')', s, d)
            self.stmts(s.b, d + 1)
            if s.c is not None:
                self.emit_line(kw('else'), None, d)
                self.stmts(s.c, d + 1)
            self.emit_line(kw('end'), None, d)
        elif k == 'while':
            self.emit_line(kw('while') + ' ' + self.sp() + '(' + self.expr(s.a) + ')', s, d)
            self.stmts(s.b, d + 1)
            self.emit_line(kw('end'), None, d)
        elif k == 'for':
            self.emit_line(kw('for') + ' (' + self.nm(s.a) + ' = ' + self.expr(s.b) + ' ' + kw('to') + ' ' + self.expr(s.c) + ')', s, d)
            self.stmts(s.d, d + 1)
            self.emit_line(kw('end'), None, d)
        elif k == 'ret':
            self.emit_line(kw('return') + (' ' + self.expr(s.a) if s.a is not None else ''), s, d)
        elif k == 'call':
            self.emit_line(self.post(s.a, False), s, d)
        elif k == 'func':
            self.emit_line(kw('function') + ' ' + self.nm(s.a) + self.sp() + '(' +
                           (self.sp() + ', ').join(self.nm(p) for p in s.b) + ')', s, d)
            self.stmts(s.c, d + 1)
            self.emit_line(kw('end'), None, d)
        elif k == 'import':
            self.emit_line(kw('import') + ' "' + s.a + '"', s, d)
        elif k == 'raw':
            self.emit_line(s.a, s, d)
        else:
            raise AssertionError(k)

    def program(self, decls, file=0):
        self.file = file
        self.out = []
        for d in decls:
            self.stmt(d, 0)
        st = self.st
        eol = '\n'
        if st.cr:
            lines = [l + ('\r' if self.chance(st.cr) else '') for l in self.out]
        else:
            lines = self.out
        t = eol.join(lines) + eol
        if self.chance(st.tail_comment):
            t += '# the end'
        elif self.chance(st.no_final_eol):
            t = t[:-1]
        return t
