"""The static rules of the language, as a checker over the trees of parse.py.

check() gives the lines that break a rule for certain, and the lines that an implementation may also object to
(constant divisions by zero inside functions, which may be left to run time)."""
from lang import fold
import core

HOST = {'emit': -1, 'echo': 1, 'opaque': 1, 'two': 2, 'hval': 1, 'herr': 1, 'hhalt': 0, 'here': 1, 'gcheap': 0, 'hcall': -1, 'hvars': 1}
BUILTIN = {'abs': 1, 'min': 2, 'max': 2, 'bitand': 2, 'sin': 1, 'cos': 1, 'tan': 1, 'len': 1, 'chr': 1, 'round': 1, 'ceil': 1, 'floor': 1,
           'sqrt': 1, 'new_thread': -1, 'wait': 1, 'new_array': 1}
SYS = dict(HOST, **BUILTIN)


class Checker:
    def __init__(self, decls, syscalls):
        self.decls = decls
        self.sys = syscalls
        self.err = []          # (line, what)
        self.maybe = []        # (line, what)
        self.unsure = None     # set when the rules do not say

    def bad(self, line, what):
        self.err.append((line, what))

    def run(self):
        G = {}
        for n, k in self.sys.items():
            G[n] = ('func', k)
        seen = set(self.sys)
        for d in self.decls:
            if d.k in ('gvar', 'const', 'func'):
                if d.a in seen:
                    # reported below; what the name means is then open
                    G[d.a] = ('open', None)
                    continue
                G[d.a] = ('func', len(d.b)) if d.k == 'func' else ('const', d) if d.k == 'const' else ('var', None)
                seen.add(d.a)
        self.G = G
        dup = set()
        names = set(self.sys)
        for d in self.decls:
            if d.k in ('gvar', 'const', 'func'):
                if d.a in names:
                    self.bad(d.line, 'double ' + d.a)
                    dup.add(d.a)
                names.add(d.a)
                if d.k == 'func':
                    self.func(d, names)
                else:
                    if d.b is not None:
                        self.expr(d.b, [], d.line)
                    if d.k == 'const':
                        self.const(d)
                    if d.b is not None:
                        self.zero(d.b, d.line, True, d.k)
        return self

    def const(self, d):
        e = d.b
        if e is None or e[0] == 'none':
            self.bad(d.line, 'no initialiser')
            return
        if e[0] in ('int', 'flt', 'str'):
            return
        consts = {x.a: x.b for x in self.decls if x.k == 'const' and x.b is not None}
        try:
            if fold(e, consts) is None:
                # no constant: must not be usable
                self.unsure = self.unsure or 'const'
            else:
                # chains of constants may have to be in order
                if any(x[0] == 'id' for x in core.subexprs(e)):
                    self.unsure = self.unsure or 'chain'
        except ZeroDivisionError:
            pass
        except RecursionError:
            self.unsure = 'cycle'

    def zero(self, e, line, glob, kind=None):
        consts = {x.a: x.b for x in self.decls if x.k == 'const' and x.b is not None}
        for x in core.subexprs(e):
            if x[0] == 'bin' and x[1] in '/%':
                try:
                    fold(x, consts)
                except ZeroDivisionError:
                    # certain only when the whole initialiser is constant
                    ids = any(y[0] == 'id' for y in core.subexprs(e))
                    whole = False
                    try:
                        fold(e, consts)
                    except ZeroDivisionError:
                        whole = all(y[0] in ('int', 'bin', 'neg', 'not') for y in core.subexprs(e))
                    (self.err if glob and whole and not ids else self.maybe).append((line, 'division'))
                    return
                except RecursionError:
                    self.unsure = 'cycle'
                    return

    def func(self, d, names):
        scopes = [set()]
        vis = [names, scopes[0]]
        for p in d.b:
            self.declare(p, d.line, names, scopes)
        self.body(d.c, names, scopes)

    def declare(self, n, line, names, scopes):
        if n in names or any(n in s for s in scopes):
            self.bad(line, 'double ' + n)
        scopes[-1].add(n)

    def kind(self, n, scopes):
        if any(n in s for s in scopes):
            return ('var', None)
        return self.G.get(n)

    def target(self, n, scopes, line):
        k = self.kind(n, scopes)
        if k and k[0] == 'open':
            self.maybe.append((line, 'open'))
        elif k is None or k[0] == 'func':
            self.bad(line, 'unknown ' + n)
        elif k[0] == 'const':
            self.bad(line, 'constant ' + n)

    def body(self, b, names, scopes):
        for s in b:
            self.stmt(s, names, scopes)

    def block(self, b, names, scopes):
        scopes.append(set())
        self.body(b, names, scopes)
        scopes.pop()

    def stmt(self, s, names, scopes):
        k = s.k
        L = s.line
        E = lambda e: self.expr(e, scopes, L)
        if k == 'var':
            if s.b is not None:
                E(s.b)
            self.declare(s.a, L, names, scopes)
        elif k == 'set':
            E(s.b)
            self.target(s.a, scopes, L)
        elif k == 'cset':
            E(s.c)
            self.target(s.a, scopes, L)
            if s.b in '/%':
                self.zero(('bin', s.b, ('id', s.a), s.c), L, False)
        elif k == 'seta':
            E(s.b)
            E(s.c)
            self.target(s.a, scopes, L)
        elif k == 'setm':
            E(s.c)
            self.target(s.a, scopes, L)
        elif k == 'if':
            E(s.a)
            self.block(s.b, names, scopes)
            if s.c is not None:
                self.block(s.c, names, scopes)
        elif k == 'while':
            E(s.a)
            self.block(s.b, names, scopes)
        elif k == 'for':
            self.target(s.a, scopes, L)
            E(s.b)
            E(s.c)
            self.block(s.d, names, scopes)
        elif k == 'ret':
            if s.a is not None:
                E(s.a)
        elif k == 'call':
            E(s.a)
        else:
            raise AssertionError(k)

    def expr(self, e, scopes, line):
        for x in core.subexprs(e):
            k = x[0]
            if k in ('id', 'mem') and (self.kind(x[1], scopes) or ('',))[0] == 'open':
                self.maybe.append((line, 'open'))
            elif k == 'id':
                d = self.kind(x[1], scopes)
                if d is None:
                    self.bad(line, 'unknown ' + x[1])
                elif d[0] == 'const':
                    c = d[1]
                    if c.b is not None and c.b[0] not in ('int', 'flt', 'str', 'none'):
                        # a constant without usable value
                        try:
                            consts = {z.a: z.b for z in self.decls if z.k == 'const' and z.b is not None}
                            if fold(c.b, consts) is None:
                                self.maybe.append((line, 'constant'))
                        except (ZeroDivisionError, RecursionError):
                            pass
            elif k == 'mem':
                d = self.kind(x[1], scopes)
                if d is None or d[0] != 'var':
                    self.bad(line, 'member of ' + x[1])
            elif k == 'call' and x[1][0] == 'id':
                d = self.kind(x[1][1], scopes)
                if d and d[0] == 'func' and d[1] >= 0 and d[1] != len(x[2]):
                    self.bad(line, 'arguments of ' + x[1][1])
        if scopes:
            self.zero(e, line, False)


def check(decls, syscalls=SYS):
    c = Checker(decls, syscalls).run()
    return c.err, c.maybe, c.unsure
