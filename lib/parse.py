"""An independent reader of the language: text to the trees of lang.py.  Used to
write test programs as text, and as the reference for what is well formed."""
import re
from lang import S, PREC, KEYWORDS, i32


class SyntaxErr(Exception):
    def __init__(self, line, what):
        Exception.__init__(self, 'line %d: %s' % (line, what))
        self.line, self.what = line, what


TOK = re.compile(r'''(?P<ws>[ \t\r]+)|(?P<comment>\#[^\n]*)|(?P<nl>\n)|"(?P<str>[^"\n]*)"|(?P<num>\d+(?:\.\d*)?)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>==|<=|>=|[-+*/%()\[\],=<>.])''')


def lex(text):
    out = []
    pos, line = 0, 1
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            raise SyntaxErr(line, 'quote' if text[pos] == '"' else 'character')
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        if k == 'comment':
            if pos >= n:
                out.append(('eol', None, line))
            continue
        if k == 'nl':
            out.append(('eol', None, line))
            line += 1
        elif k == 'str':
            out.append(('str', m.group('str').encode('latin1'), line))
        elif k == 'num':
            t = m.group()
            out.append(('flt', t, line) if '.' in t else ('int', i32(int(t)), line))
        elif k == 'id':
            w = m.group()
            if w.lower() in KEYWORDS:
                out.append((w.lower(), None, line))
            else:
                out.append(('id', w, line))
        else:
            out.append((m.group(), None, line))
    out.append(('eof', None, line))
    return out


class Parser:
    def __init__(self, text, file=0):
        self.t = lex(text)
        self.p = 0
        self.file = file

    def peek(self):
        return self.t[self.p][0]

    def next(self):
        t = self.t[self.p]
        if t[0] != 'eof':
            self.p += 1
        return t

    def found(self, k):
        if self.t[self.p][0] == k and k != 'eof':
            self.p += 1
            return True
        return False

    def need(self, k):
        t = self.t[self.p]
        if t[0] != k:
            raise SyntaxErr(t[2], 'expected ' + k)
        return self.next()

    def at(self, s, line):
        s.line, s.file = line, self.file
        return s

    def eols(self):
        while self.found('eol'):
            pass

    # ---- expressions
    def expr(self, minp=0):
        if self.found('not'):
            l = ('not', self.expr(3))
        else:
            l = self.operand()
        while self.peek() in PREC and PREC[self.peek()] >= minp:
            op = self.next()[0]
            l = ('bin', op, l, self.expr(PREC[op] + 1))
        return l

    def operand(self):
        if self.found('-'):
            return ('neg', self.operand())
        k, v, line = self.t[self.p]
        if k == '[':
            self.next()
            e = ('arr', self.list(']'))
        elif k == '(':
            self.next()
            e = self.expr()
            self.need(')')
        elif k == 'id':
            self.next()
            if self.found('.'):
                e = ('mem', v, self.need('id')[1])
            else:
                e = ('id', v)
        elif k in ('int', 'flt', 'str'):
            self.next()
            e = (k, v)
        elif k == 'none':
            self.next()
            e = ('none',)
        else:
            raise SyntaxErr(line, 'operand')
        while True:
            if self.found('['):
                e = ('idx', e, self.expr())
                self.need(']')
            elif self.found('('):
                e = ('call', e, [] if self.found(')') else self.list(')'))
            else:
                return e

    def list(self, end):
        out = [self.expr()]
        while self.found(','):
            out.append(self.expr())
        self.need(end)
        return out

    # ---- statements
    def body(self, *ends):
        out = []
        self.eols()
        while self.peek() not in ends:
            out.append(self.stmt())
        return out

    def stmt(self):
        self.eols()
        k, v, line = self.next()
        if k == 'var':
            n = self.need('id')[1]
            s = S('var', n, self.expr() if self.found('=') else None)
        elif k == 'id':
            o = self.peek()
            if o in '+-*/' and o:
                self.next()
                if not self.found('='):
                    raise SyntaxErr(line, 'compound')
                s = S('cset', v, o, self.expr())
            elif o == '.':
                self.next()
                m = self.need('id')[1]
                self.need('=')
                s = S('setm', v, m, self.expr())
            elif o == '=':
                self.next()
                s = S('set', v, self.expr())
            elif o == '(':
                self.next()
                s = S('call', ('call', ('id', v), [] if self.found(')') else self.list(')')))
            elif o == '[':
                self.next()
                i = self.expr()
                self.need(']')
                self.need('=')
                s = S('seta', v, i, self.expr())
            else:
                raise SyntaxErr(line, 'assignment or call')
        elif k == 'if':
            self.need('(')
            c = self.expr()
            self.need(')')
            self.need('eol')
            th = self.body('end', 'else')
            el = None
            if self.next()[0] == 'else':
                self.need('eol')
                el = self.body('end')
                self.next()
            s = S('if', c, th, el)
        elif k == 'while':
            self.need('(')
            c = self.expr()
            self.need(')')
            self.need('eol')
            b = self.body('end')
            self.next()
            s = S('while', c, b)
        elif k == 'for':
            self.need('(')
            n = self.need('id')[1]
            self.need('=')
            a = self.expr()
            self.need('to')
            e = self.expr()
            self.need(')')
            self.need('eol')
            b = self.body('end')
            self.next()
            s = S('for', n, a, e, b)
        elif k == 'return':
            s = S('ret', None if self.peek() == 'eol' else self.expr())
        else:
            raise SyntaxErr(line, 'statement')
        self.need('eol')
        self.eols()
        return self.at(s, line)

    def program(self):
        out = self.out = []
        while True:
            k, v, line = self.next()
            if k == 'eof':
                return out
            if k == 'eol':
                continue
            if k in ('var', 'const'):
                n = self.need('id')[1]
                out.append(self.at(S('gvar' if k == 'var' else 'const', n, self.expr() if self.found('=') else None), line))
            elif k == 'function':
                n = self.need('id')[1]
                self.need('(')
                ps = []
                if not self.found(')'):
                    ps.append(self.need('id')[1])
                    while self.found(','):
                        ps.append(self.need('id')[1])
                    self.need(')')
                self.need('eol')
                b = self.body('end')
                e = self.next()
                out.append(self.at(S('func', n, ps, b, e[2]), line))
            elif k == 'import':
                out.append(self.at(S('import', self.need('str')[1].decode('latin1')), line))
            else:
                raise SyntaxErr(line, 'unexpected ' + k)


def parse(text, file=0):
    return Parser(text, file).program()
