"""C19 generated code is well formed and dumps describe it exactly"""
import struct
import core, gen, kit, lang, mutate, shapes as SH
import c13
from lang import Style, Printer
from parse import parse
from probe import src_cmd

LEVEL = 'exploration'
RULE = ('Every program (random, corpus, extreme shapes, several files, both optimisation settings) is built and its code decoded by an independent decoder and verified: functions tile '
        'the code, jumps/calls/table indices/slots in range, operand depth equal at joins, never negative and exactly one at every return. The disassembly is compared with that '
        'decode line by line, headings and line comments included, and the syntax tree dump with the tree of the source (folded constants allowed; with optimisation only '
        'unreachable statements may be missing). AddressSanitizer watches dumps at every point of the life of a compiler. Non-trivial: distinct code.')
CHUNK = 6

ONE = ('JMP TJMP FJMP RET POP NEW_INT NEW_STR NEW_ARY NEW_FLT NEW_FUNC NEW_SCALL LOCALS GLOBALS GETV SETV ICALL GETG SETG GETM SETM ARY_INIT').split()
TWO = ('CALL', 'SCALL')
NONE = 'ADD SUB MUL DIV MOD AND OR NOT NEG LT GT LEQ GEQ EQ NEW_NONE DEREF SETA'.split()
OPERANDS = dict([(x, 0) for x in NONE] + [(x, 1) for x in ONE] + [(x, 2) for x in TWO])


def cases(ctx):
    n = 12 if ctx.quick else 25
    out = [('random', k) for k in range(900 * n)]
    out += [('corpus', k) for k in range(200)]
    out += [('consts', k) for k in range(40 * n)]
    out += [('shape', k) for k in range(len(shapes()))]
    out += [('multi', k) for k in range(80 * n)]
    out += [('broken', k) for k in range(200 * n)]
    out += [('reuse', k) for k in range(60 * n)]
    out += [('big', s, m) for s, m in SH.cases(ctx, 4, skip=('arrsize', 'iters', 'recursion'))]
    out = SH.huge_cases(ctx, 'many_globals', 'many_locals', 'many_strs', 'many_args', 'many_params', 'many_items') + [('huge', 'long_jumps', 9000)] + out
    return out


def case(ctx, c):
    globals()['do_' + c[0]](ctx, *c[1:])


# ---------------------------------------------------------------- decoding
def opcodes(lines):
    l = [x for x in lines if x.startswith('opcodes ')][0]
    d = dict(x.split('=') for x in l.split(' ')[1:])
    d.pop('count')
    return {int(v): k for k, v in d.items()}


class Dump:
    def __init__(self, part):
        self.code = b''
        self.funcs = []
        self.strs = self.sys = 0
        self.sysnames = []
        self.globs = []
        self.lines = []
        for l in part:
            p = l.split(' ')
            if p[0] == 'code':
                self.code = bytes.fromhex(p[1]) if len(p) > 1 else b''
            elif p[0] == 'func':
                i, j = p.index('args'), p.index('locals')
                nm = lambda x: (bytes.fromhex(x.split(':')[0]).decode('latin1'), int(x.split(':')[1]))
                self.funcs.append((bytes.fromhex(p[1]).decode('latin1'), int(p[2]), int(p[3]), [nm(x) for x in p[i + 1:j]], [nm(x) for x in p[j + 1:]]))
            elif p[0] == 'str':
                self.strs += 1
            elif p[0] == 'sysc':
                self.sys += 1
                self.sysnames.append(bytes.fromhex(p[1]).decode('latin1'))
            elif p[0] == 'lines':
                self.lines = [(int(x.split('=')[0]), tuple(map(int, x.split('=')[1].split(':')))) for x in p[1:]]
            elif p[0] == 'globs':
                self.globs = [(bytes.fromhex(x.split(':')[0]).decode('latin1'), int(x.split(':')[1])) for x in p[1:]]


def decode(code, names, bad):
    out = []
    i = 0
    while i < len(code):
        op = names.get(code[i])
        if op is None:
            bad('unknown instruction %d' % code[i], at=i)
        n = OPERANDS[op]
        if i + 1 + 4 * n > len(code):
            bad('instruction cut off', at=i, op=op)
        out.append((i, op, struct.unpack_from('<%di' % n, code, i + 1)))
        i += 1 + 4 * n
    return out


def effect(op, a):
    """needs, leaves"""
    if op in ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'AND', 'OR', 'LT', 'GT', 'LEQ', 'GEQ', 'EQ', 'DEREF'):
        return 2, 1
    if op in ('NOT', 'NEG', 'NEW_ARY', 'GETM'):
        return 1, 1
    if op in ('TJMP', 'FJMP', 'SETV', 'SETG'):
        return 1, 0
    if op in ('CALL', 'SCALL', 'ARY_INIT'):
        return a[0], 1
    if op == 'ICALL':
        return a[0] + 1, 1
    if op == 'POP':
        return a[0], 0
    if op == 'SETA':
        return 3, 0
    if op == 'SETM':
        return 2, 0
    if op in ('NEW_INT', 'NEW_STR', 'NEW_NONE', 'NEW_FLT', 'NEW_FUNC', 'NEW_SCALL', 'GETV', 'GETG'):
        return 0, 1
    if op == 'RET':
        return 1, 0
    return 0, 0     # JMP LOCALS GLOBALS


def verify(D, ins, bad):
    """the rules of well formed code; returns number of facts checked"""
    size = len(D.code)
    facts = 0
    fs = sorted(D.funcs, key=lambda f: f[1])
    pos = 0
    for f in fs:
        if f[1] != pos or f[2] <= f[1]:
            bad('functions do not tile the code', function=f[0], start=f[1], end=f[2], expected=pos)
        pos = f[2]
    if pos != size:
        bad('functions do not tile the code', end=pos, size=size)
    at = {i: k for k, (i, _, _) in enumerate(ins)}
    start = {f[1]: f for f in fs}
    init = [f for f in fs if f[0] == '@init']
    nglob = None
    for i, op, a in ins:
        if op == 'GLOBALS':
            nglob = a[0]
            if not init or not init[0][1] <= i < init[0][2]:
                bad('globals reserved outside of @init', at=i)
    for f in fs:
        name, lo, hi, args, locs = f
        if lo not in at or (hi != size and hi not in at):
            bad('function boundary inside an instruction', function=name)
        body = ins[at[lo]:at[hi] if hi != size else len(ins)]
        nargs = len(args)
        if [x[1] for x in args] != list(range(-nargs, 0)):
            bad('parameters do not have the slots below the frame', function=name, args=args)
        L = 0
        for k, (i, op, a) in enumerate(body):
            if op == 'LOCALS':
                if k != 0:
                    bad('locals reserved in the middle', function=name, at=i)
                L = a[0]
        for x in locs:
            if not 0 <= x[1] < L:
                bad('local of the table outside of the frame', function=name, local=x, frame=L)
        for i, op, a in body:
            facts += 1
            w = dict(function=name, at=i, op=op, operands=a)
            if op in ('JMP', 'TJMP', 'FJMP'):
                if a[0] not in at or not lo <= a[0] < hi:
                    bad('jump does not land on an instruction of its function', **w)
            elif op == 'CALL':
                if a[1] not in start:
                    bad('call does not land on a function', **w)
                if a[0] != len(start[a[1]][3]):
                    bad('call with another number of arguments', params=len(start[a[1]][3]), **w)
            elif op == 'NEW_FUNC':
                if a[0] not in start:
                    bad('function value does not name a function', **w)
            elif op == 'SCALL':
                if not 0 <= a[1] < D.sys or a[0] < 0:
                    bad('system call index out of range', **w)
            elif op == 'NEW_SCALL':
                if not 0 <= a[0] < D.sys:
                    bad('system call index out of range', **w)
            elif op in ('NEW_STR', 'GETM', 'SETM'):
                if not 0 <= a[0] < D.strs:
                    bad('string index out of range', **w)
            elif op in ('GETG', 'SETG'):
                if nglob is None or not 0 <= a[0] < nglob:
                    bad('global index out of range', globals=nglob, **w)
            elif op in ('GETV', 'SETV'):
                if not -nargs <= a[0] < L:
                    bad('slot outside of the frame', params=nargs, locals=L, **w)
            elif op == 'RET':
                if a[0] != nargs + L:
                    bad('return does not remove exactly its frame', params=nargs, locals=L, **w)
            elif op in ('POP', 'ARY_INIT', 'ICALL'):
                if a[0] < (0 if op == 'ICALL' else 1):
                    bad('count out of range', **w)
        # depth along every path
        depth = {}
        first = [lo]
        work = []
        for s in [x[0] for x in body]:
            if s in depth:
                continue
            if s != lo and not unreached(depth, s):
                pass
            depth[s] = 0
            work.append(s)
            while work:
                i = work.pop()
                _, op, a = ins[at[i]]
                need, leave = effect(op, a)
                d = depth[i]
                if d < need:
                    bad('operand missing', function=name, at=i, op=op, depth=d)
                if op == 'RET' and d != 1:
                    bad('operands left over at a return', function=name, at=i, depth=d)
                d = d - need + leave
                nxt = []
                if op in ('JMP', 'TJMP', 'FJMP'):
                    nxt.append(a[0])
                if op not in ('JMP', 'RET'):
                    j = i + 1 + 4 * OPERANDS[op]
                    if j >= hi:
                        bad('control runs off the end of a function', function=name, at=i, op=op)
                    nxt.append(j)
                for j in nxt:
                    facts += 1
                    if j not in depth:
                        depth[j] = d
                        work.append(j)
                    elif depth[j] != d:
                        bad('operand depth differs between paths', function=name, at=j, depths=[depth[j], d])
    for pc, l in D.lines:
        if pc not in at:
            bad('line entry inside an instruction', at=pc)
    return facts


def unreached(depth, s):
    return s not in depth


MNEM = {'NEW_SCALL': 'NEW_SYSCALL'}


def listing(D, ins, lineof):
    """the disassembly this code must have"""
    start = {f[1]: f[0] for f in D.funcs}
    out = []
    last = -1
    for i, op, a in ins:
        if i in start:
            if i:
                out.append('')
            out.append('# function: ' + start[i])
        l = lineof[i][1]
        if l != last:
            last = l
            out.append('# line: %d' % l)
        out.append(' '.join(['INS_' + MNEM.get(op, op)] + [str(x) for x in a]))
    return out


# ---------------------------------------------------------------- the tree
def read_tree(text):
    """(label, children) from the indented text"""
    root = None
    st = []
    for l in text.split('\n'):
        if not l:
            continue
        d = 0
        while l.startswith('.  '):
            l = l[3:]
            d += 1
        n = (l, [])
        if d == 0:
            if root is not None:
                return None
            root = n
        else:
            if d > len(st):
                return None
            st[d - 1][1].append(n)
        del st[d:]
        st.append(n)
    return root


class Mismatch(Exception):
    pass


class Matcher:
    def __init__(self, decls, opt):
        self.opt = opt
        self.consts = {d.a: d.b for d in decls if d.k == 'const'}
        self.shadow = set()
        self.n = 0
        for d in decls:
            if d.k == 'func':
                self.shadow |= set(d.b)
                self.scan(d.c)

    def scan(self, body):
        for s in body:
            if s.k == 'var':
                self.shadow.add(s.a)
            for x in (s.b, s.c, s.d):
                if isinstance(x, list) and x and isinstance(x[0], lang.S):
                    self.scan(x)

    def no(self, n, what):
        raise Mismatch('%s where %s belongs' % (n[0] if n else 'nothing', what))

    def label(self, n, want, kids=None):
        self.n += 1
        if n is None or n[0] != want:
            self.no(n, want)
        if kids is not None and len(n[1]) != kids:
            raise Mismatch('%s has %d parts instead of %d' % (want, len(n[1]), kids))

    def expr(self, n, e):
        if e[0] == 'id' and e[1] in self.consts:
            if not (e[1] in self.shadow and n[0] == 'ast_exp_ident_t {name: %s}' % e[1]):
                return self.expr(n, self.consts[e[1]])
        k = e[0]
        if k in ('neg', 'not', 'bin') and n[0].startswith('ast_exp_lit_var_t'):
            try:
                v = lang.fold(e, self.consts)
            except ZeroDivisionError:
                v = None
            if v is None and k == 'neg' and e[1][0] == 'flt':
                return self.label(n, 'ast_exp_lit_var_t {value: %f}' % -lang.strtof(e[1][1]), 0)
            if v is not None:
                return self.label(n, 'ast_exp_lit_var_t {value: %d}' % v, 0)
        if k == 'int':
            self.label(n, 'ast_exp_lit_var_t {value: %d}' % lang.i32(e[1]), 0)
        elif k == 'flt':
            self.label(n, 'ast_exp_lit_var_t {value: %f}' % lang.strtof(e[1]), 0)
        elif k == 'str':
            self.label(n, 'ast_exp_lit_str_t {value: %s}' % e[1].decode('latin1'), 0)
        elif k == 'none':
            self.label(n, 'ast_exp_none_t', 0)
        elif k == 'id':
            self.label(n, 'ast_exp_ident_t {name: %s}' % e[1], 0)
        elif k == 'bin':
            self.label(n, 'ast_exp_bin_op_t {op: %s}' % e[1], 2)
            self.expr(n[1][0], e[2])
            self.expr(n[1][1], e[3])
        elif k in ('neg', 'not'):
            self.label(n, 'ast_exp_unary_op_t', 1)
            self.expr(n[1][0], e[1])
        elif k == 'call':
            self.label(n, 'ast_exp_call_t', len(e[2]) + 1)
            for x, y in zip(n[1], e[2]):
                self.expr(x, y)
            self.expr(n[1][-1], e[1])
        elif k == 'idx':
            self.label(n, 'ast_exp_deref_t', 2)
            self.expr(n[1][0], e[1])
            self.expr(n[1][1], e[2])
        elif k == 'mem':
            self.label(n, 'ast_exp_member_t {name: %s}' % e[1], 0)
        elif k == 'arr':
            self.label(n, 'ast_exp_array_init_t', len(e[1]))
            for x, y in zip(n[1], e[1]):
                self.expr(x, y)
        else:
            raise AssertionError(e)

    def const(self, e):
        try:
            return lang.fold(e, self.consts)
        except ZeroDivisionError:
            return None

    def block(self, n, body):
        self.label(n, 'ast_block_t')
        self.stmts(n[1], body)

    def stmts(self, ns, body):
        i = 0
        gone = False
        for s in body:
            n = ns[i] if i < len(ns) else None
            try:
                self.stmt(n, s)
                i += 1
            except Mismatch:
                # only what can not run may be missing
                if not (self.opt and (gone or self.pointless(s))):
                    raise
            gone = gone or s.k == 'ret'
        if i != len(ns):
            raise Mismatch('%s that is not in the source' % ns[i][0])

    def pointless(self, s):
        if s.k == 'while':
            return self.const(s.a) == 0
        if s.k == 'if':
            v = self.const(s.a)
            return v is not None and not (s.b if v else s.c)
        return False

    def stmt(self, n, s):
        k = s.k
        if n is None:
            self.no(n, k)
        if k == 'var':
            self.label(n, 'ast_decl_var_t {name: %s}' % s.a, 0 if s.b is None else 1)
            if s.b is not None:
                self.expr(n[1][0], s.b)
        elif k == 'set':
            self.label(n, 'ast_stmt_assign_var_t {name: %s}' % s.a, 1)
            self.expr(n[1][0], s.b)
        elif k == 'cset':
            self.label(n, 'ast_stmt_assign_var_t {name: %s}' % s.a, 1)
            self.expr(n[1][0], ('bin', s.b, ('id', s.a), s.c))
        elif k == 'seta':
            self.label(n, 'ast_stmt_assign_array_t', 2)
            self.expr(n[1][0], s.b)
            self.expr(n[1][1], s.c)
        elif k == 'setm':
            self.label(n, 'ast_stmt_assign_member_t', 1)
            self.expr(n[1][0], s.c)
        elif k == 'call':
            self.label(n, 'ast_stmt_call_t', 1)
            self.expr(n[1][0], s.a)
        elif k == 'ret':
            self.label(n, 'ast_stmt_return_t', 0 if s.a is None else 1)
            if s.a is not None:
                self.expr(n[1][0], s.a)
        elif k == 'for':
            self.label(n, 'ast_stmt_for_t {name=%s}' % s.a, 3)
            self.expr(n[1][0], s.b)
            self.expr(n[1][1], s.c)
            self.block(n[1][2], s.d)
        elif k == 'while':
            self.label(n, 'ast_stmt_while_t')
            if self.opt and self.const(s.a) == 0 and len(n[1]) == 1:
                return
            self.label(n, 'ast_stmt_while_t', 2)
            self.expr(n[1][0], s.a)
            self.block(n[1][1], s.b)
        elif k == 'if':
            self.label(n, 'ast_stmt_if_t')
            v = self.const(s.a)
            if self.opt and v is not None:
                # the branch that is taken has to be there
                live = s.b if v else s.c
                if len(n[1]) == 0:
                    self.no(None, 'condition')
                bl = n[1][1:]
                if live is None and (not bl or all(b[0] == 'ast_block_t' for b in bl)):
                    return
                for b in bl:
                    try:
                        return self.block(b, live)
                    except Mismatch as e:
                        err = e
                if not live:
                    return
                raise Mismatch('branch that is taken is missing')
            self.label(n, 'ast_stmt_if_t', 2 if s.c is None else 3)
            self.expr(n[1][0], s.a)
            self.block(n[1][1], s.b)
            if s.c is not None:
                self.block(n[1][2], s.c)
        else:
            raise AssertionError(k)

    def program(self, root, decls, syscalls):
        self.label(root, 'ast_program_t')
        ns = root[1]
        i = 0
        for x in syscalls:
            self.label(ns[i] if i < len(ns) else None, 'ast_decl_func_t {name: %s}' % x, 0)
            i += 1
        for d in decls:
            if d.k == 'import':
                continue
            n = ns[i] if i < len(ns) else None
            i += 1
            if d.k in ('gvar', 'const'):
                self.label(n, 'ast_decl_var_t {name: %s}' % d.a)
                if d.b == ('none',) and not n[1]:
                    continue    # as without it
                self.label(n, 'ast_decl_var_t {name: %s}' % d.a, 0 if d.b is None else 1)
                if d.b is not None:
                    self.expr(n[1][0], d.b)
            else:
                self.label(n, 'ast_decl_func_t {name: %s}' % d.a, len(d.b) + 1)
                for x, y in zip(n[1], d.b):
                    self.label(x, 'ast_decl_var_t {name: %s}' % y, 0)
                self.block(n[1][-1], d.c)
        n = ns[i] if i < len(ns) else None
        self.label(n, 'ast_decl_func_t {name: @init}', 1)
        self.label(n[1][0], 'ast_block_t')
        want = [d for d in decls if d.k == 'gvar' and d.b is not None]
        j = 0
        for d in want:
            m = n[1][0][1][j] if j < len(n[1][0][1]) else None
            try:
                self.label(m, 'ast_stmt_assign_var_t {name: %s}' % d.a, 1)
                self.expr(m[1][0], d.b)
            except Mismatch:
                if d.b == ('none',):
                    continue
                raise
            j += 1
        if j != len(n[1][0][1]) or i + 1 != len(ns):
            raise Mismatch('more in the tree than in the source')
        return self.n


# ---------------------------------------------------------------- one program
INSPECT = b'say #dump\nopcodes\npdump 0\nplines 0\nsay #dis\ndisasm 0\nsay #inst\ndisinst 0\nsay #ast\nast 0\nsay #end\n'


def inspect(ctx, P, decls, opt, src, key=''):
    bad = lambda k, **kw: ctx.fail(k + key, source=src, opt=opt, **kw)
    names = opcodes(P['dump'])
    D = Dump(P['dump'])
    ins = decode(D.code, names, bad)
    facts = verify(D, ins, bad)
    ctx.count['instructions'] += len(ins)
    ctx.count['facts about code'] += facts
    # the disassembler, one instruction at a time
    got = [l for l in P['inst'] if l.startswith('D ')]
    want = ['D %d %d %s' % (i, 1 + 4 * OPERANDS[op], ' '.join(['INS_' + MNEM.get(op, op)] + [str(x) for x in a]).encode().hex()) for i, op, a in ins]
    x = core.first_diff(got, want)
    if x:
        bad('disassembler decodes an instruction differently', **x)
    # the whole listing
    pl = [l for l in P['dump'] if l.startswith('plines')][0].split(' ')[1:]
    lineof = [tuple(map(int, t.split(':'))) for t in pl]
    tab = dict(D.lines)
    for i, op, a in ins:
        if lineof[i] != tab.get(i, lineof[i] if i not in tab else None):
            bad('line of an instruction is not the one recorded for it', at=i, got=lineof[i], want=tab.get(i))
    text = bytes.fromhex([l for l in P['dis'] if l.startswith('disasm ')][0].split(' ')[1]).decode('latin1')
    x = core.first_diff(text.rstrip('\n').split('\n'), listing(D, ins, lineof))
    if x:
        bad('disassembly differs: ' + kind(x), **x)
    # names of the functions and parameters
    if decls is not None:
        fs = [(d.a, list(d.b)) for d in decls if d.k == 'func'] + [('@init', [])]
        have = [(f[0], [a[0] for a in f[3]]) for f in D.funcs]
        if sorted(fs) != sorted(have):
            bad('function table is not that of the source', got=have[:10], want=fs[:10])
        gl = [(d.a, i) for i, d in enumerate(d for d in decls if d.k == 'gvar')]
        if sorted(gl) != sorted(x for x in D.globs if x[0] not in {d.a for d in decls if d.k == 'const'}):
            bad('global table is not that of the source', got=D.globs[:10], want=gl[:10])
    # the tree
    t = bytes.fromhex([l for l in P['ast'] if l.startswith('ast ')][0].split(' ')[1]).decode('latin1')
    root = read_tree(t)
    if root is None:
        bad('tree dump is not a tree', text=t[:2000])
    if decls is not None:
        try:
            ctx.count['tree nodes'] += Matcher(decls, opt).program(root, decls, D.sysnames)
        except Mismatch as e:
            bad('tree dump: ' + str(e).split(' {')[0], what=str(e), text=t[-3000:])
    ctx.seen(D.code)
    ctx.evals += 1
    return D, ins


def kind(x):
    w = x['want'].split(' ')
    return w[0] if w[0] != '#' else ' '.join(w[:2])


def go(ctx, srcs, decls, opt, src=None, pre=b'', allow_reject=False):
    s = b'say #build\n' + pre
    for t in srcs:
        s += src_cmd(0, t)
    s += b'comp 0 0 %d bh\n' % opt
    s += b'build 0 0\n' + INSPECT
    P = c13.split(ctx.run(s))
    if 'build ok' not in P['build']:
        if allow_reject:
            ctx.skipped += 1
            return None
        ctx.fail('rejected', lines=P['build'], source=src or srcs[0])
    return inspect(ctx, P, decls, opt, src or srcs[0])


def do_random(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=r.choice([0, 0, 0.03]), nest=r.randrange(1, 5), stmts=r.randrange(1, 7), depth=r.randrange(1, 5), funcs=r.randrange(0, 7), globals=r.randrange(0, 6),
                  ints=gen.INTS + ctx.mined if r.random() < 0.5 else gen.INTS)
    g, decls, src = kit.random_program(ctx, r, cfg)
    decls = parse(src)
    for opt in (0, 1):
        if opt and core.div_by_zero(decls):
            continue
        go(ctx, [src], decls, opt)
    ctx.sample(src[:300])


def number(r, ctx):
    """the text of a constant, from everywhere in the range"""
    x = r.random()
    if x < 0.25:
        v = r.choice([0, 1, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777215, 16777216, 16777217, 2147483647, -2147483647, r.choice(ctx.mined)])
    elif x < 0.5:
        v = r.randrange(-1 << r.randrange(1, 32), 1 << r.randrange(1, 32))
    elif x < 0.6:
        return r.choice(['-0.0', '0.0', '-(0.0)', '0.0 * -1', '-1 * 0.0', '(2 - 2) * -1.0', '- -0.0', '-2147483647 - 1', '0 - 2147483647 - 1', '-0'])
    else:
        f = r.choice([r.random(), r.random() * 10 ** r.randrange(0, 12), r.randrange(1, 1 << 24) / 2.0 ** r.randrange(0, 24), float(r.randrange(0, 1 << 30))])
        v = '%.*f' % (r.choice([1, 2, 3, 6, 9]), f)
        return r.choice(['', '', '-']) + v
    if v == -2147483648:
        return '-2147483647 - 1'
    return str(v)


def do_consts(ctx, k):
    """constants of every size wherever a constant can stand"""
    r = ctx.rng()
    N = lambda: number(r, ctx)
    L = ['var g%d = %s' % (i, N()) for i in range(r.randrange(1, 6))]
    L += ['const k%d = %s' % (i, r.choice([str(r.randrange(0, 1 << 31)), '%.3f' % (r.random() * 1000), '"s%d"' % i])) for i in range(r.randrange(0, 4))]
    nk = sum(l.startswith('const') for l in L)
    L += ['function f(p)', '  return %s' % N(), 'end', 'function main(p)', '  var l = %s' % N()]
    for i in range(r.randrange(1, 12)):
        a, b, c = N(), N(), N()
        K = 'k%d' % r.randrange(nk) if nk else c
        L.append('  ' + r.choice(['emit(%s, %s, %s)' % (a, b, c), 'var v%d = %s' % (i, a), 'l = [%s, %s, "x", %s]' % (a, b, c), 'l = p == %s' % a, 'l = %s' % K, 'emit((%s) * p, p - (%s))' % (a, b),
                                  'l = p[%s]' % a, 'g0 = %s' % a, 'g0 += %s' % a, 'p[%s] = %s' % (a, b), 'p.memb = %s' % a, 'l.m%d = %s' % (i, K), 'if (p < (%s))\n    return %s\n  end' % (a, b), 'f(%s)' % a, 'emit(f(%s) + (%s))' % (a, b),
                                  'for (l = %s to %s)\n    emit(%s)\n  end' % (a, b, c), 'while (p == (%s))\n    p = %s\n  end' % (a, b), 'emit("t" + (%s), %s)' % (a, K)]))
    L += ['  return %s' % N(), 'end']
    src = '\n'.join(L) + '\n'
    decls = parse(src)
    for opt in (0, 1):
        if opt and core.div_by_zero(decls):
            continue
        go(ctx, [src], decls, opt)
    ctx.sample(src[:400])


def do_corpus(ctx, k):
    c = mutate.corpus()
    if k >= len(c):
        return
    d = c13.parse_ok(c[k])
    if d is None or any(x.k == 'import' for x in d):
        return
    for opt in (0, 1):
        s = b'say #build\n' + src_cmd(0, c[k]) + b'comp 0 0 %d b\n' % opt
        s += b''.join(b'sys 0 %s %d\n' % (a.encode(), n) for a, n in (('putc', 1), ('getc', 0), ('puts', 1), ('gets', 0), ('rand', 0), ('print', 1)))
        P = c13.split(ctx.run(s + b'build 0 0\n' + INSPECT))
        if 'build ok' not in P['build']:
            ctx.skipped += 1
            continue
        # these may use functions of their own among the system calls
        inspect(ctx, P, d, opt, c[k])


def shapes():
    big = lambda n, l: 'function main(a)\n%s  return 1\nend\n' % ''.join(l % {'i': i} for i in range(n))
    out = list(c13.SHAPES)
    out += [
        'function main()\nend\n', '\n', 'var a\n', 'const C = 2\n', 'var a = 1\nvar b = a\n',
        'function main()\n  return\nend\n', 'function main()\n  return 1\n  return 2\n  emit(3)\nend\n',
        'function main(a)\n  if (a)\n    return 1\n  else\n    return 2\n  end\nend\n',
        'function main(a)\n  while (a)\n    return 1\n    emit(1)\n  end\n  emit(2)\nend\n',
        'function main(a)\n  while (1)\n  end\nend\n', 'function main(a)\n  while (0)\n    emit(1)\n  end\nend\n',
        'function main(a)\n  if (0)\n    emit(1)\n  end\n  if (1)\n    emit(2)\n  else\n    emit(3)\n  end\n  if (0)\n    emit(4)\n  else\n    emit(5)\n  end\nend\n',
        'function main(a)\n  var i\n  for (i = 0 to 0)\n  end\n  for (i = a to a)\n    return i\n  end\nend\n',
        'function a()\nend\nfunction b()\n  return a\nend\nfunction main()\n  return b()()\nend\n',
        'function main(a)\n  return a(a(a))[a[a]](a)\nend\n',
        'function main()\n  return [[[1]], [2, [3]]]\nend\n',
        big(1500, '  if (a == %(i)d)\n    emit(%(i)d, a)\n  else\n    emit("n%(i)d")\n  end\n'),
        'function main(a)\n  while (a)\n%s  end\n  return a\nend\n' % ''.join('    emit(%d, a)\n' % i for i in range(9000)),
        'function main(a)\n%s%s  return 1\nend\n' % (''.join('  ' * i + '  if (a == %d)\n' % i for i in range(200)), ''.join('  ' * i + '  end\n' for i in reversed(range(200)))),
        'function main(a)\n%s%s  return 1\nend\n' % (''.join('  while (a == %d)\n  var v%d = %d\n' % (i, i, i) for i in range(150)), '  end\n' * 150),
        'function main(a)\n  return %s\nend\n' % ' + '.join('a * %d' % i for i in range(400)),
        'function main(a)\n  return [%s]\nend\n' % ', '.join(str(i) for i in range(700)),
        'function f(%s)\n  return p0\nend\nfunction main()\n  return f(%s)\nend\n' % (', '.join('p%d' % i for i in range(260)), ', '.join(str(i) for i in range(260))),
        'function main()\n%s  return l0\nend\n' % ''.join('  var l%d = %d\n' % (i, i) for i in range(260)),
        ''.join('var g%d = %s\n' % (i, 'g%d' % (i - 1) if i else '1') for i in range(300)) + 'function main()\n  return g299\nend\n',
        ''.join('function f%d()\n  return %s\nend\n' % (i, 'f%d()' % ((i * 7 + 1) % 400)) for i in range(400)),
        'function main(a)\n  return a == "a" or a == \'\' or not -a\nend\n'.replace("''", '""'),
        'function main(a)\n  a.m = 1\n  a[0] = a.m\n  return a.length\nend\n',
        'function main()\n  emit()\n  emit(emit(), emit(emit()))\nend\n',
        'const A = 1.5\nconst B = "x"\nconst D = 2 * 3 - 1\nvar g = D\nfunction main()\n  return [A, B, D, g]\nend\n',
        'const A = -5\nconst B = A\nfunction main()\n  return A + B\nend\n',
    ]
    return out


def do_shape(ctx, k):
    t = shapes()[k]
    d = parse(t)
    for opt in (0, 1):
        go(ctx, [t], d, opt, allow_reject=k >= len(c13.SHAPES))


def do_multi(ctx, k):
    r = ctx.rng()
    cfg = gen.Cfg(err=0.02, nest=2, stmts=3, depth=2, funcs=r.randrange(2, 6), globals=r.randrange(1, 5))
    g, decls, src = kit.random_program(ctx, r, cfg)
    n = r.randrange(2, 5)
    parts = [[] for _ in range(n)]
    for d, i in zip(decls, sorted(r.randrange(n) for _ in decls)):
        parts[i].append(d)
    srcs, all_ = [], []
    for p in parts:
        if p:
            t = Printer(Style.wild(r) if r.random() < 0.5 else Style(r)).program(p)
            srcs.append(t)
            all_ += parse(t, len(srcs) - 1)
    for opt in (0, 1):
        if not (opt and core.div_by_zero(all_)):
            go(ctx, srcs, all_, opt, src=repr(srcs)[:3000])


def do_broken(ctx, k):
    """the dump of what is left after a rejected build touches nothing freed"""
    r = ctx.rng()
    cfg = gen.Cfg(nest=2, stmts=3, depth=3, funcs=3, globals=3)
    g, decls, src = kit.random_program(ctx, r, cfg)
    t = mutate.mutate(r, src) if r.random() < 0.7 else src + '\n' + r.choice(['function main()\nend\n', 'var zz = qq\n', 'function x()\n  return undef\nend\n', 'function x(\n', 'const Q = x()\n', 'function y()\n  return 1 / 0\nend\n', '"'])
    s = src_cmd(0, t) + b'comp 0 0 %d bh\nast 0\nbuild 0 0\nast 0\ndisasm 0\n' % r.randrange(2)
    if r.random() < 0.5:
        s += b'creset 0\nast 0\ncflags 0 bh\nast 0\nbuild 0 0\nast 0\nast 0\ndisasm 0\n'
    lines = ctx.run(s)
    ctx.evals += 1
    trees = 0
    for l in lines:
        if l.startswith('ast '):
            p = l.split(' ')
            x = bytes.fromhex(p[1]).decode('latin1') if len(p) > 1 else ''
            if not x.startswith('ast_program_t'):
                ctx.fail('tree dump is not a tree', source=t, text=x[:500])
            trees += 1
            ctx.count['tree lines'] += x.count('\n')
    ctx.seen(tuple(l for l in lines if l.startswith('build')))
    ctx.count['rejected builds dumped'] += any(l.startswith('build err') for l in lines)


def do_reuse(ctx, k):
    """the same after another build with the same compiler, and dumps are repeatable"""
    r = ctx.rng()
    mk = lambda: kit.random_program(ctx, r, gen.Cfg(nest=2, stmts=3, depth=3, funcs=3, globals=3))
    _, _, src1 = mk()
    _, d, src = mk()
    d = parse(src)
    if r.random() < 0.4:
        src1 += '\nfunction broken()\n  return undefined_name\nend\n'
    opt = r.randrange(2)
    if opt and (core.div_by_zero(d) or core.div_by_zero(parse(src1))):
        return
    s = b'say #first\n' + src_cmd(1, src1) + b'comp 0 0 %d bh\nbuild 0 1\nast 0\ndisasm 0\ncreset 0\ncflags 0 bh\nsay #build\n' % opt
    s += src_cmd(0, src) + b'build 0 0\n' + INSPECT
    s += b'say #again\ndisasm 0\nast 0\nast 0\nsay #srcgone\nsrcfree 0\nsrcfree 1\ndisasm 0\nsay #compgone\ncfree 0\ndisasm 0\nsay #e\n'
    P = c13.split(ctx.run(s))
    if 'build ok' not in P['build']:
        ctx.fail('rejected', lines=P['build'], source=src)
    inspect(ctx, P, d, opt, src, key=' (reused compiler)')
    D = [l for k in ('dis', 'again', 'srcgone', 'compgone') for l in P[k] if l.startswith('disasm')]
    A = [l for k in ('ast', 'again') for l in P[k] if l.startswith('ast')]
    if len(set(D)) != 1 or len(set(A)) != 1:
        ctx.fail('repeated dump differs', source=src)


def do_big(ctx, name, n):
    r = ctx.rng()
    src = SH.make(name, n, r, r.choice([False, True]))[0]
    decls = parse(src)
    for opt in (0, 1) if not ctx.quick else (r.randrange(2),):
        go(ctx, [src], decls, opt)


def do_huge(ctx, name, n):
    """tables and code beyond the range of 16 bit numbers"""
    r = ctx.rng()
    src, steps = SH.make_huge(ctx, name, n, r)
    go(ctx, [src], parse(src), r.randrange(2))
    ctx.count['huge_run'] += 1
