"""Parser for the LLVM IR text that rustc emits (--emit=llvm-ir)."""
import re

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-\w.$]+))
 | (?P<md>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+|u0x[0-9A-Fa-f]+|s0x[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_$.][-\w.$]*)
 | (?P<p>[][(){}<>,=*:|^])
)''', re.X)


class ParseError(Exception):
    pass


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ParseError('token at %r' % s[i:i + 40])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class Ty:
    __slots__ = ('k', 'n', 't', 'size', 'align', 'offs')

    def __init__(self, k, n=0, t=None):
        self.k = k
        self.n = n
        self.t = t
        self.layout()

    def layout(self):
        k = self.k
        self.offs = None
        if k == 'i':
            b = 1
            while b * 8 < self.n:
                b *= 2
            self.size = b
            self.align = min(b, 16)
        elif k == 'p':
            self.size = self.align = 8
        elif k == 'a':
            self.size = self.n * self.t.size
            self.align = self.t.align
        elif k == 'v':
            ebits = self.t.n if self.t.k == 'i' else 64
            bits = ebits * self.n
            b = 1
            while b * 8 < bits:
                b *= 2
            self.size = (bits + 7) // 8
            self.align = b
        elif k in ('s', 'sp'):
            off = 0
            al = 1
            self.offs = []
            for t in self.t:
                a = 1 if k == 'sp' else t.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += t.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align = al
        else:
            self.size = self.align = 0

    def __repr__(self):
        return {'i': 'i%d' % self.n, 'p': 'ptr'}.get(self.k) or '%s%s%r' % (self.k, self.n, self.t)


VOID = Ty('void')
PTR = Ty('p')
LABEL = Ty('label')
META = Ty('metadata')
_ity = {}


def ity(n):
    t = _ity.get(n)
    if t is None:
        t = _ity[n] = Ty('i', n)
    return t


class Func:
    def __init__(self):
        self.name = None
        self.params = []      # (type, name, attrs)
        self.ret = None
        self.blocks = None    # label -> [instr]
        self.entry = None
        self.attrs = ''
        self.attr_ids = []
        self.module = None
        self.noreturn = False
        self.features = frozenset()


class Global:
    def __init__(self):
        self.name = self.ty = self.init = None
        self.const = False
        self.align = 1
        self.module = None


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.attrs = {}
        self.aliases = {}


ATTRWORDS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'captures', 'sret', 'byval',
                   'initializes', 'memory', 'allocsize', 'nofpclass', 'elementtype', 'alignstack', 'inalloca', 'byref',
                   'uwtable', 'vscale_range', 'preallocated', 'dead_on_return', 'addrspace', 'denormal_fpenv'}
ATTRWORDS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext',
             'inreg', 'immarg', 'returned', 'nofree', 'swiftself', 'nest', 'dead_on_unwind', 'writable', 'noext',
             'allocptr', 'allocalign'}
CC = {'fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'preserve_allcc', 'x86_64_sysvcc', 'tailcc', 'preserve_nonecc'}


class P:
    """token cursor"""

    def __init__(self, t, mod):
        self.t = t
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise ParseError('expected %r at %r' % (x, self.t[max(0, self.i - 3):self.i + 6]))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
            return PTR
        if x[0] == 'i' and x[1:].isdigit():
            return ity(int(x[1:]))
        if x == 'void':
            return VOID
        if x == 'label':
            return LABEL
        if x == 'metadata':
            return META
        if x == '[':
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return Ty('a', n, t)
        if x == '<':
            if self.peek() == '{':
                self.next()
                ts = self.tylist('}')
                self.expect('>')
                return Ty('sp', 0, ts)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return Ty('v', n, t)
        if x == '{':
            return Ty('s', 0, self.tylist('}'))
        if x[0] == '%':
            t = self.mod.types.get(x)
            if t is None:
                raise ParseError('type ' + x)
            return t
        if x in ('float', 'double', 'half', 'fp128', 'x86_fp80', 'bfloat'):
            return Ty('f' + x)
        raise ParseError('type? %r in %r' % (x, self.t[max(0, self.i - 4):self.i + 4]))

    def tylist(self, end):
        ts = []
        if self.accept(end):
            return ts
        while True:
            ts.append(self.type())
            if self.accept(end):
                return ts
            self.expect(',')

    def skip_attrs(self):
        out = []
        while True:
            x = self.peek()
            if x is None:
                return out
            if x in ATTRWORDS:
                out.append(x)
                self.next()
            elif x in ATTRWORDS_PAREN:
                self.next()
                out.append(x)
                if self.peek() == '(':
                    j = self.i
                    self.skip_paren()
                    out.append(' '.join(self.t[j:self.i]))
                elif x == 'align' :
                    out.append(self.next())
            elif x[0] == '"' :
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return out

    def value(self, ty):
        """operand: ('r', name) | ('g', name) | ('c', kind, ...)"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return ('g', x)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x in ('zeroinitializer', 'null', 'none'):
            return ('zero', ty)
        if x == 'true':
            return ('i', 1, 1)
        if x == 'false':
            return ('i', 0, 1)
        if c == '-' or c.isdigit():
            if ty.k != 'i':
                raise ParseError('number for %r' % ty)
            return ('i', int(x), ty.n)
        if c == 'c' and len(x) > 1 and x[1] == '"':
            return ('str', cstring(x))
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('agg', ty, [v] * ty.n)
        if x == '<' and self.peek() == '{':
            self.next()
            vs = self.agg('}')
            self.expect('>')
            return ('agg', ty, vs)
        if x == '<':
            return ('agg', ty, self.agg('>'))
        if x == '[':
            return ('agg', ty, self.agg(']'))
        if x == '{':
            return ('agg', ty, self.agg('}'))
        if x == 'getelementptr':
            flags = []
            while self.peek() != '(':
                flags.append(self.next())
                if flags[-1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            st = self.type()
            ops = []
            while self.accept(','):
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(')')
            return ('gep', st, ops)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast', 'zext', 'ptrtoaddr'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub', 'xor', 'and', 'or', 'mul'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            b = self.value(t)
            self.expect(')')
            return ('bin', x, t, a, b)
        raise ParseError('value? %r in %r' % (x, self.t[max(0, self.i - 4):self.i + 6]))

    def agg(self, end):
        vs = []
        if self.accept(end):
            return vs
        while True:
            t = self.type()
            vs.append(self.value(t))
            if self.accept(end):
                return vs
            self.expect(',')


def cstring(x):
    s = x[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.a, self.x)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'volatile', 'fast'}


def parse_instr(line, mod):
    p = P(toks(line), mod)
    I = Instr()
    I.line = line
    I.res = None
    I.ty = None
    I.x = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        I.res = p.next()
        p.next()
    op = p.next()
    I.op = op
    if op in BIN:
        fl = []
        while p.peek() in FLAGS:
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        I.ty = t
        I.a = (a, b)
        I.x = tuple(fl)
    elif op in CAST:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        I.x = t
        I.ty = p.type()
        I.a = (v,)
    elif op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        I.ty = t
        I.a = (a, b)
        I.x = pred
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        t0 = p.type()
        c = p.value(t0)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        p.type()
        b = p.value(t)
        I.ty = t
        I.x = t0
        I.a = (c, a, b)
    elif op == 'phi':
        t = p.type()
        I.ty = t
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lb = p.next()
            p.expect(']')
            inc[lb] = v
            if not p.accept(','):
                break
        I.x = inc
    elif op == 'br':
        if p.accept('label'):
            I.op = 'jmp'
            I.x = p.next()
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            I.a = (c,)
            I.x = (a, b)
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            tt = p.type()
            cv = p.value(tt)
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()))
        I.ty = t
        I.a = (v,)
        I.x = (d, cases)
    elif op == 'ret':
        t = p.type()
        I.ty = t
        I.a = () if t is VOID else (p.value(t),)
    elif op == 'unreachable':
        pass
    elif op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        al = t.align
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next())
            elif p.peek()[0] == '!':
                break
            else:
                tt = p.type()
                n = p.value(tt)
        I.ty = t
        I.x = al
        I.a = (n,) if n else ()
    elif op == 'load':
        vol = p.accept('volatile')
        at = p.accept('atomic')
        vol = vol or p.accept('volatile')
        t = p.type()
        p.expect(',')
        p.type()
        v = p.value(PTR)
        al = _align(p)
        I.ty = t
        I.a = (v,)
        I.x = al
    elif op == 'store':
        vol = p.accept('volatile')
        at = p.accept('atomic')
        vol = vol or p.accept('volatile')
        t = p.type()
        val = p.value(t)
        p.expect(',')
        p.type()
        v = p.value(PTR)
        al = _align(p)
        I.ty = t
        I.a = (val, v)
        I.x = (al, vol)
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        st = p.type()
        ops = []
        while p.accept(','):
            if p.peek() and p.peek()[0] == '!':
                break
            t = p.type()
            ops.append((t, p.value(t)))
        I.ty = st
        I.a = tuple(ops)
    elif op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
        if op in ('tail', 'musttail', 'notail'):
            p.next()
            I.op = 'call'
        while p.peek() in CC or p.peek() in FLAGS:
            p.next()
        p.skip_attrs()
        while p.peek() in CC:
            p.next()
        p.skip_attrs()
        t = p.type()
        I.ty = t
        if p.peek() == '(':      # explicit function type
            p.skip_paren()
        if p.peek() == 'asm':
            p.next()
            while p.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                p.next()
            s = p.next()
            p.expect(',')
            cons = p.next()
            callee = ('asm', s, cons)
        else:
            callee = p.value(PTR)
        p.expect('(')
        args = []
        if callee[0] == 'g' and (callee[1].startswith('@llvm.lifetime') or callee[1].startswith('@llvm.dbg') or
                                 callee[1].startswith('@llvm.experimental.noalias')):
            I.op = 'nop'
            return I
        while not p.accept(')'):
            tt = p.type()
            at = p.skip_attrs()
            if tt is META:
                p.next()
                args.append((tt, None))
            else:
                args.append((tt, p.value(tt)))
            p.accept(',')
        I.a = tuple(args)
        I.x = callee
    elif op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        I.ty = t
        I.a = (v,)
        I.x = idx
    elif op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        e = p.value(t2)
        idx = []
        while p.accept(','):
            if p.peek()[0] == '!':
                break
            idx.append(int(p.next()))
        I.ty = t
        I.a = (v, e)
        I.x = idx
    elif op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        i = p.value(t2)
        I.ty = t
        I.a = (v, i)
    elif op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t1 = p.type()
        e = p.value(t1)
        p.expect(',')
        t2 = p.type()
        i = p.value(t2)
        I.ty = t
        I.a = (v, e, i)
    elif op == 'shufflevector':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t1 = p.type()
        u = p.value(t1)
        p.expect(',')
        t2 = p.type()
        m = p.value(t2)
        I.ty = t
        I.a = (v, u)
        I.x = (t2, m)
    elif op == 'freeze':
        t = p.type()
        I.ty = t
        I.a = (p.value(t),)
    elif op == 'fence':
        I.op = 'nop'
    else:
        raise ParseError('instruction: ' + line)
    return I


def _align(p):
    while True:
        x = p.peek()
        if x is None or x[0] == '!':
            return 1
        if x == 'align':
            p.next()
            return int(p.next())
        p.next()


def parse_module(path):
    M = Module(path)
    with open(path) as f:
        lines = f.read().split('\n')
    pend_types = []
    bodies = []
    i = 0
    n = len(lines)
    decl = []
    glob = []
    while i < n:
        L = lines[i]
        i += 1
        if not L or L[0] == ';':
            continue
        if L[0] == '%':
            k = L.index(' = type ')
            pend_types.append((L[:k], L[k + 8:]))
        elif L[0] == '@':
            glob.append(L)
        elif L.startswith('define '):
            b = []
            while lines[i] != '}':
                b.append(lines[i])
                i += 1
            i += 1
            bodies.append((L, b))
        elif L.startswith('declare '):
            decl.append(L)
        elif L.startswith('attributes #'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', L)
            M.attrs[m.group(1)] = m.group(2)
    # named types (may refer forward)
    todo = pend_types
    while todo:
        rest = []
        for nm, s in todo:
            try:
                if s.startswith('opaque'):
                    M.types[nm] = Ty('s', 0, [])
                else:
                    M.types[nm] = P(toks(s), M).type()
            except ParseError:
                rest.append((nm, s))
        if len(rest) == len(todo):
            raise ParseError('types %r' % rest[:3])
        todo = rest
    for L in decl:
        f = parse_header(L, M)
        M.funcs[f.name] = f
    for L, b in bodies:
        f = parse_header(L, M)
        f.body = b
        M.funcs[f.name] = f
    for L in glob:
        parse_global(L, M)
    return M


def parse_header(L, M):
    f = Func()
    f.module = M
    f.body = None
    p = P(toks(L), M)
    p.next()
    # linkage words until return type
    while True:
        p.skip_attrs()
        x = p.peek()
        if x in ('internal', 'private', 'external', 'hidden', 'dso_local', 'local_unnamed_addr', 'unnamed_addr',
                 'linkonce_odr', 'weak', 'weak_odr', 'available_externally', 'protected', 'linkonce', 'extern_weak',
                 'dso_preemptable') or x in CC:
            p.next()
        else:
            break
    f.ret = p.type()
    f.name = p.next()
    p.expect('(')
    while not p.accept(')'):
        if p.accept('...'):
            continue
        if p.peek() == '...':
            p.next()
            continue
        t = p.type()
        at = p.skip_attrs()
        nm = None
        if p.peek() and p.peek()[0] == '%':
            nm = p.next()
        f.params.append((t, nm, at))
        p.accept(',')
    f.attr_ids = [x for x in p.t[p.i:] if x[0] == '#']
    at = ' '.join(M.attrs.get(a, '') for a in f.attr_ids) + ' ' + ' '.join(x for x in p.t[p.i:] if x[0] not in '#!')
    f.attrs = at
    f.noreturn = 'noreturn' in at.split()
    m = re.search(r'"target-features"="([^"]*)"', at)
    f.features = frozenset(x[1:] for x in m.group(1).split(',') if x.startswith('+')) if m else frozenset()
    return f


def parse_body(f):
    if f.blocks is not None:
        return
    M = f.module
    cur = None
    blocks = {}
    b = f.body
    i = 0
    n = len(b)
    while i < n:
        L = b[i]
        i += 1
        if not L or L.lstrip().startswith(';'):
            continue
        if L[0] != ' ':
            lab = L[:L.index(':')]
            cur = []
            blocks['%' + lab] = cur
            if f.entry is None:
                f.entry = '%' + lab
            continue
        s = L.strip()
        if s.startswith('#dbg'):
            continue
        if s.startswith('switch '):
            while not s.rstrip().endswith(']') and ']' not in s:
                s += ' ' + b[i].strip()
                i += 1
        if cur is None:
            cur = []
            k = str(len([p for p in f.params if p[1] is None or p[1][1:].isdigit()]))
            blocks['%' + k] = cur
            f.entry = '%' + k
        cur.append(parse_instr(s, M))
    f.blocks = blocks
    f.body = None


def parse_global(L, M):
    g = Global()
    g.module = M
    p = P(toks(L), M)
    g.name = p.next()
    p.expect('=')
    ext = False
    while True:
        x = p.next()
        if x in ('global', 'constant'):
            g.const = x == 'constant'
            break
        if x == 'alias':
            t = p.type()
            if p.peek() == '(':
                p.skip_paren()
            p.expect(',')
            p.type()
            v = p.value(PTR)
            M.aliases[g.name] = v
            return
        if x in ('external', 'extern_weak'):
            ext = True
        if x == 'thread_local':
            if p.peek() == '(':
                p.skip_paren()
        if x == 'addrspace':
            p.skip_paren()
    g.ty = p.type()
    if not ext:
        g.init = p.value(g.ty)
    m = re.search(r', align (\d+)', L)
    if m:
        g.align = int(m.group(1))
    M.globals[g.name] = g
