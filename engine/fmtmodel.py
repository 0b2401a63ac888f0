"""Ghost model of core::fmt: records everything that formatting code hands to a
Formatter, as terms.  A `&dyn Debug` argument whose implementation is part of the
verified code is executed; one implemented in core prints its value, so the value
itself is recorded.  Anything else is refused (Unsupported), never ignored."""
import re
from . import terms as T
from .execu import Unsupported
from .terms import const

PRIM = dict(h=1, t=2, m=4, y=8, j=8, o=16, a=1, s=2, l=4, x=8, i=8, n=16, b=1, c=4)
OK = None


class FakeFn:
    blocks = body = None
    noreturn = False

    def __init__(self, name):
        self.name = name


class FmtModel:
    def __init__(self, m):
        self.m, self.ex = m, m.ex
        self.out = []
        mem = self.ex.mem
        sink = mem.alloc(8, 'fmt sink')
        vt = mem.alloc(48, 'fmt sink vtable', 8)
        for i, nm in enumerate(('drop', 0, 1, 'write_str', 'write_char', 'write_fmt')):
            if isinstance(nm, str):
                a = mem.alloc(1, 'vp_sink_' + nm)
                a.ro = True
                self.ex.fnptr[a.base] = FakeFn('@vp_sink_' + nm)
                v = a.base
            else:
                v = nm
            mem.store_bits(vt, 8 * i, const(v, 64), 8)
        vt.ro = True
        self.sink, self.vt = sink, vt

    def formatter(self, alt):
        mem = self.ex.mem
        f = mem.alloc(24, 'formatter', 8)
        mem.store_bits(f, 0, const(self.sink.base, 64), 8)
        mem.store_bits(f, 8, const(self.vt.base, 64), 8)
        mem.store_bits(f, 16, const(0xE0000020 | (1 << 23 if alt else 0), 64), 8)
        self.f = const(f.base, 64)
        return self.f

    # ------------------------------------------------------------- pieces
    def put(self, tag, *vals):
        self.out.append((tag, list(vals)))

    def string(self, p, n):
        n = self.ex.conc(n, 'string length')
        if n == 0:
            return
        mem = self.ex.mem
        if n > 4096:
            raise Unsupported('string of %d bytes' % n)
        a, off = mem.find(p, n, 'string')
        if type(off) is not int:
            raise Unsupported('string at a symbolic address')
        for i in range(n):
            self.put('byte', mem.load_bits(a, off + i, 1))

    def word(self, p):
        a, off = self.ex.mem.find(p, 8, 'fmt argument')
        if type(off) is not int:
            raise Unsupported('fmt argument at a symbolic address')
        v = self.ex.mem.load_bits(a, off, 8)
        if v.op != 'const':
            raise Unsupported('symbolic fmt pointer')
        return v.aux

    def value(self, p, fn, size=None):
        """prints *p with the function at address fn"""
        g = self.ex.fnptr.get(fn)
        if g is None:
            raise Unsupported('fmt function pointer')
        if g.blocks is not None or g.body is not None:
            self.ex.run(g, [p, self.f])
            return
        if size is None:
            q = re.search(r'3num(?:3imp)?([a-z])(?:Nt|$)', g.name) or re.search(r'3fmt([bc])Nt', g.name)
            if not q or q.group(1) not in PRIM:
                raise Unsupported('fmt of unknown type by ' + g.name)
            size = PRIM[q.group(1)]
        a, off = self.ex.mem.find(p, size, 'printed value')
        if type(off) is not int:
            raise Unsupported('printed value at a symbolic address')
        if size:
            self.put('value ' + g.name[-40:], *[self.ex.mem.load_bits(a, off + i, 1) for i in range(size)])

    def dyn(self, p, vt):
        if vt.op != 'const':
            raise Unsupported('symbolic vtable')
        self.value(p, self.word(vt + 24), self.word(vt + 8))

    def arguments(self, tpl, args):
        """core::fmt::Arguments {template, args}"""
        if args.op != 'const' or tpl.op != 'const':
            raise Unsupported('symbolic fmt::Arguments')
        mem = self.ex.mem
        if args.aux & 1:
            self.string(tpl, const(args.aux >> 1, 64))
            return
        a, o = mem.find(tpl, 1, 'fmt template')

        def byte(k):
            v = mem.load_bits(a, o + k, 1)
            if v.op != 'const':
                raise Unsupported('fmt template')
            return v.aux
        nxt = 0
        k = 0
        while True:
            b = byte(k)
            k += 1
            if b == 0:
                return
            if b < 0x80:
                for i in range(b):
                    self.put('byte', const(byte(k + i), 8))
                k += b
            elif b == 0x80:
                n = byte(k) | byte(k + 1) << 8
                for i in range(n):
                    self.put('byte', const(byte(k + 2 + i), 8))
                k += 2 + n
            else:
                if b & 1:
                    k += 4
                if b & 2:
                    k += 2
                if b & 4:
                    k += 2
                if b & 8:
                    nxt = byte(k) | byte(k + 1) << 8
                    k += 2
                if b & 0x30:
                    raise Unsupported('indirect width')
                self.value(const(self.word(args + 16 * nxt), 64), self.word(args + (16 * nxt + 8)))
                nxt += 1

    # ------------------------------------------------------------- calls
    def hook(self, ex, name, args, I):
        def ret():
            if I.ty is None or I.ty.k == 'void':
                return None
            return const(0, I.ty.n if I.ty.k == 'i' else 64)
        if name == '@vp_sink_write_str':
            self.string(args[1], args[2])
            return ret()
        if name == '@vp_sink_write_char':
            self.put('char', args[1])
            return ret()
        if name == '@vp_sink_write_fmt':
            self.arguments(args[1], args[2])
            return ret()
        if '4core3fmt' not in name:
            raise Unsupported('call to external ' + name)
        if re.search(r'3fmt5write$', name):
            self.arguments(args[2], args[3])
            return ret()
        if name.endswith('9Formatter9write_fmt'):
            self.arguments(args[1], args[2])
            return ret()
        if name.endswith('9Formatter9write_str') or name.endswith('9Formatter3pad'):
            self.string(args[1], args[2])
            return ret()
        if name.endswith('9Formatter12pad_integral'):
            self.put('nonneg', args[1])
            self.string(args[2], args[3])
            self.string(args[4], args[5])
            return ret()
        q = re.search(r'9Formatter\d+debug_(struct|tuple|list|set|map)$', name)
        if q:
            # sret builder: remember the formatter
            a, off = ex.mem.find(args[0], 16, 'debug builder')
            ex.mem.store_bits(a, off, const(0, 128), 16)
            ex.mem.store_bits(a, off, args[1], 8)
            self.put('begin ' + q.group(1))
            if q.group(1) in ('struct', 'tuple'):
                self.string(args[2], args[3])
            return ret()
        q = re.search(r'9Formatter\d+debug_(struct|tuple)_field(\d)_finish$', name)
        if q:
            self.put('begin ' + q.group(1))
            self.string(args[1], args[2])
            k = 3
            for _ in range(int(q.group(2))):
                if q.group(1) == 'struct':
                    self.string(args[k], args[k + 1])
                    k += 2
                self.put('field')
                self.dyn(args[k], args[k + 1])
                k += 2
            return ret()
        q = re.search(r'9Formatter\d+debug_(struct|tuple)_fields_finish$', name)
        if q:
            self.put('begin ' + q.group(1))
            self.string(args[1], args[2])
            if q.group(1) == 'struct':
                names, vals, n = args[3], args[5], ex.conc(args[6], 'fields')
                for i in range(n):
                    self.string(const(self.word(names + 16 * i), 64), const(self.word(names + (16 * i + 8)), 64))
            else:
                vals, n = args[3], ex.conc(args[4], 'fields')
            for i in range(n):
                self.put('field')
                self.dyn(const(self.word(vals + 16 * i), 64), const(self.word(vals + (16 * i + 8)), 64))
            return ret()
        q = re.search(r'8builders\w*?_(?:\d+)(DebugStruct|DebugTuple|DebugList|DebugSet|DebugMap|DebugInner)(\d+)(\w+)$', name)
        if q:
            what = q.group(3)
            if what.startswith('finish'):
                self.put(what)
                return ret()
            if what == 'field' and q.group(1) == 'DebugStruct':
                self.string(args[1], args[2])
                self.put('field')
                self.dyn(args[3], args[4])
                return args[0]
            if what in ('field', 'entry', 'key', 'value') and q.group(1) != 'DebugMap' or what in ('key', 'value'):
                self.put('field')
                self.dyn(args[1], args[2])
                return args[0] if I.ty.k != 'void' else None
            if what == 'entry':
                self.put('entry')
                self.dyn(args[1], args[2])
                self.dyn(args[3], args[4])
                return args[0]
        q = re.search(r'3num(?:3imp)?([a-z])(?:Nt|$)', name) or re.search(r'3fmt([bc])Nt', name)
        if q and q.group(1) in PRIM and name.endswith('3fmt') and len(args) == 2:
            n = PRIM[q.group(1)]
            a, off = ex.mem.find(args[0], n, 'printed value')
            if type(off) is int:
                self.put('value ' + name[-40:], *[ex.mem.load_bits(a, off + i, 1) for i in range(n)])
                return ret()
        if re.search(r'3fmteNt', name) and len(args) == 3:
            self.string(args[0], args[1])
            return ret()
        raise Unsupported('core::fmt function ' + name)
