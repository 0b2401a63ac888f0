"""Symbolic execution of the LLVM IR that rustc produced from the real code.

One Exec run = one path.  Branches on symbolic conditions are resolved by
ctx.decide (which forks by re-execution).  Every memory access is checked:
inside a live allocation, aligned as the instruction claims, not writing to
read-only memory; a failed check or a reachable panic raises Fault.
"""
from . import terms as T
from . import ir
from .terms import const, Node

MASK64 = (1 << 64) - 1


class Unsupported(Exception):
    """the engine cannot interpret this construct (never an alarm)"""


class Fault(Exception):
    """the code does something its contract forbids on the current path"""

    def __init__(self, kind, detail):
        Exception.__init__(self, '%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class Seg:
    __slots__ = ('off', 'n', 'esz', 'A')

    def __init__(self, off, n, esz, A):
        self.off, self.n, self.esz, self.A = off, n, esz, A


class Alloc:
    __slots__ = ('base', 'size', 'cells', 'ro', 'name', 'live', 'align', 'glob')

    def __init__(self, base, size, name, align):
        self.base, self.size, self.name, self.align = base, size, name, align
        self.cells = [None] * size
        self.ro = False
        self.live = True
        self.glob = False


SHIFT = 24
MID = 0x100000


def base_const(n):
    if n.op == 'lin':
        return n.aux[1]
    if n.op == 'concat' and n.args[-1].op == 'const':
        lo = n.args[-1]
        c = base_const(T.concat(list(n.args[:-1])))
        return None if c is None else (c << lo.w) + lo.aux
    return None


class Mem:
    def __init__(self, ctx):
        self.ctx = ctx
        self.allocs = {}
        self.next = 16
        self.undefs = 0

    def alloc(self, size, name, align=1, mis=0):
        k = self.next
        self.next += 1
        base = (k << SHIFT) + MID + mis
        a = Alloc(base, size, name, align)
        self.allocs[k] = a
        return a

    def free(self, a):
        a.live = False
        del self.allocs[a.base >> SHIFT]

    def undef(self, w):
        self.undefs += 1
        return T.var('undef!%d' % self.undefs, w)

    # -------- address resolution
    def find(self, addr, n, what):
        """-> (alloc, concrete offset) or (alloc, offset node)"""
        if addr.op == 'const':
            v = addr.aux
            a = self.allocs.get(v >> SHIFT)
            if a is None:
                raise Fault('memory', '%s of %d bytes at invalid address %#x' % (what, n, v))
            off = v - a.base
            if off < 0 or off + n > a.size:
                raise Fault('memory', '%s of %d bytes at offset %d of %s (size %d)' % (what, n, off, a.name, a.size))
            return a, off
        self.ctx.note_addr(addr)
        c = base_const(addr)
        if c is None:
            raise Unsupported('address without a base: %r' % addr)
        a = self.allocs.get(c >> SHIFT)
        if a is None:
            raise Unsupported('symbolic address without a known base: %r' % addr)
        off = T.sub(addr, const(a.base, 64))
        lo, hi = T.urange(off)
        if hi + n > a.size:
            bad = T.ult(const(a.size - n, 64), off)
            if self.ctx.feasible(bad):
                self.ctx.assume_path(bad)
                raise Fault('memory', '%s of %d bytes possibly out of bounds of %s (size %d)' % (what, n, a.name, a.size))
            self.ctx.stats['bounds_smt'] += 1
        else:
            self.ctx.stats['bounds_interval'] += 1
        return a, off

    # -------- symbolic-index segments
    def symseg(self, a, off, n):
        lo, hi = T.urange(off)
        hi = min(hi, a.size - n)
        tz = T.trailing_zeros(off) if off.op != 'const' else 0
        # offset = c + k*n form
        c = off.aux[1] if off.op == 'lin' else 0
        # find segments overlapping
        segs = []
        seen = set()
        for i in range(lo, hi + n):
            x = a.cells[i]
            if x is not None and type(x[0]) is Seg and id(x[0]) not in seen:
                seen.add(id(x[0]))
                segs.append(x[0])
        if len(segs) == 1:
            s = segs[0]
            if s.off <= lo and hi + n <= s.off + s.n * s.esz and s.esz == n:
                d = T.sub(off, const(s.off, 64))
                if T.trailing_zeros(d) >= (n.bit_length() - 1):
                    return s, T.extract(d, (n.bit_length() - 1) + T.idxw(s.n) - 1, n.bit_length() - 1)
        for s in segs:
            if s.esz != n or (s.off - lo) % n:
                raise Unsupported('mixed element sizes under a symbolic index in %s' % a.name)
            lo = min(lo, s.off)
            hi = max(hi, s.off + (s.n - 1) * n)
        cnt = (hi - lo) // n + 1
        if cnt > 65536:
            raise Unsupported('symbolic access range too large')
        d = T.sub(off, const(lo, 64))
        if n & (n - 1) or T.trailing_zeros(d) < n.bit_length() - 1:
            raise Unsupported('unaligned symbolic index into %s: %r' % (a.name, off))
        # widen to a power of two when memory allows it, so that index terms keep a natural width
        el = []
        for k in range(cnt):
            el.append(self.load_bits(a, lo + k * n, n))
        s = Seg(lo, cnt, n, T.alist(el))
        for k in range(cnt * n):
            a.cells[lo + k] = (s, k)
        sh = n.bit_length() - 1
        return s, T.extract(d, sh + T.idxw(cnt) - 1, sh)

    def make_seg(self, a, off, cnt, esz, A=None):
        if A is None:
            el = [self.load_bits(a, off + k * esz, esz) for k in range(cnt)]
            A = T.alist(el)
        s = Seg(off, cnt, esz, A)
        for k in range(cnt * esz):
            a.cells[off + k] = (s, k)
        return s

    # -------- loads
    def load_bits(self, a, off, n):
        """n bytes little-endian at concrete offset"""
        cells = a.cells
        c0 = cells[off]
        if c0 is not None:
            x = c0[0]
            if type(x) is Node:
                i0 = c0[1]
                # fast path: consecutive bytes of one node
                k = 1
                while k < n:
                    c = cells[off + k]
                    if c is None or c[0] is not x or c[1] != i0 + k:
                        break
                    k += 1
                if k == n:
                    return T.extract(x, 8 * (i0 + n) - 1, 8 * i0)
        parts = []
        k = 0
        while k < n:
            c = cells[off + k]
            if c is None:
                parts.append(self.undef(8))
                k += 1
                continue
            x, i = c
            if type(x) is Seg:
                e, r = divmod(i, x.esz)
                m = min(x.esz - r, n - k)
                v = T.aselect(x.A, const(e, T.idxw(x.n)))
                parts.append(T.extract(v, 8 * (r + m) - 1, 8 * r))
                k += m
                continue
            m = 1
            while k + m < n:
                c2 = cells[off + k + m]
                if c2 is None or c2[0] is not x or c2[1] != i + m:
                    break
                m += 1
            parts.append(T.extract(x, 8 * (i + m) - 1, 8 * i))
            k += m
        parts.reverse()
        return T.concat(parts)

    def load(self, addr, n, what='load'):
        a, off = self.find(addr, n, what)
        if type(off) is int:
            return self.load_bits(a, off, n)
        if n > 8:
            raise Unsupported('wide load at symbolic address')
        s, i = self.symseg(a, off, n)
        return T.aselect(s.A, i)

    def store(self, addr, v, n, what='store'):
        a, off = self.find(addr, n, what)
        if a.ro:
            raise Fault('frame', 'write to read-only %s' % a.name)
        if type(off) is int:
            self.store_bits(a, off, v, n)
            return
        s, i = self.symseg(a, off, n)
        s.A = T.astore(s.A, i, v)

    def store_bits(self, a, off, v, n):
        cells = a.cells
        c = cells[off]
        if c is not None and type(c[0]) is Seg or (cells[off + n - 1] is not None and type(cells[off + n - 1][0]) is Seg):
            k = 0
            while k < n:
                c = cells[off + k]
                if c is not None and type(c[0]) is Seg:
                    s, i = c
                    e, r = divmod(i, s.esz)
                    m = min(s.esz - r, n - k)
                    val = T.extract(v, 8 * (k + m) - 1, 8 * k)
                    ix = const(e, T.idxw(s.n))
                    if m < s.esz:
                        old = T.aselect(s.A, ix)
                        p = []
                        if r + m < s.esz:
                            p.append(T.extract(old, 8 * s.esz - 1, 8 * (r + m)))
                        p.append(val)
                        if r:
                            p.append(T.extract(old, 8 * r - 1, 0))
                        val = T.concat(p)
                    s.A = T.astore(s.A, ix, val)
                    k += m
                else:
                    cells[off + k] = (v, k)
                    k += 1
            return
        for k in range(n):
            cells[off + k] = (v, k)

    def copy(self, dst, src, n):
        if n == 0:
            return
        a, so = self.find(src, n, 'memcpy read')
        b, do = self.find(dst, n, 'memcpy write')
        if b.ro:
            raise Fault('frame', 'write to read-only %s' % b.name)
        if type(so) is not int or type(do) is not int:
            if n in (1, 2, 4, 8):
                self.store(dst, self.load(src, n), n)
                return
            raise Unsupported('memcpy at symbolic address')
        chunk = a.cells[so:so + n]
        segs = {}
        for i, c in enumerate(chunk):
            if c is not None and type(c[0]) is Seg:
                segs.setdefault(id(c[0]), c[0])
        dsegs = any(c is not None and type(c[0]) is Seg for c in b.cells[do:do + n])
        if not segs and not dsegs:
            b.cells[do:do + n] = chunk
            return
        # segments: copy whole ones as arrays, others element-wise
        vals = []
        k = 0
        done = []
        while k < n:
            c = chunk[k]
            if c is not None and type(c[0]) is Seg:
                s, i = c
                if i == 0 and k + s.n * s.esz <= n:
                    done.append((do + k, s))
                    k += s.n * s.esz
                    continue
                e, r = divmod(i, s.esz)
                m = min(s.esz - r, n - k)
                vals.append((do + k, T.extract(T.aselect(s.A, const(e, T.idxw(s.n))), 8 * (r + m) - 1, 8 * r), m))
                k += m
            else:
                vals.append((do + k, c, 0))
                k += 1
        for o, v, m in vals:
            if m == 0:
                if v is None:
                    b.cells[o] = None if not (b.cells[o] and type(b.cells[o][0]) is Seg) else b.cells[o]
                else:
                    self.store_bits(b, o, T.extract(v[0], 8 * v[1] + 7, 8 * v[1]) if b.cells[o] and type(b.cells[o][0]) is Seg else v[0], 1) \
                        if b.cells[o] and type(b.cells[o][0]) is Seg else b.cells.__setitem__(o, v)
            else:
                self.store_bits(b, o, v, m)
        for o, s in done:
            self.make_seg(b, o, s.n, s.esz, s.A)


class Program:
    def __init__(self, paths):
        self.mods = [ir.parse_module(p) for p in paths]
        self.funcs = {}
        self.globals = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                if f.body is not None or f.blocks is not None:
                    self.funcs.setdefault(n, f)
            for n, g in m.globals.items():
                if g.init is not None:
                    self.globals.setdefault(n, g)
            for n, v in m.aliases.items():
                if v[0] == 'g' and v[1] in m.funcs:
                    f = m.funcs[v[1]]
                    m.funcs[n] = f
                    self.funcs.setdefault(n, f)

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and (f.body is not None or f.blocks is not None):
            return f
        g = self.funcs.get(name)
        return g or f


class Frame:
    __slots__ = ('f', 'r', 'allocas')


class Exec:
    def __init__(self, prog, ctx, cpu=None):
        self.p = prog
        self.ctx = ctx
        self.mem = Mem(ctx)
        self.gaddr = {}
        self.fnptr = {}
        self.steps = 0
        self.max_steps = 60_000_000
        self.cpu = cpu or {}
        self.depth = 0
        self.executed = set()
        self.feat_calls = set()
        self.ext_hooks = {}
        self.fn_hooks = {}
        self.cur = None

    # ------------------------------------------------------------ globals
    def global_addr(self, mod, name):
        g = mod.globals.get(name)
        if g is None or g.init is None:
            g = self.p.globals.get(name, g)
        f = None
        if g is None or (g.init is None and g.ty is None):
            f = self.p.lookup(mod, name)
        if g is not None:
            k = (id(g))
            a = self.gaddr.get(k)
            if a is None:
                a = self.mem.alloc(max(g.ty.size, 0), name, g.align)
                a.glob = True
                self.gaddr[k] = a
                if g.init is None:
                    if name in self.p.globals:
                        raise Unsupported('global ' + name)
                    # external data we know nothing about
                    a.ro = True
                else:
                    self.init(a, 0, g.ty, g.init, g.module)
                    a.ro = g.const
            return const(a.base, 64)
        if f is None:
            raise Unsupported('global ' + name)
        a = self.fnptr.get(name)
        if a is None:
            al = self.mem.alloc(1, name)
            al.ro = True
            a = self.fnptr[name] = al.base
            self.fnptr[al.base] = f
        return const(a, 64)

    def init(self, a, off, ty, v, mod):
        k = v[0]
        if k == 'zero':
            if ty.size:
                z = const(0, 8)
                for i in range(ty.size):
                    a.cells[off + i] = (z, 0)
        elif k == 'str':
            for i, b in enumerate(v[1]):
                a.cells[off + i] = (const(b, 8), 0)
        elif k == 'agg':
            if ty.k in ('a', 'v'):
                for i, e in enumerate(v[2]if len(v) > 2 else v[1]):
                    self.init(a, off + i * ty.t.size, ty.t, e, mod)
            else:
                for i, e in enumerate(v[2]):
                    self.init(a, off + ty.offs[i], ty.t[i], e, mod)
        elif k == 'undef':
            pass
        else:
            x = self.cval(v, ty, mod)
            n = ty.size
            if x.w < 8 * n:
                x = T.zext(x, 8 * n)
            for i in range(n):
                a.cells[off + i] = (x, i)

    # ------------------------------------------------------------ values
    def cval(self, v, ty, mod):
        k = v[0]
        if k == 'i':
            return const(v[1], v[2])
        if k == 'g':
            return self.global_addr(mod, v[1])
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.undef(ty)
        if k == 'agg':
            return tuple([self.cval(e, ty.t if ty.k in 'av' else ty.t[i], mod) for i, e in enumerate(v[2])])
        if k == 'str':
            return tuple([const(b, 8) for b in v[1]])
        if k == 'gep':
            ops = [(t, self.cval(o, t, mod)) for t, o in v[2]]
            return self.gep(v[1], ops)
        if k == 'cast':
            x = self.cval(v[3], v[2], mod)
            return self.cast(v[1], v[2], x, v[4])
        if k == 'bin':
            a = self.cval(v[3], v[2], mod)
            b = self.cval(v[4], v[2], mod)
            return BINF[v[1]](a, b)
        raise Unsupported('constant %r' % (v,))

    def zero(self, ty):
        k = ty.k
        if k == 'i':
            return const(0, ty.n)
        if k == 'p':
            return const(0, 64)
        if k in ('a', 'v'):
            return tuple([self.zero(ty.t)] * ty.n)
        return tuple([self.zero(t) for t in ty.t])

    def undef(self, ty):
        k = ty.k
        if k == 'i':
            return self.mem.undef(ty.n)
        if k == 'p':
            return self.mem.undef(64)
        if k in ('a', 'v'):
            return tuple([self.undef(ty.t) for _ in range(ty.n)])
        return tuple([self.undef(t) for t in ty.t])

    def gep(self, st, ops):
        base = ops[0][1]
        off = 0
        acc = base
        ty = None
        for n, (t, x) in enumerate(ops[1:]):
            if isinstance(x, tuple):
                raise Unsupported('vector gep')
            if n == 0:
                sz = st.size
                ty = st
            else:
                if ty.k in ('a', 'v'):
                    ty = ty.t
                    sz = ty.size
                else:
                    if x.op != 'const':
                        raise Unsupported('gep')
                    off += ty.offs[x.aux]
                    ty = ty.t[x.aux]
                    continue
            if x.op == 'const':
                off += T.sgn(x.aux, x.w) * sz
            else:
                xx = T.sext(x, 64) if x.w < 64 else x
                acc = T.add(acc, T.mul(xx, const(sz, 64)))
        return T.add(acc, const(off, 64)) if off else acc

    def cast(self, op, t1, x, t2):
        if t1.k == 'v' and op in ('zext', 'sext', 'trunc'):
            return tuple([self.cast(op, t1.t, e, t2.t) for e in x])
        if op == 'zext':
            return T.zext(x, t2.n)
        if op == 'sext':
            return T.sext(x, t2.n)
        if op == 'trunc':
            return T.extract(x, t2.n - 1, 0)
        if op in ('ptrtoint', 'ptrtoaddr'):
            return x if t2.n == 64 else T.extract(x, t2.n - 1, 0) if t2.n < 64 else T.zext(x, t2.n)
        if op == 'inttoptr':
            return x if x.w == 64 else T.zext(x, 64)
        if op == 'bitcast':
            return self.unflatten(self.flatten(x, t1), t2)
        if op == 'addrspacecast':
            return x
        raise Unsupported(op)

    def flatten(self, x, ty):
        if ty.k == 'v':
            return T.concat(list(reversed(x)))
        return x

    def unflatten(self, x, ty):
        if ty.k == 'v':
            w = ty.t.n if ty.t.k == 'i' else 64
            return tuple([T.extract(x, (i + 1) * w - 1, i * w) for i in range(ty.n)])
        return x

    def load_ty(self, addr, ty):
        k = ty.k
        if k == 'i':
            n = (ty.n + 7) // 8
            v = self.mem.load(addr, n)
            return T.extract(v, ty.n - 1, 0) if ty.n < 8 * n else v
        if k == 'p':
            return self.mem.load(addr, 8)
        if k == 'v':
            w = ty.t.n if ty.t.k == 'i' else 64
            if w % 8:
                v = self.mem.load(addr, ty.size)
                return self.unflatten(T.extract(v, w * ty.n - 1, 0), ty)
            a, off = self.mem.find(addr, ty.size, 'load')
            if type(off) is not int:
                raise Unsupported('vector load at symbolic address')
            b = w // 8
            return tuple([self.mem.load_bits(a, off + i * b, b) for i in range(ty.n)])
        if k == 'a':
            return tuple([self.load_ty(T.add(addr, const(i * ty.t.size, 64)), ty.t) for i in range(ty.n)])
        if k in ('s', 'sp'):
            return tuple([self.load_ty(T.add(addr, const(o, 64)), t) for o, t in zip(ty.offs, ty.t)])
        raise Unsupported('load of %r' % ty)

    def store_ty(self, addr, v, ty):
        k = ty.k
        if k == 'i':
            n = (ty.n + 7) // 8
            self.mem.store(addr, v if v.w == 8 * n else T.zext(v, 8 * n), n)
        elif k == 'p':
            self.mem.store(addr, v, 8)
        elif k == 'v':
            w = ty.t.n if ty.t.k == 'i' else 64
            if w % 8:
                self.mem.store(addr, T.zext(T.concat(list(reversed(v))), 8 * ty.size), ty.size)
                return
            a, off = self.mem.find(addr, ty.size, 'store')
            if type(off) is not int:
                raise Unsupported('vector store at symbolic address')
            if a.ro:
                raise Fault('frame', 'write to read-only %s' % a.name)
            b = w // 8
            for i, e in enumerate(v):
                self.mem.store_bits(a, off + i * b, e, b)
        elif k == 'a':
            for i, e in enumerate(v):
                self.store_ty(T.add(addr, const(i * ty.t.size, 64)), e, ty.t)
        elif k in ('s', 'sp'):
            for o, t, e in zip(ty.offs, ty.t, v):
                self.store_ty(T.add(addr, const(o, 64)), e, t)
        else:
            raise Unsupported('store of %r' % ty)

    def check_align(self, addr, al, what):
        if al <= 1:
            return
        if addr.op == 'const':
            if addr.aux % al:
                raise Fault('memory', 'misaligned %s: address %#x is not %d-aligned' % (what, addr.aux, al))
        elif T.trailing_zeros(addr) < al.bit_length() - 1:
            low = T.extract(addr, al.bit_length() - 2, 0)
            bad = T.not_(T.eq(low, const(0, low.w)))
            if self.ctx.feasible(bad):
                self.ctx.assume_path(bad)
                raise Fault('memory', 'possibly misaligned %s' % what)

    # ------------------------------------------------------------ running
    def call(self, name, args):
        f = self.p.funcs.get('@' + name)
        if f is None:
            raise Unsupported('no function ' + name)
        return self.run(f, args)

    def run(self, f, args):
        ir.parse_body(f)
        self.executed.add(f)
        if self.depth > 60:
            raise Unsupported('call depth')
        if self.cpu.get('any') and f.features:
            self.need_features(f)
        missing = f.features - self.cpu.get('features', f.features)
        if missing:
            raise Fault('cpu-feature', 'function compiled with %s called on a CPU without %s: %s' % (
                '+' + ',+'.join(sorted(f.features)), ','.join(sorted(missing)), f.name))
        self.depth += 1
        r = {}
        for (t, n, at), v in zip(f.params, args):
            r[n if n is not None else '%%%d' % len(r)] = v
        allocas = []
        cval = self.cval
        mod = f.module
        blocks = f.blocks
        prev = None
        cur = f.entry
        ctx = self.ctx

        def V(o, ty):
            if o[0] == 'r':
                return r[o[1]]
            return cval(o, ty, mod)

        while True:
            blk = blocks[cur]
            i = 0
            if blk[0].op == 'phi':
                news = []
                while blk[i].op == 'phi':
                    I = blk[i]
                    news.append((I.res, V(I.x[prev], I.ty)))
                    i += 1
                for k, v in news:
                    r[k] = v
            nb = len(blk)
            self.steps += nb
            if self.steps > self.max_steps:
                raise Unsupported('step budget')
            while i < nb:
                I = blk[i]
                i += 1
                op = I.op
                if op in BINF:
                    a = V(I.a[0], I.ty)
                    b = V(I.a[1], I.ty)
                    fn = BINF[op]
                    if I.ty.k == 'v':
                        r[I.res] = tuple([fn(x, y) for x, y in zip(a, b)])
                    else:
                        if op[1:] in ('div', 'rem'):
                            ctx.note_op('division', a)
                            ctx.note_op('division', b)
                        r[I.res] = fn(a, b)
                elif op == 'load':
                    ad = V(I.a[0], ir.PTR)
                    self.cur = (f, I)
                    if I.x > 1:
                        self.check_align(ad, I.x, 'load')
                    r[I.res] = self.load_ty(ad, I.ty)
                elif op == 'store':
                    v = V(I.a[0], I.ty)
                    ad = V(I.a[1], ir.PTR)
                    self.cur = (f, I)
                    if I.x[0] > 1:
                        self.check_align(ad, I.x[0], 'store')
                    self.store_ty(ad, v, I.ty)
                elif op == 'getelementptr':
                    r[I.res] = self.gep(I.ty, [(t, V(o, t)) for t, o in I.a])
                elif op == 'icmp':
                    a = V(I.a[0], I.ty)
                    b = V(I.a[1], I.ty)
                    fn = CMPF[I.x]
                    if I.ty.k == 'v':
                        r[I.res] = tuple([fn(x, y) for x, y in zip(a, b)])
                    else:
                        r[I.res] = fn(a, b)
                elif op == 'select':
                    c = V(I.a[0], I.x)
                    a = V(I.a[1], I.ty)
                    b = V(I.a[2], I.ty)
                    r[I.res] = self.select(c, a, b)
                elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
                    r[I.res] = self.cast(op, I.x, V(I.a[0], I.x), I.ty)
                elif op == 'shufflevector':
                    t = I.ty
                    a = V(I.a[0], t)
                    b = V(I.a[1], t) if I.a[1][0] != 'undef' else None
                    mt, m = I.x
                    if m[0] == 'zero':
                        idx = [0] * mt.n
                    elif m[0] == 'agg':
                        idx = [e[1] if e[0] == 'i' else 0 if e[0] == 'zero' else None for e in m[2]]
                    else:
                        idx = [None] * mt.n
                    n = t.n
                    out = []
                    for k in idx:
                        if k is None:
                            out.append(self.undef(t.t))
                        elif k < n:
                            out.append(a[k])
                        else:
                            if b is None:
                                b = self.undef(t)
                            out.append(b[k - n])
                    r[I.res] = tuple(out)
                elif op == 'call':
                    self.cur = (f, I)
                    v = self.do_call(f, I, V)
                    if I.res is not None:
                        r[I.res] = v
                elif op == 'jmp':
                    prev = cur
                    cur = I.x
                elif op == 'br':
                    c = V(I.a[0], ir.ity(1))
                    if c.op == 'const':
                        t = c.aux
                    else:
                        self.cur = (f, I)
                        t = ctx.decide(c, f.name)
                    prev = cur
                    cur = I.x[0] if t else I.x[1]
                elif op == 'switch':
                    v = V(I.a[0], I.ty)
                    prev = cur
                    cur = I.x[0]
                    for cv, lb in I.x[1]:
                        e = T.eq(v, cval(cv, I.ty, mod))
                        t = e.aux if e.op == 'const' else ctx.decide(e, f.name)
                        if t:
                            cur = lb
                            break
                elif op == 'alloca':
                    n = 1
                    if I.a:
                        raise Unsupported('dynamic alloca')
                    a = self.mem.alloc(I.ty.size * n, 'stack ' + I.res, I.x)
                    allocas.append(a)
                    r[I.res] = const(a.base, 64)
                elif op == 'extractvalue':
                    v = V(I.a[0], I.ty)
                    for k in I.x:
                        v = v[k]
                    r[I.res] = v
                elif op == 'insertvalue':
                    v = V(I.a[0], I.ty)
                    e = V(I.a[1], self.subty(I.ty, I.x))
                    r[I.res] = self.insval(v, e, I.x)
                elif op == 'extractelement':
                    v = V(I.a[0], I.ty)
                    k = V(I.a[1], ir.ity(64))
                    if k.op != 'const':
                        raise Unsupported('extractelement index')
                    r[I.res] = v[k.aux]
                elif op == 'insertelement':
                    v = V(I.a[0], I.ty)
                    e = V(I.a[1], I.ty.t)
                    k = V(I.a[2], ir.ity(64))
                    if k.op != 'const':
                        raise Unsupported('insertelement index')
                    r[I.res] = v[:k.aux] + (e,) + v[k.aux + 1:]
                elif op == 'ret':
                    v = V(I.a[0], I.ty) if I.a else None
                    for a in allocas:
                        self.mem.free(a)
                    self.depth -= 1
                    return v
                elif op == 'freeze':
                    r[I.res] = V(I.a[0], I.ty)
                elif op == 'unreachable':
                    raise Fault('unreachable', 'unreachable code reached in %s' % f.name)
                elif op == 'nop':
                    pass
                else:
                    raise Unsupported(op)

    def subty(self, ty, idx):
        for k in idx:
            ty = ty.t if ty.k in ('a', 'v') else ty.t[k]
        return ty

    def insval(self, v, e, idx):
        k = idx[0]
        if len(idx) == 1:
            return v[:k] + (e,) + v[k + 1:]
        return v[:k] + (self.insval(v[k], e, idx[1:]),) + v[k + 1:]

    def select(self, c, a, b):
        if isinstance(c, tuple):
            return tuple([T.ite(x, y, z) for x, y, z in zip(c, a, b)])
        if c.op == 'const':
            return a if c.aux else b
        if isinstance(a, tuple):
            return tuple([self.select(c, x, y) for x, y in zip(a, b)])
        return T.ite(c, a, b)

    # ------------------------------------------------------------ calls
    def do_call(self, f, I, V):
        callee = I.x
        if callee[0] == 'asm':
            return self.asm(callee, [V(o, t) for t, o in I.a], I)
        if callee[0] == 'g':
            name = callee[1]
            if name.startswith('@llvm.'):
                return self.intrinsic(name, I, [V(o, t) if o is not None else None for t, o in I.a])
            g = self.p.lookup(f.module, name)
            args = [V(o, t) for t, o in I.a]
        else:
            ad = V(callee, ir.PTR)
            if ad.op != 'const' or ad.aux not in self.fnptr:
                raise Unsupported('indirect call')
            g = self.fnptr[ad.aux]
            name = g.name
            args = [V(o, t) for t, o in I.a]
        h = self.fn_hooks.get(name)
        if h is not None:
            return h(self, name, args, I)
        if g is not None and (g.blocks is not None or g.body is not None):
            return self.run(g, args)
        return self.external(name, g, args, I)

    def external(self, name, g, args, I):
        h = self.ext_hooks.get(name)
        if h is not None:
            return h(self, name, args, I)
        for k, h in EXT.items():
            if k in name:
                return h(self, name, args, I)
        if (g is not None and g.noreturn) or 'panic' in name or 'unwrap_failed' in name or name.endswith('_fail'):
            raise Fault('panic', demangle(name))
        h = self.ext_hooks.get('*')
        if h is not None:
            return h(self, name, args, I)
        raise Unsupported('call to external ' + name)

    def asm(self, callee, args, I):
        s = callee[1]
        if 'cpuid' in s:
            leaf, sub = args[-2], args[-1]
            if leaf.op != 'const' or sub.op != 'const':
                raise Unsupported('cpuid leaf')
            self.ctx.stats['cpuid'] += 1
            if self.cpu.get('any'):
                return tuple(self.cpuid_reg(leaf.aux, sub.aux if leaf.aux == 7 else 0, x) for x in ('ebx', 'eax', 'ecx', 'edx'))
            q = self.cpu.get('cpuid')
            if q is None:
                raise Unsupported('cpuid without a CPU model')
            r = q(leaf.aux, sub.aux)      # (eax, ebx, ecx, edx)
            return (const(r[1], 32), const(r[0], 32), const(r[2], 32), const(r[3], 32))
        if s.strip('"').strip() == '' or s.strip('"').lstrip().startswith('#') and '\n' not in s and '\\0A' not in s and ';' not in s:
            # an optimisation barrier: no instruction
            return self.zero(I.ty) if I.ty.k != 'void' else None
        raise Unsupported('asm ' + s)

    # ---- an arbitrary CPU: CPUID leaves and XCR0 are inputs
    def cpuvar(self, nm, w, special):
        self.ctx.pv.samples.special.setdefault(nm, special)
        return T.var(nm, w)

    def cpuid_reg(self, leaf, sub, reg):
        return self.cpuvar('cpuid.%d.%d.%s' % (leaf, sub, reg), 32, [0, 0xffffffff, 0xffffffff, 0xffffffff ^ (1 << 31), 0xffffffff ^ (1 << 27), 0xffffffff ^ (1 << 16), 1 << 5])

    def xcr0(self):
        return self.cpuvar('xcr0', 64, [0xe7, 0xe7, 0xe7, 7, 3, 1, 0])

    CPUBITS = {'sse3': ('c', 0), 'pclmul': ('c', 1), 'ssse3': ('c', 9), 'fma': ('c', 12), 'cx16': ('c', 13), 'sse4.1': ('c', 19), 'sse4.2': ('c', 20),
               'movbe': ('c', 22), 'popcnt': ('c', 23), 'aes': ('c', 25), 'xsave': ('c', 26), 'avx': ('c', 28), 'f16c': ('c', 29),
               'bmi': ('b', 3), 'avx2': ('b', 5), 'bmi2': ('b', 8), 'avx512f': ('b', 16), 'avx512dq': ('b', 17), 'avx512ifma': ('b', 21),
               'avx512cd': ('b', 28), 'sha': ('b', 29), 'avx512bw': ('b', 30), 'avx512vl': ('b', 31)}
    # what every CPU with the left-hand feature has (architectural guarantee)
    IMPLIED = {'avx512f': {'avx2', 'fma', 'f16c', 'evex512', 'avx'}, 'avx2': {'avx'},
               'avx': {'sse4.2', 'sse4.1', 'ssse3', 'sse3', 'crc32', 'popcnt', 'xsave', 'cx16', 'sahf'},
               'sse4.2': {'sse4.1', 'ssse3', 'sse3', 'crc32'}, 'sse4.1': {'ssse3', 'sse3'}, 'ssse3': {'sse3'}}

    def need_features(self, f):
        """requires clause of every function compiled for more than the x86-64 baseline"""
        fs = set(f.features) - {'sse', 'sse2', 'fxsr', 'mmx', 'x87', 'cx8', 'cmov', 'cmpxchg8b'}
        top = set(fs)
        for x in fs:
            todo = [x]
            while todo:
                for y in self.IMPLIED.get(todo.pop(), ()):
                    if y in top or y in self.IMPLIED:
                        todo.append(y)
                    top.discard(y)
        bit = lambda v, i: T.extract(v, i, i)
        cond = []
        for x in sorted(top):
            if x not in self.CPUBITS:
                raise Unsupported('target feature ' + x)
            r, i = self.CPUBITS[x]
            cond.append(bit(self.cpuid_reg(1, 0, 'ecx') if r == 'c' else self.cpuid_reg(7, 0, 'ebx'), i))
            if x.startswith('avx') or x in ('fma', 'f16c'):
                cond += [bit(self.cpuid_reg(1, 0, 'ecx'), 27), bit(self.xcr0(), 1), bit(self.xcr0(), 2)]
            if x.startswith('avx512'):
                cond += [bit(self.xcr0(), 5), bit(self.xcr0(), 6), bit(self.xcr0(), 7)]
        self.need(cond, 'function compiled with %s called on a CPU or OS that may lack it: %s' % (','.join(sorted(top)), f.name))

    def need(self, cond, msg):
        for c in cond:
            if self.ctx.known.get(c.id) == 1 or c.op == 'const' and c.aux:
                continue
            if self.ctx.feasible(T.not_(c)):
                self.ctx.assume_path(T.not_(c))
                raise Fault('cpu-feature', msg)
            self.ctx.learn(c)

    def conc(self, n, what):
        if n.op == 'const':
            return n.aux
        return self.ctx.concretize(n, what)

    def intrinsic(self, name, I, a):
        base = name[1:]
        ty = I.ty
        if base.startswith('llvm.memcpy') or base.startswith('llvm.memmove'):
            n = self.conc(a[2], 'memcpy length')
            ad, asrc = self._argalign(I)
            if n:
                self.check_align(a[0], ad, 'memcpy destination')
                self.check_align(a[1], asrc, 'memcpy source')
                if base.startswith('llvm.memcpy') and a[0].op == 'const' and a[1].op == 'const' and a[0].aux != a[1].aux \
                        and abs(a[0].aux - a[1].aux) < n:
                    raise Fault('memory', 'overlapping memcpy')
            self.mem.copy(a[0], a[1], n)
            return None
        if base.startswith('llvm.memset'):
            n = self.conc(a[2], 'memset length')
            if n:
                al, off = self.mem.find(a[0], n, 'memset')
                if type(off) is not int:
                    raise Unsupported('memset at symbolic address')
                if al.ro:
                    raise Fault('frame', 'write to read-only %s' % al.name)
                c = (a[1], 0)
                for i in range(n):
                    x = al.cells[off + i]
                    if x is not None and type(x[0]) is Seg:
                        s = x[0]
                        if x[1] == 0 and i + s.n * s.esz <= n:
                            for j in range(s.n * s.esz):
                                al.cells[off + i + j] = c
                        else:
                            self.mem.store_bits(al, off + i, a[1], 1)
                    else:
                        al.cells[off + i] = c
            return None
        if base.startswith('llvm.fshl') or base.startswith('llvm.fshr'):
            left = base.startswith('llvm.fshl')
            return self.lanes(ty, lambda x, y, k: fsh(x, y, k, left), a[0], a[1], a[2])
        m = base.split('.')
        if m[1] in ('assume', 'sideeffect', 'donothing', 'prefetch'):
            return None
        if '.with.overflow.' in base:
            w = a[0].w
            x, y = a[0], a[1]
            if m[1] == 'uadd':
                s = T.add(x, y)
                return (s, T.ult(s, x))
            if m[1] == 'usub':
                return (T.sub(x, y), T.ult(x, y))
            if m[1] == 'umul':
                p = T.mul(T.zext(x, 2 * w), T.zext(y, 2 * w))
                return (T.extract(p, w - 1, 0), T.not_(T.eq(T.extract(p, 2 * w - 1, w), const(0, w))))
            if m[1] in ('sadd', 'ssub', 'smul'):
                xx, yy = T.sext(x, 2 * w), T.sext(y, 2 * w)
                p = T.add(xx, yy) if m[1] == 'sadd' else T.sub(xx, yy) if m[1] == 'ssub' else T.mul(xx, yy)
                lo = T.extract(p, w - 1, 0)
                return (lo, T.not_(T.eq(T.sext(lo, 2 * w), p)))
        if m[1] in ('uadd', 'usub') and m[2] == 'sat':
            def g(x, y):
                if m[1] == 'uadd':
                    s = T.add(x, y)
                    return T.ite(T.ult(s, x), const(-1, x.w), s)
                return T.ite(T.ult(x, y), const(0, x.w), T.sub(x, y))
            return self.lanes(ty, g, a[0], a[1])
        if m[1] in ('umin', 'umax', 'smin', 'smax'):
            lt = T.ult if m[1][0] == 'u' else T.slt
            mn = m[1][1:] == 'min'
            return self.lanes(ty, lambda x, y: T.ite(lt(x, y), x if mn else y, y if mn else x), a[0], a[1])
        if m[1] == 'abs':
            return self.lanes(ty, lambda x: T.ite(T.slt(x, const(0, x.w)), T.neg(x), x), a[0])
        if m[1] == 'ucmp' or m[1] == 'scmp':
            lt = T.ult if m[1][0] == 'u' else T.slt
            w = ty.n
            return T.ite(lt(a[0], a[1]), const(-1, w), T.ite(lt(a[1], a[0]), const(1, w), const(0, w)))
        if m[1] == 'bswap':
            return self.lanes(ty, lambda x: T.concat([T.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)]), a[0])
        if m[1] == 'bitreverse':
            return self.lanes(ty, lambda x: T.concat([T.extract(x, i, i) for i in range(x.w)]), a[0])
        if m[1] == 'ctpop':
            def pc(x):
                r = const(0, x.w)
                for i in range(x.w):
                    r = T.add(r, T.zext(T.extract(x, i, i), x.w))
                return r
            return self.lanes(ty, pc, a[0])
        if m[1] in ('ctlz', 'cttz'):
            def cz(x):
                r = const(x.w, x.w)
                rng = range(x.w) if m[1] == 'ctlz' else range(x.w - 1, -1, -1)
                for i in rng:
                    k = x.w - 1 - i if m[1] == 'ctlz' else i
                    r = T.ite(T.extract(x, i, i), const(k, x.w), r)
                return r
            return self.lanes(ty, cz, a[0])
        if m[1] == 'expect':
            return a[0]
        if m[1] == 'is' and m[2] == 'constant':
            return const(0, 1)
        if m[1] == 'vector' and m[2] == 'reduce':
            fn = {'or': T.or_, 'and': T.and_, 'xor': T.xor, 'add': T.add}.get(m[3])
            if fn:
                r = a[0][0]
                for x in a[0][1:]:
                    r = fn(r, x)
                return r
        if m[1] == 'vector' and m[2] in ('insert', 'extract'):
            if m[2] == 'insert':
                k = a[2].aux
                return a[0][:k] + a[1] + a[0][k + len(a[1]):]
            k = a[1].aux
            return a[0][k:k + ty.n]
        if m[1] in ('trap', 'ubsantrap', 'debugtrap'):
            raise Fault('panic', 'llvm.trap')
        if m[1] == 'x86':
            return self.x86(base, I, a)
        if m[1] == 'aarch64':
            return self.aarch64(base, I, a)
        raise Unsupported('intrinsic ' + name)

    def _argalign(self, I):
        c = getattr(self, '_al', None)
        if c is None:
            c = self._al = {}
        k = id(I)
        if k not in c:
            import re
            m = re.search(r'mem(?:cpy|move)[^(]*\((.*)', I.line).group(1)
            parts = m.split(', ')
            al = []
            for s in parts[:2]:
                x = re.search(r'\balign (\d+)', s)
                al.append(int(x.group(1)) if x else 1)
            c[k] = al
        return c[k]

    def lanes(self, ty, fn, *a):
        if ty.k == 'v':
            return tuple([fn(*x) for x in zip(*a)])
        return fn(*a)

    def x86(self, base, I, a):
        if base == 'llvm.x86.xgetbv':
            if self.cpu.get('any'):
                self.need([T.extract(self.cpuid_reg(1, 0, 'ecx'), 27, 27)], 'xgetbv without OSXSAVE')
                return self.xcr0()
            q = self.cpu.get('xcr0')
            if 'xsave' not in self.cpu.get('features', ('xsave',)):
                raise Fault('cpu-feature', 'xgetbv without OSXSAVE')
            if q is None:
                raise Unsupported('xgetbv without a CPU model')
            return const(q, 64)
        if 'pshuf.b' in base:
            v, m = a[0], a[1]
            n = len(v)
            out = []
            for i in range(n):
                k = m[i]
                if k.op != 'const':
                    raise Unsupported('pshufb mask')
                lane = i // 16 * 16
                out.append(const(0, 8) if k.aux & 0x80 else v[lane + (k.aux & 15)])
            return tuple(out)
        if 'vpermi2var' in base or 'vpermt2var' in base:
            x, idx, y = a[0], a[1], a[2]
            n = len(x)
            out = []
            for k in idx:
                if k.op != 'const':
                    raise Unsupported('vpermi2 index')
                j = k.aux & (2 * n - 1)
                out.append(x[j] if j < n else y[j - n])
            return tuple(out)
        if 'permvar' in base or 'avx2.permd' in base:
            x, idx = a[0], a[1]
            n = len(x)
            out = []
            for k in idx:
                if k.op != 'const':
                    raise Unsupported('perm index')
                out.append(x[k.aux & (n - 1)])
            return tuple(out)
        if 'pmulu' in base:
            return tuple(T.mul(T.zext(T.extract(x, 31, 0), 64), T.zext(T.extract(y, 31, 0), 64)) for x, y in zip(a[0], a[1]))
        mm = base.split('.')
        if mm[-1] in ('d', 'q', 'w') and any(s in mm for s in ('pslli', 'psrli', 'psrai')):
            w = a[0][0].w
            k = self.conc(a[1], 'shift')
            if 'pslli' in mm:
                return tuple(T.shl_c(x, k) for x in a[0])
            if 'psrli' in mm:
                return tuple(T.lshr_c(x, k) for x in a[0])
            return tuple(T.ashr_c(x, k) for x in a[0])
        raise Unsupported('intrinsic ' + base)

    def aarch64(self, base, I, a):
        if '.tbl1' in base:
            v, m = a[0], a[1]
            out = []
            for k in m:
                if k.op != 'const':
                    raise Unsupported('tbl index')
                out.append(v[k.aux] if k.aux < len(v) else const(0, 8))
            return tuple(out)
        if '.vsli' in base:
            k = a[2].aux
            out = []
            for d, s in zip(a[0], a[1]):
                w = d.w
                out.append(T.concat([T.extract(s, w - 1 - k, 0), T.extract(d, k - 1, 0)]) if k else s)
            return tuple(out)
        if '.vsri' in base:
            k = a[2].aux
            out = []
            for d, s in zip(a[0], a[1]):
                w = d.w
                out.append(T.concat([T.extract(d, w - 1, w - k), T.extract(s, w - 1, k)]) if k < w else d)
            return tuple(out)
        raise Unsupported('intrinsic ' + base)


def fsh(x, y, k, left):
    w = x.w
    if k.op != 'const':
        if x is y:
            raise Unsupported('rotation by a symbolic amount')
        raise Unsupported('funnel shift by a symbolic amount')
    s = k.aux % w
    if not left:
        s = (w - s) % w
        if k.aux % w == 0:
            return y
    elif s == 0:
        return x
    return T.concat([T.extract(x, w - 1 - s, 0), T.extract(y, w - 1, w - s)])


def sdiv(a, b):
    if a.op == 'const' and b.op == 'const' and b.aux:
        x, y = T.sgn(a.aux, a.w), T.sgn(b.aux, b.w)
        q = abs(x) // abs(y)
        return const(-q if (x < 0) != (y < 0) else q, a.w)
    raise Unsupported('sdiv')


def srem(a, b):
    if a.op == 'const' and b.op == 'const' and b.aux:
        x, y = T.sgn(a.aux, a.w), T.sgn(b.aux, b.w)
        q = abs(x) % abs(y)
        return const(-q if x < 0 else q, a.w)
    raise Unsupported('srem')


BINF = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'udiv': T.udiv, 'urem': T.urem, 'and': T.and_, 'or': T.or_,
        'xor': T.xor, 'shl': T.shl, 'lshr': T.lshr, 'ashr': T.ashr, 'sdiv': sdiv, 'srem': srem}
CMPF = {'eq': T.eq, 'ne': lambda a, b: T.not_(T.eq(a, b)), 'ult': T.ult, 'ugt': lambda a, b: T.ult(b, a),
        'ule': T.ule, 'uge': lambda a, b: T.ule(b, a), 'slt': T.slt, 'sgt': lambda a, b: T.slt(b, a),
        'sle': lambda a, b: T.not_(T.slt(b, a)), 'sge': lambda a, b: T.not_(T.slt(a, b))}


def ext_bcmp(ex, name, a, I):
    n = ex.conc(a[2], 'memcmp length')
    r = const(1, 1)
    for i in range(n):
        x = ex.mem.load(T.add(a[0], const(i, 64)), 1)
        y = ex.mem.load(T.add(a[1], const(i, 64)), 1)
        r = T.and_(r, T.eq(x, y))
    if 'bcmp' not in name:
        raise Unsupported('memcmp')
    return T.zext(T.not_(r), 32)


EXT = {'@bcmp': ext_bcmp}


def demangle(n):
    import re
    n = n.lstrip('@')
    out = []
    for m in re.finditer(r'(\d+)([A-Za-z_]\w*)', n):
        k = int(m.group(1))
        s = m.group(2)
        if len(s) >= k:
            out.append(s[:k])
    return '::'.join(out) if out else n
