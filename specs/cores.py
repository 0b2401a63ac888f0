"""Contracts shared by every block-level cipher core (StreamCipherCore).

Representation invariant ("canonical state"): after any operation the object
is byte for byte the object obtained by constructing it from the same inputs
and setting the block position; every contract below starts from a canonical
object with an arbitrary key, nonce and position and re-establishes it, so the
contracts compose over every history of calls."""
from engine import terms as T
from . import chacha_spec as CH, salsa_spec as SA


class Core:
    """seekable counter-mode core"""

    def __init__(self, p, bs, ctrw, inputs, ks, ctor='new'):
        self.p, self.bs, self.w, self.inputs, self.ks, self.ctor = p, bs, ctrw, inputs, ks, ctor

    # ---- construction
    def args(self, m):
        """fresh arbitrary inputs, placed in read-only memory"""
        a = []
        for nm, n, g in self.inputs:
            b = m.inp_bytes(nm, n, g)
            a.append((b, m.buf(nm, n, b, ro=True)))
        return a

    def obj(self, m, name):
        return m.buf(name, m.size(self.p + '_size'), align=m.size(self.p + '_align'))

    def new(self, m, a, name='c'):
        c = self.obj(m, name)
        m.call('%s_%s' % (self.p, self.ctor), c, *[p for _, p in a])
        return c

    def at(self, m, a, pos, name='canon'):
        """the canonical object at a block position"""
        c = self.new(m, a, name)
        m.call(self.p + '_setpos', c, pos)
        return c

    def pos(self, m, name='pos'):
        M = (1 << self.w) - 1
        sp = [0, 1, M, M - 1, M - 2, M - 3, M - 4, M - 5, M - 15, M - 16, (1 << 31) - 1, (1 << 32) - 1, (1 << 32) - 2, (1 << 32) - 5,
              (1 << 32) - 17, (1 << 33) - 1, (1 << 63) - 1]
        return m.inp(name, self.w, [x & M for x in sp])

    def block(self, a, pos):
        return self.ks([b for b, _ in a], pos)

    def expect(self, a, pos, n):
        out = []
        for i in range(n):
            out += self.block(a, pos + i)
        return out

    def observe(self, m, c):
        """what a caller can see of a state: its position and the keystream from there on"""
        g = m.call(self.p + '_getpos', c)
        o = m.buf('obs', 5 * self.bs)
        m.call(self.p + '_wblocks', c, o, 5)
        return [g] + m.read(o, 5 * self.bs)

    # ---- contracts
    def k_new(self):
        """new: position 0, keystream starts at block 0"""
        def prog(m):
            a = self.args(m)
            c = self.new(m, a)
            z = T.const(0, self.w)
            m.ensure('initial position is 0', (m.call(self.p + '_getpos', c), z))
            m.state_eq('state canonical at 0', c, self.at(m, a, z), self.observe)
            o = m.buf('o', self.bs)
            m.call(self.p + '_wblock', c, o)
            m.ensure_bytes('first keystream block', o, 0, self.block(a, z))
        return prog

    def k_newsl(self, maxlen=None):
        """construction from slices: accepted iff the lengths are right, and then equal to new"""
        def prog(m):
            ins = self.inputs
            a = self.args(m)
            c = self.new(m, a)
            d = self.obj(m, 'd')
            av = []
            for (nm, n, g), (_, p) in zip(ins, a):
                av += [p, n]
            m.ensure('exact lengths accepted', (m.call(self.p + '_newsl', d, *av), T.const(1, 8)))
            m.state_eq('same state as new', d, c, self.observe)
            for k, (nm, n, g) in enumerate(ins):
                for bad in sorted({0, 1, n - 1, n + 1, 2 * n, n // 2, 8, 12, 16, 24, 32} - {n}):
                    x = m.buf('x%d.%d' % (k, bad), bad, m.inp_bytes('x', bad))
                    av2 = []
                    for j, ((nm2, n2, g2), (_, p2)) in enumerate(zip(ins, a)):
                        av2 += [x, bad] if j == k else [p2, n2]
                    e = self.obj(m, 'e')
                    m.ensure('%s of %d bytes rejected' % (nm, bad), (m.call(self.p + '_newsl', e, *av2), T.const(0, 8)))
        return prog

    def k_pos(self):
        """set_block_pos/get_block_pos: round trip from any prior state, forgets the prior position"""
        def prog(m):
            a = self.args(m)
            c = self.at(m, a, self.pos(m, 'from'), 'c')
            to = self.pos(m, 'to')
            m.call(self.p + '_setpos', c, to)
            m.ensure('get_block_pos after set_block_pos', (m.call(self.p + '_getpos', c), to))
            m.state_eq('state canonical at the new position', c, self.at(m, a, to), self.observe)
        return prog

    def k_block(self):
        """write_keystream_block: block at pos, position advances by exactly one"""
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            o = m.buf('o', self.bs)
            m.call(self.p + '_wblock', c, o)
            m.ensure_bytes('keystream block', o, 0, self.block(a, pos))
            m.ensure('position advanced by 1', (m.call(self.p + '_getpos', c), pos + 1))
            m.state_eq('state canonical at pos+1', c, self.at(m, a, pos + 1), self.observe)
        return prog

    def k_blocks(self, n):
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            o = m.buf('o', self.bs * n)
            m.call(self.p + '_wblocks', c, o, n)
            m.ensure_bytes('keystream blocks', o, 0, self.expect(a, pos, n))
            m.state_eq('state canonical at pos+n', c, self.at(m, a, pos + n), self.observe)
        return prog

    def k_apply(self, n, inout):
        """apply_keystream_blocks: xor with the keystream, in place or buffer to buffer"""
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            d = m.inp_bytes('data', self.bs * n, 4)
            if inout:
                i = m.buf('i', self.bs * n, d, ro=True)
                o = m.buf('o', self.bs * n)
                m.call(self.p + '_aio', c, i, o, n)
            else:
                o = m.buf('o', self.bs * n, d)
                m.call(self.p + '_ablocks', c, o, n)
            m.ensure_bytes('data xor keystream', o, 0, [x ^ y for x, y in zip(d, self.expect(a, pos, n))])
            m.state_eq('state canonical at pos+n', c, self.at(m, a, pos + n), self.observe)
        return prog

    def k_rem(self):
        """remaining_blocks: exact distance to the last counter value"""
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            out = m.buf('out', 8, align=8)
            r = m.call(self.p + '_rem', c, out)
            m.ensure('known', (r, T.const(1, 8)))
            m.ensure('blocks before the counter wraps', (m.word(out, 0, 8), (T.const(-1, self.w) - pos).zext(64)))
            m.state_eq('state unchanged', c, self.at(m, a, pos), self.observe)
        return prog

    def k_seq(self, ops):
        """one closure call making the given backend calls"""
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            par = m.size_call(self.p + '_par', c)
            ks = [1 if o == 0 else par if o == 255 else o for o in ops]
            n = sum(ks)
            if any(o not in (0, 255) and o >= par for o in ops):
                m.skip()
                return
            o = m.buf('o', self.bs * n)
            ob = m.buf('ops', len(ops), [T.const(x, 8) for x in ops], ro=True)
            m.call(self.p + '_seq', c, ob, len(ops), o, n)
            m.ensure_bytes('keystream blocks', o, 0, self.expect(a, pos, n))
            m.state_eq('state canonical at pos+%d' % n, c, self.at(m, a, pos + n), self.observe)
        return prog

    def k_step(self, op):
        """inductive step of a backend: from the backend state of ANY position p (in a core
        canonical at any other position p0), one backend call outputs the blocks p..p+k, leaves
        the backend in the state of p+k, and closing the closure leaves the core canonical at p+k"""
        def prog(m):
            a = self.args(m)
            p0 = self.pos(m, 'p0')
            pos = self.pos(m, 'pos')
            c = self.at(m, a, pos, 'c')
            par = m.size_call(self.p + '_par', c)
            k = 1 if op == 0 else par if op == 255 else op
            if op not in (0, 255) and op >= par:
                m.skip()
                return
            N = 512
            dummy = m.buf('dummy', self.bs)
            b0 = m.buf('b0', N, align=64)
            b1 = m.buf('b1', N, align=64)
            nul = 0
            size = m.size_call(self.p + '_step', c, T.const(254, 8), dummy, 1, nul, b0, b1)
            # fresh backend at pos+k, in the same core
            e = m.buf('b2', N, align=64)
            m.call(self.p + '_setpos', c, pos + k)
            m.size_call(self.p + '_step', c, T.const(254, 8), dummy, 1, nul, e, b1)
            # the step
            stateless = m.same(b0, e, size)
            if stateless:
                # all state lives in the core: the contracts on whole calls are the step
                m.note('backend without state of its own')
            want = self.expect(a, pos, k)
            for start in ([pos] if stateless else [p0, pos]):
                m.call(self.p + '_setpos', c, start)
                o = m.buf('o', self.bs * k)
                e2 = m.buf('b3', N, align=64)
                m.size_call(self.p + '_step', c, T.const(op, 8), o, k, b0, b1, e2)
                outp = list(zip(m.read(o, len(want)), want))
                if start is pos or m.holds(outp):
                    break
                # the backend shares its position with the core: steps start from consistent pairs only
                m.note('backend state is tied to the core position; step taken from the consistent pair')
            m.ensure('keystream blocks', outp)
            ex = m.snapshot(e, size)
            ac = m.snapshot(e2, size)
            m.ensure('backend state of pos+%d' % k, [(x if x is not None else T.const(0, 8), y) for x, y in zip(ac, ex) if y is not None])
            m.state_eq('core canonical at pos+%d after the closure' % k, c, self.at(m, a, pos + k), self.observe)
        return prog

    def k_gen(self):
        """rand_core Generator::generate on the core: four blocks, position advanced by four"""
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            o = m.buf('o', 256, align=4)
            m.call(self.p + '_gen', c, o)
            m.ensure_bytes('four keystream blocks', o, 0, self.expect(a, pos, 4))
            m.state_eq('core canonical at pos+4', c, self.at(m, a, pos + 4), self.observe)
        return prog

    def k_fromseed(self):
        """rand_core SeedableRng::from_seed on the core: key = seed, nonce 0, position 0"""
        def prog(m):
            key = m.inp_bytes('key', 32, 4)
            c = self.obj(m, 'c')
            m.call(self.p + '_fromseed', c, m.buf('seed', 32, key, ro=True))
            n = 12 if self.w == 32 else 8
            a = [key, [T.const(0, 8)] * n]
            m.ensure('position 0', (m.call(self.p + '_getpos', c), T.const(0, self.w)))
            o = m.buf('o', 64)
            m.call(self.p + '_wblock', c, o)
            r = int(self.p[2:-1])
            if self.w == 32:
                e = CH.block_ietf(a[0], a[1], T.const(0, 32), r)
            else:
                e = CH.block_djb(a[0], a[1], T.const(0, 64), r)
            m.ensure_bytes('first block', o, 0, e)
            m.ensure('position 1', (m.call(self.p + '_getpos', c), T.const(1, self.w)))
        return prog

    def k_partial(self, n):
        """try_apply_keystream_partial (consumes the cipher)"""
        def prog(m):
            a = self.args(m)
            pos = self.pos(m)
            c = self.at(m, a, pos, 'c')
            d = m.inp_bytes('data', n, 4)
            o = m.buf('o', n, d)
            r = m.call(self.p + '_partial', c, o, n)
            left = (T.const(-1, self.w) - pos).zext(72)
            ok = ~T.ult(left, T.const(n // self.bs, 72))
            m.ensure('accepted iff enough keystream is left', (r, ok.zext(8)))
            if m.branch(ok):
                e = self.expect(a, pos, (n + self.bs - 1) // self.bs)[:n]
                m.ensure_bytes('data xor keystream', o, 0, [x ^ y for x, y in zip(d, e)])
            else:
                m.ensure_bytes('data unchanged on error', o, 0, d)
        return prog


KEY = ('key', 32, 4)


def chacha(r, v):
    if v == 'i':
        return Core('cc%di' % r, 64, 32, [KEY, ('iv', 12, 4)], lambda x, p: CH.block_ietf(x[0], x[1], p, r))
    if v == 'l' and r == 20:
        return Core('cc20l', 64, 64, [KEY, ('iv', 8, 4)], lambda x, p: CH.block_djb(x[0], x[1], p, r))
    z = [T.const(0, 8)] * 8
    return Core('cc%dl' % r, 64, 64, [KEY], lambda x, p: CH.block_djb(x[0], [T.const(0, 8)] * 8, p, r), ctor='fromseed')


def xchacha(r):
    def ks(x, p):
        k, n = CH.xchacha_params(x[0], x[1], r)
        return CH.block_ietf(k, n, p, r)
    return Core('xc%d' % r, 64, 32, [KEY, ('iv', 24, 4)], ks)


def salsa(r):
    return Core('sc%d' % r, 64, 64, [KEY, ('iv', 8, 4)], lambda x, p: SA.block(x[0], x[1], p, r))


def xsalsa(r):
    def ks(x, p):
        k, n = SA.xsalsa_params(x[0], x[1], r)
        return SA.block(k, n, p, r)
    return Core('xs%d' % r, 64, 64, [KEY, ('iv', 24, 4)], ks)


# ---------------------------------------------------------------- functions
def k_hchacha(r):
    def prog(m):
        k = m.inp_bytes('key', 32, 4)
        i = m.inp_bytes('in', 16, 4)
        o = m.buf('out', 32)
        m.call('hc%d' % r, m.buf('key', 32, k, ro=True), m.buf('in', 16, i, ro=True), o)
        m.ensure_bytes('HChaCha%d(key, input)' % r, o, 0, CH.hchacha(k, i, r))
    return prog


def k_hsalsa(r):
    def prog(m):
        k = m.inp_bytes('key', 32, 4)
        i = m.inp_bytes('in', 16, 4)
        o = m.buf('out', 32)
        m.call('hs%d' % r, m.buf('key', 32, k, ro=True), m.buf('in', 16, i, ro=True), o)
        m.ensure_bytes('HSalsa%d(key, input)' % r, o, 0, SA.hsalsa(k, i, r))
    return prog


def k_salsa_raw(r):
    """from_raw_state: the 16 words are used verbatim"""
    def prog(m):
        st = [m.inp('st%d' % i, 32) for i in range(16)]
        b = m.buf('st', 64, CH.bytes_of(st), align=4, ro=True)
        c = m.buf('c', m.size('sc%d_size' % r), align=m.size('sc%d_align' % r))
        m.call('sc%d_raw' % r, c, b)
        pos = T.concat([st[9], st[8]])
        m.ensure('position is words 8,9', (m.call('sc%d_getpos' % r, c), pos))
        o = m.buf('o', 192)
        m.call('sc%d_wblocks' % r, c, o, 3)
        e = []
        for i in range(3):
            p = pos + i
            e += SA.block_of_state(st[:8] + [p.bits(31, 0), p.bits(63, 32)] + st[10:], r)
        m.ensure_bytes('keystream of the raw state', o, 0, e)
        m.ensure('position advanced', (m.call('sc%d_getpos' % r, c), pos + 3))
    return prog
