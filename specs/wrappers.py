"""Contracts of the byte-level ciphers (StreamCipher / StreamCipherSeek) over the
seekable cores.

State of a byte-level cipher: block position b, byte offset k in 0..63
(k = 0: the buffer is exhausted and the core is at b; k > 0: the buffer holds
block b with k bytes consumed and the core is at b+1).  The canonical object at
(b, k) is a fresh cipher after one seek to byte 64*b+k; every contract starts
from a canonical object with arbitrary key, nonce and b and shows that the
result is canonical again, so sequences of calls of any length compose."""
from engine import terms as T
from .cores import chacha, xchacha, salsa, xsalsa


class Wrap:
    def __init__(self, p, core):
        self.p, self.core, self.bs, self.w = p, core, core.bs, core.w
        self.inputs = core.inputs
        self.W = core.w + 8        # width of byte positions
        self.hook_fresh = None

    def args(self, m):
        return self.core.args(m)

    def obj(self, m, name):
        return m.buf(name, m.size(self.p + '_size'), align=m.size(self.p + '_align'))

    def new(self, m, a, name='c'):
        c = self.obj(m, name)
        m.call(self.p + '_new', c, *[p for _, p in a])
        return c

    def seek(self, m, c, bytepos):
        """bytepos: W-bit term"""
        if self.W <= 64:
            return m.call(self.p + '_seek64', c, bytepos.zext(64))
        x = bytepos.zext(128)
        return m.call(self.p + '_seek128', c, m.buf('sk', 16, [x.byte(i) for i in range(16)], align=16, ro=True))

    def bytepos(self, b, k):
        return b.zext(self.W) * T.const(64, self.W) + T.const(k, self.W)

    def at(self, m, a, b, k, name='canon'):
        c = self.new(m, a, name)
        r = self.seek(m, c, self.bytepos(b, k))
        m.ensure('seek to a valid position is accepted', (r, T.const(1, 8)))
        return c

    def pos(self, m, k, name='b', room=0):
        """a block number b such that the state (b, k) exists: (MAX, k>0) does not"""
        b = self.core.pos(m, name)
        if k:
            m.assume(~T.eq(b, T.const(-1, self.w)))
        return b

    def used(self, b, k):
        """core position in state (b, k)"""
        return b + 1 if k else b

    def left(self, b, k):
        """blocks the core may still produce, as a wide number"""
        return (T.const(-1, self.w) - self.used(b, k)).zext(128)

    def fits(self, b, k, n):
        """does a request for n bytes (int or 64-bit term) stay before the end of the keystream?"""
        have = (64 - k) % 64
        nn = T.const(n, 128) if isinstance(n, int) else n.zext(128)
        need = T.ite(T.ult(nn, T.const(have, 128)), T.const(0, 128), nn - T.const(have, 128))
        return ~T.ult(self.left(b, k) * T.const(64, 128), need)

    def stream(self, a, b, k, n):
        out = []
        nb = (k + n + 63) // 64
        for i in range(nb):
            out += self.core.block(a, b + i)
        return out[k:k + n]

    def mask(self, m, a, k):
        """bytes of the object that matter in state (., k): for k = 0 the buffered block is dead except its cursor"""
        if k:
            return None
        z = T.const(5, self.w)
        x = m.snapshot(self.at(m, a, z, 1, 'm1'))
        y = m.snapshot(self.at(m, a, z, 2, 'm2'))
        o = [i for i, (p, q) in enumerate(zip(x, y)) if p is not q and p is not None and q is not None
             and p.op == 'const' and q.op == 'const' and p.aux == 1 and q.aux == 2]
        if len(o) != 1:
            return None
        o = o[0]
        return [not (o < i < o + self.bs) for i in range(len(x))]

    def observe(self, m, c):
        o = m.buf('p128', 16, align=16)
        r = m.call(self.p + '_pos128', c, o)
        x = m.buf('obs', 130)
        q = m.call(self.p + '_wks', c, x, 130)
        return [r, m.word(o, 0, 16), q] + ([] if m.decided_zero(q) else m.read(x, 130))

    def canonical(self, m, name, c, a, b, k):
        m.state_eq(name, c, self.at(m, a, b, k), self.observe, self.mask(m, a, k))

    # ---- contracts
    def k_new(self):
        def prog(m):
            a = self.args(m)
            c = self.new(m, a)
            o = m.buf('p', 8, align=8)
            m.ensure('position known', (m.call(self.p + '_pos64', c, o), T.const(1, 8)))
            m.ensure('initial position is 0', (m.word(o, 0, 8), T.const(0, 64)))
            self.canonical(m, 'fresh cipher is canonical at 0', c, a, T.const(0, self.w), 0)
            x = m.buf('o', 70)
            m.ensure('accepted', (m.call(self.p + '_wks', c, x, 70), T.const(1, 8)))
            m.ensure_bytes('first keystream bytes', x, 0, self.stream(a, T.const(0, self.w), 0, 70))
        return prog

    def k_req(self, k, n, mode):
        """a request for n bytes in state (b, k): served in full iff it fits, otherwise refused without effect.
        mode: a = in place, b = buffer to buffer, w = keystream only"""
        def prog(m):
            a = self.args(m)
            b = self.pos(m, k)
            c = self.at(m, a, b, k, 'c')
            ok = self.fits(b, k, n)
            m.ensure('check_remaining answers exactly', (m.call(self.p + '_check', c, n), ok.zext(8)))
            d = m.inp_bytes('data', n)
            z = [T.const(0, 8)] * n
            if mode == 'a':
                o = m.buf('o', n, d)
                r = m.call(self.p + '_apply', c, o, n)
            elif mode == 'b':
                i = m.buf('i', n, d, ro=True)
                o = m.buf('o', n, z)
                r = m.call(self.p + '_b2b', c, i, o, n)
            else:
                o = m.buf('o', n, d)
                r = m.call(self.p + '_wks', c, o, n)
            m.ensure('accepted exactly when enough keystream is left', (r, ok.zext(8)))
            if m.branch(ok):
                s = self.stream(a, b, k, n)
                m.ensure_bytes('output', o, 0, s if mode == 'w' else [x ^ y for x, y in zip(d, s)])
                self.canonical(m, 'state advanced by exactly %d bytes' % n, c, a, b + (k + n) // 64, (k + n) % 64)
            else:
                m.ensure_bytes('data untouched on error', o, 0, z if mode == 'b' else d)
                self.canonical(m, 'state untouched on error', c, a, b, k)
        return prog

    def k_check(self, k):
        """check_remaining for every request length"""
        def prog(m):
            a = self.args(m)
            b = self.pos(m, k)
            c = self.at(m, a, b, k, 'c')
            n = m.inp('n', 64, [0, 1, 63, 64, 65, (1 << 64) - 1, (1 << 64) - 64, 1 << 38, (1 << 38) - 64, (1 << 38) - 65])
            m.ensure('check_remaining answers exactly', (m.call(self.p + '_check', c, n), self.fits(b, k, n).zext(8)))
        return prog

    def k_seek(self, k0, k1, ty):
        """try_seek from any state (b0, k0) to any number of the seek type that is k1 modulo 64"""
        def prog(m):
            a = self.args(m)
            b0 = self.pos(m, k0, 'b0')
            c = self.at(m, a, b0, k0, 'c')
            wd = {'32': 32, '64': 64, '128': 128}[ty]
            B = m.inp('target', wd - 6, [0, 1, (1 << min(wd - 6, self.w)) - 1, (1 << min(wd - 6, self.w)) - 2,
                                         (1 << (wd - 6)) - 1, (1 << 32) & ((1 << (wd - 6)) - 1)])
            x = T.concat([B, T.const(k1, 6)])
            if ty == '128':
                r = m.call(self.p + '_seek128', c, m.buf('sk', 16, [x.byte(i) for i in range(16)], align=16, ro=True))
            else:
                r = m.call(self.p + '_seek' + ty, c, x)
            if wd - 6 > self.w:
                ok = T.ult(B, T.const(1 << self.w, wd - 6))
                b = B.bits(self.w - 1, 0)
            else:
                ok = T.const(1, 1)
                b = B.zext(self.w)
            if k1:
                ok = ok & ~T.eq(b, T.const(-1, self.w))
            m.ensure('accepted exactly when the position exists', (r, ok.zext(8)))
            if m.branch(ok):
                self.canonical(m, 'seek forgets everything before it', c, a, b, k1)
                n = 70
                if m.branch(self.fits(b, k1, n)):
                    o = m.buf('o', n)
                    m.ensure('accepted', (m.call(self.p + '_wks', c, o, n), T.const(1, 8)))
                    m.ensure_bytes('keystream from the position sought', o, 0, self.stream(a, b, k1, n))
            else:
                self.canonical(m, 'state untouched on error', c, a, b0, k0)
        return prog

    def k_tell(self, k):
        """try_current_pos: exact whenever it answers; always answers when the type holds every position"""
        def prog(m):
            a = self.args(m)
            b = self.pos(m, k)
            c = self.at(m, a, b, k, 'c')
            p = self.bytepos(b, k).zext(128)
            for ty, wd in (('32', 32), ('64', 64), ('128', 128)):
                o = m.buf('p' + ty, wd // 8, align=wd // 8)
                r = m.call(self.p + '_pos' + ty, c, o)
                if wd >= self.W:
                    m.ensure('position as u%s available' % ty, (r, T.const(1, 8)))
                if m.branch(T.eq(r, T.const(1, 8))):
                    m.ensure('position as u%s' % ty, (m.word(o, 0, wd // 8).zext(128), p))
                else:
                    # refused only when the position, rounded up to the end of its block, does not fit
                    up = (self.used(b, k).zext(128)) * T.const(64, 128)
                    m.ensure_true('refused only when it does not fit', ~T.ult(up, T.const(1 << wd, 128)))
        return prog

    def k_seq(self, k, cuts):
        """consecutive requests of the given lengths and kinds = one request (chunking), for a state with enough left"""
        def prog(m):
            a = self.args(m)
            b = self.pos(m, k)
            n = sum(x for x, _ in cuts)
            m.assume(self.fits(b, k, n))
            c = self.at(m, a, b, k, 'c')
            d = m.inp_bytes('data', n)
            s = self.stream(a, b, k, n)
            off = 0
            for j, (x, mode) in enumerate(cuts):
                seg = d[off:off + x]
                ks = s[off:off + x]
                if mode == 'b':
                    o = m.buf('o%d' % j, x)
                    r = m.call(self.p + '_b2b', c, m.buf('i%d' % j, x, seg, ro=True), o, x)
                elif mode == 'a':
                    o = m.buf('o%d' % j, x, seg)
                    r = m.call(self.p + '_apply', c, o, x)
                else:
                    o = m.buf('o%d' % j, x)
                    r = m.call(self.p + '_wks', c, o, x)
                m.ensure('piece %d accepted' % j, (r, T.const(1, 8)))
                m.ensure_bytes('piece %d' % j, o, 0, ks if mode == 'w' else [p ^ q for p, q in zip(seg, ks)])
                off += x
            self.canonical(m, 'state after all pieces = state after one request', c, a, b + (k + n) // 64, (k + n) % 64)
        return prog

    def k_hist(self, k, end=False):
        """a history of requests and seeks from any state (b, k): each call meets the state the one before
        really left, with no canonical state in between"""
        def prog(m):
            a = self.args(m)
            b = self.pos(m, k)
            c = self.at(m, a, b, k, 'c')
            t = self.pos(m, 1, 't')
            if not end:
                m.assume(self.fits(b, k, 2000))
                m.assume(self.fits(t, 1, 2000))
            for j, x in enumerate((3, 64, 0, 'tell', 61, 1, 'seek', 66, 320, 'tell', 127, 'seek', 1, 63)):
                if x == 'seek':
                    self.seek(m, c, self.bytepos(t, 37))
                elif x == 'tell':
                    m.call(self.p + '_pos64', c, m.buf('p%d' % j, 8, align=8))
                    m.call(self.p + '_check', c, m.inp('n%d' % j, 64))
                elif j % 2:
                    m.call(self.p + '_apply', c, m.buf('o%d' % j, x, m.inp_bytes('d%d' % j, x)), x)
                else:
                    m.call(self.p + '_wks', c, m.buf('o%d' % j, x), x)
        return prog

    def k_twice(self, k, n):
        """the same keystream twice restores the data"""
        def prog(m):
            a = self.args(m)
            b = self.pos(m, k)
            m.assume(self.fits(b, k, n))
            c = self.at(m, a, b, k, 'c')
            e = self.at(m, a, b, k, 'e')
            d = m.inp_bytes('data', n)
            o = m.buf('o', n, d)
            m.ensure('accepted', (m.call(self.p + '_apply', c, o, n), T.const(1, 8)))
            m.ensure('accepted', (m.call(self.p + '_apply', e, o, n), T.const(1, 8)))
            m.ensure_bytes('data restored', o, 0, d)
        return prog


def all_wraps():
    w = {}
    for r in (8, 12, 20):
        w['wc%d' % r] = Wrap('wc%d' % r, chacha(r, 'i'))
        w['wx%d' % r] = Wrap('wx%d' % r, xchacha(r))
        w['ws%d' % r] = Wrap('ws%d' % r, salsa(r))
        w['wxs%d' % r] = Wrap('wxs%d' % r, xsalsa(r))
    w['wl20'] = Wrap('wl20', chacha(20, 'l'))
    return w
