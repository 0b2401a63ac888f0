"""Contracts of the ChaCha random number generators.

State of an RNG: seed, stream, base block B and buffer index i in 1..=64: the
buffer holds the words of blocks B..B+3, i of them consumed (i = 64: exhausted).
The next word is word 16*B+i of the 64-bit-counter ChaCha keystream of
(seed, stream).  All 64 indices are enumerated (the range is exhaustive, not a
sample); seed, stream and B are arbitrary."""
from engine import terms as T
from . import chacha_spec as CH

M68 = (1 << 68) - 1


class Rng:
    def __init__(self, r):
        self.r, self.p = r, 'rg%d' % r

    def inputs(self, m, sfx=''):
        sp = [0, 1, (1 << 32) - 1, (1 << 64) - 1, (1 << 64) - 2, (1 << 64) - 3, (1 << 64) - 4, (1 << 64) - 5, (1 << 64) - 8, (1 << 32) - 4, (1 << 60) - 1, 1 << 60]
        return dict(seed=m.inp_bytes('seed' + sfx, 32, 4), stream=m.inp('stream' + sfx, 64, [0, 1, (1 << 64) - 1, 1 << 32]),
                    B=m.inp('B' + sfx, 64, sp))

    def obj(self, m, name):
        return m.buf(name, m.size(self.p + '_size'), align=m.size(self.p + '_align'))

    def fresh(self, m, s, name='c'):
        c = self.obj(m, name)
        m.call(self.p + '_new', c, m.buf('seed', 32, s['seed'], ro=True))
        return c

    def setwp(self, m, c, x):
        """x: 128-bit term"""
        m.call(self.p + '_setwp', c, m.buf('wp', 16, [x.byte(i) for i in range(16)], align=16, ro=True))

    def getwp(self, m, c):
        o = m.buf('gwp', 16, align=16)
        m.call(self.p + '_getwp', c, o)
        return m.word(o, 0, 16)

    def at(self, m, s, B, i, name='canon'):
        """the RNG whose buffer holds blocks B..B+3 with i words consumed"""
        c = self.fresh(m, s, name)
        m.call(self.p + '_setst', c, s['stream'])
        if i == 64:
            m.call(self.p + '_setbp', c, B + 4)
            return c
        self.setwp(m, c, T.concat([T.const(0, 60), B, T.const(1, 4)]))
        if i > 1:
            m.call(self.p + '_fill', c, m.buf('skip', 4 * (i - 1)), 4 * (i - 1))
        return c

    def word(self, s, B, j):
        """word j (any number) after the start of block B"""
        k = s.setdefault('cache', {})
        b = B + j // 16
        key = (b.id, )
        if key not in k:
            st = CH.sigma() + CH.words(s['seed']) + [b.bits(31, 0), b.bits(63, 32), s['stream'].bits(31, 0), s['stream'].bits(63, 32)]
            k[key] = CH.block_words(st, self.r)
        return k[key][j % 16]

    def wpos(self, B, i):
        b, j = (B + 4, 0) if i == 64 else (B + i // 16, i % 16)
        return T.concat([T.const(0, 60), b, T.const(j, 4)])

    @staticmethod
    def advance(B, i, c):
        """state after consuming c words"""
        if c == 0:
            return B, i
        t = i + c - 1
        return B + 4 * (t // 64), t % 64 + 1

    def mask(self, m, s, i):
        """in the exhausted state the buffered words are dead, except the index itself"""
        if i != 64:
            return None
        z = T.const(7, 64)
        x = m.snapshot(self.at(m, s, z, 2, 'm1'))
        y = m.snapshot(self.at(m, s, z, 3, 'm2'))
        o = [k for k, (p, q) in enumerate(zip(x, y)) if p is not None and q is not None and p is not q
             and p.op == 'const' and q.op == 'const' and p.aux == 2 and q.aux == 3]
        if len(o) != 1:
            return None
        o = o[0]
        return [not (o + 4 <= k < o + 256) for k in range(len(x))]

    def observe(self, m, c):
        w = self.getwp(m, c)
        o = m.buf('obs', 4 * 70)
        m.call(self.p + '_fill', c, o, 4 * 70)
        return [w, m.call(self.p + '_getst', c)] + m.read(o, 4 * 70)

    def canonical(self, m, name, c, s, B, i):
        m.state_eq(name, c, self.at(m, s, B, i), self.observe, self.mask(m, s, i))

    # ---- contracts
    def k_new(self):
        def prog(m):
            s = self.inputs(m)
            s['stream'] = T.const(0, 64)
            c = self.fresh(m, s)
            m.ensure('word position 0', (self.getwp(m, c), T.const(0, 128)))
            m.ensure('block position 0', (m.call(self.p + '_getbp', c), T.const(0, 64)))
            m.ensure('stream 0', (m.call(self.p + '_getst', c), T.const(0, 64)))
            o = m.buf('o', 32)
            m.call(self.p + '_seed', c, o)
            m.ensure_bytes('seed', o, 0, s['seed'])
            self.canonical(m, 'fresh RNG is canonical at 0', c, s, T.const(-4, 64), 64)
            m.ensure('first word', (m.call(self.p + '_u32', c), self.word(s, T.const(0, 64), 0)))
        return prog

    def k_u32(self, i):
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            m.ensure('next word', (m.call(self.p + '_u32', c), self.word(s, s['B'], i)))
            self.canonical(m, 'one word consumed', c, s, *self.advance(s['B'], i, 1))
        return prog

    def k_u64(self, i):
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            m.ensure('next two words, low word first', (m.call(self.p + '_u64', c), T.concat([self.word(s, s['B'], i + 1), self.word(s, s['B'], i)])))
            self.canonical(m, 'two words consumed', c, s, *self.advance(s['B'], i, 2))
        return prog

    def k_fill(self, i, n):
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            o = m.buf('o', n)
            m.call(self.p + '_fill', c, o, n)
            k = (n + 3) // 4
            e = CH.bytes_of([self.word(s, s['B'], i + j) for j in range(k)])[:n]
            m.ensure_bytes('bytes of the next words', o, 0, e)
            self.canonical(m, '%d words consumed' % k, c, s, *self.advance(s['B'], i, k))
        return prog

    def k_mix(self, i, ops):
        """an interleaving of requests consumes the words in order: op 1 = u32, 2 = u64, ('f', n) = n bytes"""
        def prog(m):
            s = self.inputs(m)
            B = s['B']
            c = self.at(m, s, B, i, 'c')
            j = i
            for k, op in enumerate(ops):
                if op == 1:
                    m.ensure('request %d' % k, (m.call(self.p + '_u32', c), self.word(s, B, j)))
                    j += 1
                elif op == 2:
                    m.ensure('request %d' % k, (m.call(self.p + '_u64', c), T.concat([self.word(s, B, j + 1), self.word(s, B, j)])))
                    j += 2
                else:
                    n = op[1]
                    o = m.buf('o%d' % k, n)
                    m.call(self.p + '_fill', c, o, n)
                    q = (n + 3) // 4
                    m.ensure_bytes('request %d' % k, o, 0, CH.bytes_of([self.word(s, B, j + t) for t in range(q)])[:n])
                    j += q
            self.canonical(m, 'all words consumed', c, s, *self.advance(B, i, j - i))
        return prog

    def k_hist(self, i):
        """a history of every operation in turn, from any state with index i: each call meets the state the
        one before really left, with no canonical state in between"""
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            H = m.inp('H', 124, [0, 1, (1 << 64) - 1, (1 << 64) - 2, 1 << 64, (1 << 124) - 1])
            b = m.inp('to', 64, [0, 1, (1 << 64) - 1, (1 << 64) - 4, (1 << 32) - 1])
            cnt = [0]

            def fill(n):
                cnt[0] += 1
                m.call(self.p + '_fill', c, m.buf('o%d' % cnt[0], n), n)

            def take():
                m.call(self.p + '_u64', c)
                m.call(self.p + '_u32', c)
                self.getwp(m, c)
                fill(5)
                m.call(self.p + '_u64', c)
            take()
            fill(4 * 64)
            take()
            self.setwp(m, c, T.concat([H, T.const(15, 4)]))
            take()
            fill(4 * 49)
            m.call(self.p + '_u64', c)
            m.call(self.p + '_setst', c, b)
            take()
            m.call(self.p + '_setbp', c, b)
            fill(1)
            take()
            o = m.buf('ser', 49)
            m.call(self.p + '_ser', c, o)
            m.setro(o)
            m.call(self.p + '_de', c, o)
            m.call(self.p + '_getbp', c)
            take()
            fill(0)
            fill(4 * 64 + 3)
            d = self.obj(m, 'd')
            m.call(self.p + '_de', d, o)
            m.ensure('reached the end', (m.call(self.p + '_eq', d, d), T.const(1, 8)))
        return prog

    def k_tell(self, i):
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            m.ensure('word position', (self.getwp(m, c), self.wpos(s['B'], i)))
            m.ensure('block position', (m.call(self.p + '_getbp', c), s['B'] + (4 if i == 64 else i // 16)))
            m.ensure('stream', (m.call(self.p + '_getst', c), s['stream']))
            o = m.buf('o', 32)
            m.call(self.p + '_seed', c, o)
            m.ensure_bytes('seed', o, 0, s['seed'])
            self.canonical(m, 'unchanged by the accessors', c, s, s['B'], i)
        return prog

    def k_setwp(self, i, j):
        """set_word_pos(x) for every 128-bit x that is j modulo 16, from any state with index i"""
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            H = m.inp('H', 124, [0, 1, (1 << 64) - 1, (1 << 64) - 2, 1 << 64, (1 << 124) - 1, (1 << 32) - 1])
            x = T.concat([H, T.const(j, 4)])
            self.setwp(m, c, x)
            b = H.bits(63, 0)
            m.ensure('get_word_pos after set_word_pos', (self.getwp(m, c), T.concat([T.const(0, 60), b, T.const(j, 4)])))
            m.ensure('get_block_pos after set_word_pos', (m.call(self.p + '_getbp', c), b))
            m.ensure('stream unchanged', (m.call(self.p + '_getst', c), s['stream']))
            self.canonical(m, 'forgets everything before', c, s, *((b, j) if j else (b - 4, 64)))
            m.ensure('next word', (m.call(self.p + '_u32', c), self.word(s, b, j)))
            m.ensure('the word after that', (m.call(self.p + '_u32', c), self.word(s, b, j + 1)))
        return prog

    def k_setbp(self, i):
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            b = m.inp('to', 64, [0, 1, (1 << 64) - 1, (1 << 64) - 4, (1 << 32) - 1])
            m.call(self.p + '_setbp', c, b)
            m.ensure('get_block_pos after set_block_pos', (m.call(self.p + '_getbp', c), b))
            m.ensure('word position', (self.getwp(m, c), T.concat([T.const(0, 60), b, T.const(0, 4)])))
            self.canonical(m, 'forgets everything before', c, s, b - 4, 64)
            m.ensure('next word', (m.call(self.p + '_u32', c), self.word(s, b, 0)))
        return prog

    def k_setst(self, i):
        def prog(m):
            s = self.inputs(m)
            c = self.at(m, s, s['B'], i, 'c')
            st = m.inp('to', 64, [0, 1, (1 << 64) - 1, 1 << 32, (1 << 32) - 1])
            m.call(self.p + '_setst', c, st)
            m.ensure('get_stream after set_stream', (m.call(self.p + '_getst', c), st))
            m.ensure('word position reset', (self.getwp(m, c), T.const(0, 128)))
            s2 = dict(seed=s['seed'], stream=st)
            self.canonical(m, 'forgets everything before', c, s2, T.const(-4, 64), 64)
            m.ensure('first word of the stream', (m.call(self.p + '_u32', c), self.word(s2, T.const(0, 64), 0)))
        return prog

    def ser_bytes(self, s, B, i):
        w = self.wpos(B, i)
        return list(s['seed']) + [s['stream'].byte(k) for k in range(8)] + [w.byte(k) for k in range(9)]

    def k_ser(self, i):
        """serialize_state, deserialize_state, == and the future output, from any state with index i"""
        def prog(m):
            s = self.inputs(m)
            B = s['B']
            c = self.at(m, s, B, i, 'c')
            o = m.buf('ser', 49)
            m.call(self.p + '_ser', c, o)
            m.ensure_bytes('serialised seed, stream and word position', o, 0, self.ser_bytes(s, B, i))
            self.canonical(m, 'serialising changes nothing', c, s, B, i)
            d = self.obj(m, 'd')
            m.setro(o)
            m.call(self.p + '_de', d, o)
            m.ensure('compares equal', (m.call(self.p + '_eq', c, d), T.const(1, 8)))
            m.ensure('compares equal (other way round)', (m.call(self.p + '_eq', d, c), T.const(1, 8)))
            b, j = (B + 4, 0) if i == 64 else (B + i // 16, i % 16)
            self.canonical(m, 'restored RNG is at the same word', d, s, *((b, j) if j else (b - 4, 64)))
            x = m.buf('x', 292)
            y = m.buf('y', 292)
            m.call(self.p + '_fill', c, x, 292)
            m.call(self.p + '_fill', d, y, 292)
            m.ensure('identical future output', list(zip(m.read(x, 292), m.read(y, 292))))
            m.ensure('still equal afterwards', (m.call(self.p + '_eq', c, d), T.const(1, 8)))
        return prog

    def k_de(self, j):
        """deserialize_state of arbitrary bytes whose word position is j modulo 16"""
        def prog(m):
            s = dict(seed=m.inp_bytes('seed', 32, 4), stream=m.inp('stream', 64, [0, 1, (1 << 64) - 1]))
            B = m.inp('B', 64, [0, 1, (1 << 64) - 1, (1 << 64) - 2, (1 << 32) - 1])
            w = T.concat([m.inp('top', 4), B, T.const(j, 4)])
            b = list(s['seed']) + [s['stream'].byte(k) for k in range(8)] + [w.byte(k) for k in range(9)]
            d = self.obj(m, 'd')
            m.call(self.p + '_de', d, m.buf('ser', 49, b, ro=True))
            m.ensure('word position', (self.getwp(m, d), w.bits(67, 0).zext(128)))
            m.ensure('stream', (m.call(self.p + '_getst', d), s['stream']))
            o = m.buf('o', 32)
            m.call(self.p + '_seed', d, o)
            m.ensure_bytes('seed', o, 0, s['seed'])
            self.canonical(m, 'RNG at the serialised position', d, s, *((B, j) if j else (B - 4, 64)))
            m.ensure('next word', (m.call(self.p + '_u32', d), self.word(s, B, j)))
        return prog

    def k_eq(self, i, j):
        """== is exactly: same seed, same stream, same word position"""
        def prog(m):
            s = self.inputs(m)
            t = self.inputs(m, '2')
            c = self.at(m, s, s['B'], i, 'c')
            d = self.at(m, t, t['B'], j, 'd')
            r = m.call(self.p + '_eq', c, d)
            same = T.eq(T.concat(s['seed']), T.concat(t['seed'])) & T.eq(s['stream'], t['stream']) \
                & T.eq(self.wpos(s['B'], i), self.wpos(t['B'], j))
            m.ensure('equal exactly when seed, stream and position agree', (r, same.zext(8)))
        return prog

    def k_eqdiff(self, i, what):
        """RNGs that differ in one component only, or in none"""
        def prog(m):
            s = self.inputs(m)
            t = dict(s)
            t.pop('cache', None)
            t[what] = m.inp_bytes('seed2', 32, 4) if what == 'seed' else m.inp(what + '2', 64)
            c = self.at(m, s, s['B'], i, 'c')
            d = self.at(m, t, t['B'], i, 'd')
            r = m.call(self.p + '_eq', c, d)
            if what == 'seed':
                same = T.eq(T.concat(s['seed']), T.concat(t['seed']))
            else:
                same = T.eq(s[what], t[what])
            m.ensure('equal exactly when they agree', (r, same.zext(8)))
        return prog


RNGS = {r: Rng(r) for r in (8, 12, 20)}
