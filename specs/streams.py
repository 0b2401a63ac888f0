"""Contracts of the non-seekable ciphers: Rabbit, HC-256 (block cores and their
byte-level wrappers) and RC4.

Abstract state: what the standard calls the internal state.  Contracts:
  new    the object is the image of the abstract initial state, for every key/IV
  step   from the image of an ARBITRARY abstract state, one call yields exactly
         the block(s) the standard prescribes and leaves the image of the
         abstract successor -- so every history is covered by induction
The image places the abstract words in the private object (specs/layout.py)."""
from engine import terms as T
from engine import run as R
from . import layout, rabbit_spec as RB, hc_spec as HC, rc4_spec as R4


def le(ws):
    out = []
    for w in ws:
        out += [w.byte(i) for i in range(w.w // 8)]
    return out


class Stream:
    def __init__(self, fl, p, bs, inputs):
        self.fl, self.p, self.bs, self.inputs = fl, p, bs, inputs

    # ---- to be provided: comps, init(values), nxt(state)->(state, bytes), fresh(m), place(m, c, off, state), comp_values(state)
    nsamples = 6
    steps = 4

    def args(self, m):
        a = []
        for nm, n, g in self.inputs:
            b = m.inp_bytes(nm, n, g)
            a.append((b, m.buf(nm, n, b, ro=True)))
        return a

    def obj(self, m, name):
        return m.buf(name, m.size(self.p + '_size'), align=m.size(self.p + '_align'))

    def new(self, m, a, name='c'):
        c = self.obj(m, name)
        m.call(self.p + '_new', c, *[p for _, p in a])
        return c

    def gen(self, m, c, o):
        """one block by the shortest path (used to search the layout)"""
        m.call(self.p + '_wblock', c, o)

    def layout(self):
        if (self.fl, self.p) in layout._cache:
            return layout._cache[(self.fl, self.p)]

        def sampler(m):
            a = self.args(m)
            c = self.new(m, a)
            s = self.init([b for b, _ in a])
            for _ in range(self.steps):
                yield bytes(x.val for x in m.read(c, c.size)), self.comp_values(s)
                o = m.buf('o', self.bs)
                self.gen(m, c, o)
                s, _ks = self.nxt(s)
        return layout.find(self.fl, self.p, R.Task('layout', self.fl, None), sampler, self.comps, self.nsamples)

    # the component that counts steps, its width in bits, and its cycle in steps
    counter, counter_bits = None, 0

    def rep(self):
        """How the compiled code represents the step counter: None when it is the counter modulo its
        cycle, else (bytes, bound): the object keeps a running value v congruent to it, v <= bound
        (bound None: any value).  Found by running the compiled code, used as a candidate
        invariant that the contracts then prove inductive."""
        if self.counter is None or self.layout() is None:
            return None
        k = (self.fl, self.p, 'rep')
        if k not in layout._cache:
            r = layout.in_child(self.fl, R.Task('rep', self.fl, None), self.find_rep) or None
            # the compiled code panicked or faulted on the way: assume nothing about the stored value
            layout._cache[k] = (self.comps[self.counter][0], None) if r == layout.CRASH else r
        return layout._cache[k]

    def find_rep(self, m):
        L = self.layout()
        off = L[self.counter]
        cyc = 1 << self.counter_bits
        lo = self.comps[self.counter][0]
        room = L['size'] - off
        for c, (n, _) in self.comps.items():
            if L[c] > off:
                room = min(room, L[c] - off)
        W = max(w for w in (1, 2, 4, 8) if w <= room)
        if W < lo:
            return None
        c = self.new(m, self.args(m))
        rd = lambda n=W: int.from_bytes(bytes(x.val for x in m.read(c, n, off)), 'little')
        v0 = rd()
        o = m.buf('o', (cyc - 1) * self.bs)
        o1 = m.buf('o1', self.bs)
        seen = []
        for k in range((1 << 18) // cyc):
            self.many(m, c, o, cyc - 1)
            seen.append(rd())
            self.gen(m, c, o1)
            seen.append(rd())
        if all(v == (cyc - 1 if i % 2 == 0 else 0) for i, v in enumerate(seen)):
            return None
        h = len(seen) // 2
        M = max(seen[h:])
        if M == max(seen[:h]) and v0 <= M:
            return (max(lo, (M.bit_length() + 7) // 8), M)
        if W > 4:
            # does the counter carry into the fifth byte?
            m.write(c, off, [T.const(255, 8)] * 4)
            x = rd() >> 32
            self.gen(m, c, o1)
            if rd() >> 32 == x:
                W = 4
        return (W, None)

    def many(self, m, c, o, n):
        m.call(self.p + '_wblocks', c, o, n)

    def widen(self, m, L, c, s, start):
        """places the high part of a running counter: arbitrary within the candidate invariant where a
        contract starts, zero in the object it is compared with"""
        r = self.rep()
        if r is None or not start:
            return
        W, bound = r
        nb = self.counter_bits
        v = T.concat([m.inp('running', 8 * W - nb, [0, 1, (1 << (8 * W - nb)) - 1, (1 << (8 * W - nb - 1))]), self.counter_of(s)])
        if bound is not None:
            m.assume(T.ule(v, T.const(bound, 8 * W)))
        m.write(c, L[self.counter], le([v]))

    def match(self, m, name, A, B, mask=None):
        """A represents the same abstract state as the image B"""
        r = self.rep()
        if r is not None:
            W, bound = r
            L = self.layout()
            off, nb = L[self.counter], self.counter_bits
            m.note('the step counter is kept as a running value%s: proved for every value congruent to the position' %
                   ('' if bound is None else ' up to %d' % bound))
            mask = [(mask is None or mask[i]) and not off <= i < off + W for i in range(L['size'])]
            v = m.word(A, off, W)
            m.ensure(name + ': step counter', (v.bits(nb - 1, 0), m.word(B, off, W).bits(nb - 1, 0)))
            if bound is not None:
                m.ensure_true(name + ': step counter within its range', T.ule(v, T.const(bound, 8 * W)))
        m.state_eq(name, A, B, self.observe, mask)

    def at(self, m, s, name='canon'):
        """the image of abstract state s"""
        L = self.layout()
        z = [(b, m.buf(nm + 'z', n, b, ro=True)) for nm, n, g in self.inputs for b in [[T.const(0, 8)] * n]]
        c = self.new(m, z, name)
        self.place(m, c, L, s)
        self.widen(m, L, c, s, name != 'canon')
        return c

    def observe(self, m, c):
        n = 6
        o = m.buf('obs', n * self.bs)
        m.call(self.p + '_wblocks', c, o, n)
        return m.read(o, n * self.bs)

    def canonical(self, m, name, c, s):
        self.match(m, name, c, self.at(m, s))

    def need_layout(self, m):
        if self.layout() is None:
            from engine.execu import Unsupported
            raise Unsupported('the abstract state was not found in the private object')

    # ---- contracts
    def k_new(self, n=2):
        def prog(m):
            a = self.args(m)
            s = self.init([b for b, _ in a])
            c = self.new(m, a)
            if self.layout() is not None:
                self.canonical(m, 'the object holds the initial state of the standard', c, s)
            o = m.buf('o', n * self.bs)
            m.call(self.p + '_wblocks', c, o, n)
            e = []
            for _ in range(n):
                s, b = self.nxt(s)
                e += b
            m.ensure_bytes('first keystream blocks', o, 0, e)
        return prog

    def k_newsl(self):
        def prog(m):
            a = self.args(m)
            c = self.new(m, a)
            d = self.obj(m, 'd')
            av = []
            for (nm, n, g), (_, p) in zip(self.inputs, a):
                av += [p, n]
            m.ensure('exact lengths accepted', (m.call(self.p + '_newsl', d, *av), T.const(1, 8)))
            m.state_eq('same state as new', d, c, self.observe)
            for k, (nm, n, g) in enumerate(self.inputs):
                for bad in sorted({0, 1, n - 1, n + 1, 2 * n, n // 2, 8, 12, 16, 24, 32, 64} - {n}):
                    x = m.buf('x%d.%d' % (k, bad), bad, m.inp_bytes('x', bad))
                    av2 = []
                    for j, ((nm2, n2, g2), (_, p2)) in enumerate(zip(self.inputs, a)):
                        av2 += [x, bad] if j == k else [p2, n2]
                    e = self.obj(m, 'e')
                    m.ensure('%s of %d bytes rejected' % (nm, bad), (m.call(self.p + '_newsl', e, *av2), T.const(0, 8)))
        return prog

    def start(self, m):
        """an arbitrary state (with the layout) or the initial state for an arbitrary key (without)"""
        if self.layout() is not None:
            s = self.fresh(m)
            return s, self.at(m, s, 'c')
        m.note('layout not found: only states reachable in a few steps from a fresh object')
        a = self.args(m)
        return self.init([b for b, _ in a]), self.new(m, a)

    def run(self, s, n):
        e = []
        for _ in range(n):
            s, b = self.nxt(s)
            e += b
        return s, e

    def k_block(self):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            o = m.buf('o', self.bs)
            m.call(self.p + '_wblock', c, o)
            s, e = self.run(s, 1)
            m.ensure_bytes('keystream block', o, 0, e)
            self.canonical(m, 'successor state', c, s)
        return prog

    def k_blocks(self, n):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            o = m.buf('o', n * self.bs)
            m.call(self.p + '_wblocks', c, o, n)
            s, e = self.run(s, n)
            m.ensure_bytes('keystream blocks', o, 0, e)
            self.canonical(m, 'successor state', c, s)
        return prog

    def k_apply(self, n, io):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            d = m.inp_bytes('data', n * self.bs, 4)
            if io:
                i = m.buf('in', n * self.bs, d, ro=True)
                o = m.buf('out', n * self.bs)
                m.call(self.p + '_aio', c, i, o, n)
            else:
                o = m.buf('out', n * self.bs, d)
                m.call(self.p + '_ablocks', c, o, n)
            s, e = self.run(s, n)
            m.ensure_bytes('data xor keystream', o, 0, [x ^ y for x, y in zip(d, e)])
            self.canonical(m, 'successor state', c, s)
        return prog

    def k_seq(self, ops):
        """schedules of backend calls inside one closure"""
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            n = sum(1 if o in (0, 255) else o for o in ops)
            o = m.buf('o', n * self.bs)
            m.call(self.p + '_seq', c, m.buf('ops', len(ops), [T.const(x, 8) for x in ops], ro=True), len(ops), o, n)
            s, e = self.run(s, n)
            m.ensure_bytes('keystream blocks', o, 0, e)
            self.canonical(m, 'successor state', c, s)
        return prog

    def k_rem(self):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            o = m.buf('n', 8, align=8)
            m.ensure('no end of keystream is reported', (m.call(self.p + '_rem', c, o), T.const(0, 8)))
            self.canonical(m, 'unchanged', c, s)
        return prog

    def k_partial(self, n):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            d = m.inp_bytes('data', n, 4)
            o = m.buf('o', n, d)
            m.ensure('accepted', (m.call(self.p + '_partial', c, o, n), T.const(1, 8)))
            _, e = self.run(s, (n + self.bs - 1) // self.bs)
            m.ensure_bytes('data xor keystream', o, 0, [x ^ y for x, y in zip(d, e)])
        return prog

    def k_long(self, n):
        """from a fresh object: n blocks, and with one call per block across the last ones (bounded
        differential run of the compiled code, only where the private representation is unfamiliar)"""
        def prog(m):
            if self.layout() is not None and self.rep() is None:
                return
            a = self.args(m)
            s = self.init([b for b, _ in a])
            c = self.new(m, a)
            o = m.buf('o', n * self.bs)
            self.many(m, c, o, n)
            s, e = self.run(s, n)
            m.ensure_bytes('keystream', o, 0, e)
        return prog


class Rabbit(Stream):
    comps = dict([('x%d' % i, (4, 32)) for i in range(8)] + [('c%d' % i, (4, 32)) for i in range(8)] + [('b', (1, 1))])

    def init(self, a):
        st = RB.setup_key(a[0])
        return RB.setup_iv(st, a[1]) if len(a) > 1 else st

    def nxt(self, s):
        s = RB.next_state(*s)
        return s, RB.extract(s[0])

    def fresh(self, m, sfx=''):
        sp = [0, 1, 0xffffffff, 0x80000000]
        return ([m.inp('x%d%s' % (i, sfx), 32, sp) for i in range(8)], [m.inp('c%d%s' % (i, sfx), 32, sp) for i in range(8)], m.inp('carry' + sfx, 1))

    def comp_values(self, s):
        d = {'x%d' % i: s[0][i].val for i in range(8)}
        d.update({'c%d' % i: s[1][i].val for i in range(8)})
        d['b'] = s[2].val
        return d

    def place(self, m, c, L, s):
        for i in range(8):
            m.write(c, L['x%d' % i], le([s[0][i]]))
            m.write(c, L['c%d' % i], le([s[1][i]]))
        m.write(c, L['b'], [s[2].zext(8)])


K16 = ('key', 16, 2)
RABBITS = {'rk': Rabbit('rabbit', 'rk', 16, [K16]), 'ri': Rabbit('rabbit', 'ri', 16, [K16, ('iv', 8, 2)])}


class Hc256(Stream):
    """state: P and Q tables, t = number of steps modulo 2048 (11 bits), phase = t >= 1024 as a Python number"""
    comps = {'P': (4096, 32768), 'Q': (4096, 32768), 't': (2, 11)}
    nsamples, steps = 2, 3
    counter, counter_bits = 't', 11

    def counter_of(self, s):
        return s[2]

    def init(self, a):
        P, Q = HC.init(a[0], a[1])
        return P, Q, T.const(0, 11), 0

    def nxt(self, s):
        P, Q, t, ph = s
        P, Q, w = HC.step(P, Q, t.bits(9, 0), ph)
        t = t + 1
        if t.op == 'const':
            ph = t.aux >> 10
        return (P, Q, t, ph), le([w])

    # which part of the 2048-step cycle `fresh` draws from: (phase, symbolic index below this bound) or (phase, exact index)
    cycle = (0, 1022, None)

    def case(self, ph, room=1, exact=None):
        import copy
        s = copy.copy(self)
        s.cycle = (ph, room, exact)
        return s

    def fresh(self, m, sfx=''):
        ph, room, exact = self.cycle
        P, Q = m.inp_arr('P' + sfx, 1024, 32), m.inp_arr('Q' + sfx, 1024, 32)
        if exact is not None:
            return P, Q, T.const(ph * 1024 + exact, 11), ph
        j = m.inp('j' + sfx, 10, [0, 1, 2, 3, 9, 10, 11, 12, 13, 255, 256, 511, 512, 1023 - room])
        m.assume(T.ule(j, T.const(1023 - room, 10)))
        return P, Q, T.concat([T.const(ph, 1), j]), ph

    def comp_values(self, s):
        iw = 10
        g = lambda A: int.from_bytes(b''.join(T.aselect(A, T.const(i, iw)).val.to_bytes(4, 'little') for i in range(1024)), 'little')
        return dict(P=g(s[0]), Q=g(s[1]), t=s[2].val)

    def place(self, m, c, L, s):
        m.write_arr(c, L['P'], s[0])
        m.write_arr(c, L['Q'], s[1])
        m.write(c, L['t'], le([s[2].zext(16)]))


K32 = ('key', 32, 4)
HC256 = Hc256('hc256', 'h', 4, [K32, ('iv', 32, 4)])


class Rc4(Stream):
    comps = {'S': (256, 2048), 'i': (1, 8), 'j': (1, 8)}
    nsamples, steps = 4, 5
    counter, counter_bits = 'i', 8

    def counter_of(self, s):
        return s[1]

    def many(self, m, c, o, n):
        m.call('r4_wks', c, o, n)

    def __init__(self, fl='rc4', p='r4'):
        Stream.__init__(self, fl, p, 1, [('key', 32, 1)])

    def init(self, a):
        return R4.ksa(a[0]), T.const(0, 8), T.const(0, 8)

    def nxt(self, s):
        S, i, j, k = R4.prga(*s)
        return (S, i, j), [k]

    def fresh(self, m, sfx=''):
        return m.inp_arr('S' + sfx, 256, 8), m.inp('i' + sfx, 8, [0, 255, 254]), m.inp('j' + sfx, 8)

    def gen(self, m, c, o):
        m.call('r4_wks', c, o, 1)

    def observe(self, m, c):
        o = m.buf('obs', 6)
        m.call('r4_wks', c, o, 6)
        return m.read(o, 6)

    def comp_values(self, s):
        return dict(S=int.from_bytes(bytes(T.aselect(s[0], T.const(i, 8)).val for i in range(256)), 'little'), i=s[1].val, j=s[2].val)

    def place(self, m, c, L, s):
        m.write_arr(c, L['S'], s[0])
        m.write(c, L['i'], [s[1]])
        m.write(c, L['j'], [s[2]])

    def k_ksa(self, n):
        """construction from a key of n bytes"""
        def prog(m):
            k = m.inp_bytes('key', n)
            s = self.init([k])
            c = self.obj(m, 'c')
            m.ensure('accepted', (m.call('r4_newsl', c, m.buf('key', n, k, ro=True), n), T.const(1, 8)))
            if self.layout() is not None:
                self.canonical(m, 'the object holds the key-scheduled permutation and zero indices', c, s)
            o = m.buf('o', 3)
            m.ensure('accepted', (m.call('r4_wks', c, o, 3), T.const(1, 8)))
            _, e = self.run(s, 3)
            m.ensure_bytes('first output bytes', o, 0, e)
        return prog

    def k_new32(self):
        def prog(m):
            a = self.args(m)
            c = self.new(m, a)
            if self.layout() is not None:
                self.canonical(m, 'new on 32 bytes is the key schedule', c, self.init([a[0][0]]))
            o = m.buf('o', 3)
            m.ensure('accepted', (m.call('r4_wks', c, o, 3), T.const(1, 8)))
            _, e = self.run(self.init([a[0][0]]), 3)
            m.ensure_bytes('first output bytes', o, 0, e)
        return prog

    def k_badlen(self):
        """every length outside 1..=256 is refused"""
        def prog(m):
            n = m.inp('n', 64, [0, 257, 258, 511, 512, (1 << 63) - 1, 1 << 32])
            m.assume(T.eq(n, T.const(0, 64)) | T.ult(T.const(256, 64), n))
            m.assume(T.ult(n, T.const(1 << 63, 64)))    # no slice is longer than isize::MAX
            c = self.obj(m, 'c')
            k = m.buf('key', 512, m.inp_bytes('key', 512, 8), ro=True)
            m.ensure('length error', (m.call('r4_newsl', c, k, n), T.const(0, 8)))
        return prog

    def request(self, m, c, mode, d, tag=''):
        n = len(d)
        if mode == 'a':
            o = m.buf('o' + tag, n, d)
            r = m.call('r4_apply', c, o, n)
        elif mode == 'b':
            o = m.buf('o' + tag, n)
            r = m.call('r4_b2b', c, m.buf('i' + tag, n, d, ro=True), o, n)
        else:
            o = m.buf('o' + tag, n)
            r = m.call('r4_wks', c, o, n)
        return o, r

    def k_req(self, n, mode):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            d = m.inp_bytes('data', n)
            q = m.inp('q', 64, [0, 1, (1 << 64) - 1])
            m.ensure('check_remaining never refuses', (m.call('r4_check', c, q), T.const(1, 8)))
            o, r = self.request(m, c, mode, d)
            m.ensure('accepted', (r, T.const(1, 8)))
            s, e = self.run(s, n)
            m.ensure_bytes('output', o, 0, e if mode == 'w' else [x ^ y for x, y in zip(d, e)])
            self.canonical(m, 'successor state', c, s)
        return prog

    def k_chunks(self, cuts):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c = self.at(m, s, 'c')
            for j, (n, mode) in enumerate(cuts):
                d = m.inp_bytes('data%d' % j, n)
                o, r = self.request(m, c, mode, d, str(j))
                m.ensure('piece %d accepted' % j, (r, T.const(1, 8)))
                s, e = self.run(s, n)
                m.ensure_bytes('piece %d' % j, o, 0, e if mode == 'w' else [x ^ y for x, y in zip(d, e)])
            self.canonical(m, 'state after all pieces', c, s)
        return prog

    def k_twice(self, n):
        def prog(m):
            self.need_layout(m)
            s = self.fresh(m)
            c, e = self.at(m, s, 'c'), self.at(m, s, 'e')
            d = m.inp_bytes('data', n)
            o = m.buf('o', n, d)
            m.ensure('accepted', (m.call('r4_apply', c, o, n), T.const(1, 8)))
            m.ensure('accepted', (m.call('r4_apply', e, o, n), T.const(1, 8)))
            m.ensure_bytes('data restored', o, 0, d)
        return prog


RC4 = Rc4()


class WStream:
    """byte-level wrapper over a non-seekable core.  State (s, k): the buffer holds the block of
    abstract state s with k bytes of it used (k = 0: exhausted, the core is at s)."""

    def __init__(self, p, core):
        import copy
        self.p, self.core, self.bs, self.fl = p, core, core.bs, core.fl
        # the same search finds the core's state inside the wrapper object
        w = copy.copy(core)
        w.p = p
        w.gen = lambda m, c, o: m.call(p + '_wks', c, o, core.bs)
        w.rep = core.rep
        self.w = w

    def case(self, *a, **k):
        return WStream(self.p, self.core.case(*a, **k))

    def at(self, m, s, k, name='canon'):
        c = self.w.at(m, s, name)
        if k:
            m.ensure('accepted', (m.call(self.p + '_wks', c, m.buf('skip', k), k), T.const(1, 8)))
        return c

    def stream(self, s, k, n):
        """-> n keystream bytes from (s, k), and the state after them"""
        e = []
        st = [s]
        while len(e) < k + n:
            s, b = self.core.nxt(s)
            st.append(s)
            e += b
        q = (k + n) // self.bs
        return e[k:k + n], (st[q], (k + n) % self.bs)

    def mask(self, m, k):
        if k:
            return None
        x, y = None, None
        z = [(b, m.buf(nm + 'z', n, b, ro=True)) for nm, n, g in self.core.inputs for b in [[T.const(0, 8)] * n]]
        r = []
        for k in (1, 2):
            c = self.w.new(m, z, 'm%d' % k)
            m.call(self.p + '_wks', c, m.buf('skip', k), k)
            r.append(m.snapshot(c))
        o = [i for i, (p, q) in enumerate(zip(*r)) if p is not q and p is not None and q is not None
             and p.op == 'const' and q.op == 'const' and p.aux == 1 and q.aux == 2]
        if len(o) != 1:
            return None
        o = o[0]
        return [not (o < i < o + self.bs) for i in range(len(r[0]))]

    def observe(self, m, c):
        n = 3 * self.bs
        o = m.buf('obs', n)
        m.call(self.p + '_wks', c, o, n)
        return m.read(o, n)

    def canonical(self, m, name, c, s, k):
        self.wmatch(m, name, c, self.at(m, s, k), self.mask(m, k))

    def wmatch(self, m, name, A, B, mask):
        import copy
        w = copy.copy(self.w)
        w.observe = self.observe
        w.match(m, name, A, B, mask)

    def request(self, m, c, mode, d, tag=''):
        n = len(d)
        if mode == 'a':
            o = m.buf('o' + tag, n, d)
            r = m.call(self.p + '_apply', c, o, n)
        elif mode == 'b':
            o = m.buf('o' + tag, n)
            r = m.call(self.p + '_b2b', c, m.buf('i' + tag, n, d, ro=True), o, n)
        else:
            o = m.buf('o' + tag, n)
            r = m.call(self.p + '_wks', c, o, n)
        return o, r

    def k_new(self):
        def prog(m):
            a = self.core.args(m)
            s = self.core.init([b for b, _ in a])
            c = self.w.new(m, a)
            if self.w.layout() is not None:
                self.canonical(m, 'fresh wrapper holds the initial state and no buffered bytes', c, s, 0)
            n = self.bs + 3
            o = m.buf('o', n)
            m.ensure('accepted', (m.call(self.p + '_wks', c, o, n), T.const(1, 8)))
            m.ensure_bytes('first keystream bytes', o, 0, self.stream(s, 0, n)[0])
        return prog

    def k_req(self, k, n, mode):
        def prog(m):
            self.w.need_layout(m)
            s = self.core.fresh(m)
            c = self.at(m, s, k, 'c')
            q = m.inp('q', 64, [0, 1, (1 << 64) - 1])
            m.ensure('check_remaining never refuses', (m.call(self.p + '_check', c, q), T.const(1, 8)))
            d = m.inp_bytes('data', n)
            o, r = self.request(m, c, mode, d)
            m.ensure('accepted', (r, T.const(1, 8)))
            e, t = self.stream(s, k, n)
            m.ensure_bytes('output', o, 0, e if mode == 'w' else [x ^ y for x, y in zip(d, e)])
            self.canonical(m, 'state advanced by %d bytes' % n, c, *t)
        return prog

    def k_seq(self, k, cuts):
        def prog(m):
            self.w.need_layout(m)
            s = self.core.fresh(m)
            c = self.at(m, s, k, 'c')
            n = sum(x for x, _ in cuts)
            d = m.inp_bytes('data', n)
            e, t = self.stream(s, k, n)
            off = 0
            for j, (x, mode) in enumerate(cuts):
                seg, ks = d[off:off + x], e[off:off + x]
                o, r = self.request(m, c, mode, seg, str(j))
                m.ensure('piece %d accepted' % j, (r, T.const(1, 8)))
                m.ensure_bytes('piece %d' % j, o, 0, ks if mode == 'w' else [p ^ q for p, q in zip(seg, ks)])
                off += x
            self.canonical(m, 'state after all pieces = state after one request', c, *t)
        return prog

    def k_twice(self, k, n):
        def prog(m):
            self.w.need_layout(m)
            s = self.core.fresh(m)
            c, e = self.at(m, s, k, 'c'), self.at(m, s, k, 'e')
            d = m.inp_bytes('data', n)
            o = m.buf('o', n, d)
            m.ensure('accepted', (m.call(self.p + '_apply', c, o, n), T.const(1, 8)))
            m.ensure('accepted', (m.call(self.p + '_apply', e, o, n), T.const(1, 8)))
            m.ensure_bytes('data restored', o, 0, d)
        return prog


WHC = WStream('wh', HC256)
WRABBITS = {'wrk': WStream('wrk', RABBITS['rk']), 'wri': WStream('wri', RABBITS['ri'])}
