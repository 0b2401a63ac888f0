"""2-safety contracts over every public type: two objects of the same type in
independent arbitrary states must be indistinguishable (a) in memory after drop,
(b) through Debug."""
from engine import terms as T
from engine.run import Task
from . import cores as C, wrappers as W, rng as G, streams as S


class Obj:
    def __init__(self, p, fl, label, make, cpu=None, ks=None, weight=1.0):
        self.p, self.fl, self.label, self.make, self.cpu, self.ks, self.weight = p, fl, label, make, cpu, ks, weight

    def pair(self, m):
        x = self.make(m, 'c')
        m.sfx = "'"
        y = self.make(m, 'e')
        m.sfx = ''
        return x, y

    def name(self, what):
        return '%s.%s%s' % (self.p, what, '.' + self.label if self.label else '')

    # ---- contracts
    def k_drop(self):
        def prog(m):
            c, e = self.pair(m)
            x, y = m.clone(c), m.clone(e)
            m.call(self.p + '_drop', c)
            m.call(self.p + '_drop', e)
            m.erased('no byte of the dropped object depends on its state', c, e)
            a = m.call_watched(self.p + '_dropst', x)
            b = m.call_watched(self.p + '_dropst', y)
            m.erased_bytes('no byte of a dropped local depends on its state', a, b)
        return Task(self.name('drop'), self.fl, prog, self.cpu, weight=self.weight)

    def k_dropz(self):
        """the same, the keystream buffer of the byte-level wrapper stated separately"""
        def prog(m):
            c, e = self.pair(m)
            s = m.snapshot(c)
            kb = self.ks(m)
            o = [i for i in range(len(s) - len(kb) + 1) if all(p is q if m.kind == 'sym' else p.val == q.val for p, q in zip(s[i:], kb))]
            m.call(self.p + '_drop', c)
            m.call(self.p + '_drop', e)
            if len(o) == 1:
                n, k = o[0], len(kb)
                m.erased('no byte outside the keystream buffer depends on the state (1)', c, e, n - (64 - k))
                m.erased('no byte outside the keystream buffer depends on the state (2)', c + (n + k), e + (n + k), c.size - n - k)
                m.erased('keystream buffer erased', c + (n - (64 - k)), e + (n - (64 - k)), 64)
            else:
                m.erased('no byte of the dropped object depends on its state', c, e)
        return Task(self.name('drop.zeroize-feature-of-chacha20-alone'), self.fl, prog, self.cpu, weight=self.weight)

    def k_debug(self):
        def prog(m):
            c, e = self.pair(m)
            for alt in (0, 1):
                x = m.fmt(self.p, c, alt)
                y = m.fmt(self.p, e, alt)
                m.same_output('Debug output%s does not depend on the state' % (' ({:#?})' if alt else ''), x, y)
        return Task(self.name('debug'), self.fl, prog, self.cpu, weight=self.weight)


def k_debug_cross(x, y):
    """the same over two objects at different enumerated places (buffer offsets, table halves)"""
    def prog(m):
        c = x.make(m, 'c')
        m.sfx = "'"
        e = y.make(m, 'e')
        m.sfx = ''
        for alt in (0, 1):
            m.same_output('Debug output%s does not depend on the position' % (' ({:#?})' if alt else ''), m.fmt(x.p, c, alt), m.fmt(x.p, e, alt))
    return Task(x.name('debug') + '|' + y.label, x.fl, prog, x.cpu, weight=x.weight)


def core_objs(c, fl, cpu=None):
    def make(m, nm):
        return c.at(m, c.args(m), c.pos(m), nm)
    return [Obj(c.p, fl, '', make, cpu)]


def wrap_objs(w, fl, cpu=None, ks=(0, 1, 17, 63)):
    out = []
    for k in ks:
        def make(m, nm, k=k):
            a = w.args(m)
            b = w.pos(m, k)
            return w.at(m, a, b, k, nm)

        def kst(m, k=k):
            a = w.args(m)
            return w.core.block(a, w.core.pos(m, 'b'))[k:]
        out.append(Obj(w.p, fl, 'k%d' % k, make, cpu, kst))
    return out


def rng_objs(g, fl, cpu=None, idx=(1, 2, 16, 33, 63, 64)):
    out = []
    for i in idx:
        def make(m, nm, i=i):
            s = g.inputs(m)
            return g.at(m, s, s['B'], i, nm)
        out.append(Obj(g.p, fl, 'i%d' % i, make, cpu))
    return out


def stream_objs(s, label=''):
    def make(m, nm):
        s.need_layout(m)
        return s.at(m, s.fresh(m, m.sfx), nm)
    return [Obj(s.p, s.fl, label, make, weight=5 if s.fl == 'hc256' else 1)]


def wstream_objs(w, ks, label=''):
    out = []
    for k in ks:
        def make(m, nm, k=k):
            w.w.need_layout(m)
            return w.at(m, w.core.fresh(m), k, nm)
        out.append(Obj(w.p, w.fl, label + 'k%d' % k, make, weight=5 if w.fl == 'hc256' else 1))
    return out


def all_objs(chacha_targets):
    out = []
    for fl, cpu in chacha_targets:
        for r in (8, 12, 20):
            for v in 'il':
                out += core_objs(C.chacha(r, v), fl, cpu)
            out += core_objs(C.xchacha(r), fl, cpu)
            out += rng_objs(G.RNGS[r], fl, cpu)
        for w in W.all_wraps().values():
            if not w.p.startswith('ws') and not w.p.startswith('wxs'):
                out += wrap_objs(w, fl, cpu)
    for r in (8, 12, 20):
        out += core_objs(C.salsa(r), 'salsa') + core_objs(C.xsalsa(r), 'salsa')
    for w in W.all_wraps().values():
        if w.p.startswith('ws') or w.p.startswith('wxs'):
            out += wrap_objs(w, 'salsa')
    for s in S.RABBITS.values():
        out += stream_objs(s)
    for w in S.WRABBITS.values():
        out += wstream_objs(w, range(16))
    for ph in (0, 1):
        out += stream_objs(S.HC256.case(ph, 1), 'p%d' % ph)
        out += wstream_objs(S.WHC.case(ph, 1), (0, 1, 3), 'p%d.' % ph)
    out += stream_objs(S.RC4)
    return out


def k_gendrop(c):
    """rand_core::block::Generator::drop erases the output buffer"""
    def prog(m):
        a = c.args(m)
        g = c.at(m, a, c.pos(m), 'c')
        x = m.buf('o', 256, m.inp_bytes('res', 256, 4), align=4)
        y = m.buf('p', 256, m.inp_bytes("res'", 256, 4), align=4)
        h = m.clone(g)
        m.call(c.p + '_gendrop', g, x)
        m.call(c.p + '_gendrop', h, y)
        m.erased('no output word survives', x, y)
    return prog
