"""Which contracts decide which property."""
import os, re, fnmatch
from engine import run as R
from engine.run import Task
from . import cores as C, wrappers as W, rng as G, streams as S, objs as O

THOROUGH = R.TIER == 'thorough'
FORCED = [('chacha-soft', None), ('chacha-sse2', None), ('chacha-avx2', None), ('chacha-avx512', None)]
AUTO = [('chacha-auto', 'avx2'), ('chacha-auto', 'sse2'), ('chacha-auto512', 'avx512')]
DISPATCH = [(f, c) for f in ('chacha-auto', 'chacha-auto512') for c in
            ('sse2', 'sse41', 'avx', 'avx2', 'avx2-no-os', 'avx2-xcr0', 'avx512f-only', 'avx512-no-os', 'avx512')]


def tname(core, k, *a):
    return '%s.%s%s' % (core, k, ''.join('.' + '_'.join(map(str, x)) if isinstance(x, (list, tuple)) else '.%s' % (x,) for x in a))


def T_(core, k, *a, fl=None, cpu=None, **kw):
    prog = getattr(core, 'k_' + k)(*a)
    return Task(tname(core.p, k, *a), fl, prog, cpu, **kw)


def c01():
    ts = []
    for fl, cpu in [('chacha-auto', 'avx2'), ('chacha-auto', 'sse2'), ('chacha-soft', None)]:
        for r in (8, 12, 20):
            for v in 'il':
                c = C.chacha(r, v)
                ts.append(T_(c, 'new', fl=fl, cpu=cpu))
                ts.append(T_(c, 'block', fl=fl, cpu=cpu))
                ts.append(T_(c, 'blocks', 5, fl=fl, cpu=cpu, weight=3))
                ts.append(T_(c, 'apply', 3, False, fl=fl, cpu=cpu, weight=3))
                ts.append(T_(c, 'apply', 6, True, fl=fl, cpu=cpu, weight=3))
                if v == 'i' or r == 20:
                    ts.append(T_(c, 'newsl', fl=fl, cpu=cpu))
    return ts


def all_chacha():
    return [C.chacha(r, v) for r in (8, 12, 20) for v in 'il']


def c02():
    ts = []
    par = {'chacha-soft': 1, 'chacha-sse2': 4, 'chacha-avx2': 4, 'chacha-avx512': 16}
    for fl, cpu in FORCED:
        for c in all_chacha():
            k = par[fl]
            ops = [0, 255] + list(range(2, k))
            for o in ops:
                ts.append(T_(c, 'step', o, fl=fl, cpu=cpu, weight=2 + (k if o == 255 else o)))
            ns = sorted({0, 1, 2, k - 1, k, k + 1, 2 * k + 1, 2 * k + k // 2} - {-1})
            for n in ns:
                ts.append(T_(c, 'blocks', n, fl=fl, cpu=cpu, weight=2 + n))
            ts.append(T_(c, 'seq', (0, 255, 0, min(3, k - 1), 255), fl=fl, cpu=cpu, weight=20) if k > 1 else
                      T_(c, 'seq', (0, 255, 0), fl=fl, cpu=cpu, weight=3))
    # selected from the detected CPU, whatever CPUID and XCR0 say
    for fl, cpu in ANYCPU:
        p = 16 if '512' in fl else 4
        for c in all_chacha() + XCHACHA:
            ts += [T_(c, k, fl=fl, cpu=cpu) for k in ('new', 'block', 'pos')]
            for n in (p, p + 2) if '20' in c.p else (p + 1,):
                ts.append(T_(c, 'blocks', n, fl=fl, cpu=cpu, weight=3 * n))
            if '20' in c.p:
                ts.append(T_(c, 'seq', (0, 255, 0, 2, 255), fl=fl, cpu=cpu, weight=9 * p))
        for r in (8, 12, 20):
            ts.append(Task('hchacha%d' % r, fl, C.k_hchacha(r), cpu))
            g = G.RNGS[r]
            ts.append(T_(g, 'new', fl=fl, cpu=cpu))
            ts += [T_(g, 'u32', 64, fl=fl, cpu=cpu), T_(g, 'fill', 33, 300, fl=fl, cpu=cpu, weight=9)]
        ts.append(T_(WR['wc20'], 'req', 5, 200, 'b', fl=fl, cpu=cpu, weight=9))
    return ts


SALSA = [C.salsa(r) for r in (8, 12, 20)]
XSALSA = [C.xsalsa(r) for r in (8, 12, 20)]
XCHACHA = [C.xchacha(r) for r in (8, 12, 20)]
STEPS = {'chacha-soft': [0], 'chacha-sse2': [0, 255, 2, 3], 'chacha-avx2': [0, 255, 2, 3], 'chacha-avx512': [0, 255, 2, 3, 7, 12, 15]}


def c03():
    ts = []
    for fl, cpu in FORCED + AUTO:
        for c in all_chacha() if cpu is None else [C.chacha(20, 'i'), C.chacha(20, 'l')]:
            ts.append(T_(c, 'pos', fl=fl, cpu=cpu))
            ts.append(T_(c, 'block', fl=fl, cpu=cpu))
            ts.append(T_(c, 'blocks', 5, fl=fl, cpu=cpu, weight=3))
            if fl.endswith('512'):
                ts.append(T_(c, 'blocks', 18, fl=fl, cpu=cpu, weight=9))
            for o in STEPS.get(fl, []):
                ts.append(T_(c, 'step', o, fl=fl, cpu=cpu, weight=4))
    for c in SALSA + XSALSA:
        ts.append(T_(c, 'pos', fl='salsa'))
        ts.append(T_(c, 'block', fl='salsa'))
        ts.append(T_(c, 'step', 0, fl='salsa'))
        ts.append(T_(c, 'seq', (0, 0, 0), fl='salsa'))
        ts.append(T_(c, 'blocks', 3, fl='salsa'))
    return ts


def c06():
    ts = []
    for fl, cpu in FORCED + AUTO:
        for r, c in zip((8, 12, 20), XCHACHA):
            ts.append(Task('hchacha%d' % r, fl, C.k_hchacha(r), cpu))
            for k in ('new', 'newsl', 'block', 'pos', 'rem'):
                ts.append(T_(c, k, fl=fl, cpu=cpu))
            ts.append(T_(c, 'blocks', 5, fl=fl, cpu=cpu, weight=3))
            ts.append(T_(c, 'apply', 3, False, fl=fl, cpu=cpu, weight=3))
            ts.append(T_(c, 'apply', 6, True, fl=fl, cpu=cpu, weight=3))
            for o in STEPS.get(fl, []):
                ts.append(T_(c, 'step', o, fl=fl, cpu=cpu, weight=4))
    return ts


def c07():
    ts = []
    for r, c in zip((8, 12, 20), SALSA):
        for k in ('new', 'newsl', 'block', 'pos', 'rem'):
            ts.append(T_(c, k, fl='salsa'))
        for n in (0, 1, 2, 3, 5):
            ts.append(T_(c, 'blocks', n, fl='salsa'))
        for io in (False, True):
            for n in (1, 4):
                ts.append(T_(c, 'apply', n, io, fl='salsa'))
        ts.append(T_(c, 'step', 0, fl='salsa'))
        ts.append(Task('salsa%d.from_raw_state' % r, 'salsa', C.k_salsa_raw(r)))
    return ts


def c08():
    ts = []
    for r, c in zip((8, 12, 20), XSALSA):
        ts.append(Task('hsalsa%d' % r, 'salsa', C.k_hsalsa(r)))
        for k in ('new', 'newsl', 'block', 'pos', 'rem'):
            ts.append(T_(c, k, fl='salsa'))
        for n in (0, 2, 3, 5):
            ts.append(T_(c, 'blocks', n, fl='salsa'))
        for io in (False, True):
            ts.append(T_(c, 'apply', 3, io, fl='salsa'))
        ts.append(T_(c, 'step', 0, fl='salsa'))
    return ts


WR = W.all_wraps()


def fl_of(w):
    return 'salsa' if w.p[:2] in ('ws',) or w.p.startswith('wxs') else 'chacha-auto'


def wrap_targets():
    out = []
    for w in WR.values():
        if fl_of(w) == 'salsa':
            out.append((w, 'salsa', None))
        else:
            out.append((w, 'chacha-auto', 'avx2'))
    for n in ('wc20', 'wl20', 'wx20'):
        out.append((WR[n], 'chacha-auto', 'sse2'))
        out.append((WR[n], 'chacha-soft', None))
        out.append((WR[n], 'chacha-auto512', 'avx512'))
    return out


def c04():
    ts = []
    for w, fl, cpu in wrap_targets():
        ts.append(T_(w.core, 'pos', fl=fl, cpu=cpu))
        ts.append(T_(w, 'new', fl=fl, cpu=cpu))
        for k0, k1 in ((0, 0), (0, 1), (7, 0), (63, 63), (16, 33)):
            for ty in ('32', '64', '128'):
                ts.append(T_(w, 'seek', k0, k1, ty, fl=fl, cpu=cpu, weight=2))
        for k in (0, 1, 31, 63):
            ts.append(T_(w, 'tell', k, fl=fl, cpu=cpu))
        for k, n, md in ((0, 0, 'a'), (0, 64, 'a'), (0, 65, 'w'), (9, 55, 'b'), (9, 54, 'a'), (63, 1, 'a'), (63, 2, 'w'), (1, 130, 'a')):
            ts.append(T_(w, 'req', k, n, md, fl=fl, cpu=cpu, weight=2))
    return ts


def c05():
    ts = []
    for w, fl, cpu in wrap_targets():
        ts.append(T_(w.core, 'rem', fl=fl, cpu=cpu))
        for k in (0, 1, 63):
            ts.append(T_(w, 'check', k, fl=fl, cpu=cpu))
        for k, n, md in ((0, 1, 'a'), (0, 64, 'b'), (0, 65, 'w'), (0, 129, 'a'), (5, 59, 'a'), (5, 60, 'w'), (5, 124, 'b'), (63, 66, 'a'), (0, 0, 'a'), (63, 0, 'w')):
            ts.append(T_(w, 'req', k, n, md, fl=fl, cpu=cpu, weight=2))
        for k0, k1, ty in ((3, 0, '128'), (0, 5, '128'), (3, 0, '64'), (0, 5, '64')):
            ts.append(T_(w, 'seek', k0, k1, ty, fl=fl, cpu=cpu, weight=2))
        for n in (0, 1, 64, 65, 200):
            ts.append(T_(w.core, 'partial', n, fl=fl, cpu=cpu, weight=2))
    return ts


RNG_T = [('chacha-auto', 'avx2'), ('chacha-auto', 'sse2'), ('chacha-soft', None), ('chacha-auto512', 'avx512'),
         ('chacha-sse2', None), ('chacha-avx2', None), ('chacha-avx512', None)]
IDX = list(range(1, 65))
IDX_S = [1, 2, 15, 16, 17, 33, 48, 49, 62, 63, 64]


def c09():
    ts = []
    for n, (fl, cpu) in enumerate(RNG_T):
        for r in (8, 12, 20):
            g = G.RNGS[r]
            full = THOROUGH or (r == 8 and n < 3)
            ts.append(T_(g, 'new', fl=fl, cpu=cpu))
            for i in IDX if full else IDX_S:
                ts.append(T_(g, 'u32', i, fl=fl, cpu=cpu))
                ts.append(T_(g, 'u64', i, fl=fl, cpu=cpu))
            for i in (1, 17, 62, 63, 64):
                for k in (0, 1, 3, 4, 5, 8, 64, 255, 256, 257, 300):
                    if full or k in (0, 3, 5, 257):
                        ts.append(T_(g, 'fill', i, k, fl=fl, cpu=cpu, weight=2))
            ts.append(T_(g, 'mix', 61, (2, 2, ('f', 3), 1, 2, ('f', 250), 2), fl=fl, cpu=cpu, weight=3))
            ts.append(T_(g, 'mix', 64, (('f', 255), 2, 1, ('f', 0), ('f', 5), 2), fl=fl, cpu=cpu, weight=3))
            for v in 'il':
                ts.append(T_(C.chacha(r, v), 'gen', fl=fl, cpu=cpu))
                ts.append(T_(C.chacha(r, v), 'fromseed', fl=fl, cpu=cpu))
    return ts


def c10():
    ts = []
    for n, (fl, cpu) in enumerate(RNG_T[:4]):
        for r in (8, 12, 20):
            g = G.RNGS[r]
            ts.append(T_(g, 'new', fl=fl, cpu=cpu))
            full = THOROUGH or (r == 8 and n == 0)
            for i in IDX if full else IDX_S:
                ts.append(T_(g, 'tell', i, fl=fl, cpu=cpu))
            for i in (IDX_S if full else (1, 33, 64)):
                ts.append(T_(g, 'setbp', i, fl=fl, cpu=cpu))
                ts.append(T_(g, 'setst', i, fl=fl, cpu=cpu))
            for j in range(16):
                for i in (17, 64) if not full else (1, 16, 17, 48, 63, 64):
                    ts.append(T_(g, 'setwp', i, j, fl=fl, cpu=cpu))
    return ts


def c11():
    ts = []
    for n, (fl, cpu) in enumerate(RNG_T[:3]):
        for r in (8, 12, 20):
            g = G.RNGS[r]
            full = THOROUGH or (r == 8 and n == 0)
            for i in IDX if full else IDX_S:
                ts.append(T_(g, 'ser', i, fl=fl, cpu=cpu, weight=2))
            for j in range(16):
                ts.append(T_(g, 'de', j, fl=fl, cpu=cpu))
            for i, j in ((1, 1), (1, 17), (16, 64), (64, 64), (64, 16), (33, 1), (63, 63)):
                ts.append(T_(g, 'eq', i, j, fl=fl, cpu=cpu))
            for i in (1, 16, 64):
                for what in ('seed', 'stream', 'B'):
                    ts.append(T_(g, 'eqdiff', i, what, fl=fl, cpu=cpu))
    return ts


def prep(*streams):
    def f():
        for s in streams:
            s.rep()
            s.layout()
        return []
    return f


def c13():
    ts = []
    for s in S.RABBITS.values():
        ts.append(T_(s, 'new', fl='rabbit', weight=5))
        ts.append(T_(s, 'newsl', fl='rabbit', weight=5))
        ts.append(T_(s, 'block', fl='rabbit', weight=5))
        ts.append(T_(s, 'rem', fl='rabbit'))
        for n in (0, 1, 3):
            ts.append(T_(s, 'blocks', n, fl='rabbit', weight=5))
        for io in (False, True):
            ts.append(T_(s, 'apply', 2, io, fl='rabbit', weight=5))
        ts.append(T_(s, 'seq', (0, 255, 0), fl='rabbit', weight=5))
        for n in (0, 5, 16, 40):
            ts.append(T_(s, 'partial', n, fl='rabbit', weight=5))
        ts.append(long(s, 3000))
    return ts


def hc_cases(n, obj=S.HC256):
    """every position of the 2048-step cycle from which n steps start: inside a phase (arbitrary index) and across its end"""
    n = max(n, 1)
    for ph in (0, 1):
        yield 'p%d' % ph, obj.case(ph, n)
        for e in range(1024 - n, 1024):
            yield 'p%d.%d' % (ph, e), obj.case(ph, exact=e)


def H_(k, *a, steps=1, obj=S.HC256, **kw):
    for nm, c in hc_cases(steps, obj):
        yield Task(obj.p + '.%s.%s' % (tname('', k, *a)[1:], nm), 'hc256', getattr(c, 'k_' + k)(*a), None, **kw)


def c12():
    ts = [T_(S.HC256, 'new', fl='hc256', weight=50), T_(S.HC256, 'newsl', fl='hc256', weight=40)]
    ts += H_('block')
    ts += H_('rem', steps=0)
    for n in (0, 1, 3):
        ts += H_('blocks', n, steps=n)
    for io in (False, True):
        ts += H_('apply', 2, io, steps=2)
    ts += H_('seq', (0, 255, 0), steps=3)
    for n in (0, 3, 4, 9):
        ts += H_('partial', n, steps=(n + 3) // 4)
    ts.append(long(S.HC256, 70000))
    return ts


def long(s, n):
    return Task(s.p + '.long', s.fl, s.k_long(n), None, native_only=True, bounded=1, weight=60)


def c14():
    ts = [T_(S.RC4, 'badlen', fl='rc4'), T_(S.RC4, 'new32', fl='rc4', weight=3)]
    for n in range(1, 257):
        ts.append(T_(S.RC4, 'ksa', n, fl='rc4', weight=3))
    for n in (0, 1, 2, 3, 5):
        for md in 'abw':
            ts.append(T_(S.RC4, 'req', n, md, fl='rc4'))
    ts.append(T_(S.RC4, 'chunks', ((1, 'a'), (0, 'b'), (2, 'w'), (1, 'b'), (0, 'w'), (2, 'a')), fl='rc4'))
    ts.append(long(S.RC4, 70000))
    return ts


def pieces(bs):
    """(k, cuts): schedules with empty pieces, single bytes, block-crossing pieces and every request kind"""
    b = bs
    yield 0, ((1, 'a'), (0, 'b'), (b - 1, 'w'), (b, 'a'), (0, 'w'), (b + 1, 'b'), (1, 'w'), (b - 2, 'a'))
    yield 1, ((b - 2, 'b'), (1, 'a'), (0, 'a'), (2 * b, 'b'), (1, 'a'), (1, 'w'))
    yield b - 1, ((2, 'a'), (1, 'b'), (b, 'w'), (2 * b + 1, 'a'), (0, 'b'))
    yield b // 2, ((b // 2, 'w'), (b // 2, 'a'), (3 * b, 'w'), (b // 2 + 1, 'b'))
    yield 0, ((2 * b, 'w'), (2 * b, 'a'), (2 * b, 'b'), (1, 'a'), (b - 1, 'b'))


def c15():
    ts = []
    for n, (w, fl, cpu) in enumerate(wrap_targets()):
        for k, cuts in pieces(64):
            ts.append(T_(w, 'seq', k, cuts, fl=fl, cpu=cpu, weight=4))
        # a request longer than any parallel batch, cut differently
        big = 64 * 17 if fl == 'chacha-auto512' else 64 * 5
        ts.append(T_(w, 'seq', 3, ((big, 'a'), (7, 'b')), fl=fl, cpu=cpu, weight=9))
        ts.append(T_(w, 'seq', 3, ((100, 'b'), (big - 100, 'w'), (7, 'a')), fl=fl, cpu=cpu, weight=9))
        for k, n in ((0, 64), (5, 130), (63, 2), (0, 320), (1, 0)):
            ts.append(T_(w, 'twice', k, n, fl=fl, cpu=cpu, weight=3))
        for k in (0, 1, 32, 63):
            for n, md in ((0, 'a'), (1, 'b'), (63, 'w'), (64, 'a'), (65, 'b'), (200, 'a')):
                ts.append(T_(w, 'req', k, n, md, fl=fl, cpu=cpu, weight=2))
    for w in S.WRABBITS.values():
        ts.append(T_(w, 'new', fl='rabbit'))
        for k, cuts in pieces(16):
            ts.append(T_(w, 'seq', k, cuts, fl='rabbit'))
        for k, n in ((0, 16), (3, 40), (15, 2), (0, 0)):
            ts.append(T_(w, 'twice', k, n, fl='rabbit'))
        for k in range(16):
            for n in (0, 1, 15, 16, 17, 34):
                for md in 'abw':
                    ts.append(T_(w, 'req', k, n, md, fl='rabbit'))
    ts.append(T_(S.WHC, 'new', fl='hc256', weight=50))
    for k, cuts in pieces(4):
        st = (k + sum(n for n, _ in cuts) + 3) // 4
        ts += [t for t in H_('seq', k, cuts, steps=st, obj=S.WHC, weight=5)]
    for k, n in ((0, 4), (3, 9)):
        ts += H_('twice', k, n, steps=3, obj=S.WHC, weight=5)
    for k in range(4):
        for n, md in ((0, 'a'), (1, 'b'), (3, 'w'), (4, 'a'), (5, 'b'), (9, 'w')):
            ts += H_('req', k, n, md, steps=(k + n + 3) // 4, obj=S.WHC, weight=5)
    for cuts in (((1, 'a'), (0, 'b'), (2, 'w'), (1, 'b'), (0, 'w'), (2, 'a')), ((6, 'b'),), ((3, 'w'), (3, 'a'))):
        ts.append(T_(S.RC4, 'chunks', cuts, fl='rc4'))
    for n in (0, 1, 4):
        ts.append(T_(S.RC4, 'twice', n, fl='rc4'))
    return ts


def c16():
    ts = []
    for o in O.all_objs(AUTO + [('chacha-soft', None)]):
        ts.append(o.k_drop())
    for o in O.all_objs([('chacha-nocz', 'avx2')]):
        if o.fl == 'chacha-nocz':
            ts.append(o.k_dropz() if o.p[0] == 'w' else o.k_drop())
    for fl, cpu in AUTO + [('chacha-soft', None)]:
        for c in all_chacha():
            ts.append(Task(c.p + '.generator-drop', fl, O.k_gendrop(c), cpu))
    return ts


def c19():
    os_ = O.all_objs(AUTO + [('chacha-soft', None)])
    ts = [o.k_debug() for o in os_]
    by = {}
    for o in os_:
        g = by.setdefault((o.p, o.fl, o.cpu), [])
        if g:
            ts.append(O.k_debug_cross(g[-1], o))
        g.append(o)
    return ts


SECRET = re.compile(r'^(key|seed|data|res|in\\.|[xc][0-7]$|carry|st\\d)')


def secret(nm):
    return bool(SECRET.match(nm))


def ct(ts):
    for t in ts:
        t.secrets, t.only_safe, t.native = secret, True, 'trace'
    return ts


def c20():
    ts = []
    for fl, cpu in FORCED + AUTO:
        par = 16 if '512' in fl else 4
        for c in all_chacha() + XCHACHA:
            for k in (('new', 'newsl') if c.ctor == 'new' else ()):
                ts.append(T_(c, k, fl=fl, cpu=cpu))
            for k in ('pos', 'block', 'rem'):
                ts.append(T_(c, k, fl=fl, cpu=cpu))
            ts.append(T_(c, 'blocks', par + 3, fl=fl, cpu=cpu, weight=par))
            ts.append(T_(c, 'apply', par + 1, True, fl=fl, cpu=cpu, weight=par))
            ts.append(T_(c, 'apply', 3, False, fl=fl, cpu=cpu, weight=3))
            ts.append(T_(c, 'partial', 70, fl=fl, cpu=cpu, weight=3))
        for r in (8, 12, 20):
            ts.append(Task('hchacha%d' % r, fl, C.k_hchacha(r), cpu))
            g = G.RNGS[r]
            ts.append(T_(g, 'new', fl=fl, cpu=cpu))
            for i in (1, 17, 63, 64):
                for k in ('u32', 'u64', 'tell', 'setbp', 'setst', 'ser'):
                    ts.append(T_(g, k, i, fl=fl, cpu=cpu))
                ts.append(T_(g, 'fill', i, 270, fl=fl, cpu=cpu, weight=2))
                ts.append(T_(g, 'setwp', i, 5, fl=fl, cpu=cpu))
            ts.append(T_(g, 'de', 7, fl=fl, cpu=cpu))
    for c in SALSA + XSALSA:
        for k in ('new', 'newsl', 'pos', 'block', 'rem'):
            ts.append(T_(c, k, fl='salsa'))
        ts.append(T_(c, 'blocks', 3, fl='salsa'))
        ts.append(T_(c, 'apply', 3, True, fl='salsa'))
        ts.append(T_(c, 'apply', 2, False, fl='salsa'))
        ts.append(T_(c, 'partial', 70, fl='salsa'))
    for r in (8, 12, 20):
        ts.append(Task('hsalsa%d' % r, 'salsa', C.k_hsalsa(r)))
        ts.append(Task('salsa%d.from_raw_state' % r, 'salsa', C.k_salsa_raw(r)))
    for w, fl, cpu in wrap_targets():
        for k in (0, 1, 63):
            for n, md in ((0, 'a'), (1, 'b'), (65, 'w'), (130, 'a'), (130, 'b')):
                ts.append(T_(w, 'req', k, n, md, fl=fl, cpu=cpu, weight=2))
            ts.append(T_(w, 'tell', k, fl=fl, cpu=cpu))
        ts.append(T_(w, 'seek', 5, 9, '64', fl=fl, cpu=cpu))
    for s in S.RABBITS.values():
        for k in ('new', 'newsl', 'block', 'rem'):
            ts.append(T_(s, k, fl='rabbit', weight=3))
        ts.append(T_(s, 'blocks', 3, fl='rabbit', weight=3))
        ts.append(T_(s, 'apply', 2, True, fl='rabbit', weight=3))
        ts.append(T_(s, 'apply', 2, False, fl='rabbit', weight=3))
        ts.append(T_(s, 'partial', 40, fl='rabbit', weight=3))
    for w in S.WRABBITS.values():
        ts.append(T_(w, 'new', fl='rabbit'))
        for k in (0, 1, 15):
            for n, md in ((0, 'a'), (1, 'b'), (17, 'w'), (34, 'a')):
                ts.append(T_(w, 'req', k, n, md, fl='rabbit'))
    return ct(ts)


def safety_tasks(forced, auto, salsa, rabbit, hc, rc4, deep):
    """every public operation, for the given build flavours"""
    ts = []
    for fl, cpu in forced + auto:
        par = 16 if '512' in fl else 4
        cs = all_chacha() + XCHACHA
        for c in cs:
            if c.ctor == 'new':
                ts += [T_(c, k, fl=fl, cpu=cpu) for k in ('new', 'newsl')]
            else:
                ts.append(T_(c, 'new', fl=fl, cpu=cpu))
            ts += [T_(c, k, fl=fl, cpu=cpu) for k in ('pos', 'block', 'rem')]
            if c.p not in ('cc20i', 'cc20l', 'xc20', 'cc8l'):
                # the other round counts: one representative shape of each
                ts += [T_(c, 'blocks', par + 1, fl=fl, cpu=cpu, weight=par), T_(c, 'partial', 70, fl=fl, cpu=cpu, weight=3)]
                continue
            for n in sorted({0, 1, par - 1, par, par + 1, 2 * par + 3}):
                ts.append(T_(c, 'blocks', n, fl=fl, cpu=cpu, weight=n))
            if deep:
                for n, io in ((0, False), (0, True), (1, True), (2, False), (par + 3, True)):
                    ts.append(T_(c, 'apply', n, io, fl=fl, cpu=cpu, weight=n))
                for o in STEPS.get(fl.replace('-rel', ''), []):
                    ts.append(T_(c, 'step', o, fl=fl, cpu=cpu, weight=4))
            for n in (0, 1, 64, 70):
                ts.append(T_(c, 'partial', n, fl=fl, cpu=cpu, weight=3))
        for r in (8, 12, 20):
            ts.append(Task('hchacha%d' % r, fl, C.k_hchacha(r), cpu))
            g = G.RNGS[r]
            if r != 8 and (fl, cpu) != auto[0]:
                ts += [T_(g, 'u64', 63, fl=fl, cpu=cpu), T_(g, 'fill', 33, 257, fl=fl, cpu=cpu), T_(g, 'setwp', 64, 15, fl=fl, cpu=cpu)]
                continue
            for v in 'il':
                ts += [T_(C.chacha(r, v), k, fl=fl, cpu=cpu) for k in ('gen', 'fromseed')]
            ts.append(T_(g, 'new', fl=fl, cpu=cpu))
            for i in IDX if deep and r == 8 and (fl, cpu) == auto[0] else (1, 17, 63, 64) if r == 8 else (17, 64):
                ts += [T_(g, k, i, fl=fl, cpu=cpu) for k in ('u32', 'u64', 'tell')]
            for i in (1, 33, 63, 64) if r == 8 else (1, 64):
                for k in (0, 1, 4, 7, 255, 256, 257, 520) if r == 8 else (7, 257):
                    ts.append(T_(g, 'fill', i, k, fl=fl, cpu=cpu, weight=2))
                ts += [T_(g, k, i, fl=fl, cpu=cpu) for k in ('setbp', 'setst', 'ser')]
                for j in (0, 1, 15) if r == 8 else (7,):
                    ts.append(T_(g, 'setwp', i, j, fl=fl, cpu=cpu))
            for j in (0, 1, 15):
                ts.append(T_(g, 'de', j, fl=fl, cpu=cpu))
            ts.append(T_(g, 'eq', 1, 17, fl=fl, cpu=cpu))
            for i in (1, 63, 64) if r == 8 else (64,):
                ts.append(T_(g, 'hist', i, fl=fl, cpu=cpu, weight=5))
    wt = [(w, f, c) for w in WR.values() for f, c in ([(salsa, None)] if fl_of(w) == 'salsa' else auto[:1]) if f]
    if deep:
        wt += [(WR[n], f, c) for n in ('wc20', 'wl20', 'wx20') for f, c in (auto[1], ('chacha-soft', None))]
    for w, fl, cpu in wt:
        ts.append(T_(w, 'new', fl=fl, cpu=cpu))
        if w.p[-1] != '0' or not deep:
            # the other round counts
            ts += [T_(w, 'seek', 17, 63, '64', fl=fl, cpu=cpu), T_(w, 'tell', 1, fl=fl, cpu=cpu), T_(w, 'check', 1, fl=fl, cpu=cpu)]
            ts += [T_(w, 'req', k, n, md, fl=fl, cpu=cpu) for k, n, md in ((0, 0, 'a'), (63, 130, 'b'), (5, 320, 'w'), (5, 59, 'a'))]
            continue
        for k0, k1 in ((0, 0), (0, 1), (63, 0), (17, 63)):
            for ty in ('32', '64', '128'):
                ts.append(T_(w, 'seek', k0, k1, ty, fl=fl, cpu=cpu, weight=2))
        for k in (0, 1, 63):
            ts.append(T_(w, 'hist', k, fl=fl, cpu=cpu, weight=5))
            if fl in ('chacha-soft', 'salsa') and (k == 1 or w.p == 'wc20'):
                ts.append(T_(w, 'hist', k, True, fl=fl, cpu=cpu, weight=8))
            ts.append(T_(w, 'tell', k, fl=fl, cpu=cpu))
            ts.append(T_(w, 'check', k, fl=fl, cpu=cpu))
            for n, mds in ((0, 'abw'), (1, 'a'), (63, 'w'), (64, 'b'), (65, 'a'), (130, 'b'), (320, 'w')):
                for md in mds:
                    ts.append(T_(w, 'req', k, n, md, fl=fl, cpu=cpu, weight=2))
    for c in SALSA + XSALSA if salsa else []:
        ts += [T_(c, k, fl=salsa) for k in ('new', 'newsl', 'pos', 'block', 'rem')]
        for n in (0, 1, 2, 5):
            ts.append(T_(c, 'blocks', n, fl=salsa))
            for io in (False, True):
                ts.append(T_(c, 'apply', n, io, fl=salsa))
        for n in (0, 1, 64, 70):
            ts.append(T_(c, 'partial', n, fl=salsa))
        ts.append(T_(c, 'step', 0, fl=salsa))
    for r in (8, 12, 20) if salsa else ():
        ts.append(Task('hsalsa%d' % r, salsa, C.k_hsalsa(r)))
        ts.append(Task('salsa%d.from_raw_state' % r, salsa, C.k_salsa_raw(r)))
    for s in S.RABBITS.values() if rabbit else ():
        ts += [T_(s, k, fl=rabbit) for k in ('new', 'newsl', 'block', 'rem')]
        for n in (0, 1, 3):
            ts.append(T_(s, 'blocks', n, fl=rabbit))
            for io in (False, True):
                ts.append(T_(s, 'apply', n, io, fl=rabbit))
        for n in (0, 5, 16, 40):
            ts.append(T_(s, 'partial', n, fl=rabbit))
    for w in S.WRABBITS.values() if rabbit else ():
        for k in (0, 1, 15):
            for n in (0, 1, 15, 16, 34):
                for md in 'abw':
                    ts.append(T_(w, 'req', k, n, md, fl=rabbit))
    if hc:
        ts += [T_(S.HC256, 'new', fl=hc, weight=50), T_(S.HC256, 'newsl', fl=hc, weight=40)]
        x = list(H_('block')) + list(H_('rem', steps=0)) + list(H_('blocks', 3, steps=3)) + list(H_('apply', 2, True, steps=2))
        for n in (0, 9) if deep else (3,):
            x += H_('partial', n, steps=(n + 3) // 4)
        for k, n, md in ((0, 0, 'a'), (3, 1, 'b'), (1, 5, 'w'), (0, 9, 'a')) if deep else ((3, 6, 'a'),):
            x += H_('req', k, n, md, steps=(k + n + 3) // 4, obj=S.WHC, weight=5)
        for t in x:
            t.flavour = hc
        ts += x
    if rc4:
        ts += [T_(S.RC4, 'badlen', fl=rc4), T_(S.RC4, 'new32', fl=rc4)]
        for n in range(1, 257) if THOROUGH else (1, 2, 3, 4, 5, 6, 7, 8, 13, 16, 31, 32, 33, 40, 64, 127, 128, 129, 192, 255, 256) if deep else (1, 5, 255, 256):
            ts.append(T_(S.RC4, 'ksa', n, fl=rc4, weight=3))
        for n in (0, 1, 2, 5):
            for md in 'abw':
                ts.append(T_(S.RC4, 'req', n, md, fl=rc4))
    return ts


REL_AUTO = [('chacha-auto-rel', 'avx2'), ('chacha-auto-rel', 'sse2')]


def c17():
    ts = safety_tasks(FORCED, AUTO, 'salsa', 'rabbit', 'hc256', 'rc4', True)
    for o in O.all_objs(AUTO[:2]):
        ts += [o.k_drop(), o.k_debug()] if o.fl != 'hc256' else []
    rf = [(f + '-rel', c) for f, c in FORCED] + ([('chacha-auto512-rel', 'avx512')] if THOROUGH else [])
    ts += safety_tasks(rf, REL_AUTO, 'salsa-rel', 'rabbit-rel', 'hc256-rel', 'rc4-rel', THOROUGH)
    ts += [long(S.HC256, 70000), long(S.RC4, 70000)] + [long(s, 3000) for s in S.RABBITS.values()]
    for t in ts:
        t.only_safe, t.native = True, 'replay'
    return ts


ANYCPU = [('chacha-auto', 'any'), ('chacha-auto512', 'any')]


def c18():
    ts = []
    for fl, cpu in ANYCPU + DISPATCH:
        par = 16 if '512' in fl else 4
        if cpu != 'any':
            # concrete CPU models: named witnesses for what the contracts over every CPU say
            for c in [C.chacha(20, 'i'), C.chacha(20, 'l'), C.xchacha(20)]:
                ts += [T_(c, 'block', fl=fl, cpu=cpu), T_(c, 'blocks', par + 2, fl=fl, cpu=cpu, weight=par)]
            ts.append(T_(G.RNGS[20], 'u32', 64, fl=fl, cpu=cpu))
            continue
        for c in all_chacha() + XCHACHA:
            ts += [T_(c, k, fl=fl, cpu=cpu) for k in ('new', 'block', 'pos')]
            for n in (2, par, par + 2):
                ts.append(T_(c, 'blocks', n, fl=fl, cpu=cpu, weight=n))
            ts.append(T_(c, 'apply', par + 1, True, fl=fl, cpu=cpu, weight=par))
            ts.append(T_(c, 'partial', 70, fl=fl, cpu=cpu, weight=3))
            if c.p in ('cc20i', 'cc20l', 'xc20'):
                ts.append(T_(c, 'seq', (0, 255, 0, 2, 255), fl=fl, cpu=cpu, weight=4 + 2 * par))
                for o in (0, 255, 2, 3):
                    ts.append(T_(c, 'step', o, fl=fl, cpu=cpu, weight=4))
        for r in (8, 12, 20):
            ts.append(Task('hchacha%d' % r, fl, C.k_hchacha(r), cpu))
            g = G.RNGS[r]
            ts.append(T_(g, 'new', fl=fl, cpu=cpu))
            for i in (17, 63, 64):
                ts += [T_(g, k, i, fl=fl, cpu=cpu) for k in ('u32', 'u64')]
            ts.append(T_(g, 'fill', 33, 300, fl=fl, cpu=cpu, weight=2))
            ts.append(T_(g, 'setwp', 64, 5, fl=fl, cpu=cpu))
            ts.append(T_(g, 'ser', 5, fl=fl, cpu=cpu))
            ts += [T_(C.chacha(r, v), k, fl=fl, cpu=cpu) for v in 'il' for k in ('gen', 'fromseed')]
        for n in ('wc20', 'wl20', 'wx20'):
            ts.append(T_(WR[n], 'req', 5, 200, 'b', fl=fl, cpu=cpu, weight=3))
            ts.append(T_(WR[n], 'seek', 5, 9, '64', fl=fl, cpu=cpu, weight=2))
    for t in ts:
        # what the code computes there is C02
        t.only_safe, t.native, t.fault_kinds = True, 'cpu', ('cpu-feature',)
    return ts


ALLSTREAMS = (S.WHC.w, S.RC4, *[w.w for w in S.WRABBITS.values()], S.HC256, *S.RABBITS.values())
PROPS = {
    'C18': dict(tasks=c18, assume=[]),
    'C17': dict(tasks=c17, assume=[], pre=prep(*ALLSTREAMS)),
    'C16': dict(tasks=c16, assume=[], pre=prep(*ALLSTREAMS)),
    'C20': dict(tasks=c20, assume=['secret: key, seed, plaintext, internal state; public: nonce/IV, positions, lengths, stream id, RNG buffer index; integer multiplication and variable shifts are taken to be constant-time; LLVM code generation is not checked'], pre=prep(*ALLSTREAMS)),
    'C19': dict(tasks=c19, assume=[], pre=prep(*ALLSTREAMS)),
    'C15': dict(tasks=c15, assume=[], pre=prep(S.WHC.w, S.RC4, *[w.w for w in S.WRABBITS.values()])),
    'C14': dict(tasks=c14, assume=[], pre=prep(S.RC4)),
    'C12': dict(tasks=c12, assume=[], pre=prep(S.HC256)),
    'C13': dict(tasks=c13, assume=[], pre=prep(*S.RABBITS.values())),
    'C09': dict(tasks=c09, assume=[]),
    'C10': dict(tasks=c10, assume=[]),
    'C11': dict(tasks=c11, assume=[]),
    'C01': dict(tasks=c01, assume=[]),
    'C02': dict(tasks=c02, assume=[]),
    'C03': dict(tasks=c03, assume=[]),
    'C04': dict(tasks=c04, assume=[]),
    'C05': dict(tasks=c05, assume=[]),
    'C06': dict(tasks=c06, assume=[]),
    'C07': dict(tasks=c07, assume=[]),
    'C08': dict(tasks=c08, assume=[]),
}


def main(pid, argv):
    p = PROPS[pid]
    ts = p['tasks']()
    if argv:
        ts = [t for t in ts if any(fnmatch.fnmatch(t.name + '@' + t.flavour + '/' + str(t.cpu), a) for a in argv)]
    return R.run_check(pid, ts, p['assume'], pre=p.get('pre'))
