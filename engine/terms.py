"""Hash-consed bit-vector / array terms with a normal form.

Every Node is a fixed-width bit-vector (booleans are 1-bit) or an array of
bit-vectors.  Constructors normalise (linear sums, n-ary xor, concat/extract
segments, rotations), so that two computations that differ only in how they
move bits around usually become the same object.  Constants fold completely,
so the very same specification code runs on concrete inputs.
"""
import hashlib
import numpy as np

_tab = {}
_cnt = [0]
MAXLIN = 12
OPQ = set()     # sums the specification asks to keep atomic inside larger sums

class Node:
    __slots__ = ('id', 'op', 'args', 'w', 'aux', 'sup', '_rng', 'tz')

    def __repr__(self):
        return show(self, 3)

    # ---- operators used by the specifications
    def __add__(a, b): return add(a, lift(b, a.w))
    def __radd__(a, b): return add(lift(b, a.w), a)
    def __sub__(a, b): return sub(a, lift(b, a.w))
    def __xor__(a, b): return xor(a, lift(b, a.w))
    def __rxor__(a, b): return xor(a, lift(b, a.w))
    def __and__(a, b): return and_(a, lift(b, a.w))
    def __or__(a, b): return or_(a, lift(b, a.w))
    def __mul__(a, b): return mul(a, lift(b, a.w))
    def __invert__(a): return not_(a)
    def __lshift__(a, k): return shl_c(a, k)
    def __rshift__(a, k): return lshr_c(a, k)
    def rotl(a, k): return rotl(a, k)
    def rotr(a, k): return rotl(a, a.w - k)
    def bits(a, hi, lo): return extract(a, hi, lo)
    def zext(a, w): return zext(a, w)
    def byte(a, i): return extract(a, 8 * i + 7, 8 * i)
    @property
    def is_const(a): return a.op == 'const'
    @property
    def val(a):
        assert a.op == 'const', a
        return a.aux


def reset():
    _tab.clear()
    _cnt[0] = 0
    OPQ.clear()


def _mk(op, args, w, aux=None):
    k = (op, w, aux, tuple([a.id for a in args]))
    n = _tab.get(k)
    if n is not None:
        return n
    n = Node()
    _cnt[0] += 1
    n.id = _cnt[0]
    n.op = op
    n.args = args
    n.w = w
    n.aux = aux
    n._rng = None
    _tab[k] = n
    return n


def opaque(n):
    if n.op == 'lin':
        OPQ.add(n.id)
    return n


def count():
    return _cnt[0]


def const(v, w):
    return _mk('const', (), w, v & ((1 << w) - 1))


def lift(v, w):
    return v if isinstance(v, Node) else const(v, w)


def var(name, w):
    return _mk('var', (), w, name)


TRUE = None
FALSE = None
def true(): return const(1, 1)
def false(): return const(0, 1)

# ---------------------------------------------------------------- linear
def add(a, b):
    if a.op == 'const':
        if b.op == 'const':
            return const(a.aux + b.aux, a.w)
        if a.aux == 0:
            return b
    elif b.op == 'const' and b.aux == 0:
        return a
    return lin([(1, a), (1, b)], 0, a.w)


def sub(a, b):
    if b.op == 'const':
        return add(a, const(-b.aux, a.w))
    if a is b:
        return const(0, a.w)
    return lin([(1, a), (-1, b)], 0, a.w)


def neg(a):
    return lin([(-1, a)], 0, a.w)


def lin(terms, c, w):
    m = (1 << w) - 1
    if w == 1:      # mod 2: xor
        r = const(c, 1)
        for k, t in terms:
            if k & 1:
                r = xor(r, t)
        return r
    d = {}
    nodes = {}
    tot = 0
    for k, t in terms:
        tot += len(t.args) if t.op == 'lin' and t.id not in OPQ else 1
    for k, t in terms:
        if t.op == 'const':
            c += k * t.aux
        elif t.op == 'lin' and (tot <= MAXLIN and t.id not in OPQ or len(t.args) == 1):
            co, cc = t.aux
            c += k * cc
            for kk, s in zip(co, t.args):
                d[s.id] = d.get(s.id, 0) + k * kk
                nodes[s.id] = s
        elif t.op == 'lin' and t.aux[1]:
            # keep the big sum atomic but strip its constant
            co, cc = t.aux
            c += k * cc
            s = _mk('lin', t.args, w, (co, 0))
            d[s.id] = d.get(s.id, 0) + k
            nodes[s.id] = s
        else:
            d[t.id] = d.get(t.id, 0) + k
            nodes[t.id] = t
    c &= m
    ids = sorted(i for i in d if d[i] & m)
    if not ids:
        return const(c, w)
    if len(ids) == 1 and d[ids[0]] & m == 1:
        x = nodes[ids[0]]
        if c == 0:
            return x
        if x.op == 'concat' and x.args[-1].op == 'const':
            # known low bits: the carry out of them is known
            lo = x.args[-1]
            k = lo.w
            t = lo.aux + (c & ((1 << k) - 1))
            hi = concat(list(x.args[:-1]))
            return concat([lin([(1, hi)], (c >> k) + (t >> k), w - k), const(t, k)])
    return _mk('lin', tuple([nodes[i] for i in ids]), w,
               (tuple([d[i] & m for i in ids]), c))


def mul(a, b):
    w = a.w
    if a.op == 'const' and b.op == 'const':
        return const(a.aux * b.aux, w)
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if b.aux == 0:
            return b
        if b.aux & (b.aux - 1) == 0:
            return shl_c(a, b.aux.bit_length() - 1)
        return lin([(b.aux, a)], 0, w)
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', (a, b), w)


def udiv(a, b):
    w = a.w
    if b.op == 'const' and b.aux:
        if a.op == 'const':
            return const(a.aux // b.aux, w)
        if b.aux & (b.aux - 1) == 0:
            return lshr_c(a, b.aux.bit_length() - 1)
    return _mk('udiv', (a, b), w)


def urem(a, b):
    w = a.w
    if b.op == 'const' and b.aux:
        if a.op == 'const':
            return const(a.aux % b.aux, w)
        if b.aux & (b.aux - 1) == 0:
            k = b.aux.bit_length() - 1
            return and_(a, const(b.aux - 1, w))
    return _mk('urem', (a, b), w)


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- bitwise
def not_(a):
    return xor(a, const(-1, a.w))


def _runs(v, w):
    """runs of equal bits, low to high: list of (bit, width)"""
    out = []
    i = 0
    while i < w:
        b = (v >> i) & 1
        j = i
        while j < w and (v >> j) & 1 == b:
            j += 1
        out.append((b, j - i))
        i = j
    return out


def _has_const_seg(n):
    if n.op != 'concat':
        return False
    for s in n.args:
        if s.op == 'const' and (s.aux == 0 or s.aux == (1 << s.w) - 1):
            return True
    return False


def _segs(n):
    """low-to-high segment boundaries of a concat"""
    b = []
    p = 0
    for s in reversed(n.args):
        p += s.w
        b.append(p)
    return b


def _split(op, a, b):
    w = a.w
    cuts = {w}
    for n in (a, b):
        if n.op == 'concat':
            cuts.update(_segs(n))
        elif n.op == 'const':
            p = 0
            for bit, k in _runs(n.aux, w):
                p += k
                cuts.add(p)
    parts = []
    lo = 0
    for c in sorted(cuts):
        parts.append(op(extract(a, c - 1, lo), extract(b, c - 1, lo)))
        lo = c
    parts.reverse()
    return concat(parts)


def xor(a, b):
    w = a.w
    if a.op == 'const':
        if b.op == 'const':
            return const(a.aux ^ b.aux, w)
        if a.aux == 0:
            return b
    elif b.op == 'const' and b.aux == 0:
        return a
    if a is b:
        return const(0, w)
    # zero segments make xor a concatenation
    ha = a.op == 'concat' and any(s.op == 'const' and s.aux == 0 for s in a.args)
    hb = b.op == 'concat' and any(s.op == 'const' and s.aux == 0 for s in b.args)
    if w > 32 and w % 32 == 0 and (ha or hb):
        # lanes first: never cut inside a 32-bit lane because one side has zero bits there
        cuts = {x for n in (a, b) if n.op == 'concat' for x in _segs(n) if x % 32 == 0}
        if len(cuts) > 1:
            parts = []
            lo = 0
            for x in sorted(cuts):
                parts.append(xor(extract(a, x - 1, lo), extract(b, x - 1, lo)))
                lo = x
            parts.reverse()
            return concat(parts)
    if ha and hb or w > 32 and (ha and b.op != 'const' or hb):
        return _split(xor, a, b)
    if (a.op == 'concat' and b.op == 'const') or (b.op == 'concat' and a.op == 'const'):
        cc, k = (a, b) if a.op == 'concat' else (b, a)
        if any(s.op == 'const' for s in cc.args):
            parts = []
            hi = w - 1
            for s in cc.args:
                parts.append(xor(s, extract(k, hi, hi - s.w + 1)))
                hi -= s.w
            return concat(parts)
    if a.op == 'concat' and b.op == 'concat' or w > 32 and (a.op == 'concat' or b.op == 'concat'):
        if a.op == 'concat' and b.op == 'concat':
            ca = set(_segs(a))
            com = [x for x in _segs(b) if x in ca]
        else:
            com = [x for x in _segs(a if a.op == 'concat' else b) if x % 32 == 0]
            if com and com[-1] != w:
                com.append(w)
        if len(com) > 1:
            parts = []
            lo = 0
            for x in com:
                parts.append(xor(extract(a, x - 1, lo), extract(b, x - 1, lo)))
                lo = x
            parts.reverse()
            return concat(parts)
    c = 0
    d = {}
    na = len(a.args) if a.op == 'xor' else 1
    nb = len(b.args) if b.op == 'xor' else 1
    big = na + nb > MAXLIN
    for t in (a, b):
        if t.op == 'const':
            c ^= t.aux
        elif t.op == 'xor' and (not big or len(t.args) == 1):
            c ^= t.aux
            for s in t.args:
                if s.id in d:
                    del d[s.id]
                else:
                    d[s.id] = s
        elif t.op == 'xor' and t.aux:
            c ^= t.aux
            s = _mk('xor', t.args, w, 0)
            if s.id in d:
                del d[s.id]
            else:
                d[s.id] = s
        else:
            if t.id in d:
                del d[t.id]
            else:
                d[t.id] = t
    if not d:
        return const(c, w)
    ids = sorted(d)
    if len(ids) == 1 and c == 0:
        return d[ids[0]]
    return _mk('xor', tuple([d[i] for i in ids]), w, c)


def _aor(op, unit, zero, a, b):
    w = a.w
    m = (1 << w) - 1
    unit &= m
    zero &= m
    if a is b:
        return a
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'const':
            return const(a.aux & b.aux if op == 'and' else a.aux | b.aux, w)
        if b.aux == unit:
            return a
        if b.aux == zero:
            return b
        if len(_runs(b.aux, w)) <= 8:
            return _split(and_ if op == 'and' else or_, a, b)
    elif _has_const_seg(a) or _has_const_seg(b):
        return _split(and_ if op == 'and' else or_, a, b)
    d = {}
    c = unit
    for t in (a, b):
        if t.op == 'const':
            c = c & t.aux if op == 'and' else c | t.aux
        elif t.op == op:
            c = c & t.aux if op == 'and' else c | t.aux
            for s in t.args:
                d[s.id] = s
        else:
            d[t.id] = t
    if c == zero:
        return const(c, w)
    if w == 1:
        for s in d.values():
            if s.op == 'xor' and len(s.args) == 1 and s.aux == 1 and s.args[0].id in d:
                return const(zero, 1)
    ids = sorted(d)
    if len(ids) == 1 and c == unit:
        return d[ids[0]]
    return _mk(op, tuple([d[i] for i in ids]), w, c)


def and_(a, b):
    return _aor('and', -1, 0, a, b)


def or_(a, b):
    return _aor('or', 0, -1, a, b)


# ---------------------------------------------------------------- structure
def _zx(s):
    """a zero-extended value"""
    return s.op == 'concat' and len(s.args) == 2 and s.args[0].op == 'const' and s.args[0].aux == 0


def extract(x, hi, lo):
    w = hi - lo + 1
    if w == x.w:
        return x
    assert 0 <= lo <= hi < x.w, (hi, lo, x.w)
    o = x.op
    if o == 'const':
        return const(x.aux >> lo, w)
    if o == 'extract':
        l0 = x.aux
        return extract(x.args[0], hi + l0, lo + l0)
    if o == 'concat':
        parts = []
        top = x.w
        for s in x.args:
            shi, slo = top - 1, top - s.w
            top = slo
            if slo > hi:
                continue
            if shi < lo:
                break
            a, b = min(hi, shi), max(lo, slo)
            parts.append(extract(s, a - slo, b - slo))
        return concat(parts)
    if o == 'rotl':
        k = x.aux
        y = x.args[0]
        n = x.w
        # bit i of x = bit (i-k) mod n of y
        l2 = (lo - k) % n
        if l2 + w <= n:
            return extract(y, l2 + w - 1, l2)
        return _mk('extract', (x,), w, lo) if False else concat(
            [extract(y, l2 + w - 1 - n, 0), extract(y, n - 1, l2)])
    if o == 'sext':
        if hi < x.args[0].w:
            return extract(x.args[0], hi, lo)
    if o == 'ite' and (x.args[1].op == 'const' or x.args[2].op == 'const'):
        return ite(x.args[0], extract(x.args[1], hi, lo), extract(x.args[2], hi, lo))
    if o == 'lin' and len(x.args) <= 4 and all(
            s.op == 'concat' and (s.args[-1].w > hi or _zx(s) or s.args[0].op == 'const' and s.args[0].aux == 0 and hi + 1 >= s.w - s.args[0].w)
            for s in x.args):
        if hi + 1 < x.w:
            co, c = x.aux
            y = lin([(k, extract(s, hi, 0)) for k, s in zip(co, x.args)], c, hi + 1)
            return extract(y, hi, lo)
        mx = urange(x)[1].bit_length()
        if lo < mx <= hi:
            return concat([const(0, hi + 1 - mx), extract(x, mx - 1, lo)])
    if o == 'xor' and w < x.w <= 64 and (any(_zx(s) and 2 * s.args[0].w >= s.w for s in x.args) or all(
            s.op in ('extract', 'concat') for s in x.args) and (x.w <= 16 or any(s.op == 'concat' for s in x.args))):
        r = const(x.aux >> lo, w)
        for s in x.args:
            r = xor(r, extract(s, hi, lo))
        return r
    if o in ('xor', 'and', 'or') and w < x.w and any(s.op == 'concat' for s in x.args) \
            and all(s.op in ('concat', 'var') for s in x.args) and o != 'xor':
        f = and_ if o == 'and' else or_
        r = const(x.aux >> lo, w)
        for s in x.args:
            r = f(r, extract(s, hi, lo))
        return r
    return _mk('extract', (x,), w, lo)


def concat(parts):
    """parts: high to low"""
    out = []
    for p in parts:
        if p.op == 'concat':
            for q in p.args:
                _push(out, q)
        else:
            _push(out, p)
    if len(out) == 1:
        return out[0]
    w = 0
    for p in out:
        w += p.w
    if len(out) == 2:
        p, q = out
        x = None
        if p.op == 'extract' and q.op == 'extract' and p.args[0] is q.args[0]:
            x = p.args[0]
            if x.w == w and p.aux == 0 and q.aux + q.w == w:
                return rotl(x, q.w)
    if w <= 64:
        k = len(out[0].args) if out[0].op == 'xor' else 0
        if k and all(p.op == 'xor' and len(p.args) == k for p in out):
            r = _columns(out, w)
            if r is not None:
                return r
    return _mk('concat', tuple(out), w)


def _columns(out, w):
    """concat of xors of slices of the same words = xor of the re-assembled words"""
    cols = {}
    order = []
    c = 0
    for n, p in enumerate(out):
        c = (c << p.w) | p.aux
        for s in p.args:
            b = s.args[0].id if s.op in ('extract', 'rotl') else s.id
            l = cols.get(b)
            if l is None:
                if n:
                    return None
                l = cols[b] = []
                order.append(b)
            if len(l) != n:
                return None
            l.append(s)
    r = const(c, w)
    for b in order:
        if len(cols[b]) != len(out):
            return None
        x = concat(cols[b])
        if x.op == 'concat':
            return None
        r = xor(r, x)
    return r


def _push(out, p):
    if out:
        q = out[-1]
        if q.op == 'const':
            if p.op == 'const':
                out[-1] = const((q.aux << p.w) | p.aux, q.w + p.w)
                return
        elif q.op == 'extract':
            x = q.args[0]
            if p.op == 'extract' and p.args[0] is x and p.aux + p.w == q.aux:
                out[-1] = extract(x, q.aux + q.w - 1, p.aux)
                return
    out.append(p)


def zext(a, w):
    if w == a.w:
        return a
    if a.op == 'const':
        return const(a.aux, w)
    return concat([const(0, w - a.w), a])


def sext(a, w):
    if w == a.w:
        return a
    if a.op == 'const':
        return const(sgn(a.aux, a.w), w)
    if a.op == 'concat' and a.args[0].op == 'const':
        b = a.args[0].aux >> (a.args[0].w - 1)
        return concat([const(-b, w - a.w), a])
    return _mk('sext', (a,), w)


def rotl(x, k):
    k %= x.w
    if k == 0:
        return x
    if x.op == 'const':
        v = x.aux
        return const((v << k) | (v >> (x.w - k)), x.w)
    if x.op == 'rotl':
        return rotl(x.args[0], x.aux + k)
    if x.op == 'xor':
        r = const((x.aux << k) | (x.aux >> (x.w - k)), x.w)
        for s in x.args:
            r = xor(r, rotl(s, k))
        return r
    if x.op == 'concat':
        w = x.w
        return concat([extract(x, w - 1 - k, 0), extract(x, w - 1, w - k)])
    return _mk('rotl', (x,), x.w, k)


def shl_c(x, k):
    if k == 0:
        return x
    if k >= x.w:
        return const(0, x.w)
    return concat([extract(x, x.w - 1 - k, 0), const(0, k)])


def lshr_c(x, k):
    if k == 0:
        return x
    if k >= x.w:
        return const(0, x.w)
    return concat([const(0, k), extract(x, x.w - 1, k)])


def ashr_c(x, k):
    if k == 0:
        return x
    k = min(k, x.w - 1)
    return sext(extract(x, x.w - 1, k), x.w)


def shl(a, b):
    if b.op == 'const':
        return shl_c(a, b.aux)
    return _mk('shl', (a, b), a.w)


def lshr(a, b):
    if b.op == 'const':
        return lshr_c(a, b.aux)
    return _mk('lshr', (a, b), a.w)


def ashr(a, b):
    if b.op == 'const':
        return ashr_c(a, b.aux)
    return _mk('ashr', (a, b), a.w)


# ---------------------------------------------------------------- predicates
def eq(a, b):
    if a is b:
        return const(1, 1)
    w = a.w
    if a.op == 'const' and b.op == 'const':
        return const(int(a.aux == b.aux), 1)
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if w == 1:
            return a if b.aux else not_(a)
        la, ha = urange(a)
        if b.aux < la or b.aux > ha:
            return const(0, 1)
        if a.op == 'lin' and len(a.args) == 1 and a.aux[0][0] == 1:
            return eq(a.args[0], const(b.aux - a.aux[1], w))
        if a.op == 'xor' and len(a.args) == 1:
            return eq(a.args[0], const(b.aux ^ a.aux, w))
        if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == 'concat':
            r = const(1, 1)
            hi = w - 1
            rest = []
            for s in a.args:
                k = (b.aux >> (hi - s.w + 1)) & ((1 << s.w) - 1)
                hi -= s.w
                if s.op == 'const':
                    if s.aux != k:
                        return const(0, 1)
                else:
                    rest.append((s, k))
            if len(rest) < len(a.args) or len(rest) == 1:
                for s, k in rest:
                    r = and_(r, eq(s, const(k, s.w)))
                return r
    elif a.op == 'lin' and b.op == 'lin' or a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'const':
            return const(int(d.aux == 0), 1)
    if a.id > b.id and b.op != 'const':
        a, b = b, a
    return _mk('eq', (a, b), 1)


def ult(a, b):
    if a is b:
        return const(0, 1)
    if a.op == 'const' and b.op == 'const':
        return const(int(a.aux < b.aux), 1)
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < lb:
        return const(1, 1)
    if la >= hb:
        return const(0, 1)
    if a.op == 'concat' and b.op == 'concat' and a.args[0] is b.args[0]:
        k = a.args[0].w
        return ult(extract(a, a.w - 1 - k, 0), extract(b, b.w - 1 - k, 0))
    # strip common leading zeros
    if a.op == 'concat' and a.args[0].op == 'const' and a.args[0].aux == 0:
        k = a.args[0].w
        if b.op == 'const' and b.aux >> (b.w - k) == 0 and k < a.w:
            return ult(extract(a, a.w - 1 - k, 0), const(b.aux, a.w - k))
    if b.op == 'concat' and b.args[0].op == 'const' and b.args[0].aux == 0:
        k = b.args[0].w
        if a.op == 'const' and a.aux >> (a.w - k) == 0 and k < a.w:
            return ult(const(a.aux, a.w - k), extract(b, a.w - 1 - k, 0))
    # canonicalise comparisons with constants so that a test and its negation
    # written with different bounds share one atom
    if a.op == 'const':        # c < x  ==  !(x < c+1)
        return not_(_mk('ult', (b, const(a.aux + 1, a.w)), 1))
    if b.op == 'const' and b.aux == 1:
        return eq(a, const(0, a.w))
    return _mk('ult', (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return const(0, 1)
    w = a.w
    if a.op == 'const' and b.op == 'const':
        return const(int(sgn(a.aux, w) < sgn(b.aux, w)), 1)
    h = 1 << (w - 1)
    la, ha = urange(a)
    lb, hb = urange(b)
    if ha < h and hb < h:
        return ult(a, b)
    if b.op == 'const' and b.aux == 0:
        return extract(a, w - 1, w - 1)
    if a.op == 'const' and a.aux == (1 << w) - 1:
        return not_(extract(b, w - 1, w - 1))
    return _mk('slt', (a, b), 1)


def ite(c, a, b):
    if c.op == 'const':
        return a if c.aux else b
    if a is b:
        return a
    if c.op == 'xor' and c.aux == 1 and len(c.args) == 1:
        return ite(c.args[0], b, a)
    if a.w == 1 and not is_array(a):
        if a.op == 'const' and b.op == 'const':
            return c if a.aux else not_(c)
        if a.op == 'const':
            return or_(c, b) if a.aux else and_(not_(c), b)
        if b.op == 'const':
            return or_(not_(c), a) if b.aux else and_(c, a)
    return _mk('ite', (c, a, b), a.w)


def bool_to_bv(c, w):
    return zext(c, w)


# ---------------------------------------------------------------- arrays
# op 'avar'   aux=(name, n)         arbitrary array
# op 'alist'  args = chunk nodes    fully enumerated array  (aux = n)
# op 'achunk' args = element nodes
# op 'astore' args=(arr, idx, val)  aux = n
CH = 32
def is_array(a):
    return a.op in ('avar', 'alist', 'astore')


def alen(a):
    return a.aux[1] if a.op == 'avar' else a.aux


def avar(name, n, w):
    return _mk('avar', (), w, (name, n))


def alist(elems):
    w = elems[0].w
    n = len(elems)
    # an untouched arbitrary array
    e0 = elems[0]
    if e0.op == 'aselect' and e0.args[0].op == 'avar' and alen(e0.args[0]) == n:
        A = e0.args[0]
        if all(e.op == 'aselect' and e.args[0] is A and e.args[1].op == 'const' and e.args[1].aux == i
               for i, e in enumerate(elems)):
            return A
    ch = tuple([_mk('achunk', tuple(elems[i:i + CH]), w, None) for i in range(0, n, CH)])
    return _mk('alist', ch, w, n)


def idxw(n):
    return max(1, (n - 1).bit_length())


def aselect(A, i):
    """i: index node of width idxw(n)"""
    n = alen(A)
    if i.op == 'const':
        k = i.aux
        while True:
            if A.op == 'alist':
                return A.args[k // CH].args[k % CH]
            if A.op == 'astore':
                j = A.args[1]
                if j.op == 'const':
                    if j.aux == k:
                        return A.args[2]
                    A = A.args[0]
                    continue
                lo, hi = urange(j)
                if k < lo or k > hi:
                    A = A.args[0]
                    continue
            break
    else:
        while A.op == 'astore':
            j = A.args[1]
            if j is i:
                return A.args[2]
            e = eq(i, j)
            if e.op == 'const' and e.aux == 0:
                A = A.args[0]
                continue
            break
    return _mk('aselect', (A, i), A.w)


def astore(A, i, v):
    n = alen(A)
    if i.op == 'const' and A.op == 'alist':
        k = i.aux
        c = A.args[k // CH]
        if c.args[k % CH] is v:
            return A
        ne = list(c.args)
        ne[k % CH] = v
        nc = _mk('achunk', tuple(ne), A.w, None)
        na = list(A.args)
        na[k // CH] = nc
        return _mk('alist', tuple(na), A.w, n)
    if v.op == 'aselect' and v.args[0] is A and v.args[1] is i:
        return A
    if A.op == 'astore':
        B, j, u = A.args
        if j is i:
            return astore(B, i, v)
        e = eq(i, j)
        if e.op == 'const' and e.aux == 0:
            if i.id < j.id:
                return astore(astore(B, i, v), j, u)
        else:
            # swap: store(store(B,j,B[i]),i,B[j]) is symmetric in i and j
            if u.op == 'aselect' and v.op == 'aselect' and u.args[0] is B and v.args[0] is B \
                    and u.args[1] is i and v.args[1] is j and i.id < j.id:
                return _mk('astore', (_mk('astore', (B, i, v), A.w, n), j, u), A.w, n)
    return _mk('astore', (A, i, v), A.w, n)


# ---------------------------------------------------------------- ranges
def urange(n):
    r = n._rng
    if r is not None:
        return r
    m = (1 << n.w) - 1
    o = n.op
    r = (0, m)
    if o == 'const':
        r = (n.aux, n.aux)
    elif o == 'concat':
        lo = hi = 0
        for s in n.args:
            a, b = urange(s)
            lo = (lo << s.w) | a
            hi = (hi << s.w) | b
        r = (lo, hi)
    elif o == 'lin':
        co, c = n.aux
        lo = hi = c
        for k, s in zip(co, n.args):
            a, b = urange(s)
            lo += k * a
            hi += k * b
        if hi <= m:
            r = (lo, hi)
        else:
            lo = hi = c if c <= m >> 1 else c - m - 1
            for k, s in zip(co, n.args):
                a, b = urange(s)
                if k > m >> 1:
                    k -= m + 1
                    a, b = b, a
                lo += k * a
                hi += k * b
            if lo >= 0 and hi <= m:
                r = (lo, hi)
    elif o == 'and':
        r = (0, min([n.aux] + [urange(s)[1] for s in n.args]))
    elif o == 'ite':
        a, b = urange(n.args[1]), urange(n.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif o == 'urem':
        if n.args[1].op == 'const' and n.args[1].aux:
            r = (0, min(n.args[1].aux - 1, urange(n.args[0])[1]))
    elif o == 'udiv':
        if n.args[1].op == 'const' and n.args[1].aux:
            a, b = urange(n.args[0])
            r = (a // n.args[1].aux, b // n.args[1].aux)
    elif o == 'lshr':
        r = (0, urange(n.args[0])[1])
    elif o == 'extract':
        x = n.args[0]
        a, b = urange(x)
        if b >> (n.aux + n.w) == a >> (n.aux + n.w):
            r = ((a >> n.aux) & m, (b >> n.aux) & m)
            if r[0] > r[1]:
                r = (0, m)
    elif o == 'mul':
        a, b = urange(n.args[0])
        c, d = urange(n.args[1])
        if b * d <= m:
            r = (a * c, b * d)
    elif o == 'aselect':
        A = n.args[0]
        r = (0, m)
    n._rng = r
    return r


def trailing_zeros(n):
    """provable number of trailing zero bits"""
    o = n.op
    if o == 'const':
        if n.aux == 0:
            return n.w
        return (n.aux & -n.aux).bit_length() - 1
    if o == 'concat':
        t = 0
        for s in reversed(n.args):
            k = trailing_zeros(s)
            t += k
            if k < s.w:
                break
        return t
    if o == 'lin':
        co, c = n.aux
        t = trailing_zeros(const(c, n.w)) if c else n.w
        for k, s in zip(co, n.args):
            t = min(t, ((k & -k).bit_length() - 1) + trailing_zeros(s))
        return min(t, n.w)
    if o == 'ite':
        return min(trailing_zeros(n.args[1]), trailing_zeros(n.args[2]))
    return 0


# ---------------------------------------------------------------- traversal
def topo(roots, stop=None):
    """nodes of the cones, arguments first (iterative)"""
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    while st:
        n, f = st.pop()
        if f:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, 1))
        if stop is not None and n.id in stop:
            continue
        for a in n.args:
            if a.id not in seen:
                st.append((a, 0))
    return out


def support(roots):
    s = {}
    for n in topo(roots):
        if n.op in ('var', 'avar'):
            s[n.id] = n
    return list(s.values())


def size(roots):
    return len(topo(roots))


def rebuild(n, args):
    """the same operation on new arguments, re-normalised"""
    o = n.op
    if o in ('const', 'var', 'avar'):
        return n
    same = True
    for a, b in zip(n.args, args):
        if a is not b:
            same = False
            break
    if same:
        return n
    if o == 'lin':
        co, c = n.aux
        return lin(list(zip(co, args)), c, n.w)
    if o == 'xor':
        r = const(n.aux, n.w)
        for a in args:
            r = xor(r, a)
        return r
    if o == 'and':
        r = const(n.aux, n.w)
        for a in args:
            r = and_(r, a)
        return r
    if o == 'or':
        r = const(n.aux, n.w)
        for a in args:
            r = or_(r, a)
        return r
    if o == 'concat':
        return concat(list(args))
    if o == 'extract':
        return extract(args[0], n.aux + n.w - 1, n.aux)
    if o == 'rotl':
        return rotl(args[0], n.aux)
    if o == 'alist':
        el = []
        for a in args:
            el.extend(a.args)
        return alist(el)
    if o == 'achunk':
        return _mk('achunk', tuple(args), n.w, None)
    f = {'mul': mul, 'udiv': udiv, 'urem': urem, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
         'eq': eq, 'ult': ult, 'slt': slt, 'ite': ite, 'aselect': aselect, 'astore': astore}.get(o)
    if f:
        return f(*args)
    if o == 'sext':
        return sext(args[0], n.w)
    return _mk(o, tuple(args), n.w, n.aux)


def substitute(roots, mapping):
    """mapping: {id: node}"""
    m = dict(mapping)
    for n in topo(roots, stop=set(mapping)):
        if n.id not in m:
            m[n.id] = rebuild(n, [m[a.id] for a in n.args])
    return [m[r.id] for r in roots]


def push_bits(x):
    """push extracts through bitwise operators (used when comparing bytes)"""
    if x.op == 'extract':
        y = x.args[0]
        if y.op in ('xor', 'and', 'or'):
            hi, lo = x.aux + x.w - 1, x.aux
            r = const(y.aux >> lo, x.w)
            f = {'xor': xor, 'and': and_, 'or': or_}[y.op]
            for s in y.args:
                r = f(r, push_bits(extract(s, hi, lo)))
            return r
    elif x.op == 'xor' and len(x.args) <= 8:
        r = const(x.aux, x.w)
        for s in x.args:
            r = xor(r, push_bits(s))
        return r
    return x


# ---------------------------------------------------------------- evaluation
def _mask(w):
    return (1 << w) - 1


class Evaluator:
    """evaluates terms on a batch of concrete assignments.

    env(node) -> list of ints (var) or list of lists (avar)"""

    def __init__(self, env, nsamp):
        self.env = env
        self.n = nsamp
        self.memo = {}

    def run(self, roots):
        memo = self.memo
        order = topo(roots, stop=memo)
        for n in order:
            if n.id not in memo:
                memo[n.id] = self.ev(n, [memo[a.id] for a in n.args])
        return [memo[r.id] for r in roots]

    def ev(self, n, a):
        o, w, aux = n.op, n.w, n.aux
        m = (1 << w) - 1
        R = range(self.n)
        if o == 'const':
            return [aux] * self.n
        if o in ('var', 'avar'):
            return self.env(n)
        if o == 'lin':
            co, c = aux
            acc = [c] * self.n
            for k, x in zip(co, a):
                if k == 1:
                    acc = [p + q for p, q in zip(acc, x)]
                else:
                    acc = [p + k * q for p, q in zip(acc, x)]
            return [p & m for p in acc]
        if o == 'xor':
            acc = a[0]
            for x in a[1:]:
                acc = [p ^ q for p, q in zip(acc, x)]
            return [p ^ aux for p in acc] if aux else acc
        if o == 'and':
            acc = [aux] * self.n
            for x in a:
                acc = [p & q for p, q in zip(acc, x)]
            return acc
        if o == 'or':
            acc = [aux] * self.n
            for x in a:
                acc = [p | q for p, q in zip(acc, x)]
            return acc
        if o == 'rotl':
            s = w - aux
            return [((p << aux) | (p >> s)) & m for p in a[0]]
        if o == 'extract':
            return [(p >> aux) & m for p in a[0]]
        if o == 'concat':
            acc = a[0]
            for x, s in zip(a[1:], n.args[1:]):
                k = s.w
                acc = [(p << k) | q for p, q in zip(acc, x)]
            return acc
        if o == 'mul':
            return [(p * q) & m for p, q in zip(*a)]
        if o == 'udiv':
            return [p // q if q else m for p, q in zip(*a)]
        if o == 'urem':
            return [p % q if q else p for p, q in zip(*a)]
        if o == 'shl':
            return [(p << q) & m if q < w else 0 for p, q in zip(*a)]
        if o == 'lshr':
            return [p >> q if q < w else 0 for p, q in zip(*a)]
        if o == 'ashr':
            return [(sgn(p, w) >> min(q, w - 1)) & m for p, q in zip(*a)]
        if o == 'sext':
            k = n.args[0].w
            return [sgn(p, k) & m for p in a[0]]
        if o == 'eq':
            return [int(p == q) for p, q in zip(*a)]
        if o == 'ult':
            return [int(p < q) for p, q in zip(*a)]
        if o == 'slt':
            k = n.args[0].w
            return [int(sgn(p, k) < sgn(q, k)) for p, q in zip(*a)]
        if o == 'ite':
            return [q if p else r for p, q, r in zip(*a)]
        if o == 'achunk':
            return [tuple(x[i] for x in a) for i in R]
        if o == 'alist':
            out = []
            for i in R:
                t = ()
                for x in a:
                    t += x[i]
                out.append(t)
            return out
        if o == 'aselect':
            return [A[i] if i < len(A) else 0 for A, i in zip(*a)]
        if o == 'astore':
            out = []
            for A, i, v in zip(*a):
                if i < len(A):
                    out.append(A[:i] + (v,) + A[i + 1:])
                else:
                    out.append(A)
            return out
        raise NotImplementedError(o)


def show(n, d=3):
    if n.op == 'const':
        return hex(n.aux)
    if n.op in ('var', 'avar'):
        return str(n.aux)
    if d == 0:
        return '#%d' % n.id
    return '%s%s%s(%s)' % (n.op, n.w, '' if n.aux is None else repr(n.aux) if not isinstance(n.aux, int) else '[%#x]' % n.aux,
                           ', '.join(show(a, d - 1) for a in n.args[:6]) + (',...' if len(n.args) > 6 else ''))
