"""RFC 4503 (Rabbit) over terms, written from the RFC."""
from engine import terms as T

A = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3]


def rotl(x, k):
    return T.rotl(x, k)


def counter(c, carry):
    """RFC 4503 2.5: c: 8 words, carry: 1 bit"""
    out = []
    b = carry
    for j in range(8):
        t = c[j].zext(33) + T.const(A[j], 33) + b.zext(33)
        b = t.bits(32, 32)
        out.append(t.bits(31, 0))
    return out, b


def g(u, v):
    """2.6: LSW(square(u + v mod 2^32)) ^ MSW(...)"""
    s = (u + v).zext(64)
    q = T.mul(s, s)
    return q.bits(31, 0) ^ q.bits(63, 32)


def next_state(x, c, carry):
    c, carry = counter(c, carry)
    G = [g(x[j], c[j]) for j in range(8)]
    X = [None] * 8
    for j in range(8):
        if j % 2 == 0:
            X[j] = G[j] + rotl(G[(j - 1) % 8], 16) + rotl(G[(j - 2) % 8], 16)
        else:
            X[j] = G[j] + rotl(G[(j - 1) % 8], 8) + G[(j - 2) % 8]
    return X, c, carry


def half(w, hi):
    return w.bits(31, 16) if hi else w.bits(15, 0)


def extract(x):
    """2.7, as 16 bytes (RFC appendix: S[15..0] is the first output byte)"""
    s = [half(x[0], 0) ^ half(x[5], 1), half(x[0], 1) ^ half(x[3], 0),
         half(x[2], 0) ^ half(x[7], 1), half(x[2], 1) ^ half(x[5], 0),
         half(x[4], 0) ^ half(x[1], 1), half(x[4], 1) ^ half(x[7], 0),
         half(x[6], 0) ^ half(x[3], 1), half(x[6], 1) ^ half(x[1], 0)]
    out = []
    for w in s:
        out += [w.byte(0), w.byte(1)]
    return out


def setup_key(key):
    """2.3: key: 16 bytes, byte 0 holds K[7..0]"""
    k = [T.concat([key[2 * i + 1], key[2 * i]]) for i in range(8)]
    x, c = [], []
    for j in range(8):
        if j % 2 == 0:
            x.append(T.concat([k[(j + 1) % 8], k[j]]))
            c.append(T.concat([k[(j + 4) % 8], k[(j + 5) % 8]]))
        else:
            x.append(T.concat([k[(j + 5) % 8], k[(j + 4) % 8]]))
            c.append(T.concat([k[j], k[(j + 1) % 8]]))
    b = T.const(0, 1)
    for _ in range(4):
        x, c, b = next_state(x, c, b)
    c = [c[j] ^ x[(j + 4) % 8] for j in range(8)]
    return x, c, b


def setup_iv(st, iv):
    """2.4"""
    x, c, b = st
    w = [T.concat([iv[2 * i + 1], iv[2 * i]]) for i in range(4)]   # IV[15..0], IV[31..16], ...
    i0 = T.concat([w[1], w[0]])       # IV[31..0]
    i1 = T.concat([w[3], w[1]])       # IV[63..48] || IV[31..16]
    i2 = T.concat([w[3], w[2]])       # IV[63..32]
    i3 = T.concat([w[2], w[0]])       # IV[47..32] || IV[15..0]
    c = [cj ^ [i0, i1, i2, i3][j % 4] for j, cj in enumerate(c)]
    for _ in range(4):
        x, c, b = next_state(x, c, b)
    return x, c, b
