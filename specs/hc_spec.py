"""HC-256 (Wu, FSE 2004) over terms, written from the paper."""
from engine import terms as T


def rotr(x, k):
    return T.rotl(x, 32 - k)


def f1(x):
    return rotr(x, 7) ^ rotr(x, 18) ^ T.lshr_c(x, 3)


def f2(x):
    return rotr(x, 17) ^ rotr(x, 19) ^ T.lshr_c(x, 10)


def sel(A, i):
    return T.aselect(A, i)


def gfun(tab, x, y):
    return (rotr(x, 10) ^ rotr(y, 23)) + sel(tab, (x ^ y).bits(9, 0))


def hfun(tab, x):
    r = None
    for k in range(4):
        v = sel(tab, T.concat([T.const(k, 2), x.bits(8 * k + 7, 8 * k)]))
        r = v if r is None else r + v
    return r


def step(P, Q, j, phase):
    """one step with table index j (10-bit term) in the P phase (0) or the Q phase (1) -> (P, Q, output word)"""
    X, Y = (P, Q) if phase == 0 else (Q, P)
    at = lambda d: sel(X, j - T.const(d, 10))
    n = sel(X, j) + at(10) + gfun(Y, at(3), at(1023))
    T.opaque(n)
    X = T.astore(X, j, n)
    s = hfun(Y, sel(X, j - T.const(12, 10))) ^ sel(X, j)
    return (X, Y, s) if phase == 0 else (Y, X, s)


def init(key, iv):
    """key, iv: 32 bytes each -> (P, Q) after the 4096 warm-up steps, table index 0"""
    wd = lambda b, i: T.concat([b[4 * i + 3], b[4 * i + 2], b[4 * i + 1], b[4 * i]])
    W = [wd(key, i) for i in range(8)] + [wd(iv, i) for i in range(8)]
    for i in range(16, 2560):
        W.append(T.opaque(f2(W[i - 2]) + W[i - 7] + f1(W[i - 15]) + W[i - 16] + T.const(i, 32)))
    P = T.alist(W[512:1536])
    Q = T.alist(W[1536:2560])
    for i in range(4096):
        P, Q, _ = step(P, Q, T.const(i % 1024, 10), (i // 1024) % 2)
    return P, Q
