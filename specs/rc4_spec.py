"""RC4 over terms."""
from engine import terms as T


def swap(S, i, j):
    a, b = T.aselect(S, i), T.aselect(S, j)
    return T.astore(T.astore(S, i, b), j, a)


def ksa(key):
    S = T.alist([T.const(i, 8) for i in range(256)])
    j = T.const(0, 8)
    for i in range(256):
        ci = T.const(i, 8)
        j = j + T.aselect(S, ci) + key[i % len(key)]
        S = swap(S, ci, j)
    return S


def prga(S, i, j):
    i = i + T.const(1, 8)
    j = j + T.aselect(S, i)
    S = swap(S, i, j)
    return S, i, j, T.aselect(S, T.aselect(S, i) + T.aselect(S, j))
