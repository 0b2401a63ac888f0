"""Specification of the Salsa20 family, written from Bernstein's Salsa20
specification and "Extending the Salsa20 nonce"."""
from engine import terms as T
from .chacha_spec import words, bytes_of, sigma


def qr(y0, y1, y2, y3):
    z1 = y1 ^ (y0 + y3).rotl(7)
    z2 = y2 ^ (z1 + y0).rotl(9)
    z3 = y3 ^ (z2 + z1).rotl(13)
    z0 = y0 ^ (z3 + z2).rotl(18)
    return z0, z1, z2, z3


def columnround(x):
    x = list(x)
    x[0], x[4], x[8], x[12] = qr(x[0], x[4], x[8], x[12])
    x[5], x[9], x[13], x[1] = qr(x[5], x[9], x[13], x[1])
    x[10], x[14], x[2], x[6] = qr(x[10], x[14], x[2], x[6])
    x[15], x[3], x[7], x[11] = qr(x[15], x[3], x[7], x[11])
    return x


def rowround(x):
    x = list(x)
    x[0], x[1], x[2], x[3] = qr(x[0], x[1], x[2], x[3])
    x[5], x[6], x[7], x[4] = qr(x[5], x[6], x[7], x[4])
    x[10], x[11], x[8], x[9] = qr(x[10], x[11], x[8], x[9])
    x[15], x[12], x[13], x[14] = qr(x[15], x[12], x[13], x[14])
    return x


def permute(x, rounds):
    for _ in range(rounds // 2):
        x = rowround(columnround(x))
    return x


def block_of_state(st, rounds):
    return bytes_of([a + b for a, b in zip(permute(st, rounds), st)])


def state(key, in16):
    """Salsa20 expansion of a 32-byte key and 16 bytes (nonce, counter)"""
    s = sigma()
    k = words(key)
    n = words(in16)
    return [s[0]] + k[:4] + [s[1]] + n + [s[2]] + k[4:] + [s[3]]


def block(key, nonce8, ctr, rounds):
    return block_of_state(state(key, list(nonce8) + [ctr.byte(i) for i in range(8)]), rounds)


def hsalsa(key, in16, rounds):
    x = permute(state(key, in16), rounds)
    return bytes_of([x[0], x[5], x[10], x[15], x[6], x[7], x[8], x[9]])


def xsalsa_params(key, nonce24, rounds):
    return hsalsa(key, nonce24[:16], rounds), nonce24[16:24]
