"""Specification of the ChaCha family, written from RFC 8439, Bernstein's
ChaCha paper (64-bit counter variant) and draft-irtf-cfrg-xchacha-03.
All functions work on Nodes (symbolic or constant)."""
from engine import terms as T

SIGMA = (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)


def le32(bs):
    return T.concat([bs[3], bs[2], bs[1], bs[0]])


def words(bs):
    return [le32(bs[i:i + 4]) for i in range(0, len(bs), 4)]


def bytes_of(ws):
    return [w.byte(i) for w in ws for i in range(w.w // 8)]


def quarter(x, a, b, c, d):
    x[a] = x[a] + x[b]; x[d] = (x[d] ^ x[a]).rotl(16)
    x[c] = x[c] + x[d]; x[b] = (x[b] ^ x[c]).rotl(12)
    x[a] = x[a] + x[b]; x[d] = (x[d] ^ x[a]).rotl(8)
    x[c] = x[c] + x[d]; x[b] = (x[b] ^ x[c]).rotl(7)


def permute(x, rounds):
    x = list(x)
    for _ in range(rounds // 2):
        quarter(x, 0, 4, 8, 12)
        quarter(x, 1, 5, 9, 13)
        quarter(x, 2, 6, 10, 14)
        quarter(x, 3, 7, 11, 15)
        quarter(x, 0, 5, 10, 15)
        quarter(x, 1, 6, 11, 12)
        quarter(x, 2, 7, 8, 13)
        quarter(x, 3, 4, 9, 14)
    return x


def block_words(state, rounds):
    return [a + b for a, b in zip(permute(state, rounds), state)]


def sigma():
    return [T.const(c, 32) for c in SIGMA]


def state_ietf(key, nonce, ctr):
    """key 32 bytes, nonce 12 bytes, ctr 32-bit"""
    return sigma() + words(key) + [ctr] + words(nonce)


def state_djb(key, nonce, ctr):
    """key 32 bytes, nonce 8 bytes, ctr 64-bit"""
    return sigma() + words(key) + [ctr.bits(31, 0), ctr.bits(63, 32)] + words(nonce)


def block_ietf(key, nonce, ctr, rounds):
    return bytes_of(block_words(state_ietf(key, nonce, ctr), rounds))


def block_djb(key, nonce, ctr, rounds):
    return bytes_of(block_words(state_djb(key, nonce, ctr), rounds))


def hchacha(key, inp, rounds):
    x = permute(sigma() + words(key) + words(inp), rounds)
    return bytes_of(x[0:4] + x[12:16])


def xchacha_params(key, nonce24, rounds):
    """-> (subkey, 12-byte nonce) of the IETF cipher"""
    return hchacha(key, nonce24[:16], rounds), [T.const(0, 8)] * 4 + list(nonce24[16:24])
