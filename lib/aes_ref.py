"""FIPS-197 from the text of the standard (no tables copied from anywhere)."""


def xt(a):
    a <<= 1
    return (a ^ 0x11B) & 0xFF if a & 0x100 else a


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = xt(a)
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        if inv[a]:
            continue
        for b in range(1, 256):
            if gmul(a, b) == 1:
                inv[a], inv[b] = b, a
                break
    s = []
    for a in range(256):
        x, r = inv[a], 0
        for i in range(8):
            bit = (x >> i) ^ (x >> ((i + 4) % 8)) ^ (x >> ((i + 5) % 8)) ^ (x >> ((i + 6) % 8)) ^ (x >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        s.append(r)
    return s


S = _sbox()
SI = [0] * 256
for _i, _v in enumerate(S):
    SI[_v] = _i
M = {k: [gmul(x, k) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}


def expand(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [S[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def encrypt(key, blk):
    ks = expand(key)
    s = [a ^ b for a, b in zip(blk, ks[0])]
    for r in range(1, len(ks)):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < len(ks) - 1:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for i in range(4):
                    o.append(M[2][a[i]] ^ M[3][a[(i + 1) % 4]] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
            s = o
        s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)


def decrypt(key, blk):
    ks = expand(key)
    s = [a ^ b for a, b in zip(blk, ks[-1])]
    for r in range(len(ks) - 2, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [SI[x] for x in s]
        s = [a ^ b for a, b in zip(s, ks[r])]
        if r:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for i in range(4):
                    o.append(M[14][a[i]] ^ M[11][a[(i + 1) % 4]] ^ M[13][a[(i + 2) % 4]] ^ M[9][a[(i + 3) % 4]])
            s = o
    return bytes(s)


assert encrypt(bytes(range(16)), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"
assert encrypt(bytes(range(24)), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "dda97ca4864cdfe06eaf70a0ec0d7191"
assert encrypt(bytes(range(32)), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
assert decrypt(bytes(range(32)), bytes.fromhex("8ea2b7ca516745bfeafc49904b496089")).hex() == "00112233445566778899aabbccddeeff"
