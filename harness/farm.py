"""Independent pure-Python Farmhash Fingerprint64 (farmhashna::Hash64), the reference for C06."""

M = (1 << 64) - 1
K0, K1, K2 = 0xC3A5C85C97CB3127, 0xB492B66FBE98F273, 0x9AE16A3B2F90404F


def f64(s, i):
    return int.from_bytes(s[i : i + 8], "little")


def f32(s, i):
    return int.from_bytes(s[i : i + 4], "little")


def rot(v, n):
    return v if n == 0 else ((v >> n) | (v << (64 - n))) & M


def smix(v):
    return v ^ (v >> 47)


def h16(u, v, mul):
    a = ((u ^ v) * mul) & M
    a ^= a >> 47
    b = ((v ^ a) * mul) & M
    b ^= b >> 47
    return (b * mul) & M


def weak(w, x, y, z, a, b):
    a = (a + w) & M
    b = rot((b + a + z) & M, 21)
    c = a
    a = (a + x + y) & M
    b = (b + rot(a, 44)) & M
    return (a + z) & M, (b + c) & M


def weaks(s, i, a, b):
    return weak(f64(s, i), f64(s, i + 8), f64(s, i + 16), f64(s, i + 24), a, b)


def farmhash64(s: bytes) -> int:
    n = len(s)
    if n <= 16:
        if n >= 8:
            mul = (K2 + n * 2) & M
            a = (f64(s, 0) + K2) & M
            b = f64(s, n - 8)
            c = (rot(b, 37) * mul + a) & M
            d = ((rot(a, 25) + b) * mul) & M
            return h16(c, d, mul)
        if n >= 4:
            mul = (K2 + n * 2) & M
            return h16((n + (f32(s, 0) << 3)) & M, f32(s, n - 4), mul)
        if n > 0:
            a, b, c = s[0], s[n >> 1], s[n - 1]
            y = a + (b << 8)
            z = n + (c << 2)
            return (smix(((y * K2) & M) ^ ((z * K0) & M)) * K2) & M
        return K2
    if n <= 32:
        mul = (K2 + n * 2) & M
        a = (f64(s, 0) * K1) & M
        b = f64(s, 8)
        c = (f64(s, n - 8) * mul) & M
        d = (f64(s, n - 16) * K2) & M
        return h16((rot((a + b) & M, 43) + rot(c, 30) + d) & M, (a + rot((b + K2) & M, 18) + c) & M, mul)
    if n <= 64:
        mul = (K2 + n * 2) & M
        a = (f64(s, 0) * K2) & M
        b = f64(s, 8)
        c = (f64(s, n - 8) * mul) & M
        d = (f64(s, n - 16) * K2) & M
        y = (rot((a + b) & M, 43) + rot(c, 30) + d) & M
        z = h16(y, (a + rot((b + K2) & M, 18) + c) & M, mul)
        e = (f64(s, 16) * mul) & M
        f = f64(s, 24)
        g = ((y + f64(s, n - 32)) * mul) & M
        h = ((z + f64(s, n - 24)) * mul) & M
        return h16((rot((e + f) & M, 43) + rot(g, 30) + h) & M, (e + rot((f + a) & M, 18) + g) & M, mul)
    seed = 81
    x, y = seed, (seed * K1 + 113) & M
    z = (smix((y * K2 + 113) & M) * K2) & M
    v, w = (0, 0), (0, 0)
    x = (x * K2 + f64(s, 0)) & M
    end = ((n - 1) // 64) * 64
    last64 = end + ((n - 1) & 63) - 63
    i = 0
    while True:
        x = (rot((x + y + v[0] + f64(s, i + 8)) & M, 37) * K1) & M
        y = (rot((y + v[1] + f64(s, i + 48)) & M, 42) * K1) & M
        x ^= w[1]
        y = (y + v[0] + f64(s, i + 40)) & M
        z = (rot((z + w[0]) & M, 33) * K1) & M
        v = weaks(s, i, (v[1] * K1) & M, (x + w[0]) & M)
        w = weaks(s, i + 32, (z + w[1]) & M, (y + f64(s, i + 16)) & M)
        z, x = x, z
        i += 64
        if i == end:
            break
    mul = (K1 + ((z & 0xFF) << 1)) & M
    i = last64
    w = ((w[0] + ((n - 1) & 63)) & M, w[1])
    v = ((v[0] + w[0]) & M, v[1])
    w = ((w[0] + v[0]) & M, w[1])
    x = (rot((x + y + v[0] + f64(s, i + 8)) & M, 37) * mul) & M
    y = (rot((y + v[1] + f64(s, i + 48)) & M, 42) * mul) & M
    x ^= (w[1] * 9) & M
    y = (y + v[0] * 9 + f64(s, i + 40)) & M
    z = (rot((z + w[0]) & M, 33) * mul) & M
    v = weaks(s, i, (v[1] * mul) & M, (x + w[0]) & M)
    w = weaks(s, i + 32, (z + w[1]) & M, (y + f64(s, i + 16)) & M)
    z, x = x, z
    return h16((h16(v[0], w[0], mul) + smix(y) * K0 + z) & M, (h16(v[1], w[1], mul) + x) & M, mul)
