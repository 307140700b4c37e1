"""Reference block cipher modes written from the standards (SP 800-38A/B/C/D,
IEEE 1619, RFC 2040 style stealing, EAX); the cipher itself is the library's
own block function, which C09 is about."""
from .core import *         # noqa

# id, key size, block size
CIPHERS = {'aes128': (0, 16, 16), 'des': (14, 8, 8), 'blowfish': (9, 32, 8), 'aes256': (2, 32, 16)}
MODES = ['raw', 'ecb', 'cbc', 'cts', 'xts', 'ctr', 'cfb', 'ofb', 'gcm', 'ccm', 'eax']


class Block:
    """a keyed block cipher of the library"""

    def __init__(self, lib, name, key, size):
        self.lib, self.id, self.key = lib, CIPHERS[name][0], key
        self.S = CIPHERS[name][2]
        self.ctx = Guard(size)
        if fn(lib, 'cipher_init', ctypes.c_int)(self.ctx.p, ctypes.c_int(self.id), key, sz(len(key))) != 1:
            raise Fail('cipher_init rejects a key of the announced size', cipher=name, key=key)
        self.enc, self.dec = fn(lib, 'cipher_encrypt'), fn(lib, 'cipher_decrypt')

    def E(self, x):
        o = ctypes.create_string_buffer(self.S)
        self.enc(self.ctx.p, o, bytes(x))
        return o.raw

    def D(self, x):
        o = ctypes.create_string_buffer(self.S)
        self.dec(self.ctx.p, o, bytes(x))
        return o.raw


def bx(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def blocks(x, S):
    return [x[i:i + S] for i in range(0, len(x), S)]


def inc(x, k=None):
    k = len(x) if k is None else k
    v = (int.from_bytes(x[len(x) - k:], 'big') + 1) % (1 << 8 * k)
    return x[:len(x) - k] + v.to_bytes(k, 'big')


def dbl_le(t):
    S = len(t)
    v = int.from_bytes(t, 'little') << 1
    if v >> 8 * S:
        v ^= (1 << 8 * S) | {8: 0x1b, 16: 0x87}[S]
    return v.to_bytes(S, 'little')


def dbl_be(t):
    return dbl_le(t[::-1])[::-1]


def ecb(c, x, iv, enc):
    return b''.join((c.E if enc else c.D)(b) for b in blocks(x, c.S))


def cbc(c, x, iv, enc):
    out = b''
    for b in blocks(x, c.S):
        o = c.E(bx(b, iv)) if enc else bx(c.D(b), iv)
        iv = o if enc else b
        out += o
    return out


def xts(c, x, iv, enc):
    """iv: the already encrypted tweak"""
    out = b''
    for b in blocks(x, c.S):
        out += bx((c.E if enc else c.D)(bx(b, iv)), iv)
        iv = dbl_le(iv)
    return out


def xts_full(c, x, iv, enc):
    """with ciphertext stealing"""
    S = c.S
    r = len(x) % S
    if not r:
        return xts(c, x, iv, enc)
    k = len(x) // S - 1
    t = [iv]
    for _ in range(k + 1):
        t.append(dbl_le(t[-1]))
    body = xts(c, x[:k * S], iv, enc)
    P, p = x[k * S:k * S + S], x[k * S + S:]
    f = c.E if enc else c.D
    t1, t2 = (t[k], t[k + 1]) if enc else (t[k + 1], t[k])
    cc = bx(f(bx(P, t1)), t1)
    z = p + cc[r:]
    return body + bx(f(bx(z, t2)), t2) + cc[:r]


def cts(c, x, iv, enc):
    """CBC with stealing; the library steals zero bytes from whole messages, so
    that their last block is enciphered once more"""
    S = c.S
    r = len(x) % S
    if not r:
        if enc:
            y = cbc(c, x, iv, 1)
            return y[:-S] + c.E(y[-S:])
        return cbc(c, x[:-S] + c.D(x[-S:]), iv, 0)
    k = len(x) // S - 1
    body = cbc(c, x[:k * S], iv, enc)
    prev = iv if k == 0 else (body if enc else x[:k * S])[-S:]
    P, p = x[k * S:k * S + S], x[k * S + S:]
    if enc:
        cc = c.E(bx(P, prev))
        return body + c.E(bx(cc, p + bytes(S - r))) + cc[:r]
    z = c.D(P)              # C_{n-1} xor padded plaintext
    cc = p + z[r:]
    return body + bx(c.D(cc), prev) + bx(z[:r], p)


def keystream(c, iv, n, mode, k=None):
    out = b''
    while len(out) < n:
        o = c.E(iv)
        out += o
        iv = o if mode == 'ofb' else inc(iv, k)
    return out[:n]


def ctr(c, x, iv, enc, k=None):
    return bx(x, keystream(c, iv, len(x), 'ctr', k))


def ofb(c, x, iv, enc):
    return bx(x, keystream(c, iv, len(x), 'ofb'))


def cfb(c, x, iv, enc):
    out = b''
    for b in blocks(x, c.S):
        o = bx(b, c.E(iv))
        iv = o if enc else b
        out += o
    return out


def gmul(x, y):
    """GF(2^128) in the bit order of GCM"""
    z, v = 0, y
    for i in range(127, -1, -1):
        if x >> i & 1:
            z ^= v
        v = v >> 1 ^ (0xe1 << 120 if v & 1 else 0)
    return z


def ghash(h, a, x):
    pad = lambda b: b + bytes(-len(b) % 16)
    y = 0
    for b in blocks(pad(a) + pad(x) + (8 * len(a)).to_bytes(8, 'big') + (8 * len(x)).to_bytes(8, 'big'), 16):
        y = gmul(y ^ int.from_bytes(b, 'big'), h)
    return y.to_bytes(16, 'big')


def gcm(c, x, iv, aad, enc):
    h = int.from_bytes(c.E(bytes(16)), 'big')
    j0 = iv + b'\0\0\0\1' if len(iv) == 12 else ghash(h, b'', iv)
    y = ctr(c, x, inc(j0, 4), enc, 4)
    return y, bx(ghash(h, aad, y if enc else x), c.E(j0))


def cbcmac(c, x):
    t = bytes(c.S)
    for b in blocks(x, c.S):
        t = c.E(bx(t, b + bytes(c.S - len(b))))
    return t


def ccm(c, x, iv, aad, M, enc):
    """RFC 3610; a nonce longer than the length field allows is cut (sjcl)"""
    iv = iv[:13]
    L = max(2, (len(x).bit_length() + 7) // 8, 15 - len(iv))
    iv = iv[:15 - L]
    a0 = bytes([L - 1]) + iv + bytes(L)
    s0 = c.E(a0)
    y = ctr(c, x, inc(a0, L), enc, L)
    pt = x if enc else y
    b = bytes([64 * (len(aad) > 0) + 8 * ((M - 2) // 2) + L - 1]) + iv + len(x).to_bytes(L, 'big')
    if aad:
        n = len(aad)
        b += n.to_bytes(2, 'big') if n < 0xff00 else b'\xff\xfe' + n.to_bytes(4, 'big')
        b += aad
        b += bytes(-len(b) % 16)
    return y, bx(cbcmac(c, b + pt), s0)[:M]


def cmac(c, x):
    k = dbl_be(c.E(bytes(c.S)))
    bl = blocks(x, c.S) or [b'']
    if len(bl[-1]) < c.S:
        k = dbl_be(k)
        bl[-1] = bl[-1] + b'\x80' + bytes(c.S - len(bl[-1]) - 1)
    bl[-1] = bx(bl[-1], k)
    return cbcmac(c, b''.join(bl))


def eax(c, x, iv, aad, enc):
    om = lambda t, m: cmac(c, bytes(c.S - 1) + bytes([t]) + m)
    n = om(0, iv)
    y = ctr(c, x, n, enc)
    return y, bx(bx(n, om(1, aad)), om(2, y if enc else x))
