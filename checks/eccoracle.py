"""Reference curves for the concrete checks: affine group laws over integers."""
import hashlib
from . import c17
from .c17 import WCURVES, ECURVES, sqrtmod

ORDER = {
    'P-192': 0xffffffffffffffffffffffff99def836146bc9b1b4d22831,
    'P-224': 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d,
    'P-256': 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    'P-384': 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
    'P-521': 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
    'secp256k1': 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
    'ed25519': 2**252 + 27742317777372353535851937790883648493,
    'ed448': 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885,
}


class W:
    """short Weierstrass curve in Jacobian coordinates"""

    def __init__(self, i):
        _, self.name, self.p, a, self.b = WCURVES[i]
        self.i, self.a = i, a % self.p
        self.n = ORDER[self.name]
        self.fs, self.ss = (self.p.bit_length() + 7) // 8, (self.n.bit_length() + 7) // 8

    def lift(self, x, odd):
        y = sqrtmod(x**3 + self.a * x + self.b, self.p)
        if y is None:
            return None
        return x, (y if y & 1 == odd else -y % self.p)

    def jadd(self, P, Q):
        p = self.p
        if P[2] == 0:
            return Q
        if Q[2] == 0:
            return P
        z1, z2 = P[2] * P[2] % p, Q[2] * Q[2] % p
        u1, u2 = P[0] * z2 % p, Q[0] * z1 % p
        s1, s2 = P[1] * z2 * Q[2] % p, Q[1] * z1 * P[2] % p
        if u1 == u2:
            return self.jdbl(P) if s1 == s2 else (1, 1, 0)
        h, r = u2 - u1, s2 - s1
        h2 = h * h % p
        h3, v = h * h2 % p, u1 * h2 % p
        x = (r * r - h3 - 2 * v) % p
        return x, (r * (v - x) - s1 * h3) % p, h * P[2] * Q[2] % p

    def jdbl(self, P):
        p = self.p
        X, Y, Z = P
        if Z == 0 or Y == 0:
            return 1, 1, 0
        y2 = Y * Y % p
        s = 4 * X * y2 % p
        m = (3 * X * X + self.a * pow(Z, 4, p)) % p
        x = (m * m - 2 * s) % p
        return x, (m * (s - x) - 8 * y2 * y2) % p, 2 * Y * Z % p

    def lin(self, *ts):
        """sum of k * P; None is infinity"""
        r = (1, 1, 0)
        ts = [(k % self.n, (P[0], P[1], 1)) for k, P in ts if P is not None]
        for b in range(self.n.bit_length(), -1, -1):
            r = self.jdbl(r)
            for k, P in ts:
                if k >> b & 1:
                    r = self.jadd(r, P)
        if r[2] == 0:
            return None
        zi = pow(r[2], -1, self.p)
        return r[0] * zi * zi % self.p, r[1] * zi**3 % self.p

    def decode(self, b):
        p, fs = self.p, self.fs
        if not b:
            return None
        if b[0] in (2, 3) and len(b) == 1 + fs:
            x = int.from_bytes(b[1:], 'big')
            return self.lift(x, b[0] & 1) if x < p else None
        if b[0] in (4, 6, 7) and len(b) == 1 + 2 * fs:
            x, y = int.from_bytes(b[1:1 + fs], 'big'), int.from_bytes(b[1 + fs:], 'big')
            if x >= p or y >= p or (y * y - x**3 - self.a * x - self.b) % p or (b[0] != 4 and b[0] & 1 != y & 1):
                return None
            return x, y
        return None

    def encode(self, P, form):
        x, y = P[0].to_bytes(self.fs, 'big'), P[1].to_bytes(self.fs, 'big')
        if form == 2:
            return bytes([2 | P[1] & 1]) + x
        return bytes([4 if form == 4 else 6 | P[1] & 1]) + x + y

    def reduce(self, m):
        v = int.from_bytes(m[:self.ss], 'big')
        ln = min(len(m), self.ss) * 8
        if ln > self.n.bit_length():
            v >>= ln - self.n.bit_length()
        return v % self.n

    def verify(self, G, m, sig, pub):
        n = self.n
        r, s = int.from_bytes(sig[:self.ss], 'big'), int.from_bytes(sig[self.ss:], 'big')
        A = self.decode(pub)
        if not 0 < r < n or not 0 < s <= n >> 1 or A is None:
            return 0
        w = pow(s, -1, n)
        P = self.lin((self.reduce(m) * w, G), (r * w, A))
        return int(P is not None and P[0] % n == r)

    def recover(self, G, m, sig, par):
        n = self.n
        r, s = int.from_bytes(sig[:self.ss], 'big'), int.from_bytes(sig[self.ss:], 'big')
        if not 0 < r < n or not 0 < s <= n >> 1:
            return None
        x = r + n if par > 1 else r
        if x >= self.p:
            return None
        R = self.lift(x, par & 1)
        if R is None:
            return None
        w = pow(r, -1, n)
        return self.lin((-self.reduce(m) * w, G), (s * w, R))


class Ed:
    def __init__(self, i):
        _, self.name, self.p, self.a, self.d = ECURVES[i]
        self.i = i
        self.n = ORDER.get(self.name)
        self.h = 8 if self.name == 'ed25519' else 4
        self.fs = (self.p.bit_length() + 7) // 8
        self.adj = self.fs + (self.p.bit_length() % 8 == 0)

    def add(self, P, Q):
        p, a, d = self.p, self.a, self.d
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        A = Z1 * Z2 % p
        B, C, D = A * A % p, X1 * X2 % p, Y1 * Y2 % p
        E = d * C * D % p
        f, g = (B - E) % p, (B + E) % p
        return A * f * ((X1 + Y1) * (X2 + Y2) - C - D) % p, A * g * (D - a * C) % p, f * g % p

    def lin(self, *ts):
        r = (0, 1, 1)
        ts = [(k if k >= 0 else -k, (P[0] if k >= 0 else -P[0] % self.p, P[1], 1)) for k, P in ts]
        for b in range(max(k.bit_length() for k, _ in ts), -1, -1):
            r = self.add(r, r)
            for k, P in ts:
                if k >> b & 1:
                    r = self.add(r, P)
        zi = pow(r[2], -1, self.p)
        return r[0] * zi % self.p, r[1] * zi % self.p

    def decode(self, b):
        p = self.p
        v = int.from_bytes(b, 'little')
        sign, y = v >> (8 * self.adj - 1), v & ((1 << (8 * self.adj - 1)) - 1)
        if y >= p:
            return None
        x = sqrtmod((1 - y * y) * pow(self.a - self.d * y * y, -1, p), p)
        if x is None or (x == 0 and sign):
            return None
        return (x if x & 1 == sign else -x % p), y

    def encode(self, P):
        return (P[1] | (P[0] & 1) << (8 * self.adj - 1)).to_bytes(self.adj, 'little')

    def challenge(self, R, A, m, ph, ctx):
        c = ctx[:255]
        dom = b''
        if self.name == 'ed448' or ph != -1 or c:
            dom = (b'SigEd448' if self.name == 'ed448' else b'SigEd25519 no Ed25519 collisions') + bytes([ph > 0, len(c)]) + c
        d = dom + R + A + m
        h = hashlib.shake_256(d).digest(114) if self.name == 'ed448' else hashlib.sha512(d).digest()
        return int.from_bytes(h, 'little') % self.n

    def verify(self, G, m, sig, pub, ph, ctx, single=False):
        R, A = self.decode(sig[:self.adj]), self.decode(pub)
        s = int.from_bytes(sig[self.adj:], 'little')
        if R is None or A is None or s >= self.n:
            return 0
        e = self.challenge(sig[:self.adj], pub, m, ph, ctx)
        k = self.h if single else 1
        return int(self.lin((k * s, G), (-k * e, A), (-k, R)) == (0, 1))


def tagged(tag, m):
    t = hashlib.sha256(tag).digest()
    return hashlib.sha256(t + t + m).digest()


def bip340_verify(c, G, m, sig, pub):
    r, s, x = [int.from_bytes(b, 'big') for b in (sig[:32], sig[32:], pub)]
    if r >= c.p or s >= c.n or x >= c.p:
        return 0
    A = c.lift(x, 0)
    if A is None:
        return 0
    e = int.from_bytes(tagged(b'BIP0340/challenge', sig[:32] + pub + m), 'big') % c.n
    P = c.lin((s, G), (-e, A))
    return int(P is not None and P[1] % 2 == 0 and P[0] == r)
