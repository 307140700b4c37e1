"""C24: SipHash-2-4 and MurmurHash3."""
import time
from .ghost import *        # noqa

SRCS = [('mac', 'c64'), ('mac', 'c32'), ('util', 'c64')]
mb = lambda k: UF('m:data', 8, (k,))


def rotl(x, n):
    return or_(shl_c(x, n), lshr_c(x, x.w - n))


def sipround(v):
    v0, v1, v2, v3 = v
    v0 = add(v0, v1)
    v1 = xor(rotl(v1, 13), v0)
    v0 = rotl(v0, 32)
    v2 = add(v2, v3)
    v3 = xor(rotl(v3, 16), v2)
    v0 = add(v0, v3)
    v3 = xor(rotl(v3, 21), v0)
    v2 = add(v2, v1)
    v1 = xor(rotl(v1, 17), v2)
    v2 = rotl(v2, 32)
    return v0, v1, v2, v3


def absorb(v, w):
    v = (v[0], v[1], v[2], xor(v[3], w))
    v = sipround(sipround(v))
    return (xor(v[0], w), v[1], v[2], v[3])


def finish(v):
    v = (v[0], v[1], xor(v[2], K(0xff)), v[3])
    for _ in range(4):
        v = sipround(v)
    return xor(xor(v[0], v[1]), xor(v[2], v[3]))


def word(fn, off, n):
    return cat(*[fn(addc(off, i)) for i in reversed(range(n))])


def sip_setup(U, ex, st, n):
    data = ex.sym_obj(st, 'data', n)
    key = ex.sym_obj(st, 'key', 16)
    data.const = key.const = True
    kb = lambda k: UF('m:key', 8, (k,))
    k0, k1 = word(kb, K(0), 8), word(kb, K(8), 8)
    ini = [xor(k0, K(0x736f6d6570736575)), xor(k1, K(0x646f72616e646f6d)),
           xor(k0, K(0x6c7967656e657261)), xor(k1, K(0x7465646279746573))]
    return data, key, ini


def mutual(ex, name, ini, step):
    """several ghost recurrences defined together"""
    nm = [name + str(i) for i in range(len(ini))]

    def now(t):
        return tuple(UF(nm[i], ini[i].w, (t,)) for i in range(len(ini)))
    rs = []
    for i in range(len(ini)):
        def g(r, t, vals, i=i):
            return [eq(v, r) for k, v in vals.items() if isinstance(v, X.E) and v.w == r.w]
        rs.append(Rec(ex, nm[i], ini[i], lambda t, r, i=i: step(t, now(t))[i], g))
    return now


def tail_word(n, fn, width, base, r):
    """the last r bytes, zero extended to width bytes"""
    return zext(word(fn, base, r), 8 * width) if r else C(0, 8 * width)


def at_count(ex, s, names, q, what):
    """every recurrence that survives is used at q"""
    pass


def sip_unit(r):
    def unit(U):
        ex, st = U.exec(['mac', 'internal'])
        n = V('n', 64)
        st.assume(ult(n, K(1 << 60)))
        st.assume(eq(ext(n, 2, 0), C(r, 3)))
        data, key, ini = sip_setup(U, ex, st, n)
        now = mutual(ex, 'spec.v', ini, lambda t, v: absorb(v, word(mb, mul(t, K(8)), 8)))
        q = lshr_c(n, 3)
        for s, res in ex.call(st, 'torsion_siphash_sum', [Ptr(data), n, Ptr(key)]):
            U.reach(s)
            summ = ex.summaries
            if len(summ) != 1:
                raise Unsupported('another loop structure')
            t = summ[-1].t
            ex.require(s, eq(t, q), 'whole words')
            s.assume(eq(t, q))
            f = or_(shl_c(n, 56), tail_word(n, mb, 8, mul(t, K(8)), r))
            ex.require(s, eq(res, finish(absorb(now(t), f))), 'SipHash-2-4 value')
    return unit


def sip128_unit(U):
    ex, st = U.exec(['mac', 'internal'])
    data, key, ini = sip_setup(U, ex, st, K(0))
    x = V('num', 64)
    for s, res in ex.call(st, 'torsion_siphash128_sum', [x, Ptr(key)]):
        U.reach(s)
        ex.require(s, eq(res, finish(absorb(ini, x))), 'fixed-width SipHash, 128-bit key')


def sip256_unit(U):
    ex, st = U.exec(['mac', 'internal'])
    key = ex.sym_obj(st, 'key', 32)
    key.const = True
    kb = lambda k: UF('m:key', 8, (k,))
    x = V('num', 64)
    ini = [word(kb, K(8 * i), 8) for i in range(4)]
    for s, res in ex.call(st, 'torsion_siphash256_sum', [x, Ptr(key)]):
        U.reach(s)
        ex.require(s, eq(res, finish(absorb(ini, x))), 'fixed-width SipHash, 256-bit key')


def sipmod_unit(U):
    ex, st = U.exec(['mac', 'internal'])
    n, m, h = V('n', 64), V('mod', 64), V('h', 64)
    data, key, ini = sip_setup(U, ex, st, n)
    seen = []

    def stub(ex, st, a):
        ex.require(st, T if where(a[0]) == (data.id, K(0)) and where(a[2]) == (key.id, K(0)) else F, 'same message and key')
        ex.require(st, eq(a[1], n), 'same length')
        return h
    U.stub(ex, 'torsion_siphash_sum', stub)
    for s, res in ex.call(st, 'torsion_siphash_mod', [Ptr(data), n, Ptr(key), m]):
        U.reach(s)
        ex.require(s, eq(res, ext(mul(zext(h, 128), zext(m, 128)), 127, 64)), 'high half of hash times modulus')


def murmur_unit(r):
    def unit(U):
        ex, st = U.exec(['util', 'internal'])
        n = V('n', 64)
        st.assume(ult(n, K(1 << 60)))
        st.assume(eq(ext(n, 1, 0), C(r, 2)))
        data = ex.sym_obj(st, 'data', n)
        data.const = True
        seed = V('seed', 32)

        def mix(k):
            k = mul(k, C(0xcc9e2d51, 32))
            return mul(rotl(k, 15), C(0x1b873593, 32))

        def step(t, h):
            h = xor(h, mix(word(mb, mul(t, K(4)), 4)))
            return add(mul(rotl(h, 13), C(5, 32)), C(0xe6546b64, 32))
        H = Rec(ex, 'spec.h', seed, step)
        for s, res in ex.call(st, 'torsion_murmur3_sum', [Ptr(data), n, seed]):
            U.reach(s)
            if len(ex.summaries) != 1:
                raise Unsupported('another loop structure')
            t = ex.summaries[-1].t
            ex.require(s, eq(t, lshr_c(n, 2)), 'whole words')
            s.assume(eq(t, lshr_c(n, 2)))
            h = H(t)
            if r:
                h = xor(h, mix(tail_word(n, mb, 4, mul(t, K(4)), r)))
            h = xor(h, ext(n, 31, 0))
            for sh, k in ((16, 0x85ebca6b), (13, 0xc2b2ae35)):
                h = mul(xor(h, lshr_c(h, sh)), C(k, 32))
            ex.require(s, eq(res, xor(h, lshr_c(h, 16))), 'MurmurHash3 value')
    return unit


def tweak_unit(U):
    ex, st = U.exec(['util', 'internal'])
    n, a, b = V('n', 64), V('a', 32), V('b', 32)
    data = ex.sym_obj(st, 'data', n)

    def stub(ex, st, ar):
        ex.require(st, T if where(ar[0]) == (data.id, K(0)) else F, 'same message')
        ex.require(st, eq(ar[1], n), 'same length')
        ex.require(st, eq(ar[2], add(mul(a, C(0xfba4c795, 32)), b)), 'seed')
        return V('h', 32)
    U.stub(ex, 'torsion_murmur3_sum', stub)
    for s, res in ex.call(st, 'torsion_murmur3_tweak', [Ptr(data), n, a, b]):
        U.reach(s)
        ex.require(s, eq(res, V('h', 32)), 'value returned')


UNITS = [('siphash tail %d' % r, sip_unit(r)) for r in range(8)]
UNITS += [('siphash 128', sip128_unit), ('siphash 256', sip256_unit), ('siphash modular', sipmod_unit)]
UNITS += [('murmur tail %d' % r, murmur_unit(r)) for r in range(4)] + [('murmur tweak', tweak_unit)]


# ------------------------------------------------------------------ concrete

M64 = (1 << 64) - 1


def py_round(v):
    rl = lambda x, n: ((x << n) | (x >> (64 - n))) & M64
    a, b, c, d = v
    a = (a + b) & M64
    b = rl(b, 13) ^ a
    a = rl(a, 32)
    c = (c + d) & M64
    d = rl(d, 16) ^ c
    a = (a + d) & M64
    d = rl(d, 21) ^ a
    c = (c + b) & M64
    b = rl(b, 17) ^ c
    c = rl(c, 32)
    return a, b, c, d


def py_words(v, ws):
    for w in ws:
        v = (v[0], v[1], v[2], v[3] ^ w)
        v = py_round(py_round(v))
        v = (v[0] ^ w, v[1], v[2], v[3])
    v = (v[0], v[1], v[2] ^ 0xff, v[3])
    for _ in range(4):
        v = py_round(v)
    return v[0] ^ v[1] ^ v[2] ^ v[3]


def py_sip(msg, key, ws=None):
    k0, k1 = (int.from_bytes(key[8 * i:8 * i + 8], 'little') for i in range(2))
    v = (k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573)
    if ws is None:
        m = msg + bytes(7 - len(msg) % 8) + bytes([len(msg) & 255])
        ws = [int.from_bytes(m[i:i + 8], 'little') for i in range(0, len(m), 8)]
    return py_words(v, ws)


def py_murmur(m, seed):
    M = 0xffffffff
    rl = lambda x, n: ((x << n) | (x >> (32 - n))) & M
    mix = lambda k: (rl(k * 0xcc9e2d51 & M, 15) * 0x1b873593) & M
    h = seed
    q = len(m) // 4 * 4
    for i in range(0, q, 4):
        h = (rl(h ^ mix(int.from_bytes(m[i:i + 4], 'little')), 13) * 5 + 0xe6546b64) & M
    if len(m) % 4:
        h ^= mix(int.from_bytes(m[q:], 'little'))
    h ^= len(m) & M
    h = (h ^ h >> 16) * 0x85ebca6b & M
    h = (h ^ h >> 13) * 0xc2b2ae35 & M
    return h ^ h >> 16


def concrete(rng, budget, hints):
    from ctypes import c_uint64, c_uint32
    libs = [clib(['mac', 'util', 'internal'], config=c) for c in ('c64', 'c32')]
    t0 = time.time()
    n = 0
    k0 = 0
    while time.time() - t0 < budget:
        k0 += 1
        m = rng.randbytes(65500 + k0 % 900 if k0 % 499 == 7 or n == 0 else k0 % 80 if k0 % 3 else rng.randrange(0, 700))
        if k0 % 7 == 0:
            m = bytes([255]) * len(m)
        key = rng.randbytes(32)
        x, mod = rng.getrandbits(64), rng.choice([rng.getrandbits(64), rng.getrandbits(20), M64, 1 << 32])
        g = Guard(len(m), m)
        for lib in libs:
            n += 1
            h = py_sip(m, key)
            for what, got, want in (
                    ('siphash_sum', fn(lib, 'siphash_sum', c_uint64)(g.p, sz(len(m)), key), h),
                    ('siphash_mod', fn(lib, 'siphash_mod', c_uint64)(g.p, sz(len(m)), key, c_uint64(mod)), h * mod >> 64),
                    ('siphash128_sum', fn(lib, 'siphash128_sum', c_uint64)(c_uint64(x), key), py_sip(b'', key, [x])),
                    ('siphash256_sum', fn(lib, 'siphash256_sum', c_uint64)(c_uint64(x), key),
                     py_words(tuple(int.from_bytes(key[i:i + 8], 'little') for i in range(0, 32, 8)), [x])),
                    ('murmur3_sum', fn(lib, 'murmur3_sum', c_uint32)(g.p, sz(len(m)), c_uint32(x & 0xffffffff)),
                     py_murmur(m, x & 0xffffffff)),
                    ('murmur3_tweak', fn(lib, 'murmur3_tweak', c_uint32)(g.p, sz(len(m)), c_uint32(k0), c_uint32(x & 0xffffffff)),
                     py_murmur(m, (k0 * 0xfba4c795 + x) & 0xffffffff))):
                if got != want:
                    raise Fail(what + ' differs from the reference', message=m, key=key, number=x, modulus=mod, n=k0,
                               got=got, want=want)
    return n
