"""C01: hex, base32 and base64 codecs."""
import ctypes
import time
from .core import *         # noqa
from .lemmas import *       # noqa
from lvc.expr import *      # noqa
from lvc.exec import *      # noqa

SRCS = [('encoding', 'c64'), ('internal', 'c64')]
K = lambda v: C(v, 64)

B32 = 'abcdefghijklmnopqrstuvwxyz234567'
B32H = '0123456789abcdefghijklmnopqrstuv'
B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64U = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
#        bits, chars, bytes, alphabet, fold case, padded variants, flag argument
CODECS = {
    'base16': (4, 2, 1, '0123456789abcdef', True, (0,), False),
    'base16le': (4, 2, 1, '0123456789abcdef', True, (0,), False),
    'base32': (5, 8, 5, B32, True, (0, 1), True),
    'base32hex': (5, 8, 5, B32H, True, (0, 1), True),
    'base64': (6, 4, 3, B64, False, (1,), False),
    'base64url': (6, 4, 3, B64U, False, (0,), False),
}


def table(alpha, fold):
    t = [0xff] * 256
    for i, ch in enumerate(alpha):
        t[ord(ch)] = i
        if fold:
            t[ord(ch.upper())] = i
    return tuple(t)


class Spec:
    def __init__(self, name, pad):
        self.name, self.pad = name, pad
        self.c, self.G, self.B, self.alpha, self.fold, _, self.flag = CODECS[name]
        self.tab = table(self.alpha, self.fold)
        self.le = name == 'base16le'

    def chars(self, m):
        """number of symbols encoding m bytes"""
        r = urem(m, K(self.B)) if self.B > 1 else K(0)
        q = udiv(m, K(self.B)) if self.B > 1 else m
        rc = K(0)
        for x in range(1, self.B):
            rc = ite(eq(r, K(x)), K(-(-8 * x // self.c)), rc)
        return add(mul(q, K(self.G)), rc)

    def total(self, m):
        if not self.pad:
            return self.chars(m)
        return mul(udiv(addc(m, self.B - 1), K(self.B)), K(self.G))

    def value(self, byte, q, r, m):
        """symbol r of group q, bytes past m read as zero"""
        bs = []
        for i in range(self.B):
            k = addc(mul(q, K(self.B)), i)
            kk = sub(addc(m, -1), k) if self.le else k
            bs.append(byte(kk) if self.B == 1 else ite(ult(k, m), byte(kk), C(0, 8)))
        v = cat(*bs)
        hi = v.w - self.c * r - 1
        lo = hi - self.c + 1
        if lo < 0:
            raise AssertionError
        return ext(v, hi, lo)

    def char(self, v):
        return X.tab('spec.' + self.name, tuple(ord(c) for c in self.alpha), 8, v)

    def look(self, ch):
        return X.tab('spect.' + self.name, self.tab, 8, ch)


def src_byte(nm):
    return lambda k: UF('m:' + nm, 8, (k,))


def encode_unit(name, pad):
    def unit(U):
        S = Spec(name, pad)
        ex, st = U.exec(['encoding', 'internal'])
        ex.periods = (S.B,) if S.B > 1 else ()
        n = V('n', 64)
        st.assume(ult(n, K(1 << 59)))
        U.assume('lengths below 2^59')
        tot = S.total(n)
        fl = [C(pad, 32)] if S.flag else []
        for s, r in ex.call(st.fork(), 'torsion_%s_encode_size' % name, [n] + fl):
            ex.require(s, eq(r, tot), 'announced size is exact')
        src = ex.sym_obj(st, 'src', n)
        src.const = True
        dst = ex.sym_obj(st, 'dst', addc(tot, 1))
        dl = ex.sym_obj(st, 'dl', 8)
        for s, r in ex.call(st, 'torsion_%s_encode' % name, [Ptr(dst), Ptr(dl), Ptr(src), n] + fl):
            U.reach(s)
            ex.require(s, eq(s.load(Ptr(dl), 8), tot), 'length written')
            ex.require(s, eq(s.load(Ptr(dst, tot), 1), C(0, 8)), 'terminator')
            u = S.chars(n)
            for rr in range(S.G):
                q = V('q', 64)
                k = addc(mul(q, K(S.G)), rr)
                s2 = s.fork()
                s2.assume(ult(q, K(1 << 60)))
                s2.assume(ult(k, tot))
                v = s2.load(Ptr(dst, k), 1)
                want = S.char(S.value(src_byte('src'), q, rr, n))
                if pad:
                    want = ite(ult(k, u), want, C(0x3d, 8))
                ex.require(s2, eq(v, want), 'symbol %d of a group' % rr)
    return unit


def valid_at(S, k, u, n):
    """instance of the well-formedness of the text at index k"""
    ch = UF('m:src', 8, (k,))
    fs = [implies(ult(k, u), not_(ext(S.look(ch), 7, 7)))]
    fs.append(implies(and_(ule(u, k), ult(k, n)), eq(ch, C(0x3d, 8))))
    return fs


def wellformed(S, u, n):
    """the quantifier-free part: u symbols, n characters in all"""
    ur = urem(u, K(S.G))
    fs = [ule(u, n), ult(n, K(1 << 60))]
    for r in range(S.G):
        if r * S.c % 8 >= S.c:
            fs.append(ne(ur, K(r)))
    if S.pad:
        fs.append(eq(n, mul(udiv(addc(u, S.G - 1), K(S.G)), K(S.G))))
    else:
        fs.append(eq(n, u))
    last = S.look(UF('m:src', 8, (addc(u, -1),)))
    for r in range(1, S.G):
        x = r * S.c % 8
        if 0 < x < S.c:
            fs.append(implies(eq(ur, K(r)), eq(ext(last, x - 1, 0), C(0, x))))
    return fs


def instances(ex, s, S, extra=()):
    """indices into the text that matter in this state"""
    ks = [a[0] for a in uf_args(s.pc, 'm:src')] + list(extra)
    return list(dict.fromkeys(ks))


def rejecting(U, ex, s, S, n, what):
    """on this path no well-formed text is possible"""
    s = s.fork()
    for f in or_facts(ex, s):
        s.assume(f)
    u = V('u', 64)
    for f in wellformed(S, u, n):
        s.assume(f)
    for k in instances(ex, s, S, [addc(u, -1)]):
        for f in valid_at(S, k, u, n):
            s.assume(f)
    ex.require(s, X.F, what)


def size_contract(S, size, n):
    """announced decode size: room for what precedes p trailing '='"""
    p = V('p', 64)
    fs = [ule(p, n), ule(p, K(6))]
    for j in range(6):
        fs.append(implies(ult(K(j), p), eq(UF('m:src', 8, (addc(n, -1 - j),)), C(0x3d, 8))))
    u = sub(n, p)
    r = urem(u, K(S.G))
    rb = K(0)
    for x in range(1, S.G):
        rb = ite(eq(r, K(x)), K(x * S.c // 8), rb)
    fs.append(ule(add(mul(udiv(u, K(S.G)), K(S.B)), rb), size))
    fs.append(ule(size, n))
    return fs


def size_unit(name):
    def unit(U):
        S = Spec(name, 1)
        ex, st = U.exec(['encoding', 'internal'])
        n = V('n', 64)
        st.assume(ult(n, K(1 << 59)))
        src = ex.sym_obj(st, 'src', n)
        src.const = True
        for s, size in ex.call(st, 'torsion_%s_decode_size' % name, [Ptr(src), n]):
            U.reach(s)
            # some number p of stripped characters satisfies the contract
            e = V('e', 64)
            s.assume(eq(e, size))
            alts = []
            for q in range(7):
                alts.append(and_(*[X.subst(f, {V('p', 64): K(q)}) for f in size_contract(S, e, n)]))
            ex.require(s, X.disj(alts), 'announced decode size fits')
    return unit


def decode_unit(name, pad, symbols=None, frame=True):
    def unit(U):
        S = Spec(name, pad)
        ex, st = U.exec(['encoding', 'internal'])
        ex.periods = (S.G,) if S.B > 1 else ()
        n = V('n', 64)
        st.assume(ult(n, K(1 << 59)))
        U.assume('lengths below 2^59')
        src = ex.sym_obj(st, 'src', n)
        src.const = True
        fl = [C(pad, 32)] if S.flag else []
        if S.G == 8:
            ex.probes = (0x3d,)
            size = V('size', 64)
            for f in size_contract(S, size, n):
                st.assume(f)
            dsz = [(st, size)]
        else:
            dsz = ex.call(st, 'torsion_%s_decode_size' % name,
                          [n] if name.startswith('base16') else [Ptr(src), n])
        acc = 0
        for st, size in dsz:
            dst = ex.sym_obj(st, 'dst', size)
            dl = ex.sym_obj(st, 'dl', 8)
            for s, r in ex.call(st, 'torsion_%s_decode' % name, [Ptr(dst), Ptr(dl), Ptr(src), n] + fl):
                if X.eq(r, C(0, 32)) is X.T:
                    if frame:
                        rejecting(U, ex, s, S, n, 'rejected text is malformed')
                    continue
                ex.require(s, eq(r, C(1, 32)), 'result is 0 or 1')
                U.reach(s)
                acc += 1
                m = s.load(Ptr(dl), 8)
                u = S.chars(m)
                ex.require(s, eq(n, S.total(m)), 'accepted length is the encoded length')
                ex.require(s, ule(m, size), 'length within announced size')
                for rr in symbols or range(S.G):
                    q = V('q', 64)
                    s2 = s.fork()
                    k = addc(mul(q, K(S.G)), rr)
                    s2.assume(ult(q, K(1 << 60)))
                    s2.assume(ult(k, n))
                    ch = UF('m:src', 8, (k,))
                    val = S.value(lambda kk: rd(s2, dst, kk, m), q, rr, m)
                    inst(ex, s2, S, q, k)
                    g = eq(S.look(ch), zext(val, 8))
                    if pad:
                        g = ite(ult(k, u), g, eq(ch, C(0x3d, 8)))
                    ex.require(s2, g, 'accepted text is the encoding of the output, symbol %d' % rr)
        if not acc:
            ex.require(st, X.F, 'some text is accepted')
    return unit


def rd(s, dst, k, m):
    s3 = s.fork()
    s3.assume(ult(k, m))
    s3.ex.quiet += 1
    try:
        return s3.load(Ptr(dst, k), 1)
    finally:
        s3.ex.quiet -= 1


def inst(ex, s, S, q, k):
    for summ in ex.summaries:
        n = V('n', 64)
        if S.B == 1:
            ks = [q, k, sub(addc(n, -1), k), sub(addc(udiv(n, K(2)), -1), q)]
        elif summ.period > 1:
            ks = [q]
        else:
            ks = [q, sub(addc(n, -1), k), sub(k, sub(n, summ.t))]
        for idx in dict.fromkeys(ks):
            for f in loop_all(summ, idx):
                s.assume(f)
    for f in or_facts(ex, s, [q, sub(addc(udiv(V('n', 64), K(2)), -1), q)]):
        s.assume(f)


def test_unit(name, pad):
    def unit(U):
        S = Spec(name, pad)
        ex, st = U.exec(['encoding', 'internal'])
        n = V('n', 64)
        st.assume(ult(n, K(1 << 59)))
        src = ex.sym_obj(st, 'src', n)
        src.const = True
        fl = [C(pad, 32)] if S.flag else []
        acc = 0
        for s, r in ex.call(st, 'torsion_%s_test' % name, [Ptr(src), n] + fl):
            for val, s in branches(s, r):
                if val == 0:
                    rejecting(U, ex, s, S, n, 'rejected text is malformed')
                    continue
                acc += 1
                U.reach(s)
                u = n
                if pad:
                    p = K(0)
                    for i in reversed(range(6 if S.G == 8 else 2)):
                        c = and_(ult(K(i), n), eq(UF('m:src', 8, (addc(n, -1 - i),)), C(0x3d, 8)))
                        p = ite(c, addc(p, 1), K(0))
                    u = sub(n, p)
                k = V('k', 64)
                s2 = s.fork()
                s2.assume(ult(k, n))
                for summ in ex.summaries:
                    near = [addc(x, -1 - j) for x in (n, summ.t) for j in range(7 if pad and S.G == 8 else 3)]
                    for idx in [k, sub(addc(n, -1), k), addc(u, -1), sub(k, sub(n, summ.t))] + near:
                        for f in loop_all(summ, idx):
                            s2.assume(f)
                for f in wellformed(S, u, n):
                    ex.require(s2, f, 'accepted text is well formed')
                for f in valid_at(S, k, u, n):
                    ex.require(s2, f, 'accepted characters are valid')
        if not acc:
            ex.require(st, X.F, 'some text is accepted')
    return unit


def branches(s, r):
    z = X.eq(r, C(0, 32))
    if z is X.T:
        return [(0, s)]
    if z is X.F:
        return [(1, s)]
    a, b = s.fork(), s.fork()
    a.assume(z)
    b.assume(not_(z))
    return [(0, a), (1, b)]


UNITS = []
for nm, cd in CODECS.items():
    for p in cd[5]:
        sfx = (' pad=%d' % p) if cd[6] else ''
        if cd[1] == 8:
            if p == 0:
                UNITS.append((nm + ' decode size', size_unit(nm)))
            for a in range(0, 8, 4):
                UNITS.append((nm + ' decode' + sfx + ' symbols %d-%d' % (a, a + 3),
                              decode_unit(nm, p, tuple(range(a, a + 4)), a == 0)))
        else:
            UNITS.append((nm + ' decode' + sfx, decode_unit(nm, p)))
        UNITS.append((nm + ' encode' + sfx, encode_unit(nm, p)))
        UNITS.append((nm + ' test' + sfx, test_unit(nm, p)))


# ------------------------------------------------------------------ bounded concrete check

def py_encode(S, data):
    if S.le:
        data = data[::-1]
    bits = ''.join('{:08b}'.format(b) for b in data)
    bits += '0' * (-len(bits) % S.c)
    out = ''.join(S.alpha[int(bits[i:i + S.c], 2)] for i in range(0, len(bits), S.c))
    if S.pad:
        out += '=' * (-len(out) % S.G)
    return out.encode()


def py_decode(S, text):
    """bytes or None; exactly the canonical encodings (case folded) decode"""
    body = text
    if S.pad:
        if len(text) % S.G:
            return None
        body = text.rstrip(b'=')
        if len(text) - len(body) >= S.G:
            return None
    v = [S.tab[c] for c in body]
    if any(x == 0xff for x in v):
        return None
    bits = ''.join(format(x, '0%db' % S.c) for x in v)
    n = len(bits) // 8
    if len(bits) - 8 * n >= S.c or '1' in bits[8 * n:]:
        return None
    out = bytes(int(bits[8 * i:8 * i + 8], 2) for i in range(n))
    return out[::-1] if S.le else out


def concrete(rng, budget, hints):
    lib = clib(['encoding', 'internal', 'util'])
    t0 = time.time()
    cases = 0
    specs = [(nm, Spec(nm, p)) for nm, cd in CODECS.items() for p in cd[5]]
    F_ = {}
    for nm in CODECS:
        F_[nm] = (fn(lib, nm + '_encode'), fn(lib, nm + '_encode_size', ctypes.c_size_t),
                  fn(lib, nm + '_decode', ctypes.c_int), fn(lib, nm + '_decode_size', ctypes.c_size_t),
                  fn(lib, nm + '_test', ctypes.c_int))

    def one_encode(nm, S, data):
        enc, esz = F_[nm][:2]
        fl = [S.pad] if S.flag else []
        want = py_encode(S, data)
        n = esz(sz(len(data)), *fl)
        if n != len(want):
            raise Fail('%s_encode_size' % nm, n=len(data), pad=S.pad, got=n, want=len(want))
        d = Guard(len(want) + 1)
        dl = ctypes.c_size_t(77)
        enc(d.p, ctypes.byref(dl), data, sz(len(data)), *fl)
        if d.get() != want + b'\0' or dl.value != len(want) or not d.ok():
            raise Fail('%s_encode' % nm, data=data, pad=S.pad, got=d.get(), want=want)
        return want

    def one_decode(nm, S, text):
        dec, dsz, tst = F_[nm][2:]
        fl = [S.pad] if S.flag else []
        want = py_decode(S, text)
        g = Guard(len(text), text)
        n = dsz(sz(len(text))) if S.B == 1 else dsz(g.p, sz(len(text)))
        d = Guard(n)
        dl = ctypes.c_size_t(77)
        r = dec(d.p, ctypes.byref(dl), g.p, sz(len(text)), *fl)
        if not d.ok():
            raise Fail('%s_decode writes outside the announced size' % nm, text=text, pad=S.pad, size=n)
        if r != (want is not None):
            raise Fail('%s_decode accepts/rejects wrongly' % nm, text=text, pad=S.pad, got=r)
        if want is not None and (dl.value != len(want) or d.get()[:len(want)] != want):
            raise Fail('%s_decode output' % nm, text=text, pad=S.pad, got=d.get(), want=want)
        if tst(g.p, sz(len(text)), *fl) != (want is not None):
            raise Fail('%s_test' % nm, text=text, pad=S.pad, want=want is not None)

    # every length, every byte value at every position of a group, every character
    for nm, S in specs:
        for n in range(0, 48):
            for q in range(3):
                data = bytes(rng.randrange(256) for _ in range(n)) if q else bytes([0xff * (n & 1)] * n)
                t = one_encode(nm, S, data)
                one_decode(nm, S, t)
                one_decode(nm, S, t.upper())
                one_decode(nm, S, t.rstrip(b'='))
                one_decode(nm, S, t + b'=')
                cases += 5
        for pos in range(S.B):
            for v in range(256):
                data = bytearray(2 * S.B)
                data[pos] = v
                one_decode(nm, S, one_encode(nm, S, bytes(data)))
                cases += 1
        for L in range(S.G, 2 * S.G + 1):
            base = bytearray(py_encode(S, bytes(20))[:L])
            for pos in range(L):
                for v in range(256):
                    t = bytearray(base)
                    t[pos] = v
                    one_decode(nm, S, bytes(t))
                    cases += 1
    while time.time() - t0 < budget:
        nm, S = rng.choice(specs)
        n = rng.choice((rng.randrange(12), rng.randrange(80), rng.randrange(2000)))
        data = bytes(rng.randrange(256) for _ in range(n))
        t = bytearray(one_encode(nm, S, data))
        one_decode(nm, S, bytes(t))
        for q in range(6):
            u = bytearray(t)
            for z in range(rng.randrange(1, 4)):
                k = rng.randrange(4)
                pos = rng.randrange(len(u) + 1)
                if rng.random() < 0.5:
                    pos = max(0, len(u) - rng.randrange(8))
                c = rng.choice((ord(rng.choice(S.alpha)), 0x3d, rng.randrange(256)))
                if k == 0:
                    u.insert(pos, c)
                elif k == 1 and u:
                    del u[min(pos, len(u) - 1)]
                elif u:
                    u[min(pos, len(u) - 1)] = c
            one_decode(nm, S, bytes(u))
            cases += 1
    return cases


ASSUMPTIONS = ['lengths below 2^59 (larger objects do not exist)']
