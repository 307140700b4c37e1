"""C05: HKDF and PBKDF2."""
import ctypes
import hashlib
import hmac as pyhmac
import time
from .xscript import *      # noqa
from .hashes import constants

SRCS = [('kdf', 'c64')]
FILES = ['kdf', 'util', 'internal', 'hash']
OK = eq(V('backend', 1), C(1, 1))
SMALL = 1 << 60


def I(b):
    return ite(b, C(1, 32), C(0, 32))


def setup(U, hl):
    ex, st = U.exec(FILES)
    X = Script(U, ex, hl)
    ex.unroll.update(['torsion_hkdf_expand', 'torsion_pbkdf2_derive'])
    return ex, st, X


def inp(ex, st, name, n):
    b = ex.sym_obj(st, name, n)
    b.const = True
    if isinstance(n, E):
        st.assume(ult(n, K(SMALL)))
    return b


def extract_unit(U):
    ex, st, X = setup(U, 32)
    a, b = V('a', 64), V('b', 64)
    ikm, salt, out = inp(ex, st, 'ikm', a), inp(ex, st, 'salt', b), ex.sym_obj(st, 'out', 32)
    for s, r in ex.call(st, 'torsion_hkdf_extract', [Ptr(out), C(7, 32), Ptr(ikm), a, Ptr(salt), b]):
        U.reach(s)
        ex.require(s, eq(r, I(OK)), 'succeeds exactly for supported hashes')
        if s.decide(OK) is T and transcript(ex, s, [([mem('m:salt', b)], [mem('m:ikm', a)])], 7):
            same_bytes(ex, s, [Chunk(s, Ptr(out), K(32))], [mac(0, 32)], 'output')


def lens(hl):
    return (0, 1, hl - 1, hl, hl + 1, 2 * hl - 1, 2 * hl, 3 * hl + 7, 5 * hl)


def expand_unit(U):
    for hl in (20, 64):
        for n in lens(hl):
            ex, st, X = setup(U, hl)
            b = V('b', 64)
            prk, info, out = inp(ex, st, 'prk', hl), inp(ex, st, 'info', b), ex.sym_obj(st, 'out', n + 1)
            for s, r in ex.call(st, 'torsion_hkdf_expand', [Ptr(out), C(7, 32), Ptr(prk), Ptr(info), b, K(n)]):
                U.reach(s)
                ex.require(s, eq(r, I(OK)), 'succeeds exactly for supported hashes')
                if s.decide(OK) is not T:
                    continue
                nb = (n + hl - 1) // hl
                want = [([mem('m:prk', hl)], ([mac(i - 1, hl)] if i else []) + [mem('m:info', b), const([i + 1])]) for i in range(nb)]
                if transcript(ex, s, want, 7):
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(n + 1))], [mac(i, min(hl, n - i * hl)) for i in range(nb)] + [mem('m:out', 1, n)], '%d bytes of output' % n)


def limit_unit(U):
    """which requests are refused, for every requested length"""
    for hl in (16, 20, 32, 64):
        for f in ('hkdf', 'pbkdf2'):
            ex, st, X = setup(U, hl)
            n, b = V('n', 64), V('b', 64)
            mx = 255 * hl if f == 'hkdf' else ((1 << 32) - 1) * hl
            good = conj([OK, ule(n, K(mx))])
            seen = []

            def start(ex, s, a):
                seen.append(1)
                ex.require(s, conj([good, ne(n, K(0))]), '%s, %d: only admissible requests are computed' % (f, hl))
                return []
            U.stub(ex, 'torsion_hmac_init', start)
            key, x, out = inp(ex, st, 'key', 64), inp(ex, st, 'x', b), ex.sym_obj(st, 'out', K(SMALL))
            args = [Ptr(out), C(7, 32), Ptr(key), Ptr(x), b, n] if f == 'hkdf' else [Ptr(out), C(7, 32), Ptr(key), K(64), Ptr(x), b, V('iter', 32), n]
            for s, r in ex.call(st, 'torsion_' + ('hkdf_expand' if f == 'hkdf' else 'pbkdf2_derive'), args):
                U.reach(s)
                ex.require(s, conj([eq(r, I(conj([OK, eq(n, K(0))]))), disj([eq(n, K(0)), not_(good)])]), '%s, %d: only inadmissible or empty requests are not computed' % (f, hl))


def pbkdf2_unit(U):
    for hl in (20, 64):
        for n, it in [(n, 1) for n in lens(hl)] + [(2 * hl + 3, 2), (hl, 3), (hl + 1, 4), (1, 7)]:
            ex, st, X = setup(U, hl)
            a, b = V('a', 64), V('b', 64)
            pw, salt, out = inp(ex, st, 'pw', a), inp(ex, st, 'salt', b), ex.sym_obj(st, 'out', n + 1)
            for s, r in ex.call(st, 'torsion_pbkdf2_derive', [Ptr(out), C(7, 32), Ptr(pw), a, Ptr(salt), b, C(it, 32), K(n)]):
                U.reach(s)
                ex.require(s, eq(r, I(OK)), 'succeeds exactly for supported hashes')
                if s.decide(OK) is not T:
                    continue
                nb = (n + hl - 1) // hl
                key = [mem('m:pw', a)]
                want = []
                for i in range(nb):
                    want.append((key, [mem('m:salt', b), const([0, 0, 0, i + 1])]))
                    for j in range(1, it):
                        want.append((key, [mac(i * it + j - 1, hl)]))

                def blk(i):
                    def f(k):
                        v = UF('mac%d' % (i * it), 8, (k,))
                        for j in range(1, it):
                            v = xor(v, UF('mac%d' % (i * it + j), 8, (k,)))
                        return v
                    return Bytes(min(hl, n - i * hl), f)
                if transcript(ex, s, want, 7):
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(n + 1))], [blk(i) for i in range(nb)] + [mem('m:out', 1, n)], '%d bytes of output, %d iterations' % (n, it))


UNITS = [('hkdf_extract', extract_unit), ('hkdf_expand', expand_unit), ('refused requests', limit_unit), ('pbkdf2_derive', pbkdf2_unit)]
ALGS = {'SHA1': 'sha1', 'SHA256': 'sha256', 'SHA224': 'sha224', 'SHA512': 'sha512', 'MD5': 'md5', 'SHA384': 'sha384', 'BLAKE2B_512': None}


def concrete(rng, budget, hints):
    lib = clib(FILES + ['cipher'])
    S = ctypes.c_size_t
    I_ = ctypes.c_int
    ext, exp, pb = (fn(lib, 'torsion_' + n, I_) for n in ('hkdf_extract', 'hkdf_expand', 'pbkdf2_derive'))
    names = {k: v for k, v in ALGS.items() if v}
    ty = constants(['HASH_' + k for k in names])
    rb = lambda k: bytes(rng.getrandbits(8) for _ in range(k))
    end = time.time() + budget
    cases = 0
    while cases == 0 or (time.time() < end and cases < 3000):
        for nm, h in names.items():
            t = I_(ty['HASH_' + nm])
            hl = hashlib.new(h).digest_size
            ikm, salt, info = rb(rng.randrange(200)), rb(rng.choice([0, 1, hl, 63, 64, 65, 128, 129, rng.randrange(200)])), rb(rng.randrange(100))
            n = 255 * hl + cases % 2 if cases < len(names) else rng.choice([0, 1, hl - 1, hl, hl + 1, rng.randrange(4 * hl), rng.randrange(256 * hl), 255 * hl - 1, 255 * hl, 255 * hl + 1, 256 * hl])
            prk = ctypes.create_string_buffer(64)
            r = ext(prk, t, ikm, S(len(ikm)), salt, S(len(salt)))
            want = pyhmac.new(salt, ikm, h).digest()
            if r != 1 or prk.raw[:hl] != want:
                raise Fail('HKDF extract differs', hash=nm, ikm=ikm.hex(), salt=salt.hex(), got=prk.raw[:hl].hex(), want=want.hex())
            out = ctypes.create_string_buffer(n + 16)
            ref = out.raw
            r = exp(out, t, want, info, S(len(info)), S(n))
            if r != int(n <= 255 * hl):
                raise Fail('HKDF expand returned %d' % r, hash=nm, n=n)
            if r:
                prev, res = b'', b''
                i = 1
                while len(res) < n:
                    prev = pyhmac.new(want, prev + info + bytes([i]), h).digest()
                    res += prev
                    i += 1
                if out.raw != res[:n] + ref[n:]:
                    raise Fail('HKDF output differs', hash=nm, prk=want.hex(), info=info.hex(), n=n, got=out.raw[:n].hex())
            for big in ((1 << 64) - 1, (1 << 64) - hl, 1 << 40):
                if exp(out, t, want, info, S(len(info)), S(big)):
                    raise Fail('oversized HKDF request accepted', hash=nm, n=big)
            if pb(out, t, ikm, S(len(ikm)), salt, S(len(salt)), ctypes.c_uint32(1), S((1 << 64) - 1)):
                raise Fail('oversized PBKDF2 request accepted', hash=nm)
            n = rng.choice([1, hl - 1, hl, hl + 1, rng.randrange(1, 5 * hl), 3])
            if cases < len(names) or cases % 97 == 0:
                n = 257 * hl + 1 + cases % hl
            it = rng.choice([1, 2, 3, 10, rng.randrange(1, 300)]) if n < 1000 else 1
            out = ctypes.create_string_buffer(n + 16)
            ref = out.raw
            r = pb(out, t, ikm, S(len(ikm)), salt, S(len(salt)), ctypes.c_uint32(it), S(n))
            w = hashlib.pbkdf2_hmac(h, ikm, salt, it, n)
            if r != 1 or out.raw != w + ref[n:]:
                raise Fail('PBKDF2 output differs', hash=nm, password=ikm.hex(), salt=salt.hex(), iterations=it, n=n, got=out.raw[:n].hex(), want=w.hex())
            cases += 1
    if ext(prk, I_(9999), b'', S(0), b'', S(0)) or exp(prk, I_(9999), b'x' * 64, b'', S(0), S(5)) or pb(prk, I_(9999), b'', S(0), b'', S(0), ctypes.c_uint32(1), S(5)):
        raise Fail('unknown hash accepted')
    return cases
