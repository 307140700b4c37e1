"""C20: RSA message encodings."""
import ctypes
import hashlib
import time
from .ghost import *        # noqa
from .hashes import constants

SRCS = [('rsa', 'c64'), ('util', 'c64'), ('internal', 'c64')]
FILES = ['rsa', 'util', 'internal', 'mpi', 'hash', 'drbg', 'asn1']
INFO = {'MD5': ('3020300c06082a864886f70d020505000410', 16), 'SHA1': ('3021300906052b0e03021a05000414', 20),
        'SHA224': ('302d300d06096086480165030402040500041c', 28), 'SHA256': ('3031300d060960864801650304020105000420', 32),
        'SHA384': ('3041300d060960864801650304020205000430', 48), 'SHA512': ('3051300d060960864801650304020305000440', 64)}


def B(name):
    return eq(V('p:' + name, 1), C(1, 1))


def I(b):
    return ite(b, C(1, 32), C(0, 32))


def types():
    c = constants(['HASH_' + n for n in INFO] + ['HASH_NONE'])
    return {k[5:]: v for k, v in c.items()}


class Rsa:
    """key handling, primitive operations, hash and generator as contracts"""

    def __init__(self, U, klen, bits=None, hlen=32):
        self.U, self.klen = U, klen
        self.bits = bits or 8 * klen
        self.ex, self.st = ex, st = U.exec(FILES)
        S = lambda n, f, need=False: U.stub(ex, n, f, need) if ex.find_func(n) else None
        for k in ('priv', 'pub'):
            S('rsa_%s_init' % k, lambda ex, s, a: None)
            S('rsa_%s_clear' % k, lambda ex, s, a: None)
            S('rsa_%s_import' % k, self.key_import)
            S('rsa_%s_verify' % k, lambda ex, s, a: I(B('sane')))
        S('rsa_priv_decrypt', self.prim)
        S('rsa_pub_encrypt', self.prim)
        for p in ('torsion__mpz_', 'torsion_mpz_', 'mpz_'):
            S(p + 'bytelen', lambda ex, s, a: K(self.klen))
            S(p + 'bitlen', lambda ex, s, a: self.width(s, self.bits))
        S('sec_equal', self.seceq)
        S('torsion_memequal', self.memeq)
        S('torsion_memzero', lambda ex, s, a: log(s, Event('wipe', 0, p=as_ptr(a[0]), n=a[1])))
        S('torsion_hash_has_backend', lambda ex, s, a: I(B('backend')))
        S('torsion_hash_init', self.hinit)
        S('torsion_hash_update', self.hupdate)
        S('torsion_hash_final', self.hfinal)
        S('torsion_hash_output_size', lambda ex, s, a: K(hlen))
        S('torsion_hmac_drbg_init', lambda ex, s, a: log(s, Event('seed', 0, chunk=Chunk(s, as_ptr(a[2]), a[3]))))
        S('torsion_hmac_drbg_generate', self.draw)
        S('mgf1xor', self.mgf)
        ex.unroll.update(['torsion_rsa_verify', 'torsion_rsa_sign', 'pkcs1v15_unpad', 'torsion_rsa_encrypt', 'pss_verify', 'torsion_rsa_decrypt_oaep',
                          'torsion_rsa_decrypt', 'cnd_memcpy', 'torsion_rsa_decrypt_key'])
        self.key = ex.sym_obj(st, 'key', V('kn', 64))
        st.assume(ult(V('kn', 64), K(1 << 60)))
        self.key.const = True

    def width(self, s, v):
        return K(v)

    def key_import(self, ex, s, a):
        ex.require(s, conj([T if as_ptr(a[1]).obj is self.key else F, eq(a[2], V('kn', 64))]), 'whole key')
        return I(B('key'))

    def prim(self, ex, s, a):
        """result bytes of the primitive are unknown"""
        reads(ex, s, a[2], a[3], 'operand')
        log(s, Event('prim', 0, chunk=Chunk(s, as_ptr(a[2]), a[3]), p=as_ptr(a[1]), n=a[3]))
        put(ex, s, a[1], K(self.klen), lambda k: UF('em', 8, (k,)))
        return I(B('prim'))

    def memeq(self, ex, s, a):
        n = a[2].val if a[2].op == 'c' else next((n for n in range(129) if s.decide(eq(a[2], K(n))) is T), None)
        if n is None:
            raise Unsupported('comparison of unknown length')
        x, y = Chunk(s, as_ptr(a[0]), a[2]), Chunk(s, as_ptr(a[1]), a[2])
        return I(conj([eq(x.at(s, K(i)), y.at(s, K(i))) for i in range(n)]))

    def seceq(self, ex, s, a):
        """operands below 2^31, decided by the unit on sec_equal itself"""
        ex.require(s, conj([ult(v, C(1 << 31, 32)) for v in a]), 'operand range')
        c = eq(a[0], a[1])
        d = s.decide(c)
        return C(1, 32) if d is T else C(0, 32) if d is F else I(c)

    def hinit(self, ex, s, a):
        log(s, Event('init', where(a[0]), type=a[1]))

    def hupdate(self, ex, s, a):
        reads(ex, s, a[1], a[2], 'hashed data')
        log(s, Event('update', where(a[0]), chunk=Chunk(s, as_ptr(a[1]), a[2])))

    def hfinal(self, ex, s, a):
        nm = 'digest%d' % sum(1 for e in s.extra or () if e.kind == 'final')
        put(ex, s, a[1], a[2], lambda k: UF(nm, 8, (k,)))
        log(s, Event('final', where(a[0]), n=a[2], name=nm))

    def draw(self, ex, s, a):
        i = sum(1 for e in s.extra or () if e.kind == 'draw')
        if i >= getattr(self, 'draws', 1):
            return []
        log(s, Event('draw', 0, p=as_ptr(a[1]), n=a[2]))
        put(ex, s, a[1], a[2], lambda k: UF('drawn%d' % i, 8, (k,)))

    def mgf(self, ex, s, a):
        """data ^= mask(seed at the time of the call)"""
        i = sum(1 for e in s.extra or () if e.kind == 'mask')
        old = Chunk(s, as_ptr(a[1]), a[2])
        log(s, Event('mask', 0, type=a[0], seed=Chunk(s, as_ptr(a[3]), a[4]), p=as_ptr(a[1]), n=a[2]))
        put(ex, s, a[1], a[2], lambda k: xor(old.at(s, k), UF('mask%d' % i, 8, (k,))))

    def inp(self, name, n):
        b = self.ex.sym_obj(self.st, name, n)
        b.const = True
        return b


def lst(f, n):
    return Bytes(n, f)


def const(bs):
    def f(k):
        r = C(0, 8)
        for i, b in enumerate(bs):
            r = ite(eq(k, K(i)), C(b, 8), r)
        return r
    return Bytes(len(bs), f)


def rep(b, n):
    return Bytes(n, lambda k: C(b, 8))


def mem(name, n, base=0):
    return Bytes(n, lambda k: UF(name, 8, (addc(k, base),)))


KLENS = (64, 65, 128)


def v15_verify_unit(U):
    ty = types()
    for klen in KLENS:
        for nm in ('SHA256', 'SHA1', 'NONE'):
            pre, hl = (b'', None) if nm == 'NONE' else (bytes.fromhex(INFO[nm][0]), INFO[nm][1])
            for ml in ((hl,) if hl else (0, 20, klen - 11, klen - 10)):
                R = Rsa(U, klen, hlen=hl or 0)
                ex, st = R.ex, R.st
                n, sl = V('n', 64), V('sl', 64)
                for v in (n, sl):
                    st.assume(ult(v, K(1 << 60)))
                msg, sig = R.inp('msg', n), R.inp('sig', sl)
                if not hl:
                    st.assume(eq(n, K(ml)))
                for s, r in ex.call(st, 'torsion_rsa_verify', [C(ty[nm], 32), Ptr(msg), K(ml) if not hl else n, Ptr(sig), sl, Ptr(R.key), V('kn', 64)]):
                    U.reach(s)
                    t = len(pre) + ml
                    fits = klen >= t + 11
                    em = lambda i: UF('em', 8, (K(i),))
                    cs = [eq(n, K(ml)), eq(sl, K(klen)), B('key'), B('sane'), B('prim'), T if fits else F]
                    if fits:
                        want = [0, 1] + [255] * (klen - t - 3) + [0] + list(pre)
                        cs += [eq(em(i), C(b, 8)) for i, b in enumerate(want)]
                        cs += [eq(em(len(want) + i), UF('m:msg', 8, (K(i),))) for i in range(ml)]
                    ex.require(s, eq(r, I(conj(cs))), '%s, %d bytes: accepted exactly for the encoding' % (nm, klen))
                    for e in s.extra or ():
                        if e.kind == 'prim':
                            same_bytes(ex, s, [e.chunk], [mem('m:sig', klen)], 'whole signature')


def sign_unit(U):
    ty = types()
    for klen in KLENS:
        for nm in ('SHA256', 'SHA512', 'NONE'):
            pre, hl = (b'', 21) if nm == 'NONE' else (bytes.fromhex(INFO[nm][0]), INFO[nm][1])
            R = Rsa(U, klen, hlen=hl if nm != 'NONE' else 0)
            ex, st = R.ex, R.st
            msg, ent, out, ol = R.inp('msg', hl), R.inp('ent', 32), ex.sym_obj(st, 'out', klen), ex.sym_obj(st, 'ol', 8)
            fits = klen >= len(pre) + hl + 11
            for s, r in ex.call(st, 'torsion_rsa_sign', [Ptr(out), Ptr(ol), C(ty[nm], 32), Ptr(msg), K(hl), Ptr(R.key), V('kn', 64), Ptr(ent)]):
                U.reach(s)
                ex.require(s, eq(r, I(conj([B('key'), B('sane'), B('prim'), T if fits else F]))), 'signed exactly when the encoding fits')
                for e in s.extra or ():
                    if e.kind == 'prim':
                        same_bytes(ex, s, [e.chunk], [const([0, 1]), rep(255, klen - len(pre) - hl - 3), const(b'\0' + pre), mem('m:msg', hl)], 'encoded message')
                if s.decide(ne(r, C(0, 32))) is T:
                    ex.require(s, eq(s.load(Ptr(ol), 8), K(klen)), 'length')
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(klen))], [mem('em', klen)], 'signature')


def info_unit(U):
    ty = types()
    U.need_reach = False
    ex, st = U.exec(FILES)
    for nm, (hx, hl) in INFO.items():
        d, n = ex.sym_obj(st, 'd', 8), ex.sym_obj(st, 'n', 8)
        b = bytes.fromhex(hx)
        for s, r in ex.call(st.fork(), 'get_digest_info', [Ptr(d), Ptr(n), C(ty[nm], 32)]):
            ex.require(s, conj([eq(r, C(1, 32)), eq(s.load(Ptr(n), 8), K(len(b)))]), 'prefix length of ' + nm)
            p = as_ptr(s.load(Ptr(d), 8))
            ex.require(s, conj([eq(s.load(p + K(i), 1), C(x, 8)) for i, x in enumerate(b)]), 'prefix of ' + nm)


def sec_unit(U):
    ex, st = U.exec(FILES)
    x, y = V('x', 32), V('y', 32)
    for v in (x, y):
        st.assume(ult(v, C(1 << 31, 32)))
    for s, r in ex.call(st.fork(), 'sec_equal', [x, y]):
        U.reach(s)
        ex.require(s, eq(r, I(eq(x, y))), 'equal')
    for s, r in ex.call(st.fork(), 'sec_lte', [x, y]):
        ex.require(s, eq(r, I(ule(x, y))), 'at most')


def unpad_unit(U):
    """one case for each position of the first zero byte behind the header"""
    for klen in (11, 13, 20, 36):
        for f in list(range(2, klen)) + [None]:
            R = Rsa(U, klen)
            ex, st = R.ex, R.st
            em, off = ex.sym_obj(st, 'e', klen), ex.sym_obj(st, 'off', 8)
            e = lambda i: UF('m:e', 8, (K(i),))
            for i in range(2, klen if f is None else f):
                st.assume(ne(e(i), C(0, 8)))
            if f is not None:
                st.store(Ptr(em, f), C(0, 8), 1)
            good = conj([eq(e(0), C(0, 8)), eq(e(1), C(2, 8)), T if f is not None and f >= 10 else F])
            for s, r in ex.call(st, 'pkcs1v15_unpad', [Ptr(off), Ptr(em), K(klen)]):
                U.reach(s)
                ex.require(s, conj([eq(r, I(good)), eq(s.load(Ptr(off), 8), ite(good, K((f or 0) + 1), K(0)))]), '%d bytes, first zero at %s' % (klen, f))


def pss_wrap_unit(U):
    """signing and verifying around the encoding"""
    ty = types()
    hl = 32
    for bits in (512, 513, 519):
        klen, emlen = (bits + 7) // 8, (bits + 6) // 8
        for slarg, sl in ((V('auto', 64), None), (K(0), emlen - 2 - hl), (K((1 << 64) - 1), hl), (K(7), 7)):
            if sl is None:
                continue
            R = Rsa(U, klen, bits)
            R.draws = 2
            ex, st = R.ex, R.st
            msg, ent, out, ol = R.inp('msg', hl), R.inp('ent', 32), ex.sym_obj(st, 'out', klen), ex.sym_obj(st, 'ol', 8)

            def enc(ex, s, a):
                ex.require(s, conj([eq(a[2], C(ty['SHA256'], 32)), eq(a[5], K(bits - 1)), T if as_ptr(a[0]).obj is out else F]), 'encoding parameters')
                same_bytes(ex, s, [Chunk(s, as_ptr(a[3]), a[4])], [mem('m:msg', hl)], 'digest')
                if sl:
                    same_bytes(ex, s, [Chunk(s, as_ptr(a[6]), a[7])], [mem('drawn0', sl)], 'salt')
                else:
                    ex.require(s, eq(a[7], K(0)), 'no salt')
                put(ex, s, a[0], K(emlen), lambda k: UF('enc', 8, (k,)))
                s.store(as_ptr(a[1]), K(emlen), 8)
                return I(B('enc'))
            U.stub(ex, 'pss_encode', enc)
            for s, r in ex.call(st, 'torsion_rsa_sign_pss', [Ptr(out), Ptr(ol), C(ty['SHA256'], 32), Ptr(msg), K(hl), Ptr(R.key), V('kn', 64), slarg, Ptr(ent)]):
                U.reach(s)
                pr = [e for e in s.extra or () if e.kind == 'prim']
                for e in pr:
                    same_bytes(ex, s, [e.chunk], [mem('enc', emlen)], 'signed block')
                if s.decide(ne(r, C(0, 32))) is T:
                    ex.require(s, conj([T if len(pr) == 1 else F, B('backend'), B('key'), B('sane'), B('enc'), B('prim'), eq(s.load(Ptr(ol), 8), K(klen))]), 'signed')
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(klen))], [mem('em', klen)], 'signature')
            R = Rsa(U, klen, bits)
            ex, st = R.ex, R.st
            n, sn = V('n', 64), V('sl', 64)
            for v in (n, sn):
                st.assume(ult(v, K(1 << 60)))
            msg, sig = R.inp('msg', n), R.inp('sig', sn)
            skip = 1 if (bits - 1) % 8 == 0 else 0

            def ver(ex, s, a):
                want = {0: K(0)}.get(slarg.val, K(sl)) if slarg.op == 'c' else K(sl)
                ex.require(s, conj([eq(a[0], C(ty['SHA256'], 32)), eq(a[4], K(bits - 1)), eq(a[5], want)]), 'encoding parameters')
                same_bytes(ex, s, [Chunk(s, as_ptr(a[1]), a[2])], [mem('m:msg', hl)], 'digest')
                same_bytes(ex, s, [Chunk(s, as_ptr(a[3]), K(emlen))], [mem('em', emlen, skip)], 'recovered block')
                return I(B('enc'))
            U.stub(ex, 'pss_verify', ver)
            for s, r in ex.call(st, 'torsion_rsa_verify_pss', [C(ty['SHA256'], 32), Ptr(msg), n, Ptr(sig), sn, Ptr(R.key), V('kn', 64), slarg]):
                U.reach(s)
                ex.require(s, eq(r, I(conj([B('backend'), eq(n, K(hl)), B('key'), B('sane'), eq(sn, K(klen)), B('prim'), B('enc')] +
                                           ([eq(UF('em', 8, (K(0),)), C(0, 8))] if skip else [])))), 'accepted exactly when the encoding is')
                for e in s.extra or ():
                    if e.kind == 'prim':
                        same_bytes(ex, s, [e.chunk], [mem('m:sig', klen)], 'whole signature')


def key_unit(U):
    """decryption of a key of known length: padding failures give the drawn bytes"""
    for klen, n in ((64, 16), (64, 53), (64, 54), (128, 48)):
        R = Rsa(U, klen)
        R.draws = 2
        ex, st = R.ex, R.st
        ml = V('ml', 64)
        st.assume(ult(ml, K(1 << 60)))
        msg, ent, out = R.inp('msg', ml), R.inp('ent', 32), ex.sym_obj(st, 'out', n)
        OFF = V('off', 64)

        def unpad(ex, s, a):
            same_bytes(ex, s, [Chunk(s, as_ptr(a[1]), a[2])], [mem('em', klen)], 'decrypted block')
            s.store(as_ptr(a[0]), OFF, 8)
            s.assume(ule(OFF, K(klen)))
            return I(B('padded'))
        U.stub(ex, 'pkcs1v15_unpad', unpad, n + 11 <= klen)
        for s, r in ex.call(st, 'torsion_rsa_decrypt_key', [Ptr(out), K(n), Ptr(msg), ml, Ptr(R.key), V('kn', 64), Ptr(ent)]):
            U.reach(s)
            ex.require(s, eq(r, I(conj([B('key'), B('sane'), eq(ml, K(klen)), T if n + 11 <= klen else F, B('prim')]))), 'padding never decides the result')
            if s.decide(ne(r, C(0, 32))) is T:
                good = conj([B('padded'), eq(OFF, K(klen - n))])
                for i in range(n):
                    ex.require(s, eq(s.load(Ptr(out, i), 1), ite(good, UF('em', 8, (K(klen - n + i),)), UF('drawn1', 8, (K(i),)))), 'key byte')


def decrypt_unit(U):
    for klen in (64, 65):
        R = Rsa(U, klen)
        ex, st = R.ex, R.st
        ml = V('ml', 64)
        st.assume(ult(ml, K(1 << 60)))
        msg, ent, out, ol = R.inp('msg', ml), R.inp('ent', 32), ex.sym_obj(st, 'out', klen), ex.sym_obj(st, 'ol', 8)
        OFF = V('off', 64)

        def unpad(ex, s, a):
            same_bytes(ex, s, [Chunk(s, as_ptr(a[1]), a[2])], [mem('em', klen)], 'decrypted block')
            s.store(as_ptr(a[0]), OFF, 8)
            s.assume(ule(OFF, K(klen)))
            return I(B('padded'))
        U.stub(ex, 'pkcs1v15_unpad', unpad)
        for s, r in ex.call(st, 'torsion_rsa_decrypt', [Ptr(out), Ptr(ol), Ptr(msg), ml, Ptr(R.key), V('kn', 64), Ptr(ent)]):
            U.reach(s)
            ex.require(s, eq(r, I(conj([B('key'), B('sane'), eq(ml, K(klen)), B('prim'), B('padded')]))), 'decrypted exactly when well formed')
            if s.decide(ne(r, C(0, 32))) is T:
                n = sub(K(klen), OFF)
                ex.require(s, eq(s.load(Ptr(ol), 8), n), 'length of the message')
                same_bytes(ex, s, [Chunk(s, Ptr(out), n)], [Bytes(n, lambda k: UF('em', 8, (add(k, OFF),)))], 'message')


def encrypt_unit(U):
    for klen in (64,):
        for ml in (0, 1, klen - 12, klen - 11, klen - 10):
            R = Rsa(U, klen)
            ex, st = R.ex, R.st
            msg, ent, out, ol = R.inp('msg', ml), R.inp('ent', 32), ex.sym_obj(st, 'out', klen), ex.sym_obj(st, 'ol', 8)
            plen = klen - ml - 3
            got = 0
            for i in range(plen):
                st.assume(ne(UF('drawn0', 8, (K(i),)), C(0, 8)))
            for s, r in ex.call(st, 'torsion_rsa_encrypt', [Ptr(out), Ptr(ol), Ptr(msg), K(ml), Ptr(R.key), V('kn', 64), Ptr(ent)]):
                U.reach(s)
                fits = ml <= klen - 11
                ex.require(s, eq(r, I(conj([B('key'), B('sane'), B('prim'), T if fits else F]))), 'encrypted exactly when the message fits')
                for e in s.extra or ():
                    if e.kind == 'prim':
                        same_bytes(ex, s, [e.chunk], [const([0, 2]), mem('drawn0', plen), const([0])] + ([mem('m:msg', ml)] if ml else []), 'encoded message')
                if s.decide(ne(r, C(0, 32))) is T:
                    ex.require(s, eq(s.load(Ptr(ol), 8), K(klen)), 'length')
            U.assume('padding bytes drawn nonzero at once; redrawing zero bytes is only tested')


def pss_encode_unit(U):
    ty = types()
    hl = 32
    for bits, sl in ((512, 0), (512, 20), (513, 30), (519, 31), (512, 30), (512, 31), (1024, 32)):
        emlen = (bits - 1 + 7) // 8
        R = Rsa(U, (bits + 7) // 8, bits)
        ex, st = R.ex, R.st
        msg, salt, out, ol = R.inp('msg', hl), R.inp('salt', sl), ex.sym_obj(st, 'out', emlen), ex.sym_obj(st, 'ol', 8)
        for s, r in ex.call(st, 'pss_encode', [Ptr(out), Ptr(ol), C(ty['SHA256'], 32), Ptr(msg), K(hl), K(bits - 1), Ptr(salt), K(sl)]):
            U.reach(s)
            fits = emlen >= hl + sl + 2
            ex.require(s, eq(r, C(fits, 32)), 'encoded exactly when it fits')
            if not fits:
                continue
            ev = list(s.extra or ())
            pss_hash(ex, s, ev, [rep(0, 8), mem('m:msg', hl)] + ([mem('m:salt', sl)] if sl else []), ty['SHA256'])
            masks = [e for e in ev if e.kind == 'mask']
            ok = len(masks) == 1
            if not ok:
                raise Unsupported('not exactly one mask')
            same_bytes(ex, s, [masks[0].seed], [mem('digest0', hl)], 'mask seed')
            d = emlen - hl - 1
            db = [rep(0, d - sl - 1), const([1])] + ([mem('m:salt', sl)] if sl else [])
            top = 0xff >> (8 * emlen - (bits - 1))
            masked = Bytes(d, lambda k: and_(xor(byte_of(s, db, k), UF('mask0', 8, (k,))), ite(eq(k, K(0)), C(top, 8), C(255, 8))))
            same_bytes(ex, s, [Chunk(s, Ptr(out), K(emlen))], [masked, mem('digest0', hl), const([0xbc])], 'encoded message')
            ex.require(s, eq(s.load(Ptr(ol), 8), K(emlen)), 'length')


def pss_hash(ex, s, ev, want, ty):
    fin = [i for i, e in enumerate(ev) if e.kind == 'final']
    ok = len(fin) == 1
    seq = sequence(ev, fin[0]) if ok else []
    ok = ok and seq and seq[0].kind == 'init'
    if not ok:
        raise Unsupported('not exactly one digest')
    ex.require(s, eq(seq[0].type, C(ty, 32)), 'hash algorithm')
    same_bytes(ex, s, [e.chunk for e in seq[1:]], want, 'hashed')


def pss_verify_unit(U):
    ty = types()
    hl = 32
    for bits, sl in ((512, 20), (513, 30), (519, 31), (512, 30), (512, 31), (512, 0), (519, 0)):
        emlen = (bits - 1 + 7) // 8
        R = Rsa(U, (bits + 7) // 8, bits)
        ex, st = R.ex, R.st
        msg, em = R.inp('msg', hl), ex.sym_obj(st, 'e', emlen)
        d = emlen - hl - 1
        top = 0xff >> (8 * emlen - (bits - 1))
        e0 = lambda i: UF('m:e', 8, (K(i),))
        db = lambda i: and_(xor(e0(i), UF('mask0', 8, (K(i),))), C(top if i == 0 else 255, 8))
        heq = conj([eq(UF('digest0', 8, (K(i),)), e0(d + i)) for i in range(hl)])
        frame = [eq(e0(emlen - 1), C(0xbc, 8)), eq(and_(e0(0), C(0xff & ~top, 8)), C(0, 8)), heq]
        for s, r in ex.call(st, 'pss_verify', [C(ty['SHA256'], 32), Ptr(msg), K(hl), Ptr(em), K(bits - 1), K(sl)]):
            U.reach(s)
            ev = list(s.extra or ())
            fits = emlen >= hl + sl + 2
            def padded(salt):
                z = d - salt - 1
                return conj([eq(db(i), C(0, 8)) for i in range(z)] + [eq(db(z), C(1, 8))])
            if sl:
                pads = [(sl, padded(sl))] if fits else []
            else:
                pads = [(k, padded(k)) for k in range(d)]
            ex.require(s, eq(r, I(conj(frame + [disj([p for _, p in pads] or [F])]))), '%d bits, salt %s: accepted exactly for the encoding' % (bits, sl or 'any'))
            fin = [i for i, e in enumerate(ev) if e.kind == 'final']
            for m in [e for e in ev if e.kind == 'mask']:
                same_bytes(ex, s, [m.seed], [mem('m:e', hl, d)], 'mask seed')
                ex.require(s, conj([T if m.p.obj is em else F, eq(m.p.off, K(0)), eq(m.n, K(d))]), 'masked part')
            if fin:
                salts = [k for k, p in pads if s.decide(p) is T]
                ok = len(salts) == 1
                ex.require(s, T if ok else F, 'salt found')
                if ok:
                    k = salts[0]
                    pss_hash(ex, s, ev, [rep(0, 8), mem('m:msg', hl)] +
                             ([Bytes(k, lambda i, k=k: xor(UF('m:e', 8, (addc(i, d - k),)), UF('mask0', 8, (addc(i, d - k),))))] if k else []), ty['SHA256'])


def oaep_encrypt_unit(U):
    ty = types()
    hl = 20
    for klen in (64,):
        for ml in (0, 1, klen - 2 * hl - 2, klen - 2 * hl - 1):
            R = Rsa(U, klen, hlen=hl)
            ex, st = R.ex, R.st
            ln = V('ln', 64)
            st.assume(ult(ln, K(1 << 60)))
            msg, ent, lab, out, ol = R.inp('msg', ml), R.inp('ent', 32), R.inp('label', ln), ex.sym_obj(st, 'out', klen), ex.sym_obj(st, 'ol', 8)
            d = klen - hl - 1
            for s, r in ex.call(st, 'torsion_rsa_encrypt_oaep', [Ptr(out), Ptr(ol), C(ty['SHA1'], 32), Ptr(msg), K(ml), Ptr(R.key), V('kn', 64), Ptr(lab), ln, Ptr(ent)]):
                U.reach(s)
                fits = ml <= klen - 2 * hl - 2
                ex.require(s, eq(r, I(conj([B('backend'), B('key'), B('sane'), B('prim'), T if fits else F]))), 'encrypted exactly when the message fits')
                ev = list(s.extra or ())
                for e in ev:
                    if e.kind != 'prim':
                        continue
                    pss_hash(ex, s, ev, [Bytes(ln, lambda k: UF('m:label', 8, (k,)))], ty['SHA1'])
                    mk = [q for q in ev if q.kind == 'mask']
                    ok = len(mk) == 2
                    if not ok:
                        raise Unsupported('not exactly two masks')
                    db = [mem('digest0', hl), rep(0, d - ml - 1 - hl), const([1])] + ([mem('m:msg', ml)] if ml else [])
                    mdb = Bytes(d, lambda k: xor(byte_of(s, db, k), UF('mask0', 8, (k,))))
                    same_bytes(ex, s, [mk[0].seed], [mem('drawn0', hl)], 'first seed')
                    same_bytes(ex, s, [mk[1].seed], [mdb], 'second seed')
                    same_bytes(ex, s, [e.chunk], [const([0]), Bytes(hl, lambda k: xor(UF('drawn0', 8, (k,)), UF('mask1', 8, (k,)))), mdb], 'encoded message')


def oaep_decrypt_unit(U):
    ty = types()
    hl = 20
    for klen in (42, 43, 50, 64):
        R = Rsa(U, klen, hlen=hl)
        ex, st = R.ex, R.st
        ln, ml = V('ln', 64), V('ml', 64)
        for v in (ln, ml):
            st.assume(ult(v, K(1 << 60)))
        msg, ent, lab, out, ol = R.inp('msg', ml), R.inp('ent', 32), R.inp('label', ln), ex.sym_obj(st, 'out', klen), ex.sym_obj(st, 'ol', 8)
        d = klen - hl - 1
        em = lambda i: UF('em', 8, (K(i),))
        db = lambda i: xor(em(1 + hl + i), UF('mask1', 8, (K(i),)))
        lhash = conj([eq(db(i), UF('digest0', 8, (K(i),))) for i in range(hl)])
        for s, r in ex.call(st, 'torsion_rsa_decrypt_oaep', [Ptr(out), Ptr(ol), C(ty['SHA1'], 32), Ptr(msg), ml, Ptr(R.key), V('kn', 64), Ptr(lab), ln, Ptr(ent)]):
            U.reach(s)
            ev = list(s.extra or ())
            base = [B('backend'), B('key'), B('sane'), eq(ml, K(klen)), B('prim')]
            mk = [q for q in ev if q.kind == 'mask']
            if not mk:
                ex.require(s, conj([eq(r, C(0, 32)), not_(conj(base))]), 'rejected before decryption')
                continue
            if len(mk) != 2:
                raise Unsupported('not exactly two masks')
            same_bytes(ex, s, [mk[0].seed], [mem('em', d, 1 + hl)], 'first seed')
            same_bytes(ex, s, [mk[1].seed], [Bytes(hl, lambda k: xor(UF('em', 8, (addc(k, 1),)), UF('mask0', 8, (k,))))], 'second seed')
            pss_hash(ex, s, ev, [Bytes(ln, lambda k: UF('m:label', 8, (k,)))], ty['SHA1'])
            # split over the end of the zero run
            for f in list(range(hl, d)) + [None]:
                s2 = s.fork()
                for i in range(hl, d if f is None else f):
                    s2.assume(eq(db(i), C(0, 8)))
                if f is not None:
                    s2.assume(ne(db(f), C(0, 8)))
                good = conj(base + [eq(em(0), C(0, 8)), lhash, eq(db(f), C(1, 8)) if f is not None else F])
                if solve_unsat(s2):
                    continue
                ex.require(s2, eq(r, I(good)), '%d bytes, separator at %s: accepted exactly when well formed' % (klen, f))
                if f is not None and s2.decide(ne(r, C(0, 32))) is T:
                    n = d - f - 1
                    ex.require(s2, eq(s2.load(Ptr(ol), 8), K(n)), 'length of the message')
                    for i in range(n):
                        ex.require(s2, eq(s2.load(Ptr(out, i), 1), db(f + 1 + i)), 'message byte')


def solve_unsat(s):
    return any(x is F for x in s.pc)


def mgf_unit(U):
    """mask generation: block i is the digest of seed and counter i"""
    hl = 20
    for n in (0, 1, 19, 20, 21, 43, 60):
        R = Rsa(U, 64, hlen=hl)
        ex, st = R.ex, R.st
        ex.stubs.pop('mgf1xor', None)
        ex.unroll.add('mgf1xor')
        sn = V('sn', 64)
        st.assume(ult(sn, K(1 << 60)))
        seed, out = R.inp('seed', sn), ex.sym_obj(st, 'out', n + 1)
        o = offsets('torsion/hash.h', ['hash_t'])['hash_t'][1]
        hid = {}
        cnt = [0]

        def init(ex, s, a):
            log(s, Event('init', where(a[0]), type=a[1]))
            cnt[0] += 1
            hid[cnt[0]] = ()
            s.store(as_ptr(a[0]), K((0xcafe << 48) | cnt[0]), 8)

        def upd(ex, s, a):
            h = s.load(as_ptr(a[0]), 8)
            if h.op != 'c' or h.val >> 48 != 0xcafe:
                raise Unsupported('hash state')
            cnt[0] += 1
            hid[cnt[0]] = hid[h.val & 0xffffffff] + (Chunk(s, as_ptr(a[1]), a[2]),)
            s.store(as_ptr(a[0]), K((0xcafe << 48) | cnt[0]), 8)

        def fin(ex, s, a):
            h = s.load(as_ptr(a[0]), 8)
            if h.op != 'c' or h.val >> 48 != 0xcafe:
                raise Unsupported('hash state')
            i = sum(1 for e in s.extra or () if e.kind == 'final')
            log(s, Event('final', where(a[0]), chunks=list(hid[h.val & 0xffffffff])))
            ex.require(s, eq(a[2], K(hl)), 'whole digest')
            put(ex, s, a[1], a[2], lambda k: UF('digest%d' % i, 8, (k,)))
        ex.stubs.update({'torsion_hash_init': init, 'torsion_hash_update': upd, 'torsion_hash_final': fin})
        for s, r in ex.call(st, 'mgf1xor', [C(types()['SHA1'], 32), Ptr(out), K(n), Ptr(seed), sn]):
            U.reach(s)
            fs = [e for e in s.extra or () if e.kind == 'final']
            ex.require(s, T if len(fs) == (n + hl - 1) // hl else F, 'number of blocks')
            for i, e in enumerate(fs):
                same_bytes(ex, s, e.chunks, [Bytes(sn, lambda k: UF('m:seed', 8, (k,))), const([0, 0, 0, i])], 'block input')
            for i in range(n):
                ex.require(s, eq(s.load(Ptr(out, i), 1), xor(UF('m:out', 8, (K(i),)), UF('digest%d' % (i // hl), 8, (K(i % hl),)))), 'masked byte')
            ex.require(s, eq(s.load(Ptr(out, n), 1), UF('m:out', 8, (K(n),))), 'nothing beyond')


UNITS = [('digest info', info_unit), ('rsa_verify', v15_verify_unit), ('rsa_sign', sign_unit), ('pkcs1v15_unpad', unpad_unit), ('rsa_decrypt', decrypt_unit),
         ('rsa_encrypt', encrypt_unit), ('pss_encode', pss_encode_unit), ('pss_verify', pss_verify_unit), ('rsa_encrypt_oaep', oaep_encrypt_unit),
         ('rsa_decrypt_oaep', oaep_decrypt_unit), ('mgf1xor', mgf_unit), ('sec_equal', sec_unit), ('PSS signatures', pss_wrap_unit), ('rsa_decrypt_key', key_unit)]


def prime(rng, bits):
    while True:
        p = rng.getrandbits(bits) | (3 << (bits - 2)) | 1
        if any(p % q == 0 for q in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)) or (p - 1) % 65537 == 0:
            continue
        if all(pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7)):
            return p


def der(v):
    b = v.to_bytes(v.bit_length() // 8 + 1, 'big')
    return b'\x02' + dlen(len(b)) + b


def dlen(n):
    return bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255])


def mkkey(rng, bits):
    e = 65537
    while True:
        p, q = prime(rng, (bits + 1) // 2), prime(rng, bits // 2)
        n = p * q
        if p != q and n.bit_length() == bits:
            break
    p, q = max(p, q), min(p, q)
    d = pow(e, -1, (p - 1) * (q - 1))
    priv = b''.join(der(v) for v in (0, n, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p)))
    pub = der(n) + der(e)
    return n, e, d, b'\x30' + dlen(len(priv)) + priv, b'\x30' + dlen(len(pub)) + pub


def mgf(h, seed, n):
    r = b''
    i = 0
    while len(r) < n:
        r += hashlib.new(h, seed + i.to_bytes(4, 'big')).digest()
        i += 1
    return r[:n]


def xb(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def pss(h, md, salt, embits):
    emlen = (embits + 7) // 8
    H = hashlib.new(h, bytes(8) + md + salt).digest()
    db = bytes(emlen - len(salt) - len(H) - 2) + b'\x01' + salt
    m = bytearray(xb(db, mgf(h, H, len(db))))
    m[0] &= 0xff >> (8 * emlen - embits)
    return bytes(m) + H + b'\xbc'


def pss_ok(h, md, em, embits, sl):
    hl = len(md)
    emlen = (embits + 7) // 8
    if em[-1] != 0xbc or emlen < hl + 2:
        return False
    m, H = em[:emlen - hl - 1], em[emlen - hl - 1:-1]
    top = 0xff >> (8 * emlen - embits)
    if m[0] & ~top:
        return False
    db = bytearray(xb(m, mgf(h, H, len(m))))
    db[0] &= top
    z = bytes(db).lstrip(b'\0')
    if not z or z[0] != 1 or (sl is not None and len(z) - 1 != sl):
        return False
    return hashlib.new(h, bytes(8) + md + z[1:]).digest() == H


def v15_ok(em):
    if em[:2] != b'\0\2':
        return None
    i = em.find(b'\0', 2)
    return None if i < 10 else em[i + 1:]


def oaep_ok(h, em, label, hl):
    if em[0]:
        return None
    ms, mdb = em[1:1 + hl], em[1 + hl:]
    seed = xb(ms, mgf(h, mdb, hl))
    db = xb(mdb, mgf(h, seed, len(mdb)))
    z = db[hl:].lstrip(b'\0')
    if db[:hl] != hashlib.new(h, label).digest() or not z or z[0] != 1:
        return None
    return z[1:]


def concrete(rng, budget, hints):
    lib = clib(FILES + ['cipher'])
    ty = types()
    g = lambda n: fn(lib, 'torsion_rsa_' + n, ctypes.c_int)
    S = ctypes.c_size_t
    verify, sign, enc, dec = g('verify'), g('sign'), g('encrypt'), g('decrypt')
    vpss, spss, eo, do, dk = g('verify_pss'), g('sign_pss'), g('encrypt_oaep'), g('decrypt_oaep'), g('decrypt_key')
    cases = 0
    end = time.time() + budget
    names = {'SHA1': 'sha1', 'SHA256': 'sha256', 'SHA224': 'sha224', 'SHA512': 'sha512', 'MD5': 'md5', 'SHA384': 'sha384'}
    while cases == 0 or (time.time() < end and cases < 400):
        for bits in (512, 513, 514, 519, 521, 777, 1024):
            n, e, d, priv, pub = mkkey(rng, bits)
            klen = (bits + 7) // 8
            rb = lambda k: bytes(rng.getrandbits(8) for _ in range(k))
            raw = lambda em: pow(int.from_bytes(em, 'big'), d, n).to_bytes(klen, 'big')
            op = lambda em: pow(int.from_bytes(em, 'big'), e, n).to_bytes(klen, 'big')
            out, ol = ctypes.create_string_buffer(klen + 16), S(0)
            ctx = {'bits': bits, 'pub': pub.hex()}
            for nm, h in names.items():
                pre, hl = bytes.fromhex(INFO[nm][0]), INFO[nm][1]
                t = ctypes.c_int(ty[nm])
                md = rb(hl)
                L = len(pre) + hl
                fits = klen >= L + 11
                r = sign(out, ctypes.byref(ol), t, md, S(hl), priv, S(len(priv)), rb(32))
                if r != int(fits):
                    raise Fail('rsa_sign returned %d' % r, ctx, hash=nm)
                if fits:
                    em = b'\0\1' + b'\xff' * (klen - L - 3) + b'\0' + pre + md
                    if out.raw[:klen] != raw(em) or ol.value != klen:
                        raise Fail('wrong signature', ctx, hash=nm, md=md.hex(), got=out.raw[:klen].hex())
                    bad = bytearray(em)
                    i = rng.choice([0, 1, 2, klen - L - 2, klen - L - 1, rng.randrange(klen)])
                    bad[i] ^= 1 << rng.randrange(8)
                    short = b'\0\1' + b'\xff' * 8 + b'\0' + pre + md
                    short += rb(klen - len(short))
                    for m, want in ((em, 1), (bytes(bad), 0), (short, int(short == em))):
                        if int.from_bytes(m, 'big') >= n:
                            continue
                        sg = raw(m)
                        r = verify(t, md, S(hl), sg, S(klen), pub, S(len(pub)))
                        if r != want:
                            raise Fail('rsa_verify returned %d, not %d' % (r, want), ctx, hash=nm, md=md.hex(), em=m.hex(), sig=sg.hex())
                    sg = raw(em)
                    for x in (sg + b'\0', sg[:-1], b'\0' + sg):
                        if verify(t, md, S(hl), x, S(len(x)), pub, S(len(pub))):
                            raise Fail('signature of %d bytes accepted' % len(x), ctx, hash=nm)
                # PSS
                emlen = (bits + 6) // 8
                for slarg, sl in ((0, emlen - 2 - hl), ((1 << 64) - 1, hl), (5, 5)):
                    ok = sl >= 0 and emlen >= hl + sl + 2
                    r = spss(out, ctypes.byref(ol), t, md, S(hl), priv, S(len(priv)), S(slarg), rb(32))
                    if r != int(ok):
                        raise Fail('rsa_sign_pss returned %d' % r, ctx, hash=nm, salt=slarg)
                    if not ok:
                        continue
                    em = op(out.raw[:klen])
                    if em[:klen - emlen].strip(b'\0') or not pss_ok(h, md, em[klen - emlen:], bits - 1, sl):
                        raise Fail('wrong encoding in the signature', ctx, hash=nm, md=md.hex(), em=em.hex(), salt=sl)
                    k = rng.randrange(0, emlen - hl - 1)
                    em = pss(h, md, rb(k), bits - 1)
                    bad = bytearray(em)
                    i = rng.choice([0, emlen - 1, emlen - hl - 2, emlen - hl - 2 - k, rng.randrange(emlen)])
                    bad[i] ^= 1 << rng.randrange(8)
                    good = pss(h, md, rb(sl), bits - 1)
                    for m in (em, bytes(bad), good, b'\1' + good if klen > emlen else good):
                        if int.from_bytes(m, 'big') >= n:
                            continue
                        want = int(len(m) == emlen and pss_ok(h, md, m, bits - 1, None if slarg == 0 else sl))
                        sg = raw(m)
                        r = vpss(t, md, S(hl), sg, S(klen), pub, S(len(pub)), S(slarg))
                        if r != want:
                            raise Fail('rsa_verify_pss returned %d, not %d' % (r, want), ctx, hash=nm, md=md.hex(), em=m.hex(), sig=sg.hex(), salt=slarg)
                # OAEP
                lab = rb(rng.randrange(0, 40))
                mx = klen - 2 * hl - 2
                for ml in (0, max(mx, 0), max(mx + 1, 0)):
                    msg = rb(ml)
                    r = eo(out, ctypes.byref(ol), t, msg, S(ml), pub, S(len(pub)), lab, S(len(lab)), rb(32))
                    if r != int(ml <= mx):
                        raise Fail('rsa_encrypt_oaep returned %d' % r, ctx, hash=nm, ml=ml)
                    if r and (oaep_ok(h, raw(out.raw[:klen]), lab, hl) != msg or ol.value != klen):
                        raise Fail('wrong OAEP encoding', ctx, hash=nm, ml=ml, em=raw(out.raw[:klen]).hex())
                if mx < 0:
                    continue
                ml = rng.randrange(mx + 1)
                msg = rb(ml)
                db = bytearray(hashlib.new(h, lab).digest() + bytes(mx - ml) + b'\1' + msg)
                for kind in ('good', 'sep', 'lhash', 'pad', 'none', 'first'):
                    x, f = bytearray(db), 0
                    if kind == 'sep':
                        x[hl + mx - ml] = rng.choice([2, 3, 0x80, 0x81])
                    elif kind == 'lhash':
                        x[rng.randrange(hl)] ^= 1 << rng.randrange(8)
                    elif kind == 'pad' and mx > ml:
                        x[hl + rng.randrange(mx - ml)] = rng.choice([2, 0x80, 0xff, 1])
                    elif kind == 'none':
                        x[hl:] = bytes(len(x) - hl)
                    elif kind == 'first':
                        f = 1
                    seed = rb(hl)
                    mdb = xb(x, mgf(h, seed, len(x)))
                    em = bytes([f]) + xb(seed, mgf(h, mdb, hl)) + mdb
                    if int.from_bytes(em, 'big') >= n:
                        continue
                    want = oaep_ok(h, em, lab, hl)
                    ct = op(em)
                    r = do(out, ctypes.byref(ol), t, ct, S(klen), priv, S(len(priv)), lab, S(len(lab)), rb(32))
                    if r != int(want is not None) or (r and out.raw[:ol.value] != want):
                        raise Fail('rsa_decrypt_oaep: wrong answer (%s)' % kind, ctx, hash=nm, em=em.hex(), label=lab.hex(), priv=priv.hex())
                cases += 1
            # v1.5 encryption
            for ml in (0, 1, klen - 11, klen - 10):
                msg = rb(ml)
                r = enc(out, ctypes.byref(ol), msg, S(ml), pub, S(len(pub)), rb(32))
                if r != int(ml <= klen - 11) or (r and v15_ok(raw(out.raw[:klen])) != msg):
                    raise Fail('rsa_encrypt: wrong answer', ctx, ml=ml)
            for z in (None, 2, 8, 9, 10, 11, klen - 1, rng.randrange(2, klen)):
                em = bytearray(b'\0\2' + bytes(rng.randrange(1, 256) for _ in range(klen - 2)))
                if z is not None:
                    em[z] = 0
                if rng.random() < .3:
                    em[1] = rng.choice([0, 1, 3])
                em = bytes(em)
                want = v15_ok(em)
                ct = op(em)
                r = dec(out, ctypes.byref(ol), ct, S(klen), priv, S(len(priv)), rb(32))
                if r != int(want is not None) or (r and out.raw[:ol.value] != want):
                    raise Fail('rsa_decrypt: wrong answer', ctx, em=em.hex(), priv=priv.hex())
                for L in (16, len(want or b'x' * 20)):
                    if L + 11 > klen:
                        continue
                    r = dk(out, S(L), ct, S(klen), priv, S(len(priv)), rb(32))
                    same = want is not None and len(want) == L
                    if r != 1 or (same and out.raw[:L] != want) or (not same and L >= 8 and out.raw[:L] == em[klen - L:]):
                        raise Fail('rsa_decrypt_key: wrong answer', ctx, em=em.hex(), priv=priv.hex(), n=L)
            cases += 1
    return cases
