"""Contracts of the keyed hash, hash and AES interfaces as transcripts: a
context holds the number of a table entry, so that copies of a context keep
what it has absorbed; every result is a fresh symbol."""
from .ghost import *        # noqa

TAG = 0xcafe << 48


class Script:
    def __init__(self, U, ex, hl, hmac=True, hash=True, aes=False):
        self.U, self.ex, self.hl = U, ex, hl
        self.tab = []
        S = lambda n, f: U.stub(ex, n, f, False) if ex.find_func(n) else None
        S('torsion_hash_output_size', lambda ex, s, a: K(hl))
        S('torsion_hash_has_backend', lambda ex, s, a: ite(eq(V('backend', 1), C(1, 1)), C(1, 32), C(0, 32)))
        S('torsion_memzero', lambda ex, s, a: None)
        if hmac:
            S('torsion_hmac_init', self.hmac_init)
            S('torsion_hmac_update', self.update)
            S('torsion_hmac_final', lambda ex, s, a: self.final(ex, s, a, K(hl)))
        if hash:
            S('torsion_hash_init', self.hash_init)
            S('torsion_hash_update', self.update)
            S('torsion_hash_final', lambda ex, s, a: self.final(ex, s, a, a[2]))
        if aes:
            S('torsion_aes_init_encrypt', self.aes_init)
            S('torsion_aes_encrypt', self.aes_encrypt)

    def put(self, s, p, ent):
        self.tab.append(ent)
        s.store(as_ptr(p), K(TAG | (len(self.tab) - 1)), 8)

    def get(self, s, p):
        h = s.load(as_ptr(p), 8)
        if h.op != 'c' or (h.val >> 48) != 0xcafe:
            raise Unsupported('context not initialised by the interface')
        return self.tab[h.val & 0xffffffff]

    def hmac_init(self, ex, s, a):
        reads(ex, s, a[2], a[3], 'key')
        self.put(s, a[0], ('hmac', a[1], Chunk(s, as_ptr(a[2]), a[3]), ()))

    def hash_init(self, ex, s, a):
        self.put(s, a[0], ('hash', a[1], None, ()))

    def update(self, ex, s, a):
        k, t, key, ch = self.get(s, a[0])
        reads(ex, s, a[1], a[2], 'data')
        self.put(s, a[0], (k, t, key, ch + (Chunk(s, as_ptr(a[1]), a[2]),)))

    def final(self, ex, s, a, n):
        k, t, key, ch = self.get(s, a[0])
        i = len([e for e in s.extra or () if e.kind == 'final'])
        log(s, Event('final', 0, what=k, type=t, hkey=key, chunks=list(ch), n=n))
        s.store(as_ptr(a[0]), K(0), 8)
        put(ex, s, a[1], n, lambda j: UF('mac%d' % i, 8, (j,)))

    def aes_init(self, ex, s, a):
        n = a[1].val // 8
        reads(ex, s, a[2], K(n), 'key')
        self.put(s, a[0], ('aes', [s.load(as_ptr(a[2]) + K(i), 1) for i in range(n)]))

    def aes_encrypt(self, ex, s, a):
        k, key = self.get(s, a[0])
        i = len([e for e in s.extra or () if e.kind == 'aes'])
        reads(ex, s, a[2], K(16), 'block')
        log(s, Event('aes', 0, hkey=key, block=[s.load(as_ptr(a[2]) + K(j), 1) for j in range(16)]))
        put(ex, s, a[1], K(16), lambda j: UF('aes%d' % i, 8, (j,)))


def mac(i, n):
    return Bytes(n, lambda k: UF('mac%d' % i, 8, (k,)))


def mem(name, n, base=0):
    return Bytes(n, lambda k: UF(name, 8, (addc(k, base),)))


def const(bs):
    def f(k):
        r = C(0, 8)
        for i, b in enumerate(bs):
            r = ite(eq(k, K(i)), C(b, 8), r)
        return r
    return Bytes(len(bs), f)


def rep(b, n):
    return Bytes(n, lambda k: C(b, 8))


def transcript(ex, s, want, ty):
    """want: list of (key or None, [chunks]) in order of finalisation"""
    fs = [e for e in s.extra or () if e.kind == 'final']
    if len(fs) != len(want):
        # the computation is organised differently; the contract cannot tell
        raise Unsupported('%d digests where the contract has %d' % (len(fs), len(want)))
    for i, (e, (key, ch)) in enumerate(zip(fs, want)):
        ex.require(s, eq(e.type, C(ty, 32)), 'algorithm of digest %d' % i)
        ex.require(s, T if (e.what == 'hmac') == (key is not None) else F, 'kind of digest %d' % i)
        if key is not None:
            same_bytes(ex, s, [e.hkey], key, 'key of digest %d' % i)
        same_bytes(ex, s, e.chunks or [rep(0, 0)], ch, 'input of digest %d' % i)
    return True
