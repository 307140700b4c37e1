"""C08: ChaCha20-Poly1305 transcript and secret boxes."""
import time
from .ghost import *        # noqa

SRCS = [('aead', 'c64'), ('ies', 'c64'), ('stream', 'c64'), ('mac', 'c64'), ('util', 'c64')]
FILES = ['aead', 'ies', 'mac', 'stream', 'util', 'internal']


def KSB(i):
    """keystream byte at absolute position"""
    return UF('KS', 8, (i,))


def conts(U, ex, cipher, L):
    """contracts of the cipher (C07) and the authenticator (C06)"""
    csz, psz = L['c'], L['p']

    def used(s):
        r = K(0)
        for e in s.extra or ():
            if e.kind == 'crypt':
                r = add(r, e.chunk.n)
        return r

    def cinit(ex, s, a):
        reads(ex, s, a[1], a[2], 'key')
        reads(ex, s, a[3], a[4], 'nonce')
        log(s, Event('cinit', where(a[0]), k=Chunk(s, as_ptr(a[1]), a[2]), n=Chunk(s, as_ptr(a[3]), a[4]), ctr=a[5]))
        ex.havoc(s, a[0], csz, 'cipher')

    def crypt(ex, s, a):
        reads(ex, s, a[2], a[3], 'input')
        u = used(s)
        ch = Chunk(s, as_ptr(a[2]), a[3])
        log(s, Event('crypt', where(a[0]), chunk=ch))
        ex.havoc(s, a[0], csz, 'cipher')
        put(ex, s, a[1], a[3], lambda k: xor(ch.at(s, k), KSB(add(u, k))))

    def pinit(ex, s, a):
        reads(ex, s, a[1], K(32), 'key')
        log(s, Event('pinit', where(a[0]), k=Chunk(s, as_ptr(a[1]), K(32))))
        ex.havoc(s, a[0], psz, 'poly')

    def pupdate(ex, s, a):
        reads(ex, s, a[1], a[2], 'authenticated data')
        log(s, Event('pupdate', where(a[0]), chunk=Chunk(s, as_ptr(a[1]), a[2])))
        ex.havoc(s, a[0], psz, 'poly')

    def ppad(ex, s, a):
        log(s, Event('ppad', where(a[0])))
        ex.havoc(s, a[0], psz, 'poly')

    def pfinal(ex, s, a):
        log(s, Event('pfinal', where(a[0])))
        ex.havoc(s, a[0], psz, 'poly')
        put(ex, s, a[1], K(16), lambda k: UF('MAC', 8, (k,)))
    for nm, f in ((cipher + '_init', cinit), (cipher + '_crypt', crypt), ('poly1305_init', pinit),
                  ('poly1305_update', pupdate), ('poly1305_pad', ppad), ('poly1305_final', pfinal)):
        U.stub(ex, 'torsion_' + nm, f, False)
    U.assume('cipher and authenticator behave as proved in C06 and C07')


def kinds(s):
    return [e.kind for e in s.extra or ()]


def aead(U, ctlen=None):
    o = offsets('torsion/aead.h', ['chachapoly_t', 'chachapoly_t.chacha', 'chachapoly_t.poly', 'chachapoly_t.adlen',
                                   'chachapoly_t.ctlen'])
    o = {k.split('.')[-1]: v for k, v in o.items()}
    ex, st = U.exec(FILES)
    conts(U, ex, 'chacha20', {'c': o['chacha'][1], 'p': o['poly'][1]})
    A = ex.sym_obj(st, 'aead', o['chachapoly_t'][1])
    al, cl = V('adlen', 64), V('ctlen', 64)
    st.assume(ult(al, K(1 << 60)))
    st.assume(ult(cl, K(1 << 60)))
    st.store(Ptr(A, o['adlen'][0]), al, 8)
    st.store(Ptr(A, o['ctlen'][0]), cl, 8)
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    return ex, st, o, A, al, cl, n


def counters(ex, s, A, o, al, cl):
    ex.require(s, eq(s.load(Ptr(A, o['adlen'][0]), 8), al), 'associated data length')
    ex.require(s, eq(s.load(Ptr(A, o['ctlen'][0]), 8), cl), 'ciphertext length')


def where_ok(ex, s, A, o):
    for e in s.extra or ():
        part = 'chacha' if e.kind in ('cinit', 'crypt') else 'poly'
        ex.require(s, T if e.key == (A.id, K(o[part][0])) else F, 'operates on its own context')


def init_unit(nl):
    def unit(U):
        ex, st, o, A, al, cl, n = aead(U)
        key, iv = ex.sym_obj(st, 'key', 32), ex.sym_obj(st, 'iv', nl)
        key.const = iv.const = True
        for s, r in ex.call(st, 'torsion_chachapoly_init', [Ptr(A), Ptr(key), Ptr(iv), K(nl)]):
            U.reach(s)
            where_ok(ex, s, A, o)
            ex.require(s, T if kinds(s) == ['cinit', 'crypt', 'pinit'] else F, 'cipher, one block, authenticator')
            ev = s.extra
            if kinds(s) == ['cinit', 'crypt', 'pinit']:
                same_bytes(ex, s, [ev[0].k], [Bytes(32, lambda k: UF('m:key', 8, (k,)))], 'cipher key')
                same_bytes(ex, s, [ev[0].n], [Bytes(nl, lambda k: UF('m:iv', 8, (k,)))], 'cipher nonce')
                ex.require(s, eq(ev[0].ctr, K(0)), 'counter starts at zero')
                ex.require(s, eq(ev[1].chunk.n, K(64)), 'message starts at block one')
                same_bytes(ex, s, [ev[2].k], [Bytes(32, KSB)], 'authenticator key is the first keystream half block')
            counters(ex, s, A, o, K(0), K(0))
    return unit


def aad_unit(U):
    ex, st, o, A, al, cl, n = aead(U)
    d = ex.sym_obj(st, 'data', n)
    d.const = True
    for s, r in ex.call(st, 'torsion_chachapoly_aad', [Ptr(A), Ptr(d), n]):
        U.reach(s)
        where_ok(ex, s, A, o)
        ex.require(s, T if set(kinds(s)) <= {'pupdate'} else F, 'only authenticated')
        same_bytes(ex, s, [e.chunk for e in s.extra or ()], [Bytes(n, lambda k: UF('m:data', 8, (k,)))], 'associated data')
        counters(ex, s, A, o, add(al, n), cl)


def crypt_unit(f, inplace):
    def unit(U):
        ex, st, o, A, al, cl, n = aead(U)
        src = ex.sym_obj(st, 'src', addc(n, 1))
        dst = src
        if not inplace:
            dst = ex.sym_obj(st, 'dst', addc(n, 1))
            src.const = True
        args = [Ptr(A), Ptr(src), n] if f == 'auth' else [Ptr(A), Ptr(dst), Ptr(src), n]
        sb = lambda k: UF('m:src', 8, (k,))
        for s, r in ex.call(st, 'torsion_chachapoly_' + f, args):
            U.reach(s)
            where_ok(ex, s, A, o)
            ev = list(s.extra or ())
            pads = [i for i, e in enumerate(ev) if e.kind == 'ppad']
            ups = [e.chunk for e in ev if e.kind == 'pupdate']
            if pads:
                first = min([i for i, e in enumerate(ev) if e.kind == 'pupdate'] or [99])
                ex.require(s, T if max(pads) < first else F, 'padding precedes the ciphertext')
                ex.require(s, eq(cl, K(0)), 'padding only before the first ciphertext')
            else:
                # zero bytes so far: the associated data must be closed
                ex.require(s, ne(cl, K(0)), 'associated data padded before the first ciphertext')
            ex.require(s, T if not set(kinds(s)) & {'pinit', 'pfinal', 'cinit'} else F, 'no restart')
            if f == 'encrypt':
                want = Bytes(n, lambda k: xor(sb(k), KSB(k)))
            else:
                want = Bytes(n, sb)
            same_bytes(ex, s, ups, [want], 'authenticated ciphertext')
            x = V('x', 64)
            s2 = s.fork()
            s2.assume(ule(x, n))
            if f != 'auth':
                ex.require(s2, eq(s2.load(Ptr(dst, x), 1), ite(ult(x, n), xor(sb(x), KSB(x)), UF('m:src' if inplace else 'm:dst', 8, (x,)))),
                           'output')
            else:
                ex.require(s, T if 'crypt' not in kinds(s) else F, 'keystream not consumed')
            counters(ex, s, A, o, al, add(cl, n))
    return unit


def final_unit(U):
    ex, st, o, A, al, cl, n = aead(U)
    tag = ex.sym_obj(st, 'tag', 17)
    for s, r in ex.call(st, 'torsion_chachapoly_final', [Ptr(A), Ptr(tag)]):
        U.reach(s)
        where_ok(ex, s, A, o)
        k = kinds(s)
        ok = k and k[0] == 'ppad' and k[-1] == 'pfinal' and set(k[1:-1]) == {'pupdate'}
        ex.require(s, T if ok else F, 'pad, lengths, tag')
        lens = cat(cl, al)
        bt = lambda q: trunc_byte(lens, q)
        same_bytes(ex, s, [e.chunk for e in s.extra if e.kind == 'pupdate'], [Bytes(16, bt)], 'length block')
        x = V('x', 64)
        s2 = s.fork()
        s2.assume(ult(x, K(17)))
        ex.require(s2, eq(s2.load(Ptr(tag, x), 1), ite(ult(x, K(16)), UF('MAC', 8, (x,)), UF('m:tag', 8, (x,)))), 'tag')


def trunc_byte(v, q):
    r = C(0, 8)
    for i in range(v.w // 8):
        r = ite(eq(q, K(i)), ext(v, 8 * i + 7, 8 * i), r)
    return r


def box(U):
    o = offsets('torsion/mac.h', ['poly1305_t'])
    o2 = offsets('torsion/stream.h', ['salsa20_t'])
    ex, st = U.exec(FILES)
    conts(U, ex, 'salsa20', {'c': o2['salsa20_t'][1], 'p': o['poly1305_t'][1]})
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    key, nonce = ex.sym_obj(st, 'key', 32), ex.sym_obj(st, 'nonce', 24)
    key.const = nonce.const = True
    return ex, st, n, key, nonce


def box_log(ex, s, ct, n):
    """XSalsa20 with the box key, authenticator keyed by keystream 0..31, over ct"""
    ev = list(s.extra or ())
    ks = [e for e in ev if e.kind == 'cinit']
    ps = [e for e in ev if e.kind == 'pinit']
    ok = len(ks) == 1 and len(ps) == 1 and ev[0].kind == 'cinit' and kinds(s).count('pfinal') == 1 and \
        'ppad' not in kinds(s) and len({e.key for e in ev if e.kind in ('cinit', 'crypt')}) == 1 and \
        len({e.key for e in ev if e.kind[0] == 'p'}) == 1
    pk = [e.kind for e in ev if e.kind[0] == 'p']
    ok = ok and pk[0] == 'pinit' and pk[-1] == 'pfinal'
    ex.require(s, T if ok else F, 'one cipher, one authenticator')
    if not ok:
        return
    same_bytes(ex, s, [ks[0].k], [Bytes(32, lambda k: UF('m:key', 8, (k,)))], 'cipher key')
    same_bytes(ex, s, [ks[0].n], [Bytes(24, lambda k: UF('m:nonce', 8, (k,)))], 'nonce')
    ex.require(s, eq(ks[0].ctr, K(0)), 'counter starts at zero')
    same_bytes(ex, s, [ps[0].k], [Bytes(32, KSB)], 'authenticator key')
    same_bytes(ex, s, [e.chunk for e in ev if e.kind == 'pupdate'], [Bytes(n, ct)], 'authenticated ciphertext')


def seal_unit(U):
    ex, st, n, key, nonce = box(U)
    msg = ex.sym_obj(st, 'msg', n)
    msg.const = True
    out = ex.sym_obj(st, 'out', addc(n, 17))
    mb = lambda k: UF('m:msg', 8, (k,))
    ct = lambda k: xor(mb(k), KSB(addc(k, 32)))
    for s, r in ex.call(st, 'torsion_secretbox_seal', [Ptr(out), Ptr(msg), n, Ptr(key), Ptr(nonce)]):
        U.reach(s)
        box_log(ex, s, ct, n)
        x = V('x', 64)
        s2 = s.fork()
        s2.assume(ult(x, addc(n, 17)))
        want = ite(ult(x, K(16)), UF('MAC', 8, (x,)), ite(ult(x, addc(n, 16)), ct(addc(x, -16)), UF('m:out', 8, (x,))))
        ex.require(s2, eq(s2.load(Ptr(out, x), 1), want), 'sealed bytes')


def open_unit(U):
    ex, st, n, key, nonce = box(U)
    sealed = ex.sym_obj(st, 'sealed', n)
    sealed.const = True
    short = ult(n, K(16))
    m = sub(n, K(16))
    msg = ex.sym_obj(st, 'msg', ite(short, K(1), addc(m, 1)))
    ct = lambda k: UF('m:sealed', 8, (addc(k, 16),))
    tagok = conj([eq(UF('MAC', 8, (K(i),)), UF('m:sealed', 8, (K(i),))) for i in range(16)])
    for s, r in ex.call(st, 'torsion_secretbox_open', [Ptr(msg), Ptr(sealed), n, Ptr(key), Ptr(nonce)]):
        U.reach(s)
        if not (s.extra or ()):
            ex.require(s, short, 'only short boxes are refused outright')
            ex.require(s, eq(r, C(0, 32)), 'short box refused')
            continue
        ex.require(s, not_(short), 'short boxes are refused')
        box_log(ex, s, ct, m)
        ex.require(s, eq(ne(r, C(0, 32)), tagok), 'accepted exactly when the tag matches')
        x = V('x', 64)
        s2 = s.fork()
        s2.assume(ule(x, m))
        want = ite(ult(x, m), xor(ct(x), KSB(addc(x, 32))), UF('m:msg', 8, (x,)))
        s2.assume(ne(r, C(0, 32)))
        ex.require(s2, eq(s2.load(Ptr(msg, x), 1), want), 'opened message')


UNITS = [('aead init %d' % k, init_unit(k)) for k in (8, 12, 16, 24)]
UNITS += [('aead associated data', aad_unit), ('aead final', final_unit), ('aead auth', crypt_unit('auth', 0))]
for f in ('encrypt', 'decrypt'):
    UNITS += [('aead ' + f, crypt_unit(f, 0)), ('aead %s in place' % f, crypt_unit(f, 1))]
UNITS += [('box seal', seal_unit), ('box open', open_unit)]


# ------------------------------------------------------------------ concrete

def concrete(rng, budget, hints):
    from .c06 import py_poly
    from .c07 import py_stream
    import ctypes
    lib = clib(FILES)
    lay = offsets('torsion/aead.h', ['chachapoly_t', 'chachapoly_t.adlen', 'chachapoly_t.ctlen'])
    size = lay['chachapoly_t'][1]
    t0 = time.time()
    n = 0
    pad = lambda b: b + bytes(-len(b) % 16)

    def chunks(b):
        cuts = sorted(rng.randrange(0, len(b) + 1) for _ in range(rng.randrange(0, 4)))
        return list(zip([0] + cuts, cuts + [len(b)]))
    while time.time() - t0 < budget:
        key = rng.randbytes(32)
        iv = rng.randbytes(rng.choice([8, 12, 16, 24]))
        aad = rng.randbytes(rng.choice([0, 1, 15, 16, 17, rng.randrange(0, 80)]))
        msg = rng.randbytes(rng.choice([0, 1, 15, 16, 17, 64, rng.randrange(0, 150)]))
        ks = py_stream('chacha20', key, iv, 0, 64 + len(msg))
        ct = bytes(a ^ b for a, b in zip(msg, ks[64:]))
        tag = py_poly(pad(aad) + pad(ct) + len(aad).to_bytes(8, 'little') + len(ct).to_bytes(8, 'little'), ks[:32])
        for mode in ('encrypt', 'decrypt', 'auth'):
            ctx, t = Guard(size), Guard(16)
            fn(lib, 'chachapoly_init')(ctx.p, key, iv, sz(len(iv)))
            for a, b in chunks(aad):
                fn(lib, 'chachapoly_aad')(ctx.p, aad[a:b], sz(b - a))
            x, want = (msg, ct) if mode == 'encrypt' else (ct, msg)
            buf = Guard(len(x), x)
            out = buf if rng.randrange(2) else Guard(len(x))
            for a, b in chunks(x):
                if mode == 'auth':
                    fn(lib, 'chachapoly_auth')(ctx.p, buf.at(a), sz(b - a))
                else:
                    fn(lib, 'chachapoly_' + mode)(ctx.p, out.at(a), buf.at(a), sz(b - a))
            if mode == 'auth' and rng.randrange(2):
                # a state reached only after many gigabytes
                la, lc = len(aad) + (rng.randrange(1, 1 << 20) << 32), len(ct) + (rng.randrange(1, 1 << 20) << 32)
                for f, v in (('adlen', la), ('ctlen', lc)):
                    ctypes.memmove(ctx.at(lay['chachapoly_t.' + f][0]), v.to_bytes(8, 'little'), 8)
                tag = py_poly(pad(aad) + pad(ct) + la.to_bytes(8, 'little') + lc.to_bytes(8, 'little'), ks[:32])
            fn(lib, 'chachapoly_final')(ctx.p, t.p)
            n += 1
            if t.get() != tag or not t.ok() or not ctx.ok() or (mode != 'auth' and (out.get() != want or not out.ok())):
                raise Fail('chachapoly %s differs' % mode, key=key, iv=iv, aad=aad, input=x, tag=t.get(), want_tag=tag)
        iv = rng.randbytes(24)
        ks = py_stream('salsa20', key, iv, 0, 32 + len(msg))
        ct = bytes(a ^ b for a, b in zip(msg, ks[32:]))
        sealed = py_poly(ct, ks[:32]) + ct
        g = Guard(len(sealed))
        fn(lib, 'secretbox_seal')(g.p, msg, sz(len(msg)), key, iv)
        if g.get() != sealed or not g.ok():
            raise Fail('secretbox_seal differs', key=key, nonce=iv, message=msg, got=g.get(), want=sealed)
        for k in range(6):
            bad = bytearray(sealed)
            if k == 1:
                i = rng.randrange(len(bad))
                bad[i] ^= 1 << rng.randrange(8)
            elif k == 2:
                bad = bad[:rng.randrange(0, 16)]
            elif k == 3:
                bad[rng.randrange(16)] ^= 1 << rng.randrange(8)
            elif k == 4:
                bad = bad[:-1]
            elif k == 5:
                bad = bytearray(py_poly(ct, ks[:32])[:15] + b'\0' + ct)
            m2 = len(bad) - 16
            okx = m2 >= 0 and py_poly(bytes(bad[16:]), ks[:32]) == bytes(bad[:16])
            out = Guard(max(m2, 0))
            box = Guard(len(bad), bytes(bad))
            r = fn(lib, 'secretbox_open', ctypes.c_int)(out.p, box.p, sz(len(bad)), key, iv)
            n += 1
            if (r != 0) != okx or not out.ok() or (okx and out.get() != msg):
                raise Fail('secretbox_open differs', key=key, nonce=iv, box=bytes(bad), got=r, want=okx)
    return n
