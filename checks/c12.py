"""C12: buffered cipher interface.

The mode functions are contracts: each call consumes a run of bytes and
replaces the output run by the bytes of the transformed stream; a ghost log
holds the consumed runs."""
import time
from .ghost import *        # noqa
from . import pymodes as M

SRCS = [('cipher', 'c64')]
FILES = ['cipher', 'util', 'internal']
HDR = 'torsion/cipher.h'
OLD = lambda nm: (lambda k: UF('m:' + nm, 8, (k,)))
OUT = lambda k: UF('OUT', 8, (k,))


def lay():
    f = ['encrypt', 'padding', 'unpad', 'block_size', 'block_pos', 'last_size', 'tag_len', 'ccm_len', 'block', 'last', 'tag',
         'cipher', 'mode']
    o = offsets(HDR, ['cipher_stream_t'] + ['cipher_stream_t.' + x for x in f] + ['cipher_stream_t.mode.mode',
                                                                               'cipher_stream_t.mode.type',
                                                                               'cipher_stream_t.cipher.size'])
    return {k.replace('cipher_stream_t.', ''): v for k, v in o.items()}


def setup(U, mode, enc, pad, S, fresh=False):
    L = lay()
    ex, st = U.exec(FILES)
    ctx = ex.sym_obj(st, 'ctx', L['cipher_stream_t'][1])
    at = lambda f: Ptr(ctx, L[f][0])
    is_cts, is_pad = mode in ('cts', 'xts'), mode in ('ecb', 'cbc')
    unpad = int(bool(pad and ((is_pad and not enc) or is_cts)))
    p = V('p', 64)
    st.assume(ult(p, K(S)))
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    last = K(0)
    if unpad:
        last = mul(K(S), zext(V('full', 1), 64))
    for f, v, w in (('encrypt', enc, 4), ('padding', int(pad), 4), ('unpad', unpad, 4), ('mode.type', M.MODES.index(mode), 4)):
        st.store(at(f), C(v, 32), w)
    st.store(at('block_size'), K(S), 8)
    st.store(at('cipher.size'), K(S), 8)
    st.store(at('block_pos'), p, 8)
    st.store(at('last_size'), last, 8)

    def done(s):
        r = K(0)
        for e in s.extra or ():
            if e.kind == 'crypt':
                r = add(r, e.chunk.n)
        return r

    def crypt(name):
        def f(ex, s, a):
            a = list(a)
            if not name.startswith('ecb'):
                ex.require(s, eq_ptr(a.pop(0), at('mode.mode')), 'own mode state')
            ex.require(s, eq_ptr(a[0], at('cipher')), 'own cipher')
            dst, src, ln = a[1:4]
            if mode in ('raw', 'ecb', 'cbc', 'cts', 'xts'):
                ex.require(s, eq(and_(ln, K(S - 1)), K(0)), 'whole blocks only')
            reads(ex, s, src, ln, 'input')
            u = done(s)
            ch = Chunk(s, as_ptr(src), ln)
            log(s, Event('crypt', name, chunk=ch))
            put(ex, s, dst, ln, lambda k: OUT(add(u, k)))
        return f

    def steal(name):
        def f(ex, s, a):
            ex.require(s, eq_ptr(a[0], at('mode.mode')), 'own mode state')
            ex.require(s, eq_ptr(a[1], at('cipher')), 'own cipher')
            log(s, Event('steal', name, last=Chunk(s, as_ptr(a[2]), K(S)), block=Chunk(s, as_ptr(a[3]), a[4])))
            put(ex, s, a[2], K(S), lambda k: UF('SL', 8, (k,)))
            put(ex, s, a[3], a[4], lambda k: UF('SB', 8, (k,)))
        return f

    def unpadder(ex, s, a):
        reads(ex, s, a[2], a[3], 'padded block')
        log(s, Event('unpad', 0, chunk=Chunk(s, as_ptr(a[2]), a[3])))
        put(ex, s, a[0], a[3], lambda k: UF('UP', 8, (k,)))
        s.store(a[1], UF('UPLEN', 64, ()), 8)
        return UF('UPOK', 32, ())
    for nm in ('ecb_encrypt', 'ecb_decrypt', 'cbc_encrypt', 'cbc_decrypt', 'xts_encrypt', 'xts_decrypt', 'ctr_crypt',
               'cfb_encrypt', 'cfb_decrypt', 'ofb_crypt', 'gcm_encrypt', 'gcm_decrypt', 'ccm_encrypt', 'ccm_decrypt',
               'eax_encrypt', 'eax_decrypt'):
        U.stub(ex, 'torsion_' + nm, crypt(nm), False)
    for nm in ('cbc_steal', 'cbc_unsteal', 'xts_steal', 'xts_unsteal'):
        U.stub(ex, 'torsion_' + nm, steal(nm), False)
    U.stub(ex, 'torsion_pkcs7_unpad', unpadder, False)
    U.assume('mode functions behave as proved in C10 and C25, padding removal as proved in C11')
    return ex, st, L, ctx, at, p, n, last, unpad


def eq_ptr(a, b):
    a = as_ptr(a)
    if not isinstance(a, Ptr) or a.obj is not b.obj:
        return F
    return eq(a.off, b.off)


def wanted(mode, enc):
    m = {'raw': 'ecb', 'cts': 'cbc'}.get(mode, mode)
    return m + ('_crypt' if m in ('ctr', 'ofb') else '_encrypt' if enc else '_decrypt')


def frame(ex, s, at, L, st, enc, pad, unpad, mode, S):
    for f, w in (('encrypt', 4), ('padding', 4), ('unpad', 4), ('mode.type', 4), ('block_size', 8), ('tag_len', 8), ('ccm_len', 8)):
        ex.require(s, eq(s.load(at(f), w), st.load(at(f), w)), f + ' unchanged')


def update_unit(mode, enc, pad, S):
    def unit(U):
        ex, st, L, ctx, at, p, n, last, unpad = setup(U, mode, enc, pad, S)
        block = mode in M.MODES[:5]
        src = ex.sym_obj(st, 'src', n)
        src.const = True
        olen = ex.sym_obj(st, 'olen', 8)
        blk0 = lambda k: UF('m:ctx', 8, (addc(k, L['block'][0]),))
        last0 = lambda k: UF('m:ctx', 8, (addc(k, L['last'][0]),))
        for s0, size in ex.call(st, 'torsion_cipher_stream_update_size', [Ptr(ctx), n]):
            dst = ex.sym_obj(s0, 'dst', size)
            for s, r in ex.call(s0, 'torsion_cipher_stream_update', [Ptr(ctx), Ptr(dst), Ptr(olen), Ptr(src), n]):
                U.reach(s)
                ev = list(s.extra or ())
                ol = s.load(Ptr(olen), 8)
                frame(ex, s, at, L, st, enc, pad, unpad, mode, S)
                ex.require(s, T if all(e.key == wanted(mode, enc) for e in ev) else F, 'the mode selected at initialisation')
                sb = lambda k: UF('m:src', 8, (k,))
                if not block:
                    same_bytes(ex, s, [e.chunk for e in ev], [Bytes(n, sb)], 'consumed')
                    ex.require(s, eq(ol, n), 'output length')
                    ex.require(s, eq(size, n), 'announced length')
                    k = V('k', 64)
                    s2 = s.fork()
                    s2.assume(ult(k, n))
                    ex.require(s2, eq(s2.load(Ptr(dst, k), 1), OUT(k)), 'output')
                    continue
                tot = add(p, n)
                short = s.decide(ult(tot, K(S)))
                if short is not T and short is not F:
                    raise Unsupported('no case split on a full block')
                allb = [Bytes(p, blk0), Bytes(n, sb)]
                proc = and_(tot, K(-S % (1 << 64)))
                rem = and_(tot, K(S - 1))
                if short is T:
                    ex.require(s, T if not ev else F, 'nothing processed')
                    ex.require(s, eq(ol, K(0)), 'no output')
                    ex.require(s, eq(size, K(0)), 'announced length')
                    ex.require(s, eq(s.load(at('last_size'), 8), last), 'withheld size')
                    k = V('k', 64)
                    s2 = s.fork()
                    s2.assume(ult(k, last))
                    ex.require(s2, eq(s2.load(at('last') + k, 1), last0(k)), 'withheld block kept')
                    proc = K(0)
                    rem = tot
                else:
                    ex.require(s, eq(total([e.chunk for e in ev]), proc), 'all whole blocks processed')
                    j = V('j', 64)
                    s2 = s.fork()
                    s2.assume(ult(j, proc))
                    ex.require(s2, eq(byte_of(s2, [e.chunk for e in ev], j), byte_of(s2, allb, j)), 'in order')
                    want = add(last, proc)
                    ex.require(s, eq(size, want), 'announced length')
                    held = K(S if unpad else 0)
                    ex.require(s, eq(ol, sub(want, held)), 'output length')
                    k = V('k', 64)
                    s2 = s.fork()
                    s2.assume(ult(k, ol))
                    ex.require(s2, eq(s2.load(Ptr(dst, k), 1), ite(ult(k, last), last0(k), OUT(sub(k, last)))), 'output')
                    if unpad:
                        ex.require(s, eq(s.load(at('last_size'), 8), K(S)), 'one block withheld')
                        s2 = s.fork()
                        s2.assume(ult(k, K(S)))
                        ex.require(s2, eq(s2.load(at('last') + k, 1), OUT(add(sub(proc, K(S)), k))), 'the last block is withheld')
                    else:
                        ex.require(s, eq(s.load(at('last_size'), 8), last), 'nothing withheld')
                ex.require(s, eq(s.load(at('block_pos'), 8), rem), 'bytes held back')
                i = V('i', 64)
                s2 = s.fork()
                s2.assume(ult(i, rem))
                ex.require(s2, eq(s2.load(at('block') + i, 1), byte_of(s2, allb, add(proc, i))), 'bytes held back are the tail')
    return unit


def final_unit(mode, enc, pad, S):
    def unit(U):
        ex, st, L, ctx, at, p, n, last, unpad = setup(U, mode, enc, pad, S)
        olen = ex.sym_obj(st, 'olen', 8)
        blk0 = lambda k: UF('m:ctx', 8, (addc(k, L['block'][0]),))
        last0 = lambda k: UF('m:ctx', 8, (addc(k, L['last'][0]),))
        one, zero = C(1, 32), C(0, 32)
        empty = eq(p, K(0))
        for s0, size in ex.call(st, 'torsion_cipher_stream_final_size', [Ptr(ctx)]):
            dst = ex.sym_obj(s0, 'dst', size)
            for s, r in ex.call(s0, 'torsion_cipher_stream_final', [Ptr(ctx), Ptr(dst), Ptr(olen)]):
                U.reach(s)
                ev = list(s.extra or ())
                ol = s.load(Ptr(olen), 8)
                k = V('k', 64)
                sk = s.fork()
                if mode in ('raw', 'ctr', 'cfb', 'ofb') or not pad:
                    ok = empty if mode in M.MODES[:5] else T
                    ex.require(s, eq(r, ite(ok, one, zero)), 'succeeds exactly without left-over bytes')
                    ex.require(s, eq(ol, K(0)), 'no output')
                    ex.require(s, T if not ev else F, 'nothing processed')
                elif mode in ('ecb', 'cbc') and enc:
                    ex.require(s, eq(r, one), 'succeeds')
                    ex.require(s, eq(ol, K(S)), 'one block')
                    ex.require(s, T if all(e.key == wanted(mode, enc) for e in ev) else F, 'the mode selected at initialisation')
                    same_bytes(ex, s, [e.chunk for e in ev],
                               [Bytes(p, blk0), Bytes(sub(K(S), p), lambda k: ext(sub(K(S), p), 7, 0))], 'padded block')
                    sk.assume(ult(k, K(S)))
                    ex.require(sk, eq(sk.load(Ptr(dst, k), 1), OUT(k)), 'output')
                elif mode in ('ecb', 'cbc'):
                    ok = and_(empty, ne(last, K(0)))
                    if ev:
                        ex.require(s, T if [e.kind for e in ev] == ['unpad'] else F, 'padding removed once')
                        ex.require(s, ok, 'only a whole withheld block')
                        ex.require(s, eq(r, UF('UPOK', 32, ())), 'verdict of the padding')
                        ex.require(s, eq(ol, UF('UPLEN', 64, ())), 'length without padding')
                        same_bytes(ex, s, [ev[0].chunk], [Bytes(S, last0)], 'withheld block')
                        sk.assume(ult(k, K(S)))
                        ex.require(sk, eq(sk.load(Ptr(dst, k), 1), UF('UP', 8, (k,))), 'output')
                    else:
                        ex.require(s, not_(ok), 'padding examined')
                        ex.require(s, eq(r, zero), 'fails')
                        ex.require(s, eq(ol, K(0)), 'no output')
                elif mode in ('cts', 'xts'):
                    if ev:
                        ex.require(s, ne(last, K(0)), 'needs a whole block')
                        ex.require(s, T if [e.key for e in ev] == [('xts' if mode == 'xts' else 'cbc') + ('_steal' if enc else '_unsteal')]
                                   else F, 'stealing done once, in the right direction')
                        same_bytes(ex, s, [ev[0].last], [Bytes(S, last0)], 'last block')
                        same_bytes(ex, s, [ev[0].block], [Bytes(p, blk0)], 'partial block')
                        ex.require(s, eq(r, one), 'succeeds')
                        ex.require(s, eq(ol, addc(p, S)), 'length')
                        sk.assume(ult(k, ol))
                        ex.require(sk, eq(sk.load(Ptr(dst, k), 1), ite(ult(k, K(S)), UF('SL', 8, (k,)), UF('SB', 8, (addc(k, -S),)))),
                                   'output')
                    else:
                        ex.require(s, eq(last, K(0)), 'stealing done')
                        ex.require(s, eq(r, zero), 'fails')
                        ex.require(s, eq(ol, K(0)), 'no output')
    return unit


def crypt_unit(mode, enc, pad, S):
    """one-shot call: refused when bytes are held back"""
    def unit(U):
        ex, st, L, ctx, at, p, n, last, unpad = setup(U, mode, enc, pad, S)
        src, dst = ex.sym_obj(st, 'src', n), ex.sym_obj(st, 'dst', n)
        src.const = True
        for s, r in ex.call(st, 'torsion_cipher_stream_crypt', [Ptr(ctx), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            ev = list(s.extra or ())
            ok = T
            if mode in M.MODES[:5]:
                ok = F if unpad else and_(eq(p, K(0)), eq(and_(n, K(S - 1)), K(0)))
            ex.require(s, eq(r, ite(ok, C(1, 32), C(0, 32))), 'accepted exactly for whole blocks with nothing held back')
            s2 = s.fork()
            s2.assume(ok)
            if s.decide(ok) is not F:
                ex.require(s2, T if all(e.key == wanted(mode, enc) for e in ev) else F, 'the mode selected at initialisation')
                same_bytes(ex, s2, [e.chunk for e in ev], [Bytes(n, lambda k: UF('m:src', 8, (k,)))], 'consumed')
                k = V('k', 64)
                s2.assume(ult(k, n))
                ex.require(s2, eq(s2.load(Ptr(dst, k), 1), OUT(k)), 'output')
            else:
                ex.require(s, T if not ev else F, 'nothing processed')
    return unit


def padding_unit(mode, enc, S):
    """switching padding keeps the withholding rule"""
    def unit(U):
        for was in (1, 0):
            ex, st, L, ctx, at, p, n, last, unpad = setup(U, mode, enc, was, S)
            x = V('x', 32)
            is_cts, is_pad = mode in ('cts', 'xts'), mode in ('ecb', 'cbc')
            for s, r in ex.call(st, 'torsion_cipher_stream_set_padding', [Ptr(ctx), x]):
                U.reach(s)
                on = ne(x, C(0, 32))
                clean = and_(eq(p, K(0)), eq(last, K(0)))
                if not is_cts and not is_pad:
                    ok = F
                elif not enc or is_cts:
                    ok = clean
                else:
                    ok = T
                ex.require(s, eq(r, ite(ok, C(1, 32), C(0, 32))), 'accepted exactly while nothing is held back')
                new = ite(ok, zext(on, 32), C(was, 32))
                ex.require(s, eq(s.load(at('padding'), 4), new), 'padding flag')
                un = ite(ok, zext(on, 32), C(was, 32)) if is_cts or (is_pad and not enc) else C(0, 32)
                ex.require(s, eq(zext(ne(s.load(at('unpad'), 4), C(0, 32)), 32), zext(ne(un, C(0, 32)), 32)), 'withholding follows padding')
                for f in ('block_pos', 'last_size', 'block_size'):
                    ex.require(s, eq(s.load(at(f), 8), st.load(at(f), 8)), f + ' unchanged')
    return unit


def init_unit(mode, enc, S):
    def unit(U):
        L = lay()
        ex, st = U.exec(FILES)
        ctx = ex.sym_obj(st, 'ctx', L['cipher_stream_t'][1])
        at = lambda f: Ptr(ctx, L[f][0])
        kn, vn = V('kn', 64), V('vn', 64)
        st.assume(ult(kn, K(1 << 60)))
        st.assume(ult(vn, K(1 << 60)))
        key, iv = ex.sym_obj(st, 'key', kn), ex.sym_obj(st, 'iv', vn)
        key.const = iv.const = True
        cid = 0 if S == 16 else 14

        def cinit(ex, s, a):
            ex.require(s, eq_ptr(a[0], at('cipher')), 'own cipher')
            reads(ex, s, a[2], a[3], 'key')
            log(s, Event('cinit', 0, type=a[1], chunk=Chunk(s, as_ptr(a[2]), a[3])))
            s.store(at('cipher.size'), K(S), 8)
            return UF('CINIT', 32, ())

        def minit(nm):
            def f(ex, s, a):
                ex.require(s, eq_ptr(a[0], at('mode.mode')), 'own mode state')
                ln = a[3] if len(a) > 3 else K(S)
                reads(ex, s, a[2], ln, 'starting value')
                log(s, Event('minit', nm, chunk=Chunk(s, as_ptr(a[2]), ln)))
                return UF('MINIT', 32, ()) if nm in ('gcm', 'ccm', 'eax') else None
            return f

        def xsetup(ex, s, a):
            reads(ex, s, a[2], a[3], 'tweak key')
            log(s, Event('xsetup', 0, chunk=Chunk(s, as_ptr(a[2]), a[3])))
            return UF('XSETUP', 32, ())

        def same(ex, s, a):
            reads(ex, s, a[0], a[2], 'first half')
            reads(ex, s, a[1], a[2], 'second half')
            log(s, Event('same', 0, a=Chunk(s, as_ptr(a[0]), a[2]), b=Chunk(s, as_ptr(a[1]), a[2])))
            return UF('SAME', 32, ())
        U.stub(ex, 'torsion_cipher_init', cinit, False)
        U.stub(ex, 'torsion_xts_setup', xsetup, False)
        U.stub(ex, 'torsion_memequal', same, False)
        for nm in M.MODES[2:]:
            if nm != 'cts':
                U.stub(ex, 'torsion_%s_init' % nm, minit(nm), False)
        U.assume('results of the initialisers are 0 or 1')
        one = lambda nm: ne(UF(nm, 32, ()), C(0, 32))
        for nm in ('CINIT', 'MINIT', 'XSETUP', 'SAME'):
            st.assume(ule(UF(nm, 32, ()), C(1, 32)))
        kb = lambda k: UF('m:key', 8, (k,))
        vb = lambda k: UF('m:iv', 8, (k,))
        for s, r in ex.call(st, 'torsion_cipher_stream_init',
                            [Ptr(ctx), C(cid, 32), C(M.MODES.index(mode), 32), C(enc, 32), Ptr(key), kn, Ptr(iv), vn]):
            U.reach(s)
            ev = list(s.extra or ())
            if mode in ('raw', 'ecb'):
                vok = eq(vn, K(0))
            elif mode in ('gcm', 'ccm', 'eax'):
                vok = one('MINIT')
            else:
                vok = eq(vn, K(S))
            ok = and_(one('CINIT'), vok)
            half = lshr_c(kn, 1)
            if mode == 'xts':
                ok = and_(and_(and_(ok, one('XSETUP')), not_(one('SAME'))), and_(ne(kn, K(0)), eq(and_(kn, K(1)), K(0))))
            ex.require(s, eq(r, ite(ok, C(1, 32), C(0, 32))), 'succeeds exactly for admissible parameters')
            for e in ev:
                if e.kind == 'cinit':
                    ex.require(s, eq(e.type, C(cid, 32)), 'cipher')
                    same_bytes(ex, s, [e.chunk], [Bytes(half if mode == 'xts' else kn, kb)], 'cipher key')
                elif e.kind == 'minit':
                    ex.require(s, T if e.key == mode.replace('cts', 'cbc') else F, 'mode')
                    same_bytes(ex, s, [e.chunk], [Bytes(vn, vb)], 'starting value')
                elif e.kind == 'xsetup':
                    same_bytes(ex, s, [e.chunk], [Bytes(half, lambda k: kb(add(k, half)))], 'tweak key')
                elif e.kind == 'same':
                    same_bytes(ex, s, [e.a, e.b], [Bytes(mul(half, K(2)), kb)], 'key halves')
            if s.decide(ok) is F:
                continue
            s2 = s.fork()
            s2.assume(ok)
            for f, v, w in (('encrypt', enc, 4), ('mode.type', M.MODES.index(mode), 4), ('block_size', S, 8), ('block_pos', 0, 8),
                            ('last_size', 0, 8), ('tag_len', 0, 8), ('ccm_len', 0, 8)):
                ex.require(s2, eq(s2.load(at(f), w), C(v, 8 * w)), f + ' initialised')
            un = mode in ('cts', 'xts') or (mode in ('ecb', 'cbc') and not enc)
            ex.require(s2, T if s2.load(at('unpad'), 4) is C(int(un), 32) else eq(s2.load(at('unpad'), 4), C(int(un), 32)), 'withholding')
            ex.require(s2, ne(s2.load(at('padding'), 4), C(0, 32)), 'padding on')
    return unit


UNITS = []
for S in (16, 8):
    for mode in M.MODES:
        if S == 8 and mode in ('gcm', 'ccm'):
            continue
        for enc in (1, 0):
            nm = '%s %s %d' % (mode, 'encrypt' if enc else 'decrypt', 8 * S)
            UNITS.append(('init ' + nm, init_unit(mode, enc, S)))
            UNITS.append(('set_padding ' + nm, padding_unit(mode, enc, S)))
            for pad in (1, 0) if mode in ('ecb', 'cbc', 'cts', 'xts') else (1,):
                nm = '%s %s %d%s' % (mode, 'encrypt' if enc else 'decrypt', 8 * S, '' if pad else ' no padding')
                UNITS.append(('update ' + nm, update_unit(mode, enc, pad, S)))
                UNITS.append(('crypt ' + nm, crypt_unit(mode, enc, pad, S)))
                if mode not in ('gcm', 'ccm', 'eax'):
                    UNITS.append(('final ' + nm, final_unit(mode, enc, pad, S)))


def concrete(rng, budget, hints):
    lib = clib(['cipher', 'util', 'internal'])
    o = offsets(HDR, ['cipher_t', 'cipher_stream_t'])
    I = ctypes.c_int
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        name = rng.choice(['aes128', 'des', 'blowfish'])
        key = rng.randbytes(M.CIPHERS[name][1])
        c = M.Block(lib, name, key, o['cipher_t'][1])
        S = c.S
        for md in ('raw', 'ecb', 'cbc', 'cts', 'xts', 'ctr', 'cfb', 'ofb'):
            pad = rng.randrange(4) > 0 if md in ('ecb', 'cbc', 'cts', 'xts') else True
            ln = rng.randrange(0, 6 * S + 3)
            if md == 'raw' or (md in ('ecb', 'cbc', 'cts', 'xts') and not pad):
                ln -= ln % S
            msg = rng.randbytes(ln)
            iv = rng.randbytes(S) if md not in ('raw', 'ecb') else b''
            k = key
            tw = iv
            if md == 'xts':
                k2 = rng.randbytes(len(key))
                k, tw = key + k2, M.Block(lib, name, k2, o['cipher_t'][1]).E(iv)
            pt = msg
            if md in ('ecb', 'cbc') and pad:
                pt = msg + bytes([S - ln % S]) * (S - ln % S)
            f = {'raw': M.ecb, 'xts': M.xts_full}.get(md) or getattr(M, md if pad else md.replace('cts', 'cbc'))
            short = md in ('cts', 'xts') and ln < S and pad
            want = b'' if short else f(c, pt, tw, 1)
            for enc in (1, 0):
                x = msg if enc else want
                y = want if enc else msg
                if short:
                    x, y = msg, b''
                if not enc and md in ('ecb', 'cbc') and pad and rng.randrange(3) == 0:
                    x = rng.randbytes(len(x))
                    d = f(c, x, tw, 0)
                    q = d[-1]
                    y = d[:-q] if 1 <= q <= S and d.endswith(bytes([q]) * q) else None
                ctx = Guard(o['cipher_stream_t'][1])
                if fn(lib, 'cipher_stream_init', I)(ctx.p, I(c.id), I(M.MODES.index(md)), I(enc), k, sz(len(k)), iv, sz(len(iv))) != 1:
                    raise Fail('cipher_stream_init fails', cipher=name, mode=md, key=k, iv=iv)
                if not pad:
                    fn(lib, 'cipher_stream_set_padding', I)(ctx.p, I(0))
                cuts = sorted(rng.randrange(0, len(x) + 1) for _ in range(rng.randrange(0, 5)))
                got, pos = b'', 0
                inp = dict(cipher=name, mode=md, encrypt=enc, padding=int(pad), key=k, iv=iv, data=x, cuts=cuts)
                for e in cuts + [len(x)]:
                    a = fn(lib, 'cipher_stream_update_size', ctypes.c_size_t)(ctx.p, sz(e - pos))
                    if a > len(x) + 2 * S:
                        raise Fail('announced size out of proportion', announced=a, **inp)
                    out, ol = Guard(a), ctypes.c_size_t(0)
                    fn(lib, 'cipher_stream_update')(ctx.p, out.p, ctypes.byref(ol), x[pos:e], sz(e - pos))
                    if not out.ok() or ol.value > a or not ctx.ok():
                        raise Fail('more bytes written than announced', announced=a, written=ol.value, **inp)
                    got += out.get()[:ol.value]
                    pos = e
                a = fn(lib, 'cipher_stream_final_size', ctypes.c_size_t)(ctx.p)
                out, ol = Guard(a), ctypes.c_size_t(0)
                r = fn(lib, 'cipher_stream_final', I)(ctx.p, out.p, ctypes.byref(ol))
                if not out.ok() or ol.value > a or not ctx.ok():
                    raise Fail('final writes more bytes than announced', announced=a, written=ol.value, **inp)
                got += out.get()[:ol.value]
                n += 1
                if short or y is None:
                    if r != 0:
                        raise Fail('invalid input accepted', got=got, **inp)
                elif r != 1 or got != y:
                    raise Fail('buffered output differs from the mode applied at once', got=got, want=y, ret=r, **inp)
    return n
