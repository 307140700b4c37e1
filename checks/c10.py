"""C10: block cipher modes.

The block cipher is an uninterpreted pair E, D with D(E(x)) = x = E(D(x))."""
import time
from .ghost import *        # noqa

SRCS = [('cipher', 'c64')]
FILES = ['cipher', 'util', 'internal']
HDR = 'torsion/cipher.h'


def Ec(x):
    if x.op == 'uf' and x.val == 'D':
        return x.args[0]
    return UF('E', x.w, (x,))


def Dc(x):
    if x.op == 'uf' and x.val == 'E':
        return x.args[0]
    return UF('D', x.w, (x,))


def Inc(x):
    """big-endian increment, proved in C23"""
    return UF('INC', x.w, (x,))


def lay():
    o = offsets(HDR, ['cipher_t', 'cipher_t.size', 'cbc_t', 'cbc_t.tweak', 'cbc_t.prev', 'ctr_t', 'ctr_t.state', 'ctr_t.iv',
                      'ctr_t.pos'])
    return {k.split('.')[-1]: v for k, v in o.items()}


def setup(U, S, mode):
    L = lay()
    ex, st = U.exec(FILES)
    ci = ex.sym_obj(st, 'cipher', L['cipher_t'][1])
    st.store(Ptr(ci, L['size'][0]), K(S), 8)
    ci.const = True
    m = ex.sym_obj(st, 'mode', L[mode + '_t'][1])
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))

    def enc(ex, s, a):
        s.store(a[1], Ec(s.load(a[2], S)), S)

    def dec(ex, s, a):
        s.store(a[1], Dc(s.load(a[2], S)), S)

    def xor3(ex, s, a):
        if a[3].op == 'c':
            ln = a[3].val
            if ln:
                s.store(a[0], xor(s.load(a[1], ln), s.load(a[2], ln)), ln)
            return
        if s.loops:
            raise Unsupported('symbolic length in a loop')
        for p in a[1:3]:
            reads(ex, s, p, a[3], 'xor operand')
        ca, cb = Chunk(s, as_ptr(a[1]), a[3]), Chunk(s, as_ptr(a[2]), a[3])
        put(ex, s, a[0], a[3], lambda d: xor(ca.at(s, d), cb.at(s, d)))

    def inc(ex, s, a):
        if a[1].op != 'c':
            raise Unsupported('counter of symbolic size')
        k = a[1].val
        s.store(a[0], Inc(s.load(a[0], k)), k)
    U.stub(ex, 'torsion_cipher_encrypt', enc, False)
    U.stub(ex, 'torsion_cipher_decrypt', dec, False)
    U.stub(ex, 'torsion_memxor3', xor3, False)
    U.stub(ex, 'increment_be_var', inc, False)
    U.assume('the block cipher is a permutation with its inverse (C09); xor and counter helpers as proved in C23')
    return ex, st, L, ci, m, n


def buffers(ex, st, n, inplace):
    src = ex.sym_obj(st, 'src', addc(n, 1))
    dst = src
    if not inplace:
        dst = ex.sym_obj(st, 'dst', addc(n, 1))
        src.const = True
    return src, dst


def by(nm, o, n):
    return cat(*[UF(nm, 8, (addc(o, i),)) for i in reversed(range(n))])


def src_block(q, S, off=0):
    return cat(*[UF('m:src', 8, (addc(addc(mul(q, K(S)), i), off),)) for i in reversed(range(S))])


def beyond(ex, s, st, dst, n, inplace):
    ex.require(s, eq(s.load(Ptr(dst, n), 1), UF('m:src' if inplace else 'm:dst', 8, (n,))), 'nothing beyond the output')


def trips(ex, st, q):
    """the loop ran q times"""
    for sm in ex.summaries:
        st.assume(eq(sm.t, q)) if st.decide(eq(sm.t, q)) is True else None


def block_eq(ex, s, got, want, what):
    if got is want:
        ex.require(s, T, what)
        return
    for i in range(got.w // 8):
        ex.require(s, eq(ext(got, 8 * i + 7, 8 * i), ext(want, 8 * i + 7, 8 * i)), '%s byte %d' % (what, i))


def in_cells(obj, base, S, f=lambda z: z):
    """candidate invariants: the register at obj+base holds the ghost value"""
    def guess(z, t, vals):
        out = []
        z = f(z)
        for k, v in vals.items():
            if k[0] == 'm' and k[1] is obj and base <= k[2] < base + S:
                o = 8 * (k[2] - base)
                out.append(eq(v, ext(z, o + 8 * k[3] - 1, o)))
        return out
    return guess


def ecb_unit(f, S, inplace):
    def unit(U):
        ex, st, L, ci, m, n = setup(U, S, 'cbc')
        q = zext(V('q', 56), 64)
        st.assume(eq(n, mul(q, K(S))))
        src, dst = buffers(ex, st, n, inplace)
        fn_ = Ec if f == 'encrypt' else Dc
        for s, r in ex.call(st, 'torsion_ecb_' + f, [Ptr(ci), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            x = zext(V('x', 56), 64)
            s2 = s.fork()
            s2.assume(ult(x, q))
            ex.require(s2, eq(s2.load(Ptr(dst, mul(x, K(S))), S), fn_(src_block(x, S))), 'output block')
            beyond(ex, s, st, dst, n, inplace)
    return unit


def cbc_unit(f, S, inplace):
    def unit(U):
        ex, st, L, ci, m, n = setup(U, S, 'cbc')
        q = zext(V('q', 56), 64)
        st.assume(eq(n, mul(q, K(S))))
        src, dst = buffers(ex, st, n, inplace)
        p0 = st.load(Ptr(m, L['prev'][0]), S)
        Z = Rec(ex, 'spec.chain', p0, lambda t, z: Ec(xor(z, src_block(t, S))) if f == 'encrypt' else src_block(t, S),
                in_cells(m, L['prev'][0], S))
        for s, r in ex.call(st, 'torsion_cbc_' + f, [Ptr(m), Ptr(ci), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            x = zext(V('x', 56), 64)
            for first in (1, 0):
                s2 = s.fork()
                s2.assume(ult(x, q))
                s2.assume(eq(x, K(0)) if first else ne(x, K(0)))
                y = K(0) if first else x
                s2.assume(Z.unfold(y))
                if f == 'encrypt':
                    want = Z(addc(y, 1))
                else:
                    want = xor(Dc(src_block(y, S)), p0 if first else src_block(y, S, -S))
                got = s2.load(Ptr(dst, mul(y, K(S))), S)
                for sm in ex.summaries:
                    instances(s2, sm, y)
                    instances(s2, sm, addc(y, 1))
                block_eq(ex, s2, got, want, 'output block')
            beyond(ex, s, st, dst, n, inplace)
            s3 = s.fork()
            if f == 'decrypt':
                s3.assume(implies(ne(q, K(0)), Z.unfold(addc(q, -1))))
            ex.require(s3, eq(s3.load(Ptr(m, L['prev'][0]), S), Z(q)), 'chaining value')
    return unit


POLY = {8: 0x1b, 16: 0x87}


def double(z):
    """multiplication by x, little-endian"""
    top = ext(z, z.w - 1, z.w - 1)
    return xor(shl_c(z, 1), ite(eq(top, C(1, 1)), C(POLY[z.w // 8], z.w), C(0, z.w)))


def xts_unit(f, S, inplace):
    def unit(U):
        ex, st, L, ci, m, n = setup(U, S, 'cbc')
        q = zext(V('q', 56), 64)
        st.assume(eq(n, mul(q, K(S))))
        src, dst = buffers(ex, st, n, inplace)
        t0, p0 = st.load(Ptr(m, L['tweak'][0]), S), st.load(Ptr(m, L['prev'][0]), S)
        Z = Rec(ex, 'spec.tweak', t0, lambda t, z: double(z), in_cells(m, L['tweak'][0], S))
        fn_ = Ec if f == 'encrypt' else Dc
        for s, r in ex.call(st, 'torsion_xts_' + f, [Ptr(m), Ptr(ci), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            y = zext(V('x', 56), 64)
            s2 = s.fork()
            s2.assume(ult(y, q))
            for sm in ex.summaries:
                instances(s2, sm, y)
            got = s2.load(Ptr(dst, mul(y, K(S))), S)
            block_eq(ex, s2, got, xor(fn_(xor(src_block(y, S), Z(y))), Z(y)), 'output block')
            beyond(ex, s, st, dst, n, inplace)
            block_eq(ex, s, s.load(Ptr(m, L['tweak'][0]), S), Z(q), 'next tweak')
            if f == 'decrypt':
                s3 = s.fork()
                s3.assume(ne(q, K(0)))
                for sm in ex.summaries:
                    instances(s3, sm, addc(q, -1))
                block_eq(ex, s3, s3.load(Ptr(m, L['prev'][0]), S), Z(addc(q, -1)), 'tweak of the last block')
    return unit


def var(nm, S, k=None):
    return cat(*[V('%s%d' % (nm, i), 8) for i in reversed(range(S if k is None else k))])


def steal_unit(mode, S):
    """one full and one partial block, every partial length: sent as specified, received unchanged"""
    def unit(U):
        for ln in range(0 if mode != 'xts' else 1, S):
            ex, st, L, ci, m, n = setup(U, S, 'cbc')
            reg = Ptr(m, L['tweak' if mode == 'xts' else 'prev'][0])
            P, p, x = var('f', S), var('p', S, ln) if ln else None, var('x', S)
            last = ex.sym_obj(st, 'last', S)
            block = ex.sym_obj(st, 'block', ln + 1)
            st.store(Ptr(last), P, S)
            if ln:
                st.store(Ptr(block), p, ln)
            guard = st.load(Ptr(block, ln), 1)
            st.store(reg, x, S)
            A = [Ptr(ci), Ptr(last), Ptr(block), K(ln)]
            B = [Ptr(ci), Ptr(last), Ptr(last), K(S)]
            if mode != 'ecb':
                A, B = [Ptr(m)] + A, [Ptr(m)] + B
            c = {'ecb': Ec(P), 'cbc': Ec(xor(P, x)), 'xts': xor(Ec(xor(P, x)), x)}[mode]
            for s0, r0 in ex.call(st, 'torsion_%s_encrypt' % mode, B):
                block_eq(ex, s0, s0.load(Ptr(last), S), c, 'full block')
                tw = s0.load(reg, S)
                if mode == 'xts':
                    block_eq(ex, s0, tw, double(x), 'next tweak')
                for s, r in ex.call(s0, 'torsion_%s_steal' % mode, A):
                    U.reach(s)
                    if ln:
                        ex.require(s, eq(s.load(Ptr(block), ln), ext(c, 8 * ln - 1, 0)), 'stolen bytes %d' % ln)
                    z = cat(ext(c, 8 * S - 1, 8 * ln), p) if ln else c
                    if mode == 'cbc':
                        z = xor(c, cat(C(0, 8 * (S - ln)), p)) if ln else c
                    w = xor(Ec(xor(z, tw)), tw) if mode == 'xts' else Ec(z)
                    block_eq(ex, s, s.load(Ptr(last), S), w, 'final block %d' % ln)
                    s.store(reg, x, S)
                    for s1, r1 in ex.call(s, 'torsion_%s_decrypt' % mode, B):
                        for s2, r2 in ex.call(s1, 'torsion_%s_unsteal' % mode, A):
                            U.reach(s2)
                            if ln:
                                ex.require(s2, eq(s2.load(Ptr(block), ln), p), 'partial block restored %d' % ln)
                            block_eq(ex, s2, s2.load(Ptr(last), S), P, 'last block restored %d' % ln)
                            ex.require(s2, eq(s2.load(Ptr(block, ln), 1), guard), 'nothing beyond the partial block')
    return unit


def stream_unit(mode, S, inplace, pos):
    """CTR, CFB and OFB from fill level pos"""
    def unit(U):
        ex, st, L, ci, m, n = setup(U, S, 'ctr')
        fname = mode.replace('-', '_') if '-' in mode else mode + '_crypt'
        so, io, po = L['state'][0], L['iv'][0], L['pos'][0]
        ex.nopeel = True
        src, dst = buffers(ex, st, n, inplace)
        st.store(Ptr(m, po), K(pos), 8)
        s0, i0 = st.load(Ptr(m, so), S), st.load(Ptr(m, io), S)
        want = (S - pos) % S
        sb = lambda k: UF('m:src', 8, (k,))
        blk = lambda t: cat(*[sb(addc(addc(mul(t, K(S)), want), i)) for i in reversed(range(S))])
        fill = cat(*[sb(K(i)) for i in reversed(range(want))]) if want else None
        # register after the open block has been completed
        if mode == 'ctr':
            z0 = i0
            Z = Rec(ex, 'spec.ctr', z0, lambda t, z: Inc(z), in_cells(m, io, S))
            key = lambda t: Ec(Z(t))
        elif mode == 'ofb':
            z0 = s0
            Z = Rec(ex, 'spec.ofb', z0, lambda t, z: Ec(z), in_cells(m, so, S))
            key = lambda t: Ec(Z(t))
        else:
            z0 = i0
            if want:
                f0 = fill if mode == 'cfb-decrypt' else xor(fill, ext(s0, 8 * S - 1, 8 * pos))
                z0 = cat(f0, ext(i0, 8 * pos - 1, 0))
            Z = Rec(ex, 'spec.cfb', z0, lambda t, z: blk(t) if mode == 'cfb-decrypt' else xor(blk(t), Ec(z)), in_cells(m, io, S))
            key = lambda t: Ec(Z(t))
        for s, r in ex.call(st, 'torsion_' + fname, [Ptr(m), Ptr(ci), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            beyond(ex, s, st, dst, n, inplace)
            short = s.decide(ult(n, K(want))) if want else F
            if short is not T and short is not F:
                raise Unsupported('no case split on the open block')
            if want:
                # open block
                x = V('x', 64)
                s2 = s.fork()
                s2.assume(ult(x, K(want)))
                s2.assume(ult(x, n))
                kb = C(0, 8)
                for i in range(want):
                    kb = ite(eq(x, K(i)), ext(s0, 8 * (pos + i) + 7, 8 * (pos + i)), kb)
                ex.require(s2, eq(s2.load(Ptr(dst, x), 1), xor(sb(x), kb)), 'open block')
            if short is T:
                ex.require(s, eq(s.load(Ptr(m, po), 8), addc(n, pos)), 'position')
                ex.require(s, eq(s.load(Ptr(m, so), S), s0), 'keystream block kept')
                j = V('j', 64)
                s2 = s.fork()
                s2.assume(ult(j, K(S)))
                got = s2.load(Ptr(m, addc(j, io)), 1)
                old = UF('m:mode', 8, (addc(j, io),))
                if mode in ('ctr', 'ofb'):
                    ex.require(s2, eq(got, old), 'register kept')
                else:
                    k = addc(j, -pos)
                    c = sb(k)
                    if mode == 'cfb-encrypt':
                        c = xor(c, UF('m:mode', 8, (addc(j, so),)))
                    ex.require(s2, eq(got, ite(and_(ule(K(pos), j), ult(k, n)), c, old)), 'register absorbs the ciphertext')
                continue
            rest = addc(n, -want)
            qq = lshr_c(rest, S.bit_length() - 1)
            rem = and_(rest, K(S - 1))
            ex.require(s, eq(s.load(Ptr(m, po), 8), rem), 'position')
            # full blocks
            y = zext(V('y', 56), 64)
            s2 = s.fork()
            if s.decide(ult(rest, K(S))) is not T:
                s2.assume(ult(y, qq))
                for sm in ex.summaries:
                    instances(s2, sm, y)
                cases = [s2]
                if mode == 'cfb-decrypt':
                    cases = [s2.fork(), s2.fork()]
                    cases[0].assume(eq(y, K(0)))
                    cases[1].assume(not_(eq(y, K(0))))
                    cases[1].assume(Z.unfold(addc(y, -1)))
                for s2 in cases:
                    got = s2.load(Ptr(dst, addc(mul(y, K(S)), want)), S)
                    block_eq(ex, s2, got, xor(blk(y), key(y)), 'output block')
            # tail
            s3 = s.fork()
            q = None
            if s.decide(ult(rest, K(S))) is T:
                q = K(0)
            else:
                for sm in ex.summaries:
                    if s.decide(eq(sm.t, qq)) is T:
                        q = sm.t
            if q is None:
                q = zext(V('q', 56), 64)
            s3.assume(eq(rest, add(mul(q, K(S)), rem)))
            s3.assume(eq(qq, q))
            for sm in ex.summaries:
                instances(s3, sm, q)
            for i in range(S - 1):
                if s3.decide(ult(K(i), rem)) is F:
                    continue
                s4 = s3.fork()
                s4.assume(ult(K(i), rem))
                at = addc(addc(mul(q, K(S)), want), i)
                k1 = ext(key(q), 8 * i + 7, 8 * i)
                ex.require(s4, eq(s4.load(Ptr(dst, at), 1), xor(sb(at), k1)), 'tail byte %d' % i)
                ex.require(s4, eq(s4.load(Ptr(m, so + i + 1), 1), ext(key(q), 8 * i + 15, 8 * i + 8)), 'keystream kept %d' % i)
                if mode[:3] == 'cfb':
                    c = sb(at) if mode == 'cfb-decrypt' else xor(sb(at), k1)
                    ex.require(s4, eq(s4.load(Ptr(m, io + i), 1), c), 'register absorbs the tail %d' % i)
            s5 = s.fork()
            s5.assume(eq(rest, add(mul(q, K(S)), rem)))
            s5.assume(eq(qq, q))
            for sm in ex.summaries:
                instances(s5, sm, q)
            z = Z(q)
            whole = s5.decide(eq(rem, K(0)))
            if mode == 'ctr':
                s5.assume(Z.unfold(q))
                nx = Inc(z)
                for i in range(S):
                    w = ite(whole, ext(z, 8 * i + 7, 8 * i), ext(nx, 8 * i + 7, 8 * i))
                    ex.require(s5, eq(s5.load(Ptr(m, io + i), 1), w), 'counter byte %d' % i)
            elif mode == 'ofb':
                for i in range(S):
                    w = ite(whole, ext(z, 8 * i + 7, 8 * i), ext(Ec(z), 8 * i + 7, 8 * i))
                    ex.require(s5, eq(s5.load(Ptr(m, so + i), 1), w), 'register byte %d' % i)
            else:
                cases = [s5]
                if mode == 'cfb-decrypt' and s5.decide(eq(q, K(0))) not in (T, F):
                    cases = [s5.fork(), s5.fork()]
                    cases[0].assume(eq(q, K(0)))
                    cases[1].assume(not_(eq(q, K(0))))
                    cases[1].assume(Z.unfold(addc(q, -1)))
                for i in range(S):
                    for s6 in cases:
                        if s6.decide(ule(rem, K(i))) is F:
                            continue
                        s6 = s6.fork()
                        s6.assume(ule(rem, K(i)))
                        ex.require(s6, eq(s6.load(Ptr(m, io + i), 1), ext(z, 8 * i + 7, 8 * i)), 'register byte %d' % i)
    return unit


UNITS = []
for S in (8, 16):
    for ip in (0, 1):
        nm = ' %d%s' % (8 * S, ' in place' if ip else '')
        for f in ('encrypt', 'decrypt'):
            UNITS += [('ecb ' + f + nm, ecb_unit(f, S, ip)), ('cbc ' + f + nm, cbc_unit(f, S, ip)),
                      ('xts ' + f + nm, xts_unit(f, S, ip))]
        for md in ('ctr', 'ofb', 'cfb-encrypt', 'cfb-decrypt'):
            for pos in (0, 1, S - 1):
                UNITS += [('%s%s at %d' % (md, nm, pos), stream_unit(md, S, ip, pos))]
    UNITS += [('%s stealing %d' % (md, 8 * S), steal_unit(md, S)) for md in ('ecb', 'cbc', 'xts')]
# remaining fill levels: those of the 8-byte block ciphers always
for S in (8, 16) if TIER == 'thorough' else (8,):
    for ip in (0, 1):
        nm = ' %d%s' % (8 * S, ' in place' if ip else '')
        for md in ('ctr', 'ofb', 'cfb-encrypt', 'cfb-decrypt'):
            UNITS += [('%s%s at %d' % (md, nm, pos), stream_unit(md, S, ip, pos)) for pos in range(2, S - 1)]


def concrete(rng, budget, hints):
    from . import pymodes as M
    lib = clib(['cipher', 'util', 'internal'])
    o = offsets(HDR, ['cipher_t', 'cbc_t', 'ctr_t'])
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        name = rng.choice(['aes128', 'des', 'blowfish', 'aes256'])
        key = rng.randbytes(M.CIPHERS[name][1])
        c = M.Block(lib, name, key, o['cipher_t'][1])
        S = c.S
        for md in ('ecb', 'cbc', 'xts', 'ctr', 'ofb', 'cfb'):
            for enc in (1, 0):
                if md in ('ctr', 'ofb') and not enc:
                    continue
                iv = rng.choice([rng.randbytes(S), rng.randbytes(S // 2) + b'\xff' * (S // 2), b'\xff' * S])
                block = md in ('ecb', 'cbc', 'xts')
                ln = S * rng.randrange(0, 9) if block else rng.randrange(0, 6 * S)
                msg = rng.randbytes(ln)
                mode = Guard(o['cbc_t'][1] if block else o['ctr_t'][1])
                tw = iv
                if md != 'ecb':
                    fn(lib, md + '_init')(mode.p, c.ctx.p, iv)
                    if md == 'xts':
                        k2 = rng.randbytes(len(key))
                        if fn(lib, 'xts_setup', ctypes.c_int)(mode.p, c.ctx.p, k2, sz(len(k2))) != 1:
                            raise Fail('xts_setup rejects a tweak key of the cipher key size', cipher=name, key=k2)
                        tw = M.Block(lib, name, k2, o['cipher_t'][1]).E(iv)
                inplace = rng.randrange(2)
                out = Guard(ln, msg if inplace else None)
                inp = out if inplace else Guard(ln, msg)
                q = S if block else 1
                cuts = sorted(q * rng.randrange(0, ln // q + 1) for _ in range(rng.randrange(0, 4)))
                f = fn(lib, md + ('_crypt' if md in ('ctr', 'ofb') else '_encrypt' if enc else '_decrypt'))
                pos = 0
                for e in cuts + [ln]:
                    a = [c.ctx.p, out.at(pos), inp.at(pos), sz(e - pos)]
                    f(*(a if md == 'ecb' else [mode.p] + a))
                    pos = e
                want = getattr(M, md)(c, msg, tw, enc)
                n += 1
                if out.get() != want or not out.ok() or not mode.ok() or not c.ctx.ok():
                    raise Fail('%s %s differs from the standard' % (md, 'encryption' if enc else 'decryption'), cipher=name,
                               key=key, iv=iv, message=msg, cuts=cuts, inplace=inplace, got=out.get(), want=want)
        # stealing, through the whole message reference
        for md in ('cbc', 'xts'):
            ln = S * rng.randrange(1, 5) + rng.randrange(1, S)
            msg, iv = rng.randbytes(ln), rng.randbytes(S)
            want = (M.cts if md == 'cbc' else M.xts_full)(c, msg, iv, 1)
            k = ln // S * S
            mode = Guard(o['cbc_t'][1])
            fn(lib, md + '_init')(mode.p, c.ctx.p, iv)
            out, tail = Guard(k), Guard(ln - k, msg[k:])
            fn(lib, md + '_encrypt')(mode.p, c.ctx.p, out.p, msg, sz(k))
            fn(lib, md + '_steal')(mode.p, c.ctx.p, out.at(k - S), tail.p, sz(ln - k))
            n += 1
            if out.get() + tail.get() != want or not out.ok() or not tail.ok():
                raise Fail(md + ' stealing differs', cipher=name, key=key, iv=iv, message=msg,
                           got=out.get() + tail.get(), want=want)
            fn(lib, md + '_init')(mode.p, c.ctx.p, iv)
            fn(lib, md + '_decrypt')(mode.p, c.ctx.p, out.p, want, sz(k))
            fn(lib, md + '_unsteal')(mode.p, c.ctx.p, out.at(k - S), tail.p, sz(ln - k))
            if out.get() + tail.get() != msg:
                raise Fail(md + ' stealing is not undone', cipher=name, key=key, iv=iv, message=msg,
                           got=out.get() + tail.get())
    return n
