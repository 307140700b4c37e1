"""C07: stream ciphers."""
import time
from .ghost import *        # noqa

SRCS = [('stream', 'c64')]
HDR = 'torsion/stream.h'
NAMES = {'chacha20': 12, 'salsa20': 8}      # word index of the counter


def lay(c):
    o = offsets(HDR, [c + '_t', c + '_t.state', c + '_t.stream', c + '_t.pos'])
    return {k.split('.')[-1]: v for k, v in o.items()}


def rotl(x, n):
    return or_(shl_c(x, n), lshr_c(x, x.w - n))


def chacha_rounds(x):
    x = list(x)

    def q(a, b, c, d):
        x[a] = add(x[a], x[b]); x[d] = rotl(xor(x[d], x[a]), 16)
        x[c] = add(x[c], x[d]); x[b] = rotl(xor(x[b], x[c]), 12)
        x[a] = add(x[a], x[b]); x[d] = rotl(xor(x[d], x[a]), 8)
        x[c] = add(x[c], x[d]); x[b] = rotl(xor(x[b], x[c]), 7)
    for _ in range(10):
        for k in range(4):
            q(k, 4 + k, 8 + k, 12 + k)
        for k in range(4):
            q(k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4)
    return x


def salsa_rounds(x):
    x = list(x)

    def q(a, b, c, d):
        x[b] = xor(x[b], rotl(add(x[a], x[d]), 7))
        x[c] = xor(x[c], rotl(add(x[b], x[a]), 9))
        x[d] = xor(x[d], rotl(add(x[c], x[b]), 13))
        x[a] = xor(x[a], rotl(add(x[d], x[c]), 18))
    for _ in range(10):
        for k in range(4):      # columns
            q(*[(5 * k + 4 * i) % 16 for i in range(4)])
        for k in range(4):      # rows
            q(*[4 * k + (k + i) % 4 for i in range(4)])
    return x


ROUNDS = {'chacha20': chacha_rounds, 'salsa20': salsa_rounds}


def block_unit(c):
    def unit(U):
        L = lay(c)
        ex, st = U.exec(['stream', 'util', 'internal'])
        ctx = ex.sym_obj(st, 'ctx', L[c + '_t'][1], 4)
        so = L['state'][0]
        s0 = [st.load(Ptr(ctx, so + 4 * i), 4) for i in range(16)]
        # distinct variables keep the terms small
        x = [V('x%d' % i, 32) for i in range(16)]
        for i in range(16):
            st.store(Ptr(ctx, so + 4 * i), x[i], 4)
        out = ex.sym_obj(st, 'out', 64, 4)
        for alias in (0, 1):
            o = Ptr(ctx, L['stream'][0]) if alias else Ptr(out)
            for s, r in ex.call(st.fork(), c + '_block', [Ptr(ctx), o]):
                U.reach(s)
                want = ROUNDS[c](x)
                for i in range(16):
                    ex.require(s, eq(s.load(o + 4 * i, 4), add(want[i], x[i])), 'keystream word %d' % i)
                k = NAMES[c]
                n = addc(cat(x[k + 1], x[k]), 1)
                for i in range(16):
                    w = ext(n, 31, 0) if i == k else ext(n, 63, 32) if i == k + 1 else x[i]
                    ex.require(s, eq(s.load(Ptr(ctx, so + 4 * i), 4), w), 'state word %d' % i)
                ex.require(s, eq(s.load(Ptr(ctx, L['pos'][0]), 8), st.load(Ptr(ctx, L['pos'][0]), 8)), 'position kept')
    return unit


def KS(ctr, j):
    return UF('KS', 8, (ctr, j))


def crypt_unit(c, inplace):
    def unit(U):
        L = lay(c)
        ex, st = U.exec(['stream', 'util', 'internal'])
        ctx = ex.sym_obj(st, 'ctx', L[c + '_t'][1])
        k = NAMES[c]
        co, so, po = L['state'][0] + 4 * k, L['stream'][0], L['pos'][0]
        n, pos, c0 = V('n', 64), V('pos', 64), V('ctr', 64)
        st.assume(ult(n, K(1 << 60)))
        st.assume(ult(pos, K(64)))
        put(ex, st, Ptr(ctx, so), 64, lambda j: KS(addc(c0, -1), j))
        st.store(Ptr(ctx, co), c0, 8)
        st.store(Ptr(ctx, po), pos, 8)
        src = ex.sym_obj(st, 'src', addc(n, 1))
        if inplace:
            dst = src
        else:
            dst = ex.sym_obj(st, 'dst', addc(n, 1))
            src.const = True
        used = V('used', 64)

        def block(ex, s, a):
            if where(a[0]) != (ctx.id, K(0)) or where(a[1]) != (ctx.id, K(so)):
                raise Unsupported('keystream goes elsewhere')
            ctr = s.load(Ptr(ctx, co), 8)
            if s.loops:
                s.store(Ptr(ctx, so), cat(*[KS(ctr, K(j)) for j in reversed(range(64))]), 64)
            else:
                put(ex, s, Ptr(ctx, so), 64, lambda j: KS(ctr, j))
            s.store(Ptr(ctx, co), addc(ctr, 1), 8)

        def xor3(ex, s, a):
            if s.loops:
                if a[3].op != 'c':
                    raise Unsupported('symbolic length in a loop')
                ln = a[3].val
                s.store(a[0], xor(s.load(a[1], ln), s.load(a[2], ln)), ln)
                return
            for p in a[1:3]:
                reads(ex, s, p, a[3], 'xor operand')
            ca, cb = Chunk(s, as_ptr(a[1]), a[3]), Chunk(s, as_ptr(a[2]), a[3])
            put(ex, s, a[0], a[3], lambda d: xor(ca.at(s, d), cb.at(s, d)))
        U.stub(ex, c + '_block', block, False)
        U.stub(ex, 'torsion_memxor3', xor3, False)
        U.assume('torsion_memxor3 computes the xor of the ranges: proved in C23')
        hp = ite(eq(pos, K(0)), K(0), K(1))
        for s, r in ex.call(st, 'torsion_%s_crypt' % c, [Ptr(ctx), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            tot = add(pos, n)
            ex.require(s, eq(s.load(Ptr(ctx, po), 8), zext(ext(tot, 5, 0), 64)), 'position')
            ctr2 = s.load(Ptr(ctx, co), 8)
            ex.require(s, eq(ctr2, add(c0, sub(lshr_c(addc(tot, 63), 6), hp))), 'counter')
            x = V('x', 64)
            s2 = s.fork()
            s2.assume(ult(x, n))
            p2 = add(pos, x)
            q = V('q', 64)
            s2.assume(eq(lshr_c(p2, 6), q))
            want = xor(UF('m:src', 8, (x,)), KS(add(sub(c0, hp), q), sub(p2, shl_c(q, 6))))
            ex.require(s2, eq(s2.load(Ptr(dst, x), 1), want), 'output byte')
            ex.require(s, eq(s.load(Ptr(dst, n), 1), st.load(Ptr(dst, n), 1)), 'nothing beyond the output')
            j = V('j', 64)
            s3 = s.fork()
            s3.assume(ult(j, K(64)))
            p3 = s.load(Ptr(ctx, po), 8)
            s3.assume(ne(p3, K(0)))
            s3.assume(ule(p3, j))
            ex.require(s3, eq(s3.load(Ptr(ctx, add(K(so), j)), 1), KS(addc(ctr2, -1), j)), 'unused keystream kept')
    return unit


KEYB = lambda k: UF('m:key', 8, (k,))
NON = lambda k: UF('m:nonce', 8, (k,))


def w32(fn, o):
    return cat(*[fn(K(o + i)) for i in reversed(range(4))])


def consts(kl):
    b = b'expand 16-byte k' if kl == 16 else b'expand 32-byte k'
    return [C(int.from_bytes(b[4 * i:4 * i + 4], 'little'), 32) for i in range(4)]


def state_of(c, key, kl, tail):
    """tail: the four words after key and constants"""
    ks = consts(kl)
    kw = [w32(key, (4 * i) % kl) for i in range(8)]
    if c == 'chacha20':
        return ks + kw + tail
    return [ks[0]] + kw[:4] + [ks[1]] + tail + [ks[2]] + kw[4:] + [ks[3]]


def init_unit(c):
    def unit(U):
        L = lay(c)
        for kl in (16, 32):
            for nl in (8, 12, 16, 24, 28, 32):
                ex, st = U.exec(['stream', 'util', 'internal'])
                ctx = ex.sym_obj(st, 'ctx', L[c + '_t'][1], 4)
                key, nonce = ex.sym_obj(st, 'key', kl), ex.sym_obj(st, 'nonce', nl)
                key.const = nonce.const = True
                ctr = V('ctr', 64)

                def derive(ex, s, a):
                    ok = where(a[1]) == (key.id, K(0)) and where(a[3]) == (nonce.id, K(0)) and a[2] is K(kl)
                    ex.require(s, T if ok else F, 'subkey from key and nonce prefix')
                    s.store(a[0], cat(*[UF('sub', 8, (K(j),)) for j in reversed(range(32))]), 32)
                U.stub(ex, 'torsion_%s_derive' % c, derive, False)
                kb, k2, no, n2 = KEYB, kl, 0, nl
                if nl >= 24:
                    kb, k2, no, n2 = (lambda k: UF('sub', 8, (k,))), 32, 16, nl - 16
                lo, hi = ext(ctr, 31, 0), ext(ctr, 63, 32)
                nw = [w32(NON, no + 4 * i) for i in range(n2 // 4)]
                if c == 'chacha20':
                    tail = {8: [lo, hi] + nw, 12: [lo] + nw, 16: nw}[n2]
                else:
                    tail = {8: nw + [lo, hi], 12: nw + [lo], 16: nw}[n2]
                for s, r in ex.call(st, 'torsion_%s_init' % c, [Ptr(ctx), Ptr(key), K(kl), Ptr(nonce), K(nl), ctr]):
                    U.reach(s)
                    for i, e in enumerate(state_of(c, kb, k2, tail)):
                        ex.require(s, eq(s.load(Ptr(ctx, L['state'][0] + 4 * i), 4), e),
                                   'state word %d for key %d nonce %d' % (i, kl, nl))
                    ex.require(s, eq(s.load(Ptr(ctx, L['pos'][0]), 8), K(0)), 'starts at a block boundary')
    return unit


def derive_unit(c):
    def unit(U):
        for kl in (16, 32):
            ex, st = U.exec(['stream', 'util', 'internal'])
            key, nonce = ex.sym_obj(st, 'key', kl, 4), ex.sym_obj(st, 'nonce', 16, 4)
            key.const = nonce.const = True
            out = ex.sym_obj(st, 'out', 33)
            kw = lambda i: UF('m:key', 32, (K(i % (kl // 4)),))
            ks = consts(kl)
            nw = [UF('m:nonce', 32, (K(i),)) for i in range(4)]
            kws = [kw(i) for i in range(8)]
            x = ks + kws + nw if c == 'chacha20' else [ks[0]] + kws[:4] + [ks[1]] + nw + [ks[2]] + kws[4:] + [ks[3]]
            for s, r in ex.call(st, 'torsion_%s_derive' % c, [Ptr(out), Ptr(key), K(kl), Ptr(nonce)]):
                U.reach(s)
                y = ROUNDS[c](x)
                idx = [0, 1, 2, 3, 12, 13, 14, 15] if c == 'chacha20' else [0, 5, 10, 15, 6, 7, 8, 9]
                for i, q in enumerate(idx):
                    ex.require(s, eq(s.load(Ptr(out, 4 * i), 4), y[q]), 'subkey word %d' % i)
                ex.require(s, eq(s.load(Ptr(out, 32), 1), st.load(Ptr(out, 32), 1)), 'thirty-two bytes written')
    return unit


# ------------------------------------------------------------------ ARC4

def A_(t, x):
    """ghost permutation before step t"""
    return UF('S', 8, (t, x))


def z8(e):
    return zext(e, 64)


def swapped(t, i, j, x):
    return ite(eq(x, j), A_(t, i), ite(eq(x, i), A_(t, j), A_(t, x)))


def arc4_lay():
    o = offsets(HDR, ['arc4_t', 'arc4_t.s', 'arc4_t.i', 'arc4_t.j'])
    return {k.split('.')[-1]: v for k, v in o.items()}


def arc4_unit(inplace):
    def unit(U):
        L = arc4_lay()
        ex, st = U.exec(['stream', 'util', 'internal'])
        ctx = ex.sym_obj(st, 'ctx', L['arc4_t'][1])
        so, io, jo = L['s'][0], L['i'][0], L['j'][0]
        i0, j0 = st.load(Ptr(ctx, io), 1), st.load(Ptr(ctx, jo), 1)
        n = V('n', 64)
        st.assume(ult(n, K(1 << 60)))
        src = ex.sym_obj(st, 'src', addc(n, 1))
        dst = src
        if not inplace:
            dst = ex.sym_obj(st, 'dst', addc(n, 1))
            src.const = True
        I_ = lambda t: add(i0, ext(t, 7, 0))
        J = Rec(ex, 'spec.j', j0, lambda t, j: add(j, A_(t, z8(I_(addc(t, 1))))))

        def facts(t, x):
            if t is K(0):
                return [eq(A_(t, x), UF('m:ctx', 8, (addc(x, so),)))]
            p = addc(t, -1)
            return [J.unfold(p), eq(A_(t, x), swapped(p, z8(I_(t)), z8(J(t)), x))]
        ex.arrays[('torsion_arc4_crypt', 0)] = [ArrayInv(ctx, so, 256, A_, facts)]
        for s, r in ex.call(st, 'torsion_arc4_crypt', [Ptr(ctx), Ptr(dst), Ptr(src), n]):
            U.reach(s)
            if len(ex.summaries) != 1:
                raise Unsupported('another loop structure')
            t = ex.summaries[-1].t
            ex.require(s, eq(t, n), 'one step per byte')
            s.assume(eq(t, n))
            ex.require(s, eq(s.load(Ptr(ctx, io), 1), I_(n)), 'index i')
            ex.require(s, eq(s.load(Ptr(ctx, jo), 1), J(n)), 'index j')
            x = V('x', 64)
            s1 = s.fork()
            s1.assume(ult(x, K(256)))
            ex.require(s1, eq(s1.load(Ptr(ctx, addc(x, so)), 1), A_(n, x)), 'permutation')
            s2 = s.fork()
            s2.assume(ult(x, n))
            x1 = addc(x, 1)
            i1, j1 = z8(I_(x1)), z8(J(x1))
            got = s2.load(Ptr(dst, x), 1)
            ii = z8(add(swapped(x, i1, j1, i1), swapped(x, i1, j1, j1)))
            for f in facts(x1, ii) + [J.unfold(x)]:
                s2.assume(f)
            for summ in ex.summaries:
                for f in loop_invs(summ, x) + loop_invs(summ, x1):
                    s2.assume(f)
            ex.require(s2, eq(got, xor(UF('m:src', 8, (x,)), A_(x1, ii))), 'output byte')
            ex.require(s, eq(s.load(Ptr(dst, n), 1), st.load(Ptr(dst, n), 1)), 'nothing beyond the output')
    return unit


def arc4_init_unit(U):
    L = arc4_lay()
    ex, st = U.exec(['stream', 'util', 'internal'])
    ctx = ex.sym_obj(st, 'ctx', L['arc4_t'][1])
    so, io, jo = L['s'][0], L['i'][0], L['j'][0]
    n = V('n', 64)
    st.assume(ult(K(0), n))
    st.assume(ule(n, K(256)))
    key = ex.sym_obj(st, 'key', n)
    key.const = True
    J = Rec(ex, 'spec.j', C(0, 8), lambda t, j: add(add(j, A_(t, t)), UF('m:key', 8, (urem(t, n),))))

    def facts(t, x):
        if t is K(0):
            return [eq(A_(t, x), ext(x, 7, 0))]
        p = addc(t, -1)
        return [J.unfold(p), eq(A_(t, x), swapped(p, p, z8(J(t)), x))]
    ex.arrays[('torsion_arc4_init', 1)] = [ArrayInv(ctx, so, 256, A_, facts)]
    for s, r in ex.call(st, 'torsion_arc4_init', [Ptr(ctx), Ptr(key), n]):
        U.reach(s)
        x = V('x', 64)
        s1 = s.fork()
        s1.assume(ult(x, K(256)))
        ex.require(s1, eq(s1.load(Ptr(ctx, addc(x, so)), 1), A_(K(256), x)), 'key schedule')
        ex.require(s, and_(eq(s.load(Ptr(ctx, io), 1), C(0, 8)), eq(s.load(Ptr(ctx, jo), 1), C(0, 8))), 'indices start at zero')


UNITS = []
for c in NAMES:
    UNITS += [(c + ' block', block_unit(c)), (c + ' crypt', crypt_unit(c, 0)), (c + ' crypt in place', crypt_unit(c, 1)),
              (c + ' init', init_unit(c)), (c + ' derive', derive_unit(c))]
UNITS += [('arc4 init', arc4_init_unit), ('arc4 crypt', arc4_unit(0)), ('arc4 crypt in place', arc4_unit(1))]


# ------------------------------------------------------------------ concrete

M32 = 0xffffffff


def py_rl(x, n):
    x &= M32
    return ((x << n) | (x >> (32 - n))) & M32


def py_rounds(c, x):
    x = list(x)
    if c == 'chacha20':
        def q(a, b, c, d):
            x[a] = x[a] + x[b] & M32; x[d] = py_rl(x[d] ^ x[a], 16)
            x[c] = x[c] + x[d] & M32; x[b] = py_rl(x[b] ^ x[c], 12)
            x[a] = x[a] + x[b] & M32; x[d] = py_rl(x[d] ^ x[a], 8)
            x[c] = x[c] + x[d] & M32; x[b] = py_rl(x[b] ^ x[c], 7)
        for _ in range(10):
            for k in range(4):
                q(k, 4 + k, 8 + k, 12 + k)
            for k in range(4):
                q(k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4)
    else:
        def q(a, b, c, d):
            x[b] ^= py_rl(x[a] + x[d], 7)
            x[c] ^= py_rl(x[b] + x[a], 9)
            x[d] ^= py_rl(x[c] + x[b], 13)
            x[a] ^= py_rl(x[d] + x[c], 18)
        for _ in range(10):
            for k in range(4):
                q(*[(5 * k + 4 * i) % 16 for i in range(4)])
            for k in range(4):
                q(*[4 * k + (k + i) % 4 for i in range(4)])
    return x


def words(b):
    return [int.from_bytes(b[i:i + 4], 'little') for i in range(0, len(b), 4)]


def py_state(c, key, tail):
    ks = words(b'expand 16-byte k' if len(key) == 16 else b'expand 32-byte k')
    kw = words((key + key)[:32])
    return ks + kw + tail if c == 'chacha20' else [ks[0]] + kw[:4] + [ks[1]] + tail + [ks[2]] + kw[4:] + [ks[3]]


def py_derive(c, key, n16):
    y = py_rounds(c, py_state(c, key, words(n16)))
    idx = [0, 1, 2, 3, 12, 13, 14, 15] if c == 'chacha20' else [0, 5, 10, 15, 6, 7, 8, 9]
    return b''.join(y[i].to_bytes(4, 'little') for i in idx)


def py_stream(c, key, nonce, ctr, n):
    if len(nonce) >= 24:
        key, nonce = py_derive(c, key, nonce[:16]), nonce[16:]
    lo, hi = ctr & M32, ctr >> 32
    nw = words(nonce)
    if c == 'chacha20':
        tail = {8: [lo, hi] + nw, 12: [lo] + nw, 16: nw}[len(nonce)]
    else:
        tail = {8: nw + [lo, hi], 12: nw + [lo], 16: nw}[len(nonce)]
    x = py_state(c, key, tail)
    k = NAMES[c]
    out = b''
    while len(out) < n:
        y = py_rounds(c, x)
        out += b''.join(((a + b) & M32).to_bytes(4, 'little') for a, b in zip(x, y))
        x[k] = (x[k] + 1) & M32
        if x[k] == 0:
            x[k + 1] = (x[k + 1] + 1) & M32
    return out[:n]


def py_arc4(key, n):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = []
    for _ in range(n):
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(s[(s[i] + s[j]) & 255])
    return bytes(out)


def concrete(rng, budget, hints):
    from ctypes import c_uint64
    lib = clib(['stream', 'util', 'internal'])
    sizes = {c: lay(c)[c + '_t'][1] for c in NAMES}
    sizes['arc4'] = arc4_lay()['arc4_t'][1]
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        for c in ('chacha20', 'salsa20', 'arc4'):
            ln = rng.choice([0, 1, 63, 64, 65, 128, rng.randrange(0, 330)])
            msg = rng.randbytes(ln)
            ctx = Guard(sizes[c])
            if c == 'arc4':
                key = rng.randbytes(rng.choice([1, 5, 16, 32, 255, 256]))
                fn(lib, 'arc4_init')(ctx.p, key, sz(len(key)))
                ks = py_arc4(key, ln)
                nonce = ctr = None
            else:
                key = rng.randbytes(rng.choice([16, 32]))
                nonce = rng.randbytes(rng.choice([8, 12, 16, 24, 28, 32]))
                ctr = rng.choice([0, 1, M32, M32 - 1, (1 << 64) - 1, rng.getrandbits(64)])
                fn(lib, c + '_init')(ctx.p, key, sz(len(key)), nonce, sz(len(nonce)), c_uint64(ctr))
                ks = py_stream(c, key, nonce, ctr, ln)
                d = Guard(32)
                n16 = rng.randbytes(16)
                fn(lib, c + '_derive')(d.p, key, sz(len(key)), n16)
                if d.get() != py_derive(c, key, n16) or not d.ok():
                    raise Fail(c + '_derive differs', key=key, nonce=n16, got=d.get())
            want = bytes(a ^ b for a, b in zip(msg, ks))
            inplace = rng.randrange(2)
            out = Guard(ln, msg if inplace else None)
            inp = out if inplace else Guard(ln, msg)
            cuts = sorted(rng.randrange(0, ln + 1) for _ in range(rng.randrange(0, 5)))
            pos = 0
            for q in cuts + [ln]:
                fn(lib, c + '_crypt')(ctx.p, out.at(pos), inp.at(pos), sz(q - pos))
                pos = q
            n += 1
            if out.get() != want or not out.ok() or not ctx.ok():
                raise Fail(c + ' keystream differs', key=key, nonce=nonce, counter=ctr, message=msg, cuts=cuts,
                           inplace=inplace, got=out.get(), want=want)
    return n
