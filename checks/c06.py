"""C06: Poly1305 over 2^130 - 5, both limb sizes."""
import time
from .ghost import *        # noqa
from .numeric import arith
from lvc.poly import Ints, padd, pscale, pconst

SRCS = [('mac', 'c64'), ('mac', 'c32')]
P = (1 << 130) - 5
HDR = 'torsion/mac.h'
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


class Cfg:
    def __init__(self, config):
        self.config = config
        b = config == 'c64'
        u = 'u64' if b else 'u32'
        sp = ['poly1305_t'] + ['poly1305_t.' + f for f in ('state.%s.r' % u, 'state.%s.h' % u, 'state.%s.pad' % u,
                                                         'block', 'pos')]
        o = offsets(HDR, sp, config)
        self.size = o[sp[0]][1]
        self.r, self.h, self.pad, self.block, self.pos = [o[s][0] for s in sp[1:]]
        self.w = 8 if b else 4
        self.n = 3 if b else 5
        self.lim = 44 if b else 26
        self.np = 16 // self.w
        # bounds of the limbs kept between blocks, and of the clamped key
        if b:
            self.hb = [(1 << 44) - 1, (1 << 44) + (1 << 12), (1 << 42) - 1]
            self.rb = [0xffc0fffffff, 0xfffffc0ffff, 0x00ffffffc0f]
        else:
            self.hb = [(1 << 26) - 1, (1 << 26) + (1 << 12)] + [(1 << 26) - 1] * 3
            self.rb = [0x3ffffff, 0x3ffff03, 0x3ffc0ff, 0x3f03fff, 0x00fffff]

    def limbs(self, s, p, off, n=None):
        return [s.load(p + off + self.w * i, self.w) for i in range(n or self.n)]


def value(I, c, limbs, shift=None):
    return I.weighted([(1 << ((shift or c.lim) * i), e) for i, e in enumerate(limbs)])


def blk(fn, base):
    return cat(*[fn(addc(base, i)) for i in reversed(range(16))])


def bounded(U, I, e, hi, what):
    l, h = I.range(e)
    ok = h <= hi
    be = 'intervals'
    if not ok:
        ok = bool(I.linear([(I.poly(e), 0, hi)]))
        be = 'intervals+z3-lia'
    arith(U, what, ok, [e], lambda v: v[0] <= hi, I.rng, be, '%x > %x' % (h, hi))


def init_unit(config):
    def unit(U):
        c = Cfg(config)
        ex, st = U.exec(['mac', 'internal'], config)
        ctx = ex.sym_obj(st, 'ctx', c.size)
        key = ex.sym_obj(st, 'key', 32)
        key.const = True
        kb = lambda k: UF('m:key', 8, (k,))
        for s, r in ex.call(st, 'torsion_poly1305_init', [Ptr(ctx), Ptr(key)]):
            U.reach(s)
            rl = c.limbs(s, Ptr(ctx), c.r)
            acc = C(0, 136)
            for i, e in enumerate(rl):
                acc = add(acc, shl_c(zext(e, 136), c.lim * i))
                ex.require(s, ule(e, C(c.rb[i], e.w)), 'limb %d of r bounded' % i)
            ex.require(s, eq(acc, zext(and_(blk(kb, K(0)), C(CLAMP, 128)), 136)), 'r is the clamped key half')
            for i, e in enumerate(c.limbs(s, Ptr(ctx), c.h)):
                ex.require(s, eq(e, C(0, e.w)), 'accumulator limb %d zero' % i)
            pad = cat(*c.limbs(s, Ptr(ctx), c.pad, c.np)[::-1])
            ex.require(s, eq(pad, blk(kb, K(16))), 'pad is the second key half')
            ex.require(s, eq(s.load(Ptr(ctx, c.pos), 8), K(0)), 'nothing buffered')
    return unit


def blocks_unit(config, final):
    def unit(U):
        c = Cfg(config)
        ex, st = U.exec(['mac', 'internal'], config)
        ex.prefer_unroll = 0
        ctx = ex.sym_obj(st, 'ctx', c.size, c.w)
        n = V('n', 64)
        st.assume(ult(n, K(1 << 56)))
        data = ex.sym_obj(st, 'data', mul(n, K(16)))
        data.const = True
        db = lambda k: UF('m:data', 8, (k,))
        h0 = c.limbs(st, Ptr(ctx), c.h)
        r0 = c.limbs(st, Ptr(ctx), c.r)
        for s, r in ex.call(st, 'poly1305_blocks', [Ptr(ctx), Ptr(data), mul(n, K(16)), C(final, 32)]):
            U.reach(s)
            if len(ex.summaries) != 1:
                raise Unsupported('another loop structure')
            T_ = ex.summaries[-1].t
            ex.require(s, eq(T_, n), 'every block is absorbed')
            out = c.limbs(s, Ptr(ctx), c.h)
            recs = []
            for e in out:
                if e.op != 'uf' or e.val not in ex.recs or e.args != (T_,):
                    raise Unsupported('accumulator is not a loop variable')
                recs.append(e.val)
            for i, e in enumerate(c.limbs(s, Ptr(ctx), c.r)):
                ex.require(s, eq(e, r0[i]), 'key limb %d kept' % i)
            for a, b in ((c.pad, c.block), (c.block, c.block + 16), (c.pos, c.pos + 8)):
                for o in range(a, b, 4):
                    ex.require(s, eq(s.load(Ptr(ctx, o), 4), st.load(Ptr(ctx, o), 4)), 'other fields kept')
            t = ex.recs[recs[0]][0]
            I = Ints()
            cur = [UF(nm, 8 * c.w, (t,)) for nm in recs]
            for e, hb in zip(cur, c.hb):
                I.declare(e, 0, hb)
            for e, rb in zip(r0, c.rb):
                I.declare(e, 0, rb)
            nxt = []
            for i, nm in enumerate(recs):
                t2, ini, nx, outer = ex.recs[nm]
                ex.require(s, eq(ini, h0[i]), 'accumulator limb %d starts from the context' % i)
                nxt.append(nx)
            for i, e in enumerate(nxt):
                bounded(U, I, e, c.hb[i], 'limb %d stays bounded' % i)
            m = padd(I.poly(blk(db, mul(t, K(16)))), pconst(0 if final else 1 << 128))
            want = I.pmul(padd(value(I, c, cur), m), value(I, c, r0))
            D = padd(value(I, c, nxt), want, -1)
            ok = I.zero_mod(D, P)
            b = blk(db, mul(t, K(16)))
            num = lambda v: sum(x << (c.lim * i) for i, x in enumerate(v))
            arith(U, 'accumulator becomes (h + block) * r modulo 2^130-5', ok, nxt + cur + r0 + [b],
                  lambda v: ((num(v[c.n:2 * c.n]) + v[-1] + (0 if final else 1 << 128)) * num(v[2 * c.n:3 * c.n]) -
                             num(v[:c.n])) % P == 0, I.rng,
                  detail='' if ok else I.show({k: v % P for k, v in D.items() if v % P}))
    return unit


def log_setup(U, c, pos=None):
    ex, st = U.exec(['mac', 'internal'], c.config)
    ctx = ex.sym_obj(st, 'ctx', c.size, 1)
    p = V('pos', 64) if pos is None else K(pos)
    st.assume(ult(p, K(16)))
    st.store(Ptr(ctx, c.pos), p, 8)

    def blocks(ex, s, a):
        ex.require(s, eq(ext(a[2], 3, 0), C(0, 4)), 'whole blocks')
        reads(ex, s, a[1], a[2], 'absorbed data')
        log(s, Event('blocks', where(a[0]), chunk=Chunk(s, as_ptr(a[1]), a[2]), final=a[3]))
        ex.havoc(s, as_ptr(a[0]) + c.h, c.n * c.w, 'h')
    U.stub(ex, 'poly1305_blocks', blocks, False)
    return ex, st, ctx, p


def others_kept(ex, st, s, ctx, c):
    for a, b in ((c.r, c.r + c.n * c.w), (c.pad, c.pad + 16)):
        for o in range(a, b, 4):
            ex.require(s, eq(s.load(Ptr(ctx, o), 4), st.load(Ptr(ctx, o), 4)), 'key material kept')


def update_unit(config):
    def unit(U):
        c = Cfg(config)
        ex, st, ctx, p = log_setup(U, c)
        n = V('n', 64)
        st.assume(ult(n, K(1 << 60)))
        data = ex.sym_obj(st, 'data', n)
        data.const = True
        old = Bytes(p, lambda k: UF('m:ctx', 8, (addc(k, c.block),)))
        new = Bytes(n, lambda k: UF('m:data', 8, (k,)))
        for s, r in ex.call(st.fork(), 'torsion_poly1305_update', [Ptr(ctx), Ptr(data), n]):
            U.reach(s)
            ev = list(s.extra or ())
            for e in ev:
                ex.require(s, eq(e.final, C(0, 32)), 'blocks carry the terminating bit')
            p2 = s.load(Ptr(ctx, c.pos), 8)
            ex.require(s, ult(p2, K(16)), 'less than a block buffered')
            same_bytes(ex, s, [e.chunk for e in ev] + [Chunk(s, Ptr(ctx, c.block), p2)], [old, new], 'stream')
            others_kept(ex, st, s, ctx, c)
    return unit


def pad_unit(config, lo):
    def unit(U):
        c = Cfg(config)
        for pos in range(lo, lo + 4):
            ex, st, ctx, p = log_setup(U, c, pos)
            for s, r in ex.call(st.fork(), 'torsion_poly1305_pad', [Ptr(ctx)]):
                U.reach(s)
                ev = list(s.extra or ())
                for e in ev:
                    ex.require(s, eq(e.final, C(0, 32)), 'blocks carry the terminating bit')
                want = Bytes(16 if pos else 0, lambda k: ite(ult(k, p), UF('m:ctx', 8, (addc(k, c.block),)), C(0, 8)))
                same_bytes(ex, s, [e.chunk for e in ev], [want], 'zero padded block')
                ex.require(s, eq(s.load(Ptr(ctx, c.pos), 8), K(0)), 'nothing buffered')
                others_kept(ex, st, s, ctx, c)
    return unit


def final_blocks_unit(config, lo):
    def unit(U):
        c = Cfg(config)
        for pos in range(lo, lo + 4):
            ex, st, ctx, p = log_setup(U, c, pos)
            mac = ex.sym_obj(st, 'mac', 17)
            for s, r in ex.call(st.fork(), 'torsion_poly1305_final', [Ptr(ctx), Ptr(mac)]):
                U.reach(s)
                ev = list(s.extra or ())
                for e in ev:
                    ex.require(s, eq(e.final, C(1, 32)), 'last block carries its own terminating bit')
                want = Bytes(16 if pos else 0, lambda k: ite(
                    ult(k, p), UF('m:ctx', 8, (addc(k, c.block),)), ite(eq(k, p), C(1, 8), C(0, 8))))
                same_bytes(ex, s, [e.chunk for e in ev], [want], 'last block')
                ex.require(s, eq(s.load(Ptr(mac, 16), 1), st.load(Ptr(mac, 16), 1)), 'sixteen bytes written')
    return unit


def final_unit(config):
    """the tag is ((h mod p) + pad) mod 2^128"""
    def unit(U):
        c = Cfg(config)
        ex, st = U.exec(['mac', 'internal'], config)
        ctx = ex.sym_obj(st, 'ctx', c.size, c.w)
        st.store(Ptr(ctx, c.pos), K(0), 8)
        mac = ex.sym_obj(st, 'mac', 16)
        h = c.limbs(st, Ptr(ctx), c.h)
        pad = c.limbs(st, Ptr(ctx), c.pad, c.np)
        for s, r in ex.call(st, 'torsion_poly1305_final', [Ptr(ctx), Ptr(mac)]):
            U.reach(s)
            tag = s.load(Ptr(mac), 16)
            rg = {e: (0, hb) for e, hb in zip(h, c.hb)}
            num = lambda v, sh: sum(x << (sh * i) for i, x in enumerate(v))
            good = True
            sel = selectors(tag)
            U.notes.append('%d selectors' % len(sel))
            for case in cases(sel):
                I = Ints()
                for e, hb in zip(h, c.hb):
                    I.declare(e, 0, hb)
                t2 = subst(tag, case)
                H = value(I, c, h)
                D = padd(padd(I.poly(t2), value(I, c, pad, 8 * c.w), -1), H, -1)
                # D = -p*q modulo 2^128
                M = 1 << 128
                inv5 = pow(5, -1, M)
                q = {}
                for k, v in D.items():
                    x = v * inv5 % M
                    if x > M // 2:
                        x -= M
                    if x:
                        q[k] = x
                X_ = padd(H, pscale(q, P), -1)
                ok = I.zero_mod(padd(padd(I.poly(t2), value(I, c, pad, 8 * c.w), -1), X_, -1), M)
                # the selector itself in integer terms
                cs = []
                for e, v in case.items():
                    cs.append((I.poly(e), v.val, v.val))
                r = I.linear([(X_, 0, P - 1)], cs, 60000)
                good = good and ok and bool(r)
            arith(U, 'tag value', good, [tag] + h + pad, lambda v: v[0] == (
                num(v[1:1 + c.n], c.lim) % P + num(v[1 + c.n:], 8 * c.w)) % (1 << 128), rg)
    return unit


def selectors(e):
    """one-bit terms that are spread into masks"""
    out = []
    for x in X.postorder([e]):
        if x.op == 'ext' and x.w == 1 and x.args[0].op == 'lin' and x.val[0] == x.args[0].w - 1:
            out.append(x)
        if x.op == 'ult':
            out.append(x)
    return out


def cases(sel):
    if len(sel) > 3:
        raise Unsupported('too many selectors')
    for k in range(1 << len(sel)):
        yield {e: C((k >> i) & 1, 1) for i, e in enumerate(sel)}


UNITS = []
for cf in ('c64', 'c32'):
    UNITS += [(cf + ' init', init_unit(cf)), (cf + ' blocks', blocks_unit(cf, 0)), (cf + ' last block', blocks_unit(cf, 1)),
              (cf + ' update', update_unit(cf)), (cf + ' tag', final_unit(cf))]
    for lo in (0, 4, 8, 12):
        UNITS.append(('%s pad %d' % (cf, lo), pad_unit(cf, lo)))
        UNITS.append(('%s final %d' % (cf, lo), final_blocks_unit(cf, lo)))


# ------------------------------------------------------------------ concrete

def py_poly(msg, key):
    r = int.from_bytes(key[:16], 'little') & CLAMP
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b'\x01', 'little')) * r % P
    return ((a + int.from_bytes(key[16:], 'little')) & ((1 << 128) - 1)).to_bytes(16, 'little')


def concrete(rng, budget, hints):
    libs = [(cf, clib(['mac', 'internal'], config=cf), Cfg(cf).size) for cf in ('c64', 'c32')]
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        ln = rng.choice([0, 1, 15, 16, 17, 31, 32, 33, rng.randrange(0, 200)])
        msg = rng.choice([rng.randbytes(ln), bytes([255]) * ln, bytes(ln)])
        key = rng.randbytes(32)
        mode = rng.randrange(6)
        if mode == 0:
            key = b'\xff' * 32
        elif mode == 1:     # small r: accumulator near the modulus
            key = bytes([rng.randrange(4)]) + bytes(15) + rng.randbytes(16)
            msg = bytes([255]) * 16 * rng.randrange(1, 4)
        elif mode == 2:     # r = 1 and a final sum close to p
            key = b'\x01' + bytes(15) + rng.choice([bytes(16), b'\xff' * 16, rng.randbytes(16)])
            msg = b'\xff' * 32 + (rng.randrange(240, 256)).to_bytes(1, 'little') + b'\xff' * 15
            k = rng.randrange(0, 16)
            v = (P - 3 + k - 2 * ((1 << 129) - 1)) % P - (1 << 128)
            if 0 <= v < 1 << 128:
                msg = b'\xff' * 32 + v.to_bytes(16, 'little')
        want = py_poly(msg, key)
        for cf, lib, size in libs:
            ctx, mac = Guard(size), Guard(16)
            fn(lib, 'poly1305_init')(ctx.p, key)
            cuts = sorted(rng.randrange(0, len(msg) + 1) for _ in range(rng.randrange(0, 4)))
            pos = 0
            for q in cuts + [len(msg)]:
                fn(lib, 'poly1305_update')(ctx.p, bytes(msg[pos:q]), sz(q - pos))
                pos = q
            if rng.randrange(4) == 0:
                want2 = py_poly(msg + bytes(-len(msg) % 16), key)
                fn(lib, 'poly1305_pad')(ctx.p)
            else:
                want2 = want
            fn(lib, 'poly1305_final')(ctx.p, mac.p)
            n += 1
            if mac.get() != want2 or not mac.ok() or not ctx.ok():
                raise Fail('Poly1305 tag differs (%s)' % cf, key=key, message=msg, cuts=cuts, got=mac.get(), want=want2)
    return n
