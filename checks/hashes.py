"""Contracts of the hash functions: update absorbs the message stream block by
block, final pads it.  The compression functions are left uninterpreted; a
ghost log records every block they are given."""
from .core import *         # noqa
from .core import X
from lvc.expr import *      # noqa
from lvc.exec import *      # noqa

# name: (context type, state field, block field, block size, kind, compress function)
ALG = {
    'md4': ('md4_t', 'state', 64, 'size', 1),
    'md5': ('md5_t', 'state', 64, 'size', 1),
    'ripemd160': ('ripemd160_t', 'state', 64, 'size', 1),
    'sha1': ('sha1_t', 'state', 64, 'size', 1),
    'sha256': ('sha256_t', 'state', 64, 'size', 1),
    'sha512': ('sha512_t', 'state', 128, 'size', 2),
    'whirlpool': ('whirlpool_t', 'state', 64, 'size', 4),
    'gost94': ('gost94_t', 'state', 32, 'size', 4),
    'md2': ('md2_t', 'state', 16, 'pos', 0),
    'keccak': ('keccak_t', 'state', None, 'pos', 0),
    'blake2b': ('blake2b_t', 'h', 128, 'pos', 0),
    'blake2s': ('blake2s_t', 'h', 64, 'pos', 0),
}
HDR = '<torsion/hash.h>'


def layout(alg):
    t, sf, bs, kind, nw = ALG[alg]
    specs = [t, t + '.' + sf, t + '.block', t + '.' + kind]
    if alg == 'keccak':
        specs += [t + '.bs', t + '.std']
    if alg.startswith('blake2'):
        specs += [t + '.t', t + '.len']
    if alg == 'gost94':
        specs += [t + '.sigma']
    if alg == 'md2':
        specs += [t + '.checksum']
    o = offsets(HDR, specs)
    return {(k.split('.')[1] if '.' in k else ''): v for k, v in o.items()}


def M_(i):
    return UF('M', 8, (i,))


K64 = lambda v: C(v, 64)


class Stream:
    """symbolic context holding a prefix of the message stream M, `base` bytes
    absorbed so far, and the ghost log"""

    def __init__(self, U, ex, st, alg, bs=None):
        self.U, self.ex, self.alg = U, ex, alg
        t, sf, BS, kind, nw = ALG[alg]
        self.BS = BS = bs or BS
        self.kind, self.nw = kind, nw
        L = self.L = layout(alg)
        self.so, self.sn = L[sf]
        self.bo = L['block'][0]
        self.ko, self.kn = L[kind]
        self.tot = L[''][1]
        self.ctx = ex.sym_obj(st, 'ctx', self.tot)
        self.log = ex.new_obj(st, 'log', 1 << 62, Sym('log0'))
        self.g = ex.new_obj(st, 'goff', 8, Zero())

    def S(self, i):
        return UF('S', 8 * self.sn, (i,))

    def prepare(self, st, base, pos, hi=()):
        """ghost view: base bytes absorbed, pos bytes pending"""
        ct = st.wcontent(self.ctx)
        ct.base = RangeFn(ct.base, K64(self.bo), K64(self.L['block'][1]),
                          lambda d: ite(ult(d, pos), M_(add(base, d)), UF('junk', 8, (d,))))
        st.store(Ptr(self.ctx, self.so), self.S(base), self.sn)
        st.store(Ptr(self.g), base, 8)

    def transform(self, name, count=None, need=True):
        """contract of the compression function: consumes exactly one block,
        chained on the current state, and only changes the state"""
        def tr(ex, s, a):
            go = s.load(Ptr(self.g), 8)
            ex.require(s, eq(s.load(a[0] + self.so, self.sn), self.S(go)), 'chaining value handed on unchanged')
            if count:
                count(ex, s, a, go)
            ex.copy(s, Ptr(self.log, go), a[1], K64(self.BS))
            go2 = addc(go, self.BS)
            s.store(Ptr(self.g), go2, 8)
            s.store(a[0] + self.so, self.S(go2), self.sn)
        self.U.stub(self.ex, name, tr, need)


def post_log(ex, s, H, base, be, tail):
    k = V('k', 64)
    ex.require(s, eq(s.load(Ptr(H.g), 8), be), 'number of bytes absorbed')
    s2 = s.fork()
    s2.assume(ule(base, k))
    s2.assume(ult(k, be))
    ex.require(s2, eq(s2.load(Ptr(H.log, k), 1), M_(k)), 'absorbed bytes are the message bytes')
    s2 = s.fork()
    s2.assume(ult(k, base))
    ex.require(s2, eq(s2.load(Ptr(H.log, k), 1), UF('log0', 8, (k,))), 'earlier blocks untouched')
    s2 = s.fork()
    s2.assume(ult(k, tail))
    ex.require(s2, eq(s2.load(Ptr(H.ctx, addc(k, H.bo)), 1), M_(add(be, k))), 'pending bytes buffered')
    ex.require(s, eq(s.load(Ptr(H.ctx, H.so), H.sn), H.S(be)), 'chaining value')


def update_unit(alg, bs=None):
    def unit(U):
        ex, st = U.exec(['hash', 'internal', 'util'])
        H = Stream(U, ex, st, alg, bs)
        BS = H.BS
        n = V('len', 64)
        st.assume(ult(n, K64(1 << 60)))
        U.assume('update: single call shorter than 2^60 bytes; fewer than 2^60 bytes absorbed before '
                 '(the byte counters themselves are proved for every value)')
        L = H.L
        if H.kind == 'size':
            Lm = V('L', 64)
            st.assume(ult(Lm, K64(1 << 60)))
            pos = and_(Lm, K64(BS - 1))
            base = sub(Lm, pos)
            H.prepare(st, base, pos)
            st.store(Ptr(H.ctx, H.ko), Lm, 8)
        else:
            base = V('base', 64)
            pos = V('pos', 64)
            st.assume(ult(base, K64(1 << 60)))
            st.assume(ult(pos, K64(BS)) if not alg.startswith('blake2') else ule(pos, K64(BS)))
            Lm = add(base, pos)
            H.prepare(st, base, pos)
            st.store(Ptr(H.ctx, H.ko), pos, 8)
        if alg == 'keccak':
            st.store(Ptr(H.ctx, L['bs'][0]), K64(BS), 8)
        count = None
        if alg.startswith('blake2'):
            w = 64 if alg == 'blake2b' else 32
            to, tn = L['t']
            T0 = V('T0', 2 * w)
            st.store(Ptr(H.ctx, to), T0, 2 * w // 8)

            def tval(go):
                d = sub(go, base)
                return add(T0, zext(d, 2 * w) if w == 64 else d)

            def count(ex, s, a, go):
                ex.require(s, eq(a[2], C(0, w)), 'not flagged as last block')
                ex.require(s, eq(s.load(a[0] + to, 2 * w // 8), tval(addc(go, BS))), 'byte counter of the block')
            H.transform(alg + '_compress', count)

            def hook(summ, t, vals):
                # loop invariant: the counter words hold the sum
                a = vals.get(('m', H.ctx, to, w // 8))
                b = vals.get(('m', H.ctx, to + w // 8, w // 8))
                g = vals.get(('m', H.g, 0, 8))
                if a is None or b is None or g is None:
                    return []
                return [eq(cat(b, a), tval(g))]
            ex.inv_hooks.append(hook)
        else:
            H.transform(alg + '_transform')
        data = ex.new_obj(st, 'data', n, RangeFn(Zero(), K64(0), n, lambda d: M_(add(Lm, d))), const=True)
        for s, r in ex.call(st, 'torsion_%s_update' % alg if alg != 'keccak' else pick(ex, 'keccak_update'),
                            [Ptr(H.ctx), Ptr(data), n]):
            U.reach(s)
            tot = add(pos, n)
            if H.kind == 'size':
                Le = add(Lm, n)
                pe = and_(Le, K64(BS - 1))
                be = sub(Le, pe)
                ex.require(s, eq(s.load(Ptr(H.ctx, H.ko), 8), Le), 'length counter')
            elif alg.startswith('blake2'):
                # a full block stays buffered until more data arrives
                cnt = ite(eq(tot, K64(0)), K64(0), udiv(addc(tot, -1), K64(BS)))
                be = add(base, mul(cnt, K64(BS)))
                pe = sub(add(base, tot), be)
                ex.require(s, eq(s.load(Ptr(H.ctx, H.ko), 8), pe), 'fill level')
                ex.require(s, eq(s.load(Ptr(H.ctx, L['t'][0]), L['t'][1]), tval(be)), 'byte counter')
            else:
                pe = urem(tot, K64(BS))
                be = sub(add(base, tot), pe)
                ex.require(s, eq(s.load(Ptr(H.ctx, H.ko), 8), pe), 'fill level')
            post_log(ex, s, H, base, be, pe)
            if alg == 'keccak':
                ex.require(s, eq(s.load(Ptr(H.ctx, L['bs'][0]), 8), K64(BS)), 'rate unchanged')
    return unit


def pick(ex, name):
    if ex.find_func('torsion_' + name):
        return 'torsion_' + name
    return name


def count_unit(alg):
    """the length counter is exact for every previous value, including carries"""
    def unit(U):
        ex, st = U.exec(['hash', 'internal', 'util'])
        H = Stream(U, ex, st, alg)
        n = V('len', 64)
        st.assume(ult(n, K64(1 << 60)))
        W = 64 * H.nw
        st.store(Ptr(H.ctx, H.ko), V('N', W), W // 8)
        U.stub(ex, alg + '_transform', lambda ex, s, a: None, need=False)
        data = ex.sym_obj(st, 'data', n)
        for s, r in ex.call(st, 'torsion_%s_update' % alg, [Ptr(H.ctx), Ptr(data), n]):
            U.reach(s)
            ex.require(s, eq(s.load(Ptr(H.ctx, H.ko), W // 8), add(V('N', W), zext(n, W))),
                       'length counter exact')
    return unit


# ------------------------------------------------------------------ final

def cat_bytes(bs):
    return cat(*bs[::-1]) if len(bs) > 1 else bs[0]


def run_final(U, alg, p, BS, setup=None, fname=None, extra=(), outlen=None, comp=None):
    """final with p pending bytes; returns (ex, state, stream, out)"""
    ex, st = U.exec(['hash', 'internal', 'util'])
    H = Stream(U, ex, st, alg, BS)
    ct = st.wcontent(H.ctx)
    for i in range(p):
        st.store(Ptr(H.ctx, H.bo + i), UF('M', 8, (K64(i),)), 1)
    st.store(Ptr(H.ctx, H.so), H.S(K64(0)), H.sn)
    st.store(Ptr(H.g), K64(0), 8)
    if setup:
        setup(ex, st, H)
    if comp is None:
        H.transform(alg + '_transform')
    else:
        comp(H)
    out = ex.new_obj(st, 'out', outlen, Sym('out0'))
    res = ex.call(st, fname or 'torsion_%s_final' % alg, [Ptr(H.ctx), Ptr(out)] + list(extra))
    return ex, res, H, out


def check_log(U, ex, s, H, want, what):
    """the ghost log holds exactly these bytes"""
    go = s.load(Ptr(H.g), 8)
    ex.require(s, eq(go, K64(len(want))), '%s: number of blocks compressed' % what)
    if go.op != 'c' or go.val != len(want):
        return
    g = [eq(s.load(Ptr(H.log, i), 1), w) for i, w in enumerate(want)]
    ex.require(s, conj(g), '%s: compressed bytes are tail, padding and length' % what)


def ser(state, n, width, big):
    """first n bytes of the state words"""
    out = []
    for i in range(n):
        w, b = divmod(i, width)
        k = w * width + (width - 1 - b if big else b)
        out.append(ext(state, 8 * k + 7, 8 * k))
    return out


def check_out(ex, s, H, out, n, want, what):
    g = [eq(s.load(Ptr(out, i), 1), w) for i, w in enumerate(want)]
    ex.require(s, conj(g), '%s: digest bytes' % what)


MD = {   # block, length bytes, big endian length, word bytes, big endian words, digest, length word count
    'md4': (64, 8, 0, 4, 0, 16), 'md5': (64, 8, 0, 4, 0, 16), 'ripemd160': (64, 8, 0, 4, 0, 20),
    'sha1': (64, 8, 1, 4, 1, 20), 'sha256': (64, 8, 1, 4, 1, 32), 'sha512': (128, 16, 1, 8, 1, 64),
    'whirlpool': (64, 32, 1, 8, 1, 64), 'sha224': (64, 8, 1, 4, 1, 28), 'sha384': (128, 16, 1, 8, 1, 48),
}
CORE = {'sha224': 'sha256', 'sha384': 'sha512'}


def bits_len(N, lb, big):
    """length field: 8*N on lb bytes"""
    w = 8 * lb
    v = shl_c(zext(N, w) if N.w < w else N, 3)
    bs = [ext(v, 8 * i + 7, 8 * i) for i in range(lb)]
    return bs[::-1] if big else bs


def md_final_unit(alg, lo, hi):
    def unit(U):
        BS, lb, big, ww, wbig, dl = MD[alg]
        core = CORE.get(alg, alg)
        nw = ALG[core][4]
        W = 64 * nw
        for p in range(lo, hi):
            kb = BS.bit_length() - 1
            N = cat(V('q', W - kb), C(p, kb))

            def setup(ex, st, H):
                st.store(Ptr(H.ctx, H.ko), N, W // 8)
            ex, res, H, out = run_final(U, core, p, BS, setup, 'torsion_%s_final' % alg, outlen=dl)
            msg = [M_(K64(i)) for i in range(p)] + [C(0x80, 8)]
            while (len(msg) + lb) % BS:
                msg.append(C(0, 8))
            msg += bits_len(N, lb, big)
            for s, r in res:
                if p == lo:
                    U.reach(s)
                check_log(U, ex, s, H, msg, '%s tail %d' % (alg, p))
                check_out(ex, s, H, out, dl, ser(H.S(K64(len(msg))), dl, ww, wbig), '%s tail %d' % (alg, p))
    return unit


def keccak_final_unit(bs, pads):
    def unit(U):
        for p in range(bs):
            for pad, ln in pads:
                def setup(ex, st, H):
                    st.store(Ptr(H.ctx, H.ko), K64(p), 8)
                    st.store(Ptr(H.ctx, H.L['bs'][0]), K64(bs), 8)
                dl = ln or 100 - bs // 2
                ex, res, H, out = run_final(U, 'keccak', p, bs, setup, None, (C(pad, 32), K64(ln)), dl) \
                    if False else run_final(U, 'keccak', p, bs, setup, 'torsion_keccak_final',
                                            (C(pad, 32), K64(ln)), dl)
                msg = [M_(K64(i)) for i in range(p)] + [C(pad, 8)] + [C(0, 8)] * (bs - p - 1)
                msg[-1] = or_(msg[-1], C(0x80, 8))
                for s, r in res:
                    if p == 0:
                        U.reach(s)
                    check_log(U, ex, s, H, msg, 'sponge rate %d tail %d' % (bs, p))
                    check_out(ex, s, H, out, dl, ser(H.S(K64(bs)), dl, 8, 0), 'sponge rate %d tail %d' % (bs, p))
    return unit


def blake_final_unit(alg, dls):
    def unit(U):
        BS = ALG[alg][2]
        w = 64 if alg == 'blake2b' else 32
        first = True
        for p in range(BS + 1):
            for dl in (dls if p in (0, 1, BS) else dls[:1]):
                T0 = V('T0', 2 * w)

                def setup(ex, st, H):
                    st.store(Ptr(H.ctx, H.ko), K64(p), 8)
                    st.store(Ptr(H.ctx, H.L['len'][0]), K64(dl), 8)
                    st.store(Ptr(H.ctx, H.L['t'][0]), T0, 2 * w // 8)

                def comp(H):
                    def count(ex, s, a, go):
                        ex.require(s, eq(a[2], C(-1, w)), 'flagged as last block')
                        ex.require(s, eq(s.load(a[0] + H.L['t'][0], 2 * w // 8), addc(T0, p)), 'total byte counter')
                    H.transform(alg + '_compress', count)
                ex, res, H, out = run_final(U, alg, p, BS, setup, outlen=dl, comp=comp)
                msg = [M_(K64(i)) for i in range(p)] + [C(0, 8)] * (BS - p)
                for s, r in res:
                    if first:
                        U.reach(s)
                        first = False
                    check_log(U, ex, s, H, msg, '%s tail %d' % (alg, p))
                    check_out(ex, s, H, out, dl, ser(H.S(K64(BS)), dl, w // 8, 0), '%s tail %d' % (alg, p))
    return unit


def md2_final_unit(U):
    for p in range(16):
        def setup(ex, st, H):
            st.store(Ptr(H.ctx, H.ko), K64(p), 8)
            co, cn = H.L['checksum']
            for i in range(16):
                st.store(Ptr(H.ctx, co + i), UF('CK', 8, (K64(i),)), 1)

        def comp(H):
            def tr(ex, s, a):
                go = s.load(Ptr(H.g), 8)
                ex.require(s, eq(s.load(a[0] + H.so, H.sn), H.S(go)), 'chaining value handed on unchanged')
                ex.copy(s, Ptr(H.log, go), a[1], K64(16))
                s.store(Ptr(H.g), addc(go, 16), 8)
                s.store(a[0] + H.so, H.S(addc(go, 16)), H.sn)
                # the transformation also updates the checksum
                for i in range(16):
                    s.store(a[0] + H.L['checksum'][0] + i, UF('CK1', 8, (K64(i), go)), 1)
            U.stub(H.ex, 'md2_transform', tr)
        ex, res, H, out = run_final(U, 'md2', p, 16, setup, outlen=16, comp=comp)
        msg = [M_(K64(i)) for i in range(p)] + [C(16 - p, 8)] * (16 - p)
        msg += [UF('CK1', 8, (K64(i), K64(0))) for i in range(16)]
        for s, r in res:
            if p == 0:
                U.reach(s)
            check_log(U, ex, s, H, msg, 'md2 tail %d' % p)
            check_out(ex, s, H, out, 16, ser(H.S(K64(32)), 16, 1, 0), 'md2 tail %d' % p)


def gost_final_unit(U):
    """compress and checksum calls recorded in order"""
    for p in range(32):
        N = cat(V('q', 251), C(p, 5))

        def setup(ex, st, H):
            st.store(Ptr(H.ctx, H.ko), N, 32)
            st.store(Ptr(H.ctx, H.L['sigma'][0]), V('sigma', 256), 32)

        def comp(H):
            def tr(ex, s, a):
                go = s.load(Ptr(H.g), 8)
                ex.require(s, eq(s.load(a[0] + H.so, H.sn), H.S(go)), 'chaining value handed on unchanged')
                ex.copy(s, Ptr(H.log, go), a[1], K64(32))
                s.store(Ptr(H.g), addc(go, 32), 8)
                s.store(a[0] + H.so, H.S(addc(go, 32)), H.sn)
            U.stub(H.ex, 'gost94_compress', tr)
            if H.ex.find_func('gost94_sum'):
                def sm(ex, s, a):
                    so = H.L['sigma'][0]
                    s.store(a[0] + so, add(s.load(a[0] + so, 32), s.load(a[1], 32)), 32)
                U.stub(H.ex, 'gost94_sum', sm, need=False)
        ex, res, H, out = run_final(U, 'gost94', p, 32, setup, outlen=32, comp=comp)
        tail = [M_(K64(i)) for i in range(p)] + [C(0, 8)] * (32 - p) if p else []
        sig = V('sigma', 256)
        if p:
            sig = add(sig, cat_bytes(tail))
        msg = tail + bits_len(N, 32, 0) + [ext(sig, 8 * i + 7, 8 * i) for i in range(32)]
        for s, r in res:
            if p == 0:
                U.reach(s)
            check_log(U, ex, s, H, msg, 'gost94 tail %d' % p)
            check_out(ex, s, H, out, 32, ser(H.S(K64(len(msg))), 32, 1, 0), 'gost94 tail %d' % p)


def gost_sum_unit(U):
    """the running checksum is exact addition modulo 2^256"""
    ex, st = U.exec(['hash', 'internal', 'util'])
    H = Stream(U, ex, st, 'gost94')
    so = H.L['sigma'][0]
    st.store(Ptr(H.ctx, so), V('sigma', 256), 32)
    blk = ex.new_obj(st, 'blk', 32, Sym('zz'))
    st.store(Ptr(blk), V('m', 256), 32)
    U.stub(ex, 'gost94_compress', lambda ex, s, a: None, need=False)
    for s, r in ex.call(st, 'gost94_transform', [Ptr(H.ctx), Ptr(blk)]):
        U.reach(s)
        ex.require(s, eq(s.load(Ptr(H.ctx, so), 32), add(V('sigma', 256), V('m', 256))), 'checksum addition')


# ------------------------------------------------------------------ dispatch

def _types():
    """hash id -> (output size, block size, spec as calls of the base functions)"""
    T = {}
    for b in (160, 256, 384, 512):
        T['BLAKE2B_%d' % b] = (b // 8, 128, 'blake2b', ('blake2b', b // 8), 'blake2b%d' % b)
    for b in (128, 160, 224, 256):
        T['BLAKE2S_%d' % b] = (b // 8, 64, 'blake2s', ('blake2s', b // 8), 'blake2s%d' % b)
    for b in (224, 256, 384, 512):
        T['KECCAK%d' % b] = (b // 8, 200 - b // 4, 'keccak', ('keccak', b, 1, 0), 'keccak%d' % b)
        T['SHA3_%d' % b] = (b // 8, 200 - b // 4, 'keccak', ('keccak', b, 6, 0), 'sha3_%d' % b)
    T['SHAKE128'] = (16, 168, 'keccak', ('keccak', 128, 0x1f, None), 'shake128')
    T['SHAKE256'] = (32, 136, 'keccak', ('keccak', 256, 0x1f, None), 'shake256')
    for n, f, o, b in (('GOST94', 'gost94', 32, 32), ('MD2', 'md2', 16, 16), ('MD4', 'md4', 16, 64),
                       ('MD5', 'md5', 16, 64), ('RIPEMD160', 'ripemd160', 20, 64), ('SHA1', 'sha1', 20, 64),
                       ('SHA224', 'sha224', 28, 64), ('SHA256', 'sha256', 32, 64), ('SHA384', 'sha384', 48, 128),
                       ('SHA512', 'sha512', 64, 128), ('WHIRLPOOL', 'whirlpool', 64, 64)):
        T[n] = (o, b, {'sha224': 'sha256', 'sha384': 'sha512', 'md4': 'md5'}.get(f, f), ('plain', f), f)
    T['HASH160'] = (20, 64, 'sha256', ('hash160',), 'hash160')
    T['HASH256'] = (32, 64, 'sha256', ('hash256',), 'hash256')
    T['MD5SHA1'] = (36, 64, 'md5sha1', ('md5sha1',), 'md5sha1')
    return T


TYPES = _types()


def constants(names):
    r = offsets(HDR, ['char[%s+1]' % n for n in names])
    return {n: r['char[%s+1]' % n][1] - 1 for n in names}


def det_transforms(U, ex):
    """compression functions as uninterpreted functions of state and block"""
    for a in ALG:
        t, sf, BS, kind, nw = ALG[a]
        L = layout(a)
        so, sn = L[sf]

        def tr(ex, s, ar, a=a, so=so, sn=sn, BS=BS, L=L):
            st8 = s.load(ar[0] + so, sn)
            bs = BS
            more = ()
            if a == 'keccak':
                b = s.load(ar[0] + L['bs'][0], 8)
                if b.op != 'c':
                    raise Unsupported('symbolic rate')
                bs = b.val
                more = (b,)
            if a.startswith('blake2'):
                more = (s.load(ar[0] + L['t'][0], L['t'][1]), ar[2])
            if a == 'md2':
                co, cn = L['checksum']
                ck = s.load(ar[0] + co, cn)
                more = (ck,)
                blk = s.load(ar[1], bs)
                s.store(ar[0] + co, UF('TC.md2', 8 * cn, (ck, blk)), cn)
                s.store(ar[0] + so, UF('T.md2', 8 * sn, (st8, blk)), sn)
                return
            blk = s.load(ar[1], bs)
            s.store(ar[0] + so, UF('T.' + a, 8 * sn, (st8, blk) + more), sn)
        nm = {'blake2b': 'blake2b_compress', 'blake2s': 'blake2s_compress', 'gost94': 'gost94_compress'}.get(
            a, a + '_transform')
        U.stub(ex, nm, tr, need=False)


def one(res):
    if len(res) != 1:
        raise Unsupported('several paths')
    return res[0][0]


def spec_calls(ex, s, spec, ctx, data, n, out, ln, key=None):
    """the meaning of a hash type in terms of the base functions"""
    def call(f, *a):
        nonlocal s
        s = one(ex.call(s, 'torsion_' + f, list(a)))
    k = spec[0]
    P = Ptr
    if k in ('blake2b', 'blake2s'):
        call(k + '_init', P(ctx), K64(spec[1]), key[0] if key else NULL, K64(key[1]) if key else K64(0))
        call(k + '_update', P(ctx), data, n)
        call(k + '_final', P(ctx), out)
    elif k == 'keccak':
        call('keccak_init', P(ctx), C(spec[1], 32))
        call('keccak_update', P(ctx), data, n)
        call('keccak_final', P(ctx), out, C(spec[2], 32), K64(spec[3] if spec[3] is not None else ln))
    elif k == 'plain':
        core = {'sha224': 'sha256', 'sha384': 'sha512'}.get(spec[1], spec[1])
        call(spec[1] + '_init', P(ctx))
        call(core + '_update', P(ctx), data, n)
        call(spec[1] + '_final', P(ctx), out)
    elif k == 'hash160':
        tmp = ex.sym_obj(s, 'tmp', 32)
        c2 = ex.sym_obj(s, 'c2', 256)
        call('sha256_init', P(ctx))
        call('sha256_update', P(ctx), data, n)
        call('sha256_final', P(ctx), P(tmp))
        call('ripemd160_init', P(c2))
        call('ripemd160_update', P(c2), P(tmp), K64(32))
        call('ripemd160_final', P(c2), out)
    elif k == 'hash256':
        tmp = ex.sym_obj(s, 'tmp', 32)
        c2 = ex.sym_obj(s, 'c2', 256)
        call('sha256_init', P(ctx))
        call('sha256_update', P(ctx), data, n)
        call('sha256_final', P(ctx), P(tmp))
        call('sha256_init', P(c2))
        call('sha256_update', P(c2), P(tmp), K64(32))
        call('sha256_final', P(c2), out)
    elif k == 'md5sha1':
        c2 = ex.sym_obj(s, 'c2', 256)
        call('md5_init', P(ctx))
        call('md5_update', P(ctx), data, n)
        call('md5_final', P(ctx), out)
        call('sha1_init', P(c2))
        call('sha1_update', P(c2), data, n)
        call('sha1_final', P(c2), out + 16)
    return s


def dispatch_unit(names):
    def unit(U):
        cs = constants(['HASH_' + n for n in names])
        hsz = offsets(HDR, ['hash_t'])['hash_t'][1]
        for nm in names:
            o, b, fld, spec, pub = TYPES[nm]
            for n in (0, 5, b + 3):
                ex, st = U.exec(['hash', 'internal', 'util'])
                det_transforms(U, ex)
                ty = C(cs['HASH_' + nm], 32)
                h = ex.sym_obj(st, 'h', hsz)
                c1 = ex.sym_obj(st, 'c1', hsz)
                c0 = ex.sym_obj(st, 'c0', hsz)
                data = ex.sym_obj(st, 'data', n)
                o1 = ex.sym_obj(st, 'o1', o)
                o2 = ex.sym_obj(st, 'o2', o)
                o0 = ex.sym_obj(st, 'o0', o)
                s = spec_calls(ex, st, spec, c0, Ptr(data), K64(n), Ptr(o0), o)
                s = one(ex.call(s, 'torsion_hash_init', [Ptr(h), ty]))
                s = one(ex.call(s, 'torsion_hash_update', [Ptr(h), Ptr(data), K64(n)]))
                s = one(ex.call(s, 'torsion_hash_final', [Ptr(h), Ptr(o1), K64(o)]))
                blake = spec[0].startswith('blake2')
                s = one(ex.call(s, 'torsion_%s_init' % pub, [Ptr(c1)] + ([NULL, K64(0)] if blake else [])))
                s = one(ex.call(s, 'torsion_%s_update' % pub, [Ptr(c1), Ptr(data), K64(n)]))
                s = one(ex.call(s, 'torsion_%s_final' % pub, [Ptr(c1), Ptr(o2)] +
                                ([K64(o)] if nm.startswith('SHAKE') else [])))
                U.reach(s)
                want = s.load(Ptr(o0), o)
                ex.require(s, eq(s.load(Ptr(o1), o), want), '%s through the generic interface' % nm)
                ex.require(s, eq(s.load(Ptr(o2), o), want), '%s through its own interface' % nm)
                if n == 0:
                    for f, v in (('hash_output_size', o), ('hash_block_size', b)):
                        for s2, r in ex.call(s, 'torsion_' + f, [ty]):
                            ex.require(s2, eq(r, K64(v)), '%s %s' % (nm, f))
                    for s2, r in ex.call(s, 'torsion_hash_has_backend', [ty]):
                        ex.require(s2, eq(r, C(1, 32)), '%s available' % nm)
    return unit


# ------------------------------------------------------------------ compiled code

WRAP = '''
#include "hash.c"
#define W(a,t,f) void w_##a(t *c, const unsigned char *b){ f(c,b); }
W(md4, md4_t, md4_transform) W(md5, md5_t, md5_transform) W(ripemd160, ripemd160_t, ripemd160_transform)
W(sha1, sha1_t, sha1_transform) W(sha256, sha256_t, sha256_transform) W(sha512, sha512_t, sha512_transform)
W(whirlpool, whirlpool_t, whirlpool_transform) W(gost94, gost94_t, gost94_compress)
W(md2, md2_t, md2_transform) W(keccak, keccak_t, keccak_transform)
void w_blake2b(blake2b_t *c, const unsigned char *b, unsigned long long f) { blake2b_compress(c, b, f); }
void w_blake2s(blake2s_t *c, const unsigned char *b, unsigned long long f) { blake2s_compress(c, b, f); }
'''


class Real:
    def __init__(self):
        self.lib = clib(['internal', 'util'], WRAP)
        self.ly = {a: layout(a) for a in ALG}

    def field(self, buf, alg, f):
        o, n = self.ly[alg][f]
        return bytes(buf[o:o + n])

    def setf(self, buf, alg, f, val):
        o, n = self.ly[alg][f]
        buf[o:o + n] = (val % (1 << 8 * n)).to_bytes(n, 'little')

    def getf(self, buf, alg, f):
        return int.from_bytes(self.field(buf, alg, f), 'little')

    def oracle(self, alg, ctx, prior, msg, dl=None, pad=None, bs=None):
        """digest of a context that has absorbed `prior` bytes (whole blocks)
        and then msg; ctx is a bytearray copy of that context"""
        buf = (ctypes.c_ubyte * len(ctx))(*ctx)
        core = CORE.get(alg, alg)
        f = getattr(self.lib, 'w_' + core)

        def comp(b, *a):
            f(buf, bytes(b), *[ctypes.c_ulonglong(x) for x in a])
        if alg in MD:
            BS, lb, big, ww, wbig, d = MD[alg]
            m = bytearray(msg) + b'\x80'
            while (len(m) + lb) % BS:
                m.append(0)
            m += ((prior + len(msg)) * 8 % (1 << 8 * lb)).to_bytes(lb, 'big' if big else 'little')
            for i in range(0, len(m), BS):
                comp(m[i:i + BS])
            s = self.field(buf, core, 'state')
            if wbig:
                s = b''.join(s[i:i + ww][::-1] for i in range(0, len(s), ww))
            return s[:d]
        if alg == 'md2':
            k = 16 - len(msg) % 16
            m = bytes(msg) + bytes([k]) * k
            for i in range(0, len(m), 16):
                comp(m[i:i + 16])
            comp(self.field(buf, 'md2', 'checksum'))
            return self.field(buf, 'md2', 'state')[:16]
        if alg == 'gost94':
            m = bytes(msg)
            tot = (prior + len(m)) * 8
            m += bytes(-len(m) % 32)
            sig = self.getf(buf, 'gost94', 'sigma')
            for i in range(0, len(m), 32):
                comp(m[i:i + 32])
                sig += int.from_bytes(m[i:i + 32], 'little')
            comp((tot % (1 << 256)).to_bytes(32, 'little'))
            comp((sig % (1 << 256)).to_bytes(32, 'little'))
            return self.field(buf, 'gost94', 'state')
        if alg == 'keccak':
            m = bytearray(msg) + bytes([pad])
            while len(m) % bs:
                m.append(0)
            m[-1] |= 0x80
            for i in range(0, len(m), bs):
                comp(m[i:i + bs])
            return self.field(buf, 'keccak', 'state')[:dl or 100 - bs // 2]
        BS = ALG[alg][2]
        m = bytes(msg)
        t = prior
        while len(m) > BS:
            t += BS
            self.setf(buf, alg, 't', t)
            comp(m[:BS], 0)
            m = m[BS:]
        t += len(m)
        self.setf(buf, alg, 't', t)
        comp(m + bytes(BS - len(m)), (1 << 64) - 1)
        return self.field(buf, alg, 'h')[:self.getf(buf, alg, 'len')]


def concrete_hash(rng, budget, hints):
    R = Real()
    lib = R.lib
    n = 0
    t0 = time.time()
    algs = list(MD) + ['md2', 'gost94', 'keccak', 'blake2b', 'blake2s']
    special = [1 << 29, 1 << 32, 1 << 61, 1 << 64, (1 << 64) - 4096, (1 << 61) - 4096, (1 << 128) - 4096, 1 << 125]
    order = [(a, i) for i in range(100000) for a in algs]
    for alg, rnd in order:
        if time.time() - t0 > budget:
            break
        core = CORE.get(alg, alg)
        ly = R.ly[core]
        size = ly[''][1]
        ctx = Guard(size)
        pad = dl = bs = None
        init = fn(lib, alg + '_init')
        if alg == 'keccak':
            bits = rng.choice([128, 224, 256, 384, 512, 256, 512, 32 * rng.randrange(1, 24)])
            bs = 200 - bits // 4
            pad = rng.choice([1, 6, 0x1f])
            dl = 0 if bits in (224, 256, 384, 512) and rng.random() < .7 else rng.randrange(1, min(bs, 100) + 1)
            if dl == 0:
                dl = 0
            init(ctx.p, bits)
            BS = bs
        elif alg.startswith('blake2'):
            BS = ALG[alg][2]
            dl = rng.randrange(1, BS // 2 + 1)
            init(ctx.p, sz(dl), None, sz(0))
        else:
            BS = ALG[core][2]
            init(ctx.p)
        buf = bytearray(ctx.get())
        prior = 0
        if rnd % 4 == 3 and alg != 'keccak' and alg != 'md2':
            prior = rng.choice(special)
            prior -= prior % BS
            fw = 8 * ly[ALG[core][3] if ALG[core][4] else 't'][1]
            prior %= 1 << fw
            R.setf(buf, core, ALG[core][3] if ALG[core][4] else 't', prior)
            ctypes.memmove(ctx.p, bytes(buf), size)
        # message lengths near block boundaries
        L = rng.choice([rng.randrange(0, 3 * BS), BS * rng.randrange(0, 4) + rng.choice([-1, 0, 1, -9, -8, -17, -16, -32]),
                        rnd % (2 * BS + 2), rng.randrange(0, 6 * BS) if prior else rng.randrange(0, 40)])
        L = max(0, L)
        if prior and rng.random() < .5:
            L = 4096 + rng.randrange(0, 2 * BS)
        msg = rng.randbytes(L) if rng.random() < .9 else bytes([rng.choice([0xff, 0x80])]) * L
        want = R.oracle(alg, buf, prior, msg, dl, pad, bs)
        upd = fn(lib, core + '_update')
        i = 0
        cuts = []
        while i < L:
            k = rng.choice([rng.randrange(0, 8), rng.randrange(0, 2 * BS + 2), BS - i % BS, BS, BS + 1, BS - 1, L, 0])
            k = min(k, L - i)
            g = Guard(k, msg[i:i + k])
            upd(ctx.p, g.p, sz(k))
            cuts.append(k)
            i += k
        out = Guard(len(want))
        fin = fn(lib, alg + '_final')
        if alg == 'keccak':
            fin(ctx.p, out.p, pad, sz(dl))
        else:
            fin(ctx.p, out.p)
        n += 1
        if out.get() != want:
            raise Fail('%s digest differs from the padded message compressed block by block' % alg, algorithm=alg,
                       absorbed_before=prior, chunks=cuts, message=msg, got=out.get(), want=want, keccak_rate=bs, pad=pad)
        if not out.ok() or not ctx.ok():
            raise Fail('%s writes outside its buffers' % alg, algorithm=alg, chunks=cuts, message=msg)
    return n


def oracle_type(R, nm, msg):
    o, b, fld, spec, pub = TYPES[nm]
    lib = R.lib

    def fresh(alg, *a):
        size = R.ly[CORE.get(alg, alg)][''][1]
        g = Guard(size)
        fn(lib, alg + '_init')(g.p, *a)
        return bytearray(g.get())
    k = spec[0]
    if k.startswith('blake2'):
        return R.oracle(k, fresh(k, sz(spec[1]), None, sz(0)), 0, msg)
    if k == 'keccak':
        return R.oracle('keccak', fresh('keccak', spec[1]), 0, msg, o if spec[3] is None else 0, spec[2], b)
    if k == 'plain':
        return R.oracle(spec[1], fresh(spec[1]), 0, msg)
    if k == 'hash160':
        return R.oracle('ripemd160', fresh('ripemd160'), 0, R.oracle('sha256', fresh('sha256'), 0, msg))
    if k == 'hash256':
        return R.oracle('sha256', fresh('sha256'), 0, R.oracle('sha256', fresh('sha256'), 0, msg))
    return R.oracle('md5', fresh('md5'), 0, msg) + R.oracle('sha1', fresh('sha1'), 0, msg)


def concrete_types(rng, budget, hints):
    R = Real()
    lib = R.lib
    cs = constants(['HASH_' + n for n in TYPES])
    hsz = offsets(HDR, ['hash_t'])['hash_t'][1]
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        for nm in TYPES:
            o, b, fld, spec, pub = TYPES[nm]
            msg = rng.randbytes(rng.choice([0, 1, b - 1, b, b + 1, rng.randrange(0, 300)]))
            want = oracle_type(R, nm, msg)
            h = Guard(hsz)
            out = Guard(o)
            fn(lib, 'hash_init')(h.p, cs['HASH_' + nm])
            k = rng.randrange(0, len(msg) + 1)
            for part in (msg[:k], msg[k:]):
                fn(lib, 'hash_update')(h.p, bytes(part), sz(len(part)))
            fn(lib, 'hash_final')(h.p, out.p, sz(o))
            n += 1
            if out.get() != want or not out.ok() or not h.ok():
                raise Fail('generic hash interface differs for %s' % nm, type=nm, message=msg, split=k,
                           got=out.get(), want=want)
    return n
