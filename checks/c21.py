"""C21: deterministic random bit generators."""
import ctypes
import hashlib
import hmac as pyhmac
import time
from .xscript import *      # noqa
from .hashes import constants

SRCS = [('drbg', 'c64')]
FILES = ['drbg', 'util', 'internal', 'hash', 'cipher']
SMALL = 1 << 60
TY = 7


def setup(U, hl, **kw):
    ex, st = U.exec(FILES)
    X = Script(U, ex, hl, **kw)
    ex.unroll.update(['torsion_hmac_drbg_generate', 'torsion_hash_drbg_init', 'torsion_hash_drbg_reseed', 'torsion_hash_drbg_generate', 'accumulate',
                      'ctr_drbg_update', 'ctr_drbg_derive', 'torsion_ctr_drbg_init', 'torsion_ctr_drbg_reseed', 'torsion_ctr_drbg_generate', 'increment_be',
                      'torsion__increment_be', 'ctr_drbg_serialize'])
    return ex, st, X


def inp(ex, st, name, n):
    b = ex.sym_obj(st, name, n)
    b.const = True
    if isinstance(n, E):
        st.assume(ult(n, K(SMALL)))
    return b


HM = ['hmac_drbg_t.type', 'hmac_drbg_t.size', 'hmac_drbg_t.kmac', 'hmac_drbg_t.K', 'hmac_drbg_t.V', 'hmac_drbg_t']


def hm_layout():
    o = offsets('torsion/drbg.h', HM)
    return {k.split('.')[-1]: v for k, v in o.items()}


class HmacSpec:
    """SP 800-90A 10.1.2 as a list of expected keyed hashes"""

    def __init__(self, Kb, Vb, hl):
        self.K, self.V, self.hl = Kb, Vb, hl
        self.want = []

    def mac(self, chunks):
        self.want.append(([self.K], chunks))
        return mac(len(self.want) - 1, self.hl)

    def update(self, data):
        self.K = self.mac([self.V, rep(0, 1)] + data)
        self.V = self.mac([self.V])
        if data:
            self.K = self.mac([self.V, rep(1, 1)] + data)
            self.V = self.mac([self.V])

    def generate(self, n, data):
        if data:
            self.update(data)
        out = []
        while n > 0:
            self.V = self.mac([self.V])
            out.append(Bytes(min(n, self.hl), self.V.fn))
            n -= self.hl
        self.update(data)
        return out


def hm_after(ex, s, X, L, d, spec, hl):
    if not transcript(ex, s, spec.want, TY):
        return
    same_bytes(ex, s, [Chunk(s, Ptr(d, L['K'][0]), K(hl))], [spec.K], 'key afterwards')
    same_bytes(ex, s, [Chunk(s, Ptr(d, L['V'][0]), K(hl))], [spec.V], 'value afterwards')
    ex.require(s, conj([eq(s.load(Ptr(d, L['type'][0]), 4), C(TY, 32)), eq(s.load(Ptr(d, L['size'][0]), 8), K(hl))]), 'parameters afterwards')
    k, t, key, ch = X.get(s, Ptr(d, L['kmac'][0]))
    ex.require(s, conj([eq(t, C(TY, 32)), T if k == 'hmac' and not ch else F]), 'prepared keyed hash')
    same_bytes(ex, s, [key], [spec.K], 'key of the prepared keyed hash')


def hm_state(ex, st, X, L, hl):
    """any state between calls: the prepared keyed hash is keyed with K"""
    d = ex.sym_obj(st, 'd', L['hmac_drbg_t'][1])
    st.store(Ptr(d, L['type'][0]), C(TY, 32), 4)
    st.store(Ptr(d, L['size'][0]), K(hl), 8)
    X.put(st, Ptr(d, L['kmac'][0]), ('hmac', C(TY, 32), Chunk(st, Ptr(d, L['K'][0]), K(hl)), ()))
    return d, HmacSpec(mem('m:d', hl, L['K'][0]), mem('m:d', hl, L['V'][0]), hl)


def hmac_seed_unit(U):
    L = hm_layout()
    for hl in (20, 32, 64):
        for some in (0, 1):
            for f in ('init', 'reseed'):
                ex, st, X = setup(U, hl)
                n = V('n', 64)
                seed = inp(ex, st, 'seed', n)
                st.assume(ne(n, K(0)) if some else eq(n, K(0)))
                if f == 'init':
                    d, spec = ex.sym_obj(st, 'd', L['hmac_drbg_t'][1]), HmacSpec(rep(0, hl), rep(1, hl), hl)
                    args = [Ptr(d), C(TY, 32), Ptr(seed), n]
                else:
                    d, spec = hm_state(ex, st, X, L, hl)
                    args = [Ptr(d), Ptr(seed), n]
                spec.update([mem('m:seed', n)] if some else [])
                for s, r in ex.call(st, 'torsion_hmac_drbg_' + f, args):
                    U.reach(s)
                    hm_after(ex, s, X, L, d, spec, hl)


def lens(b):
    return (0, 1, b - 1, b, b + 1, 2 * b, 3 * b + 5)


def hmac_generate_unit(U):
    L = hm_layout()
    for hl in (20, 32, 64):
        for n in lens(hl):
            for some in (0, 1):
                ex, st, X = setup(U, hl)
                a = V('a', 64)
                extra = inp(ex, st, 'add', a)
                st.assume(ne(a, K(0)) if some else eq(a, K(0)))
                d, spec = hm_state(ex, st, X, L, hl)
                out = ex.sym_obj(st, 'out', n + 1)
                o = spec.generate(n, [mem('m:add', a)] if some else [])
                for s, r in ex.call(st, 'torsion_hmac_drbg_generate', [Ptr(d), Ptr(out), K(n), Ptr(extra), a]):
                    U.reach(s)
                    hm_after(ex, s, X, L, d, spec, hl)
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(n + 1))], o + [mem('m:out', 1, n)], '%d bytes of output' % n)


HD = ['hash_drbg_t.type', 'hash_drbg_t.size', 'hash_drbg_t.length', 'hash_drbg_t.V', 'hash_drbg_t.C', 'hash_drbg_t.rounds', 'hash_drbg_t']


class Acc:
    """contract of accumulate: the sum, as a fresh symbol with its operands"""

    def __init__(self, U, ex):
        U.stub(ex, 'accumulate', self.run, False)

    def run(self, ex, s, a):
        i = len([e for e in s.extra or () if e.kind == 'acc'])
        log(s, Event('acc', 0, x=Chunk(s, as_ptr(a[0]), a[1]), y=Chunk(s, as_ptr(a[2]), a[3])))
        put(ex, s, a[0], a[1], lambda k: UF('acc%d' % i, 8, (k,)))


def accs(ex, s, want):
    ev = [e for e in s.extra or () if e.kind == 'acc']
    if len(ev) != len(want):
        raise Unsupported('%d additions where the contract has %d' % (len(ev), len(want)))
    for i, (e, (x, y)) in enumerate(zip(ev, want)):
        same_bytes(ex, s, [e.x], [x], 'left operand of addition %d' % i)
        same_bytes(ex, s, [e.y], [y], 'right operand of addition %d' % i)
    return True


def acc(i, n):
    return Bytes(n, lambda k: UF('acc%d' % i, 8, (k,)))


def joined(parts, n):
    """first n bytes of a concatenation of equally long parts"""
    def f(k):
        r = parts[-1].fn(sub(k, K(parts[0].n.val * (len(parts) - 1))))
        for i in range(len(parts) - 2, -1, -1):
            w = parts[0].n.val
            r = ite(ult(k, K(w * (i + 1))), parts[i].fn(sub(k, K(w * i))), r)
        return r
    return Bytes(n, f)


class HashSpec:
    """SP 800-90A 10.1.1"""

    def __init__(self, hl, V_=None, C_=None):
        self.hl, self.sl = hl, 55 if hl <= 32 else 111
        self.V, self.C = V_, C_
        self.want, self.adds = [], []

    def hash(self, chunks):
        self.want.append((None, chunks))
        return mac(len(self.want) - 1, self.hl)

    def df(self, chunks):
        nb = (self.sl + self.hl - 1) // self.hl
        bits = (self.sl * 8).to_bytes(4, 'big')
        return joined([self.hash([const(bytes([i + 1]) + bits)] + chunks) for i in range(nb)], self.sl)

    def init(self, seed):
        self.V = self.df(seed)
        self.C = self.df([rep(0, 1), self.V])

    def reseed(self, seed):
        self.V = self.df([rep(1, 1), self.V] + seed)
        self.C = self.df([rep(0, 1), self.V])

    def add(self, x, y):
        self.adds.append((x, y))
        return acc(len(self.adds) - 1, self.sl)

    def generate(self, n, extra, rounds):
        if extra:
            self.V = self.add(self.V, self.hash([rep(2, 1), self.V] + extra))
        data, out = self.V, []
        while n > 0:
            h = self.hash([data])
            out.append(Bytes(min(n, self.hl), h.fn))
            if n >= self.hl:
                data = self.add(data, rep(1, 1))
            n -= self.hl
        H = self.hash([rep(3, 1), self.V])
        self.V = self.add(self.V, H)
        self.V = self.add(self.V, self.C)
        self.V = self.add(self.V, Bytes(8, lambda k: byte_be(rounds, k)))
        return out


def byte_be(v, k):
    r = C(0, 8)
    for i in range(8):
        r = ite(eq(k, K(i)), ext(v, 63 - 8 * i, 56 - 8 * i), r)
    return r


def hd_after(ex, s, L, d, spec, rounds):
    if not transcript(ex, s, spec.want, TY) or not accs(ex, s, spec.adds):
        return
    n = spec.sl
    same_bytes(ex, s, [Chunk(s, Ptr(d, L['V'][0]), K(n))], [spec.V], 'V afterwards')
    same_bytes(ex, s, [Chunk(s, Ptr(d, L['C'][0]), K(n))], [spec.C], 'C afterwards')
    ex.require(s, conj([eq(s.load(Ptr(d, L['type'][0]), 4), C(TY, 32)), eq(s.load(Ptr(d, L['size'][0]), 8), K(spec.hl)), eq(s.load(Ptr(d, L['length'][0]), 8), K(n)),
                        eq(s.load(Ptr(d, L['rounds'][0]), 8), rounds)]), 'parameters afterwards')


def hd_layout():
    return {k.split('.')[-1]: v for k, v in offsets('torsion/drbg.h', HD).items()}


def hd_state(ex, st, L, hl):
    d = ex.sym_obj(st, 'd', L['hash_drbg_t'][1])
    sl = 55 if hl <= 32 else 111
    st.store(Ptr(d, L['type'][0]), C(TY, 32), 4)
    st.store(Ptr(d, L['size'][0]), K(hl), 8)
    st.store(Ptr(d, L['length'][0]), K(sl), 8)
    st.store(Ptr(d, L['rounds'][0]), V('rounds', 64), 8)
    return d, HashSpec(hl, mem('m:d', sl, L['V'][0]), mem('m:d', sl, L['C'][0]))


def hash_seed_unit(U):
    L = hd_layout()
    for hl in (20, 28, 32, 48, 64):
        for f in ('init', 'reseed'):
            ex, st, X = setup(U, hl)
            Acc(U, ex)
            n = V('n', 64)
            seed = inp(ex, st, 'seed', n)
            if f == 'init':
                d, spec = ex.sym_obj(st, 'd', L['hash_drbg_t'][1]), HashSpec(hl)
                spec.init([mem('m:seed', n)])
                args = [Ptr(d), C(TY, 32), Ptr(seed), n]
            else:
                d, spec = hd_state(ex, st, L, hl)
                spec.reseed([mem('m:seed', n)])
                args = [Ptr(d), Ptr(seed), n]
            for s, r in ex.call(st, 'torsion_hash_drbg_' + f, args):
                U.reach(s)
                hd_after(ex, s, L, d, spec, K(1))


def hash_generate_unit(U):
    L = hd_layout()
    for hl in (20, 32, 64):
        for n in lens(hl):
            for some in (0, 1):
                ex, st, X = setup(U, hl)
                Acc(U, ex)
                a = V('a', 64)
                extra = inp(ex, st, 'add', a)
                st.assume(ne(a, K(0)) if some else eq(a, K(0)))
                d, spec = hd_state(ex, st, L, hl)
                out = ex.sym_obj(st, 'out', n + 1)
                o = spec.generate(n, [mem('m:add', a)] if some else [], V('rounds', 64))
                for s, r in ex.call(st, 'torsion_hash_drbg_generate', [Ptr(d), Ptr(out), K(n), Ptr(extra), a]):
                    U.reach(s)
                    hd_after(ex, s, L, d, spec, addc(V('rounds', 64), 1))
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(n + 1))], o + [mem('m:out', 1, n)], '%d bytes of output' % n)


def accumulate_unit(U):
    """byte i of the sum, with the carry as a ghost recurrence"""
    for dl in (55, 111):
        for sl in (1, 8, 20, 28, 32, 48, 55, 64, 111):
            if sl > dl:
                continue
            ex, st, X = setup(U, 32)
            x, y = ex.sym_obj(st, 'x', dl), inp(ex, st, 'y', sl)
            c = C(0, 32)
            want = []
            for i in range(dl):
                b = UF('m:y', 8, (K(sl - 1 - i),)) if i < sl else C(0, 8)
                t = add(c, add(zext(b, 32), zext(UF('m:x', 8, (K(dl - 1 - i),)), 32)))
                want.append(ext(t, 7, 0))
                c = lshr(t, C(8, 32))
            for s, r in ex.call(st, 'accumulate', [Ptr(x), K(dl), Ptr(y), K(sl)]):
                U.reach(s)
                got = [s.load(Ptr(x, dl - 1 - i), 1) for i in range(dl)]
                for i in range(dl):
                    ex.require(s, eq(got[i], want[i]), '%d + %d bytes: byte %d of the sum' % (dl, sl, i))


CT = ['ctr_drbg_t.aes', 'ctr_drbg_t.key_size', 'ctr_drbg_t.blk_size', 'ctr_drbg_t.ent_size', 'ctr_drbg_t.derivation', 'ctr_drbg_t.KV', 'ctr_drbg_t.K', 'ctr_drbg_t.V',
      'ctr_drbg_t.state', 'ctr_drbg_t']


class CtrSpec:
    """SP 800-90A 10.2.1 over lists of byte terms"""

    def __init__(self, kl, key=None, V_=None):
        self.kl, self.el = kl, kl + 16
        self.key, self.V = key, V_
        self.want = []

    def enc(self, key, blk):
        self.want.append((key, blk))
        i = len(self.want) - 1
        return [UF('aes%d' % i, 8, (K(j),)) for j in range(16)]

    def step(self):
        v = addc(cat(*self.V), 1)
        self.V = [ext(v, 127 - 8 * i, 120 - 8 * i) for i in range(16)]
        return self.enc(self.key, self.V)

    def update(self, data):
        t = []
        while len(t) < self.el:
            t += self.step()
        t = t[:self.el]
        t = [xor(a, b) for a, b in zip(t, data[:self.el])] + t[min(len(data), self.el):]
        self.key, self.V = t[:self.kl], t[self.kl:]

    def df(self, data):
        S = [C(b, 8) for b in len(data).to_bytes(4, 'big') + self.el.to_bytes(4, 'big')] + data + [C(0x80, 8)]
        while len(S) % 16:
            S.append(C(0, 8))
        k0 = [C(i, 8) for i in range(self.kl)]
        t = []
        i = 0
        while len(t) < self.el:
            ch = [C(0, 8)] * 16
            inp = [C(b, 8) for b in i.to_bytes(4, 'big')] + [C(0, 8)] * 12 + S
            for j in range(0, len(inp), 16):
                ch = self.enc(k0, [xor(a, b) for a, b in zip(ch, inp[j:j + 16])])
            t += ch
            i += 1
        key, x = t[:self.kl], t[self.kl:self.el]
        out = []
        while len(out) < self.el:
            x = self.enc(key, x)
            out += x
        return out[:self.el]

    def seed(self, df, a, b):
        if df:
            return self.df(a[:512] + b[:512])
        a, b = (v[:self.el] for v in (a, b))
        a, b = (v + [C(0, 8)] * (self.el - len(v)) for v in (a, b))
        return [xor(p, q) for p, q in zip(a, b)]

    def generate(self, df, n, extra):
        if extra:
            extra = self.df(extra[:512]) if df else extra
            self.update(extra)
        out = []
        while n > 0:
            out += self.step()[:n]
            n -= 16
        self.update(extra)
        return out


def ct_layout():
    return {k.split('.')[-1]: v for k, v in offsets('torsion/drbg.h', CT).items()}


def ct_after(ex, s, X, L, d, spec, df):
    ev = [e for e in s.extra or () if e.kind == 'aes']
    if len(ev) != len(spec.want):
        raise Unsupported('%d block encryptions where the contract has %d' % (len(ev), len(spec.want)))
    for i, (e, (key, blk)) in enumerate(zip(ev, spec.want)):
        ok = len(e.hkey) == len(key)
        ex.require(s, T if ok else F, 'key size of encryption %d' % i)
        if ok:
            ex.require(s, conj([eq(a, b) for a, b in zip(e.hkey, key)]), 'key of encryption %d' % i)
        ex.require(s, conj([eq(a, b) for a, b in zip(e.block, blk)]), 'block of encryption %d' % i)
    ex.require(s, conj([eq(s.load(Ptr(d, L['state'][0] + i), 1), spec.V[i]) for i in range(16)]), 'V afterwards')
    k, key = X.get(s, Ptr(d, L['aes'][0]))
    ex.require(s, conj([T if len(key) == spec.kl else F] + [eq(a, b) for a, b in zip(key, spec.key)]), 'key afterwards')
    ex.require(s, conj([eq(s.load(Ptr(d, L['key_size'][0]), 8), K(spec.kl)), eq(s.load(Ptr(d, L['blk_size'][0]), 8), K(16)), eq(s.load(Ptr(d, L['ent_size'][0]), 8), K(spec.el)),
                        eq(ne(s.load(Ptr(d, L['derivation'][0]), 4), C(0, 32)), T if df else F)]), 'parameters afterwards')
    return True


def ct_state(ex, st, X, L, kl, df):
    d = ex.sym_obj(st, 'd', L['ctr_drbg_t'][1])
    for f, v in (('key_size', kl), ('blk_size', 16), ('ent_size', kl + 16)):
        st.store(Ptr(d, L[f][0]), K(v), 8)
    st.store(Ptr(d, L['derivation'][0]), C(df, 32), 4)
    st.store(Ptr(d, L['K'][0]), Ptr(d, L['KV'][0]), 8)
    st.store(Ptr(d, L['V'][0]), Ptr(d, L['KV'][0] + kl), 8)
    key = [V('key%d' % i, 8) for i in range(kl)]
    X.put(st, Ptr(d, L['aes'][0]), ('aes', key))
    return d, CtrSpec(kl, key, [UF('m:d', 8, (K(L['state'][0] + i),)) for i in range(16)])


def arr(name, n):
    return [UF('m:' + name, 8, (K(i),)) for i in range(n)]


def ctr_seed_unit(U):
    L = ct_layout()
    for kl, df, a, b in ((16, 0, 32, 0), (32, 0, 48, 48), (24, 0, 40, 7), (32, 0, 60, 50), (16, 0, 3, 9), (16, 1, 16, 0), (24, 1, 3, 5), (32, 1, 0, 0)):
        for f in ('init', 'reseed'):
            ex, st, X = setup(U, 32, aes=True)
            x, y = inp(ex, st, 'x', max(a, 1)), inp(ex, st, 'y', max(b, 1))
            if f == 'init':
                d, spec = ex.sym_obj(st, 'd', L['ctr_drbg_t'][1]), CtrSpec(kl, [C(0, 8)] * kl, [C(0, 8)] * 16)
                args = [Ptr(d), C(kl * 8, 32), C(df, 32), Ptr(x), K(a), Ptr(y), K(b)]
            else:
                d, spec = ct_state(ex, st, X, L, kl, df)
                args = [Ptr(d), Ptr(x), K(a), Ptr(y), K(b)]
            spec.update(spec.seed(df, arr('x', a), arr('y', b)))
            for s, r in ex.call(st, 'torsion_ctr_drbg_' + f, args):
                U.reach(s)
                ct_after(ex, s, X, L, d, spec, df)


CTR_CASES = ((16, 0, 0, 0), (16, 0, 1, 0), (32, 0, 15, 0), (32, 0, 16, 0), (24, 0, 17, 0), (16, 1, 18, 0), (16, 0, 17, 32), (32, 0, 5, 11), (16, 1, 20, 9), (16, 0, 4, 50))


def ctr_generate_unit(U, part):
    L = ct_layout()
    for kl, df, n, a in CTR_CASES[part::6]:
        ex, st, X = setup(U, 32, aes=True)
        y = inp(ex, st, 'y', max(a, 1))
        d, spec = ct_state(ex, st, X, L, kl, df)
        out = ex.sym_obj(st, 'out', n + 1)
        o = spec.generate(df, n, arr('y', a))
        for s, r in ex.call(st, 'torsion_ctr_drbg_generate', [Ptr(d), Ptr(out), K(n), Ptr(y), K(a)]):
            U.reach(s)
            if ct_after(ex, s, X, L, d, spec, df):
                ex.require(s, conj([eq(s.load(Ptr(out, i), 1), v) for i, v in enumerate(o + [UF('m:out', 8, (K(n),))])]), '%d bytes of output' % n)


UNITS = [('hmac_drbg seeding', hmac_seed_unit), ('hmac_drbg_generate', hmac_generate_unit), ('hash_drbg seeding', hash_seed_unit), ('hash_drbg_generate', hash_generate_unit),
         ('accumulate', accumulate_unit), ('ctr_drbg seeding', ctr_seed_unit), *[('ctr_drbg_generate %d' % i, lambda U, i=i: ctr_generate_unit(U, i)) for i in range(6)]]


# ---- reference generators

class PHmac:
    def __init__(self, h, seed):
        self.h, n = h, hashlib.new(h).digest_size
        self.K, self.V = bytes(n), b'\1' * n
        self.update(seed)

    def m(self, x):
        return pyhmac.new(self.K, x, self.h).digest()

    def update(self, d):
        self.K = self.m(self.V + b'\0' + d)
        self.V = self.m(self.V)
        if d:
            self.K = self.m(self.V + b'\1' + d)
            self.V = self.m(self.V)
    reseed = update

    def generate(self, n, d):
        if d:
            self.update(d)
        out = b''
        while len(out) < n:
            self.V = self.m(self.V)
            out += self.V
        self.update(d)
        return out[:n]


class PHash:
    def __init__(self, h, seed):
        self.h, self.n = h, hashlib.new(h).digest_size
        self.sl = 55 if self.n <= 32 else 111
        self.V = self.df(seed)
        self.C = self.df(b'\0' + self.V)
        self.r = 1

    def H(self, x):
        return hashlib.new(self.h, x).digest()

    def df(self, x):
        out, i = b'', 1
        while len(out) < self.sl:
            out += self.H(bytes([i]) + (self.sl * 8).to_bytes(4, 'big') + x)
            i += 1
        return out[:self.sl]

    def reseed(self, x):
        self.V = self.df(b'\1' + self.V + x)
        self.C = self.df(b'\0' + self.V)
        self.r = 1

    def plus(self, *a):
        return (sum(int.from_bytes(x, 'big') for x in a) % (1 << (8 * self.sl))).to_bytes(self.sl, 'big')

    def generate(self, n, d):
        if d:
            self.V = self.plus(self.V, self.H(b'\2' + self.V + d))
        x, out = self.V, b''
        while len(out) < n:
            out += self.H(x)
            x = self.plus(x, b'\1')
        self.V = self.plus(self.V, self.H(b'\3' + self.V), self.C, self.r.to_bytes(8, 'big'))
        self.r += 1
        return out[:n]


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        r = lambda n: ((q << n) | (q >> (8 - n))) & 255
        s[p] = q ^ r(1) ^ r(2) ^ r(3) ^ r(4) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


SBOX = _sbox()


def aes(key, blk):
    nk, nr = len(key) // 4, len(key) // 4 + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[-1])
        if i % nk == 0:
            t = [SBOX[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc = (rc << 1) ^ (0x11b if rc & 128 else 0)
        elif nk > 6 and i % nk == 4:
            t = [SBOX[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    rk = lambda r: sum(w[4 * r:4 * r + 4], [])
    s = [a ^ b for a, b in zip(blk, rk(0))]
    x2 = lambda b: ((b << 1) ^ (0x1b if b & 128 else 0)) & 255
    for r in range(1, nr + 1):
        s = [SBOX[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < nr:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ x2(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk(r))]
    return bytes(s)


class PCtr:
    def __init__(self, kl, df, a, b):
        self.kl, self.el, self.d = kl, kl + 16, df
        self.K, self.V = bytes(kl), bytes(16)
        self.reseed(a, b)

    def step(self):
        self.V = ((int.from_bytes(self.V, 'big') + 1) % (1 << 128)).to_bytes(16, 'big')
        return aes(self.K, self.V)

    def update(self, x):
        t = b''
        while len(t) < self.el:
            t += self.step()
        t = bytes(p ^ q for p, q in zip(t[:self.el], (x + bytes(self.el))[:self.el]))
        self.K, self.V = t[:self.kl], t[self.kl:]

    def df(self, x):
        S = len(x).to_bytes(4, 'big') + self.el.to_bytes(4, 'big') + x + b'\x80'
        S += bytes(-len(S) % 16)
        t, i = b'', 0
        while len(t) < self.el:
            ch, y = bytes(16), i.to_bytes(4, 'big') + bytes(12) + S
            for j in range(0, len(y), 16):
                ch = aes(bytes(range(self.kl)), bytes(p ^ q for p, q in zip(ch, y[j:j + 16])))
            t += ch
            i += 1
        k, x = t[:self.kl], t[self.kl:self.el]
        out = b''
        while len(out) < self.el:
            x = aes(k, x)
            out += x
        return out[:self.el]

    def reseed(self, a, b):
        if self.d:
            x = self.df(a[:512] + b[:512])
        else:
            x = bytes(p ^ q for p, q in zip((a + bytes(self.el))[:self.el], (b + bytes(self.el))[:self.el]))
        self.update(x)

    def generate(self, n, x):
        if x:
            x = self.df(x[:512]) if self.d else x
            self.update(x)
        out = b''
        while len(out) < n:
            out += self.step()
        self.update(x)
        return out[:n]


def concrete(rng, budget, hints):
    lib = clib(FILES)
    S, I_ = ctypes.c_size_t, ctypes.c_int
    names = {'SHA1': 'sha1', 'SHA256': 'sha256', 'SHA224': 'sha224', 'SHA512': 'sha512', 'SHA384': 'sha384'}
    ty = constants(['HASH_' + k for k in names])
    rb = lambda k: bytes(rng.getrandbits(8) for _ in range(k))
    sz = {k: offsets('torsion/drbg.h', [k + '_drbg_t'])[k + '_drbg_t'][1] for k in ('hmac', 'hash', 'ctr')}
    L = hd_layout()
    end = time.time() + budget
    cases = 0
    while cases == 0 or (time.time() < end and cases < 1500):
        for nm, h in names.items():
            for kind in ('hmac', 'hash', 'ctr'):
                g = {o: fn(lib, 'torsion_%s_drbg_%s' % (kind, o)) for o in ('init', 'reseed', 'generate')}
                ctx = ctypes.create_string_buffer(sz[kind])
                seed = rb(rng.choice([0, 1, 16, 48, 60, rng.randrange(200)]))
                hist = []
                if kind == 'ctr':
                    kl, df, p = rng.choice([16, 24, 32]), rng.randrange(2), rb(rng.choice([0, 5, 48, 70, 600]) if rng.random() < .8 else 513)
                    if rng.random() < .1:
                        seed = rb(rng.choice([511, 512, 513, 700]))
                    g['init'](ctx, ctypes.c_uint(kl * 8), I_(df), seed, S(len(seed)), p, S(len(p)))
                    ref = PCtr(kl, df, seed, p)
                    hist.append(('init', kl, df, seed.hex(), p.hex()))
                else:
                    g['init'](ctx, I_(ty['HASH_' + nm]), seed, S(len(seed)))
                    ref = (PHmac if kind == 'hmac' else PHash)(h, seed)
                    hist.append(('init', nm, seed.hex()))
                if kind == 'hash' and rng.random() < .3:
                    # states with long carry chains and large counters
                    v = bytes([255] * (ref.sl - 1) + [rng.choice([255, 254])])
                    ref.V, ref.r = v, rng.choice([255, 1 << 32, (1 << 48) - 1])
                    ctypes.memmove(ctypes.addressof(ctx) + L['V'][0], v, len(v))
                    ctypes.memmove(ctypes.addressof(ctx) + L['rounds'][0], ref.r.to_bytes(8, 'little'), 8)
                    hist.append(('state', v.hex(), ref.r))
                for _ in range(rng.randrange(1, 5)):
                    x = rb(rng.choice([0, 0, 1, 16, 48, 50, rng.randrange(100)]))
                    if rng.random() < .3:
                        if kind == 'ctr':
                            y = rb(rng.randrange(80))
                            g['reseed'](ctx, x, S(len(x)), y, S(len(y)))
                            ref.reseed(x, y)
                            hist.append(('reseed', x.hex(), y.hex()))
                        else:
                            g['reseed'](ctx, x, S(len(x)))
                            ref.reseed(x)
                            hist.append(('reseed', x.hex()))
                        continue
                    n = rng.choice([0, 1, 15, 16, 17, 20, 32, 64, rng.randrange(200)])
                    out = ctypes.create_string_buffer(n + 8)
                    was = out.raw
                    g['generate'](ctx, out, S(n), x, S(len(x)))
                    hist.append(('generate', n, x.hex()))
                    w = ref.generate(n, x)
                    if out.raw != w + was[n:]:
                        raise Fail('%s generator output differs' % kind, history=hist, got=out.raw[:n].hex(), want=w.hex())
                cases += 1
    return cases
