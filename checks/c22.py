"""C22: bounded random numbers and the pooled generator."""
import time
from .ghost import *        # noqa

SRCS = [('rand', 'c64')]
FILES = ['rand', 'internal', 'util', 'entropy/hw']
WRAP = '#include "rand.c"\n'


def lay():
    f = ['key', 'nonce', 'pool', 'pos', 'rdrand']
    o = offsets('"rand.c"', ['rng_t'] + ['rng_t.' + x for x in f])
    return {k.replace('rng_t.', ''): v for k, v in o.items()}


def uniform_unit(U):
    ex, st = U.exec(FILES)
    L = lay()
    ex.unroll.add('rng_uniform')
    rng = ex.sym_obj(st, 'rng', L['rng_t'][1])
    mx = V('max', 32)
    rejected = []

    def rnd(ex, s, a):
        ex.require(s, T if as_ptr(a[0]).obj is rng else F, 'own generator')
        i = len(s.extra or ())
        if i:
            rejected.append(s)
            return []
        log(s, Event('random', 0))
        return V('x', 32)
    U.stub(ex, 'rng_random', rnd)
    x = V('x', 32)
    r_ = urem(x, mx)
    w = lambda e: zext(e, 64)
    # the block of max consecutive raw values around x lies inside the range of a word
    whole = ule(add(sub(w(x), w(r_)), w(mx)), K(1 << 32))
    got = 0
    R = V('rem', 32)
    s0 = st.fork()
    s0.assume(ne(mx, C(0, 32)))
    ex.require(s0, conj([ule(r_, x), ult(r_, mx)]), 'a remainder is below the divisor and not above the dividend')

    def abstract(s):
        """the same path with the remainder replaced by a number of which only that is known"""
        s2 = st.fork()
        for f in s.pc:
            s2.assume(subst(f, {r_: R}))
        s2.assume(ule(R, x))
        s2.assume(ult(R, mx))
        return s2
    for s, r in ex.call(st, 'rng_uniform', [Ptr(rng), mx]):
        U.reach(s)
        got += 1
        small = s.decide(ule(mx, C(1, 32)))
        if small is T:
            ex.require(s, eq(r, C(0, 32)), 'zero for bounds zero and one')
            ex.require(s, F if s.extra else T, 'nothing consumed for bounds zero and one')
            continue
        ex.require(s, ult(C(1, 32), mx), 'larger bound')
        ex.require(s, ult(r, mx), 'below the bound')
        ex.require(s, eq(r, r_), 'residue of the raw value')
        ex.require(abstract(s), subst(whole, {r_: R}), 'no raw value from an incomplete block accepted')
    ex.require(st, T if got and rejected else F, 'both outcomes occur')
    for s in rejected:
        ex.require(s, ult(C(1, 32), mx), 'raw values rejected for larger bounds only')
        ex.require(abstract(s), subst(not_(whole), {r_: R}), 'only raw values from the incomplete block rejected')
        k = V('k', 64)
        s1 = s.fork()
        s1.assume(ult(k, K(L['rng_t'][1])))
        ex.require(s1, eq(s1.load(Ptr(rng, k), 1), UF('m:rng', 8, (k,))), 'another draw from the same generator')


def gen_setup(U):
    ex, st = U.exec(FILES)
    L = lay()
    rng = ex.sym_obj(st, 'rng', L['rng_t'][1])

    def crypt(ex, s, a):
        """keystream of the key and nonce held at the time of the call, xored into the data"""
        ex.require(s, T if as_ptr(a[0]).obj is rng else F, 'own generator')
        i = len(s.extra or ())
        p, n = as_ptr(a[1]), a[2]
        log(s, Event('crypt', i, keyat=Chunk(s, Ptr(rng, L['key'][0]), K(32)), nonce=s.load(Ptr(rng, L['nonce'][0]), 8), p=p, n=n))
        old = Chunk(s, p, n)
        put(ex, s, p, n, lambda k: xor(old.at(s, k), UF('KS%d' % i, 8, (k,))))
    U.stub(ex, 'rng_crypt', crypt)
    U.stub(ex, 'torsion__rdrand32', lambda ex, s, a: V('hw', 32), False)
    return ex, st, L, rng


def word(k, name='m:rng', base=0):
    return cat(*[UF(name, 8, (K(base + 4 * k + i),)) for i in (3, 2, 1, 0)])


def random_unit(U):
    ex, st, L, rng = gen_setup(U)
    at = lambda f: L[f][0]
    pos = V('pos', 64)
    st.assume(ule(pos, K(120)))
    st.store(Ptr(rng, at('pos')), pos, 8)
    oldw = lambda s, f, k: s.load(Ptr(rng, addc(mul(k, K(4)), at(f))), 4)
    for s, r in ex.call(st.fork(), 'rng_random', [Ptr(rng)]):
        U.reach(s)
        ev = list(s.extra or ())
        k = V('k', 64)
        if not ev:
            ex.require(s, ne(pos, K(0)), 'pool used only when words are left')
            p1 = addc(pos, -1)
            b4 = st.fork()
            b4.pc = s.pc
            ex.require(s, eq(r, oldw(b4, 'pool', p1)), 'next unused word')
            ex.require(s, eq(s.load(Ptr(rng, at('pos')), 8), p1), 'position moves by one')
            s1 = s.fork()
            s1.assume(ult(k, K(128)))
            b4 = st.fork()
            b4.pc = s1.pc
            ex.require(s1, eq(oldw(s1, 'pool', k), ite(eq(k, p1), C(0, 32), oldw(b4, 'pool', k))), 'used word erased, others kept')
            s1 = s.fork()
            s1.assume(ult(k, K(8)))
            b4 = st.fork()
            b4.pc = s1.pc
            ex.require(s1, eq(oldw(s1, 'key', k), oldw(b4, 'key', k)), 'key kept')
            ex.require(s, eq(s.load(Ptr(rng, at('nonce')), 8), st.load(Ptr(rng, at('nonce')), 8)), 'nonce kept')
            continue
        ex.require(s, eq(pos, K(0)), 'refilled only when empty')
        ex.require(s, T if len(ev) == 1 else F, 'one refill')
        e = ev[0]
        ex.require(s, conj([T if e.p.obj is rng else F, eq(e.p.off, K(at('pool'))), eq(e.n, K(512))]), 'whole pool refilled')
        ex.require(s, eq(e.nonce, st.load(Ptr(rng, at('nonce')), 8)), 'refilled under the current nonce')
        ks = lambda i: word(i, 'KS0')
        ex.require(s, eq(r, ks(119)), 'first word handed out')
        ex.require(s, eq(s.load(Ptr(rng, at('pos')), 8), K(119)), 'position')
        ex.require(s, eq(s.load(Ptr(rng, at('nonce')), 8), addc(st.load(Ptr(rng, at('nonce')), 8), 1)), 'nonce advances')
        hw = s.decide(ne(st.load(Ptr(rng, at('rdrand')), 4), C(0, 32)))
        for i in range(128):
            ex.require(s, eq(s.load(Ptr(rng, at('pool') + 4 * i), 4), ks(i) if i < 119 else C(0, 32)), 'pool word %d' % i)
        for i in range(8):
            w = xor(oldw(st, 'key', K(i)), ks(120 + i))
            if i == 7:
                w = ite(ne(st.load(Ptr(rng, at('rdrand')), 4), C(0, 32)), xor(w, V('hw', 32)), w)
            ex.require(s, eq(s.load(Ptr(rng, at('key') + 4 * i), 4), w), 'key word %d replaced by unused keystream' % i)


def generate_unit(U):
    ex, st, L, rng = gen_setup(U)
    at = lambda f: L[f][0]
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    dst = ex.sym_obj(st, 'dst', n)
    for s, r in ex.call(st.fork(), 'rng_generate', [Ptr(rng), Ptr(dst), n]):
        U.reach(s)
        ev = list(s.extra or ())
        ex.require(s, T if len(ev) == 2 else F, 'output, then new key')
        if len(ev) != 2:
            continue
        a, b = ev
        k = V('k', 64)
        ex.require(s, conj([T if a.p.obj is dst else F, eq(a.p.off, K(0)), eq(a.n, n)]), 'whole output')
        s1 = s.fork()
        s1.assume(ult(k, n))
        ex.require(s1, eq(s1.load(Ptr(dst, k), 1), UF('KS0', 8, (k,))), 'output is fresh keystream')
        non = st.load(Ptr(rng, at('nonce')), 8)
        ex.require(s, conj([eq(a.nonce, non), eq(b.nonce, addc(non, 1)), eq(s.load(Ptr(rng, at('nonce')), 8), addc(non, 1))]), 'nonce advances before the new key')
        ex.require(s, conj([T if b.p.obj is rng else F, eq(b.p.off, K(at('key'))), eq(b.n, K(32))]), 'new key')
        for i in range(8):
            o = st.load(Ptr(rng, at('key') + 4 * i), 4)
            if i == 0:
                o = xor(o, ext(n, 31, 0))
            if i == 7:
                o = ite(ne(st.load(Ptr(rng, at('rdrand')), 4), C(0, 32)), xor(o, V('hw', 32)), o)
            ex.require(s, eq(s.load(Ptr(rng, at('key') + 4 * i), 4), xor(o, word(i, 'KS1'))), 'key word %d' % i)
        s1 = s.fork()
        s1.assume(ult(k, K(512)))
        ex.require(s1, eq(s1.load(Ptr(rng, addc(k, at('pool'))), 1), UF('m:rng', 8, (addc(k, at('pool')),))), 'pool untouched')
        ex.require(s, eq(s.load(Ptr(rng, at('pos')), 8), st.load(Ptr(rng, at('pos')), 8)), 'pool position untouched')


def crypt_unit(U):
    """rng_crypt: ChaCha20 under key, nonce and counter zero, in place"""
    ex, st = U.exec(FILES + ['stream'])
    L = lay()
    rng = ex.sym_obj(st, 'rng', L['rng_t'][1])
    rng.const = True
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    d = ex.sym_obj(st, 'd', n)

    def init(ex, s, a):
        ok = conj([T if as_ptr(a[1]).obj is rng and as_ptr(a[3]).obj is rng else F])
        ex.require(s, ok, 'key and nonce of the generator')
        ex.require(s, conj([eq(as_ptr(a[1]).off, K(L['key'][0])), eq(a[2], K(32)), eq(as_ptr(a[3]).off, K(L['nonce'][0])), eq(a[4], K(8)), eq(a[5], K(0))]),
                   'whole key, eight byte nonce, counter zero')
        log(s, Event('init', where(a[0])))

    def crypt(ex, s, a):
        ev = list(s.extra or ())
        ex.require(s, T if len(ev) == 1 and ev[0].key == where(a[0]) else F, 'the context just initialised')
        ex.require(s, conj([T if as_ptr(a[1]).obj is d and as_ptr(a[2]).obj is d else F]), 'in place')
        ex.require(s, conj([eq(as_ptr(a[1]).off, K(0)), eq(as_ptr(a[2]).off, K(0)), eq(a[3], n)]), 'all data')
        log(s, Event('crypt', 0))
    U.stub(ex, 'torsion_chacha20_init', init)
    U.stub(ex, 'torsion_chacha20_crypt', crypt)
    U.assume('ChaCha20 as proved in C07')
    for s, r in ex.call(st, 'rng_crypt', [Ptr(rng), Ptr(d), n]):
        U.reach(s)
        ex.require(s, T if [e.kind for e in s.extra or ()] == ['init', 'crypt'] else F, 'one pass')


UNITS = [('rng_uniform', uniform_unit), ('rng_random', random_unit), ('rng_generate', generate_unit), ('rng_crypt', crypt_unit)]

CWRAP = r"""
#include "rand.c"
uint32_t t_uniform(rng_t *r, uint32_t max) { return rng_uniform(r, max); }
uint32_t t_random(rng_t *r) { return rng_random(r); }
void t_generate(rng_t *r, void *d, size_t n) { rng_generate(r, d, n); }
"""


def concrete(rng, budget, hints):
    from . import c07
    L = lay()
    lib = clib(['internal', 'util', 'hash', 'stream', 'entropy/hw', 'entropy/sys'], wrapper=CWRAP)
    g = lambda n: getattr(lib, n)
    g('t_uniform').restype = g('t_random').restype = ctypes.c_uint32
    t0 = time.time()
    cnt = 0

    class Ref:
        def __init__(self, key):
            self.key, self.nonce, self.pool, self.pos = key, 0, [0] * 128, 0

        def ks(self, n):
            return chacha(self.key, self.nonce, n)

        def random(self):
            if self.pos == 0:
                b = self.ks(512)
                self.key = bytes(x ^ y for x, y in zip(self.key, b[480:]))
                self.pool = [int.from_bytes(b[4 * i:4 * i + 4], 'little') for i in range(120)]
                self.nonce += 1
                self.pos = 120
            self.pos -= 1
            return self.pool[self.pos]

        def uniform(self, m):
            if m <= 1:
                return 0
            while 1:
                x = self.random()
                if x - x % m + m <= 1 << 32:
                    return x % m

        def generate(self, n):
            out = self.ks(n)
            k = bytearray(self.key)
            k[:4] = (int.from_bytes(k[:4], 'little') ^ (n & 0xffffffff)).to_bytes(4, 'little')
            self.key = bytes(k)
            self.nonce += 1
            self.key = bytes(x ^ y for x, y in zip(self.key, self.ks(32)))
            return out
    while cnt < 40 or time.time() - t0 < budget:
        key = rng.randbytes(32)
        ctx = ctypes.create_string_buffer(L['rng_t'][1])
        ctx[L['key'][0]:L['key'][0] + 32] = key
        R = Ref(key)
        trace = []
        for _ in range(rng.randrange(1, 40)):
            cnt += 1
            op = rng.randrange(6)
            if op == 0:
                n = rng.choice([0, 1, 31, 64, 100, rng.randrange(300)])
                d = Guard(n)
                lib.t_generate(ctx, d.p, sz(n))
                got, want = d.get(), R.generate(n)
                if not d.ok():
                    raise Fail('rng_generate wrote outside', n=n)
                trace.append(('generate', n))
            elif op < 3:
                got, want = lib.t_random(ctx), R.random()
                trace.append(('random',))
            else:
                m = rng.choice([0, 1, 2, 3, 0x80000000, 0x80000001, 0xffffffff, 0xc0000000, 0xaaaaaaab, rng.randrange(1 << 32)])
                got, want = lib.t_uniform(ctx, ctypes.c_uint32(m)), R.uniform(m)
                trace.append(('uniform', m))
            if got != want:
                raise Fail('%s returned %r, specification %r' % (trace[-1][0], got, want), key=key, calls=str(trace))
    # rejection boundary: words planted in the pool
    for _ in range(400):
        m = rng.choice([rng.randrange(2, 1 << 32), 3, 5, 7, 0x80000001, 0xfffffffe, 0xffffffff, 1 << rng.randrange(1, 32)])
        lim = (1 << 32) - (1 << 32) % m
        a, b = rng.choice([lim - 1, lim, lim + 1, lim - m, 0xffffffff]) % (1 << 32), rng.randrange(m)
        ctx = ctypes.create_string_buffer(L['rng_t'][1])
        ctx[L['pool'][0]:L['pool'][0] + 8] = b.to_bytes(4, 'little') + a.to_bytes(4, 'little')
        ctx[L['pos'][0]] = 2
        got = lib.t_uniform(ctx, ctypes.c_uint32(m))
        want = a % m if a < lim else b % m
        cnt += 1
        if got != want:
            raise Fail('rng_uniform at the rejection limit', max=m, raw=a, next=b, got=got, want=want)
    return cnt


def chacha(key, nonce, n):
    def q(x, a, b, c, d):
        M = 0xffffffff
        rot = lambda v, r: (v << r | v >> (32 - r)) & M
        x[a] = (x[a] + x[b]) & M; x[d] = rot(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M; x[b] = rot(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M; x[d] = rot(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M; x[b] = rot(x[b] ^ x[c], 7)
    out = b''
    ctr = 0
    W = lambda b: [int.from_bytes(b[i:i + 4], 'little') for i in range(0, len(b), 4)]
    while len(out) < n:
        s = W(b'expand 32-byte k') + W(key) + [ctr & 0xffffffff, ctr >> 32] + W(nonce.to_bytes(8, 'little'))
        x = list(s)
        for _ in range(10):
            q(x, 0, 4, 8, 12); q(x, 1, 5, 9, 13); q(x, 2, 6, 10, 14); q(x, 3, 7, 11, 15)
            q(x, 0, 5, 10, 15); q(x, 1, 6, 11, 12); q(x, 2, 7, 8, 13); q(x, 3, 4, 9, 14)
        out += b''.join(((a + b) & 0xffffffff).to_bytes(4, 'little') for a, b in zip(x, s))
        ctr += 1
    return out[:n]
