"""C23: memory helpers."""
import ctypes
import time
from .core import *         # noqa
from .lemmas import *       # noqa
from lvc.expr import *      # noqa
from lvc.exec import *      # noqa

SRCS = [('util', 'c64')]
K = lambda v: C(v, 64)
mx = lambda k: UF('m:x', 8, (k,))
my = lambda k: UF('m:y', 8, (k,))


def setup(U, names, alias=None):
    ex, st = U.exec(['util'])
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    obs = []
    for nm in names:
        if alias and nm in alias:
            obs.append(obs[names.index(alias[nm])])
        else:
            # one byte more than the range: it must stay as it is
            obs.append(ex.sym_obj(st, nm, addc(n, 1)))
    return ex, st, n, obs


def cmp_unit(U):
    ex, st, n, (x, y) = setup(U, ['x', 'y'])
    x.const = y.const = True
    x.size = y.size = n
    E = Rec(ex, 'spec.equal', C(1, 1), lambda t, e: and_(e, eq(mx(t), my(t))))
    L = Rec(ex, 'spec.less', C(0, 1), lambda t, l: or_(l, and_(E(t), ult(mx(t), my(t)))))
    # the two ghost values are exclusive
    ex.inv_hooks.append(lambda s, t, v: [not_(and_(E(t), L(t)))])
    for s, r in ex.call(st, 'torsion_memcmp', [Ptr(x), Ptr(y), n]):
        U.reach(s)
        ex.require(s, eq(E(n), eq(r, C(0, 32))), 'zero exactly for equal ranges')
        ex.require(s, eq(L(n), slt(r, C(0, 32))), 'negative exactly when smaller')


def cmpvar_unit(U):
    ex, st, n, (x, y) = setup(U, ['x', 'y'])
    x.const = y.const = True
    x.size = y.size = n
    k = V('k', 64)
    for s, r in ex.call(st, 'torsion_memcmp_var', [Ptr(x), Ptr(y), n]):
        U.reach(s)
        s = s.fork()
        for summ in ex.summaries:
            for f in loop_all(summ, k):
                s.assume(f)
        d = V('d', 64)       # first difference
        s2 = s.fork()
        s2.assume(ult(k, n))
        s2.assume(eq(r, C(0, 32)))
        ex.require(s2, eq(mx(k), my(k)), 'zero only for equal ranges')
        s3 = s.fork()
        s3.assume(ne(r, C(0, 32)))
        t = [q.t for q in ex.summaries]
        if not t:
            raise Unsupported('no loop')
        t = t[-1]
        ex.require(s3, ult(t, n), 'difference inside the range')
        ex.require(s3, implies(ult(k, t), eq(mx(k), my(k))), 'first difference')
        ex.require(s3, eq(slt(r, C(0, 32)), ult(mx(t), my(t))), 'sign of the first difference')
        ex.require(s3, ne(mx(t), my(t)), 'difference')


def equal_unit(U):
    ex, st, n, (x, y) = setup(U, ['x', 'y'])
    x.const = y.const = True
    x.size = y.size = n
    k = V('k', 64)
    for s, r in ex.call(st, 'torsion_memequal', [Ptr(x), Ptr(y), n]):
        U.reach(s)
        # equal ranges give 1: assume equality at every witness
        s1 = s.fork()
        for f in or_facts(ex, s1):
            s1.assume(f)
        apps = recs_in(ex, [r])
        for f in or_facts_of(ex, apps):
            s1.assume(f)
        for a in uf_args(list(s1.pc), 'm:x'):
            s1.assume(implies(ult(a[0], n), eq(mx(a[0]), my(a[0]))))
        ex.require(s1, eq(r, C(1, 32)), 'one for equal ranges')
        s2 = s.fork()
        s2.assume(ult(k, n))
        for f in or_facts_of(ex, apps, [k]):
            s2.assume(f)
        s2.assume(ne(r, C(0, 32)))
        ex.require(s2, eq(mx(k), my(k)), 'non-zero only for equal ranges')
        ex.require(s2, eq(r, C(1, 32)), 'result is 0 or 1')


def xor_unit(fname, names, alias=None):
    def unit(U):
        ex, st, n, obs = setup(U, names, alias)
        k = V('k', 64)
        old = {nm: st.load(Ptr(o, k), 1) for nm, o in zip(names, obs)} if False else None
        st.assume(ule(k, n))
        old = [st.load(Ptr(o, k), 1) for o in obs]
        for s, r in ex.call(st, fname, [Ptr(o) for o in obs] + [n]):
            U.reach(s)
            want = xor(old[0], old[1]) if len(obs) == 2 else xor(old[1], old[2])
            for i, o in enumerate(obs):
                v = s.load(Ptr(o, k), 1)
                if o is obs[0]:
                    ex.require(s, eq(v, ite(ult(k, n), want, old[0])), 'exactly n bytes become the xor')
                else:
                    ex.require(s, eq(v, old[i]), 'other operands unchanged')
    return unit


def zero_unit(U):
    ex, st, n, (x,) = setup(U, ['x'])
    k = V('k', 64)
    st.assume(ule(k, n))
    old = st.load(Ptr(x, k), 1)
    for s, r in ex.call(st, 'torsion_memzero', [Ptr(x), n]):
        U.reach(s)
        ex.require(s, eq(s.load(Ptr(x, k), 1), ite(ult(k, n), C(0, 8), old)), 'exactly n bytes cleared')


WRAP = '''
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include "bio.h"
void w_increment_le(uint8_t *x, size_t n) { increment_le(x, n); }
void w_increment_be(uint8_t *x, size_t n) { increment_be(x, n); }
void w_increment_le_var(uint8_t *x, size_t n) { increment_le_var(x, n); }
void w_increment_be_var(uint8_t *x, size_t n) { increment_be_var(x, n); }
'''
RW = []
for bits in (16, 32, 64):
    for en in ('le', 'be'):
        RW.append((bits, en))
        ty = 'uint%d_t' % bits
        WRAP += '%s w_read%d%s(const uint8_t *p) { return read%d%s(p); }\n' % (ty, bits, en, bits, en)
        WRAP += 'void w_write%d%s(uint8_t *p, %s v) { write%d%s(p, v); }\n' % (bits, en, ty, bits, en)


def inc_unit(name, be, n):
    """constant width: complete by unrolling"""
    def unit(U):
        ex, st = U.exec_text(WRAP)
        ex.maxunroll = 200
        ex.no_sum.update((name, q) for q in range(4))
        x = ex.sym_obj(st, 'x', n + 1)
        old = st.load(Ptr(x), n + 1)    # little endian value
        for s, r in ex.call(st, 'w_' + name, [Ptr(x), K(n)]):
            U.reach(s)
            new = s.load(Ptr(x), n + 1)
            ex.require(s, eq(ext(new, 8 * n + 7, 8 * n), ext(old, 8 * n + 7, 8 * n)), 'byte after the counter unchanged')
            if n:
                a, b = trunc(old, 8 * n), trunc(new, 8 * n)
                if be:
                    a, b = bswap(a), bswap(b)
                ex.require(s, eq(b, addc(a, 1)), 'counter increases by one modulo its width')
    return unit


def rw_unit(U):
    ex, st = U.exec_text(WRAP)
    for bits, en in RW:
        n = bits // 8
        p = ex.sym_obj(st, 'p%d%s' % (bits, en), n + 2)
        raw = st.load(Ptr(p, K(1)), n)
        val = bswap(raw) if en == 'be' else raw
        for s, r in ex.call(st.fork(), 'w_read%d%s' % (bits, en), [Ptr(p, K(1))]):
            U.reach(s)
            ex.require(s, eq(r, val), 'value read')
        v = V('v%d' % bits, bits)
        old = st.load(Ptr(p), n + 2)
        for s, r in ex.call(st.fork(), 'w_write%d%s' % (bits, en), [Ptr(p, K(1)), v]):
            U.reach(s)
            want = bswap(v) if en == 'be' else v
            ex.require(s, eq(s.load(Ptr(p, K(1)), n), want), 'value written')
            ex.require(s, eq(s.load(Ptr(p), 1), trunc(old, 8)), 'nothing else written')
            ex.require(s, eq(s.load(Ptr(p, K(n + 1)), 1), ext(old, 8 * n + 15, 8 * n + 8)), 'nothing else written')


UNITS = [('memcmp', cmp_unit), ('memcmp_var', cmpvar_unit), ('memequal', equal_unit),
         ('memxor', xor_unit('torsion_memxor', ['z', 'x'])),
         ('memxor aliased', xor_unit('torsion_memxor', ['z', 'x'], {'x': 'z'})),
         ('memxor3', xor_unit('torsion_memxor3', ['z', 'x', 'y'])),
         ('memxor3 z=x', xor_unit('torsion_memxor3', ['z', 'x', 'y'], {'x': 'z'})),
         ('memxor3 z=y', xor_unit('torsion_memxor3', ['z', 'x', 'y'], {'y': 'z'})),
         ('memzero', zero_unit), ('read/write', rw_unit)]
for nm in ('increment_le', 'increment_be', 'increment_le_var', 'increment_be_var'):
    for n in (0, 1, 2, 3, 4, 8, 12, 16, 20, 24, 32):
        UNITS.append(('%s n=%d' % (nm, n), inc_unit(nm, '_be' in nm, n)))


def concrete(rng, budget, hints):
    lib = clib(['util'], WRAP)
    asm = clib(['util'], WRAP, config='asm')
    t0 = time.time()
    cases = 0

    def rb(n):
        return bytes(rng.choice((rng.randrange(256), 0, 255, 127, 128)) for _ in range(n))

    def word(lib, n):
        a = rb(n)
        b = bytearray(a)
        if n and rng.random() < 0.7:
            for _ in range(rng.randrange(1, 3)):
                b[rng.randrange(n)] = rng.randrange(256)
        b = bytes(b)
        ga, gb = Guard(n, a, fill=0x11), Guard(n, b, fill=0x99)
        r = fn(lib, 'torsion_memcmp', ctypes.c_int)(ga.p, gb.p, sz(n))
        want = (a > b) - (a < b)
        if (r > 0) - (r < 0) != want:
            raise Fail('torsion_memcmp', a=a, b=b, got=r)
        r = fn(lib, 'torsion_memcmp_var', ctypes.c_int)(ga.p, gb.p, sz(n))
        if (r > 0) - (r < 0) != want:
            raise Fail('torsion_memcmp_var', a=a, b=b, got=r)
        r = fn(lib, 'torsion_memequal', ctypes.c_int)(ga.p, gb.p, sz(n))
        if r != (a == b):
            raise Fail('torsion_memequal', a=a, b=b, got=r)
        z = Guard(n, b)
        fn(lib, 'torsion_memxor')(z.p, ga.p, sz(n))
        w = bytes(p ^ q for p, q in zip(a, b))
        if z.get() != w or not z.ok() or ga.get() != a:
            raise Fail('torsion_memxor', x=a, z=b, got=z.get())
        z = Guard(n)
        fn(lib, 'torsion_memxor3')(z.p, ga.p, gb.p, sz(n))
        if z.get() != w or not z.ok() or ga.get() != a:
            raise Fail('torsion_memxor3', x=a, y=b, got=z.get())
        for dst in (ga, gb):
            c = Guard(n, dst.get())
            o = gb if dst is ga else ga
            args = (c.p, c.p, o.p) if dst is ga else (c.p, o.p, c.p)
            fn(lib, 'torsion_memxor3')(*args, sz(n))
            if c.get() != w or not c.ok():
                raise Fail('torsion_memxor3 in place', x=a, y=b, got=c.get())
        z = Guard(n, b)
        fn(lib, 'torsion_memzero')(z.p, sz(n))
        if z.get() != bytes(n) or not z.ok():
            raise Fail('torsion_memzero', n=n)
        for nm in ('increment_le', 'increment_be', 'increment_le_var', 'increment_be_var'):
            k = rng.randrange(min(n, 9) + 1)
            x = bytes([255] * k) + a[k:] if '_le' in nm else a[:n - k] + bytes([255] * k)
            e = 'little' if '_le' in nm else 'big'
            want = ((int.from_bytes(x, e) + 1) % (1 << (8 * n))).to_bytes(n, e)
            z = Guard(n, x)
            fn(lib, 'w_' + nm)(z.p, sz(n))
            if z.get() != want or not z.ok():
                raise Fail(nm, x=x, got=z.get())
        for bits, en in RW:
            if n < bits // 8:
                continue
            v = int.from_bytes(a[:bits // 8], 'little' if en == 'le' else 'big')
            f = fn(lib, 'w_read%d%s' % (bits, en), getattr(ctypes, 'c_uint%d' % bits))
            if f(ga.p) != v:
                raise Fail('read%d%s' % (bits, en), data=a)
            z = Guard(bits // 8)
            fn(lib, 'w_write%d%s' % (bits, en))(z.p, getattr(ctypes, 'c_uint%d' % bits)(v))
            if z.get() != a[:bits // 8] or not z.ok():
                raise Fail('write%d%s' % (bits, en), value=v)

    for n in range(0, 70):
        for l in (lib, asm):
            for _ in range(6):
                word(l, n)
                cases += 1
    while time.time() - t0 < budget:
        word(rng.choice((lib, asm)), rng.choice((rng.randrange(20), rng.randrange(300), rng.randrange(5000))))
        cases += 1
    return cases


BUDGET = {'quick': 6, 'thorough': 60}
BOUNDED = ['counter increments of widths other than 0-4, 8, 12, 16, 20, 24, 32 bytes',
           'memzero: the inline assembly barrier variant (the portable variant is proved)']
