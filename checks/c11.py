"""C11: block padding."""
import time
from .ghost import *        # noqa

SRCS = [('cipher', 'c64')]
FILES = ['cipher', 'util', 'internal']
SIZES = (8, 16, 1, 2, 3, 15, 32, 255)


def pad_unit(S, inplace):
    def unit(U):
        ex, st = U.exec(FILES)
        src = ex.sym_obj(st, 'src', K(S))
        dst = src
        if not inplace:
            dst = ex.sym_obj(st, 'dst', K(S + 1))
            src.const = True
        n = V('n', 64)
        st.assume(ule(n, K(S)))
        if not inplace:
            src.size = n
        old = lambda k: UF('m:src', 8, (k,))
        for s, r in ex.call(st, 'torsion_pkcs7_pad', [Ptr(dst), Ptr(src), n, K(S)]):
            U.reach(s)
            k = V('k', 64)
            s1 = s.fork()
            s1.assume(ult(k, n))
            ex.require(s1, eq(s1.load(Ptr(dst, k), 1), old(k)), 'data kept')
            s2 = s.fork()
            s2.assume(ule(n, k))
            s2.assume(ult(k, K(S)))
            ex.require(s2, eq(s2.load(Ptr(dst, k), 1), ext(sub(K(S), n), 7, 0)), 'padding value')
            if not inplace:
                ex.require(s, eq(s.load(Ptr(dst, S), 1), UF('m:dst', 8, (K(S),))), 'nothing beyond the block')
    return unit


def unpad_unit(S, inplace):
    def unit(U):
        ex, st = U.exec(FILES)
        src = ex.sym_obj(st, 'src', K(S))
        dst = src
        if not inplace:
            dst = ex.sym_obj(st, 'dst', K(S + 1))
            src.const = True
        ln = ex.sym_obj(st, 'len', K(8))
        b = [UF('m:src', 8, (K(i),)) for i in range(S)]
        last = b[-1]
        # the specification: some p in 1..S with the last p bytes all equal p
        oks = []
        for p in range(1, min(S, 255) + 1):
            c = T
            for i in range(S - p, S):
                c = and_(c, eq(b[i], C(p, 8)))
            oks.append((p, c))
        ok = F
        length = K(0)
        for p, c in oks:
            ok = or_(ok, c)
            length = ite(c, K(S - p), length)
        for s, r in ex.call(st, 'torsion_pkcs7_unpad', [Ptr(dst), Ptr(ln), Ptr(src), K(S)]):
            U.reach(s)
            got = s.load(Ptr(ln), 8)
            if S <= 32:
                ex.require(s, eq(r, ite(ok, C(1, 32), C(0, 32))), 'accepted exactly when well formed')
                ex.require(s, eq(got, length), 'length of the data, zero on rejection')
            else:
                for p, c in oks:
                    s2 = s.fork()
                    s2.assume(eq(last, C(p, 8)))
                    ex.require(s2, eq(r, ite(c, C(1, 32), C(0, 32))), 'accepted exactly when well formed %d' % p)
                    ex.require(s2, eq(got, ite(c, K(S - p), K(0))), 'length %d' % p)
                s2 = s.fork()
                s2.assume(eq(last, C(0, 8)))
                ex.require(s2, and_(eq(r, C(0, 32)), eq(got, K(0))), 'zero rejected')
            k = V('k', 64)
            s1 = s.fork()
            s1.assume(ult(k, K(S)))
            ex.require(s1, eq(s1.load(Ptr(dst, k), 1), UF('m:src', 8, (k,))), 'block copied')
            if not inplace:
                ex.require(s, eq(s.load(Ptr(dst, S), 1), UF('m:dst', 8, (K(S),))), 'nothing beyond the block')
    return unit


UNITS = []
for S in SIZES:
    if S < 255:
        UNITS += [('pad %d' % S, pad_unit(S, 0)), ('unpad %d' % S, unpad_unit(S, 0))]
    if S in (8, 16):
        UNITS += [('pad %d in place' % S, pad_unit(S, 1)), ('unpad %d in place' % S, unpad_unit(S, 1))]


def concrete(rng, budget, hints):
    lib = clib(['cipher', 'util', 'internal'])
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        S = rng.choice([8, 16])
        ln = rng.randrange(0, S + 1)
        m = rng.randbytes(ln)
        d = Guard(S)
        fn(lib, 'pkcs7_pad')(d.p, m, sz(ln), sz(S))
        if d.get() != m + bytes([S - ln]) * (S - ln) or not d.ok():
            raise Fail('pkcs7_pad', data=m, size=S, got=d.get())
        b = bytearray(rng.randbytes(S))
        p = rng.randrange(0, S + 3)
        for i in range(min(p, S)):
            b[S - 1 - i] = p
        if rng.randrange(3) == 0:
            b[rng.randrange(S)] = rng.randrange(0, 256)
        b = bytes(b)
        q = b[-1]
        ok = 1 <= q <= S and all(x == q for x in b[S - q:])
        out = ctypes.c_size_t(99)
        d = Guard(S)
        r = fn(lib, 'pkcs7_unpad', ctypes.c_int)(d.p, ctypes.byref(out), b, sz(S))
        n += 1
        if r != int(ok) or out.value != (S - q if ok else 0) or not d.ok() or (ok and d.get()[:S - q] != b[:S - q]):
            raise Fail('pkcs7_unpad', block=b, got=r, length=out.value, want=int(ok))
    return n
