"""C13: DER reading and writing."""
import time
from .ghost import *        # noqa

SRCS = [('asn1', 'c64'), ('mpi', 'c64')]
FILES = ['asn1', 'internal']
WITH_MPI = ['asn1', 'internal', 'mpi']
P = 'torsion__asn1_'
B = lambda k: UF('m:src', 8, (k,))
B64 = lambda k: zext(B(k), 64)


def source(U, strict, files=FILES):
    """an input of n bytes of which the first o are already consumed"""
    ex, st = U.exec(files)
    n, o = V('n', 64), V('o', 64)
    st.assume(ult(n, K(1 << 60)))
    st.assume(ule(o, n))
    src = ex.sym_obj(st, 'src', n)
    src.const = True
    data, ln = ex.sym_obj(st, 'data', 8), ex.sym_obj(st, 'len', 8)
    st.store(Ptr(data), Ptr(src, o), 8)
    st.store(Ptr(ln), sub(n, o), 8)
    return ex, st, src, n, o, data, ln


def pos(s, src, data):
    p = as_ptr(s.load(Ptr(data), 8))
    if not isinstance(p, Ptr) or p.obj is not src:
        raise Unsupported('position lost')
    return p.off


def consistent(ex, s, src, n, data, ln, what='position'):
    o = pos(s, src, data)
    ex.require(s, ule(o, n), what + ' inside the input')
    ex.require(s, eq(add(o, s.load(Ptr(ln), 8)), n), what + ' and remaining length agree')
    return o


def size_spec(n, o, strict, only=None):
    """(accepted, value, bytes consumed) of a length field at o"""
    b0 = B(o)
    have = ult(o, n)
    short = eq(and_(b0, C(0x80, 8)), C(0, 8))
    cnt = zext(and_(b0, C(0x7f, 8)), 64)
    val, ok = K(0), T
    okn, valn = F, K(0)
    if only is not None:
        cnt, have, short = K(only), T, F
    top = 4 if strict else 127 if only is None else only
    for i in range(0, top + 1):
        # i length bytes
        if i:
            ok = conj([ok, ult(add(o, K(i)), n), ult(val, K(1 << 24))])
            val = or_(shl(val, K(8)), B64(add(o, K(i))))
            if strict:
                ok = conj([ok, ne(val, K(0))])
        good = ok
        if strict:
            good = conj([ok, T if i else F, ule(K(0x80), val)])
        c = eq(cnt, K(i))
        okn = ite(c, good, okn)
        valn = ite(c, val, valn)
    return (conj([have, ite(short, T, okn)]), ite(short, zext(b0, 64), valn), ite(short, K(1), add(K(1), cnt)))


def size_unit(strict, cnt=None):
    def unit(U):
        ex, st, src, n, o, data, ln = source(U, strict)
        ex.unroll.add(P + 'read_size')
        size = ex.sym_obj(st, 'size', 8)
        okw, val, used = size_spec(n, o, strict, cnt)
        if cnt is not None:
            st.assume(ult(o, n))
            st.assume(eq(B(o), C(0x80 | cnt, 8)))
        for s, r in ex.call(st, P + 'read_size', [Ptr(size), Ptr(data), Ptr(ln), C(strict, 32)]):
            U.reach(s)
            e = consistent(ex, s, src, n, data, ln)
            ex.require(s, eq(r, ite(okw, C(1, 32), C(0, 32))), 'accepted exactly when well formed')
            s1 = s.fork()
            s1.assume(ne(r, C(0, 32)))
            ex.require(s1, eq(s1.load(Ptr(size), 8), val), 'value')
            ex.require(s1, eq(sub(e, o), used), 'consumed')
            s2 = s.fork()
            s2.assume(eq(r, C(0, 32)))
            ex.require(s2, eq(s2.load(Ptr(size), 8), K(0)), 'zero on failure')
    return unit



def size_contract(U, ex, src, n, data, ln):
    """read_size by the contract proved above: what it reads at a position is a function of that position"""
    def f(ex, s, a):
        ex.require(s, T if as_ptr(a[1]).obj is data and as_ptr(a[2]).obj is ln else F, 'position variables passed on')
        o = consistent(ex, s, src, n, data, ln, 'length field')
        st_ = a[3]
        ok = eq(UF('SZOK', 1, (o, st_)), C(1, 1))
        c, v = UF('SZUSED', 64, (o, st_)), UF('SZVAL', 64, (o, st_))
        s1, s2 = s.fork(), s.fork()
        s1.assume(ok)
        s1.assume(ule(K(1), c))
        s1.assume(ule(c, sub(n, o)))
        s1.assume(ult(v, K(1 << 32)))
        s1.store(a[0], v, 8)
        s1.store(Ptr(data), Ptr(src, add(o, c)), 8)
        s1.store(Ptr(ln), sub(n, add(o, c)), 8)
        s2.assume(not_(ok))
        d = V(ex.fresh_name('skip'), 64)
        s2.assume(ule(d, sub(n, o)))
        s2.store(a[0], K(0), 8)
        s2.store(Ptr(data), Ptr(src, add(o, d)), 8)
        s2.store(Ptr(ln), sub(n, add(o, d)), 8)
        return [(s1, C(1, 32)), (s2, C(0, 32))]
    U.stub(ex, P + 'read_size', f)


def seq_unit(strict):
    def unit(U):
        ex, st, src, n, o, data, ln = source(U, strict)
        size_contract(U, ex, src, n, data, ln)
        o1 = add(o, K(1))
        sv, su = UF('SZVAL', 64, (o1, C(strict, 32))), UF('SZUSED', 64, (o1, C(strict, 32)))
        ok = conj([ult(o, n), eq(B(o), C(0x30, 8)), eq(UF('SZOK', 1, (o1, C(strict, 32))), C(1, 1)),
                   eq(sv, sub(n, add(o1, su))) if strict else T])
        for s, r in ex.call(st, P + 'read_seq', [Ptr(data), Ptr(ln), C(strict, 32)]):
            U.reach(s)
            e = consistent(ex, s, src, n, data, ln)
            ex.require(s, eq(r, ite(ok, C(1, 32), C(0, 32))), 'accepted exactly when well formed')
            s1 = s.fork()
            s1.assume(ne(r, C(0, 32)))
            ex.require(s1, eq(e, add(o1, su)), 'header consumed')
    return unit


def skipped(ex, s, j):
    """the loop that skips leading zeros went on at step j: instance of what holds for every step before the last"""
    for sm in ex.summaries:
        s.assume(implies(ult(j, sm.t), subst(sm.cont, {sm.t: j})))


def int_unit(strict):
    def unit(U):
        ex, st, src, n, o, data, ln = source(U, strict)
        size_contract(U, ex, src, n, data, ln)
        m = V('m', 64)
        st.assume(ult(m, K(1 << 60)))
        out = ex.sym_obj(st, 'out', m)
        o1 = add(o, K(1))
        f1 = C(strict, 32)
        sv, su = UF('SZVAL', 64, (o1, f1)), UF('SZUSED', 64, (o1, f1))
        b = add(o1, su)
        head = conj([ult(o, n), eq(B(o), C(2, 8)), eq(UF('SZOK', 1, (o1, f1)), C(1, 1)), ule(sv, sub(n, b))])
        minimal = T
        if strict:
            minimal = conj([ne(sv, K(0)), eq(and_(B(b), C(0x80, 8)), C(0, 8)),
                            or_(ule(sv, K(1)), or_(ne(B(b), C(0, 8)), ne(and_(B(add(b, K(1))), C(0x80, 8)), C(0, 8))))])
        for s, r in ex.call(st, P + 'read_int', [Ptr(out), m, Ptr(data), Ptr(ln), C(strict, 32)]):
            U.reach(s)
            e = consistent(ex, s, src, n, data, ln)
            k = V('k', 64)
            good = s.decide(ne(r, C(0, 32)))
            if good is T:
                ex.require(s, eq(r, C(1, 32)), 'one on success')
                ex.require(s, conj([head, minimal]), 'accepted only when well formed')
                ex.require(s, eq(e, add(b, sv)), 'element consumed')
                s1 = s.fork()
                s1.assume(ult(k, sv))
                s1.assume(ult(add(k, m), sv))
                skipped(ex, s1, k)
                ex.require(s1, eq(B(add(b, k)), C(0, 8)), 'only zeros dropped')
                s1 = s.fork()
                s1.assume(ult(k, m))
                s1.assume(ule(sv, add(k, K(0))))
                ex.require(s1, eq(s1.load(Ptr(out, sub(sub(m, K(1)), k)), 1), C(0, 8)), 'zero extended')
                s1 = s.fork()
                s1.assume(ult(k, m))
                s1.assume(ult(k, sv))
                skipped(ex, s1, sub(sub(sv, K(1)), k))
                ex.require(s1, eq(s1.load(Ptr(out, sub(sub(m, K(1)), k)), 1), B(add(b, sub(sub(sv, K(1)), k)))), 'value')
            elif good is F:
                s1 = s.fork()
                s1.assume(conj([head, minimal]))
                if s1.decide(F) is not T:
                    # too large for the output: a non-zero byte beyond it
                    ex.require(s1, conj([ule(b, e), ult(e, add(b, sv)), ne(B(e), C(0, 8)), ult(m, sub(add(b, sv), e))]), 'rejected only when malformed or too large')
                s1 = s.fork()
                s1.assume(ult(k, m))
                ex.require(s1, eq(s1.load(Ptr(out, k), 1), C(0, 8)), 'output zeroed on failure')
            else:
                raise Unsupported('undecided result')
    return unit



MPZ = 'torsion__mpz_'


def mpz_read_unit(kind, strict):
    """read_mpz and read_dumb: the bytes handed to the integer import are exactly those of the element"""
    def unit(U):
        ex, st, src, n, o, data, ln = source(U, strict, WITH_MPI)
        z = ex.sym_obj(st, 'z', 16)

        def imp(ex, s, a):
            ex.require(s, T if as_ptr(a[0]).obj is z else F, 'target integer')
            reads(ex, s, a[1], a[2], 'integer bytes')
            log(s, Event('import', 0, p=as_ptr(a[1]), n=a[2], e=a[3]))

        def setui(ex, s, a):
            log(s, Event('set', 0, v=a[1], p=as_ptr(a[0])))
        U.stub(ex, MPZ + 'import', imp)
        U.stub(ex, MPZ + 'set_ui', setui)
        U.assume('mpz_import converts a big endian byte string of any length to the integer it denotes')
        if kind == 'der':
            size_contract(U, ex, src, n, data, ln)
            o1 = add(o, K(1))
            f1 = C(1, 32)
            sv, su = UF('SZVAL', 64, (o1, f1)), UF('SZUSED', 64, (o1, f1))
            b = add(o1, su)
            ok = conj([ult(o, n), eq(B(o), C(2, 8)), eq(UF('SZOK', 1, (o1, f1)), C(1, 1)), ule(sv, sub(n, b))])
            if strict:
                ok = conj([ok, ne(sv, K(0)), eq(and_(B(b), C(0x80, 8)), C(0, 8)),
                           or_(ule(sv, K(1)), or_(ne(B(b), C(0, 8)), ne(and_(B(add(b, K(1))), C(0x80, 8)), C(0, 8))))])
            outs = ex.call(st, P + 'read_mpz', [Ptr(z), Ptr(data), Ptr(ln), C(strict, 32)])
        else:
            b = add(o, K(2))
            sv = or_(shl(B64(o), K(8)), B64(add(o, K(1))))
            ok = conj([ule(K(2), sub(n, o)), ule(sv, sub(n, b))])
            outs = ex.call(st, P + 'read_dumb', [Ptr(z), Ptr(data), Ptr(ln)])
        for s, r in outs:
            U.reach(s)
            e = consistent(ex, s, src, n, data, ln)
            ev = list(s.extra or ())
            good = s.decide(ne(r, C(0, 32)))
            if good is T:
                ex.require(s, eq(r, C(1, 32)), 'one on success')
                ex.require(s, ok, 'accepted only when well formed')
                ex.require(s, eq(e, add(b, sv)), 'element consumed')
                if len(ev) != 1 or ev[0].kind != 'import' or ev[0].p.obj is not src:
                    ex.require(s, F, 'one import')
                    continue
                ev = ev[0]
                ex.require(s, eq(ev.e, C(1, 32)), 'big endian')
                ex.require(s, conj([ule(b, ev.p.off), eq(add(ev.p.off, ev.n), add(b, sv))]), 'imported up to the end of the element')
                k = V('k', 64)
                s1 = s.fork()
                s1.assume(ule(b, k))
                s1.assume(ult(k, ev.p.off))
                skipped(ex, s1, sub(k, b))
                ex.require(s1, eq(B(k), C(0, 8)), 'only zeros skipped')
            elif good is F:
                s1 = s.fork()
                s1.assume(ok)
                if kind == 'der':
                    ex.require(s1, conj([ule(b, e), ult(e, add(b, sv)), ne(B(e), C(0, 8)), ult(K(2048), sub(add(b, sv), e))]),
                               'rejected only when malformed or too large')
                else:
                    ex.require(s1, F, 'rejected only when malformed')
                ex.require(s, T if len(ev) == 1 and ev[0].kind == 'set' and ev[0].p.obj is z else F, 'integer set on failure')
                if ev and ev[0].kind == 'set':
                    ex.require(s, eq(ev[0].v, K(0)), 'zero on failure')
            else:
                raise Unsupported('undecided result')
    return unit


def version_unit(U):
    ex, st, src, n, o, data, ln = source(U, 1)
    v = V('v', 32)
    ok = conj([ule(K(3), sub(n, o)), eq(B(o), C(2, 8)), eq(B(add(o, K(1))), C(1, 8)), eq(zext(B(add(o, K(2))), 32), v)])
    for s, r in ex.call(st, P + 'read_version', [Ptr(data), Ptr(ln), v, C(1, 32)]):
        U.reach(s)
        e = consistent(ex, s, src, n, data, ln)
        ex.require(s, eq(r, ite(ok, C(1, 32), C(0, 32))), 'accepted exactly when well formed')
        ex.require(s, eq(e, ite(ok, add(o, K(3)), o)), 'consumed')


def lensize(v):
    return ite(ule(v, K(0x7f)), K(1), ite(ule(v, K(0xff)), K(2), K(3)))


def lenbytes(v, k):
    """byte k of the length field of v <= 65535"""
    b = lambda x: ext(x, 7, 0)
    return ite(ule(v, K(0x7f)), b(v),
               ite(ule(v, K(0xff)), ite(eq(k, K(0)), C(0x81, 8), b(v)),
                   ite(eq(k, K(0)), C(0x82, 8), ite(eq(k, K(1)), b(lshr(v, K(8))), b(v)))))


def target(U, files=FILES):
    ex, st = U.exec(files)
    p = V('p', 64)
    st.assume(ult(p, K(1 << 40)))
    dst = ex.sym_obj(st, 'dst', add(p, K(1 << 20)))
    return ex, st, p, dst


def written(ex, s, dst, p, r, total_, at, what=''):
    """exactly total_ bytes at p, equal to at(k)"""
    ex.require(s, eq(sub(r, p), total_), what + 'announced number of bytes')
    k = V('k', 64)
    s1 = s.fork()
    s1.assume(ult(k, total_))
    at(s1, k)
    s1 = s.fork()
    s1.assume(ult(k, add(p, K(1 << 20))))
    s1.assume(or_(ult(k, p), ule(add(p, total_), k)))
    ex.require(s1, eq(s1.load(Ptr(dst, k), 1), UF('m:dst', 8, (k,))), what + 'nothing else written')


def wsize_unit(U):
    ex, st, p, dst = target(U)
    v = V('v', 64)
    for s, r in ex.call(st.fork(), P + 'size_size', [v]):
        U.reach(s)
        ex.require(s, eq(r, lensize(v)), 'size of a length field')
    st.assume(ule(v, K(0xffff)))
    for s, r in ex.call(st, P + 'write_size', [Ptr(dst), p, v]):
        U.reach(s)
        written(ex, s, dst, p, r, lensize(v), lambda s1, k: ex.require(s1, eq(s1.load(Ptr(dst, add(p, k)), 1), lenbytes(v, k)), 'length field'))
        # and it reads back
        s2 = s.fork()
        data, ln, size = [ex.sym_obj(s2, x, 8) for x in ('data', 'len', 'size')]
        extra = V('extra', 64)
        s2.assume(ult(extra, K(1 << 19)))
        s2.store(Ptr(data), Ptr(dst, p), 8)
        s2.store(Ptr(ln), add(sub(r, p), extra), 8)
        ex.unroll.add(P + 'read_size')
        for strict in (0, 1):
            for s3, r3 in ex.call(s2.fork(), P + 'read_size', [Ptr(size), Ptr(data), Ptr(ln), C(strict, 32)]):
                U.reach(s3)
                ex.require(s3, eq(r3, C(1, 32)), 'reads back')
                ex.require(s3, eq(s3.load(Ptr(size), 8), v), 'reads back the value')
                ex.require(s3, eq(s3.load(Ptr(ln), 8), extra), 'reads back and consumes it')
    ex, st, p, dst = target(U)
    st.assume(ule(v, K(0xffff)))
    for s, r in ex.call(st, P + 'write_seq', [Ptr(dst), p, v]):
        U.reach(s)
        written(ex, s, dst, p, r, addc(lensize(v), 1), lambda s1, k: ex.require(
            s1, eq(s1.load(Ptr(dst, add(p, k)), 1), ite(eq(k, K(0)), C(0x30, 8), lenbytes(v, addc(k, -1)))), 'sequence header'))
    ex, st, p, dst = target(U)
    v = V('v32', 32)
    st.assume(ule(v, C(0xff, 32)))
    for s, r in ex.call(st.fork(), P + 'size_version', [v]):
        U.reach(s)
        ex.require(s, eq(r, K(3)), 'size of a version')
    for s, r in ex.call(st, P + 'write_version', [Ptr(dst), p, v]):
        U.reach(s)
        written(ex, s, dst, p, r, K(3), lambda s1, k: ex.require(
            s1, eq(s1.load(Ptr(dst, add(p, k)), 1), ite(eq(k, K(0)), C(2, 8), ite(eq(k, K(1)), C(1, 8), ext(v, 7, 0)))), 'version'))


def int_shape(ex, s, m):
    """number of leading zeros (trip count of the skipping loop), checked to be that"""
    sm = ex.summaries[-1]
    t = sm.t
    num = lambda k: UF('m:num', 8, (k,))
    ex.require(s, ule(t, m), 'leading zeros counted')
    j = V('j', 64)
    s1 = s.fork()
    s1.assume(ult(j, t))
    skipped(ex, s1, j)
    ex.require(s1, eq(num(j), C(0, 8)), 'only zeros skipped')
    s1 = s.fork()
    s1.assume(ult(t, m))
    ex.require(s1, ne(num(t), C(0, 8)), 'all leading zeros skipped')
    pad = zext(lshr(num(t), C(7, 8)), 64)
    body = sub(m, t)
    full = ite(eq(body, K(0)), K(1), add(body, pad))
    return t, pad, body, full, num


def wint_unit(U):
    m = V('m', 64)
    ex, st, p, dst = target(U)
    st.assume(ule(m, K(0xfffe)))
    num = ex.sym_obj(st, 'num', m)
    num.const = True
    for s, r in ex.call(st, P + 'size_int', [Ptr(num), m]):
        U.reach(s)
        t, pad, body, full, nb = int_shape(ex, s, m)
        ex.require(s, eq(r, add(addc(full, 1), lensize(full))), 'size of an integer')
    ex, st, p, dst = target(U)
    st.assume(ule(m, K(0xfffe)))
    num = ex.sym_obj(st, 'num', m)
    num.const = True
    for s, r in ex.call(st, P + 'write_int', [Ptr(dst), p, Ptr(num), m]):
        U.reach(s)
        t, pad, body, full, nb = int_shape(ex, s, m)
        h = addc(lensize(full), 1)

        def at(s1, k):
            g = s1.load(Ptr(dst, add(p, k)), 1)
            a = s1.fork(); a.assume(eq(k, K(0)))
            ex.require(a, eq(g, C(2, 8)), 'integer tag')
            a = s1.fork(); a.assume(ult(K(0), k)); a.assume(ult(k, h))
            ex.require(a, eq(g, lenbytes(full, addc(k, -1))), 'integer length')
            a = s1.fork(); a.assume(ule(h, k)); a.assume(eq(body, K(0)))
            ex.require(a, eq(g, C(0, 8)), 'zero')
            a = s1.fork(); a.assume(eq(k, h)); a.assume(ne(body, K(0))); a.assume(eq(pad, K(1)))
            ex.require(a, eq(g, C(0, 8)), 'sign byte')
            a = s1.fork(); a.assume(ne(body, K(0))); a.assume(ule(add(h, pad), k))
            ex.require(a, eq(g, nb(add(t, sub(k, add(h, pad))))), 'integer bytes')
        written(ex, s, dst, p, r, add(h, full), at)


def wmpz_unit(U):
    bits = UF('BITS', 64, ())
    for which in ('size', 'write', 'dumb'):
        ex, st, p, dst = target(U, WITH_MPI)
        st.assume(ule(bits, K(8 * 0xfffe)))
        z = ex.sym_obj(st, 'z', 16)
        z.const = True
        own = lambda a: T if as_ptr(a).obj is z else F

        def bl(ex, s, a):
            ex.require(s, own(a[0]), 'the integer')
            return bits

        def tst(ex, s, a):
            ex.require(s, own(a[0]), 'the integer')
            # the top bit is set
            return ite(eq(a[1], addc(bits, -1)), C(1, 32), UF('BIT', 32, (a[1],)))

        def exp(ex, s, a):
            ex.require(s, own(a[1]), 'the integer')
            ex.require(s, eq(a[3], C(1, 32)), 'big endian')
            ex.require(s, ule(lshr(addc(bits, 7), K(3)), a[2]), 'integer fits')
            size = a[2]
            log(s, Event('export', 0, n=size))
            put(ex, s, a[0], size, lambda k: UF('BYTE', 8, (sub(addc(size, -1), k),)))
        U.stub(ex, MPZ + 'bitlen', bl, which != 'dumb')
        U.stub(ex, MPZ + 'bytelen', lambda ex, s, a: lshr(addc(bits, 7), K(3)), which == 'dumb')
        U.stub(ex, MPZ + 'tstbit', tst, which != 'dumb')
        U.stub(ex, MPZ + 'export', exp, which != 'size')
        U.assume('mpz_bitlen, mpz_tstbit and mpz_export describe the magnitude of the integer')
        nbytes = lshr(addc(bits, 7), K(3))
        pad = ite(and_(ne(bits, K(0)), eq(and_(bits, K(7)), K(0))), K(1), K(0))
        body = ite(eq(bits, K(0)), K(1), nbytes)
        full = add(body, pad)
        h = addc(lensize(full), 1)
        if which == 'size':
            for s, r in ex.call(st, P + 'size_mpz', [Ptr(z)]):
                U.reach(s)
                ex.require(s, eq(r, add(h, full)), 'size of an integer')
        elif which == 'write':
            for s, r in ex.call(st, P + 'write_mpz', [Ptr(dst), p, Ptr(z)]):
                U.reach(s)

                def at(s1, k):
                    g = s1.load(Ptr(dst, add(p, k)), 1)
                    a = s1.fork(); a.assume(eq(k, K(0)))
                    ex.require(a, eq(g, C(2, 8)), 'integer tag')
                    a = s1.fork(); a.assume(ult(K(0), k)); a.assume(ult(k, h))
                    ex.require(a, eq(g, lenbytes(full, addc(k, -1))), 'integer length')
                    a = s1.fork(); a.assume(eq(k, h)); a.assume(eq(pad, K(1)))
                    ex.require(a, eq(g, C(0, 8)), 'sign byte')
                    a = s1.fork(); a.assume(ule(add(h, pad), k))
                    ex.require(a, eq(g, UF('BYTE', 8, (sub(addc(body, -1), sub(k, add(h, pad))),))), 'integer bytes')
                written(ex, s, dst, p, r, add(h, full), at)
        else:
            for s, r in ex.call(st, P + 'write_dumb', [Ptr(dst), p, Ptr(z)]):
                U.reach(s)

                def at(s1, k):
                    g = s1.load(Ptr(dst, add(p, k)), 1)
                    ex.require(s1, eq(g, ite(eq(k, K(0)), ext(nbytes, 15, 8), ite(eq(k, K(1)), ext(nbytes, 7, 0), UF(
                        'BYTE', 8, (sub(addc(nbytes, -1), addc(k, -2)),))))), 'length and bytes')
                written(ex, s, dst, p, r, addc(nbytes, 2), at)


UNITS = [('read_mpz strict', mpz_read_unit('der', 1)), ('read_mpz lenient', mpz_read_unit('der', 0)), ('read_dumb', mpz_read_unit('dumb', 0)),
         ('read_version strict', version_unit), ('write_size', wsize_unit), ('write_int', wint_unit), ('write_mpz', wmpz_unit)]
UNITS += [('read_seq strict', seq_unit(1)), ('read_seq lenient', seq_unit(0)), ('read_int strict', int_unit(1)), ('read_int lenient', int_unit(0))]
UNITS += [('read_size strict', size_unit(1)), ]
UNITS += [('read_size lenient %d' % i, size_unit(0, i)) for i in range(21)]


def der_size(b, o, strict):
    """(value, next) or None, written from X.690"""
    if o >= len(b):
        return None
    c = b[o]
    o += 1
    if c < 0x80:
        return c, o
    c &= 0x7f
    if strict and c == 0:
        return None
    v = 0
    for i in range(c):
        if o >= len(b) or v >= 1 << 24:
            return None
        v = v << 8 | b[o]
        o += 1
        if strict and v == 0:
            return None
    if strict and v < 0x80:
        return None
    return v, o


def der_int(b, o, strict, lenstrict):
    if o >= len(b) or b[o] != 2:
        return None
    r = der_size(b, o + 1, lenstrict)
    if r is None or r[0] > len(b) - r[1]:
        return None
    v = b[r[1]:r[1] + r[0]]
    if strict:
        if not v or v[0] & 0x80 or (len(v) > 1 and v[0] == 0 and v[1] < 0x80):
            return None
    return v, r[1] + r[0]


class Cur:
    def __init__(self, b):
        self.g = Guard(len(b), b) if False else ctypes.create_string_buffer(b, len(b)) if b else ctypes.create_string_buffer(1)
        self.base = ctypes.addressof(self.g)
        self.data = ctypes.c_void_p(self.base)
        self.len = ctypes.c_size_t(len(b))
        self.n = len(b)

    def args(self):
        return ctypes.byref(self.data), ctypes.byref(self.len)

    def off(self):
        o = self.data.value - self.base
        if o < 0 or o > self.n or o + self.len.value != self.n:
            raise Fail('position and remaining length disagree', offset=o, remaining=self.len.value, size=self.n)
        return o


WRAP = r"""
#include "asn1.c"
#include <stdlib.h>
int t_read_mpz(int kind, unsigned char *out, size_t *outlen, const unsigned char **data, size_t *len, int strict) {
  mpz_t n; int r;
  mpz_init(n);
  mpz_set_ui(n, 12345);
  r = kind ? asn1_read_dumb(n, data, len) : asn1_read_mpz(n, data, len, strict);
  *outlen = mpz_bytelen(n);
  mpz_export(out, n, *outlen, 1);
  mpz_clear(n);
  return r;
}
size_t t_write_mpz(int kind, unsigned char *out, size_t pos, const unsigned char *num, size_t len) {
  mpz_t n; size_t r;
  mpz_init(n);
  mpz_import(n, num, len, 1);
  r = kind == 2 ? asn1_size_mpz(n) : kind ? asn1_write_dumb(out, pos, n) : asn1_write_mpz(out, pos, n);
  mpz_clear(n);
  return r;
}
"""


def mk_len(rng, v):
    k = rng.randrange(8)
    if k == 0:
        n = rng.randrange(0, 128)
        return bytes([0x80 | n]) + (v % (1 << 8 * n) if n else 0).to_bytes(n, 'big')
    if k == 1:
        n = rng.randrange(1, 7)
        return bytes([0x80 | n]) + (v % (1 << 8 * n)).to_bytes(n, 'big')
    if v < 0x80:
        return bytes([v])
    n = (v.bit_length() + 7) // 8
    return bytes([0x80 | n]) + v.to_bytes(n, 'big')


def body(rng):
    n = rng.choice([0, 1, 1, 2, 3, 32, 33, 127, 128, 129, 255, 256, 257, rng.randrange(0, 300)])
    b = bytearray(rng.randbytes(n))
    z = rng.choice([0, 0, 0, 1, 1, 2, 5, n])
    for i in range(min(z, n)):
        b[i] = 0
    if n > z and rng.randrange(3) == 0:
        b[z] = rng.choice([0x7f, 0x80, 0xff, 1])
    return bytes(b)


def concrete(rng, budget, hints):
    lib = clib(['mpi', 'internal', 'util'], wrapper=WRAP)
    I = ctypes.c_int
    f = lambda nm, r=I: fn(lib, '_asn1_' + nm, r)
    Z = ctypes.c_size_t
    t0 = time.time()
    n = 0
    while n < 2000 or time.time() - t0 < budget:
        n += 1
        strict = rng.randrange(2)
        v = body(rng)
        claim = len(v) if rng.randrange(6) else max(0, len(v) + rng.randrange(-2, 3))
        tail = rng.randbytes(rng.choice([0, 0, 1, 7]))
        msg = (b'\2' if rng.randrange(16) else b'\3') + mk_len(rng, claim) + v + tail
        if rng.randrange(10) == 0:
            msg = msg[:rng.randrange(0, len(msg) + 1)]
        # lengths
        c = Cur(msg[1:])
        out = Z(77)
        r = f('read_size')(ctypes.byref(out), *c.args(), strict)
        w = der_size(msg, 1, strict)
        if r != (w is not None) or (w and (out.value, c.off() + 1) != w) or (not w and out.value):
            raise Fail('asn1_read_size', data=msg[1:], strict=strict, returned=r, value=out.value)
        c.off()
        # integers
        m = rng.choice([len(v), 32, max(0, len(v) - 1), len(v) + 3, 0])
        c = Cur(msg)
        g = Guard(m)
        r = f('read_int')(g.p, Z(m), *c.args(), strict)
        w = der_int(msg, 0, strict, strict)
        x = w and w[0].lstrip(b'\0')
        ok = w is not None and len(x) <= m
        if r != int(ok) or g.get() != (x.rjust(m, b'\0') if ok else bytes(m)) or not g.ok() or (ok and c.off() != w[1]):
            raise Fail('asn1_read_int', data=msg, out_len=m, strict=strict, returned=r, got=g.get())
        c.off()
        c = Cur(msg)
        g = Guard(2100)
        ol = Z(0)
        r = lib.t_read_mpz(0, g.p, ctypes.byref(ol), *c.args(), strict)
        w = der_int(msg, 0, strict, 1)
        x = w and w[0].lstrip(b'\0')
        if r != int(w is not None) or g.get()[:ol.value] != (x or b'') or (w and c.off() != w[1]):
            raise Fail('asn1_read_mpz', data=msg, strict=strict, returned=r)
        # sequences
        sm = b'\x30' + msg[1:]
        c = Cur(sm)
        r = f('read_seq')(*c.args(), strict)
        w = der_size(sm, 1, strict)
        ok = len(sm) > 0 and w is not None and (not strict or w[0] == len(sm) - w[1])
        if r != int(ok) or (ok and c.off() != w[1]):
            raise Fail('asn1_read_seq', data=sm, strict=strict, returned=r)
        # writers
        pos = rng.randrange(4)
        y = v.lstrip(b'\0')
        e = (b'\0' if not y or y[0] & 0x80 else b'') + y
        enc = b'\2' + (bytes([len(e)]) if len(e) < 128 else bytes([0x81, len(e)]) if len(e) < 256 else b'\x82' + len(e).to_bytes(2, 'big')) + e
        if f('size_int', Z)(v, Z(len(v))) != len(enc) or lib.t_write_mpz(2, None, Z(0), v, Z(len(v))) != len(enc):
            raise Fail('asn1 integer size', value=v)
        for nm, call in (('asn1_write_int', lambda g: f('write_int', Z)(g.p, Z(pos), v, Z(len(v)))),
                         ('asn1_write_mpz', lambda g: lib.t_write_mpz(0, g.p, Z(pos), v, Z(len(v))))):
            g = Guard(pos + len(enc))
            b4 = g.get()
            r = call(g)
            if r != pos + len(enc) or g.get() != b4[:pos] + enc or not g.ok():
                raise Fail(nm, value=v, got=g.get()[pos:], want=enc)
        g = Guard(2 + len(y))
        r = lib.t_write_mpz(1, g.p, Z(0), v, Z(len(v)))
        if r != 2 + len(y) or g.get() != len(y).to_bytes(2, 'big') + y or not g.ok():
            raise Fail('asn1_write_dumb', value=v)
        dm = max(0, len(v) + rng.choice([0, 0, 0, 1, -1])).to_bytes(2, 'big') + v
        c = Cur(dm)
        g = Guard(2100)
        r = lib.t_read_mpz(1, g.p, ctypes.byref(ol), *c.args(), 0)
        k = int.from_bytes(dm[:2], 'big')
        ok = k <= len(v)
        if r != int(ok) or g.get()[:ol.value] != (v[:k].lstrip(b'\0') if ok else b'') or (ok and c.off() != 2 + k):
            raise Fail('asn1_read_dumb', data=dm, returned=r)
        ver = rng.randrange(3)
        vm = rng.choice([bytes([2, 1, ver]), bytes([2, 1, ver, 9]), bytes([2, 1]), bytes([2, 2, 0, ver]), rng.randbytes(3), bytes([2, 1, ver ^ 1])])
        c = Cur(vm)
        r = f('read_version')(*c.args(), ver, strict)
        if strict:
            ok = vm[:3] == bytes([2, 1, ver])
        else:
            w = der_int(vm, 0, 0, 1)
            ok = w is not None and int.from_bytes(w[0], 'big') == ver
        if r != int(ok):
            raise Fail('asn1_read_version', data=vm, version=ver, strict=strict, returned=r)
    return n
