"""C19: signature verifiers and signers."""
import ctypes
import hashlib
import time
from .absalg import *       # noqa

SRCS = [('ecc', 'c64'), ('internal', 'c64'), ('util', 'c64'), ('asn1', 'c64')]
FILES = ['ecc', 'internal', 'util', 'drbg', 'hash', 'asn1']
WSIZES = [(32, 256, 32, 256), (66, 521, 66, 521)]
ESIZES = [(32, 255, 32, 253, 32, 8), (56, 448, 56, 446, 57, 4), (32, 251, 32, 249, 32, 4)]
LIM = K(1 << 60)


def wei(U, z, **kw):
    ex, st = U.exec(FILES)
    A = Abs(U, ex, st, *z)
    A.points()
    ec = A.curve(st, 'wei', fb=z[1], sb=z[3], **kw)
    A.ec.const = True
    n = V('n', 64)
    st.assume(ult(n, LIM))
    msg = ex.sym_obj(st, 'msg', n)
    msg.const = True
    return ex, st, A, ec, msg, n


def inp(ex, st, name, n):
    b = ex.sym_obj(st, name, n)
    b.const = True
    return b


def reduce_stub(U, ex, A, outs=None):
    def red(ex, s, a):
        reads(ex, s, a[2], a[3], 'message')
        i = sum(1 for e in s.extra or () if e.kind == 'reduce')
        p = as_ptr(a[2])
        nm = 'red(%s)' % (p.obj.name if p.obj.name in ('msg', 'priv') else 'buf%d' % i)
        log(s, Event('reduce', nm, p=p, n=a[3], chunk=Chunk(s, p, a[3])))
        A.put(s, a[1], atom(nm))
        return I(B('fits ' + nm))
    U.stub(ex, 'ecdsa_reduce', red)


def result(ex, s, r, conds, what):
    ex.require(s, eq(r, I(conj(conds))), what)


def ecdsa_verify_unit(U):
    for z in WSIZES:
        for gap in (0, 1):
            ex, st, A, ec, msg, n = wei(U, z, small_gap=gap)
            sz_ = z[2]
            m_ = V('pn', 64)
            st.assume(ult(m_, LIM))
            sig, pub = inp(ex, st, 'sig', 2 * sz_), inp(ex, st, 'pub', m_)
            reduce_stub(U, ex, A)

            def eqr(ex, s, a):
                P, x = A.pget(s, a[1]), A.get(s, a[2])
                return I(conj([not_(A.pzero(P)), A.zero(padd(atom('modn(%s)' % key(atom('x' + pkey(P)))), x, -1))]))
            U.stub(ex, 'jge_equal_r_var', eqr, need=bool(gap))
            for s, r in ex.call(st, 'torsion_ecdsa_verify', [ec, Ptr(msg), n, Ptr(sig), Ptr(pub), m_]):
                U.reach(s)
                nm = ['sig+%d:%d' % (o, sz_) for o in (0, sz_)]
                R, S = [atom('sc_int(%s)' % x) for x in nm]
                key_ = 'pub+0:len'
                si = A.inv(S)
                P = lin_((pmul(atom('red(msg)'), si), pt('G')), (pmul(R, si), pt(key_)))
                x = atom('modn(%s)' % key(atom('x' + pkey(P))))
                result(ex, s, r, [B('sc_lt(%s)' % nm[0]), B('sc_lt(%s)' % nm[1]), not_(A.zero(R)), not_(A.zero(S)),
                                  not_(A.high(S)), B('decodes(%s)' % key_), not_(A.pzero(P)), A.zero(padd(x, R, -1))],
                       'accepted exactly when r, s in range, s low, key decodes and x(m/s G + r/s A) = r')
                for e in s.extra or ():
                    if e.kind == 'reduce':
                        ex.require(s, conj([T if e.p.obj is msg else F, eq(e.p.off, K(0)), eq(e.n, n)]), 'whole message reduced')
                    if e.kind == 'point':
                        ex.require(s, eq(e.n, m_), 'key length passed on')


def equal_r_unit(U):
    for inf in (0, 1):
        for high in (0, 1):
            ex, st = U.exec(FILES)
            A = Abs(U, ex, st)
            ec = A.curve(st, 'wei', small_gap=1, high_order=high)
            A.ec.const = True
            p = ex.sym_obj(st, 'p', A.o['jge_t'][1])
            x = ex.sym_obj(st, 'x', A.o['sc_t'][1])
            for f in 'xyz':
                A.put(st, Ptr(p, A.o['jge_t.' + f][0]), atom(f.upper()))
            st.store(Ptr(p, A.o['jge_t.inf'][0]), C(inf, 32), 4)
            A.put(st, Ptr(x), atom('r'))
            for s, r in ex.call(st, 'jge_equal_r_var', [ec, Ptr(p), Ptr(x)]):
                U.reach(s)
                X, Z, fr = atom('X'), atom('Z'), atom('fe(%s)' % key(atom('r')))
                zz = pmul(Z, Z)
                first = A.zero(padd(X, pmul(fr, zz), -1))
                second = A.zero(padd(X, pmul(padd(fr, atom('n')), zz), -1))
                want = conj([F if inf else T, B('below_p(%s)' % key(atom('r'))),
                             disj([first, conj([F if high else T, A.less(atom('r'), atom('p-n')), second])])])
                ex.require(s, eq(r, I(want)), 'finite and the abscissa is r or, below p - n, r + n')


def drbg_stubs(U, ex, A, z):
    def init(ex, s, a):
        log(s, Event('seed', where(a[0]), chunk=Chunk(s, as_ptr(a[2]), a[3]), type=a[1], n=a[3]))

    def gen(ex, s, a):
        i = sum(1 for e in s.extra or () if e.kind == 'draw')
        if i:
            gen.again.append(s)
            return []
        log(s, Event('draw', where(a[0]), n=a[2]))
        put(ex, s, a[1], a[2], lambda k: UF('drawn%d' % i, 8, (k,)))
    gen.again = []
    U.stub(ex, 'torsion_hmac_drbg_init', init)
    U.stub(ex, 'torsion_hmac_drbg_generate', gen)
    return gen.again


def cleanse_stub(U, ex):
    U.stub(ex, 'torsion__cleanse' if ex.find_func('torsion__cleanse') else 'torsion_cleanse',
           lambda ex, s, a: None, False)


def sign_unit(U):
    for z in WSIZES:
        ex, st, A, ec, msg, n = wei(U, z)
        sz_ = z[2]
        ex.unroll.add('torsion__ecdsa_sign_internal')
        ex.unroll.add('torsion_ecdsa_sign_internal')
        ex.unroll.add('ecdsa_sign_internal')
        priv = inp(ex, st, 'priv', sz_)
        sig, prm = ex.sym_obj(st, 'sig', 2 * sz_), ex.sym_obj(st, 'param', 4)
        reduce_stub(U, ex, A)
        again = drbg_stubs(U, ex, A, z)
        pn = 'priv+0:%d' % sz_
        a, m, k = atom('sc_int(%s)' % pn), atom('red(msg)'), atom('red(buf1)')
        R = lin_((k, pt('G')))
        X, Y = atom('x' + pkey(R)), atom('y' + pkey(R))
        r_ = atom('modn(%s)' % key(X))
        sv = pmul(padd(pmul(r_, a), m), A.inv(k))
        good = conj([B('fits red(buf1)'), not_(A.zero(k)), not_(A.pzero(R)), not_(A.zero(r_))])
        for s, r in ex.call(st, 'torsion_ecdsa_sign', [ec, Ptr(sig), Ptr(prm), Ptr(msg), n, Ptr(priv)]):
            U.reach(s)
            ev = list(s.extra or ())
            result(ex, s, r, [B('sc_lt(%s)' % pn), not_(A.zero(a))], 'success exactly for a private key in range')
            seeds = [e for e in ev if e.kind == 'seed']
            ok = len(seeds) == 1
            ex.require(s, T if ok else F, 'one nonce generator')
            if ok:
                same_bytes(ex, s, [seeds[0].chunk], [A.enc('sc_', a), A.enc('sc_', m)], 'nonce seed')
            red = [e for e in ev if e.kind == 'reduce']
            ok = len(red) == 2 and red[0].p.obj is msg
            ex.require(s, T if ok else F, 'message, then nonce reduced')
            if ok:
                ex.require(s, eq(red[0].n, n), 'whole message')
                same_bytes(ex, s, [red[1].chunk], [Bytes(sz_, lambda i: UF('drawn0', 8, (i,)))], 'nonce')
            ex.require(s, good, 'nonce is usable')
            hi = s.decide(A.high(sv))
            if hi is not T and hi is not F:
                ex.require(s, F, 'high s decided')
                continue
            fin = padd({}, sv, -1) if hi is T else sv
            same_bytes(ex, s, [Chunk(s, Ptr(sig), K(2 * sz_))], [A.enc('sc_', r_), A.enc('sc_', fin)], 'signature')
            bit = I(A.odd(Y))
            if hi is T:
                bit = xor(bit, C(1, 32))
            ex.require(s, eq(s.load(Ptr(prm), 4), add(bit, ite(B('below_n(%s)' % key(X)), C(0, 32), C(2, 32)))), 'recovery parameter')
        ex.require(st, T if again else F, 'unusable nonces are possible')
        for s in again:
            ex.require(s, not_(good), 'another nonce only after an unusable one')


def recover_unit(U):
    for z in WSIZES:
        for high in (0, 1):
            ex, st, A, ec, msg, n = wei(U, z, high_order=high)
            sz_ = z[2]
            sig = inp(ex, st, 'sig', 2 * sz_)
            pub, pl = ex.sym_obj(st, 'pub', 1 + 2 * z[0]), ex.sym_obj(st, 'pl', 8)
            par, cmp_ = V('par', 32), V('compact', 32)
            reduce_stub(U, ex, A)

            def set_x(ex, s, a):
                nm = 'at(%s)' % key(A.get(s, a[2]))
                log(s, Event('lift', 0, sign=a[3], nm=nm))
                A.pput(s, a[1], 'wge_t', pt(nm))
                return I(B('lifts ' + nm))

            def zero(ex, s, a):
                A.pput(s, a[1], 'wge_t', {})

            def export(ex, s, a):
                P = A.pget(s, a[3])
                log(s, Event('out', 0, P=P, p=as_ptr(a[1]), l=as_ptr(a[2]), c=a[4]))
                return I(not_(A.pzero(P)))
            U.stub(ex, 'wge_set_x', set_x)
            U.stub(ex, 'wge_zero', zero)
            U.stub(ex, 'wge_export', export)
            nm = ['sig+%d:%d' % (o, sz_) for o in (0, sz_)]
            R, S = [atom('sc_int(%s)' % x) for x in nm]
            for s, r in ex.call(st, 'torsion_ecdsa_recover', [ec, Ptr(pub), Ptr(pl), Ptr(msg), n, Ptr(sig), par, cmp_]):
                U.reach(s)
                ev = list(s.extra or ())
                hi = s.decide(ule(C(2, 32), par))
                base = [B('sc_lt(%s)' % nm[0]), B('sc_lt(%s)' % nm[1]), not_(A.zero(R)), not_(A.zero(S)), not_(A.high(S)),
                        B('below_p(%s)' % key(R))]
                fr = atom('fe(%s)' % key(R))
                opts = []
                for h in (0, 1):
                    x = padd(fr, atom('n')) if h else fr
                    Q = pt('at(%s)' % key(x))
                    ri = A.inv(R)
                    P = lin_((padd({}, pmul(atom('red(msg)'), ri), -1), pt('G')), (pmul(S, ri), Q))
                    ok = conj([ule(C(2, 32), par) if h else ult(par, C(2, 32)), B('lifts at(%s)' % key(x)),
                               not_(A.pzero(P))] + ([F if high else T, A.less(R, atom('p-n'))] if h else []))
                    opts.append((ok, P))
                ex.require(s, eq(r, I(conj(base + [disj([o[0] for o in opts])]))), 'success exactly when a key is recovered')
                outs = [e for e in ev if e.kind == 'out']
                ok = len(outs) == 1 and outs[0].p.obj is pub and outs[0].l.obj is pl
                ex.require(s, T if ok else F, 'one key returned')
                if ok:
                    ex.require(s, eq(outs[0].c, cmp_), 'requested form')
                    s2 = s.fork()
                    s2.assume(ne(r, C(0, 32)))
                    ex.require(s2, disj([o[0] for o in opts if pkey(o[1]) == pkey(outs[0].P)] or [F]), 'the key is (s R - m G) / r')
                for e in ev:
                    if e.kind == 'lift':
                        ex.require(s, eq(eq(e.sign, C(0, 32)), eq(and_(par, C(1, 32)), C(0, 32))), 'parity of the nonce point')
                        ex.require(s, ule(e.sign, C(1, 32)), 'parity is a bit')
                    if e.kind == 'reduce':
                        ex.require(s, conj([T if e.p.obj is msg else F, eq(e.n, n)]), 'whole message')


def challenge_stub(U, ex, A, name, args):
    """args: check(ex, s, a) of the byte arguments"""
    def ch(ex, s, a):
        log(s, Event('challenge', 0, a=a, chunks=args(s, a)))
        A.put(s, a[1], atom('e'))
    U.stub(ex, name, ch)


def bip340_verify_unit(U):
    for z in WSIZES:
        ex, st, A, ec, msg, n = wei(U, z)
        fs, ss = z[0], z[2]
        sig, pub = inp(ex, st, 'sig', fs + ss), inp(ex, st, 'pub', fs)
        challenge_stub(U, ex, A, 'bip340_hash_challenge',
                       lambda s, a: [Chunk(s, as_ptr(a[2]), K(fs)), Chunk(s, as_ptr(a[3]), K(fs)), Chunk(s, as_ptr(a[4]), a[5])])
        rn, sn, pn = 'sig+0:%d' % fs, 'sig+%d:%d' % (fs, ss), 'even pub+0:%d' % fs
        P = lin_((atom('sc_int(%s)' % sn), pt('G')), (pmul(num(-1), atom('e')), pt(pn)))
        for s, r in ex.call(st, 'torsion_bip340_verify', [ec, Ptr(msg), n, Ptr(sig), Ptr(pub)]):
            U.reach(s)
            result(ex, s, r, [B('fe_lt(%s)' % rn), B('sc_lt(%s)' % sn), B('decodes(%s)' % pn), not_(A.pzero(P)),
                              not_(A.odd(atom('y' + pkey(P)))), A.zero(padd(atom('x' + pkey(P)), atom('fe_int(%s)' % rn), -1))],
                   'accepted exactly when r, s in range, the key lifts and s G - e A is finite, even and has abscissa r')
            for e in s.extra or ():
                if e.kind == 'challenge':
                    same_bytes(ex, s, e.chunks, [Bytes(fs, lambda i: UF('m:sig', 8, (i,))), Bytes(fs, lambda i: UF('m:pub', 8, (i,))),
                                                 Bytes(n, lambda i: UF('m:msg', 8, (i,)))], 'challenge input')


def schnorr_verify_unit(U):
    for z in WSIZES:
        ex, st, A, ec, msg, n = wei(U, z)
        fs, ss = z[0], z[2]
        m_ = V('pn', 64)
        st.assume(ult(m_, LIM))
        sig, pub = inp(ex, st, 'sig', fs + ss), inp(ex, st, 'pub', m_)
        challenge_stub(U, ex, A, 'bipschnorr_hash_challenge',
                       lambda s, a: [Chunk(s, as_ptr(a[2]), K(fs)), Chunk(s, as_ptr(a[3]), K(fs + 1)), Chunk(s, as_ptr(a[4]), a[5])])

        def export(ex, s, a):
            P = A.pget(s, a[3])
            ex.require(s, eq(a[4], C(1, 32)), 'compressed key')
            A.pexp(s, a[1], P, fs + 1, 'cenc')
            s.assume(not_(A.pzero(P)))
            return C(1, 32)
        U.stub(ex, 'wge_export', export)
        U.assume('a decoded point is finite: proved in C18')
        U.stub(ex, 'jge_is_square_var', lambda ex, s, a: I(B('sq' + pkey(A.pget(s, a[1])))))
        U.stub(ex, 'jge_equal_x', lambda ex, s, a: I(conj([not_(A.pzero(A.pget(s, a[1]))),
                                                          A.zero(padd(atom('ax' + pkey(A.pget(s, a[1]))), A.get(s, a[2]), -1))])))
        rn, sn, pn = 'sig+0:%d' % fs, 'sig+%d:%d' % (fs, ss), 'pub+0:len'
        P = lin_((atom('sc_int(%s)' % sn), pt('G')), (pmul(num(-1), atom('e')), pt(pn)))
        for s, r in ex.call(st, 'torsion_bipschnorr_verify', [ec, Ptr(msg), n, Ptr(sig), Ptr(pub), m_]):
            U.reach(s)
            result(ex, s, r, [B('fe_lt(%s)' % rn), B('sc_lt(%s)' % sn), B('decodes(%s)' % pn), not_(A.pzero(P)),
                              B('sq' + pkey(P)), A.zero(padd(atom('ax' + pkey(P)), atom('fe_int(%s)' % rn), -1))],
                   'accepted exactly when r, s in range, the key decodes and s G - e A has a square ordinate and abscissa r')
            for e in s.extra or ():
                if e.kind == 'challenge':
                    same_bytes(ex, s, e.chunks, [Bytes(fs, lambda i: UF('m:sig', 8, (i,))),
                                                 Bytes(fs + 1, lambda i: UF('cenc:' + pkey(pt(pn)), 8, (i,))),
                                                 Bytes(n, lambda i: UF('m:msg', 8, (i,)))], 'challenge input')


def edw(U, z):
    ex, st = U.exec(FILES)
    A = Abs(U, ex, st, *z[:5])
    A.h = z[5]
    A.points('xge_t')
    ec = A.curve(st, 'edwards', fb=z[1], sb=z[3], h=z[5])
    A.ec.const = True
    n, cn, ph = V('n', 64), V('cn', 64), V('ph', 32)
    st.assume(ult(n, LIM))
    st.assume(ult(cn, LIM))
    msg, ctx = inp(ex, st, 'msg', n), inp(ex, st, 'ctx', cn)

    def args(s, a):
        ex.require(s, conj([eq(a[6], ph), T if as_ptr(a[7]).obj is ctx else F, eq(as_ptr(a[7]).off, K(0)), eq(a[8], cn)]), 'context passed on')
        return [Chunk(s, as_ptr(a[2]), K(z[4])), Chunk(s, as_ptr(a[3]), K(z[4])), Chunk(s, as_ptr(a[4]), a[5])]
    challenge_stub(U, ex, A, 'eddsa_hash_challenge', args)
    return ex, st, A, ec, msg, n, ctx, cn, ph


def eddsa_verify_unit(single):
    def unit(U):
        for z in ESIZES:
            ex, st, A, ec, msg, n, ctx, cn, ph = edw(U, z)
            adj, ss, h = z[4], z[2], z[5]
            sig, pub = inp(ex, st, 'sig', 2 * adj), inp(ex, st, 'pub', adj)
            rn, sn, pn = 'sig+0:%d' % adj, 'sig+%d:%d' % (adj, ss), 'pub+0:%d' % adj
            f = 'torsion_eddsa_verify' + ('_single' if single else '')
            c = num(h if single else 1)
            D = lin_((pmul(c, atom('sc_int(%s)' % sn)), pt('G')), (pmul(padd({}, c, -1), atom('e')), pt(pn)), (padd({}, c, -1), pt(rn)))
            for s, r in ex.call(st, f, [ec, Ptr(msg), n, Ptr(sig), Ptr(pub), ph, Ptr(ctx), cn]):
                U.reach(s)
                cs = [B('decodes(%s)' % rn), B('decodes(%s)' % pn), B('sc_lt(%s)' % sn), A.pzero(D)]
                if z[1] % 8 == 0:
                    cs.append(eq(UF('m:sig', 8, (K(adj + z[0]),)), C(0, 8)))
                result(ex, s, r, cs, 'accepted exactly when R and A decode, s is in range and the group equation holds')
                for e in s.extra or ():
                    if e.kind == 'challenge':
                        same_bytes(ex, s, e.chunks, [Bytes(adj, lambda i: UF('m:sig', 8, (i,))), Bytes(adj, lambda i: UF('m:pub', 8, (i,))),
                                                     Bytes(n, lambda i: UF('m:msg', 8, (i,)))], 'challenge input')
    return unit


def eddsa_sign_unit(U):
    for z in ESIZES:
        ex, st, A, ec, msg, n, ctx, cn, ph = edw(U, z)
        adj, ss = z[4], z[2]
        sig = ex.sym_obj(st, 'sig', 2 * adj)
        scal, pre = inp(ex, st, 'scalar', ss), inp(ex, st, 'prefix', adj)

        def nonce(ex, s, a):
            ex.require(s, conj([T if as_ptr(a[2]).obj is pre and as_ptr(a[3]).obj is msg and as_ptr(a[6]).obj is ctx else F,
                                eq(a[4], n), eq(a[5], ph), eq(a[7], cn)]), 'nonce input')
            A.put(s, a[1], atom('k'))

        def red(ex, s, a):
            ex.require(s, T if as_ptr(a[2]).obj is scal else F, 'secret scalar')
            A.put(s, a[1], atom('a'))
            return V('reduced', 32)
        U.stub(ex, 'eddsa_hash_nonce', nonce)
        U.stub(ex, 'sc_import_reduce', red)
        for s, r in ex.call(st, 'torsion_eddsa_sign_with_scalar', [ec, Ptr(sig), Ptr(msg), n, Ptr(scal), Ptr(pre), ph, Ptr(ctx), cn]):
            U.reach(s)
            R, P = lin_((atom('k'), pt('G'))), lin_((atom('a'), pt('G')))
            ch = [e for e in s.extra or () if e.kind == 'challenge']
            ex.require(s, T if len(ch) == 1 else F, 'one challenge')
            er, ea = Bytes(adj, lambda i: UF('enc:' + pkey(R), 8, (i,))), Bytes(adj, lambda i: UF('enc:' + pkey(P), 8, (i,)))
            for e in ch:
                same_bytes(ex, s, e.chunks, [er, ea, Bytes(n, lambda i: UF('m:msg', 8, (i,)))], 'challenge input')
            want = [er, A.enc('sc_', padd(pmul(atom('e'), atom('a')), atom('k')))]
            if z[1] % 8 == 0:
                want.append(Bytes(1, lambda i: C(0, 8)))
            same_bytes(ex, s, [Chunk(s, Ptr(sig), K(adj + ss + (z[1] % 8 == 0)))], want, 'signature')


def hash_challenge_unit(U):
    """eddsa_hash_challenge and eddsa_hash_nonce down to the hash interface"""
    for z in ESIZES[:2]:
        for fnm in ('eddsa_hash_challenge', 'eddsa_hash_nonce'):
            for context in (0, 1):
                ex, st = U.exec(FILES)
                A = Abs(U, ex, st, *z[:5])
                ec = A.curve(st, 'edwards', fb=z[1], sb=z[3], context=context)
                hid = V('hid', 32)
                st.store(A.at('hash'), hid, 4)
                pl = V('pl', 64)
                st.assume(ult(pl, LIM))
                pre = inp(ex, st, 'dom', pl)
                st.store(A.at('prefix'), Ptr(pre), 8)
                st.store(A.at('prefix_len'), pl, 8)
                A.ec.const = True
                Hash(U, ex, A.o['hash_t'][1], V('hs', 64), V('bs', 64))
                n, cn, ph = V('n', 64), V('cn', 64), V('ph', 32)
                st.assume(ult(n, LIM))
                st.assume(ult(cn, LIM))
                msg, ctx = inp(ex, st, 'msg', n), inp(ex, st, 'ctx', cn)
                R, P = inp(ex, st, 'R', z[4]), inp(ex, st, 'P', z[4])
                e_ = ex.sym_obj(st, 'e', A.o['sc_t'][1])

                def wide(ex, s, a):
                    log(s, Event('wide', 0, chunk=Chunk(s, as_ptr(a[2]), a[3]), out=as_ptr(a[1]).obj))
                    A.put(s, a[1], atom('e'))
                    return V('w', 32)
                U.stub(ex, 'sc_import_wide', wide)
                args = [ec, Ptr(e_)] + ([Ptr(R), Ptr(P)] if 'chal' in fnm else [Ptr(R)]) + [Ptr(msg), n, ph, Ptr(ctx), cn]
                for s, r in ex.call(st, fnm, args):
                    U.reach(s)
                    ev = list(s.extra or ())
                    fin = [i for i, e in enumerate(ev) if e.kind == 'final']
                    w = [e for e in ev if e.kind == 'wide']
                    ok = len(fin) == 1 and len(w) == 1 and w[0].out is e_
                    seq = sequence(ev, fin[0]) if ok else []
                    ok = ok and seq and seq[0].kind == 'init'
                    ex.require(s, T if ok else F, 'one digest, reduced to the scalar')
                    if not ok:
                        continue
                    ex.require(s, eq(seq[0].type, hid), 'hash of the curve')
                    same_bytes(ex, s, [w[0].chunk], [Bytes(2 * z[4], lambda k: UF(ev[fin[0]].name, 8, (k,)))], 'reduced digest')
                    c2 = ite(ult(K(255), cn), K(255), cn)
                    dom = disj([T if context else F, ne(ph, C(0xffffffff, 32)), ne(cn, K(0))])
                    d = s.decide(dom)
                    flag = ite(and_(slt(C(0, 32), ph), T), C(1, 8), C(0, 8))
                    want = []
                    if d is T:
                        want = [Bytes(pl, lambda i: UF('m:dom', 8, (i,))), Bytes(1, lambda i: flag), Bytes(1, lambda i: ext(c2, 7, 0)),
                                Bytes(c2, lambda i: UF('m:ctx', 8, (i,)))]
                    elif d is not F:
                        ex.require(s, F, 'domain separation decided')
                    want.append(Bytes(z[4], lambda i: UF('m:R', 8, (i,))))
                    if 'chal' in fnm:
                        want.append(Bytes(z[4], lambda i: UF('m:P', 8, (i,))))
                    want.append(Bytes(n, lambda i: UF('m:msg', 8, (i,))))
                    same_bytes(ex, s, [q.chunk for q in seq[1:]], want, 'hashed')


def low_s_unit(U):
    for z in WSIZES:
        sz_ = z[2]
        nm = ['sig+%d:%d' % (o, sz_) for o in (0, sz_)]
        ex, st, A, ec, msg, n = wei(U, z)
        sig = inp(ex, st, 'sig', 2 * sz_)
        R, S = [atom('sc_int(%s)' % x) for x in nm]
        lt = [B('sc_lt(%s)' % x) for x in nm]
        for s, r in ex.call(st.fork(), 'torsion_ecdsa_is_low_s', [ec, Ptr(sig)]):
            U.reach(s)
            result(ex, s, r, lt + [not_(A.high(S))], 'low exactly when in range and not high')
        out = ex.sym_obj(st, 'out', 2 * sz_)
        for s, r in ex.call(st, 'torsion_ecdsa_sig_normalize', [ec, Ptr(out), Ptr(sig)]):
            U.reach(s)
            result(ex, s, r, lt, 'normalised exactly when in range')
            hi = s.decide(A.high(S))
            same_bytes(ex, s, [Chunk(s, Ptr(out), K(2 * sz_))], [A.enc('sc_', R), A.enc('sc_', padd({}, S, -1) if hi is T else S)], 'normalised')


def der_unit(U):
    """strict and lax DER signatures over the reader contracts of C13"""
    for z in WSIZES:
        for fnm, strict in (('torsion_ecdsa_sig_import', 1), ('torsion_ecdsa_sig_import_lax', 0)):
            ex, st, A, ec, msg, n = wei(U, z)
            sz_ = z[2]
            out = ex.sym_obj(st, 'out', 2 * sz_)
            step = [0]

            def rd(kind):
                def f(ex, s, a):
                    i = len(s.extra or ())
                    dp, dl, sf = (a[0], a[1], a[2]) if kind == 'seq' else (a[2], a[3], a[4])
                    left = s.load(as_ptr(dl), 8)
                    log(s, Event(kind, 0, strict=sf, left=left))
                    s.store(as_ptr(dl), V('left%d' % i, 64), 8)
                    if kind == 'int':
                        ex.require(s, eq(a[1], K(sz_)), 'integer size')
                        put(ex, s, a[0], K(sz_), lambda k: UF('int%d' % i, 8, (k,)))
                    return I(B('%s%d' % (kind, i)))
                return f
            U.stub(ex, 'torsion__asn1_read_seq', rd('seq'))
            U.stub(ex, 'torsion__asn1_read_int', rd('int'))
            for s, r in ex.call(st, fnm, [ec, Ptr(out), Ptr(msg), n]):
                U.reach(s)
                ev = list(s.extra or ())
                rds = [e for e in ev if e.kind in ('seq', 'int')]
                imps = [e for e in ev if e.kind == 'import']
                for i, e in enumerate(rds):
                    ex.require(s, conj([eq(e.strict, C(strict, 32)), eq(e.left, n if i == 0 else V('left%d' % (i - 1), 64))]), 'strictness and remaining length')
                kinds = [e.kind for e in rds]
                ex.require(s, T if kinds == ['seq', 'int', 'int'][:len(kinds)] else F, 'sequence of two integers')
                for i, e in enumerate(imps):
                    same_bytes(ex, s, [e.chunk], [Bytes(sz_, lambda k, i=i: UF('int%d' % (i + 1), 8, (k,)))], 'imported integer')
                conds = [B('seq0'), B('int1'), B('int2')] + ([eq(V('left2', 64), K(0))] if strict else [])
                conds += [B('sc_lt(%s)' % e.key) for e in imps] if len(imps) == 2 else [F]
                result(ex, s, r, conds, 'accepted exactly for two integers in range' + (' without trailing data' if strict else ''))
                if len(imps) == 2 and s.decide(eq(r, C(1, 32))) is T:
                    same_bytes(ex, s, [Chunk(s, Ptr(out), K(2 * sz_))], [A.enc('sc_', atom('sc_int(%s)' % e.key)) for e in imps], 'signature')


UNITS = [('ecdsa_verify', ecdsa_verify_unit), ('jge_equal_r_var', equal_r_unit), ('ecdsa_sign', sign_unit), ('ecdsa_recover', recover_unit),
         ('bip340_verify', bip340_verify_unit), ('bipschnorr_verify', schnorr_verify_unit), ('eddsa_verify', eddsa_verify_unit(False)),
         ('eddsa_verify_single', eddsa_verify_unit(True)), ('eddsa_sign_with_scalar', eddsa_sign_unit), ('eddsa hashing', hash_challenge_unit),
         ('low s', low_s_unit), ('DER signatures', der_unit)]


def concrete(rng, budget, hints):
    from . import c17
    from .eccoracle import W, Ed, bip340_verify
    t0, cnt = time.time(), 0
    libs = [c17.Lib('c64'), c17.Lib('c32')]
    V_, I_ = ctypes.c_void_p, ctypes.c_int
    ws, es = [W(i) for i in range(6)], [Ed(0), Ed(1)]
    bb = lambda v, n: (v & ((1 << 8 * n) - 1)).to_bytes(n, 'big')

    def pub_of(L, c, k):
        out, ol = Guard(1 + 2 * c.fs), ctypes.c_size_t(0)
        fn(L.lib, 'ecdsa_pubkey_create', I_)(V_(L.wei[c.i]), out.p, ctypes.byref(ol), bb(k, c.ss), I_(0))
        return c.decode(out.get())

    for c in ws:
        c.G = pub_of(libs[0], c, 1)
        if c.G is None or c.lin((c.n, c.G)) is not None or c.lin((2, c.G)) is None:
            raise Fail('%s: generator' % c.name, curve=c.name)
    ec_pub = {}
    for e in es:
        out = Guard(e.adj)
        fn(libs[0].lib, 'eddsa_pubkey_from_scalar', None)(V_(libs[0].edw[e.i]), out.p, (1).to_bytes(e.fs, 'little'))
        e.G = e.decode(out.get())
        if e.G is None or e.lin((e.n, e.G)) != (0, 1) or e.lin((e.h, e.G)) == (0, 1):
            raise Fail('%s: generator' % e.name, curve=e.name)
    while cnt < 60 or time.time() - t0 < budget:
        L = libs[cnt % 2]
        c = rng.choice(ws)
        ec = V_(L.wei[c.i])
        n, ss = c.n, c.ss
        msg = rng.randbytes(rng.choice([0, 1, 20, 32, ss - 1, ss, ss + 1, 64, 80]))
        if not rng.randrange(6):
            msg = bytes(ss)
        kind = rng.randrange(5)
        par = None
        if kind < 2:
            k = rng.choice([1, 2, n - 1, rng.randrange(1, n), rng.randrange(1, n)])
            A = c.lin((k, c.G))
            sig, prm = Guard(2 * ss), ctypes.c_uint(0)
            r = fn(L.lib, 'ecdsa_sign', I_)(ec, sig.p, ctypes.byref(prm), msg, sz(len(msg)), bb(k, ss))
            sig, par = sig.get(), prm.value
            if r != 1 or not c.verify(c.G, msg, sig, c.encode(A, 4)) or c.recover(c.G, msg, sig, par) != A:
                raise Fail('%s: signature does not verify or recover' % c.name, curve=c.name, key=bb(k, ss), message=msg, signature=sig, param=par, config=L.config)
        else:
            # a valid signature made from its nonce point, with large abscissas where they exist
            while 1:
                x = rng.randrange(c.p)
                if c.p > n and rng.randrange(2):
                    x = n + rng.randrange(1, c.p - n)
                R = c.lift(x, rng.randrange(2))
                if R and x % n:
                    break
            r_, s_ = x % n, rng.randrange(1, n // 2 + 1)
            if rng.randrange(6) == 0:
                s_ = n // 2
            w = pow(r_, -1, n)
            A = c.lin((-c.reduce(msg) * w, c.G), (s_ * w, R))
            if A is None:
                continue
            sig, par = bb(r_, ss) + bb(s_, ss), (R[1] & 1) | (2 if x >= n else 0)
        rv, sv = int.from_bytes(sig[:ss], 'big'), int.from_bytes(sig[ss:], 'big')
        alt = rng.choice([None, None, None, 'high', 'r0', 's0', 'rn', 'sn', 'r+n', 's+n', 'bit', 'msg', 'half', 'key', 'neg'])
        pub = c.encode(A, rng.choice([2, 4, 6]))
        if alt == 'high':
            sv = n - sv
        elif alt in ('r0', 's0', 'rn', 'sn'):
            v = 0 if alt[1] == '0' else n
            rv, sv = (v, sv) if alt[0] == 'r' else (rv, v)
        elif alt == 'r+n' and (rv + n).bit_length() <= 8 * ss:
            rv += n
        elif alt == 's+n' and (sv + n).bit_length() <= 8 * ss:
            sv += n
        elif alt == 'half':
            sv = n // 2 + 1
        elif alt == 'msg':
            msg = msg + b'x' if rng.randrange(2) else rng.randbytes(ss)
        elif alt == 'key':
            b = bytearray(pub)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            pub = bytes(b)
        elif alt == 'neg':
            pub = c.encode((A[0], -A[1] % c.p), 2)
        sig = bb(rv, ss) + bb(sv, ss)
        if alt == 'bit':
            b = bytearray(sig)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            sig = bytes(b)
        ctx = dict(curve=c.name, message=msg, signature=sig, key=pub, change=str(alt), config=L.config)
        got, want = fn(L.lib, 'ecdsa_verify', I_)(ec, msg, sz(len(msg)), sig, pub, sz(len(pub))), c.verify(c.G, msg, sig, pub)
        if got != want:
            raise Fail('%s: ECDSA verification returned %d, defined %d' % (c.name, got, want), ctx)
        pr = rng.choice([par, par, par ^ 1, par ^ 2, rng.randrange(4)])
        out, ol = Guard(1 + 2 * c.fs), ctypes.c_size_t(0)
        got = fn(L.lib, 'ecdsa_recover', I_)(ec, out.p, ctypes.byref(ol), msg, sz(len(msg)), sig, ctypes.c_uint(pr), I_(0))
        P = c.recover(c.G, msg, sig, pr)
        if got != int(P is not None) or (P and out.get() != c.encode(P, 4)):
            raise Fail('%s: recovery' % c.name, dict(ctx, param=pr))
        low = fn(L.lib, 'ecdsa_is_low_s', I_)(ec, sig)
        ri, si = int.from_bytes(sig[:ss], 'big'), int.from_bytes(sig[ss:], 'big')
        if low != int(ri < n and si <= n // 2):
            raise Fail('%s: low s test' % c.name, ctx)
        # DER
        if ri < n and si < n:
            der, dl = Guard(2 * ss + 16), ctypes.c_size_t(0)
            fn(L.lib, 'ecdsa_sig_export', I_)(ec, der.p, ctypes.byref(dl), sig)
            def di(v):
                b = v.to_bytes(max((v.bit_length() + 8) // 8, 1), 'big')
                return b'\x02' + bytes([len(b)]) + b
            body = di(ri) + di(si)
            want = b'\x30' + (bytes([len(body)]) if len(body) < 128 else b'\x81' + bytes([len(body)])) + body
            if der.get()[:dl.value] != want:
                raise Fail('%s: DER signature' % c.name, dict(ctx, der=der.get()[:dl.value], want=want))
            for bad, d in ((0, want), (1, want + b'\0'), (1, want[:-1]), (1, want[:2] + b'\x03' + want[3:])):
                o2 = Guard(2 * ss)
                r = fn(L.lib, 'ecdsa_sig_import', I_)(ec, o2.p, d, sz(len(d)))
                if r != 1 - bad or (r and o2.get() != sig):
                    raise Fail('%s: DER signature import' % c.name, dict(ctx, der=d))
        # BIP340
        c = ws[5]
        ec = V_(L.wei[5])
        k = rng.choice([1, rng.randrange(1, c.n)])
        A = c.lin((k, c.G))
        sig, msg, pub = Guard(64), rng.randbytes(rng.choice([32, 32, 0, 33, 100])), bb(A[0], 32)
        if fn(L.lib, 'bip340_sign', I_)(ec, sig.p, msg, sz(len(msg)), bb(k, 32), rng.choice([None, rng.randbytes(32)])) != 1 or \
                not bip340_verify(c, c.G, msg, sig.get(), pub):
            raise Fail('BIP340 signature does not verify', key=bb(k, 32), message=msg, signature=sig.get(), config=L.config)
        sig = sig.get()
        rv, sv = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
        alt = rng.randrange(7)
        if alt == 1:
            sv = c.n - sv
        elif alt == 2:
            sv, rv = rng.choice([(c.n, rv), (0, rv), (sv, c.p), (sv, 0), (sv, c.p + 1), (2**256 - 1, rv)])
        elif alt == 3:
            msg = msg + b'x'
        elif alt == 4:
            # nonce point with odd ordinate or at infinity
            from .eccoracle import tagged
            t = rng.randrange(1, c.n)
            R = c.lin((t, c.G))
            kk = k if A[1] % 2 == 0 else c.n - k
            rv = R[0]
            e_ = int.from_bytes(tagged(b'BIP0340/challenge', bb(rv, 32) + pub + msg), 'big')
            sv = (t + e_ * kk) % c.n if rng.randrange(3) else e_ * kk % c.n
        elif alt == 5:
            pub = bb(int.from_bytes(pub, 'big') ^ 1 << rng.randrange(256), 32)
        sig = bb(rv, 32) + bb(sv, 32)
        got, want = fn(L.lib, 'bip340_verify', I_)(ec, msg, sz(len(msg)), sig, pub), bip340_verify(c, c.G, msg, sig, pub)
        if got != want:
            raise Fail('BIP340 verification returned %d, defined %d' % (got, want), message=msg, signature=sig, key=pub, config=L.config)
        # EdDSA
        e = rng.choice(es)
        ec = V_(L.edw[e.i])
        priv, msg = rng.randbytes(e.adj), rng.randbytes(rng.choice([0, 1, 32, 100]))
        ph = rng.choice([-1, -1, 0, 1])
        cx = rng.randbytes(rng.choice([0, 0, 1, 255]))
        pub, sig = Guard(e.adj), Guard(2 * e.adj)
        fn(L.lib, 'eddsa_pubkey_create', None)(ec, pub.p, priv)
        fn(L.lib, 'eddsa_sign', None)(ec, sig.p, msg, sz(len(msg)), priv, I_(ph), cx, sz(len(cx)))
        pub, sig = pub.get(), sig.get()
        if not e.verify(e.G, msg, sig, pub, ph, cx):
            raise Fail('%s: signature does not verify' % e.name, key=priv, message=msg, ph=ph, context=cx, signature=sig, config=L.config)
        alt = rng.randrange(9)
        s_ = int.from_bytes(sig[e.adj:], 'little')
        if alt == 1:
            s_ = s_ + e.n * rng.choice([1, 1, 2, 3])
        elif alt == 2:
            s_ = rng.choice([0, e.n, e.n - s_, 1 << (8 * e.adj - 1) | s_])
        elif alt == 3:
            msg += b'x'
        elif alt == 4:
            pub = e.encode(e.lin((1, e.decode(pub)), (1, (0, e.p - 1))))
        elif alt == 5:
            # key or nonce of small order
            pub = rng.choice([e.encode((0, 1)), e.encode((0, e.p - 1)), (e.p + 1).to_bytes(e.adj, 'little')])
            sig = e.encode(e.lin((s_, e.G))) + sig[e.adj:]
        elif alt == 6:
            cx = cx[:-1] if cx else b'c'
        elif alt == 7:
            sig = e.encode(e.lin((1, e.decode(sig[:e.adj])), (1, (0, e.p - 1)))) + sig[e.adj:]
        sig = sig[:e.adj] + (s_ & ((1 << 8 * e.adj) - 1)).to_bytes(e.adj, 'little')
        if alt == 8:
            b = bytearray(sig)
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            sig = bytes(b)
        for nm, single in (('eddsa_verify', False), ('eddsa_verify_single', True)):
            got, want = fn(L.lib, nm, I_)(ec, msg, sz(len(msg)), sig, pub, I_(ph), cx, sz(len(cx))), e.verify(e.G, msg, sig, pub, ph, cx, single)
            if got != want:
                raise Fail('%s: %s returned %d, defined %d' % (e.name, nm, got, want), message=msg, signature=sig, key=pub, ph=ph, context=cx, config=L.config)
        cnt += 1
    return cnt
