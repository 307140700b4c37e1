"""C18: decoding and encoding of points."""
import time
from .absalg import *       # noqa

SRCS = [('ecc', 'c64'), ('internal', 'c64'), ('util', 'c64')]
FILES = ['ecc', 'internal', 'util']
WSIZES = [(28, 224, 28, 224), (32, 256, 32, 256), (66, 521, 66, 521)]
ESIZES = [(32, 255, 32, 253, 32), (56, 448, 56, 446, 57), (32, 251, 32, 249, 32)]


def curve(U, z, kind, a=None, **kw):
    ex, st = U.exec(FILES)
    A = Abs(U, ex, st, *z)
    ec = A.curve(st, kind, fb=z[1], sb=z[3], **kw)
    A.a = atom('A')
    if a is not None:
        A.a = num(a)
        A.put(st, A.at('a'), num(a))
        f = {0: 'zero_a', -3: 'three_a', 1: 'one_a', -1: 'mone_a'}[a]
        if f not in kw:
            st.store(A.at(f), C(1, 32), 4)
    if kind == 'edwards':
        st.store(Ptr(A.ec, A.o['edwards_t.fe'][0] + A.o['prime_field_t.scmul_d'][0]), K(0), 8)
    A.ec.const = True
    return ex, st, A, ec


def coord(A, s, obj, T_, f):
    return A.get(s, Ptr(obj, A.o[T_ + '.' + f][0]))


def same(ex, s, A, obj, T_, want, what):
    ok = all(key(coord(A, s, obj, T_, f)) == key(v) for f, v in want.items())
    ex.require(s, T if ok else F, what)


def rhs_w(A, x):
    return padd(padd(pmul(x, pmul(x, x)), pmul(A.a, x)), atom('B'))


def lifted(ex, s, A, r, obj, x, sign, h, base, what):
    """obj holds the point with abscissa x and the given parity; r tells whether it exists and base holds"""
    y2 = rhs_w(A, x)
    root = atom(A.root(y2))
    exists = conj([B('square(%s)' % key(y2))] + ([not_(conj([A.zero(root), sign]))] if h > 1 else []))
    ex.require(s, eq(r, I(conj(base + [exists]))), what + ': success exactly for canonical abscissas on the curve')
    s2 = s.fork()
    s2.assume(ne(r, C(0, 32)))
    if s2.decide(eq(r, C(0, 32))) is T or s.decide(eq(r, C(0, 32))) is T:
        return
    flip = s2.decide(A.odd(root))
    want = s2.decide(sign)
    ok = flip in (T, F) and want in (T, F)
    if not ok:
        # both parities on this path: the code took the same branch for both
        g = key(coord(A, s, obj, 'wge_t', 'y'))
        same_ = or_(conj([A.odd(root), sign]), conj([not_(A.odd(root)), not_(sign)]))
        ex.require(s2, same_ if g == key(root) else not_(same_) if g == key(padd({}, root, -1)) else F, what + ': requested parity')
    else:
        y = root if flip is want else padd({}, root, -1)
        same(ex, s2, A, obj, 'wge_t', {'y': y}, what + ': requested parity')
    same(ex, s2, A, obj, 'wge_t', {'x': x}, what + ': abscissa')
    ex.require(s2, eq(s2.load(Ptr(obj, A.o['wge_t.inf'][0]), 4), C(0, 32)), what + ': finite')


def imports(s):
    return [e for e in s.extra or () if e.kind == 'import']


def wimport_unit(a):
    def unit(U):
        for z in WSIZES:
            for h in ((1, 4) if z[0] == 32 else (1,)):
                ex, st, A, ec = curve(U, z, 'wei', a, h=h)
                fs = z[0]
                n = V('n', 64)
                st.assume(ult(n, K(1 << 60)))
                raw = ex.sym_obj(st, 'raw', n)
                raw.const = True
                r_ = ex.sym_obj(st, 'r', A.o['wge_t'][1])
                form = UF('m:raw', 8, (K(0),))
                got = set()
                for s, r in ex.call(st, 'wge_import', [ec, Ptr(r_), Ptr(raw), n]):
                    U.reach(s)
                    isf = lambda *v: disj([eq(form, C(c, 8)) for c in v])
                    comp, full = conj([eq(n, K(1 + fs)), isf(2, 3)]), conj([eq(n, K(1 + 2 * fs)), isf(4, 6, 7)])
                    ev = imports(s)
                    X, Y = 'raw+1:%d' % fs, 'raw+%d:%d' % (1 + fs, fs)
                    if len(ev) == 1:
                        got.add(1)
                        ex.require(s, comp, 'compressed form')
                        ok = ev[0].key == X
                        ex.require(s, T if ok else F, 'abscissa bytes')
                        lifted(ex, s, A, r, r_, atom('fe_int(%s)' % X), eq(form, C(3, 8)), h, [B('fe_lt(%s)' % X)], 'compressed')
                    elif len(ev) == 2:
                        got.add(2)
                        ex.require(s, full, 'full form')
                        x, y = atom('fe_int(%s)' % X), atom('fe_int(%s)' % Y)
                        par = disj([eq(form, C(4, 8)), eq(form, ite(A.odd(y), C(7, 8), C(6, 8)))])
                        on = A.zero(padd(pmul(y, y), rhs_w(A, x), -1))
                        ex.require(s, eq(r, I(conj([B('fe_lt(%s)' % X), B('fe_lt(%s)' % Y), par, on]))), 'success exactly for canonical points on the curve')
                        s2 = s.fork()
                        s2.assume(on)
                        if s.decide(on) is not F:
                            same(ex, s2, A, r_, 'wge_t', {'x': x, 'y': y}, 'coordinates kept')
                            ex.require(s2, eq(s2.load(Ptr(r_, A.o['wge_t.inf'][0]), 4), C(0, 32)), 'finite')
                    else:
                        got.add(0)
                        ex.require(s, not_(or_(comp, full)), 'only wrong prefixes and lengths are rejected outright')
                        ex.require(s, eq(r, C(0, 32)), 'wrong prefixes and lengths are rejected')
                        ex.require(s, eq(s.load(Ptr(r_, A.o['wge_t.inf'][0]), 4), C(1, 32)), 'no point')
                ex.require(st, T if got == {0, 1, 2} else F, 'all forms occur')
    return unit


def weven_unit(U):
    for z in WSIZES:
        ex, st, A, ec = curve(U, z, 'wei', 0, h=1)
        raw = ex.sym_obj(st, 'raw', z[0])
        raw.const = True
        r_ = ex.sym_obj(st, 'r', A.o['wge_t'][1])
        X = 'raw+0:%d' % z[0]
        for s, r in ex.call(st, 'wge_import_even', [ec, Ptr(r_), Ptr(raw)]):
            U.reach(s)
            lifted(ex, s, A, r, r_, atom('fe_int(%s)' % X), F, 1, [B('fe_lt(%s)' % X)], 'even')


def wexport_unit(U):
    for z in WSIZES:
        ex, st, A, ec = curve(U, z, 'wei')
        fs = z[0]
        raw, ln, p = ex.sym_obj(st, 'raw', 2 * fs + 2), ex.sym_obj(st, 'len', 8), ex.sym_obj(st, 'p', A.o['wge_t'][1])
        A.put(st, Ptr(p, A.o['wge_t.x'][0]), atom('X'))
        A.put(st, Ptr(p, A.o['wge_t.y'][0]), atom('Y'))
        inf, c = V('inf', 32), V('compact', 32)
        st.assume(ule(inf, C(1, 32)))
        st.store(Ptr(p, A.o['wge_t.inf'][0]), inf, 4)
        for s, r in ex.call(st, 'wge_export', [ec, Ptr(raw), Ptr(ln), Ptr(p), c]):
            U.reach(s)
            ex.require(s, eq(r, sub(C(1, 32), inf)), 'infinity reported')
            d = s.decide(ne(c, C(0, 32)))
            X, Y = A.enc('fe_', atom('X')), A.enc('fe_', atom('Y'))
            want = [Bytes(1, lambda k: ite(A.odd(atom('Y')), C(3, 8), C(2, 8))), X] if d is T else [Bytes(1, lambda k: C(4, 8)), X, Y]
            n = 1 + fs * (1 if d is T else 2)
            ex.require(s, eq(s.load(Ptr(ln), 8), K(n)), 'length')
            want.append(Bytes(2 * fs + 2 - n, lambda k, n=n: UF('m:raw', 8, (addc(k, n),))))
            same_bytes(ex, s, [Chunk(s, Ptr(raw), K(2 * fs + 2))], want, 'encoding')


def xcheck(ex, s, A, r, obj, known, kn, isx, sign, base, what):
    """Edwards point from one coordinate: known is the other name"""
    k2 = pmul(known, known)
    one = num(1)
    if isx:             # y from x
        u, v = padd(pmul(A.a, k2), one, -1), padd(pmul(atom('D'), k2), one, -1)
    else:
        u, v = padd(k2, one, -1), padd(pmul(atom('D'), k2), A.a, -1)
    n = lambda p: padd({}, p, -1)
    k = min(key(u) + '/' + key(v), key(n(u)) + '/' + key(n(v)))
    root, sq = atom('root(%s)' % k), B('square(%s)' % k)
    exists = conj([sq, not_(conj([A.zero(root), sign]))])
    ex.require(s, eq(r, I(conj(base + [exists]))), what + ': success exactly for canonical coordinates on the curve')
    if s.decide(exists) is F or s.decide(eq(r, C(0, 32))) is T:
        return
    s2 = s.fork()
    s2.assume(ne(r, C(0, 32)))
    o, kf = ('y', 'x') if isx else ('x', 'y')
    g = key(coord(A, s2, obj, 'xge_t', o))
    same_ = or_(conj([A.odd(root), sign]), conj([not_(A.odd(root)), not_(sign)]))
    ex.require(s2, same_ if g == key(root) else not_(same_) if g == key(n(root)) else F, what + ': requested parity')
    same(ex, s2, A, obj, 'xge_t', {kf: known, 'z': one, 't': pmul(known, coord(A, s2, obj, 'xge_t', o))}, what + ': coordinates')


def ximport_unit(U):
    for z in ESIZES:
        ex, st, A, ec = curve(U, z, 'edwards', one_a=0, mone_a=0)
        adj, fs = z[4], z[0]
        raw = ex.sym_obj(st, 'raw', adj)
        raw.const = True
        r_ = ex.sym_obj(st, 'r', A.o['xge_t'][1])
        last = UF('m:raw', 8, (K(adj - 1),))
        for s, r in ex.call(st, 'xge_import', [ec, Ptr(r_), Ptr(raw)]):
            U.reach(s)
            ev = imports(s)
            ex.require(s, T if len(ev) == 1 else F, 'one coordinate')
            if len(ev) != 1:
                continue
            base = [B('fe_lt(%s)' % ev[0].key)]
            if adj > fs:
                base.append(eq(and_(last, C(0x7f, 8)), C(0, 8)))
            same_bytes(ex, s, [ev[0].chunk], [Bytes(fs, lambda k: ite(eq(k, K(adj - 1)), and_(last, C(0x7f, 8)), UF('m:raw', 8, (k,))))], 'coordinate bytes')
            xcheck(ex, s, A, r, r_, atom('fe_int(%s)' % ev[0].key), 'y', False, ule(C(0x80, 8), last), base, 'decoded')


def xset_unit(U):
    for isx in (True, False):
        for a in (None, 1, -1):
            ex, st, A, ec = curve(U, ESIZES[0], 'edwards', a, **{f: int(a == v) for f, v in (('one_a', 1), ('mone_a', -1))})
            r_, x = ex.sym_obj(st, 'r', A.o['xge_t'][1]), ex.sym_obj(st, 'x', A.o['fe_t'][1])
            A.put(st, Ptr(x), atom('X'))
            sg = V('sign', 32)
            st.assume(ule(sg, C(1, 32)))
            fnm = 'xge_set_x' if isx else 'xge_set_y'
            for s, r in ex.call(st, fnm, [ec, Ptr(r_), Ptr(x), sg]):
                U.reach(s)
                xcheck(ex, s, A, r, r_, atom('X'), 'x', isx, eq(sg, C(1, 32)), [], fnm)
    for a in (None, 1, -1):
        ex, st, A, ec = curve(U, ESIZES[0], 'edwards', a, **{f: int(a == v) for f, v in (('one_a', 1), ('mone_a', -1))})
        r_, x, y = ex.sym_obj(st, 'r', A.o['xge_t'][1]), ex.sym_obj(st, 'x', A.o['fe_t'][1]), ex.sym_obj(st, 'y', A.o['fe_t'][1])
        A.put(st, Ptr(x), atom('X'))
        A.put(st, Ptr(y), atom('Y'))
        X, Y = atom('X'), atom('Y')
        x2, y2 = pmul(X, X), pmul(Y, Y)
        on = A.zero(padd(padd(padd(pmul(A.a, x2), y2), num(1), -1), pmul(atom('D'), pmul(x2, y2)), -1))
        for s, r in ex.call(st, 'xge_set_xy', [ec, Ptr(r_), Ptr(x), Ptr(y)]):
            U.reach(s)
            ex.require(s, eq(r, I(on)), 'both coordinates: success exactly on the curve')
            if s.decide(on) is T:
                same(ex, s, A, r_, 'xge_t', {'x': X, 'y': Y, 'z': num(1), 't': pmul(X, Y)}, 'both coordinates kept')


def xexport_unit(U):
    for z in ESIZES:
        ex, st, A, ec = curve(U, z, 'edwards')
        adj, fs = z[4], z[0]
        raw, p = ex.sym_obj(st, 'raw', adj + 1), ex.sym_obj(st, 'p', A.o['xge_t'][1])
        for f in 'xyzt':
            A.put(st, Ptr(p, A.o['xge_t.' + f][0]), atom(f.upper()))
        st.assume(not_(A.zero(atom('Z'))))
        U.assume('z is not zero: proved for every point operation in C17')
        for s, r in ex.call(st, 'xge_export', [ec, Ptr(raw), Ptr(p)]):
            U.reach(s)
            zi = A.inv(atom('Z'))
            x, y = pmul(atom('X'), zi), pmul(atom('Y'), zi)
            ey = A.enc('fe_', y)
            bit = ite(A.odd(x), C(0x80, 8), C(0, 8))
            want = lambda k: ey.at(s, k) if adj > fs else ite(eq(k, K(fs - 1)), or_(ey.at(s, K(fs - 1)), bit), ey.at(s, k))
            w = [Bytes(fs, want)] + ([Bytes(1, lambda k: bit)] if adj > fs else [])
            same_bytes(ex, s, [Chunk(s, Ptr(raw), K(adj + 1))], w + [Bytes(1, lambda k: UF('m:raw', 8, (K(adj),)))], 'encoding')


UNITS = [('wge_import', wimport_unit(None)), ('wge_import a = 0', wimport_unit(0)), ('wge_import a = -3', wimport_unit(-3)),
         ('wge_import_even', weven_unit), ('wge_export', wexport_unit), ('xge_import', ximport_unit), ('xge_set', xset_unit),
         ('xge_export', xexport_unit)]


def concrete(rng, budget, hints):
    import ctypes
    from . import c17
    from .eccoracle import W, Ed
    fi = lambda lib, nm: fn(lib, nm, ctypes.c_int)
    t0, n = time.time(), 0
    libs = [c17.Lib('c64'), c17.Lib('c32')]
    ws, es = [W(i) for i in range(6)], [Ed(i) for i in range(3)]
    V_, I_ = ctypes.c_void_p, ctypes.c_int
    while n < 400 or time.time() - t0 < budget:
        L = libs[n % 2]
        c = rng.choice(ws)
        P = None
        while P is None:
            x = rng.choice([rng.randrange(c.p), 0, 1, c.p - 1, rng.randrange(1000)])
            P = c.lift(x, rng.randrange(2))
        good = c.encode(P, rng.choice([2, 4, 6]))
        b = bytearray(good)
        k = rng.randrange(10)
        if k == 0:
            b[0] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 0x82, 0x0c])
        elif k == 1:
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif k == 2:
            b = b[:-1]
        elif k == 3:
            b += b'\0'
        elif k == 4:
            x2 = P[0] + c.p
            if x2 < 1 << (8 * c.fs):
                b[1:1 + c.fs] = x2.to_bytes(c.fs, 'big')
        elif k == 5 and len(b) > 1 + c.fs:
            y2 = P[1] + c.p
            if y2 < 1 << (8 * c.fs):
                b[1 + c.fs:] = y2.to_bytes(c.fs, 'big')
        elif k == 6:
            x2 = rng.choice([c.p, c.p + 1, c.p - 1, (1 << 8 * c.fs) - 1])
            if x2 < 1 << (8 * c.fs):
                b[1:1 + c.fs] = x2.to_bytes(c.fs, 'big')
        elif k == 7:
            b = bytearray(rng.choice([b'', b'\0', b'\2', b'\4']))
        elif k == 8 and b[0] in (6, 7):
            b[0] ^= 1
        b = bytes(b)
        want = c.decode(b)
        form = rng.randrange(2)
        out, ol = Guard(1 + 2 * c.fs), ctypes.c_size_t(0)
        ec = L.wei[c.i]
        r = fi(L.lib, 'ecdsa_pubkey_convert')(V_(ec), out.p, ctypes.byref(ol), ctypes.c_char_p(b), sz(len(b)), I_(form))
        n += 1
        exp = c.encode(want, 2 if form else 4) if want else None
        if r != int(want is not None) or (want and out.get()[:ol.value] != exp) or not out.ok():
            raise Fail('%s: point decoding of %s returned %d' % (c.name, b.hex(), r), curve=c.name, encoding=b, want=str(want), config=L.config)
        if fi(L.lib, 'ecdsa_pubkey_verify')(V_(ec), ctypes.c_char_p(b), sz(len(b))) != int(want is not None):
            raise Fail('%s: public key test' % c.name, curve=c.name, encoding=b, want=str(want), config=L.config)
        if c.name == 'secp256k1':
            xb = rng.choice([P[0], P[0], rng.randrange(1 << 256), min(c.p + rng.randrange(50), 2**256 - 1)]).to_bytes(32, 'big')
            xv = int.from_bytes(xb, 'big')
            w = xv < c.p and c.lift(xv, 0) is not None
            if fi(L.lib, 'bip340_pubkey_verify')(V_(ec), xb) != int(w):
                raise Fail('x-only key test', key=xb, config=L.config)
        # Edwards
        e = rng.choice(es)
        while 1:
            y = rng.choice([rng.randrange(e.p), rng.randrange(20), 1, e.p - 1, 0])
            Q = e.decode((y | rng.randrange(2) << (8 * e.adj - 1)).to_bytes(e.adj, 'little'))
            if Q:
                break
        v = int.from_bytes(e.encode(Q), 'little')
        v = rng.choice([v, v, v ^ 1 << rng.randrange(8 * e.adj), v ^ 1 << (8 * e.adj - 1), v + e.p, rng.randrange(1 << 8 * e.adj),
                        e.p, e.p + 1, e.p - 1, (e.p + 1) | 1 << (8 * e.adj - 1), 1 | 1 << (8 * e.adj - 1), (e.p - 1) | 1 << (8 * e.adj - 1)])
        b = (v & ((1 << 8 * e.adj) - 1)).to_bytes(e.adj, 'little')
        want = e.decode(b)
        ec = L.edw[e.i]
        r = fi(L.lib, 'eddsa_pubkey_verify')(V_(ec), b)
        if r != int(want is not None):
            raise Fail('%s: point decoding of %s returned %d' % (e.name, b.hex(), r), curve=e.name, encoding=b, want=str(want), config=L.config)
        if want:
            out = Guard(e.adj)
            r = fi(L.lib, 'eddsa_pubkey_negate')(V_(ec), out.p, b)
            if not r or out.get() != e.encode((-want[0] % e.p, want[1])) or not out.ok():
                raise Fail('%s: decode, negate and encode' % e.name, curve=e.name, encoding=b, got=out.get(), config=L.config)
    return n
