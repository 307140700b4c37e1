"""Contracts of field, scalar and point operations over abstract values: field
elements and scalars are integer polynomials over opaque atoms, points are
linear combinations of opaque points with such coefficients.  A value is
represented in memory by its number in a table, so equal polynomials are the
same value and a rearranged computation gives the same result."""
from .ghost import *        # noqa

TAG = 0xabcd << 48
SPECS = (['wei_t', 'wge_t', 'jge_t', 'edwards_t', 'xge_t', 'fe_t', 'sc_t', 'hash_t'] +
         ['wei_t.' + f for f in ('fe', 'sc', 'h', 'a', 'b', 'small_gap', 'high_order', 'sc_p', 'fe_n', 'hash', 'xof', 'zero_a', 'three_a')] +
         ['edwards_t.' + f for f in ('fe', 'sc', 'h', 'a', 'd', 'hash', 'context', 'prefix', 'prefix_len', 'mone_a', 'one_a')] +
         ['wge_t.' + f for f in ('x', 'y', 'inf')] + ['jge_t.' + f for f in ('x', 'y', 'z', 'inf', 'aff')] + ['xge_t.' + f for f in 'xyzt'] +
         ['prime_field_t.' + f for f in ('bits', 'size', 'adj_size', 'zero', 'one', 'two', 'three', 'four', 'mone', 'scmul_d')] +
         ['scalar_field_t.' + f for f in ('bits', 'size', 'mask')])


def padd(a, b, c=1):
    r = dict(a)
    for m, k in b.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, k in a.items():
        for n, l in b.items():
            t = tuple(sorted(m + n))
            r[t] = r.get(t, 0) + k * l
            if not r[t]:
                del r[t]
    return r


def atom(n):
    return {(n,): 1}


def num(c):
    return {(): c} if c else {}


def key(p):
    return '+'.join('%d%s' % (k, '*'.join(('',) + m)) for m, k in sorted(p.items()))


def signed(p):
    """the same up to sign"""
    n = padd({}, p, -1)
    return p if key(p) <= key(n) else n


def pkey(P):
    return '{' + ' '.join('[%s]%s' % (key(c), n) for n, c in sorted(P.items())) + '}'


def lin_(*cs):
    r = {}
    for c, P in cs:
        for n, k in P.items():
            r[n] = padd(r.get(n, {}), pmul(c, k))
            if not r[n]:
                del r[n]
    return r


def psub(P, Q):
    return lin_((num(1), P), (num(-1), Q))


def psigned(P):
    N = lin_((num(-1), P))
    return P if pkey(P) <= pkey(N) else N


def pt(n):
    return {n: num(1)}


def B(name):
    return eq(V('p:' + name, 1), C(1, 1))


def I(b):
    return ite(b, C(1, 32), C(0, 32))


class Abs:
    def __init__(self, U, ex, st, fs=32, fb=256, ss=32, sb=256, adj=None):
        self.U, self.ex = U, ex
        self.o = offsets('"ecc.c"', SPECS)
        self.vals, self.ids, self.pts = [], {}, {}
        self.fs, self.ss, self.adj = fs, ss, fs + (fb % 8 == 0) if adj is None else adj
        S = lambda n, f: U.stub(ex, n, f, need=False) if ex.find_func(n) else None
        for k in ('fe_', 'sc_'):
            for nc in ('', '_nc'):
                S(k + 'add' + nc, self.op(lambda x, y: padd(x, y)))
                S(k + 'sub' + nc, self.op(lambda x, y: padd(x, y, -1)))
                S(k + 'neg' + nc, self.op(lambda x: padd({}, x, -1)))
            S(k + 'mul', self.op(pmul))
            S(k + 'sqr', self.op(lambda x: pmul(x, x)))
            S(k + 'set', self.op(lambda x: x))
            S(k + 'zero', self.op(lambda: {}))
            for f in ('invert', 'invert_var'):
                S(k + f, self.invert)
            S(k + 'is_zero', lambda ex, s, a: I(self.zero(self.get(s, a[1]))))
            S(k + 'equal', lambda ex, s, a: I(self.zero(padd(self.get(s, a[1]), self.get(s, a[2]), -1))))
            S(k + 'import', lambda ex, s, a, k=k: self.imp(s, a, k))
            S(k + 'export', lambda ex, s, a, k=k: self.exp(s, a, k))
            S(k + 'neg_cond', lambda ex, s, a: self.sel(s, a[1], padd({}, self.get(s, a[2]), -1), self.get(s, a[2]), a[3]))
            S(k + 'cleanse', lambda ex, s, a: self.put(s, a[1], {}))
        for n in (3, 4, 8):
            S('fe_mul%d' % n, self.op(lambda x, n=n: pmul(num(n), x)))
        S('fe_carry', self.op(lambda x: x))
        S('fe_set_odd', self.set_odd)
        S('sc_mul_word', lambda ex, s, a: self.put(s, a[1], pmul(self.get(s, a[2]), num(a[3].val))))
        S('fe_select', lambda ex, s, a: self.sel(s, a[1], self.get(s, a[3]), self.get(s, a[2]), a[4]))
        S('fe_is_odd', lambda ex, s, a: I(self.odd(self.get(s, a[1]))))
        S('fe_sqrt', self.sqrt)
        S('fe_isqrt', self.isqrt)
        for n in ('sc_is_high', 'sc_is_high_var'):
            S(n, lambda ex, s, a: I(self.high(self.get(s, a[1]))))
        S('sc_minimize', self.minimize)
        S('sc_cmp_var', lambda ex, s, a: ite(self.less(self.get(s, a[1]), self.get(s, a[2])), C((1 << 32) - 1, 32),
                                             ite(self.zero(padd(self.get(s, a[1]), self.get(s, a[2]), -1)), C(0, 32), C(1, 32))))
        S('sc_set_fe', self.sc_set_fe)
        S('fe_set_sc', self.fe_set_sc)

    # values
    def num_of(self, p):
        k = key(p)
        if k not in self.ids:
            self.ids[k] = len(self.vals)
            self.vals.append(p)
        return self.ids[k]

    def put(self, s, p, v):
        s.store(as_ptr(p), K(TAG | self.num_of(v)), 8)

    def get(self, s, p):
        v = s.load(as_ptr(p), 8)
        if v.op != 'c' or v.val >> 48 != 0xabcd:
            raise Unsupported('value is not known')
        return self.vals[v.val & 0xffffffff]

    def op(self, f):
        def stub(ex, s, a):
            self.put(s, a[1], f(*[self.get(s, p) for p in a[2:]]))
        return stub

    # predicates
    def zero(self, p):
        if not p:
            return T
        if set(p) == {()}:
            return F
        if len(p) == 1:                 # a product is zero if a factor is; inverses and the curve constants are not
            (m, c), = p.items()
            if abs(c) == 1:
                fs = [f for f in sorted(set(m)) if not f.startswith('inv(')]
                return disj([B('zero(%s)' % f) for f in fs]) if fs else F
        return B('zero(%s)' % key(signed(p)))

    def odd(self, p):
        return B('odd(%s)' % key(p))

    def high(self, p):
        return B('high(%s)' % key(p))

    def less(self, p, q):
        return B('less(%s,%s)' % (key(p), key(q)))

    def inv(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if abs(c) == 1 and len(m) == 1 and m[0].startswith('inv('):
                return pmul(num(c), self.vals[self.ids[m[0][4:-1]]])
        s = signed(p)
        self.num_of(s)
        return pmul(num(1 if s == p else -1), atom('inv(%s)' % key(s)))

    def invert(self, ex, s, a):
        x = self.get(s, a[2])
        z = self.zero(x)
        self.put(s, a[1], self.inv(x))
        return I(not_(z))

    def nm(self, s, p, n):
        p = as_ptr(p)
        if not isinstance(p, Ptr):
            raise Unsupported('conditional pointer')
        off = p.off.val if p.off.op == 'c' else 'x%d' % id(p.off)
        return '%s+%s:%s' % (p.obj.name, off, n)

    def imp(self, s, a, k):
        n = self.fs if k == 'fe_' else self.ss
        reads(self.ex, s, a[2], K(n), 'encoding')
        nm = self.nm(s, a[2], n)
        self.put(s, a[1], atom(k + 'int(%s)' % nm))
        log(s, Event('import', nm, chunk=Chunk(s, as_ptr(a[2]), K(n)), field=k))
        return I(B(k + 'lt(%s)' % nm))

    def exp(self, s, a, k):
        n = self.fs if k == 'fe_' else self.ss
        v = self.num_of(self.get(s, a[2]))
        put(self.ex, s, a[1], n, lambda i: UF('enc:%s%d' % (k, v), 8, (i,)))

    def enc(self, k, p):
        v = self.num_of(p)
        return Bytes(self.fs if k == 'fe_' else self.ss, lambda i: UF('enc:%s%d' % (k, v), 8, (i,)))

    def sel(self, s, dst, one, zer, flag):
        out = []
        for v, p in ((0, zer), (1, one)):
            c = eq(flag, C(v, flag.w))
            d = s.decide(c)
            if d is F:
                continue
            s2 = s.fork()
            s2.assume(c)
            self.put(s2, dst, p)
            out.append((s2, None))
        self.ex.require(s, ule(flag, C(1, flag.w)), 'selection flag is a bit')
        return out

    def set_odd(self, ex, s, a):
        x = self.get(s, a[2])
        want = ne(a[3], C(0, 32))
        o = self.odd(x)
        flag = I(or_(and_(o, not_(want)), and_(not_(o), want)))
        return self.sel(s, a[1], padd({}, x, -1), x, flag)

    def root(self, p):
        return 'root(%s)' % key(p)

    def sqrt(self, ex, s, a):
        x = self.get(s, a[2])
        self.put(s, a[1], atom(self.root(x)))
        return I(B('square(%s)' % key(x)))

    def isqrt(self, ex, s, a):
        u, v = self.get(s, a[2]), self.get(s, a[3])
        k = key(u) + '/' + key(v)
        if key(padd({}, u, -1)) + '/' + key(padd({}, v, -1)) < k:
            k = key(padd({}, u, -1)) + '/' + key(padd({}, v, -1))
        self.put(s, a[1], atom('root(%s)' % k))
        return I(B('square(%s)' % k))

    def minimize(self, ex, s, a):
        x = self.get(s, a[2])
        f = I(self.high(x))
        r = self.sel(s, a[1], padd({}, x, -1), x, f)
        return [(q, f) for q, _ in r]

    def sc_set_fe(self, ex, s, a):
        x = self.get(s, a[3])
        self.put(s, a[2], atom('modn(%s)' % key(x)))
        return I(B('below_n(%s)' % key(x)))

    def fe_set_sc(self, ex, s, a):
        x = self.get(s, a[3])
        self.put(s, a[2], atom('fe(%s)' % key(x)))
        return I(B('below_p(%s)' % key(x)))

    # points
    def pzero(self, P):
        if not P:
            return T
        return B('O%s' % pkey(psigned(P)))

    def pput(self, s, ptr, T_, P):
        p = as_ptr(ptr)
        k = pkey(P)
        self.pts[k] = P
        at = lambda f: p + K(self.o[T_ + '.' + f][0])
        for f in {'wge_t': 'xy', 'jge_t': 'xyz', 'xge_t': 'xyzt'}[T_]:
            self.put(s, at(f), atom(f + k))
        if T_ != 'xge_t':
            s.store(at('inf'), I(self.pzero(P)), 4)

    def pget(self, s, ptr):
        v = self.get(s, ptr)
        (m, c), = v.items() or [((' ',), 0)]
        if c != 1 or len(m) != 1 or m[0][1:] not in self.pts or m[0][0] != 'x':
            raise Unsupported('point is not known')
        return self.pts[m[0][1:]]

    def points(self, T_='wge_t'):
        U, ex = self.U, self.ex
        S = lambda n, f: U.stub(ex, n, f, need=False) if ex.find_func(n) else None
        G = pt('G')
        mul2 = lambda T_: lambda ex, s, a: self.pput(s, a[1], T_, lin_((self.get(s, a[2]), G), (self.get(s, a[4]), self.pget(s, a[3]))))
        if T_ == 'xge_t':
            S('edwards_mul_double_var', mul2('xge_t'))
            S('edwards_mul_g', lambda ex, s, a: self.pput(s, a[1], 'xge_t', lin_((self.get(s, a[2]), G))))
            S('xge_neg', lambda ex, s, a: self.pput(s, a[1], 'xge_t', lin_((num(-1), self.pget(s, a[2])))))
            S('xge_mulh', lambda ex, s, a: self.pput(s, a[1], 'xge_t', lin_((num(self.h), self.pget(s, a[2])))))
            S('xge_equal', lambda ex, s, a: I(self.pzero(psub(self.pget(s, a[1]), self.pget(s, a[2])))))
            S('xge_import', lambda ex, s, a: self.pimp(s, a, 'xge_t', K(self.adj)))
            S('xge_export', lambda ex, s, a: self.pexp(s, a[1], self.pget(s, a[2]), self.adj, 'enc'))
            S('xge_cleanse', lambda ex, s, a: None)
            return
        S('wei_mul_double_var', mul2('wge_t'))
        S('wei_jmul_double_var', mul2('jge_t'))
        S('wei_mul_g', lambda ex, s, a: self.pput(s, a[1], 'wge_t', lin_((self.get(s, a[2]), G))))
        S('wge_is_zero', lambda ex, s, a: I(self.pzero(self.pget(s, a[1]))))
        S('jge_is_zero', lambda ex, s, a: I(self.pzero(self.pget(s, a[1]))))
        S('wge_import', lambda ex, s, a: self.pimp(s, a, 'wge_t', a[3]))
        S('wge_import_even', lambda ex, s, a: self.pimp(s, a, 'wge_t', K(self.fs), 'even '))
        S('wge_neg', lambda ex, s, a: self.pput(s, a[1], 'wge_t', lin_((num(-1), self.pget(s, a[2])))))
        S('wge_cleanse', lambda ex, s, a: None)

    def pimp(self, s, a, T_, n, what=''):
        reads(self.ex, s, a[2], n, 'point encoding')
        nm = what + self.nm(s, a[2], n.val if n.op == 'c' else 'len')
        self.pput(s, a[1], T_, pt(nm))
        log(s, Event('point', nm, n=n, p=as_ptr(a[2])))
        return I(B('decodes(%s)' % nm))

    def pexp(self, s, dst, P, n, what):
        v = pkey(P)
        put(self.ex, s, dst, n, lambda i: UF('%s:%s' % (what, v), 8, (i,)))

    # curve structures
    def curve(self, st, kind, **kw):
        o, ex = self.o, self.ex
        T_ = kind + '_t'
        ec = ex.sym_obj(st, 'ec', o[T_][1])
        at = lambda f: Ptr(ec, o[T_ + '.' + f][0])
        fe = lambda f: Ptr(ec, o[T_ + '.fe'][0] + o['prime_field_t.' + f][0])
        sc = lambda f: Ptr(ec, o[T_ + '.sc'][0] + o['scalar_field_t.' + f][0])
        for f, v in (('zero', 0), ('one', 1), ('two', 2), ('three', 3), ('four', 4), ('mone', -1)):
            self.put(st, fe(f), num(v))
        st.store(fe('size'), K(self.fs), 8)
        st.store(fe('adj_size'), K(self.adj), 8)
        st.store(sc('size'), K(self.ss), 8)
        nb = o['prime_field_t.bits'][1]
        st.store(fe('bits'), C(kw.pop('fb', self.fs * 8), nb * 8), nb)
        st.store(sc('bits'), C(kw.pop('sb', self.ss * 8), nb * 8), nb)
        if kind == 'wei':
            self.put(st, at('a'), atom('A'))
            self.put(st, at('b'), atom('B'))
            self.put(st, at('sc_p'), atom('p-n'))
            self.put(st, at('fe_n'), atom('n'))
            for f in ('zero_a', 'three_a'):
                st.store(at(f), C(0, 32), 4)
        else:
            self.put(st, at('a'), atom('A'))
            self.put(st, at('d'), atom('D'))
        for f, v in kw.items():
            st.store(at(f), v if isinstance(v, E) else C(v, 32), 4)
        self.ec, self.at = ec, at
        return Ptr(ec)
