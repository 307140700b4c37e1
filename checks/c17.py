"""C17: point formulas."""
import ctypes
import time
from .ghost import *        # noqa
from .fields import PRIME

SPECS = (['wei_t', 'wge_t', 'jge_t', 'mont_t', 'mge_t', 'pge_t', 'edwards_t', 'xge_t', 'fe_t', 'fe_word_t'] +
         ['wei_t.' + f for f in ('fe', 'h', 'a', 'b', 'zero_a', 'three_a')] +
         ['wge_t.' + f for f in ('x', 'y', 'inf')] + ['jge_t.' + f for f in ('x', 'y', 'z', 'inf', 'aff')] +
         ['mont_t.' + f for f in ('fe', 'h', 'a', 'b', 'bi', 'b_one', 'a24')] + ['mge_t.' + f for f in ('x', 'y', 'inf')] +
         ['pge_t.x', 'pge_t.z'] +
         ['edwards_t.' + f for f in ('fe', 'h', 'a', 'd', 'k', 'mone_a', 'one_a')] + ['xge_t.' + f for f in 'xyzt'] +
         ['prime_field_t.' + f for f in ('zero', 'one', 'two', 'three', 'four', 'mone', 'scmul_a24', 'scmul_d')])


class Alg:
    """polynomials over the rationals modulo one relation, with a list of
    factors that are not zero; fractions have denominators made of these"""

    def __init__(self, names, rel=None, nonzero=()):
        from sympy.polys.rings import ring
        from sympy import QQ
        self.R, *g = ring(names, QQ)
        self.v = dict(zip(names.split(','), g))
        self.rel = None
        self.nz = []

    def eval(self, s):
        return self.R(eval(s, {'__builtins__': {}}, self.v)) if isinstance(s, str) else self.R(s)

    def red(self, p):
        return p if self.rel is None else p.rem([self.rel])

    def iszero(self, p):
        return not self.red(p)

    def unit(self, p):
        """known not to be zero"""
        if not p:
            return False
        ch = True
        while ch and not p.is_ground:
            ch = False
            for q in self.nz:
                d, r = divmod(p, q)
                while not r:
                    p, ch = d, True
                    d, r = divmod(p, q)
        if not p.is_ground:
            # up to the relation
            for q in self.nz:
                if self.iszero(p - q) or self.iszero(p + q):
                    return True
            return False
        return bool(p)

    def frac(self, n, d):
        if d.is_ground:
            return n * self.R(1 / d.LC), self.R(1)
        q, r = divmod(n, d)
        if not r:
            return q, self.R(1)
        return n, d

    def add(self, a, b, k=1):
        if a[1] == b[1]:
            return self.frac(a[0] + k * b[0], a[1])
        return self.frac(a[0] * b[1] + k * b[0] * a[1], a[1] * b[1])

    def mul(self, a, b):
        a = self.frac(a[0], b[1]) + (a[1],)
        b = self.frac(b[0], a[2]) + (0,)
        return self.frac(a[0] * b[0], a[1] * b[1])

    def same(self, a, b):
        return self.iszero(a[0] * b[1] - b[0] * a[1])

    def one(self):
        return self.R(1), self.R(1)

    def of(self, s):
        return self.R(self.eval(s)), self.R(1)


class Undecided(Exception):
    pass


class Run:
    """one execution of a formula: field elements are indices into a table of
    fractions; undecided zero tests follow a script of answers"""

    def __init__(self, U, ex, A, script):
        self.U, self.A, self.script, self.pos = U, A, script, 0
        self.tab, self.loose, self.bad = [], [], []
        self.o = offsets('"ecc.c"', SPECS)
        self.w = self.o['fe_word_t'][1]
        S = lambda nm, f: U.stub(ex, nm, f, need=False)

        def op2(f, need, res):
            def stub(ex, st, a):
                x = [self.get(st, p, need, f) for p in a[2:]]
                self.put(st, a[1], f(*x), res)
                return [(st, None)]
            return stub
        A_ = A
        T, L = 0, 1
        for nm, nc in (('', T), ('_nc', L)):
            S('fe_add' + nm, op2(lambda x, y: A_.add(x, y), T, nc))
            S('fe_sub' + nm, op2(lambda x, y: A_.add(x, y, -1), T, nc))
            S('fe_neg' + nm, op2(lambda x: (-x[0], x[1]), T, nc))
        S('fe_mul', op2(lambda x, y: A_.mul(x, y), L, T))
        S('fe_sqr', op2(lambda x: A_.mul(x, x), L, T))
        for k in (3, 4, 8):
            S('fe_mul%d' % k, op2(lambda x, k=k: (k * x[0], x[1]), L, T))
        S('fe_carry', op2(lambda x: x, L, T))

        def set_(ex, st, a):
            st.store(a[1], st.load(a[2], self.w), self.w)
            return [(st, None)]

        def zero_(ex, st, a):
            self.put(st, a[1], (A_.R(0), A_.R(1)), T)
            return [(st, None)]

        def select_(ex, st, a):
            f = a[4]
            if f.op != 'c':
                raise Unsupported('selection flag not decided')
            if f.val not in (0, 1):
                self.bad.append('selection flag %d' % f.val)
            st.store(a[1], st.load(a[3] if f.val else a[2], self.w), self.w)
            return [(st, None)]

        def iszero_(ex, st, a):
            return [(st, C(self.test(self.get(st, a[1], T, 'is_zero')), 32))]

        def equal_(ex, st, a):
            x, y = self.get(st, a[1], T, 'equal'), self.get(st, a[2], T, 'equal')
            return [(st, C(self.test(A_.add(x, y, -1)), 32))]

        def invert_(ex, st, a):
            x = self.get(st, a[2], L)
            if self.test(x):
                self.put(st, a[1], (A_.R(0), A_.R(1)), T)
                return [(st, C(0, 32))]
            if not A_.unit(x[0]):
                A_.nz.append(x[0])
            self.put(st, a[1], A_.frac(x[1], x[0]), T)
            return [(st, C(1, 32))]

        def swap_(ex, st, a):
            if a[3].op != 'c':
                raise Unsupported('swap flag not decided')
            if a[3].val:
                x, y = st.load(a[1], self.w), st.load(a[2], self.w)
                st.store(a[1], y, self.w)
                st.store(a[2], x, self.w)
            return [(st, None)]
        S('fe_set', set_)
        S('fe_zero', zero_)
        S('fe_select', select_)
        S('fe_is_zero', iszero_)
        S('fe_equal', equal_)
        S('fe_invert', invert_)
        S('fe_invert_var', invert_)
        S('fe_swap', swap_)

    def get(self, st, p, need=1, what=''):
        v = st.load(p, self.w)
        if v.op != 'c' or not 0 < v.val <= len(self.tab):
            raise Unsupported('element is not known')
        if self.loose[v.val - 1] > need:
            self.bad.append('operand without carry where bounds require one')
        return self.tab[v.val - 1]

    def put(self, st, p, e, loose=0):
        self.tab.append(e)
        self.loose.append(loose)
        st.store(p, C(len(self.tab), self.w * 8), self.w)

    def val(self, st, p):
        v = st.load(p, self.w)
        if v.op != 'c':
            raise Unsupported('element is not known')
        if self.loose[v.val - 1]:
            self.bad.append('result without carry')
        return self.tab[v.val - 1]

    def test(self, x):
        if self.A.iszero(x[0]):
            return 1
        if self.A.unit(x[0]):
            return 0
        if self.pos < len(self.script):
            self.pos += 1
            return self.script[self.pos - 1]
        raise Undecided()


ONES = {'zero': '0', 'one': '1', 'two': '2', 'three': '3', 'four': '4', 'mone': '-1'}


class Case:
    def __init__(self, name, vars, sub=(), rel=None, nz=(), p=None, ec=None):
        """sub: definitions in order; p: list of points (affine expression pairs, or None)"""
        self.name, self.vars, self.sub, self.rel, self.nz, self.p, self.ec = name, vars, sub, rel, nz, p, ec or {}

    def alg(self, extra=(), extrel=None):
        A = Alg(self.vars + ''.join(',' + e for e in extra))
        for k, s in self.sub:
            A.v[k] = A.eval(s)
        r = extrel or self.rel
        if r:
            A.rel = A.eval(r)
        A.nz = [A.eval(s) for s in list(self.nz) + list(extra)]
        return A


def explore(U, name, build, check):
    """run every path of undecided tests"""
    todo = [[]]
    n = 0
    while todo:
        sc = todo.pop()
        n += 1
        if n > 40:
            raise Unsupported('too many paths')
        try:
            run, outs = build(sc)
        except Undecided:
            todo += [sc + [0], sc + [1]]
            continue
        for s, r in outs:
            U.reach(s)
            ok, why = check(run, s, r)
            if run.bad:
                ok, why = False, run.bad[0]
            U.ob(name + (' (path %s)' % ''.join(map(str, sc)) if sc else ''), bool(ok), 'polynomials', detail='' if ok else why)


# ------------------------------------------------------------------ Weierstrass

AE = [('y2', 'y1+l*(x2-x1)'), ('A', 'l*(y1+y2)-(x1**2+x1*x2+x2**2)'), ('X', 'l**2-x1-x2'), ('Y', 'l*(x1-X)-y1')]
WADD = [
    Case('different points', 'x1,x2,y1,l', AE, nz=['x1-x2', 'l', 'y1+y2'], p=('x1', 'y1', 'x2', 'y2')),
    Case('opposite ordinates', 'x1,x2,l', [('y1', 'l*(x1-x2)/2')] + AE, nz=['x1-x2', 'l'], p=('x1', 'y1', 'x2', 'y2')),
    Case('equal ordinates', 'x1,x2,y1', [('l', '0*y1')] + AE, nz=['x1-x2', 'y1'], p=('x1', 'y1', 'x2', 'y2')),
    Case('two points of order two', 'x1,x2', [('l', '0*x1'), ('y1', '0*x1')] + AE, nz=['x1-x2'], p=('x1', 'y1', 'x2', 'y2')),
    Case('equal points', 'x1,y1,l', [('A', '2*y1*l-3*x1**2'), ('X', 'l**2-2*x1'), ('Y', 'l*(x1-X)-y1')], nz=['y1'], p=('x1', 'y1', 'x1', 'y1')),
    Case('equal points of order two', 'x1,A', [('y1', '0*x1')], nz=['3*x1**2+A'], p=('x1', 'y1', 'x1', 'y1')),
    Case('opposite points', 'x1,y1,A', [], nz=['y1'], p=('x1', 'y1', 'x1', '-y1')),
]
WINF = [
    Case('first infinite', 'x1,y1,A', [('X', 'x1'), ('Y', 'y1')], nz=[], p=(None, None, 'x1', 'y1')),
    Case('second infinite', 'x1,y1,A', [('X', 'x1'), ('Y', 'y1')], nz=[], p=('x1', 'y1', None, None)),
    Case('both infinite', 'A,x1', [], nz=[], p=(None, None, None, None)),
]
CURVES = [('a', 8, None), ('a', 1, None), ('zero', 1, '0'), ('three', 1, '-3'), ('three', 4, '-3')]


class Wei:
    """structures of the Weierstrass code"""

    def __init__(self, U, base, case, curve, z1=None, z2=None, script=()):
        kind, h, a = curve
        ex, st = base
        ex = ex.fork() if hasattr(ex, 'fork') else ex
        self.ex, self.st = ex, st
        extra = [z for z in (z1, z2) if z and z not in ('1',)]
        rel = None
        if a is not None:
            rel = '(%s)-(%s)' % (a, 'A')
        self.A = case.alg(extra, rel)
        if self.A.rel is not None and self.A.rel.is_ground:
            self.A.rel = None
        self.run = Run(U, ex, self.A, list(script))
        o = self.run.o
        self.o = o
        ec = ex.sym_obj(st, 'ec', o['wei_t'][1])
        self.ec = Ptr(ec)
        A = self.A
        for k, s in ONES.items():
            self.put(Ptr(ec, o['wei_t.fe'][0] + o['prime_field_t.' + k][0]), s)
        self.put(Ptr(ec, o['wei_t.a'][0]), 'A' if a is None else a)
        st.store(Ptr(ec, o['wei_t.h'][0]), C(h, 32), 4)
        st.store(Ptr(ec, o['wei_t.zero_a'][0]), C(kind == 'zero', 32), 4)
        st.store(Ptr(ec, o['wei_t.three_a'][0]), C(kind == 'three', 32), 4)
        ec.const = True

    def put(self, p, s):
        self.run.put(self.st, p, self.A.of(s))

    def affine(self, nm, x, y, T='wge_t'):
        o, st = self.o, self.st
        b = self.ex.sym_obj(st, nm, o[T][1])
        self.put(Ptr(b, o[T + '.x'][0]), x or '0')
        self.put(Ptr(b, o[T + '.y'][0]), y or '0')
        st.store(Ptr(b, o[T + '.inf'][0]), C(x is None, 32), 4)
        return b

    def jac(self, nm, x, y, z):
        o, st = self.o, self.st
        b = self.ex.sym_obj(st, nm, o['jge_t'][1])
        inf = x is None
        self.put(Ptr(b, o['jge_t.x'][0]), '1' if inf else '(%s)*%s**2' % (x, z))
        self.put(Ptr(b, o['jge_t.y'][0]), '1' if inf else '(%s)*%s**3' % (y, z))
        self.put(Ptr(b, o['jge_t.z'][0]), '0' if inf else z)
        st.store(Ptr(b, o['jge_t.inf'][0]), C(inf, 32), 4)
        st.store(Ptr(b, o['jge_t.aff'][0]), C(not inf and z == '1', 32), 4)
        return b

    def flag(self, s, p):
        v = s.load(p, 4)
        return v.val if v.op == 'c' else None

    def want(self, s, b, T, exp):
        """the structure holds the expected affine point"""
        o, A, run = self.o, self.A, self.run
        inf = self.flag(s, Ptr(b, o[T + '.inf'][0]))
        e = {k: run.val(s, Ptr(b, o[T + '.' + k][0])) for k in ('xyz' if T == 'jge_t' else 'xy')}
        if exp is None:
            if inf != 1:
                return False, 'infinity expected'
            if T == 'jge_t':
                ok = A.iszero(e['z'][0]) and self.flag(s, Ptr(b, o['jge_t.aff'][0])) == 0 and \
                    A.same(e['x'], A.one()) and A.same(e['y'], A.one())
            else:
                ok = A.iszero(e['x'][0]) and A.iszero(e['y'][0])
            return ok, 'canonical coordinates of infinity expected'
        if inf != 0:
            return False, 'finite point expected'
        x, y = A.of(exp[0]), A.of(exp[1])
        if T == 'jge_t':
            z = e['z']
            zz = A.mul(z, z)
            if not A.unit(z[0]):
                return False, 'z may be zero: %s' % (z[0],)
            if self.flag(s, Ptr(b, o['jge_t.aff'][0])) and not A.same(z, A.one()):
                return False, 'marked affine but z is not one'
            return A.same(e['x'], A.mul(x, zz)) and A.same(e['y'], A.mul(y, A.mul(z, zz))), 'coordinates differ from the group law'
        return A.same(e['x'], x) and A.same(e['y'], y), 'coordinates differ from the group law'


def expected(case, neg=False):
    """result of the addition in a case"""
    p = case.p
    if p[0] is None and p[2] is None:
        return None
    if case.name in ('opposite points', 'equal points of order two'):
        return None
    return ('X', 'Y')


def useful(case, curve):
    if curve[1] == 1 and 'order two' in case.name:
        return False
    # with fixed a some cases force more than one relation
    return True


def wei_cases():
    for curve in CURVES:
        for case in WADD + WINF:
            if useful(case, curve):
                yield curve, case


def add_unit(fnm, t1, t2, t3, sub=False, alias=True):
    def unit(U):
        for curve, case in wei_cases():
            zs = [('1', 'z2'), ('z1', '1'), ('z1', 'z2')] if t2 == 'jge_t' else [('z1', '1'), ('1', '1')] if t1 == 'jge_t' else [('1', '1')]
            for z1, z2 in zs:
                for al in ((0, 1) if z1 == zs[0][0] else (0,)):
                    def build(sc):
                        W = Wei(U, U.exec(['ecc'], 'c64'), case, curve, z1, z2, sc)
                        p = case.p
                        y2 = p[3]
                        if sub and y2 is not None:
                            y2 = '-(%s)' % y2
                        a = W.jac('p1', p[0], p[1], z1) if t1 == 'jge_t' else W.affine('p1', p[0], p[1])
                        b = W.jac('p2', p[2], y2, z2) if t2 == 'jge_t' else W.affine('p2', p[2], y2)
                        c = a if al else (W.jac('p3', '0', '0', '1') if t3 == 'jge_t' else W.affine('p3', '0', '0'))
                        W.out = c
                        W.run.W = W
                        b.const = True
                        if not al:
                            a.const = True
                        return W.run, list(W.ex.call(W.st, fnm, [W.ec, Ptr(c), Ptr(a), Ptr(b)]))

                    def check(run, s, r):
                        return run.W.want(s, run.W.out, t3, expected(case))
                    explore(U, '%s, a %s, h %d, z %s %s%s' % (case.name, curve[2] or 'any', curve[1], z1, z2, ', in place' if al else ''), build, check)
    return unit


WDBL = [WADD[4], WADD[5], WINF[2]]


def dbl_unit(fnm, t):
    def unit(U):
        for curve in CURVES:
            for case in WDBL:
                if not useful(case, curve):
                    continue
                for z1 in (('z1', '1') if t == 'jge_t' else ('1',)):
                    for al in (0, 1):
                        def build(sc):
                            W = Wei(U, U.exec(['ecc'], 'c64'), case, curve, z1, None, sc)
                            p = case.p
                            a = W.jac('p1', p[0], p[1], z1) if t == 'jge_t' else W.affine('p1', p[0], p[1])
                            c = a if al else (W.jac('p3', '0', '0', '1') if t == 'jge_t' else W.affine('p3', '0', '0'))
                            W.out = c
                            W.run.W = W
                            return W.run, list(W.ex.call(W.st, fnm, [W.ec, Ptr(c), Ptr(a)]))

                        def check(run, s, r):
                            return run.W.want(s, run.W.out, t, expected(case))
                        explore(U, '%s, a %s, h %d, z %s%s' % (case.name, curve[2] or 'any', curve[1], z1, ', in place' if al else ''), build, check)
    return unit


def flagval(r):
    return r.val if r is not None and r.op == 'c' else None


def jmisc_unit(U):
    """negation, comparison and conversion of Weierstrass points"""
    def go(name, case, z1, z2, f, curve=CURVES[0]):
        def build(sc):
            W = Wei(U, U.exec(['ecc'], 'c64'), case, curve, z1, z2, sc)
            W.run.W = W
            W.check, outs = f(W, case.p)
            return W.run, list(outs)
        explore(U, name + ', ' + case.name, build, lambda run, s, r: run.W.check(s, r))
    one = [Case('finite', 'x1,y1,A', [], p=('x1', 'y1')), Case('infinite', 'A,x1', [], p=(None, None))]
    for case in one:
        fin = case.p[0] is not None
        ng = ('x1', '-y1') if fin else None
        sm = ('x1', 'y1') if fin else None
        for z1 in ('z1', '1'):
            for al in (0, 1):
                def neg(W, p):
                    a = W.jac('p', p[0], p[1], z1)
                    c = a if al else W.jac('r', '0', '0', '1')
                    return (lambda s, r: W.want(s, c, 'jge_t', ng)), W.ex.call(W.st, 'jge_neg', [W.ec, Ptr(c), Ptr(a)])
                go('jge_neg z %s alias %d' % (z1, al), case, z1, None, neg)
            for fnm in ('wge_set_jge', 'wge_set_jge_var'):
                def conv(W, p):
                    a = W.jac('p', p[0], p[1], z1)
                    a.const = True
                    c = W.affine('r', '0', '0')
                    return (lambda s, r: W.want(s, c, 'wge_t', sm)), W.ex.call(W.st, fnm, [W.ec, Ptr(c), Ptr(a)])
                go('%s z %s' % (fnm, z1), case, z1, None, conv)

        def wneg(W, p):
            a = W.affine('p', p[0], p[1])
            c = W.affine('r', '0', '0')
            return (lambda s, r: W.want(s, c, 'wge_t', ng)), W.ex.call(W.st, 'wge_neg', [W.ec, Ptr(c), Ptr(a)])
        go('wge_neg', case, None, None, wneg)

        def up(W, p):
            a = W.affine('p', p[0], p[1])
            c = W.jac('r', '0', '0', '1')
            return (lambda s, r: W.want(s, c, 'jge_t', sm)), W.ex.call(W.st, 'jge_set_wge', [W.ec, Ptr(c), Ptr(a)])
        go('jge_set_wge', case, None, None, up)
    # comparison with an abscissa
    for case, want in ((Case('same', 'x1,y1,A', p=('x1', 'y1', 'x1')), 1), (Case('other', 'x1,x2,y1,A', nz=['x1-x2'], p=('x1', 'y1', 'x2')), 0),
                       (Case('infinite', 'x1,A', p=(None, None, 'x1')), 0)):
        def ex_(W, p):
            a = W.jac('p', p[0], p[1], 'z1')
            b = W.ex.sym_obj(W.st, 'x', W.o['fe_t'][1])
            W.put(Ptr(b), p[2])
            return (lambda s, r: (flagval(r) == want, 'returned %s' % (r,))), W.ex.call(W.st, 'jge_equal_x', [W.ec, Ptr(a), Ptr(b)])
        go('jge_equal_x', case, 'z1', None, ex_)
    # many conversions with one inversion
    for mask in range(8):
        case = Case('infinite %d%d%d' % (mask & 1, mask >> 1 & 1, mask >> 2), 'x1,y1,x2,y2,x3,y3,A', p=())
        def all_(W, p):
            o = W.o
            n = o['jge_t'][1]
            inb = W.ex.sym_obj(W.st, 'in', 3 * n)
            m = o['wge_t'][1]
            out = W.ex.sym_obj(W.st, 'out', 3 * m)
            for i in range(3):
                inf = mask >> i & 1
                z = 'z%d' % (i + 1)
                W.put(Ptr(inb, i * n + o['jge_t.x'][0]), '1' if inf else 'x%d*%s**2' % (i + 1, z))
                W.put(Ptr(inb, i * n + o['jge_t.y'][0]), '1' if inf else 'y%d*%s**3' % (i + 1, z))
                W.put(Ptr(inb, i * n + o['jge_t.z'][0]), '0' if inf else z)
                W.st.store(Ptr(inb, i * n + o['jge_t.inf'][0]), C(inf, 32), 4)
                W.st.store(Ptr(inb, i * n + o['jge_t.aff'][0]), C(0, 32), 4)

            def check(s, r):
                for i in range(3):
                    x, y = [W.run.val(s, Ptr(out, i * m + o['wge_t.' + k][0])) for k in 'xy']
                    inf = mask >> i & 1
                    if W.flag(s, Ptr(out, i * m + o['wge_t.inf'][0])) != inf:
                        return False, 'infinity of point %d' % i
                    if not inf and not (W.A.same(x, W.A.of('x%d' % (i + 1))) and W.A.same(y, W.A.of('y%d' % (i + 1)))):
                        return False, 'point %d' % i
                return True, ''
            return check, W.ex.call(W.st, 'wge_set_jge_all_var', [W.ec, Ptr(out), Ptr(inb), K(3)])

        def build(sc):
            W = Wei(U, U.exec(['ecc'], 'c64'), Case(case.name, case.vars + ',z1,z2,z3', nz=['z1', 'z2', 'z3'], p=()), CURVES[0], None, None, sc)
            W.run.W = W
            W.check, outs = all_(W, ())
            return W.run, list(outs)
        explore(U, 'wge_set_jge_all_var of three, ' + case.name, build, lambda run, s, r: run.W.check(s, r))


# ------------------------------------------------------------------ Montgomery

ML = [('X', 'B*l**2-A-x1-x2'), ('Y', 'l*(x1-X)-y1')]
MADD = [
    Case('different abscissas', 'x1,x2,y1,l,A,B', [('y2', 'y1+l*(x2-x1)')] + ML, nz=['x1-x2', 'B'], p=('x1', 'y1', 'x2', 'y2')),
    Case('equal points', 'x1,y1,l,A,B', [('x2', 'x1')] + ML, rel='2*B*y1*l-(3*x1**2+2*A*x1+1)', nz=['y1', 'B'], p=('x1', 'y1', 'x1', 'y1')),
    Case('equal points of order two', 'x1,A,B', [], nz=['B'], p=('x1', '0', 'x1', '0')),
    Case('opposite points', 'x1,y1,A,B', [], nz=['y1', 'B'], p=('x1', 'y1', 'x1', '-y1')),
    Case('first infinite', 'x1,y1,A,B', [('X', 'x1'), ('Y', 'y1')], nz=['B'], p=(None, None, 'x1', 'y1')),
    Case('second infinite', 'x1,y1,A,B', [('X', 'x1'), ('Y', 'y1')], nz=['B'], p=('x1', 'y1', None, None)),
    Case('both infinite', 'x1,A,B', [], nz=['B'], p=(None, None, None, None)),
]


class Mont(Wei):
    def __init__(self, U, base, case, script=(), bone=False, extra=()):
        self.ex, self.st = base
        st = self.st
        self.A = case.alg(extra)
        self.run = Run(U, self.ex, self.A, list(script))
        self.run.W = self
        o = self.o = self.run.o
        ec = self.ex.sym_obj(st, 'ec', o['mont_t'][1])
        self.ec = Ptr(ec)
        for k, s in ONES.items():
            self.put(Ptr(ec, o['mont_t.fe'][0] + o['prime_field_t.' + k][0]), s)
        self.put(Ptr(ec, o['mont_t.a'][0]), 'A')
        self.put(Ptr(ec, o['mont_t.b'][0]), 'B')
        self.put(Ptr(ec, o['mont_t.a24'][0]), '(A+2)/4')
        st.store(Ptr(ec, o['mont_t.b_one'][0]), C(0, 32), 4)
        st.store(Ptr(ec, o['mont_t.fe'][0] + o['prime_field_t.scmul_a24'][0]), K(0), 8)


def mont_unit(U):
    for fnm in ('mge_add', 'mge_sub'):
        for case in MADD:
            for al in (0, 1):
                def build(sc):
                    W = Mont(U, U.exec(['ecc'], 'c64'), case, sc)
                    p = case.p
                    y2 = p[3] if fnm == 'mge_add' or p[3] is None else '-(%s)' % p[3]
                    a, b = W.affine('p1', p[0], p[1], 'mge_t'), W.affine('p2', p[2], y2, 'mge_t')
                    W.out = a if al else W.affine('p3', '0', '0', 'mge_t')
                    return W.run, list(W.ex.call(W.st, fnm, [W.ec, Ptr(W.out), Ptr(a), Ptr(b)]))
                explore(U, '%s, %s%s' % (fnm, case.name, ', in place' if al else ''), build,
                        lambda run, s, r: run.W.want(s, run.W.out, 'mge_t', expected(case)))


def xz(W, nm, x, z):
    b = W.ex.sym_obj(W.st, nm, W.o['pge_t'][1])
    W.put(Ptr(b, W.o['pge_t.x'][0]), x)
    W.put(Ptr(b, W.o['pge_t.z'][0]), z)
    return b


def ladder_unit(U):
    """x-only doubling and differential addition"""
    def coord(W, s, b):
        return [W.run.get(s, Ptr(b, W.o['pge_t.' + k][0]), 1) for k in 'xz']
    num, den = '(X2**2-Z2**2)**2', '4*X2*Z2*(X2**2+A*X2*Z2+Z2**2)'
    for case, inf in ((Case('finite', 'X2,Z2,A,B', nz=['X2', 'Z2', 'X2**2+A*X2*Z2+Z2**2']), 0), (Case('infinite', 'X2,A,B', [('Z2', '0*X2')], nz=['X2']), 1),
                      (Case('order two at the origin', 'Z2,A,B', [('X2', '0*Z2')], nz=['Z2']), 1)):
        for al in (0, 1):
            def build(sc):
                W = Mont(U, U.exec(['ecc'], 'c64'), case, sc)
                a = xz(W, 'p', 'X2', 'Z2')
                W.out = a if al else xz(W, 'r', '0', '0')
                return W.run, list(W.ex.call(W.st, 'pge_dbl', [W.ec, Ptr(W.out), Ptr(a)]))

            def check(run, s, r):
                W = run.W
                x, z = coord(W, s, W.out)
                if inf:
                    return W.A.iszero(z[0]) and W.A.same(x, W.A.one()), '(1, 0) expected'
                return W.A.same(W.A.mul(x, W.A.of(den)), W.A.mul(z, W.A.of(num))) and W.A.unit(z[0]), 'doubling differs'
            explore(U, 'pge_dbl, %s%s' % (case.name, ', in place' if al else ''), build, check)
    case = Case('any', 'X1,Z1,X2,Z2,X3,Z3,A,B')
    for affine in (0, 1):
        for al in (0, 1):
            def build(sc):
                W = Mont(U, U.exec(['ecc'], 'c64'), case, sc)
                a, b, c = xz(W, 'p1', 'X1', '1' if affine else 'Z1'), xz(W, 'p2', 'X2', 'Z2'), xz(W, 'p3', 'X3', 'Z3')
                W.o4, W.o5 = (b, c) if al else (xz(W, 'p4', '0', '0'), xz(W, 'p5', '0', '0'))
                return W.run, list(W.ex.call(W.st, 'pge_ladder', [W.ec, Ptr(W.o4), Ptr(W.o5), Ptr(a), Ptr(b), Ptr(c), C(affine, 32)]))

            def check(run, s, r):
                W, A = run.W, run.A
                x4, z4 = coord(W, s, W.o4)
                x5, z5 = coord(W, s, W.o5)
                ok = A.same(x4, A.of(num)) and A.same(z4, A.of(den))
                u = A.of('(X2*X3-Z2*Z3)**2')
                v = A.of('(X2*Z3-X3*Z2)**2')
                z1 = A.of('1' if affine else 'Z1')
                four = A.of('4')
                ok = ok and A.same(x5, A.mul(four, A.mul(z1, u))) and A.same(z5, A.mul(four, A.mul(A.of('X1'), v)))
                return ok, 'ladder step differs'
            explore(U, 'pge_ladder affine %d%s' % (affine, ', in place' if al else ''), build, check)


# ------------------------------------------------------------------ Edwards

class Edw(Wei):
    def __init__(self, U, base, case, kind, script=()):
        self.ex, self.st = base
        st = self.st
        a = {'a': 'a', 'one': '1', 'mone': '-1'}[kind]
        case = Case(case.name, case.vars, [('a', a + '+0*d')] * (kind != 'a') + list(case.sub), case.rel, case.nz, case.p)
        if kind == 'a':
            case.vars += ',a'
        self.A = case.alg()
        self.run = Run(U, self.ex, self.A, list(script))
        self.run.W = self
        o = self.o = self.run.o
        ec = self.ex.sym_obj(st, 'ec', o['edwards_t'][1])
        self.ec = Ptr(ec)
        for k, s in ONES.items():
            self.put(Ptr(ec, o['edwards_t.fe'][0] + o['prime_field_t.' + k][0]), s)
        self.put(Ptr(ec, o['edwards_t.a'][0]), a)
        self.put(Ptr(ec, o['edwards_t.d'][0]), 'd')
        self.put(Ptr(ec, o['edwards_t.k'][0]), '2*d')
        st.store(Ptr(ec, o['edwards_t.mone_a'][0]), C(kind == 'mone', 32), 4)
        st.store(Ptr(ec, o['edwards_t.one_a'][0]), C(kind == 'one', 32), 4)
        st.store(Ptr(ec, o['edwards_t.fe'][0] + o['prime_field_t.scmul_d'][0]), K(0), 8)

    def point(self, nm, x, y, z):
        o = self.o
        b = self.ex.sym_obj(self.st, nm, o['xge_t'][1])
        for k, s in (('x', '(%s)*%s' % (x, z)), ('y', '(%s)*%s' % (y, z)), ('z', z), ('t', '(%s)*(%s)*%s' % (x, y, z))):
            self.put(Ptr(b, o['xge_t.' + k][0]), s)
        return b

    def wantp(self, s, b, x, y, den=None):
        """x, y: (numerator, denominator) expressions; den: factors of z that never vanish on the curve"""
        A, o = self.A, self.o
        X_, Y_, Z_, T_ = [self.run.val(s, Ptr(b, o['xge_t.' + k][0])) for k in 'xyzt']
        ok = A.same(A.mul(X_, A.of(x[1])), A.mul(Z_, A.of(x[0]))) and A.same(A.mul(Y_, A.of(y[1])), A.mul(Z_, A.of(y[0])))
        if not ok:
            return False, 'coordinates differ from the group law'
        if not A.same(A.mul(T_, Z_), A.mul(X_, Y_)):
            return False, 't differs from xy/z'
        if not A.unit(A.red(Z_[0])) and not A.unit(Z_[0]):
            return False, 'z may vanish: %s' % (Z_[0],)
        return True, ''


def edw_unit(fnm, sub, mixed):
    def unit(U):
        for kind in ('a', 'one', 'mone'):
            case = Case('any points', 'x1,y1,x2,y2,z1,z2,d', nz=['z1', 'z2', '1+d*x1*x2*y1*y2', '1-d*x1*x2*y1*y2'])
            for al in (0, 1):
                def build(sc):
                    W = Edw(U, U.exec(['ecc'], 'c64'), case, kind, sc)
                    a = W.point('p1', 'x1', 'y1', 'z1')
                    b = W.point('p2', '-x2' if sub else 'x2', 'y2', '1' if mixed else 'z2')
                    W.out = a if al else W.point('p3', '0', '0', '1')
                    return W.run, list(W.ex.call(W.st, fnm, [W.ec, Ptr(W.out), Ptr(a), Ptr(b)]))

                def check(run, s, r):
                    return run.W.wantp(s, run.W.out, ('x1*y2+y1*x2', '1+d*x1*x2*y1*y2'), ('y1*y2-a*x1*x2', '1-d*x1*x2*y1*y2'))
                explore(U, 'sum for a %s%s' % (kind, ', in place' if al else ''), build, check)
    return unit


def edw_misc_unit(U):
    for kind in ('a', 'one', 'mone'):
        rel = 'a*x1**2+y1**2-1-d*x1**2*y1**2'
        case = Case('any point', 'x1,y1,z1,d', rel=rel, nz=['z1', 'a*x1**2+y1**2', 'a*x1**2+y1**2-2', '1+d*x1*x1*y1*y1', '1-d*x1*x1*y1*y1'])
        for al in (0, 1):
            def build(sc):
                W = Edw(U, U.exec(['ecc'], 'c64'), case, kind, sc)
                a = W.point('p1', 'x1', 'y1', 'z1')
                W.out = a if al else W.point('p3', '0', '0', '1')
                return W.run, list(W.ex.call(W.st, 'xge_dbl', [W.ec, Ptr(W.out), Ptr(a)]))
            explore(U, 'xge_dbl for a %s%s' % (kind, ', in place' if al else ''), build, lambda run, s, r: run.W.wantp(
                s, run.W.out, ('2*x1*y1', '1+d*x1**2*y1**2'), ('y1**2-a*x1**2', '1-d*x1**2*y1**2')))

            def build(sc):
                W = Edw(U, U.exec(['ecc'], 'c64'), case, kind, sc)
                a = W.point('p1', 'x1', 'y1', 'z1')
                W.out = a if al else W.point('p3', '0', '0', '1')
                return W.run, list(W.ex.call(W.st, 'xge_neg', [W.ec, Ptr(W.out), Ptr(a)]))
            explore(U, 'xge_neg for a %s%s' % (kind, ', in place' if al else ''), build, lambda run, s, r: run.W.wantp(
                s, run.W.out, ('-x1', '1'), ('y1', '1')))
    for case, want in ((Case('different x', 'x1,y1,x2,y2,z1,z2,d', nz=['z1', 'z2', 'x1-x2'], p=('x1', 'y1', 'x2', 'y2')), 0),
                       (Case('different y', 'x1,y1,y2,z1,z2,d', nz=['z1', 'z2', 'y1-y2'], p=('x1', 'y1', 'x1', 'y2')), 0),
                       (Case('equal', 'x1,y1,z1,z2,d', nz=['z1', 'z2'], p=('x1', 'y1', 'x1', 'y1')), 1)):
        def build(sc):
            W = Edw(U, U.exec(['ecc'], 'c64'), case, 'a', sc)
            p = case.p
            a, b = W.point('p1', p[0], p[1], 'z1'), W.point('p2', p[2], p[3], 'z2')
            return W.run, list(W.ex.call(W.st, 'xge_equal', [W.ec, Ptr(a), Ptr(b)]))
        explore(U, 'xge_equal, ' + case.name, build, lambda run, s, r: (flagval(r) == want, 'returned %s' % (r,)))
    for case, want in ((Case('identity', 'z1,d', nz=['z1'], p=('0', '1')), 1), (Case('order two', 'z1,d', nz=['z1'], p=('0', '-1')), 0),
                       (Case('other', 'x1,y1,z1,d', nz=['z1', 'x1'], p=('x1', 'y1')), 0)):
        def build(sc):
            W = Edw(U, U.exec(['ecc'], 'c64'), case, 'a', sc)
            a = W.point('p1', case.p[0], case.p[1], 'z1')
            return W.run, list(W.ex.call(W.st, 'xge_is_zero', [W.ec, Ptr(a)]))
        explore(U, 'xge_is_zero, ' + case.name, build, lambda run, s, r: (flagval(r) == want, 'returned %s' % (r,)))


SRCS = [('ecc', 'c64')]
UNITS = []
for nm, t1, t2, t3, sb in (('wge_add_var', 'wge_t', 'wge_t', 'wge_t', False), 
                           ('wge_add', 'wge_t', 'wge_t', 'wge_t', False), ('wge_sub', 'wge_t', 'wge_t', 'wge_t', True),
                           ('jge_add_var', 'jge_t', 'jge_t', 'jge_t', False), ('jge_sub_var', 'jge_t', 'jge_t', 'jge_t', True),
                           ('jge_mixed_add_var', 'jge_t', 'wge_t', 'jge_t', False), ('jge_mixed_sub_var', 'jge_t', 'wge_t', 'jge_t', True),
                           ('jge_add', 'jge_t', 'jge_t', 'jge_t', False), 
                           ('jge_mixed_add', 'jge_t', 'wge_t', 'jge_t', False), ):
    UNITS.append((nm, add_unit(nm, t1, t2, t3, sb)))
for nm, t in (('wge_dbl_var', 'wge_t'), ('jge_dbl_var', 'jge_t'), ('jge_dbl', 'jge_t')):
    UNITS.append((nm, dbl_unit(nm, t)))

UNITS.append(('Weierstrass negation, comparison, conversion', jmisc_unit))
UNITS.append(('Montgomery affine', mont_unit))
UNITS.append(('Montgomery ladder', ladder_unit))
for nm, sb, mx in (('xge_add', 0, 0), ('xge_sub', 1, 0), ('xge_mixed_add', 0, 1), ('xge_mixed_sub', 1, 1)):
    UNITS.append((nm, edw_unit(nm, sb, mx)))
UNITS.append(('Edwards doubling, negation, comparison', edw_misc_unit))


# ------------------------------------------------------------------ real curves (bounded)

WRAP = r"""
#include "ecc.c"

void *t_wei_create(int i) { return wei_curve_create((wei_curve_id_t)i); }
void *t_mont_create(int i) { return mont_curve_create((mont_curve_id_t)i); }
void *t_edwards_create(int i) { return edwards_curve_create((edwards_curve_id_t)i); }

static void t_fe(const prime_field_t *fe, fe_t z, const unsigned char *x) {
  unsigned char b[MAX_FIELD_SIZE];
  size_t i;
  for (i = 0; i < fe->size; i++)
    b[i] = x[fe->endian == 1 ? fe->size - 1 - i : i];
  fe_import(fe, z, b);
}

static void t_out(const prime_field_t *fe, unsigned char *x, const fe_t z) {
  unsigned char b[MAX_FIELD_SIZE];
  size_t i;
  fe_export(fe, b, z);
  for (i = 0; i < fe->size; i++)
    x[i] = b[fe->endian == 1 ? fe->size - 1 - i : i];
}

static void t_w(const wei_t *ec, wge_t *r, const unsigned char *x, const unsigned char *y, int inf) {
  if (inf) { wge_zero(ec, r); return; }
  t_fe(&ec->fe, r->x, x);
  t_fe(&ec->fe, r->y, y);
  r->inf = 0;
}

static void t_j(const wei_t *ec, jge_t *r, const wge_t *p, const unsigned char *z) {
  const prime_field_t *fe = &ec->fe;
  fe_t t, u;
  jge_set_wge(ec, r, p);
  if (p->inf) return;
  t_fe(fe, u, z);
  if (fe_equal(fe, u, fe->one)) return;
  fe_sqr(fe, t, u);
  fe_mul(fe, r->x, p->x, t);
  fe_mul(fe, t, t, u);
  fe_mul(fe, r->y, p->y, t);
  fe_set(fe, r->z, u);
  r->aff = 0;
}

int t_wei(const wei_t *ec, int op, int alias, const unsigned char *x1, const unsigned char *y1, int i1, const unsigned char *z1,
          const unsigned char *x2, const unsigned char *y2, int i2, const unsigned char *z2, unsigned char *x3, unsigned char *y3) {
  wge_t a, b, c, *pc;
  jge_t ja, jb, jc, *pj;
  memset(&jc, 0, sizeof(jc)); memset(&c, 0, sizeof(c));
  t_w(ec, &a, x1, y1, i1);
  t_w(ec, &b, x2, y2, i2);
  t_j(ec, &ja, &a, z1);
  t_j(ec, &jb, &b, z2);
  pc = alias ? &a : &c;
  pj = alias ? &ja : &jc;
  switch (op) {
    case 0: wge_add_var(ec, pc, &a, &b); break;
    case 1: wge_sub_var(ec, pc, &a, &b); break;
    case 2: wge_add(ec, pc, &a, &b); break;
    case 3: wge_sub(ec, pc, &a, &b); break;
    case 4: wge_dbl_var(ec, pc, &a); break;
    case 5: wge_dbl(ec, pc, &a); break;
    case 6: wge_neg(ec, pc, &a); break;
    case 7: return wge_equal(ec, &a, &b);
    case 10: jge_add_var(ec, pj, &ja, &jb); break;
    case 11: jge_sub_var(ec, pj, &ja, &jb); break;
    case 12: jge_add(ec, pj, &ja, &jb); break;
    case 13: jge_sub(ec, pj, &ja, &jb); break;
    case 14: jge_mixed_add_var(ec, pj, &ja, &b); break;
    case 15: jge_mixed_sub_var(ec, pj, &ja, &b); break;
    case 16: jge_mixed_add(ec, pj, &ja, &b); break;
    case 17: jge_mixed_sub(ec, pj, &ja, &b); break;
    case 18: jge_dbl_var(ec, pj, &ja); break;
    case 19: jge_dbl(ec, pj, &ja); break;
    case 20: jge_neg(ec, pj, &ja); break;
    case 21: return jge_equal(ec, &ja, &jb);
    case 22: return jge_equal_x(ec, &ja, b.x);
    case 23: return jge_validate(ec, &ja);
    default: return -1;
  }
  if (op >= 10) {
    if (alias) wge_set_jge(ec, &c, pj); else wge_set_jge_var(ec, &c, pj);
    pc = &c;
  }
  t_out(&ec->fe, x3, pc->x);
  t_out(&ec->fe, y3, pc->y);
  return pc->inf;
}

int t_mon(const mont_t *ec, int op, int alias, const unsigned char *x1, const unsigned char *y1, int i1,
          const unsigned char *x2, const unsigned char *y2, int i2, unsigned char *x3, unsigned char *y3) {
  mge_t a, b, c, *pc = alias ? &a : &c;
  memset(&c, 0, sizeof(c));
  if (i1) mge_zero(ec, &a); else { t_fe(&ec->fe, a.x, x1); t_fe(&ec->fe, a.y, y1); a.inf = 0; }
  if (i2) mge_zero(ec, &b); else { t_fe(&ec->fe, b.x, x2); t_fe(&ec->fe, b.y, y2); b.inf = 0; }
  switch (op) {
    case 0: mge_add(ec, pc, &a, &b); break;
    case 1: mge_sub(ec, pc, &a, &b); break;
    default: return -1;
  }
  t_out(&ec->fe, x3, pc->x);
  t_out(&ec->fe, y3, pc->y);
  return pc->inf;
}

void t_lad(const mont_t *ec, int op, int alias, unsigned char *io) {
  size_t n = ec->fe.size;
  pge_t p[5];
  int i;
  for (i = 0; i < 5; i++) { t_fe(&ec->fe, p[i].x, io + 2 * i * n); t_fe(&ec->fe, p[i].z, io + (2 * i + 1) * n); }
  if (op == 0) {
    if (alias) { pge_dbl(ec, &p[1], &p[1]); p[3] = p[1]; } else pge_dbl(ec, &p[3], &p[1]);
  } else if (alias) {
    pge_ladder(ec, &p[1], &p[2], &p[0], &p[1], &p[2], op == 2); p[3] = p[1]; p[4] = p[2];
  } else {
    pge_ladder(ec, &p[3], &p[4], &p[0], &p[1], &p[2], op == 2);
  }
  for (i = 0; i < 5; i++) { t_out(&ec->fe, io + 2 * i * n, p[i].x); t_out(&ec->fe, io + (2 * i + 1) * n, p[i].z); }
}

static void t_x(const edwards_t *ec, xge_t *r, const unsigned char *x, const unsigned char *y, const unsigned char *z) {
  fe_t u, v;
  t_fe(&ec->fe, u, x); t_fe(&ec->fe, v, y); t_fe(&ec->fe, r->z, z);
  fe_mul(&ec->fe, r->x, u, r->z); fe_mul(&ec->fe, r->y, v, r->z); fe_mul(&ec->fe, r->t, r->x, v);
}

int t_edw(const edwards_t *ec, int op, int alias, const unsigned char *x1, const unsigned char *y1, const unsigned char *z1,
          const unsigned char *x2, const unsigned char *y2, const unsigned char *z2, unsigned char *out) {
  size_t n = ec->fe.size;
  xge_t a, b, c, *pc = alias ? &a : &c;
  memset(&c, 0, sizeof(c));
  t_x(ec, &a, x1, y1, z1); t_x(ec, &b, x2, y2, z2);
  switch (op) {
    case 0: xge_add(ec, pc, &a, &b); break;
    case 1: xge_sub(ec, pc, &a, &b); break;
    case 2: xge_mixed_add(ec, pc, &a, &b); break;
    case 3: xge_mixed_sub(ec, pc, &a, &b); break;
    case 4: xge_dbl(ec, pc, &a); break;
    case 5: xge_neg(ec, pc, &a); break;
    case 6: return xge_equal(ec, &a, &b);
    case 7: return xge_is_zero(ec, &a);
    default: return -1;
  }
  t_out(&ec->fe, out, pc->x); t_out(&ec->fe, out + n, pc->y); t_out(&ec->fe, out + 2 * n, pc->z); t_out(&ec->fe, out + 3 * n, pc->t);
  return 0;
}
"""

ECSRC = ['internal', 'util', 'mpi', 'drbg', 'hash', 'mac', 'kdf', 'cipher', 'stream', 'encoding', 'asn1', 'aead']
# p, a, b (standard documents)
P192, P224, P256 = 2**192 - 2**64 - 1, 2**224 - 2**96 + 1, 2**256 - 2**224 + 2**192 + 2**96 - 1
P384, P521, K256 = 2**384 - 2**128 - 2**96 + 2**32 - 1, 2**521 - 1, 2**256 - 2**32 - 977
WCURVES = [
    (0, 'P-192', P192, -3, 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1),
    (1, 'P-224', P224, -3, 0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4),
    (2, 'P-256', P256, -3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b),
    (3, 'P-384', P384, -3, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef),
    (4, 'P-521', P521, -3, 0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00),
    (5, 'secp256k1', K256, 0, 7)]
P25519, P448, P1174 = 2**255 - 19, 2**448 - 2**224 - 1, 2**251 - 9
MCURVES = [(0, 'x25519', P25519, 486662), (1, 'x448', P448, 156326)]
ECURVES = [(0, 'ed25519', P25519, -1, -121665 * pow(121666, -1, P25519)), (1, 'ed448', P448, 1, -39081), (2, 'ed1174', P1174, 1, -1174)]


def sqrtmod(a, p):
    """a square root of a modulo p, or None"""
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    s, q = 0, p - 1
    while q % 2 == 0:
        s, q = s + 1, q // 2
    z = 2
    while pow(z, (p - 1) // 2, p) == 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u, i = u * u % p, i + 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def wadd(p, a, P_, Q):
    """Weierstrass or Montgomery (a = ('m', A)) chord and tangent law; None is the point at infinity"""
    if P_ is None:
        return Q
    if Q is None:
        return P_
    mont = isinstance(a, tuple)
    if P_[0] == Q[0]:
        if (P_[1] + Q[1]) % p == 0:
            return None
        if mont:
            l = (3 * P_[0]**2 + 2 * a[1] * P_[0] + 1) * pow(2 * P_[1], -1, p)
        else:
            l = (3 * P_[0]**2 + a) * pow(2 * P_[1], -1, p)
    else:
        l = (Q[1] - P_[1]) * pow(Q[0] - P_[0], -1, p)
    x = (l * l - P_[0] - Q[0] - (a[1] if mont else 0)) % p
    return x, (l * (P_[0] - x) - P_[1]) % p


class Lib:
    def __init__(self, config):
        self.config = config
        self.lib = clib(ECSRC, wrapper=WRAP, config=config)
        for k in ('wei', 'mont', 'edwards'):
            f = getattr(self.lib, 't_%s_create' % k)
            f.restype, f.argtypes = ctypes.c_void_p, [ctypes.c_int]
        self.wei = [self.lib.t_wei_create(c[0]) for c in WCURVES]
        self.mont = [self.lib.t_mont_create(c[0]) for c in MCURVES]
        self.edw = [self.lib.t_edwards_create(c[0]) for c in ECURVES]


WOPS = {0: '+', 1: '-', 2: '+', 3: '-', 4: 'd', 5: 'd', 6: 'n', 7: '=', 10: '+', 11: '-', 12: '+', 13: '-', 14: '+', 15: '-', 16: '+', 17: '-',
        18: 'd', 19: 'd', 20: 'n', 21: '=', 22: 'x'}
I_, V_ = ctypes.c_int, ctypes.c_void_p


def wei_one(rng, L, i):
    _, nm, p, a, b = WCURVES[i]
    n = (p.bit_length() + 7) // 8
    e = lambda v: (v % p).to_bytes(n, 'little')
    def point():
        while 1:
            x = rng.randrange(p)
            if not rng.randrange(8):
                x = 0
            y = sqrtmod(x**3 + a * x + b, p)
            if y is not None:
                return x, (y if rng.randrange(2) else -y % p)
    def neg(P):
        return P and (P[0], -P[1] % p)
    P = point()
    Q = rng.choice([point(), P, neg(P), None, wadd(p, a, P, P), point()])
    if a == 0 and rng.randrange(3) == 0:
        # the same ordinate with another abscissa: multiply by a cube root of one
        w = pow(2, (p - 1) // 3, p)
        Q = (P[0] * w % p, rng.choice([P[1], -P[1] % p]))
    if rng.randrange(8) == 0:
        P = None
    op, alias = rng.choice(list(WOPS)), rng.randrange(2)
    z1, z2 = [rng.choice([1, 1, rng.randrange(1, p), p - 1]) for _ in 'ab']
    X, Y = ctypes.create_string_buffer(n), ctypes.create_string_buffer(n)
    p1, p2 = P or (0, 0), Q or (0, 0)
    f = L.lib.t_wei
    f.argtypes = [V_, I_, I_, V_, V_, I_, V_, V_, V_, I_, V_, V_, V_]
    r = f(L.wei[i], op, alias, e(p1[0]), e(p1[1]), P is None, e(z1), e(p2[0]), e(p2[1]), Q is None, e(z2), X, Y)
    k = WOPS[op]
    ctx = dict(curve=nm, op=op, alias=alias, P=str(P), Q=str(Q), z1=z1, z2=z2, config=L.config)
    if k in '=x':
        want = int(P == Q) if k == '=' else int(P is not None and P[0] == p2[0])
        if r != want:
            raise Fail('%s: comparison %d returned %d' % (nm, op, r), ctx)
        return
    want = {'+': lambda: wadd(p, a, P, Q), '-': lambda: wadd(p, a, P, neg(Q)), 'd': lambda: wadd(p, a, P, P), 'n': lambda: neg(P)}[k]()
    got = None if r else (int.from_bytes(X.raw, 'little'), int.from_bytes(Y.raw, 'little'))
    if got != want:
        raise Fail('%s: operation %d gives %s, group law gives %s' % (nm, op, got, want), ctx)


def mont_one(rng, L, i):
    _, nm, p, A = MCURVES[i]
    n = (p.bit_length() + 7) // 8
    e = lambda v: (v % p).to_bytes(n, 'little')
    def point():
        while 1:
            x = rng.randrange(p) if rng.randrange(8) else 0
            y = sqrtmod(x**3 + A * x * x + x, p)
            if y is not None:
                return x, (y if rng.randrange(2) else -y % p)
    P = point()
    Q = rng.choice([point(), P, (P[0], -P[1] % p), None, (0, 0), point()])
    if rng.randrange(8) == 0:
        P = None
    op, alias = rng.randrange(2), rng.randrange(2)
    X, Y = ctypes.create_string_buffer(n), ctypes.create_string_buffer(n)
    f = L.lib.t_mon
    f.argtypes = [V_, I_, I_, V_, V_, I_, V_, V_, I_, V_, V_]
    p1, p2 = P or (0, 0), Q or (0, 0)
    r = f(L.mont[i], op, alias, e(p1[0]), e(p1[1]), P is None, e(p2[0]), e(p2[1]), Q is None, X, Y)
    want = wadd(p, ('m', A), P, (Q and (Q[0], -Q[1] % p)) if op else Q)
    got = None if r else (int.from_bytes(X.raw, 'little'), int.from_bytes(Y.raw, 'little'))
    if got != want:
        raise Fail('%s: operation %d gives %s, group law gives %s' % (nm, op, got, want), dict(curve=nm, op=op, alias=alias, P=str(P), Q=str(Q), config=L.config))
    # ladder step on multiples of a common point
    D, P = point(), point()
    S = wadd(p, ('m', A), P, D)
    if D[0] == 0 or P[0] == 0 or S is None:
        return
    op = rng.randrange(3)
    zs = [rng.randrange(1, p) for _ in range(3)]
    if op == 2:
        zs[0] = 1
    io = b''.join(e(q[0] * z) + e(z) for q, z in zip((D, P, S), zs)) + b'\0' * (4 * n)
    buf = ctypes.create_string_buffer(io, len(io))
    L.lib.t_lad.argtypes = [V_, I_, I_, V_]
    L.lib.t_lad(L.mont[i], op, rng.randrange(2), buf)
    v = [int.from_bytes(buf.raw[j * n:j * n + n], 'little') for j in range(10)]
    def ax(j):
        return None if v[j + 1] == 0 else v[j] * pow(v[j + 1], -1, p) % p
    x = lambda q: None if q is None else q[0]
    d2, s2 = wadd(p, ('m', A), P, P), wadd(p, ('m', A), P, S)
    if ax(6) != x(d2) or (op and ax(8) != x(s2)):
        raise Fail('%s: ladder step differs from the group law' % nm, dict(curve=nm, op=op, D=str(D), P=str(P), config=L.config))


def edw_one(rng, L, i):
    _, nm, p, a, d = ECURVES[i]
    n = (p.bit_length() + 7) // 8
    e = lambda v: (v % p).to_bytes(n, 'little')
    def point():
        if rng.randrange(8) == 0:
            return rng.choice([(0, 1), (0, p - 1)])
        while 1:
            y = rng.randrange(p)
            u = (1 - y * y) * pow(a - d * y * y, -1, p)
            x = sqrtmod(u, p)
            if x is not None:
                return (x if rng.randrange(2) else -x % p), y
    P = point()
    Q = rng.choice([point(), point(), P, (-P[0] % p, P[1]), (0, 1), (0, p - 1)])
    op, alias = rng.randrange(8), rng.randrange(2)
    z1, z2 = [rng.choice([1, rng.randrange(1, p), p - 1]) for _ in 'ab']
    if op in (2, 3):
        z2 = 1
    out = ctypes.create_string_buffer(4 * n)
    f = L.lib.t_edw
    f.argtypes = [V_, I_, I_, V_, V_, V_, V_, V_, V_, V_]
    r = f(L.edw[i], op, alias, e(P[0]), e(P[1]), e(z1), e(Q[0]), e(Q[1]), e(z2), out)
    ctx = dict(curve=nm, op=op, alias=alias, P=str(P), Q=str(Q), z1=z1, z2=z2, config=L.config)
    def add(P, Q):
        t = d * P[0] * Q[0] * P[1] * Q[1]
        return ((P[0] * Q[1] + P[1] * Q[0]) * pow(1 + t, -1, p) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * pow(1 - t, -1, p) % p)
    if op in (6, 7):
        want = int(P == Q) if op == 6 else int(P == (0, 1))
        if r != want:
            raise Fail('%s: comparison %d returned %d' % (nm, op, r), ctx)
        return
    x, y, z, t = [int.from_bytes(out.raw[j * n:j * n + n], 'little') for j in range(4)]
    want = {0: lambda: add(P, Q), 2: lambda: add(P, Q), 4: lambda: add(P, P), 5: lambda: (-P[0] % p, P[1])}.get(op, lambda: add(P, (-Q[0] % p, Q[1])))()
    if z % p == 0 or (x - want[0] * z) % p or (y - want[1] * z) % p or (t * z - x * y) % p:
        raise Fail('%s: operation %d differs from the group law' % (nm, op), ctx)


def concrete(rng, budget, hints):
    t0 = time.time()
    n = 0
    libs = [Lib('c64'), Lib('c32')]
    while n < 60 or time.time() - t0 < budget:
        for L in libs:
            for i in range(6):
                wei_one(rng, L, i)
            for i in range(2):
                mont_one(rng, L, i)
            for i in range(3):
                edw_one(rng, L, i)
            n += 11
    return n
