"""C16: arithmetic modulo the group order.

A number is the concatenation of its words.  The multi-precision kernels are
used by the contracts proved in C14; the constants are those the library
computes for each curve and are checked against their definitions."""
import time
from .ghost import *        # noqa
from . import c17
from lvc import intenc

SRCS = [('ecc', 'c64'), ('mpi', 'c64')]
FILES = ['ecc', 'mpi', 'internal', 'util']
M = 'torsion__mpn_'
W = 64
CURVES = [('wei', i, c[1]) for i, c in enumerate(c17.WCURVES)] + [('mont', i, c[1]) for i, c in enumerate(c17.MCURVES)] + \
         [('edwards', i, c[1]) for i, c in enumerate(c17.ECURVES)]
FIELDS_ = ['endian', 'bits', 'limbs', 'shift', 'size', 'mask', 'n', 'nh', 'm', 'k', 'r2', 'invert']
KEEP = '#include "ecc.c"\nvoid *torsion_keep[] = {(void *)sc_sub, (void *)sc_sqr};\n'

CWRAP = r"""
#include "ecc.c"
#include <stdlib.h>
const scalar_field_t *t_sc(int kind, int i) {
  if (kind == 0) return &wei_curve_create((wei_curve_id_t)i)->sc;
  if (kind == 1) return &mont_curve_create((mont_curve_id_t)i)->sc;
  return &edwards_curve_create((edwards_curve_id_t)i)->sc;
}
void t_g(int kind, int i, unsigned char *x, unsigned char *y) {
  if (kind == 0) { wei_t *e = wei_curve_create((wei_curve_id_t)i); fe_export(&e->fe, x, e->g.x); fe_export(&e->fe, y, e->g.y); }
  if (kind == 1) { mont_t *e = mont_curve_create((mont_curve_id_t)i); fe_export(&e->fe, x, e->g.x); fe_export(&e->fe, y, e->g.y); }
  if (kind == 2) { edwards_t *e = edwards_curve_create((edwards_curve_id_t)i); fe_export(&e->fe, x, e->g.x); fe_export(&e->fe, y, e->g.y); }
}
int t_op(const scalar_field_t *sc, int op, mp_limb_t *z, const mp_limb_t *x, const mp_limb_t *y, const unsigned char *raw, size_t len, unsigned char *out) {
  switch (op) {
    case 0: sc_add(sc, z, x, y); return 0;
    case 1: sc_sub(sc, z, x, y); return 0;
    case 2: sc_neg(sc, z, x); return 0;
    case 3: sc_neg_cond(sc, z, x, (int)len); return 0;
    case 4: sc_mul(sc, z, x, y); return 0;
    case 5: sc_sqr(sc, z, x); return 0;
    case 6: sc_mul_word(sc, z, x, y[0]); return 0;
    case 7: return sc_invert(sc, z, x);
    case 8: return sc_invert_var(sc, z, x);
    case 9: return sc_minimize(sc, z, x);
    case 10: return sc_minimize_var(sc, z, x);
    case 11: return sc_is_high(sc, x);
    case 12: return sc_is_high_var(sc, x);
    case 13: return sc_is_canonical(sc, x);
    case 14: return sc_is_zero(sc, x);
    case 15: return sc_equal(sc, x, y);
    case 16: return sc_cmp_var(sc, x, y);
    case 17: return sc_import(sc, z, raw);
    case 18: return sc_import_reduce(sc, z, raw);
    case 19: return sc_import_wide(sc, z, raw, len);
    case 20: return sc_import_pad(sc, z, raw, len);
    case 21: sc_export(sc, out, x); return 0;
    case 22: sc_mont(sc, z, x); sc_normal(sc, z, z); return 0;
    case 23: sc_montmul(sc, z, x, y); sc_montmul(sc, z, z, sc->r2); return 0;
    default: return -1;
  }
}
"""


def lay():
    o = offsets('"ecc.c"', ['scalar_field_t'] + ['scalar_field_t.' + x for x in FIELDS_])
    return {k.replace('scalar_field_t.', ''): v for k, v in o.items()}


_real = {}


def real(kind, i):
    """the scalar field structure the library builds"""
    key = (kind, i)
    if key not in _real:
        lib = clib(c17.ECSRC, wrapper=CWRAP)
        lib.t_sc.restype = ctypes.c_void_p
        p = lib.t_sc(['wei', 'mont', 'edwards'].index(kind), i)
        L = lay()
        raw = ctypes.string_at(p, L['scalar_field_t'][1])
        v = {f: int.from_bytes(raw[L[f][0]:L[f][0] + L[f][1]], 'little') for f in FIELDS_}
        v['endian'] = v['endian'] - (1 << 32) if v['endian'] >> 31 else v['endian']
        xb = [ctypes.create_string_buffer(80) for _ in 'ab']
        lib.t_g(['wei', 'mont', 'edwards'].index(kind), i, *xb)
        n = (PR[kind][i][2].bit_length() + 7) // 8
        v['g'] = [int.from_bytes(b.raw[:n], 'big' if v['endian'] == 1 else 'little') for b in xb]
        _real[key] = v
    return _real[key]


PR = {'wei': c17.WCURVES, 'mont': c17.MCURVES, 'edwards': c17.ECURVES}


def mulpoint(kind, i, k, G):
    c = PR[kind][i]
    p = c[2]
    if kind == 'edwards':
        a, d = c[3], c[4]

        def add_(P, Q):
            t = d * P[0] * Q[0] * P[1] * Q[1]
            return ((P[0] * Q[1] + P[1] * Q[0]) * pow(1 + t, -1, p) % p, (P[1] * Q[1] - a * P[0] * Q[0]) * pow(1 - t, -1, p) % p)
        R = (0, 1)
    else:
        a = ('m', c[3]) if kind == 'mont' else c[3]
        add_ = lambda P, Q: c17.wadd(p, a, P, Q)
        R = None
    for b in bin(k)[2:]:
        R = add_(R, R)
        if b == '1':
            R = add_(R, G)
    return R


def const_unit(kind, i):
    """the constants of a scalar field are what they are meant to be"""
    def unit(U):
        from sympy import isprime
        U.need_reach = False
        v = real(kind, i)
        n, sh = v['n'], v['shift']
        U.ob('the order is prime', bool(isprime(n)), 'evaluation')
        ident = (0, 1) if kind == 'edwards' else None
        G = tuple(v['g'])
        U.ob('the order annihilates the generator', G != ident and mulpoint(kind, i, n, G) == ident, 'evaluation')
        U.ob('sizes', v['bits'] == n.bit_length() and v['limbs'] == -(-n.bit_length() // 64) and v['size'] == -(-n.bit_length() // 8) and
             v['shift'] == 2 * v['limbs'] + 2, 'evaluation')
        U.ob('half of the order', v['nh'] == n >> 1, 'evaluation')
        U.ob('Barrett constant', v['m'] == (1 << (64 * sh)) // n, 'evaluation')
        U.ob('Montgomery constants', (v['k'] * n + 1) % (1 << 64) == 0 and v['r2'] == pow(2, 128 * v['limbs'], n), 'evaluation')
        U.ob('byte mask', v['mask'] == ((1 << (n.bit_length() % 8)) - 1 or 0xff), 'evaluation')
        U.ob('half of the order rounds down', n == 2 * v['nh'] + 1, 'evaluation')
    return unit


class Sc:
    def __init__(self, U, kind, i):
        self.U = U
        v = self.v = real(kind, i)
        ex, st = U.exec_text(KEEP, ['mpi', 'internal', 'util'])
        self.ex, self.st = ex, st
        L = lay()
        sc = ex.sym_obj(st, 'sc', L['scalar_field_t'][1])
        for f in FIELDS_:
            o, w = L[f]
            for j in range(0, w, 8):
                k = min(8, w - j)
                st.store(Ptr(sc, o + j), C(v[f] >> (8 * j) & ((1 << 8 * k) - 1), 8 * k), k)
        sc.const = True
        self.sc = Ptr(sc)
        self.n, self.limbs, self.shift = v['n'], v['limbs'], v['shift']
        self.w = 64 * self.limbs
        self.N = C(self.n, self.w)
        self.muls = []
        ex.unroll.add('sc_import_pad_raw')
        self.rem = None
        self.sum = None
        S = lambda nm, f: U.stub(ex, M + nm, f, False)
        S('add_n', self.addn)
        S('sub_n', self.subn)
        S('cnd_select', self.select)
        S('cnd_zero', self.cndzero)
        S('zero', lambda ex, s, a: self.put(s, a[0], C(0, 64 * self.cnt(a[1]))) if self.cnt(a[1]) else None)
        S('copyi', lambda ex, s, a: self.put(s, a[0], self.get(s, a[1], self.cnt(a[2]))) if self.cnt(a[2]) else None)
        S('cleanse', lambda ex, s, a: self.put(s, a[0], C(0, 64 * self.cnt(a[1]))))
        b = lambda c: ite(c, C(1, 32), C(0, 32))
        G = lambda s, a: self.get(s, a[0], self.cnt(a[-1]))
        H = lambda s, a: self.get(s, a[1], self.cnt(a[-1]))
        S('sec_zero_p', lambda ex, s, a: b(eq(G(s, a), C(0, 64 * self.cnt(a[-1])))))
        S('sec_equal_p', lambda ex, s, a: b(eq(G(s, a), H(s, a))))
        S('sec_lt_p', lambda ex, s, a: b(ult(G(s, a), H(s, a))))
        S('sec_gt_p', lambda ex, s, a: b(ult(H(s, a), G(s, a))))
        S('cmp', lambda ex, s, a: ite(ult(G(s, a), H(s, a)), C(0xffffffff, 32), ite(eq(G(s, a), H(s, a)), C(0, 32), C(1, 32))))
        S('mul', self.mul)
        S('mul_n', lambda ex, s, a: self.mul(ex, s, [a[0], a[1], a[3], a[2], a[3]]))
        S('sqr', lambda ex, s, a: self.mul(ex, s, [a[0], a[1], a[2], a[1], a[2]]))
        S('mul_1', self.mul1)
        U.assume('multi-precision kernels (mpn_add_n, mpn_sub_n, mpn_mul, comparisons, conditional moves) as proved in C14')

    def cnt(self, e):
        if e.op != 'c':
            raise Unsupported('symbolic number of words')
        return e.val & 0xffffffff

    def get(self, s, p, n):
        return cat(*[s.load(as_ptr(p) + K(8 * i) if i else as_ptr(p), 8) for i in reversed(range(n))])

    def put(self, s, p, v):
        for i in range(v.w // 64):
            s.store(as_ptr(p) + K(8 * i) if i else as_ptr(p), ext(v, 64 * i + 63, 64 * i), 8)

    def addn(self, ex, s, a):
        n = self.cnt(a[3])
        t = add(zext(self.get(s, a[1], n), 64 * n + 64), zext(self.get(s, a[2], n), 64 * n + 64))
        self.prove(s, ult(t, C(2 * self.n, 64 * n + 64)), 'sum below twice the order')
        Sm = V('sum', 64 * n + 64)
        s.assume(ult(Sm, C(2 * self.n, 64 * n + 64)))
        self.sum = (Sm, t)
        self.put(s, a[0], ext(Sm, 64 * n - 1, 0))
        return ext(Sm, 64 * n + 63, 64 * n)

    def subn(self, ex, s, a):
        n = self.cnt(a[3])
        x, y = self.get(s, a[1], n), self.get(s, a[2], n)
        m = self.muls[-1] if self.muls else None
        if n == self.shift and len(self.muls) > 1 and m[1].op == 'c' and m[1].val == self.n and y is ext(m[2], 64 * n - 1, 0):
            # Barrett: the quotient estimate is at most one too small; continue with the remainder as a number of which that is known
            x1, m1, p1 = self.muls[-2]
            if not (x1 is x and m1.op == 'c' and m1.val == self.v['m'] and m[0] is ext(p1, p1.w - 1, 64 * n)):
                raise Unsupported('Barrett quotient not of the expected form')
            w = 64 * (2 * n + 2)
            X0, h0 = zext(V('x', 64 * n), w), zext(V('h', m[0].w), w)
            s0 = self.st.fork()
            s0.pc = ()
            mx, hB = lin(w, 0, [(self.v['m'], X0)]), lin(w, 0, [(1 << 64 * n, h0)])
            s0.assume(ule(hB, mx))
            s0.assume(ult(mx, add(hB, C(1 << 64 * n, w))))
            H = lin(w, 0, [(self.n, h0)])
            self.prove(s0, ule(H, X0), 'Barrett remainder not negative')
            self.prove(s0, ult(X0, add(H, C(2 * self.n, w))), 'Barrett remainder below twice the order')
            Q = V('Q', 64 * n)
            s.assume(ult(Q, C(2 * self.n, 64 * n)))
            self.rem = (Q, m[0], x)
            self.put(s, a[0], Q)
            return K(0)
        self.put(s, a[0], sub(x, y))
        return zext(ult(x, y), 64)

    def select(self, ex, s, a):
        n = self.cnt(a[3])
        x, y = self.get(s, a[1], n), self.get(s, a[2], n)
        self.put(s, a[0], ite(ne(a[4], C(0, a[4].w)), y, x))

    def cndzero(self, ex, s, a):
        n = self.cnt(a[2])
        self.put(s, a[0], ite(ne(a[3], C(0, a[3].w)), C(0, 64 * n), self.get(s, a[1], n)))

    def mul(self, ex, s, a):
        n, m = self.cnt(a[2]), self.cnt(a[4])
        x, y = self.get(s, a[1], n), self.get(s, a[3], m)
        w = 64 * (n + m)
        p = V('product%d' % len(self.muls), w)
        self.muls.append((x, y, p))
        self.put(s, a[0], p)

    def mul1(self, ex, s, a):
        n = self.cnt(a[2])
        p = V('product%d' % len(self.muls), 64 * n + 64)
        self.muls.append((self.get(s, a[1], n), a[3], p))
        self.put(s, a[0], ext(p, 64 * n - 1, 0))
        return ext(p, 64 * n + 63, 64 * n)

    def arg(self, nm, below=True):
        """a scalar; below the order unless said otherwise"""
        o = self.ex.sym_obj(self.st, nm, 8 * 9, 8)
        v = V(nm, self.w)
        self.put(self.st, Ptr(o), v)
        if below:
            self.st.assume(ult(v, self.N))
        return o, v

    def prove(self, s, goal, name):
        t0 = time.time()
        for f in s.facts():
            pass
        r, _ = intenc.check(s.facts(), goal, 2500)
        if r == 'unsat':
            self.U.ob(name, True, 'z3 linear integer arithmetic', time.time() - t0)
        else:
            self.ex.require(s, goal, name)

    def cases(self, s, z, cs, name):
        """z has the value given for each case; the cases are exhaustive by construction"""
        rest = []
        for c, e in cs:
            s1 = s.fork()
            for q in rest:
                s1.assume(not_(q))
            if c is not None:
                s1.assume(c)
                rest.append(c)
            self.prove(s1, eq(zext(z, e.w), e), name)


def arith_unit(kind, i):
    def unit(U):
        for alias in (0, 1, 2) if (kind, i) == ('wei', 2) else (1,):
            for op in ('add', 'sub', 'neg', 'neg_cond', 'minimize', 'minimize_var'):
                if alias == 2 and op not in ('add', 'sub'):
                    continue
                S = Sc(U, kind, i)
                ex = S.ex
                a, x = S.arg('x')
                b, y = S.arg('y')
                z, _ = S.arg('z', False)
                o = (z, a, b)[alias]
                w = S.w + 8
                X_, Y_ = zext(x, w), zext(y, w)
                two = op in ('add', 'sub')
                args = [S.sc, Ptr(o), Ptr(a)] + ([Ptr(b)] if two else [])
                flag = V('flag', 1)
                if op == 'neg_cond':
                    args.append(zext(flag, 32))
                high = ult(C(S.n >> 1, S.w), x)
                minus = sub(C(S.n, w), X_)
                N = C(S.n, w)
                zero = [(eq(x, C(0, S.w)), X_)]
                want = {'neg': zero + [(None, minus)], 'neg_cond': zero + [(eq(flag, C(1, 1)), minus), (None, X_)]}.get(op, [(high, minus), (None, X_)])
                tag = '%s%s' % (op, ('', ' over the first operand', ' over the second operand')[alias])
                for s, r in ex.call(S.st, 'sc_' + op, args):
                    U.reach(s)
                    g = S.get(s, Ptr(o), S.limbs)
                    if two:
                        # the sum of the operands (of the first and the negated second), brought below n
                        Sm, t = S.sum
                        w2 = Sm.w
                        x2, y2 = zext(x, w2), zext(y, w2)
                        S.prove(s, eq(t, add(x2, y2) if op == 'add' else sub(add(x2, C(S.n, w2)), y2)), tag + ': of the operands')
                        want = [(ult(Sm, C(S.n, w2)), Sm), (None, sub(Sm, C(S.n, w2)))]
                    S.cases(s, g, want, tag)
                    if op.startswith('min'):
                        S.prove(s, eq(r, ite(high, C(1, 32), C(0, 32))), tag + ': reports negation')
                        S.prove(s, ule(g, C(S.n >> 1, S.w)), tag + ': at most half the order')
    return unit


def test_unit(kind, i):
    def unit(U):
        for op in ('is_zero', 'equal', 'is_canonical', 'is_high', 'is_high_var', 'cmp_var'):
            S = Sc(U, kind, i)
            a, x = S.arg('x', False)
            b, y = S.arg('y', False)
            two = op in ('equal', 'cmp_var')
            a.const = b.const = True
            bit = lambda c: ite(c, C(1, 32), C(0, 32))
            want = {'is_zero': bit(eq(x, C(0, S.w))), 'equal': bit(eq(x, y)), 'is_canonical': bit(ult(x, S.N)), 'is_high': bit(ult(C(S.n >> 1, S.w), x)),
                    'is_high_var': bit(ult(C(S.n >> 1, S.w), x)), 'cmp_var': ite(ult(x, y), C(0xffffffff, 32), bit(ult(y, x)))}[op]
            for s, r in S.ex.call(S.st, 'sc_' + op, [S.sc, Ptr(a)] + ([Ptr(b)] if two else [])):
                U.reach(s)
                S.prove(s, eq(r, want), op)
    return unit


def reduced(S, s, z, X_, name):
    """the remainder Q = X_ - h*n of the Barrett step, brought below n"""
    if S.rem is None:
        raise Unsupported('no Barrett step')
    Q, h, x = S.rem
    S.U.ob(name + ': reduces the whole number', True if x is X_ else None, 'rewriting')
    N = C(S.n, Q.w)
    S.cases(s, z, [(ult(Q, N), Q), (None, sub(Q, N))], name)


def reduce_unit(kind, i):
    def unit(U):
        S = Sc(U, kind, i)
        o = S.ex.sym_obj(S.st, 'x', 8 * S.shift, 8)
        x = V('x', 64 * S.shift)
        S.put(S.st, Ptr(o), x)
        o.const = True
        z, _ = S.arg('z', False)
        for s, r in S.ex.call(S.st, 'sc_reduce', [S.sc, Ptr(z), Ptr(o)]):
            U.reach(s)
            reduced(S, s, S.get(s, Ptr(z), S.limbs), x, 'reduction')
        for op in ('mul', 'sqr', 'mul_word'):
            for alias in (0, 1) if (kind, i) == ('wei', 2) else (1,):
                S = Sc(U, kind, i)
                a, x = S.arg('x')
                b, y = S.arg('y')
                z, _ = S.arg('z', False)
                if alias:
                    z = a
                wd = V('word', 64)
                for s, r in S.ex.call(S.st, 'sc_' + op, [S.sc, Ptr(z), Ptr(a)] + {'mul': [Ptr(b)], 'sqr': [], 'mul_word': [wd]}[op]):
                    U.reach(s)
                    m = S.muls[0]
                    U.ob('%s: product of the operands' % op, True if (m[0] is x and m[1] is {'mul': y, 'sqr': x, 'mul_word': wd}[op]) else None, 'rewriting')
                    reduced(S, s, S.get(s, Ptr(z), S.limbs), zext(m[2], 64 * S.shift), '%s%s' % (op, ' in place' if alias else ''))
    return unit


def bytes_unit(kind, i):
    """byte import and export"""
    def unit(U):
        for op in ('import', 'import_reduce', 'import_weak', 'import_strong', 'import_wide', 'import_pad', 'export'):
            S = Sc(U, kind, i)
            v = S.v
            size, big = v['size'], v['endian'] == 1
            lens = [size]
            if op == 'import_wide':
                lens = sorted({size, 2 * size, min(2 * size + 2, 8 * S.shift)})
            if op == 'import_pad':
                lens = [0, 1, size - 1, size, size + 1, size + 2]
            if op == 'import_weak' and v['bits'] % 8:
                continue
            for ln in lens:
                S = Sc(U, kind, i)
                ex = S.ex
                raw = ex.sym_obj(S.st, 'raw', K(ln))
                z, zv = S.arg('z', op == 'export')
                if op == 'export':
                    for s, r in ex.call(S.st, 'sc_export', [S.sc, Ptr(raw), Ptr(z)]):
                        U.reach(s)
                        bs = [s.load(Ptr(raw, k), 1) for k in (range(size) if big else reversed(range(size)))]
                        S.prove(s, eq(zext(cat(*bs), S.w + 64), zext(zv, S.w + 64)), 'export: bytes of the number')
                    continue
                raw.const = True
                args = [S.sc, Ptr(z), Ptr(raw)] + ([K(ln)] if op in ('import_wide', 'import_pad') else [])
                bs = [UF('m:raw', 8, (K(k),)) for k in range(ln)]
                w = max(8 * ln, S.w) + 64
                num = zext(cat(*(bs if big else bs[::-1])), w) if ln else C(0, w)
                for s, r in ex.call(S.st, 'sc_' + op, args):
                    U.reach(s)
                    g = S.get(s, Ptr(z), S.limbs)
                    ok = ult(num, C(S.n, w))
                    tag = '%s of %d bytes' % (op, ln)
                    S.prove(s, eq(r, ite(ok, C(1, 32), C(0, 32))), tag + ': succeeds exactly below the order')
                    if op in ('import', 'import_pad'):
                        S.prove(s, eq(zext(g, w), ite(ok, num, C(0, w))), tag + ': value')
                    elif op in ('import_weak',) or (op == 'import_reduce' and not v['bits'] % 8):
                        S.prove(s, eq(zext(g, w), ite(ok, num, sub(num, C(S.n, w)))), tag + ': residue')
                        S.prove(s, ult(g, S.N), tag + ': below the order')
                    else:
                        x = ext(num, 64 * S.shift - 1, 0) if num.w > 64 * S.shift else zext(num, 64 * S.shift)
                        reduced(S, s, g, x, tag)
    return unit


# the Edwards curves 25519 and 448 have the scalar fields of the Montgomery curves of the same name
def twin_unit(i):
    def unit(U):
        U.need_reach = False
        a, b = real('mont', i), real('edwards', i)
        U.ob('same scalar field', all(a[f] == b[f] for f in FIELDS_ if f != 'invert'), 'evaluation')
    return unit


UNITS = []
for kd, ix, nm in CURVES:
    UNITS += [('constants ' + nm, const_unit(kd, ix))]
    if nm in ('ed25519', 'ed448'):
        UNITS += [('twin ' + nm, twin_unit(ix))]
        continue
    UNITS += [('arithmetic ' + nm, arith_unit(kd, ix)), ('tests ' + nm, test_unit(kd, ix)),
              ('reduction ' + nm, reduce_unit(kd, ix)), ('bytes ' + nm, bytes_unit(kd, ix))]
UNITS.sort(key=lambda u: ('arithmetic' not in u[0], '448' not in u[0] and '521' not in u[0] and '384' not in u[0]))


def concrete(rng, budget, hints):
    lib = clib(c17.ECSRC, wrapper=CWRAP)
    lib.t_sc.restype = ctypes.c_void_p
    lib.t_op.argtypes = [ctypes.c_void_p, ctypes.c_int] + [ctypes.c_void_p] * 4 + [ctypes.c_size_t, ctypes.c_void_p]
    F_ = []
    for kd, ix, nm in CURVES:
        F_.append((nm, lib.t_sc(['wei', 'mont', 'edwards'].index(kd), ix), real(kd, ix)))
    t0 = time.time()
    cnt = 0
    while cnt < 3000 or time.time() - t0 < budget:
        for nm, p, v in F_:
            n, L, size = v['n'], v['limbs'], v['size']
            en = 'big' if v['endian'] == 1 else 'little'
            edge = lambda: rng.choice([0, 1, 2, n - 1, n - 2, n >> 1, (n >> 1) + 1, (n >> 1) - 1, rng.randrange(n), rng.randrange(n), rng.getrandbits(64)]) % n
            op = rng.randrange(24)
            x, y = edge(), edge()
            if rng.randrange(6) == 0:
                y = x
            free = op in (11, 12, 13, 14, 15, 16)
            if free and rng.randrange(2):
                x = rng.choice([n, n + 1, (1 << 64 * L) - 1, rng.getrandbits(64 * L)])
            flag = rng.randrange(2)
            top = 1 << 8 * size
            raw, ln = b'', 0
            if op in (17, 18):
                r = rng.choice([x, n, n + 1, n - 1, top - 1, rng.randrange(top)]) % top
                raw, ln = r.to_bytes(size, en), size
            elif op == 19:
                ln = rng.choice([size, 2 * size, size + 1, min(2 * size + 2, 8 * v['shift'])])
                r = rng.choice([x, n, n + 1, n * rng.randrange(1, n), n * n - 1, (1 << 8 * ln) - 1, rng.getrandbits(8 * ln)]) % (1 << 8 * ln)
                raw = r.to_bytes(ln, en)
            elif op == 20:
                ln = rng.choice([0, 1, size - 1, size, size + 1, size + 3])
                r = rng.choice([x, n, n - 1, rng.getrandbits(8 * ln + 1)]) % (1 << 8 * ln)
                raw = r.to_bytes(ln, en)
            B = lambda q: ctypes.create_string_buffer(q.to_bytes(72, 'little'), 72)
            bx, by, bz = B(x), B(y), B(rng.getrandbits(64))
            alias = rng.randrange(2)
            out = Guard(size)
            res = lib.t_op(p, op, bx if alias else bz, bx, by, raw, flag if op == 3 else ln, out.p)
            z = int.from_bytes((bx if alias else bz).raw[:8 * L], 'little')
            cnt += 1
            inv = pow(x, -1, n) if x % n and not free else 0
            hi = int(x > n >> 1)
            sgn = lambda a, b: (a > b) - (a < b)
            want = {0: lambda: (0, (x + y) % n), 1: lambda: (0, (x - y) % n), 2: lambda: (0, -x % n), 3: lambda: (0, -x % n if flag else x),
                    4: lambda: (0, x * y % n), 5: lambda: (0, x * x % n), 6: lambda: (0, x * (y & (1 << 64) - 1) % n), 7: lambda: (int(x != 0), inv),
                    8: lambda: (int(x != 0), inv), 9: lambda: (hi, -x % n if hi else x), 10: lambda: (hi, -x % n if hi else x), 11: lambda: (hi, None),
                    12: lambda: (hi, None), 13: lambda: (int(x < n), None), 14: lambda: (int(x == 0), None), 15: lambda: (int(x == y), None),
                    16: lambda: (sgn(x, y), None), 17: lambda: (int(r < n), r if r < n else 0), 18: lambda: (int(r < n), r % n), 19: lambda: (int(r < n), r % n),
                    20: lambda: (int(r < n), r if r < n else 0), 21: lambda: (0, None), 22: lambda: (0, x), 23: lambda: (0, x * y % n)}[op]()
            bad = res != want[0] or (want[1] is not None and z != want[1])
            if op == 21:
                bad = out.get() != x.to_bytes(size, en) or not out.ok()
            if bad:
                raise Fail('%s: scalar operation %d' % (nm, op), curve=nm, op=op, x=x, y=y, raw=raw, returned=res, got=z, want=str(want))
    return cnt
