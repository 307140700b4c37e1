"""C15: prime field arithmetic."""
import ctypes
import time
from .ghost import *        # noqa
from .numeric import arith
from .fields import PRIME, REP
from lvc.poly import Ints, padd, pscale, pconst

SCMUL = {'p251': [1174], 'p25519': [121666], 'p448': [39082, 39081]}


class Field:
    def __init__(self, name, bits):
        self.name, self.bits = name, bits
        self.config = 'c64' if bits == 64 else 'c32'
        self.p = PRIME[name]
        self.__dict__.update(REP[name, bits])
        self.n = len(self.w)
        self.b = bits // 8
        self.nbytes = (self.p.bit_length() + 7) // 8
        self.fns = ['add', 'sub', 'opp', 'selectznz', 'to_bytes', 'from_bytes']
        if self.mont:
            self.fns += ['mul', 'square', 'to_montgomery', 'from_montgomery', 'nonzero']
        else:
            self.scmul = [3, 4, 8] + SCMUL.get(name, [])
            self.fns += ['carry', 'carry_mul', 'carry_square'] + ['carry_scmul_%d' % k for k in self.scmul]
        self.R = 1 << (bits * self.n)

    def text(self):
        t = '#include <stdint.h>\n#include <stdlib.h>\n#include <string.h>\n#include <torsion/mpi.h>\n#include <torsion/util.h>\n#include "internal.h"\n'
        t += 'typedef uint%d_t fe_word_t;\nTORSION_BARRIER(int, int)\nTORSION_BARRIER(fe_word_t, fe_word)\n' % self.bits
        t += '#include "fields/%s.h"\n' % self.name
        t += 'void *torsion_keep[] = {\n' + ''.join('  (void *)%s,\n' % f for f in self.allfns()) + '};\n'
        return t

    def allfns(self):
        r = ['fiat_%s_%s' % (self.name, f) for f in self.fns]
        if self.mont:
            r += ['fiat_%s_scmul_%d' % (self.name, k) for k in (3, 4, 8)]
        return r + ['%s_fe_%s' % (self.name, f) for f in list(CHAINS[self.name]) + ['equal', 'sqrt'] + ([] if self.name == 'p224' else ['isqrt'])]

    def start(self, U):
        return U.exec_text(self.text(), ['internal', 'util'], self.config)

    def elem(self, ex, st, nm):
        o = ex.sym_obj(st, nm, self.n * self.b, self.b)
        return o, [UF('m:' + nm, self.bits, (K(i),)) for i in range(self.n)]

    def value(self, I, limbs):
        r = {}
        for s, e in zip(self.w, limbs):
            r = padd(r, pscale(I.poly(e), 1 << s))
        return r

    def num(self, v):
        return sum(x << s for s, x in zip(self.w, v))

    def out(self, s, o):
        return [s.load(Ptr(o, i * self.b), self.b) for i in range(self.n)]


def fits(U, I, e, hi, name):
    lo, h = I.range(e)
    U.ob(name, True if lo >= 0 and h <= hi else None, 'intervals', detail='%s > %s' % (hex(h), hex(hi)))


# ------------------------------------------------------------------ unsaturated

def lin_unit(F_, op):
    """congruence of the result and bounds of its limbs, for every input in the bounds"""
    def unit(U):
        for alias in (0, 1):
            ex, st = F_.start(U)
            a, x = F_.elem(ex, st, 'x')
            b, y = F_.elem(ex, st, 'y')
            z, _ = F_.elem(ex, st, 'z')
            two = op in ('add', 'sub', 'carry_mul')
            src = F_.tight if op in ('add', 'sub', 'opp') else F_.loose
            dst = F_.loose if op in ('add', 'sub', 'opp') else F_.tight
            o = a if alias else z
            b.const = True
            if not alias:
                a.const = True
            for s, r in ex.call(st, 'fiat_%s_%s' % (F_.name, op), [Ptr(o), Ptr(a)] + ([Ptr(b)] if two else [])):
                U.reach(s)
                I = Ints()
                rg = {}
                for e, m in list(zip(x, src)) + list(zip(y, src)):
                    I.declare(e, 0, m)
                    rg[e] = (0, m)
                out = F_.out(s, o)
                vx, vy = F_.value(I, x), F_.value(I, y)
                p = F_.p
                if op == 'add':
                    want, py = padd(vx, vy), lambda u, v: u + v
                elif op == 'sub':
                    want, py = padd(vx, vy, -1), lambda u, v: u - v
                elif op == 'opp':
                    want, py = pscale(vx, -1), lambda u, v: -u
                elif op == 'carry':
                    want, py = vx, lambda u, v: u
                elif op == 'carry_mul':
                    want, py = I.pmul(vx, vy), lambda u, v: u * v
                elif op == 'carry_square':
                    want, py = I.pmul(vx, vx), lambda u, v: u * u
                else:
                    k = int(op.split('_')[-1])
                    want, py = pscale(vx, k), lambda u, v: k * u
                D = padd(F_.value(I, out), want, -1)
                ok = I.zero_mod(D, p)
                n = F_.n
                arith(U, '%s modulo p%s' % (op, ' in place' if alias else ''), ok, out + x + y,
                      lambda v: (F_.num(v[:n]) - py(F_.num(v[n:2 * n]), F_.num(v[2 * n:]))) % p == 0 and
                      all(q <= m for q, m in zip(v[:n], dst)), rg)
                for i, (e, m) in enumerate(zip(out, dst)):
                    fits(U, I, e, m, 'limb %d of the result within its bound' % i)
    return unit


def to_bytes_unit(F_):
    """the canonical residue, for every tight (or reduced) input"""
    def unit(U):
        ex, st = F_.start(U)
        a, x = F_.elem(ex, st, 'x')
        a.const = True
        z = ex.sym_obj(st, 'z', F_.nbytes, 1)
        for s, r in ex.call(st, 'fiat_%s_to_bytes' % F_.name, [Ptr(z), Ptr(a)]):
            U.reach(s)
            I = Ints()
            rg = {}
            if not F_.mont:
                for e, m in zip(x, F_.tight):
                    I.declare(e, 0, m)
                    rg[e] = (0, m)
            else:
                top = F_.p >> F_.w[-1]
                if top < (1 << F_.bits) - 1:
                    I.declare(x[-1], 0, top)
                    rg[x[-1]] = (0, top)
            out = [s.load(Ptr(z, i), 1) for i in range(F_.nbytes)]
            v = {}
            for i, e in enumerate(out):
                v = padd(v, pscale(I.poly(e), 1 << (8 * i)))
            X_ = F_.value(I, x)
            D = padd(v, X_, -1)
            p = F_.p
            num = lambda q: sum(c << (8 * i) for i, c in enumerate(q))
            nb = F_.nbytes
            if F_.mont:
                ok = not D
            else:
                # D = c*b - 2^N*f with bits b, f: subtract p exactly when b
                N = p.bit_length()
                c = (1 << N) - p
                b = {k: w // c for k, w in D.items() if w % (1 << N) and w % c == 0}
                f = padd(pscale(b, c), D, -1)
                ok = all(w % (1 << N) == 0 for w in f.values())
                f = {k: w >> N for k, w in f.items()}
                if ok:
                    for val in (0, 1):
                        g = [(padd(b, f, -1), 0, 0), (padd(X_, pscale(b, p), -1), 0, p - 1)]
                        ok = ok and I.linear(g, [(b, val, val)], 60000) is True
                    ok = ok and I.linear([(b, 0, 1)], [], 60000) is True
            arith(U, 'bytes are the residue', ok, out + x, lambda q: num(q[:nb]) == F_.num(q[nb:]) % p if
                  not F_.mont or F_.num(q[nb:]) < p else True, rg)
    return unit


def from_bytes_unit(F_):
    """the number the bytes encode, with limbs in the tight bounds"""
    def unit(U):
        ex, st = F_.start(U)
        z, _ = F_.elem(ex, st, 'z')
        a = ex.sym_obj(st, 'x', F_.nbytes, 1)
        a.const = True
        x = [UF('m:x', 8, (K(i),)) for i in range(F_.nbytes)]
        for s, r in ex.call(st, 'fiat_%s_from_bytes' % F_.name, [Ptr(z), Ptr(a)]):
            U.reach(s)
            I = Ints()
            rg = {}
            top = F_.p >> (8 * (F_.nbytes - 1))
            I.declare(x[-1], 0, top)
            rg[x[-1]] = (0, top)
            out = F_.out(s, z)
            v = {}
            for i, e in enumerate(x):
                v = padd(v, pscale(I.poly(e), 1 << (8 * i)))
            num = lambda q: sum(c << (8 * i) for i, c in enumerate(q))
            n = F_.n
            ok = not padd(F_.value(I, out), v, -1)
            arith(U, 'limbs encode the bytes', ok, out + x, lambda q: F_.num(q[:n]) == num(q[n:]), rg)
            if not F_.mont:
                for i, (e, m) in enumerate(zip(out, F_.tight)):
                    fits(U, I, e, m, 'limb %d within the tight bound' % i)
    return unit


def select_unit(F_):
    def unit(U):
        for alias in (0, 1, 2):
            ex, st = F_.start(U)
            a, x = F_.elem(ex, st, 'x')
            b, y = F_.elem(ex, st, 'y')
            z, _ = F_.elem(ex, st, 'z')
            o = (z, a, b)[alias]
            for q in (a, b):
                if q is not o:
                    q.const = True
            c = V('flag', 8)
            ex.facts.append(ule(c, C(1, 8)))
            for s, r in ex.call(st, 'fiat_%s_selectznz' % F_.name, [Ptr(o), c, Ptr(a), Ptr(b)]):
                U.reach(s)
                for i, e in enumerate(F_.out(s, o)):
                    ex.require(s, eq(e, ite(eq(c, C(0, 8)), x[i], y[i])), 'limb %d selected' % i)
    return unit


# ------------------------------------------------------------------ Montgomery

def selector(out):
    """the comparison spread into the mask of the conditional move"""
    for x in X.postorder(list(out)):
        if x.op == 'sext' and x.w > 8:
            for y in X.postorder([x]):
                pass
            t = x.args[0]
            while t.op in ('lin', 'cat', 'xor', 'ext'):
                nx = [q for q in t.args if q.op != 'c']
                if len(nx) != 1:
                    break
                t = nx[0]
                if t.op == 'eq' and t.w == 1:
                    return t
    return None


def words_of(I, M, roots, bits, n):
    """M as a sum of n words found among the terms"""
    m = 1 << bits
    red = lambda p: frozenset((k, v % m) for k, v in p.items() if v % m)
    tab = {}
    for e in X.postorder(roots):
        if e.w == bits and e.op != 'c':
            tab.setdefault(red(I.poly(e)), []).append(I.poly(e))
        if e.w > bits and e.op in ('mul',):
            for q in e.args:
                tab.setdefault(red(I.poly(q)), []).append(I.poly(q))
    def rec(M, i):
        if i == n:
            return [] if not M else None
        if not red(M):
            r = rec({k: v >> bits for k, v in M.items()}, i + 1)
            return None if r is None else [{}] + r
        for c in tab.get(red(M), []):
            d = padd(M, c, -1)
            r = rec({k: v >> bits for k, v in d.items()}, i + 1)
            if r is not None:
                return [c] + r
        return None
    return rec(M, 0)


def mont_unit(F_, op):
    """exact residue in [0, p) for reduced operands"""
    def unit(U):
        p, R, n = F_.p, F_.R, F_.n
        two = op in ('add', 'sub', 'mul')
        lin = op in ('add', 'sub', 'opp')
        Ri = pow(R, -1, p)
        py = {'add': lambda u, v: u + v, 'sub': lambda u, v: u - v, 'opp': lambda u, v: -u,
              'mul': lambda u, v: u * v * Ri, 'square': lambda u, v: u * u * Ri,
              'from_montgomery': lambda u, v: u * Ri, 'to_montgomery': lambda u, v: u * R}[op]
        for alias in (0, 1):
            ex, st = F_.start(U)
            a, x = F_.elem(ex, st, 'x')
            b, y = F_.elem(ex, st, 'y')
            z, _ = F_.elem(ex, st, 'z')
            o = a if alias else z
            b.const = True
            if not alias:
                a.const = True
            for s, r in ex.call(st, 'fiat_%s_%s' % (F_.name, op), [Ptr(o), Ptr(a)] + ([Ptr(b)] if two else [])):
                U.reach(s)
                out = F_.out(s, o)
                sel = selector(out)
                good, why = sel is not None, 'no selector found'
                for val in ((0, 1) if good else ()):
                    I = Ints()
                    o2 = [X.subst(e, {sel: C(val, 1)}) for e in out]
                    vx, vy = F_.value(I, x), F_.value(I, y)
                    O = F_.value(I, o2)
                    pre = [(I.poly(sel), val, val), (vx, 0, p - 1), (vy, 0, p - 1)]
                    if lin:
                        want = {'add': padd(vx, vy), 'sub': padd(vx, vy, -1), 'opp': pscale(vx, -1)}[op]
                        ok = None
                        for k in ((0, -1) if op == 'add' else (0, 1)):
                            E = padd(padd(O, want, -1), pconst(p * k), -1)
                            if not ok:
                                ok = I.linear([(E, 0, 0), (O, 0, p - 1)], pre, 20000)
                        if not ok:
                            good, why = False, 'case %d' % val
                        continue
                    prod = {'mul': I.pmul(vx, vy), 'square': I.pmul(vx, vx), 'from_montgomery': vx,
                            'to_montgomery': pscale(vx, R * R % p)}[op]
                    D = padd(pscale(O, R), prod, -1)
                    N = 1 << (F_.bits * n)
                    # D = p*M - R*N*q
                    inv = pow(R * N, -1, p)
                    q, M = {}, {}
                    for k, v in D.items():
                        c = -v * inv % p
                        if c > p // 2:
                            c -= p
                        if c:
                            q[k] = c
                    for k, v in padd(D, pscale(q, R * N)).items():
                        M[k] = v // p
                    if any(abs(c) > 4 for c in q.values()):
                        good, why = False, 'case %d: not a multiple of p: %s' % (val, I.show(q)[:200])
                        continue
                    # M = sum of quotient words, less R when p was subtracted
                    ws = off = None
                    for off in (0, 1):
                        ws = words_of(I, padd(M, pconst(R * off)), out, F_.bits, n)
                        if ws:
                            break
                    if ws is None:
                        good, why = False, 'case %d: quotient words' % val
                        continue
                    T = padd(padd(O, pscale(q, N)), pconst(p * off))
                    hi = {'mul': (p - 1) ** 2, 'square': (p - 1) ** 2, 'from_montgomery': p - 1, 'to_montgomery': (p - 1) * (R * R % p)}[op]
                    # R*T = prod + p*sum of words, hence
                    fact = (T, 0, (hi + p * (R - 1)) // R)
                    ok = I.linear([(q, 0, 0), (O, 0, p - 1)], [pre[0], fact], 60000)
                    if not ok:
                        good, why = False, 'case %d: range' % val
                arith(U, '%s reduced modulo p%s' % (op, ' in place' if alias else ''), good, out + x + y,
                      lambda v: F_.num(v[n:2 * n]) >= p or F_.num(v[2 * n:]) >= p or
                      F_.num(v[:n]) == py(F_.num(v[n:2 * n]), F_.num(v[2 * n:])) % p, detail=why)
    return unit


def nonzero_unit(F_):
    def unit(U):
        ex, st = F_.start(U)
        a, x = F_.elem(ex, st, 'x')
        a.const = True
        z = ex.sym_obj(st, 'z', F_.b, F_.b)
        for s, r in ex.call(st, 'fiat_%s_nonzero' % F_.name, [Ptr(z), Ptr(a)]):
            U.reach(s)
            ex.require(s, eq(eq(s.load(Ptr(z), F_.b), C(0, F_.bits)), conj([eq(e, C(0, F_.bits)) for e in x])), 'zero exactly for zero')
    return unit


# ------------------------------------------------------------------ powers

CHAINS = {
    # function: exponent of its argument
    'p192': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
    'p224': {'pow_s': lambda p: (p - 1) >> 96, 'pow_e': lambda p: (((p - 1) >> 96) + 1) // 2,
             'pow_em1': lambda p: (((p - 1) >> 96) - 1) // 2, 'invert': lambda p: p - 2, 'legendre': lambda p: (p - 1) // 2},
    'p251': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
    'p25519': {'pow_pm5d8': lambda p: (p - 5) // 8, 'invert': lambda p: p - 2},
    'p256': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
    'p384': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
    'p448': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
    'p521': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
    'secp256k1': {'pow_pm3d4': lambda p: (p - 3) // 4, 'invert': lambda p: p - 2},
}
ROOTS = ('p192', 'p251', 'p256', 'p384', 'p448', 'p521', 'secp256k1')     # p = 3 mod 4


class Powers:
    """field elements as powers of the arguments: the first limb holds the
    index of an exponent vector, products and squares add exponents"""

    def __init__(self, F_, ex, st, U):
        self.F, self.vec, self.equal = F_, [], []
        ex.maxunroll = 2000
        mulf, sqrf = ('mul', 'square') if F_.mont else ('carry_mul', 'carry_square')
        pre = 'fiat_%s_' % F_.name

        def mul_(ex, st, args):
            e = [u + v for u, v in zip(self.get(st, args[1]), self.get(st, args[2]))]
            self.put(st, args[0], e)
            return [(st, None)]

        def sqr_(ex, st, args):
            self.put(st, args[0], [2 * u for u in self.get(st, args[1])])
            return [(st, None)]

        def equal_(ex, st, args):
            self.equal.append((self.get(st, args[0]), self.get(st, args[1])))
            v = V('equal%d' % len(self.equal), 32)
            st.assume(ult(v, C(2, 32)))
            return [(st, v)]
        U.stub(ex, pre + mulf, mul_, need=False)
        U.stub(ex, pre + sqrf, sqr_, need=False)
        U.stub(ex, F_.name + '_fe_equal', equal_, need=False)

    def get(self, st, p):
        v = st.load(p, self.F.b)
        if v.op != 'c':
            raise EX.Unsupported('element is not a known power')
        return self.vec[v.val - 1]

    def put(self, st, p, e):
        self.vec.append(list(e))
        st.store(p, C(len(self.vec), self.F.bits), self.F.b)


def chain_unit(F_, fnm, expo):
    def unit(U):
        for alias in (0, 1):
            ex, st = F_.start(U)
            P = Powers(F_, ex, st, U)
            a, _ = F_.elem(ex, st, 'x')
            z, _ = F_.elem(ex, st, 'z')
            o = a if alias else z
            P.put(st, Ptr(a), [1])
            if not alias:
                a.const = True
            for s, r in ex.call(st, '%s_fe_%s' % (F_.name, fnm), [Ptr(o), Ptr(a)]):
                U.reach(s)
                e, = P.get(s, Ptr(o))
                U.ob('exponent%s' % (' in place' if alias else ''), e == expo, 'evaluation', detail='%x instead of %x' % (e, expo))
    return unit


def sqrt_unit(F_):
    """z = x^((p+1)/4), success exactly when z^2 = x"""
    def unit(U):
        ex, st = F_.start(U)
        P = Powers(F_, ex, st, U)
        a, _ = F_.elem(ex, st, 'x')
        z, _ = F_.elem(ex, st, 'z')
        P.put(st, Ptr(a), [1])
        for s, r in ex.call(st, '%s_fe_sqrt' % F_.name, [Ptr(z), Ptr(a)]):
            U.reach(s)
            e, = P.get(s, Ptr(z))
            p = F_.p
            U.ob('exponent', e == (p + 1) // 4, 'evaluation', detail='%x' % e)
            U.ob('the square is compared with the argument', sorted(map(str, P.equal[0])) == sorted(map(str, ([2 * e], [1]))), 'evaluation')
            ex.require(s, eq(ne(r, C(0, 32)), ne(V('equal1', 32), C(0, 32))), 'result is the comparison')
    return unit


def isqrt_unit(F_):
    """z = u^((p+1)/4) v^((3p-5)/4) up to multiples of p-1, success exactly when z^2 v = u"""
    def unit(U):
        ex, st = F_.start(U)
        P = Powers(F_, ex, st, U)
        a, _ = F_.elem(ex, st, 'u')
        b, _ = F_.elem(ex, st, 'v')
        z, _ = F_.elem(ex, st, 'z')
        P.put(st, Ptr(a), [1, 0])
        P.put(st, Ptr(b), [0, 1])
        for s, r in ex.call(st, '%s_fe_isqrt' % F_.name, [Ptr(z), Ptr(a), Ptr(b)]):
            U.reach(s)
            e = P.get(s, Ptr(z))
            p = F_.p
            # z^2 v / u = (u v)^((p-1)/2): both exponents odd multiples of (p-1)/2
            h = (p - 1) // 2
            d = [2 * e[0] - 1, 2 * e[1] + 1]
            U.ob('root of the quotient', all(x % h == 0 and x // h % 2 for x in d), 'evaluation', detail=str(e))
            U.ob('the square times v is compared with u', sorted(map(str, P.equal[0])) == sorted(map(str, ([2 * e[0], 2 * e[1] + 1], [1, 0]))), 'evaluation')
            ex.require(s, eq(ne(r, C(0, 32)), ne(V('equal1', 32), C(0, 32))), 'result is the comparison')
    return unit


SRCS = []
UNITS = []
FIELDS = [Field(n, b) for n in PRIME for b in (64, 32)]
for f in FIELDS:
    if not f.mont:
        for op in ['add', 'sub', 'opp', 'carry', 'carry_mul', 'carry_square'] + ['carry_scmul_%d' % k for k in f.scmul]:
            UNITS.append(('%s %s %s' % (f.name, f.config, op), lin_unit(f, op)))
    else:
        for op in ['add', 'sub', 'opp', 'mul', 'square', 'from_montgomery', 'to_montgomery']:
            UNITS.append(('%s %s %s' % (f.name, f.config, op), mont_unit(f, op)))
        UNITS.append(('%s %s nonzero' % (f.name, f.config), nonzero_unit(f)))
    for nm, e in CHAINS[f.name].items():
        UNITS.append(('%s %s %s' % (f.name, f.config, nm), chain_unit(f, nm, e(f.p))))
    if f.name in ROOTS:
        UNITS.append(('%s %s sqrt' % (f.name, f.config), sqrt_unit(f)))
        UNITS.append(('%s %s isqrt' % (f.name, f.config), isqrt_unit(f)))
    UNITS.append(('%s %s to_bytes' % (f.name, f.config), to_bytes_unit(f)))
    UNITS.append(('%s %s from_bytes' % (f.name, f.config), from_bytes_unit(f)))
    UNITS.append(('%s %s selectznz' % (f.name, f.config), select_unit(f)))


# ------------------------------------------------------------------ concrete

def concrete_text(F_):
    t = F_.text()
    i = t.index('void *torsion_keep')
    t = t[:i]
    for f in F_.allfns():
        t += 'void *get_%s(void) { return (void *)%s; }\n' % (f, f)
    return t


class Conc:
    def __init__(self, F_):
        self.F = F_
        self.lib = clib(['internal', 'util'], wrapper=concrete_text(F_), config=F_.config)

    def call(self, name, *args, res=None):
        g = getattr(self.lib, 'get_' + name)
        g.restype = ctypes.c_void_p
        return ctypes.CFUNCTYPE(res, *[a[0] for a in args])(g())(*[a[1] for a in args])

    def buf(self, limbs):
        return b''.join(int(x).to_bytes(self.F.b, 'little') for x in limbs)

    def limbs(self, raw):
        return [int.from_bytes(raw[i:i + self.F.b], 'little') for i in range(0, len(raw), self.F.b)]

    def split(self, v):
        """limbs of a number below 2^bits"""
        w = self.F.w + [1 << 20]
        return [(v >> w[i]) & ((1 << (w[i + 1] - w[i])) - 1) for i in range(self.F.n)]


P_ = ctypes.c_void_p


def concrete(rng, budget, hints):
    t0 = time.time()
    n = 0
    cs = [Conc(f) for f in FIELDS]
    first = True
    while first or time.time() - t0 < budget:
        for c in cs:
            n += one(rng, c, first)
        first = False
    return n


def pick(rng, f, mx):
    """an element with limbs up to their bounds"""
    if f.mont:
        p = f.p
        v = rng.choice([0, 1, 2, p - 1, p - 2, p >> 1, rng.randrange(p), rng.randrange(p), f.R % p, p - (f.R % p),
                        (1 << rng.randrange(p.bit_length())) % p, p - 1 - (1 << rng.randrange(p.bit_length() - 1))])
        v %= p
        return [(v >> s) & ((1 << f.bits) - 1) for s in f.w]
    k = rng.randrange(8)
    if k == 0:
        return list(mx)
    if k == 1:
        return [rng.choice([0, m, m - 1, m // 2]) for m in mx]
    if k < 4:
        v = rng.choice([0, 1, f.p - 1, f.p, f.p + 1, f.p - rng.randrange(100), f.p + rng.randrange(100)])
        v = min(v, (1 << f.p.bit_length()) - 1)
        w = f.w + [f.p.bit_length()]
        return [(v >> w[i]) & ((1 << (w[i + 1] - w[i])) - 1) for i in range(f.n)]
    return [rng.randrange(m + 1) for m in mx]


def one(rng, c, first):
    f, p, nb = c.F, c.F.p, c.F.nbytes
    pre = 'fiat_%s_' % f.name
    mulf, sqrf = ('mul', 'square') if f.mont else ('carry_mul', 'carry_square')
    tight, loose = (None, None) if f.mont else (f.tight, f.loose)
    Ri = pow(f.R, -1, p) if f.mont else 1
    R = f.R if f.mont else 1
    k = 0

    def run(name, ins, want, bound, exact):
        """element results"""
        nonlocal k
        z = Guard(f.n * f.b)
        bufs = [Guard(f.n * f.b, c.buf(x)) for x in ins]
        for alias in (0, 1):
            o = bufs[0] if alias else z
            c.call(name, (P_, o.p), *[(P_, b.p) for b in bufs])
            out = c.limbs(o.get())
            v = f.num(out)
            good = v == want % p if exact else (v - want) % p == 0 and (bound is None or all(q <= m for q, m in zip(out, bound)))
            k += 1
            if not good or not z.ok() or not all(b.ok() for b in bufs):
                raise Fail('%s (%d-bit words) differs' % (name, f.bits), inputs=[hex(f.num(x)) for x in ins],
                           limbs=[list(map(hex, x)) for x in ins], got=list(map(hex, out)), want=hex(want % p))
    for src, dst, ops in ((tight, loose, ('add', 'sub', 'opp')), (loose, tight, (mulf, sqrf))):
        for op in ops:
            x, y = pick(rng, f, src), pick(rng, f, src)
            X_, Y_ = f.num(x), f.num(y)
            want = {'add': X_ + Y_, 'sub': X_ - Y_, 'opp': -X_, mulf: X_ * Y_ * Ri, sqrf: X_ * X_ * Ri}[op]
            run(pre + op, [x, y] if op in ('add', 'sub', mulf) else [x], want, dst, f.mont)
    if f.mont:
        for op, w in (('to_montgomery', lambda v: v * f.R), ('from_montgomery', lambda v: v * Ri),
                      ('scmul_3', lambda v: 3 * v), ('scmul_4', lambda v: 4 * v), ('scmul_8', lambda v: 8 * v)):
            x = pick(rng, f, None)
            run(pre + op, [x], w(f.num(x)), None, True)
    else:
        x = pick(rng, f, loose)
        run(pre + 'carry', [x], f.num(x), tight, False)
        for q in f.scmul:
            x = pick(rng, f, loose)
            run(pre + 'carry_scmul_%d' % q, [x], q * f.num(x), tight, False)
    # bytes
    x = pick(rng, f, tight)
    z = Guard(nb)
    c.call(pre + 'to_bytes', (P_, z.p), (P_, c.buf(x)))
    if int.from_bytes(z.get(), 'little') != f.num(x) % p or not z.ok():
        raise Fail('%sto_bytes (%d-bit words) differs' % (pre, f.bits), limbs=list(map(hex, x)), got=z.get(), want=hex(f.num(x) % p))
    v = rng.choice([0, 1, p - 1, rng.randrange(p)])
    z = Guard(f.n * f.b)
    c.call(pre + 'from_bytes', (P_, z.p), (P_, v.to_bytes(nb, 'little')))
    if f.num(c.limbs(z.get())) != v or not z.ok():
        raise Fail('%sfrom_bytes (%d-bit words) differs' % (pre, f.bits), value=hex(v), got=list(map(hex, c.limbs(z.get()))))
    x, y = pick(rng, f, tight), pick(rng, f, tight)
    fl = rng.randrange(2)
    z = Guard(f.n * f.b)
    c.call(pre + 'selectznz', (P_, z.p), (ctypes.c_ubyte, fl), (P_, c.buf(x)), (P_, c.buf(y)))
    if c.limbs(z.get()) != (y if fl else x):
        raise Fail('%sselectznz (%d-bit words) differs' % (pre, f.bits), flag=fl, x=x, y=y)
    # comparison
    x = pick(rng, f, tight)
    y = rng.choice([x, pick(rng, f, tight), c.split(f.num(x) % p)])
    r = c.call(f.name + '_fe_equal', (P_, c.buf(x)), (P_, c.buf(y)), res=ctypes.c_int)
    if r != int(f.num(x) % p == f.num(y) % p):
        raise Fail('%s_fe_equal (%d-bit words) differs' % (f.name, f.bits), x=list(map(hex, x)), y=list(map(hex, y)), got=r)
    k += 4
    if first or rng.randrange(8) == 0:
        for nm, e in CHAINS[f.name].items():
            x = pick(rng, f, tight)
            a = f.num(x) * Ri % p
            run('%s_fe_%s' % (f.name, nm), [x], pow(a, e(p), p) * R, tight, f.mont)
        x = pick(rng, f, tight)
        if rng.randrange(2):
            x = c.split(pow(f.num(x), 2, p) * Ri % p)
        a = f.num(x) * Ri % p
        for nm in ('sqrt', 'isqrt'):
            if nm == 'isqrt' and f.name == 'p224':
                continue
            y = pick(rng, f, tight)
            b = f.num(y) * Ri % p if nm == 'isqrt' else 1
            z = Guard(f.n * f.b)
            r = c.call('%s_fe_%s' % (f.name, nm), (P_, z.p), (P_, c.buf(x)), *([(P_, c.buf(y))] if nm == 'isqrt' else []), res=ctypes.c_int)
            v = f.num(c.limbs(z.get())) * Ri % p
            if nm == 'sqrt':
                ok = pow(a, (p - 1) // 2, p) != p - 1
            else:
                ok = a == 0 or (b != 0 and pow(a * b, (p - 1) // 2, p) == 1)
            k += 1
            if r != int(ok) or (ok and (v * v * b - a) % p):
                raise Fail('%s_fe_%s (%d-bit words) differs' % (f.name, nm, f.bits), u=hex(a), v=hex(b), got=r, root=hex(v), expected=int(ok))
    return k
