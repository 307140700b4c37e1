"""C14: multi-precision kernels."""
import time
from .ghost import *        # noqa
from .numeric import arith
from lvc.poly import Ints, padd, pscale

SRCS = [('mpi', 'c64'), ('mpi', 'c32')]
FILES = ['mpi', 'util', 'internal']


P = lambda n: 'torsion__' + n


def cell(ob, w, k):
    return UF('m:' + ob, w, (k,))


class Lin:
    """a kernel that runs along its operands with one word of carry.  The
    specification is the recurrence of the school method: CY(0) = c0,
    z_k + B CY(k+1) = step(x_k, y_k, z_k, CY(k)); the telescoped sum is the
    statement about the whole integers."""

    def __init__(self, U, cfg, fn, step, c0, ops, word=None, alias=(), first=0, period=4, fin=None):
        self.w = w = 64
        self.U, self.cfg, self.fn = U, cfg, fn
        self.step, self.c0, self.ops, self.word, self.alias, self.first = step, c0, ops, word, alias, first
        self.one = step not in (st_mul1, st_addmul1, st_submul1)
        self.T, self.fin = period, fin or (lambda c, y: c)

    def run(self, r):
        U, w = self.U, self.w
        b = w // 8
        ex, st = U.exec(FILES, self.cfg)
        m = zext(V('m', 40), 64)
        r += self.first
        T_ = self.T
        n = addc(mul(m, K(T_)), r)
        nb = mul(n, K(b))
        z = ex.sym_obj(st, 'z', addc(nb, b), b)
        obs = {'z': z}
        for o in self.ops:
            if o in self.alias:
                obs[o] = z
            else:
                obs[o] = ex.sym_obj(st, o, nb, b)
                obs[o].const = True
        nm = lambda o: 'z' if o in self.alias else o
        y = V('w', w)
        at = lambda k: {o: cell(nm(o), w, k) for o in list(self.ops) + ['z']}
        CY = Rec(ex, 'spec.carry', self.c0(y, w), lambda k, c: self.step(at(k), y, c, w)[1], lambda *a: [])
        for i in range(r):
            ex.facts.append(CY.unfold(K(i)))

        def hook(sm, t, vals):
            p = addc(mul(t, K(T_)), r)
            for j in range(T_):
                f = CY.unfold(addc(p, j))
                if f not in ex.facts:
                    ex.facts.append(f)
            return [eq(v, CY(p)) for v in vals.values() if isinstance(v, E) and v.w == w] + ([ule(CY(p), C(1, w))] if self.one else [])
        ex.inv_hooks.append(hook)
        args = [Ptr(z)] + [Ptr(obs[o]) for o in self.ops] + [n]
        if self.word:
            args.append(y)
        for s, ret in ex.call(st, P(self.fn), args):
            U.reach(s)
            if ret is not None:
                ex.require(s, eq(ret, self.fin(CY(n), y)), 'carry out')
            for i in range(r):
                ex.require(s, eq(s.load(Ptr(z, i * b), b), self.step(at(K(i)), y, CY(K(i)), w)[0]), 'word %d' % i)
            ex.require(s, eq(s.load(Ptr(z, nb), b), cell('z', w, n)), 'nothing beyond the result')
            q = zext(V('q', 40), 64)
            s2 = s.fork()
            s2.assume(ult(q, m))
            for sm in ex.summaries if hasattr(ex, 'summaries') else []:
                instances(s2, sm, q)
            p = addc(mul(q, K(T_)), r)
            for j in range(T_):
                s2.assume(CY.unfold(addc(p, j)))
            for j in range(T_):
                k = addc(p, j)
                ex.require(s2, eq(s2.load(Ptr(z, mul(k, K(b))), b), self.step(at(k), y, CY(k), w)[0]), 'word %dq+%d' % (T_, r + j))


def wide(e, w):
    return zext(e, 2 * w)


def lo_hi(v, w):
    return ext(v, w - 1, 0), ext(v, 2 * w - 1, w)


def st_add(a, y, c, w):
    return lo_hi(add(add(wide(a['x'], w), wide(a['y'], w)), wide(c, w)), w)


def st_add1(a, y, c, w):
    return lo_hi(add(wide(a['x'], w), wide(c, w)), w)


def neg_hi(v, w):
    return ext(v, w - 1, 0), neg(ext(v, 2 * w - 1, w))


def st_sub(a, y, c, w):
    return neg_hi(sub(sub(wide(a['x'], w), wide(a['y'], w)), wide(c, w)), w)


def st_sub1(a, y, c, w):
    return neg_hi(sub(wide(a['x'], w), wide(c, w)), w)


def st_mul1(a, y, c, w):
    return lo_hi(add(mul(wide(a['x'], w), wide(y, w)), wide(c, w)), w)


def st_addmul1(a, y, c, w):
    return lo_hi(add(add(wide(a['z'], w), mul(wide(a['x'], w), wide(y, w))), wide(c, w)), w)


def st_submul1(a, y, c, w):
    return neg_hi(sub(sub(wide(a['z'], w), mul(wide(a['x'], w), wide(y, w))), wide(c, w)), w)


zero = lambda y, w: C(0, w)
UNITS = []


def st_neg(a, y, c, w):
    return lo_hi(add(wide(not_(a['x']), w), wide(c, w)), w)


def masked(f):
    def g(a, y, c, w):
        b = dict(a)
        b['y'] = ite(eq(y, C(0, w)), C(0, w), a['y'])
        return f(b, y, c, w)
    return g


def st_cndneg(a, y, c, w):
    return lo_hi(add(wide(ite(eq(y, C(0, w)), a['x'], not_(a['x'])), w), wide(c, w)), w)


def reg(fn, step, c0, ops, word=None, aliases=((),), first=0, period=4, fin=None, cfgs=('c64', 'c32')):
    for cfg in cfgs:
        for al in aliases:
            for r in range(period):
                def unit(U, cfg=cfg, al=al, r=r):
                    Lin(U, cfg, fn, step, c0, ops, word, al, first, period, fin).run(r)
                UNITS.append(('%s %s%s n=%dm+%d' % (fn, cfg, ' ' + '='.join(('z',) + al) if al else '', period, r + first), unit))


reg('mpn_add_n', st_add, zero, ('x', 'y'), None, ((), ('x',), ('y',), ('x', 'y')))
reg('mpn_sub_n', st_sub, zero, ('x', 'y'), None, ((), ('x',), ('y',)))
reg('mpn_neg', st_neg, lambda y, w: C(1, w), ('x',), None, ((), ('x',)), fin=lambda c, y: xor(c, C(1, 64)))
reg('mpn_sec_add_1', st_add1, lambda y, w: y, ('x',), True, ((), ('x',)), 1)
reg('mpn_sec_sub_1', st_sub1, lambda y, w: y, ('x',), True, ((), ('x',)), 1)
reg('mpn_mul_1', st_mul1, zero, ('x',), True, ((), ('x',)), cfgs=('c64',))
reg('mpn_addmul_1', st_addmul1, zero, ('x',), True, ((),), cfgs=('c64',))
reg('mpn_submul_1', st_submul1, zero, ('x',), True, ((),), cfgs=('c64',))
reg('mpn_cnd_add_n', masked(st_add), zero, ('x', 'y'), True, ((), ('x',)), period=1)
reg('mpn_cnd_sub_n', masked(st_sub), zero, ('x', 'y'), True, ((), ('x',)), period=1)
reg('mpn_cnd_neg', st_cndneg, lambda y, w: ite(eq(y, C(0, w)), C(0, w), C(1, w)), ('x',), True, ((), ('x',)), period=1,
    fin=lambda c, y: ite(eq(y, C(0, 64)), C(0, 64), xor(c, C(1, 64))))


# ------------------------------------------------------------------ word by word

def setup(U, cfg, names, alias=(), extra=1, low=0):
    ex, st = U.exec(FILES, cfg)
    n = zext(V('n', 40), 64)
    st.assume(ule(K(low), n))
    obs = {}
    for o in names:
        if o in alias:
            obs[o] = obs[names[0]]
        else:
            obs[o] = ex.sym_obj(st, o, addc(mul(n, K(8)), 8 * extra), 8)
    return ex, st, n, obs


def point_unit(fn, cfg, names, want, alias=(), low=0, word=None, outs=('z',), ret=None):
    """every word of the result is want(word k of the operands, k, n)"""
    def unit(U):
        ex, st, n, obs = setup(U, cfg, names, alias, 1, low)
        for o in names:
            if o not in outs and o not in alias:
                obs[o].const = True
        k = V('k', 64)
        y = V('w', 64)
        if fn in ('mpn_lshift', 'mpn_rshift'):
            st.assume(and_(ule(K(1), y), ule(y, K(63))))
        nm = lambda o: names[0] if o in alias else o
        at = lambda i: {o: cell(nm(o), 64, i) for o in names}
        for s, r in ex.call(st, P(fn), [Ptr(obs[o]) for o in names] + [n] + ([y] if word else [])):
            U.reach(s)
            s1 = s.fork()
            s1.assume(ult(k, n))
            for o in outs:
                v = s1.load(Ptr(obs[o], mul(k, K(8))), 8)
                if fn in ('mpn_lshift', 'mpn_rshift'):
                    for b in range(1, 64):
                        m = {y: K(b)}
                        s2 = s1.fork()
                        s2.assume(eq(y, K(b)))
                        ex.require(s2, subst(eq(v, want(o, at, k, n, y)), m), 'word of %s, %d bits' % (o, b))
                else:
                    ex.require(s1, eq(v, want(o, at, k, n, y)), 'word of %s' % o)
                ex.require(s, eq(s.load(Ptr(obs[o], mul(n, K(8))), 8), cell(nm(o), 64, n)), 'nothing beyond the result')
            if ret is not None:
                ex.require(s, eq(r, ret(at, n, y)), 'carry out')
    return unit


def pick(b, f):
    return lambda o, at, k, n, y: f(at(k), y)


lo0 = lambda n: addc(n, -1)
PW = [
    ('mpn_zero', ['z'], lambda o, at, k, n, y: K(0), [()], 0, None),
    ('mpn_copyi', ['z', 'x'], lambda o, at, k, n, y: at(k)['x'], [()], 0, None),
    ('mpn_copyd', ['z', 'x'], lambda o, at, k, n, y: at(k)['x'], [()], 0, None),
    ('mpn_com', ['z', 'x'], lambda o, at, k, n, y: not_(at(k)['x']), [(), ('x',)], 0, None),
    ('mpn_and_n', ['z', 'x', 'y'], lambda o, at, k, n, y: and_(at(k)['x'], at(k)['y']), [(), ('x',)], 0, None),
    ('mpn_ior_n', ['z', 'x', 'y'], lambda o, at, k, n, y: or_(at(k)['x'], at(k)['y']), [(), ('x',)], 0, None),
    ('mpn_xor_n', ['z', 'x', 'y'], lambda o, at, k, n, y: xor(at(k)['x'], at(k)['y']), [(), ('x',)], 0, None),
    ('mpn_andn_n', ['z', 'x', 'y'], lambda o, at, k, n, y: and_(at(k)['x'], not_(at(k)['y'])), [()], 0, None),
    ('mpn_iorn_n', ['z', 'x', 'y'], lambda o, at, k, n, y: or_(at(k)['x'], not_(at(k)['y'])), [()], 0, None),
    ('mpn_nand_n', ['z', 'x', 'y'], lambda o, at, k, n, y: not_(and_(at(k)['x'], at(k)['y'])), [()], 0, None),
    ('mpn_nior_n', ['z', 'x', 'y'], lambda o, at, k, n, y: not_(or_(at(k)['x'], at(k)['y'])), [()], 0, None),

    ('mpn_cnd_zero', ['z', 'x'], lambda o, at, k, n, y: ite(eq(y, K(0)), at(k)['x'], K(0)), [(), ('x',)], 0, True),
    ('mpn_cnd_select', ['z', 'x', 'y'], lambda o, at, k, n, y: ite(eq(y, K(0)), at(k)['x'], at(k)['y']), [(), ('x',)], 0, True),
]
for fn_, names_, want_, als_, low_, word_ in PW:
    for al_ in als_:
        UNITS.append((fn_ + (' z=x' if al_ else ''), point_unit(fn_, 'c64', names_, want_, al_, low_, word_)))
UNITS.append(('mpn_cnd_swap', point_unit('mpn_cnd_swap', 'c64', ['x', 'y'], lambda o, at, k, n, y: ite(
    eq(y, K(0)), at(k)[o], at(k)['y' if o == 'x' else 'x']), (), 0, True, ('x', 'y'))))
for al_ in ((), ('x',)):
    UNITS.append(('mpn_lshift' + (' z=x' if al_ else ''), point_unit(
        'mpn_lshift', 'c64', ['z', 'x'], lambda o, at, k, n, y: or_(shl(at(k)['x'], y), ite(eq(k, K(0)), K(0), lshr(at(addc(k, -1))['x'], sub(K(64), y)))),
        al_, 1, True, ('z',), lambda at, n, y: lshr(at(addc(n, -1))['x'], sub(K(64), y)))))
    UNITS.append(('mpn_rshift' + (' z=x' if al_ else ''), point_unit(
        'mpn_rshift', 'c64', ['z', 'x'], lambda o, at, k, n, y: or_(lshr(at(k)['x'], y), ite(eq(k, addc(n, -1)), K(0), shl(at(addc(k, 1))['x'], sub(K(64), y)))),
        al_, 1, True, ('z',), lambda at, n, y: lshr(shl(at(K(0))['x'], sub(K(64), y)), sub(K(64), y)))))


# ------------------------------------------------------------------ early exit

def one_unit(fn, cfg, step, alias):
    """add_1 and sub_1 stop when no carry is left"""
    def unit(U):
        ex, st, n, obs = setup(U, cfg, ['z', 'x'], ('x',) if alias else ())
        y = V('w', 64)
        xn = 'z' if alias else 'x'
        if not alias:
            obs['x'].const = True
        at = lambda k: {'x': cell(xn, 64, k), 'z': cell('z', 64, k)}
        CY = Rec(ex, 'spec.carry', y, lambda k, c: step(at(k), y, c, 64)[1])
        ex.inv_hooks.append(lambda sm, t, v: [or_(eq(t, K(0)), ule(CY(t), K(1)))])
        xx = V('anyword', 64)
        z0 = step({'x': xx, 'z': xx}, y, K(0), 64)
        ex.require(st, and_(eq(z0[1], K(0)), eq(z0[0], xx)), 'no carry stays no carry')

        def keep(s, i, k):
            # induction on k with the step above
            s.assume(implies(and_(eq(CY(i), K(0)), ule(i, k)), eq(CY(k), K(0))))
        for s, r in ex.call(st, P(fn), [Ptr(obs['z']), Ptr(obs['x']), n, y]):
            U.reach(s)
            sms = [sm for sm in ex.summaries if not sm.outer]
            ts = [sm.t for sm in sms]
            k = V('k', 64)
            s1 = s.fork()
            for t in ts:
                keep(s1, t, n)
            ex.require(s1, eq(r, CY(n)), 'carry out')
            s2 = s.fork()
            s2.assume(ult(k, n))
            for sm in sms:
                instances(s2, sm, k)
                keep(s2, sm.t, k)
            s2.assume(CY.unfold(k))
            ex.require(s2, eq(s2.load(Ptr(obs['z'], mul(k, K(8))), 8), step(at(k), y, CY(k), 64)[0]), 'word')
            ex.require(s, eq(s.load(Ptr(obs['z'], mul(n, K(8))), 8), cell('z', 64, n)), 'nothing beyond the result')
    return unit


for al_ in (0, 1):
    UNITS.append(('mpn_add_1' + (' z=x' if al_ else ''), one_unit('mpn_add_1', 'c64', st_add1, al_)))
    UNITS.append(('mpn_sub_1' + (' z=x' if al_ else ''), one_unit('mpn_sub_1', 'c64', st_sub1, al_)))


# ------------------------------------------------------------------ comparison

def cmp_unit(U):
    ex, st, n, obs = setup(U, 'c64', ['x', 'y'], (), 0)
    obs['x'].const = obs['y'].const = True
    x, y = (lambda k: cell('x', 64, k)), (lambda k: cell('y', 64, k))
    for s, r in ex.call(st, P('mpn_cmp'), [Ptr(obs['x']), Ptr(obs['y']), n]):
        U.reach(s)
        s = s.fork()
        k = V('k', 64)
        top = sub(addc(n, -1), k)
        sms = [q for q in ex.summaries]
        if not sms:
            raise Unsupported('no loop')
        for q in sms:
            for f in loop_all(q, top):
                s.assume(f)
        t = sub(addc(n, -1), sms[-1].t)
        s2 = s.fork()
        s2.assume(eq(r, C(0, 32)))
        s2.assume(ult(k, n))
        ex.require(s2, eq(x(k), y(k)), 'zero only for equal numbers')
        s3 = s.fork()
        s3.assume(ne(r, C(0, 32)))
        ex.require(s3, ult(t, n), 'difference inside the range')
        ex.require(s3, implies(and_(ult(t, k), ult(k, n)), eq(x(k), y(k))), 'higher words agree')
        ex.require(s3, eq(eq(r, C(-1, 32)), ult(x(t), y(t))), 'sign of the highest difference')
        ex.require(s3, eq(eq(r, C(1, 32)), ult(y(t), x(t))), 'sign of the highest difference')


def zero_unit(U):
    ex, st, n, obs = setup(U, 'c64', ['x'], (), 0)
    obs['x'].const = True
    x = lambda k: cell('x', 64, k)
    for s, r in ex.call(st, P('mpn_zero_p'), [Ptr(obs['x']), n]):
        U.reach(s)
        s = s.fork()
        k = V('k', 64)
        for q in ex.summaries:
            for f in loop_all(q, k):
                s.assume(f)
        t = ex.summaries[-1].t
        s2 = s.fork()
        s2.assume(ne(r, C(0, 32)))
        s2.assume(ult(k, n))
        ex.require(s2, eq(x(k), K(0)), 'non-zero result only for zero')
        s3 = s.fork()
        s3.assume(eq(r, C(0, 32)))
        ex.require(s3, and_(ult(t, n), ne(x(t), K(0))), 'zero result only for a non-zero word')


def sec_eq_unit(two):
    def unit(U):
        ex, st, n, obs = setup(U, 'c64', ['x', 'y'][:1 + two], (), 0)
        for o in obs.values():
            o.const = True
        x = lambda k: cell('x', 64, k)
        y = (lambda k: cell('y', 64, k)) if two else (lambda k: K(0))
        k = V('k', 64)
        for s, r in ex.call(st, P('mpn_sec_equal_p' if two else 'mpn_sec_zero_p'), [Ptr(o) for o in obs.values()] + [n]):
            U.reach(s)
            apps = recs_in(ex, [r])
            s1 = s.fork()
            for f in or_facts_of(ex, apps):
                s1.assume(f)
            for a in uf_args(list(s1.pc), 'm:x'):
                s1.assume(implies(ult(a[0], n), eq(x(a[0]), y(a[0]))))
            ex.require(s1, eq(r, C(1, 32)), 'one for equal numbers')
            s2 = s.fork()
            s2.assume(ult(k, n))
            for f in or_facts_of(ex, apps, [k]):
                s2.assume(f)
            s2.assume(ne(r, C(0, 32)))
            ex.require(s2, eq(x(k), y(k)), 'non-zero only for equal numbers')
            ex.require(s2, eq(r, C(1, 32)), 'result is 0 or 1')
    return unit


SEC = {'mpn_sec_lt_p': lambda L, E_: L, 'mpn_sec_lte_p': or_, 'mpn_sec_gt_p': lambda L, E_: not_(or_(L, E_)),
       'mpn_sec_gte_p': lambda L, E_: not_(L)}


def sec_cmp_unit(fn):
    def unit(U):
        ex, st, n, obs = setup(U, 'c64', ['x', 'y'], (), 0)
        obs['x'].const = obs['y'].const = True

        def half(o, t):
            # half words from the top: number t is half h = 2n-1-t
            h = sub(addc(mul(n, K(2)), -1), t)
            v = cell(o, 64, lshr_c(h, 1))
            return ite(eq(ext(h, 0, 0), C(0, 1)), ext(v, 31, 0), ext(v, 63, 32))
        E_ = Rec(ex, 'spec.equal', C(1, 1), lambda t, e: and_(e, eq(half('x', t), half('y', t))))
        L = Rec(ex, 'spec.less', C(0, 1), lambda t, l: or_(l, and_(E_(t), ult(half('x', t), half('y', t)))))
        ex.inv_hooks.append(lambda s, t, v: [not_(and_(E_(t), L(t)))])
        N = mul(n, K(2))
        for s, r in ex.call(st, P(fn), [Ptr(obs['x']), Ptr(obs['y']), n]):
            U.reach(s)
            e, l = E_(N), L(N)
            if fn == 'mpn_sec_cmp':
                want = ite(e, C(0, 32), ite(l, C(-1, 32), C(1, 32)))
            else:
                want = zext(SEC[fn](l, e), 32)
            ex.require(s, eq(r, want), 'comparison of the numbers')
    return unit


UNITS += [('mpn_cmp', cmp_unit), ('mpn_zero_p', zero_unit), ('mpn_sec_equal_p', sec_eq_unit(1)), ('mpn_sec_zero_p', sec_eq_unit(0))]
UNITS += [(f_, sec_cmp_unit(f_)) for f_ in list(SEC) + ['mpn_sec_cmp']]


# ------------------------------------------------------------------ school multiplication

def mul_unit(U):
    """row 0 is mul_1, row i >= 1 is addmul_1 at word i; the word above each row
    is the carry of that row.  With the contracts of the rows this is the
    school method, whose value is x*y."""
    ex, st = U.exec(FILES)
    xn, yn = zext(V('xn', 40), 64), zext(V('yn', 40), 64)
    st.assume(ule(K(1), yn))
    x = ex.sym_obj(st, 'x', mul(xn, K(8)), 8)
    y = ex.sym_obj(st, 'y', mul(yn, K(8)), 8)
    x.const = y.const = True
    z = ex.sym_obj(st, 'z', mul(add(xn, yn), K(8)), 8)
    g = ex.sym_obj(st, 'ghost', K(8), 8)
    st.store(Ptr(g), K(0), 8)

    def row(first):
        def f(ex, s, a):
            i = s.load(Ptr(g), 8)
            zp, xp = as_ptr(a[0]), as_ptr(a[1])
            if zp.obj is not z or xp.obj is not x:
                raise Unsupported('other operands')
            ex.require(s, eq(zp.off, mul(i, K(8))), 'row starts at its word')
            ex.require(s, eq(xp.off, K(0)), 'row multiplies x')
            ex.require(s, eq(a[2], xn), 'row covers x')
            ex.require(s, eq(a[3], cell('y', 64, i)), 'row multiplier')
            ex.require(s, eq(i, K(0)) if first else ule(K(1), i), 'order of the rows')
            s.store(Ptr(g), addc(i, 1), 8)
            return UF('row.carry', 64, (i,))
        return f
    U.stub(ex, P('mpn_mul_1'), row(True))
    U.stub(ex, P('mpn_addmul_1'), row(False), False)
    for s, r in ex.call(st, P('mpn_mul'), [Ptr(z), Ptr(x), xn, Ptr(y), yn]):
        U.reach(s)
        ex.require(s, eq(s.load(Ptr(g), 8), yn), 'one row for each word of y')
        k = V('k', 64)
        s1 = s.fork()
        s1.assume(ult(k, yn))
        for sm in ex.summaries:
            instances(s1, sm, k)
            instances(s1, sm, addc(k, -1))
        ex.require(s1, eq(s1.load(Ptr(z, mul(add(xn, k), K(8))), 8), UF('row.carry', 64, (k,))), 'carry of each row above it')


UNITS.append(('mpn_mul', mul_unit))


def value(I, limbs):
    r = {}
    for i, e in enumerate(limbs):
        r = padd(r, pscale(I.poly(e), 1 << (64 * i)))
    return r


def fixed_unit(fn, cfg, nx, ny):
    def unit(U):
        ex, st = U.exec(FILES, cfg)
        x = ex.sym_obj(st, 'x', 8 * nx, 8)
        x.const = True
        y = None
        num = lambda v: sum(a << (64 * i) for i, a in enumerate(v))
        lx = [cell('x', 64, K(i)) for i in range(nx)]
        w = V('w', 64)
        zn = {'mpn_mul': nx + ny, 'mpn_sqr': 2 * nx}.get(fn, nx)
        z = ex.sym_obj(st, 'z', 8 * (zn + 1), 8)
        lz0 = [cell('z', 64, K(i)) for i in range(nx)]
        if fn == 'mpn_mul':
            y = ex.sym_obj(st, 'y', 8 * ny, 8)
            y.const = True
            args = [Ptr(z), Ptr(x), K(nx), Ptr(y), K(ny)]
            ly = [cell('y', 64, K(i)) for i in range(ny)]
        elif fn == 'mpn_sqr':
            sc = ex.sym_obj(st, 'scratch', 16 * nx, 8)
            args = [Ptr(z), Ptr(x), K(nx), Ptr(sc)]
            ly = lx
        else:
            args = [Ptr(z), Ptr(x), K(nx), w]
            ly = [w]
        for s, r in ex.call(st, P(fn), args):
            U.reach(s)
            out = [s.load(Ptr(z, 8 * i), 8) for i in range(zn)]
            I = Ints()
            prod = I.pmul(value(I, lx), value(I, ly))
            got = value(I, out)
            rs = list(out)
            if fn in ('mpn_mul', 'mpn_sqr'):
                D = padd(got, prod, -1)
                pred = lambda v: num(v[:zn]) == num(v[zn:zn + nx]) * num(v[zn + nx:])
                rs += lx + ly
            else:
                rs += [r] + lx + ly + lz0
                o = zn
                top = pscale(I.poly(r), 1 << (64 * nx))
                if fn == 'mpn_mul_1':
                    D = padd(padd(got, top), prod, -1)
                    pred = lambda v: num(v[:nx]) + (v[nx] << 64 * nx) == num(v[nx + 1:2 * nx + 1]) * v[2 * nx + 1]
                elif fn == 'mpn_addmul_1':
                    D = padd(padd(padd(got, top), prod, -1), value(I, lz0), -1)
                    pred = lambda v: num(v[:nx]) + (v[nx] << 64 * nx) == num(v[nx + 1:2 * nx + 1]) * v[2 * nx + 1] + num(v[2 * nx + 2:])
                else:
                    D = padd(padd(padd(got, top, -1), prod), value(I, lz0), -1)
                    pred = lambda v: num(v[:nx]) - (v[nx] << 64 * nx) == num(v[2 * nx + 2:]) - num(v[nx + 1:2 * nx + 1]) * v[2 * nx + 1]
            arith(U, 'exact product', not D, rs, pred, detail='' if not D else I.show(D))
            ex.require(s, eq(s.load(Ptr(z, 8 * zn), 8), cell('z', 64, K(zn))), 'nothing beyond the result')
    return unit


for cf_ in ('c64', 'c32'):
    for a_, b_ in ((1, 1), (2, 1), (2, 2), (3, 2), (1, 3), (3, 3), (4, 4)):
        if cf_ == 'c64' or a_ < 3:
            UNITS.append(('mpn_mul %s %dx%d' % (cf_, a_, b_), fixed_unit('mpn_mul', cf_, a_, b_)))
    for a_ in (1, 2, 3, 4):
        if cf_ == 'c64' or a_ < 2:
            UNITS.append(('mpn_sqr %s %d' % (cf_, a_), fixed_unit('mpn_sqr', cf_, a_, a_)))
for a_ in (1, 2, 5):
    for f_ in ('mpn_mul_1', 'mpn_addmul_1', 'mpn_submul_1'):
        UNITS.append(('%s c32 n=%d' % (f_, a_), fixed_unit(f_, 'c32', a_, 1)))


# ------------------------------------------------------------------ concrete

B = 1 << 64


def words(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return [B - 1] * n
    if k == 1:
        return [rng.choice((0, B - 1)) for _ in range(n)]
    if k == 2:
        return [rng.choice((0, 1, B - 1, B - 2, 1 << 63, (1 << 32) - 1, 1 << 32)) for _ in range(n)]
    if k == 3:
        v = rng.getrandbits(rng.randrange(64 * n + 1)) if n else 0
        return [(v >> (64 * i)) % B for i in range(n)]
    return [rng.getrandbits(64) for _ in range(n)]


def num(v):
    return sum(a << (64 * i) for i, a in enumerate(v))


def pack(v):
    return b''.join(a.to_bytes(8, 'little') for a in v)


def unpack(b):
    return [int.from_bytes(b[i:i + 8], 'little') for i in range(0, len(b), 8)]


def concrete(rng, budget, hints):
    t0 = time.time()
    libs = {}
    for cf in ('c64', 'c32', 'asm'):
        libs[cf] = clib(['mpi', 'util', 'internal'], config=cf)
    cases = 0
    u64 = ctypes.c_uint64

    def f(lib, name, res=None):
        g = getattr(lib, 'torsion__' + name)
        g.restype = res
        return g

    def bad(name, cf, **kw):
        raise Fail('%s (%s) differs from integer arithmetic' % (name, cf), dict(kw, config=cf))
    L = ctypes.c_long
    rnd = 0
    while time.time() - t0 < budget:
        rnd += 1
        cf = rng.choice(('c64', 'c32', 'asm'))
        lib = libs[cf]
        n = rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 17, rng.randrange(1, 40)))
        x, y, z = words(rng, n), words(rng, n), words(rng, n)
        if rng.randrange(4) == 0:
            y = list(x)
            if n and rng.randrange(2):
                y[rng.randrange(n)] ^= 1 << rng.randrange(64)
        w = rng.choice((0, 1, 2, B - 1, rng.getrandbits(64), 1 << rng.randrange(64), rng.getrandbits(32)))
        M = 1 << (64 * n)
        gx, gy = Guard(8 * n, pack(x)), Guard(8 * n, pack(y))
        for name in ('add_n', 'sub_n', 'add_1', 'sub_1', 'sec_add_1', 'sec_sub_1', 'mul_1', 'addmul_1', 'submul_1', 'neg',
                     'lshift', 'rshift', 'cnd_add_n', 'cnd_sub_n', 'cnd_neg', 'com', 'and_n', 'ior_n', 'xor_n', 'andn_n',
                     'iorn_n', 'nand_n', 'nior_n', 'cnd_select', 'copyi', 'copyd'):
            al = rng.randrange(3) == 0 and name not in ('addmul_1', 'submul_1')
            gz = Guard(8 * n, pack(x if al else z))
            px = gz.p if al else gx.p
            X_, Y_, Z_ = num(x), num(y), num(z)
            g = f(lib, 'mpn_' + name, u64)
            c = None
            if name in ('add_n', 'sub_n'):
                r = g(gz.p, px, gy.p, L(n))
                v = X_ + Y_ if name == 'add_n' else X_ - Y_
                c = abs(v // M)
            elif name in ('add_1', 'sub_1', 'sec_add_1', 'sec_sub_1'):
                r = g(gz.p, px, L(n), u64(w))
                v = X_ + w if 'add' in name else X_ - w
                c = abs(v // M)
            elif name == 'mul_1':
                r = g(gz.p, px, L(n), u64(w))
                v = X_ * w
                c = v // M
            elif name in ('addmul_1', 'submul_1'):
                r = g(gz.p, px, L(n), u64(w))
                v = Z_ + X_ * w if name == 'addmul_1' else Z_ - X_ * w
                c = abs(v // M)
            elif name == 'neg':
                r = g(gz.p, px, L(n))
                v = -X_
                c = int(X_ != 0)
            elif name in ('lshift', 'rshift'):
                if n == 0:
                    continue
                b = rng.randrange(1, 64)
                r = g(gz.p, px, L(n), L(b))
                v = X_ << b if name == 'lshift' else X_ >> b
                c = v >> (64 * n) if name == 'lshift' else X_ & ((1 << b) - 1)
            elif name in ('cnd_add_n', 'cnd_sub_n'):
                r = g(gz.p, px, gy.p, L(n), u64(w))
                yy = Y_ if w else 0
                v = X_ + yy if name == 'cnd_add_n' else X_ - yy
                c = abs(v // M)
            elif name == 'cnd_neg':
                r = g(gz.p, px, L(n), u64(w))
                v = -X_ if w else X_
                c = int(w != 0 and X_ != 0)
            elif name in ('copyi', 'copyd'):
                g(gz.p, px, L(n))
                v = X_
            elif name == 'com':
                g(gz.p, px, L(n))
                v = ~X_
            elif name == 'cnd_select':
                g(gz.p, px, gy.p, L(n), u64(w))
                v = Y_ if w else X_
            else:
                g(gz.p, px, gy.p, L(n))
                v = {'and_n': X_ & Y_, 'ior_n': X_ | Y_, 'xor_n': X_ ^ Y_, 'andn_n': X_ & ~Y_, 'iorn_n': X_ | ~Y_,
                     'nand_n': ~(X_ & Y_), 'nior_n': ~(X_ | Y_)}[name]
            cases += 1
            if num(unpack(gz.get())) != v % M or not gz.ok() or c is not None and r != c:
                bad('mpn_' + name, cf, n=n, x=hex(X_), y=hex(Y_), z=hex(Z_), w=hex(w), inplace=al)
        if not gx.ok() or not gy.ok() or gx.get() != pack(x) or gy.get() != pack(y):
            bad('operands', cf, n=n)
        # comparison
        X_, Y_ = num(x), num(y)
        s = (X_ > Y_) - (X_ < Y_)
        I32 = ctypes.c_int
        for name, want in (('cmp', s), ('sec_cmp', s), ('sec_lt_p', int(s < 0)), ('sec_lte_p', int(s <= 0)), ('sec_gt_p', int(s > 0)),
                           ('sec_gte_p', int(s >= 0)), ('sec_equal_p', int(s == 0))):
            r = f(lib, 'mpn_' + name, I32)(gx.p, gy.p, L(n))
            cases += 1
            if r != want:
                bad('mpn_' + name, cf, n=n, x=hex(X_), y=hex(Y_), got=r)
        for name in ('zero_p', 'sec_zero_p'):
            if f(lib, 'mpn_' + name, I32)(gx.p, L(n)) != int(X_ == 0):
                bad('mpn_' + name, cf, n=n, x=hex(X_))
        # different lengths
        m = rng.randrange(0, n + 1)
        for name in ('add', 'sub', 'sec_add', 'sec_sub'):
            al = rng.randrange(3) == 0
            gz = Guard(8 * n, pack(x if al else z))
            r = f(lib, 'mpn_' + name, u64)(gz.p, gz.p if al else gx.p, L(n), gy.p, L(m))
            yy = num(y[:m])
            v = X_ + yy if 'add' in name else X_ - yy
            cases += 1
            if num(unpack(gz.get())) != v % M or r != abs(v // M) or not gz.ok():
                bad('mpn_' + name, cf, n=n, m=m, x=hex(X_), y=hex(yy))
        if n:
            m = rng.randrange(1, n + 2)
            yy = words(rng, m)
            g2 = Guard(8 * m, pack(yy))
            gz = Guard(8 * (n + m))
            f(lib, 'mpn_mul')(gz.p, gx.p, L(n), g2.p, L(m))
            if num(unpack(gz.get())) != X_ * num(yy) or not gz.ok():
                bad('mpn_mul', cf, n=n, m=m, x=hex(X_), y=hex(num(yy)))
            gz, sc = Guard(16 * n), Guard(16 * n)
            f(lib, 'mpn_sqr')(gz.p, gx.p, L(n), sc.p)
            if num(unpack(gz.get())) != X_ * X_ or not gz.ok() or not sc.ok():
                bad('mpn_sqr', cf, n=n, x=hex(X_))
            gz, sc = Guard(16 * n), Guard(16 * n)
            f(lib, 'mpn_mul_n')(gz.p, gx.p, gy.p, L(n))
            if num(unpack(gz.get())) != X_ * Y_ or not gz.ok():
                bad('mpn_mul_n', cf, n=n, x=hex(X_), y=hex(Y_))
            bits = rng.randrange(64 * n, 128 * n)
            gz = Guard(8 * n, pack(z))
            r = f(lib, 'mpn_mulshift', u64)(gz.p, gx.p, gy.p, L(n), L(bits), sc.p)
            v = (X_ * Y_ >> bits) + (X_ * Y_ >> (bits - 1) & 1)
            if num(unpack(gz.get())) != v % M or r != v // M or not gz.ok() or not sc.ok():
                bad('mpn_mulshift', cf, n=n, x=hex(X_), y=hex(Y_), bits=bits)
            cases += 4
    return cases
