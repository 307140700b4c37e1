"""Integer (LIA+UF) encoding of bit-vector facts.

Every bit-vector term is encoded by its unsigned value; linear sums carry a
fresh wrap-around quotient.  Operations outside the linear fragment become
uninterpreted functions, so `unsat` is sound and `sat` means nothing."""
import itertools
import z3
from . import expr as X

_ctr = itertools.count()


class Enc:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.funcs = {}
        self.opaque = 0

    def fresh(self, p):
        return z3.Int('%s~%d' % (p, next(_ctr)))

    def rng(self, v, lo, hi):
        self.side.append(z3.And(v >= lo, v <= hi))

    def uf(self, name, args, w):
        key = (name, len(args))
        f = self.funcs.get(key)
        if f is None:
            f = self.funcs[key] = z3.Function('i:%s/%d' % (name, len(args)),
                                              *([z3.IntSort()] * (len(args) + 1)))
        r = f(*args)
        self.rng(r, 0, X.mask(w))
        return r

    def i(self, e):
        """(integer term, lo, hi)"""
        for x in X.postorder([e]):
            if x not in self.memo:
                self.memo[x] = self.conv(x)
        return self.memo[e]

    def conv(self, e):
        op, w = e.op, e.w
        M = X.mask(w)
        if w == 1 and op in ('eq', 'ult', 'slt', 'and', 'or', 'xor', 'ite'):
            return (z3.If(self.b(e), 1, 0), 0, 1)
        if op == 'c':
            return (z3.IntVal(e.val), e.val, e.val)
        if op == 'v':
            v = z3.Int('i:' + e.val)
            self.rng(v, 0, M)
            return (v, 0, M)
        a = [self.memo[x] for x in e.args]
        if op == 'lin':
            c, cs = e.val
            s = z3.IntVal(X._s(c, w))
            lo = hi = X._s(c, w)
            for k, (t, l, h) in zip(cs, a):
                k = X._s(k, w)
                s = s + k * t
                lo += k * l if k > 0 else k * h
                hi += k * h if k > 0 else k * l
            if lo >= 0 and hi <= M:
                return (s, lo, hi)
            q = self.fresh('q')
            r = self.fresh('r')
            self.side.append(s == r + q * (M + 1))
            self.rng(r, 0, M)
            self.rng(q, lo // (M + 1), hi // (M + 1))
            return (r, 0, M)
        if op == 'cat':
            s = None
            lo = hi = 0
            for x, (t, l, h) in zip(e.args, a):
                lo = (lo << x.w) + l
                hi = (hi << x.w) + h
                if x.op == 'c' and x.val == 0 and s is None:
                    continue
                s = t if s is None else s * (1 << x.w) + t
            return (s if s is not None else z3.IntVal(0), lo, hi)
        if op == 'ext':
            t, l, h = a[0]
            hi_, lo_ = e.val
            top = e.args[0].w - 1 - hi_
            b_ = self.fresh('e')
            self.rng(b_, 0, M)
            s = b_ * (1 << lo_)
            if top > 0 and h >= (1 << (hi_ + 1)):
                a_ = self.fresh('e')
                self.rng(a_, 0, h >> (hi_ + 1))
                s = s + a_ * (1 << (hi_ + 1))
            if lo_ > 0:
                c_ = self.fresh('e')
                self.rng(c_, 0, (1 << lo_) - 1)
                s = s + c_
            self.side.append(t == s)
            return (b_, 0, min(M, h >> lo_))
        if op == 'ite':
            (t1, l1, h1), (t2, l2, h2) = a[1], a[2]
            return (z3.If(self.b(e.args[0]), t1, t2), min(l1, l2), max(h1, h2))
        if op in ('udiv', 'urem') and e.args[1].op == 'c' and e.args[1].val:
            k = e.args[1].val
            t, l, h = a[0]
            q = self.fresh('d')
            r = self.fresh('m')
            self.rng(r, 0, k - 1)
            self.rng(q, 0, h // k)
            self.side.append(t == q * k + r)
            return (q, 0, h // k) if op == 'udiv' else (r, 0, min(k - 1, h))
        if op == 'sext':
            t, l, h = a[0]
            k = e.args[0].w
            half = 1 << (k - 1)
            return (z3.If(t >= half, t + (M + 1) - (1 << k), t), 0, M)
        name = op + str(e.val) + '.%d' % w
        if op == 'uf':
            name = e.val
            if not a:
                v = z3.Int('i:' + e.val)
                self.rng(v, 0, M)
                return (v, 0, M)
        else:
            self.opaque += 1
        return (self.uf(name, [t for t, _, _ in a], w), 0, M)

    def b(self, e):
        if e is X.T:
            return z3.BoolVal(True)
        if e is X.F:
            return z3.BoolVal(False)
        if e.w == 1:
            if e.op == 'and':
                return z3.And(*[self.b(x) for x in e.args])
            if e.op == 'or':
                return z3.Or(*[self.b(x) for x in e.args])
            if e.op == 'xor':
                r = self.b(e.args[0])
                for x in e.args[1:]:
                    r = z3.Xor(r, self.b(x))
                return z3.Not(r) if e.val else r
            if e.op == 'eq':
                return self.i(e.args[0])[0] == self.i(e.args[1])[0]
            if e.op == 'ult':
                return self.i(e.args[0])[0] < self.i(e.args[1])[0]
            if e.op == 'slt':
                w = e.args[0].w
                h = 1 << (w - 1)
                x, y = self.i(e.args[0])[0], self.i(e.args[1])[0]
                return z3.If(x >= h, x - 2 * h, x) < z3.If(y >= h, y - 2 * h, y)
            if e.op == 'ite':
                return z3.If(self.b(e.args[0]), self.b(e.args[1]), self.b(e.args[2]))
            if e.op == 'v':
                return z3.Int('i:' + e.val) == 1
        return self.i(e)[0] == 1


BITOPS = ('xor', 'and', 'or', 'mul', 'shl', 'lshr', 'ashr', 'tab', 'sdiv', 'srem')


def bitheavy(roots, limit=40):
    n = 0
    for x in X.postorder(roots):
        if x.w > 1 and (x.op in BITOPS or (x.op in ('udiv', 'urem') and x.args[1].op != 'c')):
            n += 1
            if n > limit:
                return True
    return False


_bit = {}


def bitty(e):
    """does the term contain an operation outside linear arithmetic?"""
    r = _bit.get(e)
    if r is None:
        for x in X.postorder([e]):
            if x not in _bit:
                _bit[x] = (x.w > 1 and (x.op in BITOPS or (x.op in ('udiv', 'urem') and x.args[1].op != 'c'))
                           ) or any(_bit[a] for a in x.args)
        r = _bit[e]
    return r


def check(facts, goal, timeout):
    """('unsat'|'sat'|'unknown', exact)"""
    en = Enc()
    fs = [en.b(f) for f in facts]
    g = en.b(goal)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*en.side)
    s.add(*fs)
    s.add(z3.Not(g))
    return str(s.check()), en.opaque == 0
