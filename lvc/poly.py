"""Integer semantics of bit-vector terms as polynomials with intervals.

Every term of width w denotes an unsigned integer.  It is written as a
polynomial with integer coefficients over atoms; an atom is an unknown term,
a truth value, or floor(N / 2^k) for a polynomial N.  N is kept with
coefficients reduced modulo 2^k, so that the low part and the carry of one sum
meet in the same atom and cancel when the limbs are put together again.
"""
from . import expr as X


class Give(Exception):
    pass


class Atom:
    __slots__ = ('id', 'lo', 'hi', 'what', 'n', 'k')

    def __init__(self, i, lo, hi, what, n=None, k=None):
        self.id, self.lo, self.hi, self.what, self.n, self.k = i, lo, hi, what, n, k


def padd(a, b, m=1):
    if len(a) < len(b) and m == 1:
        a, b = b, a
    r = dict(a)
    for k, v in b.items():
        t = r.get(k, 0) + m * v
        if t:
            r[k] = t
        else:
            r.pop(k, None)
    return r


def pscale(a, m):
    return {k: v * m for k, v in a.items()} if m else {}


def pconst(c):
    return {(): c} if c else {}


class Ints:
    def __init__(self, assume=()):
        self.sg = {}
        self.atoms = []
        self.key = {}
        self.memo = {}
        self.rng = {}       # declared ranges of terms
        self.tight = {}     # polynomial key -> interval known from a term
        self.poly_of = {}

    # ------------------------------------------------------------ atoms
    def atom(self, key, lo, hi, what, n=None, k=None):
        a = self.key.get(key)
        if a is None:
            a = Atom(len(self.atoms), lo, hi, what, n, k)
            self.atoms.append(a)
            self.key[key] = a
        return a

    def isbool(self, i):
        a = self.atoms[i]
        return a.lo == 0 and a.hi == 1

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        r = {}
        at = self.atoms
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                if not k1:
                    k = k2
                elif not k2:
                    k = k1
                else:
                    k = sorted(k1 + k2)
                    out = []
                    for i in k:
                        if out and out[-1] == i and at[i].lo == 0 and at[i].hi == 1:
                            continue
                        out.append(i)
                    k = tuple(out)
                r[k] = r.get(k, 0) + v1 * v2
        return {k: v for k, v in r.items() if v}

    def mono(self, k):
        lo, hi = 1, 1
        i = 0
        while i < len(k):
            j = i
            while j < len(k) and k[j] == k[i]:
                j += 1
            a = self.atoms[k[i]]
            e = j - i
            c = [a.lo ** e, a.hi ** e]
            l, h = min(c), max(c)
            if e % 2 == 0 and a.lo < 0 < a.hi:
                l = 0
            c = [lo * l, lo * h, hi * l, hi * h]
            lo, hi = min(c), max(c)
            i = j
        return lo, hi

    def interval(self, p):
        lo = hi = 0
        for k, v in p.items():
            if not k:
                lo += v
                hi += v
                continue
            l, h = self.mono(k)
            if v > 0:
                lo += v * l
                hi += v * h
            else:
                lo += v * h
                hi += v * l
        t = self.tight.get(frozenset(p.items()))
        if t:
            lo, hi = max(lo, t[0]), min(hi, t[1])
        return lo, hi

    def note(self, p, lo, hi):
        if len(p) > 1 or (p and list(p.values()) != [1]):
            f = frozenset(p.items())
            t = self.tight.get(f)
            self.tight[f] = (lo, hi) if t is None else (max(lo, t[0]), min(hi, t[1]))

    # ------------------------------------------------------------ floors
    def floor(self, n, k, lo, hi):
        """floor(n / 2^k) for a polynomial with values in [lo, hi]"""
        if k == 0:
            return n, lo, hi
        ql, qh = lo >> k, hi >> k
        if ql == qh:
            return pconst(ql), ql, qh
        m = 1 << k
        half = m >> 1
        r, q = {}, {}
        for key, v in n.items():
            c = v % m
            if c > half:
                c -= m
            if c:
                r[key] = c
            if v != c:
                q[key] = (v - c) >> k
        if not r:
            return q, ql, qh
        f = self.flatom(r, k, n, lo, hi, q)
        return padd(q, f), ql, qh

    def flatom(self, r, k, n, lo, hi, q):
        j = min(((v & -v).bit_length() - 1 for key, v in r.items() if key), default=0)
        if 0 < j < k:
            # a common power of two
            r = {key: v >> j for key, v in r.items() if v >> j}
            l, h = self.interval(r)
            if not q:
                l, h = max(l, lo >> j), min(h, hi >> j)
            return self.floor(r, k - j, l, h)[0]
        if len(r) == 1:
            (key, c), = r.items()
            if not key:
                return pconst(c >> k)
            if c == 1 and len(key) == 1 and self.atoms[key[0]].k is not None:
                # floor of a floor
                a = self.atoms[key[0]]
                base = a.n
                l, h = a.lo << a.k, ((a.hi + 1) << a.k) - 1
                f, _, _ = self.floor(base, a.k + k, l, h)
                return f
        vs = sorted({(v & -v).bit_length() - 1 for v in r.values()})
        for j in vs[1:]:
            # a low part whose carry is known as a bit
            low = {key: v for key, v in r.items() if v & ((1 << j) - 1)}
            t = self.key.get(('fl', j, frozenset(low.items())))
            if t is not None and t.hi <= 1:
                rest = {key: v >> j for key, v in r.items() if key not in low}
                rest = padd(rest, padd({(t.id,): 1}, pconst(self.poly_of[t.id])))
                l, h = self.interval(r)
                if not q:
                    l, h = max(l, lo), min(h, hi)
                return self.floor(rest, k - j, l >> j, h >> j)[0]
        fl = [key for key, c in r.items() if c == 1 and len(key) == 1 and self.atoms[key[0]].k is not None and self.atoms[key[0]].hi > 1]
        if len(fl) == 1 and len(r) > 1:
            # (floor(n / 2^j) + b) / 2^k = (n + 2^j b) / 2^(j + k)
            a = self.atoms[fl[0][0]]
            base = padd(a.n, {key: v << a.k for key, v in r.items() if key != fl[0]})
            l, h = self.interval(r)
            if not q:
                l, h = max(l, lo), min(h, hi)
            return self.floor(base, a.k + k, l << a.k, ((h + 1) << a.k) - 1)[0]
        names = set()
        for key in r:
            names.update(key)
        if len(names) == 1 and all(len(key) <= 1 for key in r):
            i, = names
            if self.isbool(i):
                c0 = r.get((), 0)
                c1 = c0 + r[(i,)]
                return padd(pconst(c0 >> k), {(i,): (c1 >> k) - (c0 >> k)} if (c1 >> k) != (c0 >> k) else {})
        l, h = self.interval(r)
        if q:
            a, b = self.interval(q)
            m = 1 << k
            l, h = max(l, lo - m * b), min(h, hi - m * a)
        else:
            l, h = max(l, lo), min(h, hi)
        l, h = l >> k, h >> k
        if l == h:
            return pconst(l)
        key = ('fl', k, frozenset(r.items()))
        t = self.key.get(key)
        if t is None:
            if h == l + 1:
                a = self.atom(key, 0, 1, 'floor bit', padd(r, pconst(-l << k)), k)
            else:
                a = self.atom(key, l, h, 'floor', r, k)
            a_off = l if h == l + 1 else 0
            self.poly_of[a.id] = a_off
            t = a
        off = self.poly_of[t.id]
        return padd({(t.id,): 1}, pconst(off))

    # ------------------------------------------------------------ terms
    def val(self, e):
        r = self.memo.get(e)
        if r is not None:
            return r
        for x in X.postorder([e]):
            if x not in self.memo:
                p, lo, hi = self._val(x)
                top = (1 << x.w) - 1
                l2, h2 = self.interval(p)
                lo, hi = max(lo, l2, 0), min(hi, h2, top)
                d = self.rng.get(x)
                if d:
                    lo, hi = max(lo, d[0]), min(hi, d[1])
                if lo == hi:
                    p = pconst(lo)
                self.note(p, lo, hi)
                self.memo[x] = (p, lo, hi)
        return self.memo[e]

    def poly(self, e):
        return self.val(e)[0]

    def range(self, e):
        return self.val(e)[1:]

    def declare(self, e, lo, hi):
        """use a known range of a term (to be justified by the caller)"""
        self.rng[e] = (lo, hi)
        if e in self.memo:
            p, l, h = self.memo[e]
            self.memo[e] = (p, max(l, lo), min(h, hi))
            self.note(p, lo, hi)

    def wrap(self, n, lo, hi, w):
        """n mod 2^w"""
        m = 1 << w
        if 0 <= lo and hi < m:
            return n, lo, hi
        q, ql, qh = self.floor(n, w, lo, hi)
        r = padd(n, q, -m)
        if ql == qh:
            return r, lo - m * ql, hi - m * ql
        return r, 0, m - 1

    def opaque(self, e, lo=0, hi=None):
        if hi is None:
            hi = (1 << e.w) - 1
        d = self.rng.get(e)
        if d:
            lo, hi = max(lo, d[0]), min(hi, d[1])
        if lo == hi:
            return pconst(lo), lo, hi
        if hi == lo + 1 and lo:
            a = self.atom(('t', e), 0, 1, e)
            return padd({(a.id,): 1}, pconst(lo)), lo, hi
        a = self.atom(('t', e), lo, hi, e)
        return {(a.id,): 1}, lo, hi

    def bits(self, v, hi, lo):
        """bits hi..lo of a value"""
        p, l, h = v
        a, al, ah = self.floor(p, lo, l, h)
        return self.wrap(a, al, ah, hi - lo + 1) if True else None

    def signed(self, e, p, lo, hi):
        """remember a number congruent to the term that is small when signed"""
        h = 1 << (e.w - 1)
        if -h <= lo < 0 and hi < h:
            self.sg[e] = (p, lo, hi)

    def unwrapped(self, e, a):
        """a sum before reduction modulo the word"""
        c, cs = e.val
        m = 1 << e.w
        if c >= m >> 1:
            c -= m
        p = pconst(c)
        lo = hi = c
        for k, (q, l, h) in zip(cs, a):
            if k > m >> 1:
                k -= m
            p = padd(p, q, k)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        l2, h2 = self.interval(p)
        return p, max(lo, l2), min(hi, h2)

    def _val(self, e):
        op = e.op
        w = e.w
        if op == 'c':
            return pconst(e.val), e.val, e.val
        if op in ('v', 'uf', 'tab'):
            return self.opaque(e)
        a = [self.memo[x] for x in e.args]
        if op == 'lin':
            t = self.unwrapped(e, [self.sg.get(x, v) for x, v in zip(e.args, a)])
            self.signed(e, *t)
            return self.wrap(*t, w)
        if op == 'mul':
            p = self.pmul(a[0][0], a[1][0])
            lo, hi = a[0][1] * a[1][1], a[0][2] * a[1][2]
            self.note(p, lo, hi)
            return self.wrap(p, lo, hi, w)
        if op == 'ext':
            t = self.sg.get(e.args[0])
            if t:
                self.signed(e, *self.floor(t[0], e.val[1], t[1], t[2]))
            return self.bits(a[0], e.val[0], e.val[1])
        if op == 'cat':
            p, lo, hi = a[0]
            for x, (q, l, h) in zip(e.args[1:], a[1:]):
                p = padd(pscale(p, 1 << x.w), q)
                lo, hi = (lo << x.w) + l, (hi << x.w) + h
            return p, lo, hi
        if op == 'sext':
            x = e.args[0]
            t = self.sg.get(x)
            if t:
                self.sg[e] = t
                return self.wrap(*t, w)
            x = e.args[0]
            p, l, h = a[0]
            s, sl, sh = self.floor(p, x.w - 1, l, h)
            k = (1 << w) - (1 << x.w)
            return padd(p, pscale(s, k)), l + k * sl, h + k * sh
        if op == 'ite':
            c = a[0][0]
            (p, l, h), (q, l2, h2) = a[1], a[2]
            return padd(q, self.pmul(c, padd(p, q, -1))), min(l, l2), max(h, h2)
        if op == 'ult':
            (p, l, h), (q, l2, h2) = a
            d = padd(p, q, -1)
            lo, hi = l - h2, h - l2
            l3, h3 = self.interval(d)
            lo, hi = max(lo, l3), min(hi, h3)
            if hi < 0:
                return pconst(1), 1, 1
            if lo >= 0:
                return {}, 0, 0
            f, fl, fh = self.floor(d, e.args[0].w, lo, hi)
            return pscale(f, -1), -fh, -fl
        if op == 'slt':
            x, y = e.args
            h = 1 << (x.w - 1)
            return self._shifted_lt(x, y, a, h)
        if op == 'eq':
            (p, l, h), (q, l2, h2) = a
            d = padd(p, q, -1)
            if not d:
                return pconst(1), 1, 1
            if h < l2 or h2 < l:
                return {}, 0, 0
            if e.args[0].w == 1:
                # 1 - a - b + 2ab
                return padd(padd(pconst(1), padd(p, q), -1), pscale(self.pmul(p, q), 2)), 0, 1
            # one canonical atom per difference
            key = min(tuple(sorted(d.items())), tuple(sorted(pscale(d, -1).items())))
            # a truth value d in {0,c}
            l3, h3 = self.interval(d)
            names = {i for k in d for i in k}
            if len(names) == 1 and all(len(k) <= 1 for k in d):
                i, = names
                if self.isbool(i):
                    c0 = d.get((), 0)
                    c1 = c0 + d[(i,)]
                    t0, t1 = int(c0 == 0), int(c1 == 0)
                    return padd(pconst(t0), {(i,): t1 - t0} if t1 != t0 else {}), 0, 1
            t = self.atom(('eq', key), 0, 1, ('eq', d))
            return {(t.id,): 1}, 0, 1
        if op in ('and', 'or', 'xor'):
            return self.bitop(op, e, a)
        if op in ('shl', 'lshr', 'udiv', 'urem', 'ashr', 'sdiv', 'srem'):
            return self.opaque(e)
        return self.opaque(e)

    def _shifted_lt(self, x, y, a, h):
        def sh(v, w):
            # value + 2^(w-1) mod 2^w
            p, l, u = v
            return self.wrap(padd(p, pconst(h)), l + h, u + h, w)
        p, q = sh(a[0], x.w), sh(a[1], y.w)
        d = padd(p[0], q[0], -1)
        lo, hi = p[1] - q[2], p[2] - q[1]
        if hi < 0:
            return pconst(1), 1, 1
        if lo >= 0:
            return {}, 0, 0
        f, fl, fh = self.floor(d, x.w, lo, hi)
        return pscale(f, -1), -fh, -fl

    def masklike(self, v, w):
        """b when the value is b * (2^w - 1) with b in {0,1}"""
        p = v[0]
        m = (1 << w) - 1
        if not p or any(c % m for c in p.values()):
            return None
        b = {k: c // m for k, c in p.items()}
        l, h = self.interval(b)
        if l >= 0 and h <= 1:
            return b
        # polynomial over booleans: check all assignments when few
        names = sorted({i for k in b for i in k})
        if len(names) <= 4 and all(self.isbool(i) for i in names):
            for t in range(1 << len(names)):
                env = {i: (t >> j) & 1 for j, i in enumerate(names)}
                s = 0
                for k, c in b.items():
                    x = c
                    for i in k:
                        x *= env[i]
                    s += x
                if s not in (0, 1):
                    return None
            return b
        return None

    def bitop(self, op, e, a):
        w = e.w
        full = (1 << w) - 1
        c = e.val
        vs = list(a)
        if op == 'xor':
            if len(vs) == 1:
                v = vs[0]
            elif w == 1:
                v = vs[0]
                for u in vs[1:]:
                    p = padd(padd(v[0], u[0]), pscale(self.pmul(v[0], u[0]), -2))
                    v = (p, 0, 1)
            else:
                return self.opaque(e)
            if not c:
                return v
            if c == full:
                return padd(pconst(full), v[0], -1), full - v[2], full - v[1]
            return self.opaque(e)
        v = vs[0]
        for u in vs[1:]:
            v = self.and2(v, u, w, e) if op == 'and' else self.or2(v, u, w, e)
            if v is None:
                hi = None
                if op == 'and':
                    hi = min(x[2] for x in vs)
                return self.opaque(e, 0, hi)
        if c is None:
            return v
        if op == 'and':
            return self.andc(v, c, w)
        # x | c = x + c - (x & c)
        t = self.andc(v, c, w)
        p = padd(padd(v[0], pconst(c)), t[0], -1)
        return p, max(v[1], c), full

    def andc(self, v, c, w):
        p, lo, hi = {}, 0, 0
        i = 0
        while i < w:
            if not (c >> i) & 1:
                i += 1
                continue
            j = i
            while j < w and (c >> j) & 1:
                j += 1
            q, l, h = self.bits(v, j - 1, i)
            p = padd(p, pscale(q, 1 << i))
            lo += l << i
            hi += h << i
            i = j
        return p, lo, min(hi, v[2])

    def and2(self, u, v, w, e):
        if w == 1:
            return self.pmul(u[0], v[0]), 0, 1
        for x, y in ((u, v), (v, u)):
            b = self.masklike(x, w)
            if b is not None:
                return self.pmul(b, y[0]), 0, y[2]
        if self.disjoint(u[0], v[0]):
            return {}, 0, 0
        return None

    def or2(self, u, v, w, e):
        if w == 1:
            return padd(padd(u[0], v[0]), self.pmul(u[0], v[0]), -1), max(u[1], v[1]), 1
        if not u[0]:
            return v
        if not v[0]:
            return u
        if self.disjoint(u[0], v[0]):
            return padd(u[0], v[0]), max(u[1], v[1]), max(u[2], v[2])
        for x, y in ((u, v), (v, u)):
            # multiples of 2^k over values below 2^k
            k = None
            for c in x[0].values():
                z = (c & -c).bit_length() - 1
                k = z if k is None else min(k, z)
            if k and y[2] < 1 << k:
                return padd(u[0], v[0]), u[1] + v[1], u[2] + v[2]
            b = self.masklike(x, w)
            if b is not None:
                full = (1 << w) - 1
                nb = padd(pconst(1), b, -1)
                return padd(pscale(b, full), self.pmul(nb, y[0])), 0, full
        for x, y in ((u, v), (v, u)):
            if len(x[0]) < 12 and self.linear([(x[0], 0, 0)], timeout=2000):
                return y
        return None

    def disjoint(self, p, q):
        """a truth value decides which of the two is zero"""
        cand = None
        for k in p:
            s = {i for i in k if self.isbool(i)}
            cand = s if cand is None else cand & s
        for i in cand or ():
            # p = b*p'; q at b = 1
            if not self.at(q, i, 1):
                return True
        cand = None
        for k in q:
            s = {i for i in k if self.isbool(i)}
            cand = s if cand is None else cand & s
        for i in cand or ():
            if not self.at(p, i, 1):
                return True
        return False

    def at(self, p, i, v):
        """substitute a constant for an atom"""
        r = {}
        for k, c in p.items():
            if i in k:
                n = k.count(i)
                c = c * v ** n
                k = tuple(x for x in k if x != i)
            if c:
                t = r.get(k, 0) + c
                if t:
                    r[k] = t
                else:
                    r.pop(k, None)
        return r

    # ------------------------------------------------------------ goals
    def weighted(self, terms):
        """sum of weight * term"""
        p = {}
        for wgt, e in terms:
            p = padd(p, pscale(self.poly(e), wgt))
        return p

    def zero_mod(self, p, m):
        return all(c % m == 0 for c in p.values())

    def show(self, p, n=12):
        out = []
        for k, c in list(p.items())[:n]:
            out.append('%s*%s' % (hex(c), '.'.join(self.name(i) for i in k)))
        return ' + '.join(out) + (' ..(%d)' % len(p) if len(p) > n else '')

    def name(self, i):
        a = self.atoms[i]
        if a.k is not None:
            return 'fl%d[%d]' % (i, a.k)
        if isinstance(a.what, X.E):
            return X.show(a.what, 3)
        return 'b%d' % i

    def linear(self, goals, case=(), timeout=10000):
        """prove linear facts over the atoms with z3; monomials of degree
        two or more become variables with their interval.  goals: list of
        (poly, lo, hi) to be shown lo <= poly <= hi"""
        import z3
        s = z3.Solver()
        s.set('timeout', timeout)
        var = {}
        done = set()

        def mv(k):
            if not k:
                return z3.IntVal(1)
            v = var.get(k)
            if v is None:
                v = var[k] = z3.Int('m' + '_'.join(map(str, k)))
                lo, hi = self.mono(k)
                s.add(v >= lo, v <= hi)
                if len(k) == 2 and self.isbool(k[0]) != self.isbool(k[1]):
                    b, x = (k[0], k[1]) if self.isbool(k[0]) else (k[1], k[0])
                    bv, xv = mv((b,)), mv((x,))
                    s.add(z3.Or(z3.And(bv == 0, v == 0), z3.And(bv == 1, v == xv)))
                for i in k:
                    define(i)
            return v

        def lin(p):
            return z3.Sum([z3.IntVal(c) * mv(k) for k, c in p.items()] + [z3.IntVal(0)])

        def define(i):
            if i in done:
                return
            done.add(i)
            a = self.atoms[i]
            if a.k is not None:
                d = lin(a.n) - (1 << a.k) * mv((i,))
                s.add(d >= 0, d < (1 << a.k))
            elif isinstance(a.what, tuple) and a.what[0] == 'eq':
                s.add((mv((i,)) == 1) == (lin(a.what[1]) == 0))
        for p, lo, hi in case:
            t = lin(p)
            s.add(t >= lo, t <= hi)
        # known intervals of whole values
        gs = []
        for p, lo, hi in goals:
            t = lin(p)
            c = []
            if lo is not None:
                c.append(t < lo)
            if hi is not None:
                c.append(t > hi)
            gs.append(z3.Or(*c))
        s.add(z3.Or(*gs))
        r = s.check()
        return True if r == z3.unsat else False if r == z3.sat else None
