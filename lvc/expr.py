"""Hash-consed bit-vector expression DAG with on-the-fly normalisation.

Every node denotes a bit vector of width w.  Booleans are 1-bit vectors.
The rewriting rules below are all equalities of the theory of fixed-size bit
vectors with uninterpreted functions.
"""
import itertools

_tab = {}
_ctr = itertools.count()


class E:
    __slots__ = ('op', 'w', 'args', 'val', 'id', 'z', 'fv', 'd', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(op, w, args=(), val=None):
    key = (op, w, val, tuple([a.id for a in args]))
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op, e.w, e.args, e.val = op, w, tuple(args), val
        e.id = next(_ctr)
        e.z = None
        e.fv = None
        d = 0
        for a in args:
            if a.d > d:
                d = a.d
        e.d = d + 1
        _tab[key] = e
    return e


def show(e, d=6):
    if e.op == 'c':
        return '%#x' % e.val if e.w > 1 else ('T' if e.val else 'F')
    if e.op == 'v':
        return e.val
    if d == 0:
        return '..'
    if e.op == 'lin':
        c, cs = e.val
        s = ['%s%s' % ('' if k == 1 else ('-' if k == mask(e.w) else '%d*' % k), show(a, d - 1))
             for k, a in zip(cs, e.args)]
        if c:
            s.append(str(c if c < (1 << (e.w - 1)) else c - (1 << e.w)))
        return '(' + ' + '.join(s) + ')'
    if e.op == 'ext':
        return '%s[%d:%d]' % (show(e.args[0], d - 1), e.val[0], e.val[1])
    if e.op == 'uf':
        return '%s(%s)' % (e.val, ', '.join(show(a, d - 1) for a in e.args))
    if e.op == 'tab':
        return 'tab:%s(%s)' % (e.val[0], show(e.args[0], d - 1))
    return '%s%d(%s)' % (e.op, e.w, ', '.join(show(a, d - 1) for a in e.args))


def mask(w):
    return (1 << w) - 1


_cc = {}


def C(v, w):
    v &= (1 << w) - 1
    k = (v, w)
    e = _cc.get(k)
    if e is None:
        e = _cc[k] = _mk('c', w, (), v)
    return e


T = C(1, 1)
F = C(0, 1)


def V(name, w):
    return _mk('v', w, (), name)


UNFOLD = {}     # uf name -> python callable(args)->E or None, applied eagerly


def UF(name, w, args=()):
    f = UNFOLD.get(name)
    if f is not None:
        r = f(args)
        if r is not None:
            return r
    return _mk('uf', w, args, name)


def isc(e):
    return e.op == 'c'


# ------------------------------------------------------------ linear sums

def _lin_terms(e, coef, acc):
    """accumulate coef*e into acc dict; returns constant part"""
    w = e.w
    if e.op == 'c':
        return coef * e.val
    if e.op == 'lin':
        c, cs = e.val
        for k, a in zip(cs, e.args):
            acc[a] = acc.get(a, 0) + coef * k
        return coef * c
    if e.op == 'cat':
        # x << k
        lo = e.args[-1]
        if lo.op == 'c' and len(e.args) == 2:
            k = lo.w
            hi = e.args[0]
            if hi.op == 'ext' and hi.val[1] == 0 and hi.args[0].w == w:
                return _lin_terms(hi.args[0], coef << k, acc) + coef * lo.val
            if hi.op == 'lin' and all(a.op == 'ext' and a.val[1] == 0 and a.args[0].w == w or
                                      a.op == 'cat' and a.args[0].op == 'c' and a.args[0].val == 0 for a in hi.args):
                r = coef * lo.val + (coef << k) * hi.val[0]
                for q, a in zip(hi.val[1], hi.args):
                    r += _lin_terms(a.args[0] if a.op == 'ext' else zext(a, w), (coef << k) * q, acc)
                return r
        if lo.op == 'c':
            k = lo.w
            if e.args[0].op == 'c' and e.args[0].val == 0 and len(e.args) == 3:
                z = zext(e.args[1], w)
                acc[z] = acc.get(z, 0) + (coef << k)
                return coef * lo.val
            if lo.val:
                z = cat(*e.args[:-1], C(0, k))
                acc[z] = acc.get(z, 0) + coef
                return coef * lo.val
    if e.op == 'xor' and len(e.args) == 1 and e.val == mask(w):
        # ~x = -x - 1
        c = _lin_terms(e.args[0], -coef, acc)
        return c - coef
    acc[e] = acc.get(e, 0) + coef
    return 0


def _mklin(w, acc, c):
    m = mask(w)
    c &= m
    items = [(k & m, a) for a, k in acc.items() if k & m]
    if not items:
        return C(c, w)
    if len(items) == 1 and c == 0:
        k, a = items[0]
        if k == 1:
            return a
        if k & (k - 1) == 0:
            s = k.bit_length() - 1
            return cat(ext(a, w - s - 1, 0), C(0, s))
    # disjoint concat: sum of values with non overlapping bits -> or
    if len(items) <= 3 and all(k & (k - 1) == 0 for k, _ in items):
        r = _disjoint_sum(w, items, c)
        if r is not None:
            return r
    items.sort(key=lambda x: x[1].id)
    return _mk('lin', w, [a for _, a in items], (c, tuple(k for k, _ in items)))


def _nzmask(e):
    """mask of bits which may be non zero"""
    if e.op == 'c':
        return e.val
    if e.op == 'cat':
        m = 0
        for a in e.args:
            m = (m << a.w) | _nzmask(a)
        return m
    if e.op == 'and' and e.val is not None:
        return e.val
    if e.op == 'ite' and e.args[1].op in ('c', 'cat') and e.args[2].op in ('c', 'cat'):
        return _nzmask(e.args[1]) | _nzmask(e.args[2])
    return mask(e.w)


def _disjoint_sum(w, items, c):
    used = c
    m = mask(w)
    for k, a in items:
        nz = _nzmask(a) * k
        if nz & ~m or nz & used:
            return None
        used |= nz
    if len(items) == 1 and c == 0:
        return None
    if used == m and len(items) == 1:
        pass
    parts = [C(c, w)] if c else []
    for k, a in items:
        s = k.bit_length() - 1
        parts.append(shl_c(a, s))
    r = parts[0]
    for p in parts[1:]:
        r = or_(r, p)
    return r if r.op in ('cat', 'c') else None


def add(*xs):
    w = xs[0].w
    if w == 1:
        r = F
        for x in xs:
            r = xor(r, x)
        return r
    acc = {}
    c = 0
    for x in xs:
        assert x.w == w, (x, w)
        c += _lin_terms(x, 1, acc)
    return _mklin(w, acc, c)


def lin(w, const, pairs):
    acc = {}
    c = const
    for k, x in pairs:
        c += _lin_terms(x, k, acc)
    return _mklin(w, acc, c)


def neg(a):
    return lin(a.w, 0, [(-1, a)])


def sub(a, b):
    if a.w == 1:
        return xor(a, b)
    return lin(a.w, 0, [(1, a), (-1, b)])


def addc(a, k):
    return lin(a.w, k, [(1, a)])


def mul(a, b):
    if a.w == 1:
        return and_(a, b)
    if a.op == 'c':
        return lin(a.w, 0, [(a.val, b)])
    if b.op == 'c':
        return lin(a.w, 0, [(b.val, a)])
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', a.w, (a, b))


def udiv(a, b):
    if b.op == 'c' and b.val == 0:
        return C(mask(a.w), a.w)
    if b.op == 'c' and b.val:
        if a.op == 'c':
            return C(a.val // b.val, a.w)
        if b.val == 1:
            return a
        if b.val & (b.val - 1) == 0:
            return lshr_c(a, b.val.bit_length() - 1)
    return _mk('udiv', a.w, (a, b))


def urem(a, b):
    if b.op == 'c' and b.val == 0:
        return a
    if b.op == 'c' and b.val:
        if a.op == 'c':
            return C(a.val % b.val, a.w)
        if b.val == 1:
            return C(0, a.w)
        if b.val & (b.val - 1) == 0:
            return and_(a, C(b.val - 1, a.w))
    return _mk('urem', a.w, (a, b))


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.val:
        x, y = _s(a.val, a.w), _s(b.val, a.w)
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, a.w)
    if b.op == 'c' and b.val and sign_zero(a) and not b.val >> (b.w - 1):
        return udiv(a, b)
    return _mk('sdiv', a.w, (a, b))


def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.val:
        x, y = _s(a.val, a.w), _s(b.val, a.w)
        r = abs(x) % abs(y)
        return C(r if x >= 0 else -r, a.w)
    if b.op == 'c' and b.val and sign_zero(a) and not b.val >> (b.w - 1):
        return urem(a, b)
    return _mk('srem', a.w, (a, b))


def sign_zero(a):
    """the sign bit is syntactically 0"""
    return not (_nzmask(a) >> (a.w - 1))


# ------------------------------------------------------------ cat / extract

def cat(*xs):
    """most significant first"""
    out = []
    for x in xs:
        if x.w == 0:
            continue
        if x.op == 'cat':
            out.extend(x.args)
        else:
            out.append(x)
    if not out:
        raise ValueError('empty cat')
    # merge neighbours
    res = [out[0]]
    for x in out[1:]:
        p = res[-1]
        if p.op == 'c' and x.op == 'c':
            res[-1] = C((p.val << x.w) | x.val, p.w + x.w)
            continue
        if p.op == 'ext' and x.op == 'ext' and p.args[0] is x.args[0] and p.val[1] == x.val[0] + 1:
            res[-1] = ext(p.args[0], p.val[0], x.val[1])
            continue
        if (p.op == 'ite' and x.op == 'ite' and p.args[0] is x.args[0] and
                p.args[1].op in ('c', 'ext') and x.args[1].op in ('c', 'ext')):
            m = ite(p.args[0], cat(p.args[1], x.args[1]), cat(p.args[2], x.args[2]))
            res[-1] = m
            continue
        res.append(x)
    # sign extension pattern is kept as cat of ext bits; fine
    if len(res) == 1:
        return res[0]
    w = 0
    for x in res:
        w += x.w
    return _mk('cat', w, res)


_extmemo = {}
DEEP = 24       # sums below deep expressions are not cut into pieces


def ext(x, hi, lo):
    """bits hi..lo of x"""
    if hi < lo:
        return _Z
    w = hi - lo + 1
    if w == x.w:
        return x
    if x.op == 'c':
        return C(x.val >> lo, w)
    key = (x.id, hi, lo)
    r = _extmemo.get(key)
    if r is None:
        r = _extmemo[key] = _ext(x, hi, lo, w)
    return r


def _ext(x, hi, lo, w):
    op = x.op
    if op == 'ext':
        return ext(x.args[0], x.val[1] + hi, x.val[1] + lo)
    if op == 'cat':
        pos = x.w
        parts = []
        for a in x.args:
            top = pos - 1
            bot = pos - a.w
            h = min(hi, top)
            l = max(lo, bot)
            if h >= l:
                parts.append(ext(a, h - bot, l - bot))
            pos = bot
        return cat(*parts)
    if op in ('xor', 'and', 'or'):
        args = [ext(a, hi, lo) for a in x.args]
        f = {'xor': xor, 'and': and_, 'or': or_}[op]
        r = args[0]
        for a in args[1:]:
            r = f(r, a)
        if x.val is not None:
            r = f(r, C(x.val >> lo, w))
        return r
    if op == 'ite' and (x.args[1].op in ('c', 'cat', 'ext') or x.args[2].op in ('c', 'cat', 'ext')):
        return ite(x.args[0], ext(x.args[1], hi, lo), ext(x.args[2], hi, lo))
    if op == 'sext':
        a = x.args[0]
        if hi < a.w:
            return ext(a, hi, lo)
        if lo >= a.w - 1:
            return sext(ext(a, a.w - 1, a.w - 1), w)
        if lo > 0:
            return sext(ext(a, a.w - 1, lo), w)
        return sext(a, w)
    if op in ('lin', 'mul') and x.d > DEEP:
        return _mk('ext', w, (x,), (hi, lo))
    if op == 'lin':
        if lo == 0:
            c, cs = x.val
            return lin(w, c, [(k, ext(a, hi, 0)) for k, a in zip(cs, x.args)])
        # common power of two
        c, cs = x.val
        tz = (c & -c).bit_length() - 1 if c else 10 ** 6
        for k in cs:
            tz = min(tz, (k & -k).bit_length() - 1)
        s = min(tz, lo)
        if s > 0 and s < 10 ** 6:
            inner = lin(x.w - s, c >> s, [(k >> s, ext(a, x.w - s - 1, 0)) for k, a in zip(cs, x.args)])
            return ext(inner, hi - s, lo - s)
        if hi < x.w - 1:
            return ext(ext(x, hi, 0), hi, lo)
    if op == 'mul' and lo == 0:
        return mul(ext(x.args[0], hi, 0), ext(x.args[1], hi, 0))
    if op == 'mul' and hi < x.w - 1:
        return ext(mul(ext(x.args[0], hi, 0), ext(x.args[1], hi, 0)), hi, lo)
    return _mk('ext', w, (x,), (hi, lo))


class _Zero:
    w = 0


_Z = _Zero()


def zext(x, w):
    if w == x.w:
        return x
    return cat(C(0, w - x.w), x)


def sext(x, w):
    if w == x.w:
        return x
    if x.op == 'c':
        return C(_s(x.val, x.w), w)
    if x.w > 1 and sign_zero(x):
        return zext(x, w)
    if x.op == 'sext':
        return sext(x.args[0], w)
    return _mk('sext', w, (x,))


def trunc(x, w):
    return ext(x, w - 1, 0)


# ------------------------------------------------------------ shifts

def shl_c(a, k):
    if k == 0:
        return a
    if k >= a.w:
        return C(0, a.w)
    return cat(ext(a, a.w - k - 1, 0), C(0, k))


def lshr_c(a, k):
    if k == 0:
        return a
    if k >= a.w:
        return C(0, a.w)
    return cat(C(0, k), ext(a, a.w - 1, k))


def shl(a, b):
    if b.op == 'c':
        return shl_c(a, min(b.val, a.w))
    if a.op == 'c' and a.val == 0:
        return a
    return _mk('shl', a.w, (a, b))


def lshr(a, b):
    if b.op == 'c':
        return lshr_c(a, min(b.val, a.w))
    if a.op == 'c' and a.val == 0:
        return a
    return _mk('lshr', a.w, (a, b))


def ashr(a, b):
    if b.op == 'c':
        k = min(b.val, a.w - 1)
        if k == 0:
            return a
        return sext(ext(a, a.w - 1, k), a.w)
    if sign_zero(a):
        return lshr(a, b)
    return _mk('ashr', a.w, (a, b))


# ------------------------------------------------------------ bitwise

def _bounds(e):
    b = []
    pos = e.w
    for a in e.args:
        pos -= a.w
        b.append(pos)
    return b


def _runs(m, w):
    """maximal runs of equal bits [(hi,lo,bit)] msb first"""
    out = []
    i = w - 1
    while i >= 0:
        b = (m >> i) & 1
        j = i
        while j > 0 and ((m >> (j - 1)) & 1) == b:
            j -= 1
        out.append((i, j, b))
        i = j - 1
    return out


def _split(f, cuts, w, xs):
    cuts = sorted(set(cuts) | {0}, reverse=True)
    parts = []
    hi = w - 1
    for c in cuts:
        p = ext(xs[0], hi, c)
        for x in xs[1:]:
            p = f(p, ext(x, hi, c))
        parts.append(p)
        hi = c - 1
    return cat(*parts)


def xor(*xs):
    w = xs[0].w
    c = 0
    acc = {}
    cats = None
    for x in xs:
        assert x.w == w
        if x.op == 'c':
            c ^= x.val
        elif x.op == 'xor':
            c ^= x.val
            for a in x.args:
                if a in acc:
                    del acc[a]
                else:
                    acc[a] = 1
        else:
            if x in acc:
                del acc[x]
            else:
                acc[x] = 1
    if not acc:
        return C(c, w)
    args = list(acc)
    if w > 1 and len(args) + (1 if c else 0) > 1:
        cuts = set()
        for a in args:
            if a.op == 'cat':
                cuts.update(_bounds(a))
        if cuts:
            return _split(xor, cuts, w, args + ([C(c, w)] if c else []))
    if c == 0 and len(args) == 1:
        return args[0]
    if w == 1 and len(args) == 1 and c == 1:
        a = args[0]
        if a.op == 'ite':
            pass
    args.sort(key=lambda a: a.id)
    return _mk('xor', w, args, c)


def not_(a):
    return xor(a, C(mask(a.w), a.w))


def and_(*xs):
    w = xs[0].w
    c = mask(w)
    acc = {}
    for x in xs:
        assert x.w == w
        if x.op == 'c':
            c &= x.val
        elif x.op == 'and':
            if x.val is not None:
                c &= x.val
            for a in x.args:
                acc[a] = 1
        else:
            acc[x] = 1
    if c == 0:
        return C(0, w)
    if w == 1:
        if not acc:
            return T
        for a in acc:
            if a.op == 'xor' and len(a.args) == 1 and a.args[0] in acc:
                return F
        if len(acc) == 1:
            return next(iter(acc))
        return _mk('and', 1, sorted(acc, key=lambda a: a.id), None)
    if not acc:
        return C(c, w)
    args = list(acc)
    if c != mask(w) or len(args) > 1:
        cuts = set()
        for a in args:
            if a.op == 'cat':
                cuts.update(_bounds(a))
        if c != mask(w):
            runs = _runs(c, w)
            if cuts or len(runs) <= 4:
                cuts.update(r[1] for r in runs)
        if cuts - {0}:
            return _split(and_, cuts, w, args + ([C(c, w)] if c != mask(w) else []))
    if len(args) == 1 and c == mask(w):
        return args[0]
    for a in args:
        if a.op == 'xor' and len(a.args) == 1 and a.val == mask(w) and a.args[0] in acc:
            return C(0, w)
    args.sort(key=lambda a: a.id)
    return _mk('and', w, args, c if c != mask(w) else None)


def or_(*xs):
    w = xs[0].w
    c = 0
    acc = {}
    for x in xs:
        assert x.w == w
        if x.op == 'c':
            c |= x.val
        elif x.op == 'or':
            if x.val is not None:
                c |= x.val
            for a in x.args:
                acc[a] = 1
        else:
            acc[x] = 1
    if c == mask(w):
        return C(c, w)
    if w == 1:
        if not acc:
            return F
        for a in acc:
            if a.op == 'xor' and len(a.args) == 1 and a.args[0] in acc:
                return T
        if len(acc) == 1:
            return next(iter(acc))
        return _mk('or', 1, sorted(acc, key=lambda a: a.id), None)
    if not acc:
        return C(c, w)
    args = list(acc)
    if c or len(args) > 1:
        cuts = set()
        for a in args:
            if a.op == 'cat':
                cuts.update(_bounds(a))
        if c:
            runs = _runs(c, w)
            if cuts or len(runs) <= 4:
                cuts.update(r[1] for r in runs)
        if cuts - {0}:
            return _split(or_, cuts, w, args + ([C(c, w)] if c else []))
    if len(args) == 1 and c == 0:
        return args[0]
    args.sort(key=lambda a: a.id)
    return _mk('or', w, args, c if c else None)


# ------------------------------------------------------------ predicates

def eq(a, b):
    if a is b:
        return T
    assert a.w == b.w, (a, b)
    if a.op == 'c' and b.op == 'c':
        return F
    if a.w == 1:
        return not_(xor(a, b))
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c':
        if b.op == 'ite':
            x, y = b.args[1], b.args[2]
            if x.op == 'c' or y.op == 'c':
                if x.op == 'c' and y.op == 'c':
                    if x.val == a.val:
                        return b.args[0] if y.val != a.val else T
                    return not_(b.args[0]) if y.val == a.val else F
                return or_(and_(b.args[0], eq(a, x)), and_(not_(b.args[0]), eq(a, y)))
        if b.op == 'cat':
            r = T
            pos = b.w
            rest = []
            for p in b.args:
                pos -= p.w
                k = (a.val >> pos) & mask(p.w)
                if p.op == 'c':
                    if p.val != k:
                        return F
                else:
                    rest.append(eq(C(k, p.w), p))
            return and_(*rest) if rest else T
        if b.op == 'sext':
            k = ext(a, b.args[0].w - 1, 0)
            if sext(k, a.w) is a:
                return eq(k, b.args[0])
            return F
        if b.op == 'xor' and b.val:
            return eq(C(a.val ^ b.val, a.w), xor(b, C(b.val, b.w)))
        if b.op == 'or' and a.val == 0 and b.val is None:
            return and_(*[eq(C(0, a.w), x) for x in b.args])
        if b.op == 'lin':
            c, cs = b.val
            if c:
                return eq(C(a.val - c, a.w), addc(b, -c))
            if a.val == 0 and len(cs) == 2 and cs[0] == 1 and cs[1] == mask(a.w):
                return eq(b.args[0], b.args[1])
            if a.val == 0 and len(cs) == 2 and cs[1] == 1 and cs[0] == mask(a.w):
                return eq(b.args[0], b.args[1])
            if len(cs) == 1 and cs[0] & 1:
                inv = pow(cs[0], -1, 1 << a.w)
                if cs[0] != 1:
                    return eq(C(a.val * inv, a.w), b.args[0])
        return _mk('eq', 1, (a, b))
    if a.op == 'cat' and b.op == 'cat':
        ca, cb = set(_bounds(a)), set(_bounds(b))
        common = sorted(ca & cb, reverse=True)
        if len(common) > 1:
            hi = a.w - 1
            r = []
            for c in common:
                r.append(eq(ext(a, hi, c), ext(b, hi, c)))
                hi = c - 1
            return and_(*r)
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if d.op == 'c':
            return T if d.val == 0 else F
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.op == 'ite' and (a.args[1] is b or a.args[2] is b):
        if a.args[1] is b:
            return or_(a.args[0], eq(a.args[2], b))
        return or_(not_(a.args[0]), eq(a.args[1], b))
    if b.op == 'ite' and (b.args[1] is a or b.args[2] is a):
        return eq(b, a)
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def _umax(e):
    """cheap upper bound"""
    if e.op == 'c':
        return e.val
    if e.op == 'cat':
        m = 0
        for a in e.args:
            m = (m << a.w) | _umax(a)
        return m
    if e.op == 'and' and e.val is not None:
        return e.val
    if e.op == 'ite':
        return max(_umax(e.args[1]), _umax(e.args[2]))
    if e.op == 'urem' and e.args[1].op == 'c' and e.args[1].val:
        return e.args[1].val - 1
    return mask(e.w)


def ult(a, b):
    if a is b:
        return F
    assert a.w == b.w, (a, b)
    if a.op == 'c' and b.op == 'c':
        return T if a.val < b.val else F
    if a.w == 1:
        return and_(not_(a), b)
    if b.op == 'c':
        if b.val == 0:
            return F
        if _umax(a) < b.val:
            return T
        if b.val == 1:
            return eq(a, C(0, a.w))
    if a.op == 'c':
        if a.val == 0:
            return ne(b, C(0, b.w))
        if a.val >= _umax(b):
            return F
    # zero extended operands
    za = a.args[0].w if a.op == 'cat' and a.args[0].op == 'c' and a.args[0].val == 0 else 0
    zb = b.args[0].w if b.op == 'cat' and b.args[0].op == 'c' and b.args[0].val == 0 else 0
    if a.op == 'c':
        za = a.w - a.val.bit_length()
    if b.op == 'c':
        zb = b.w - b.val.bit_length()
    z = min(za, zb)
    if z > 0:
        return ult(ext(a, a.w - z - 1, 0), ext(b, b.w - z - 1, 0))
    if b.op == 'c' and a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if a.op == 'c' and b.op == 'ite' and (b.args[1].op == 'c' or b.args[2].op == 'c'):
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    return _mk('ult', 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return F
    if a.op == 'c' and b.op == 'c':
        return T if _s(a.val, a.w) < _s(b.val, b.w) else F
    if sign_zero(a) and sign_zero(b):
        return ult(a, b)
    if b.op == 'c' and b.val == 0:
        return ext(a, a.w - 1, a.w - 1)
    if a.op == 'c' and a.val == mask(a.w):
        return not_(ext(b, b.w - 1, b.w - 1))
    if (b.op == 'sext' or b.op == 'c') and a.op == 'sext':
        k = a.args[0].w
        bb = ext(b, k - 1, 0)
        if b.op == 'sext' and b.args[0].w == k or b.op == 'c' and sext(bb, b.w) is b:
            return slt(a.args[0], bb)
    if b.op == 'c' and a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c'):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    return _mk('slt', 1, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def ite(c, a, b):
    if c.op == 'c':
        return a if c.val else b
    if a is b:
        return a
    assert a.w == b.w
    if c.op == 'xor' and len(c.args) == 1:      # not c
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == 'c':
            return or_(c, b) if a.val else and_(not_(c), b)
        if b.op == 'c':
            return or_(not_(c), a) if b.val else and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == 'cat' and b.op in ('cat', 'c') or b.op == 'cat' and a.op in ('cat', 'c'):
        # keep zero extension outside
        za = a.w - _nzmask(a).bit_length()
        zb = b.w - _nzmask(b).bit_length()
        z = min(za, zb)
        if z > 0:
            n = a.w - z
            return cat(C(0, z), ite(c, ext(a, n - 1, 0), ext(b, n - 1, 0)))
    return _mk('ite', a.w, (c, a, b))


def implies(a, b):
    return or_(not_(a), b)


def conj(xs):
    xs = list(xs)
    return and_(T, *xs)


def disj(xs):
    xs = list(xs)
    return or_(F, *xs)


# ------------------------------------------------------------ tables

TABLES = {}


_TABN = {}


def tab(name, vals, w, idx):
    """constant table lookup, idx any width; out of range reads are 0"""
    if idx.op == 'c':
        return C(vals[idx.val], w) if idx.val < len(vals) else C(0, w)
    vals = tuple(vals)
    m = _umax(idx)
    if m + 1 < len(vals):
        vals = vals[:m + 1]
    name = _TABN.setdefault((vals, w), name if name not in TABLES or TABLES[name] == vals
                            else '%s~%d' % (name, len(_TABN)))
    TABLES[name] = vals
    nb = max(1, (len(vals) - 1).bit_length())
    if idx.w > nb:
        # callers guarantee the bound
        idx = ext(idx, nb - 1, 0)
    elif idx.w < nb:
        idx = zext(idx, nb)
    if idx.op == 'c':
        return C(vals[idx.val], w) if idx.val < len(vals) else C(0, w)
    return _mk('tab', w, (idx,), (name, len(vals)))


def bswap(a):
    n = a.w // 8
    return cat(*[ext(a, 8 * i + 7, 8 * i) for i in range(n)])


# ------------------------------------------------------------ traversal

def rebuild(e, args):
    op = e.op
    if op in ('c', 'v'):
        return e
    if op == 'lin':
        c, cs = e.val
        return lin(e.w, c, list(zip(cs, args)))
    if op == 'xor':
        return xor(*(list(args) + ([C(e.val, e.w)] if e.val else [])))
    if op == 'and':
        return and_(*(list(args) + ([C(e.val, e.w)] if e.val is not None else [])))
    if op == 'or':
        return or_(*(list(args) + ([C(e.val, e.w)] if e.val is not None else [])))
    if op == 'ext':
        return ext(args[0], *e.val)
    if op == 'cat':
        return cat(*args)
    if op == 'sext':
        return sext(args[0], e.w)
    if op == 'uf':
        return UF(e.val, e.w, tuple(args))
    if op == 'tab':
        return tab(e.val[0], TABLES[e.val[0]], e.w, args[0])
    return _F[op](*args)


_F = {'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl,
      'lshr': lshr, 'ashr': ashr, 'eq': eq, 'ult': ult, 'slt': slt, 'ite': ite}


def postorder(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        e, done = st.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        st.append((e, True))
        for a in e.args:
            if a.id not in seen:
                st.append((a, False))
    return out


def freevars(e):
    """frozenset of variables and uf names"""
    if e.fv is not None:
        return e.fv
    for x in postorder([e]):
        if x.fv is None:
            if x.op == 'v':
                x.fv = frozenset((x.val,))
            else:
                s = frozenset()
                for a in x.args:
                    s = s | a.fv if not a.fv <= s else s
                if x.op == 'uf':
                    s = s | {x.val}
                x.fv = s
    return e.fv


class Subst:
    """substitution of variables (dict E->E), memoised"""

    def __init__(self, m):
        self.m = dict(m)
        self.memo = dict(self.m)
        self.keys = frozenset(k.val for k in m if k.op in ('v', 'uf'))
        self.general = any(k.op not in ('v',) for k in m)

    def __call__(self, e):
        memo = self.memo
        r = memo.get(e)
        if r is not None:
            return r
        st = [e]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if not self.general and not (freevars(x) & self.keys):
                memo[x] = x
                st.pop()
                continue
            todo = [a for a in x.args if a not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            if not x.args:
                memo[x] = x
                continue
            na = [memo[a] for a in x.args]
            if all(p is q for p, q in zip(na, x.args)):
                memo[x] = x
            else:
                memo[x] = rebuild(x, na)
        return memo[e]


def subst(e, m):
    return Subst(m)(e)


def evaluate(roots, env, ufs=None):
    """concrete evaluation.  env: name->int; ufs: name->callable(*ints)"""
    val = {}
    for e in postorder(roots):
        op = e.op
        w = e.w
        m = mask(w)
        a = [val[x.id] for x in e.args]
        if op == 'c':
            r = e.val
        elif op == 'v':
            r = env[e.val] & m
        elif op == 'lin':
            c, cs = e.val
            r = c
            for k, x in zip(cs, a):
                r += k * x
            r &= m
        elif op == 'mul':
            r = (a[0] * a[1]) & m
        elif op == 'xor':
            r = e.val
            for x in a:
                r ^= x
        elif op == 'and':
            r = m if e.val is None else e.val
            for x in a:
                r &= x
        elif op == 'or':
            r = 0 if e.val is None else e.val
            for x in a:
                r |= x
        elif op == 'ext':
            r = (a[0] >> e.val[1]) & m
        elif op == 'cat':
            r = 0
            for x, y in zip(e.args, a):
                r = (r << x.w) | y
        elif op == 'sext':
            r = _s(a[0], e.args[0].w) & m
        elif op == 'ite':
            r = a[1] if a[0] else a[2]
        elif op == 'eq':
            r = int(a[0] == a[1])
        elif op == 'ult':
            r = int(a[0] < a[1])
        elif op == 'slt':
            k = e.args[0].w
            r = int(_s(a[0], k) < _s(a[1], k))
        elif op == 'udiv':
            r = a[0] // a[1] if a[1] else m
        elif op == 'urem':
            r = a[0] % a[1] if a[1] else a[0]
        elif op in ('sdiv', 'srem'):
            f = sdiv if op == 'sdiv' else srem
            r = f(C(a[0], w), C(a[1], w)).val if a[1] else 0
        elif op == 'shl':
            r = (a[0] << a[1]) & m if a[1] < w else 0
        elif op == 'lshr':
            r = a[0] >> a[1] if a[1] < w else 0
        elif op == 'ashr':
            r = (_s(a[0], w) >> min(a[1], w - 1)) & m
        elif op == 'tab':
            t = TABLES[e.val[0]]
            r = t[a[0]] if a[0] < len(t) else 0
        elif op == 'uf':
            r = ufs[e.val](*a) & m
        else:
            raise KeyError(op)
        val[e.id] = r
    return [val[r.id] for r in roots]


def size(e):
    return len(postorder([e]))
