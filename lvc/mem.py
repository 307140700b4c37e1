"""Symbolic memory: every C object is a separate array of bytes, described by
a chain of immutable layers plus a dictionary of writes at constant offsets."""
from . import expr as X
from .expr import C, T, F, E


class Unsupported(Exception):
    """the tool cannot interpret the construct (never a verdict)"""


class Obj:
    _n = 0

    def __init__(self, name, size, kind='obj', const=False):
        Obj._n += 1
        self.id = Obj._n
        self.name, self.kind, self.const = name, kind, const
        self.size = size if isinstance(size, E) else C(size, 64)
        self.fn = None

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=None):
        self.obj = obj
        self.off = C(0, 64) if off is None else (off if isinstance(off, E) else C(off, 64))

    def __add__(self, k):
        if isinstance(k, int):
            return Ptr(self.obj, X.addc(self.off, k))
        return Ptr(self.obj, X.add(self.off, k))

    def __repr__(self):
        return '&%s+%r' % (self.obj.name, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __add__(self, k):
        return PIte(self.c, self.a + k, self.b + k)

    def __repr__(self):
        return 'pite(%r,%r,%r)' % (self.c, self.a, self.b)


NULLOBJ = Obj('NULL', 0, 'null')
NULL = Ptr(NULLOBJ)


def is_ptr(v):
    return isinstance(v, (Ptr, PIte))


def pite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, X.ite(c, a.off, b.off))
    return PIte(c, a, b)


def vite(c, a, b):
    """ite on values of any kind; None = undefined"""
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if is_ptr(a) or is_ptr(b):
        if not (is_ptr(a) and is_ptr(b)):
            # null constants stored as integers
            if not is_ptr(a):
                a = as_ptr(a)
            if not is_ptr(b):
                b = as_ptr(b)
        return pite(c, a, b)
    return X.ite(c, a, b)


def as_ptr(v):
    if is_ptr(v):
        return v
    if v is not None and v.op == 'c' and v.val == 0:
        return NULL
    if v is not None and v.op == 'ite':
        return pite(v.args[0], as_ptr(v.args[1]), as_ptr(v.args[2]))
    raise Unsupported('integer used as pointer: %r' % (v,))


def ptr_eq(a, b):
    if isinstance(a, PIte):
        return X.ite(a.c, ptr_eq(a.a, b), ptr_eq(a.b, b))
    if isinstance(b, PIte):
        return ptr_eq(b, a)
    if a.obj is b.obj:
        return X.eq(a.off, b.off)
    return F


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and a.off is b.off
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False


def submap_val(v, s):
    """apply substitution s to a value"""
    if v is None:
        return None
    if isinstance(v, Ptr):
        return Ptr(v.obj, s(v.off))
    if isinstance(v, PIte):
        return pite(s(v.c), submap_val(v.a, s), submap_val(v.b, s))
    return s(v)


def bytes_of(v, n):
    if n == 1:
        return [v]
    if is_ptr(v):
        raise Unsupported('byte access to a stored pointer')
    return [X.ext(v, 8 * i + 7, 8 * i) for i in range(n)]


def multiple_of(e, n):
    """syntactic: e is a multiple of n (power of two)"""
    k = n.bit_length() - 1
    if n != 1 << k:
        return e.op == 'c' and e.val % n == 0
    if e.op == 'c':
        return e.val % n == 0
    if e.op == 'lin':
        c, cs = e.val
        return c % n == 0 and all(q % n == 0 or multiple_of(a, n) for q, a in zip(cs, e.args))
    if e.op == 'cat':
        lo = e.args[-1]
        return lo.op == 'c' and (lo.w >= k and lo.val % n == 0)
    if e.op == 'ite':
        return multiple_of(e.args[1], n) and multiple_of(e.args[2], n)
    return False


class Cells(dict):
    """constant offset -> (value, size); maxn bounds the cell sizes"""
    __slots__ = ('maxn',)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.maxn = getattr(a[0], 'maxn', 16) if a else 16

    def put(self, o, v, n):
        self[o] = (v, n)
        if n > self.maxn:
            self.maxn = n


# ------------------------------------------------------------------ layers

class Layer:
    def read(self, cx, off, n):
        """value of n bytes (little endian) at offset off (E64)"""
        if n == 1:
            return self.byte(cx, off)
        bs = [self.byte(cx, X.addc(off, i)) for i in range(n)]
        return X.cat(*bs[::-1])

    def byte(self, cx, off):
        raise NotImplementedError


class Zero(Layer):
    def read(self, cx, off, n):
        return C(0, 8 * n)

    def byte(self, cx, off):
        return C(0, 8)


class Sym(Layer):
    """unknown content: an uninterpreted function of the offset"""

    def __init__(self, name, gran=1, args=()):
        self.name, self.gran, self.args = name, gran, tuple(args)

    def read(self, cx, off, n):
        g = self.gran
        if g > 1:
            k = g.bit_length() - 1
            if n % g == 0 and multiple_of(off, g):
                vs = [X.UF(self.name, 8 * g, (X.lshr_c(X.addc(off, g * i), k),) + self.args)
                      for i in range(n // g)]
                return X.cat(*vs[::-1])
            if n < g and off.op == 'c' and off.val % g + n <= g:
                v = X.UF(self.name, 8 * g, (C(off.val >> k, 64),) + self.args)
                s = off.val % g
                return X.ext(v, 8 * (s + n) - 1, 8 * s)
        return Layer.read(self, cx, off, n)

    def byte(self, cx, off):
        g = self.gran
        if g == 1:
            return X.UF(self.name, 8, (off,) + self.args)
        k = g.bit_length() - 1
        v = X.UF(self.name, 8 * g, (X.lshr_c(off, k),) + self.args)
        low = X.ext(off, k - 1, 0)
        if low.op == 'c':
            return X.ext(v, 8 * low.val + 7, 8 * low.val)
        r = X.ext(v, 7, 0)
        for i in range(1, g):
            r = X.ite(X.eq(low, C(i, k)), X.ext(v, 8 * i + 7, 8 * i), r)
        return r


class Undef(Layer):
    def __init__(self, cx, obj):
        self.name = cx.fresh_name('undef:' + obj.name)

    def byte(self, cx, off):
        return X.UF(self.name, 8, (off,))


class Const(Layer):
    """initialised global"""

    def __init__(self, name, cells, size):
        self.name, self.cells, self.size = name, cells, size
        self.tabs = {}

    def read(self, cx, off, n):
        if off.op == 'c':
            v = self.cells.get(off.val)
            if v is not None and v[1] == n:
                return v[0]
            return X.cat(*[self.cbyte(off.val + i) for i in reversed(range(n))])
        if n & (n - 1) == 0 and multiple_of(off, n):
            return self.lookup(off, n)
        if n == 1:
            return self.lookup(off, 1)
        return Layer.read(self, cx, off, n)

    def lookup(self, off, n):
        k = n.bit_length() - 1
        cnt = self.size // n
        key = n
        t = self.tabs.get(key)
        if t is None:
            t = []
            for i in range(cnt):
                v = self.cells.get(i * n)
                if v is not None and v[1] == n:
                    v = v[0]
                    if is_ptr(v):
                        raise Unsupported('symbolic index into pointer table')
                else:
                    v = X.cat(*[self.cbyte(i * n + b) for b in reversed(range(n))])
                if v.op != 'c':
                    raise Unsupported('non constant global')
                t.append(v.val)
            t = self.tabs[key] = tuple(t)
        idx = X.lshr_c(off, k)
        return X.tab('%s/%d' % (self.name, n), t, 8 * n, idx)

    def byte(self, cx, off):
        if off.op == 'c':
            return self.cbyte(off.val)
        return self.lookup(off, 1)

    def cbyte(self, o):
        v = self.cells.get(o)
        if v is not None and v[1] == 1:
            return v[0]
        for b in (1, 2, 3, 4, 5, 6, 7, 0, 8, 9, 10, 11, 12, 13, 14, 15):
            v = self.cells.get(o - b)
            if v is not None and b < v[1]:
                if is_ptr(v[0]):
                    raise Unsupported('byte of pointer')
                return X.ext(v[0], 8 * b + 7, 8 * b)
        return C(0, 8)


class Frozen(Layer):
    """base layer plus constant-offset cells"""

    def __init__(self, base, cells):
        self.base, self.cells = base, cells
        self.maxn = max([n for _, n in cells.values()] or [1])
        self.keys = sorted(cells)
        self._runs = None

    def read(self, cx, off, n):
        if off.op == 'c':
            return read_cells(cx, self.base, self.cells, off.val, n)
        if n > 1:
            # try the aligned whole cell chain
            if all(m == n for _, m in self.cells.values()) and multiple_of(off, n) and \
                    all(o % n == 0 for o in self.keys):
                r = self.base.read(cx, off, n)
                for o in self.keys:
                    c = cx.decide(X.eq(off, C(o, 64)))
                    r = vite(c, self.cells[o][0], r)
                return r
            return Layer.read(self, cx, off, n)
        return self.byte(cx, off)

    def byte(self, cx, off):
        if off.op == 'c':
            return read_cells(cx, self.base, self.cells, off.val, 1)
        r = None
        todo = []
        for lo, hi in self.runs():
            c = cx.decide(X.ult(X.addc(off, -lo), C(hi - lo, 64)))
            if c is F:
                continue
            todo.append((lo, hi, c))
            if c is T:
                todo = [(lo, hi, c)]
                break
        if not todo or todo[-1][2] is not T:
            r = self.base.byte(cx, off)
        for lo, hi, c in todo:
            for o in self.keys:
                if o < lo or o >= hi:
                    continue
                v, m = self.cells[o]
                if is_ptr(v):
                    raise Unsupported('symbolic read over stored pointer')
                for i, b in enumerate(bytes_of(v, m)):
                    if r is None:
                        r = b
                    else:
                        r = X.ite(X.eq(off, C(o + i, 64)), b, r)
        return r

    def runs(self):
        if self._runs is None:
            out = []
            for o in self.keys:
                n = self.cells[o][1]
                if out and out[-1][1] == o:
                    out[-1][1] = o + n
                else:
                    out.append([o, o + n])
            self._runs = out
        return self._runs


def read_cells(cx, base, cells, o, n):
    v = cells.get(o)
    if v is not None and v[1] == n:
        return v[0]
    # exact cover by smaller cells or overlap
    out = []
    i = 0
    while i < n:
        v = cells.get(o + i)
        if v is not None and v[1] <= n - i:
            if is_ptr(v[0]):
                raise Unsupported('partial pointer read')
            out.append(v[0])
            i += v[1]
            continue
        # covered by the middle of a cell?
        hit = None
        for b in range(0, getattr(cells, 'maxn', 16)):
            v = cells.get(o + i - b)
            if v is not None:
                if b < v[1]:
                    hit = (v, b)
                break
        if hit:
            (val, m), b = hit
            k = min(m - b, n - i)
            if is_ptr(val):
                raise Unsupported('partial pointer read')
            out.append(X.ext(val, 8 * (b + k) - 1, 8 * b))
            i += k
            continue
        # run of uncovered bytes
        j = i + 1
        while j < n and not _covered(cells, o + j):
            j += 1
        out.append(base.read(cx, C(o + i, 64), j - i))
        i = j
    if len(out) == 1:
        return out[0]
    return X.cat(*out[::-1])


def _covered(cells, o):
    for b in range(0, getattr(cells, 'maxn', 16)):
        v = cells.get(o - b)
        if v is not None:
            return b < v[1]
    return False


class SymWrite(Layer):
    def __init__(self, prev, off, val, n):
        self.prev, self.off, self.val, self.n = prev, off, val, n

    def read(self, cx, off, n):
        d = X.sub(off, self.off)
        if d.op == 'c':
            k = X._s(d.val, 64)
            if k == 0 and n == self.n:
                return self.val
            if k >= self.n or k + n <= 0:
                return self.prev.read(cx, off, n)
            if n == 1:
                return bytes_of(self.val, self.n)[k]
            return Layer.read(self, cx, off, n)
        if n == self.n and (n == 1 or multiple_of(d, n)):
            c = cx.decide(X.eq(off, self.off))
            if c is T:
                return self.val
            p = self.prev.read(cx.assuming(X.not_(c)), off, n)
            return vite(c, self.val, p)
        if n > 1:
            # disjointness shortcut
            c = cx.decide(X.and_(X.ule(C(self.n, 64), d), X.ule(d, C(-n, 64))))
            if c is T:
                return self.prev.read(cx, off, n)
            return Layer.read(self, cx, off, n)
        return self.byte(cx, off)

    def byte(self, cx, off):
        d = X.sub(off, self.off)
        if d.op == 'c':
            if d.val < self.n:
                return bytes_of(self.val, self.n)[d.val]
            return self.prev.byte(cx, off)
        c = cx.decide(X.ult(d, C(self.n, 64)))
        if c is F:
            return self.prev.byte(cx, off)
        bs = bytes_of(self.val, self.n)
        r = bs[0]
        for i in range(1, self.n):
            r = X.ite(X.eq(d, C(i, 64)), bs[i], r)
        if c is T:
            return r
        return X.ite(c, r, self.prev.byte(cx.assuming(X.not_(c)), off))


class Range(Layer):
    """bytes [off, off+len) come from fn; the rest from prev"""

    def __init__(self, prev, off, ln):
        self.prev, self.off, self.len = prev, off, ln

    def inner(self, cx, d, n):
        raise NotImplementedError

    def read(self, cx, off, n):
        d = X.sub(off, self.off)
        if n == 1:
            c = cx.decide(X.ult(d, self.len))
            if c is T:
                return self.inner(cx, d, 1)
            if c is F:
                return self.prev.read(cx, off, 1)
            return X.ite(c, self.inner(cx.assuming(c), d, 1),
                         self.prev.read(cx.assuming(X.not_(c)), off, 1))
        full = X.and_(X.ult(d, self.len), X.ule(C(n, 64), X.sub(self.len, d)))
        c = cx.decide(full)
        if c is T:
            return self.inner(cx, d, n)
        # disjoint: d >= len and d <= -n
        c = cx.decide(X.and_(X.ule(self.len, d), X.ule(d, C(-n, 64))))
        if c is T:
            return self.prev.read(cx, off, n)
        return Layer.read(self, cx, off, n)

    def byte(self, cx, off):
        return self.read(cx, off, 1)


class RangeCopy(Range):
    def __init__(self, prev, off, ln, src, soff):
        Range.__init__(self, prev, off, ln)
        self.src, self.soff = src, soff

    def inner(self, cx, d, n):
        return self.src.read(cx, X.add(self.soff, d), n)


class RangeSet(Range):
    def __init__(self, prev, off, ln, val):
        Range.__init__(self, prev, off, ln)
        self.val = val

    def inner(self, cx, d, n):
        return X.cat(*([self.val] * n))


class RangeSym(Range):
    def __init__(self, prev, off, ln, name, args=()):
        Range.__init__(self, prev, off, ln)
        self.name, self.args = name, tuple(args)

    def inner(self, cx, d, n):
        bs = [X.UF(self.name, 8, (X.addc(d, i),) + self.args) for i in range(n)]
        return X.cat(*bs[::-1])


class RangeFn(Range):
    """content given by a python function d -> byte expression"""

    def __init__(self, prev, off, ln, fn):
        Range.__init__(self, prev, off, ln)
        self.fn = fn

    def inner(self, cx, d, n):
        return X.cat(*[self.fn(X.addc(d, i)) for i in reversed(range(n))])


class Merge(Layer):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, cx, off, n):
        c = cx.decide(self.c)
        if c is T:
            return self.a.read(cx, off, n)
        if c is F:
            return self.b.read(cx, off, n)
        return vite(c, self.a.read(cx.assuming(c), off, n),
                    self.b.read(cx.assuming(X.not_(c)), off, n))

    def byte(self, cx, off):
        return self.read(cx, off, 1)


class SubstLayer(Layer):
    """a layer with a substitution applied lazily: reading at offset o gives
    subst(inner.read(J))[J := o]"""

    def __init__(self, inner, mp, cxfix):
        self.inner, self.mp, self.cxfix = inner, mp, cxfix

    def read(self, cx, off, n):
        J = X.V('J!%d' % n, 64)
        v = self.inner.read(self.cxfix, J, n)
        m = dict(self.mp)
        m[J] = off
        return X.subst(v, m)

    def byte(self, cx, off):
        return self.read(cx, off, 1)


class Content:
    """mutable (copy on write) view of one object"""
    __slots__ = ('base', 'cells', 'owner')

    def __init__(self, base, cells=None, owner=None):
        self.base = base
        self.cells = Cells() if cells is None else cells
        self.owner = owner

    def clone(self, owner):
        return Content(self.base, Cells(self.cells), owner)

    def freeze(self):
        if not self.cells:
            return self.base
        return Frozen(self.base, Cells(self.cells))

    def read(self, cx, off, n):
        if off.op == 'c':
            return read_cells(cx, self.base, self.cells, off.val, n)
        if not self.cells:
            return self.base.read(cx, off, n)
        return Frozen(self.base, self.cells).read(cx, off, n)

    def write(self, cx, off, val, n):
        if off.op == 'c':
            self._write_c(off.val, val, n)
            return
        self.base = SymWrite(self.freeze(), off, val, n)
        self.cells = Cells()

    def _write_c(self, o, val, n):
        cells = self.cells
        cur = cells.get(o)
        if cur is not None and cur[1] == n:
            cells[o] = (val, n)
            return
        # split overlapping cells
        for b in range(1, cells.maxn):
            v = cells.get(o - b)
            if v is not None:
                if v[1] > b:
                    bs = self._bs(v)
                    del cells[o - b]
                    self._put_bytes(o - b, bs[:b])
                    if v[1] > b + n:
                        self._put_bytes(o + n, bs[b + n:])
                break
        i = 0
        while i < n:
            v = cells.get(o + i)
            if v is not None:
                if i + v[1] <= n:
                    del cells[o + i]
                    i += v[1]
                    continue
                bs = self._bs(v)
                del cells[o + i]
                self._put_bytes(o + n, bs[n - i:])
                break
            i += 1
        cells.put(o, val, n)

    def _bs(self, v):
        return bytes_of(v[0], v[1])

    def _put_bytes(self, o, bs):
        for i, b in enumerate(bs):
            self.cells[o + i] = (b, 1)


def merge_content(cx, c, a, b, owner):
    if a is b:
        return a
    if a.base is b.base:
        if a.cells == b.cells:
            return a
        cells = Cells()
        cells.maxn = max(a.cells.maxn, b.cells.maxn)
        res = Content(a.base, cells, owner)
        keys = set(a.cells) | set(b.cells)
        for o in sorted(keys):
            va = a.cells.get(o)
            vb = b.cells.get(o)
            if va is not None and vb is not None and va[1] == vb[1]:
                if same(va[0], vb[0]):
                    cells[o] = va
                else:
                    cells[o] = (vite(c, va[0], vb[0]), va[1])
                continue
            n = va[1] if va is not None else vb[1]
            # one side lacks the cell or has other granularity
            if va is not None and vb is None and not _overl(b.cells, o, n):
                other = a.base.read(cx, C(o, 64), n)
                cells[o] = (va[0] if same(va[0], other) else vite(c, va[0], other), n)
            elif vb is not None and va is None and not _overl(a.cells, o, n):
                other = a.base.read(cx, C(o, 64), n)
                cells[o] = (vb[0] if same(vb[0], other) else vite(c, other, vb[0]), n)
            else:
                for k in range(n):
                    if _covered(cells, o + k):
                        continue
                    x = a.read(cx, C(o + k, 64), 1)
                    y = b.read(cx, C(o + k, 64), 1)
                    cells[o + k] = (X.ite(c, x, y), 1)
                m = max(va[1] if va else 0, vb[1] if vb else 0)
                for k in range(n, m):
                    if _covered(cells, o + k):
                        continue
                    x = a.read(cx, C(o + k, 64), 1)
                    y = b.read(cx, C(o + k, 64), 1)
                    cells[o + k] = (X.ite(c, x, y), 1)
        return res
    return Content(Merge(c, a.freeze(), b.freeze()), Cells(), owner)


def _overl(cells, o, n):
    for k in range(n):
        if _covered(cells, o + k):
            return True
    return False
