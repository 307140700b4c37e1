"""Ghost event logs: calls through a contract are recorded with a snapshot of
the memory they see; a specification then speaks about the byte sequences."""
from .core import *         # noqa
from .lemmas import *       # noqa
from lvc.expr import *      # noqa
from lvc.exec import *      # noqa

K = lambda v: C(v, 64)


class Event:
    def __init__(self, kind, key, **kw):
        self.kind, self.key = kind, key
        self.__dict__.update(kw)


def where(p):
    """identity of an abstract object: its address"""
    p = as_ptr(p)
    if not isinstance(p, Ptr):
        raise Unsupported('object behind a conditional pointer')
    return (p.obj.id, p.off)


def log(st, ev):
    if st.loops:
        raise Unsupported('ghost event inside a loop')
    st.extra = (st.extra or ()) + (ev,)


class Chunk:
    """len bytes at a pointer as they were at the time of the call"""

    def __init__(self, st, p, n):
        self.st, self.p, self.n = st.fork(), p, n

    def at(self, st, k):
        """byte k, read under the knowledge of st (a later state)"""
        s = self.st.fork()
        s.pc = st.pc
        s.assume(ult(k, self.n))
        s.ex.quiet += 1
        try:
            return s.load(self.p + k if not isinstance(self.p, int) else self.p, 1)
        finally:
            s.ex.quiet -= 1


class Bytes:
    """specification side: fn(k) for k < n"""

    def __init__(self, n, fn):
        self.n, self.fn = n if isinstance(n, E) else K(n), fn

    def at(self, st, k):
        return self.fn(k)


def total(chunks):
    r = K(0)
    for c in chunks:
        r = add(r, c.n)
    return r


def byte_of(st, chunks, k):
    """byte k of a concatenation"""
    if not chunks:
        return C(0, 8)
    c = chunks[0]
    a = c.at(st, k)
    if len(chunks) == 1:
        return a
    return ite(ult(k, c.n), a, byte_of(st, chunks[1:], sub(k, c.n)))


def same_bytes(ex, st, got, want, what):
    """two concatenations are equal"""
    ex.require(st, eq(total(got), total(want)), what + ': length')
    k = V('k!' + what.replace(' ', '_'), 64)
    s = st.fork()
    s.assume(ult(k, total(want)))
    g = byte_of(s, got, k)
    w = byte_of(s, want, k)
    ex.require(s, eq(g, w), what + ': bytes')


def keep(c, s):
    """readable range of a chunk argument"""
    n = c


def reads(ex, st, p, n, what):
    """the callee may read n bytes at p"""
    s = st.fork()
    s.assume(ne(n, K(0)))
    if any(x is F for x in s.pc):
        return
    ex.bounds(s, as_ptr(p), n, what)


class Hash:
    """contracts of the generic hash interface; hs/bs: sizes as terms"""

    def __init__(self, U, ex, size, hs, bs, prefix='torsion_hash_'):
        self.U, self.ex, self.size, self.hs, self.bs = U, ex, size, hs, bs
        self.n = 0
        U.stub(ex, prefix + 'init', self.init, False)
        U.stub(ex, prefix + 'update', self.update, False)
        U.stub(ex, prefix + 'final', self.final, False)
        if ex.find_func(prefix + 'output_size'):
            U.stub(ex, prefix + 'output_size', lambda ex, st, a: hs, False)
            U.stub(ex, prefix + 'block_size', lambda ex, st, a: bs, False)

    def init(self, ex, st, a):
        ex.havoc(st, a[0], self.size, 'hash')
        log(st, Event('init', where(a[0]), type=a[1]))

    def update(self, ex, st, a):
        reads(ex, st, a[1], a[2], 'hashed data')
        log(st, Event('update', where(a[0]), chunk=Chunk(st, as_ptr(a[1]), a[2])))
        ex.havoc(st, a[0], self.size, 'hash')

    def final(self, ex, st, a):
        # `a[2]` bytes of digest; a later reader sees the digest symbol
        nm = 'digest%d' % sum(1 for e in st.extra or () if e.kind == 'final')
        ex.havoc(st, a[0], self.size, 'hash')
        put(ex, st, a[1], a[2], lambda k: UF(nm, 8, (k,)))
        log(st, Event('final', where(a[0]), n=a[2], name=nm))


def put(ex, st, p, n, fn):
    """n bytes at p become fn(k)"""
    p = as_ptr(p)
    n = n if isinstance(n, E) else K(n)
    s = st.fork()
    s.assume(ne(n, K(0)))
    ex.bounds(s, p, n, 'output')
    if ex.wlog is not None:
        ex.wlog.append((p.obj, p.off, n.val if n.op == 'c' else n))
    ct = st.wcontent(p.obj)
    ct.base = RangeFn(ct.freeze(), p.off, n, fn)
    ct.cells = Cells()


def sequence(events, upto):
    """events on the object of event `upto` since its last init"""
    key = events[upto].key
    out = []
    for e in events[:upto]:
        if e.key == key:
            if e.kind == 'init':
                out = [e]
            else:
                out.append(e)
    return out


def chunks_since(events, key):
    """(init event or None, chunks absorbed, events) of object key at the end"""
    out, ini = [], None
    for e in events:
        if e.key == key:
            if e.kind == 'init':
                out, ini = [], e
            elif e.kind == 'update':
                out.append(e.chunk)
            elif e.kind == 'final':
                out, ini = [], 'final'
    return ini, out
