"""Forward symbolic execution of LLVM IR with state merging, automatic loop
summarisation (closed forms / recurrences checked by induction) and contract
stubs.  Every memory access, shift and division generates an obligation."""
import heapq
import itertools
import time

from . import expr as X
from . import solve
from .expr import C, T, F, E, V
from .ir import Module
from .mem import *      # noqa
from . import mem as M


class NotSummarisable(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'where', 'detail', 'model', 'facts', 'goal')

    def __init__(self, name, status, backend, t, where='', detail='', model=None):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.where, self.detail, self.model = where, detail, model


_dec_cache = {}


class State:
    __slots__ = ('ex', 'mem', 'regs', 'pc', 'tok', 'loops', 'extra')

    def __init__(self, ex):
        self.ex = ex
        self.mem = {}
        self.regs = {}
        self.pc = ()
        self.tok = object()
        self.loops = ()
        self.extra = None

    def fork(self):
        s = State(self.ex)
        s.mem = dict(self.mem)
        s.regs = dict(self.regs)
        s.pc = self.pc
        s.loops = self.loops
        s.extra = self.extra
        self.tok = object()     # both sides must copy before writing
        return s

    # -- memory
    def content(self, obj):
        c = self.mem.get(obj.id)
        if c is None and obj.id in self.ex.globals_init:
            c = self.mem[obj.id] = Content(self.ex.globals_init[obj.id], Cells(), None)
        if c is None:
            raise Unsupported('no content for %r' % obj)
        return c

    def wcontent(self, obj):
        c = self.mem.get(obj.id)
        if c is None and obj.id in self.ex.globals_init:
            c = self.mem[obj.id] = Content(self.ex.globals_init[obj.id], Cells(), None)
        if c is None:
            raise Unsupported('no content for %r' % obj)
        if c.owner is not self.tok:
            c = c.clone(self.tok)
            self.mem[obj.id] = c
        return c

    # -- logic
    def facts(self):
        return list(self.pc) + self.ex.facts

    def assume(self, c):
        if c is T:
            return
        if c.op == 'and' and c.w == 1:
            for a in c.args:
                self.assume(a)
            return
        self.pc = self.pc + (c,)
        for v in self.ex.probes:
            d = excluded(c, v)
            if d is not None and d not in self.pc:
                self.pc = self.pc + (d,)

    def fresh_name(self, n):
        return self.ex.fresh_name(n)

    def assuming(self, c):
        return Assuming(self, c)

    def decide(self, c):
        """T/F when implied by the path condition, else c"""
        if c is T or c is F:
            return c
        return self.ex.decide(self.pc, c)

    def load(self, p, n):
        return self.ex.load(self, p, n)

    def store(self, p, v, n):
        self.ex.store(self, p, v, n)


_excl = {}


def excluded(c, v):
    """c speaks about one byte b only and is false for b = v: the fact b != v"""
    r = _excl.get((c, v), 0)
    if r != 0:
        return r
    r = None
    # topmost byte reads only: their indices are not looked into
    bs, seen, todo, ok = set(), set(), [c], True
    while todo and ok:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'uf':
            bs.add(x)
        elif x.op == 'v' or len(bs) > 1:
            ok = False
        else:
            todo.extend(x.args)
    if ok and len(bs) == 1:
        b = bs.pop()
        d = X.ne(b, C(v, b.w))
        if b.w == 8 and d is not c and X.Subst({b: C(v, 8)})(c) is F:
            r = d
    _excl[(c, v)] = r
    return r


class Assuming:
    def __init__(self, st, c):
        self.ex = st.ex
        self.pc = st.pc + (c,)

    def decide(self, c):
        if c is T or c is F:
            return c
        return self.ex.decide(self.pc, c)

    def assuming(self, c):
        return Assuming(self, c)

    def fresh_name(self, n):
        return self.ex.fresh_name(n)


class LoopInfo:
    pass


class Exec:
    def __init__(self, modules, stubs=None, mode='merge', unroll=(), maxunroll=300,
                 decide_ms=1500, prefer_unroll=8, check_nsw=False):
        self.modules = modules
        self.stubs = dict(stubs or {})
        self.mode = mode                # 'merge' | 'paths'
        self.facts = []
        self.obls = []
        self.names = {}
        self.gobjs = {}
        self.globals_init = {}
        self.wlog = None
        self.quiet = 0
        self.depth = 0
        self.maxunroll = maxunroll
        self.unroll = set(unroll)
        self.decide_ms = decide_ms
        self.prefer_unroll = prefer_unroll
        self.covered = set()
        self.where = []
        self.recs = {}
        self.arrays = {}        # (function, loop number) -> array invariants of the contract
        self.inv_hooks = []
        self.builtin = dict(BUILTINS)
        self.stub_hits = {}
        self.functions = {}
        self.loop_notes = []
        self.ndec = 0
        self.soft = []
        self.nopeel = False
        self.check_nsw = check_nsw
        self.no_sum = set()
        self.allow_fail = False
        self.aborts = []
        self.periods = ()
        self.probes = ()        # byte values of interest, see excluded()
        self.summaries = []

    # ------------------------------------------------------------ misc
    def fresh_name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return '%s!%d' % (n, k)

    def fresh(self, st, n, w):
        nm = self.fresh_name(n)
        if st.loops:
            return X.UF(nm, w, tuple(st.loops))
        return V(nm, w)

    def fresh_layer(self, st, n, gran=1):
        return Sym(self.fresh_name(n), gran, tuple(st.loops))

    def decide(self, pc, c):
        if c is T or c is F:
            return c
        nc = X.not_(c)
        pcs = set(pc)
        if c in pcs:
            return T
        if nc in pcs:
            return F
        key = (c.id, frozenset(p.id for p in pc), len(self.facts))
        r = _dec_cache.get(key)
        if r is not None:
            return r
        self.ndec += 1
        facts = list(pc) + self.facts
        v = c
        tr, fa = solve.POOL.seen(facts, c)
        if not fa and solve.prove(facts, c, self.decide_ms):
            v = T
        elif not tr and solve.prove(facts, nc, self.decide_ms):
            v = F
        _dec_cache[key] = v
        return v

    def require(self, st, goal, name, timeout=20000):
        """record a proof obligation"""
        if self.quiet:
            return True
        w = self.where[-1] if self.where else ''
        if goal.d > 8 and solve.rewrite(st.facts(), goal) is T:
            self.obls.append(Obligation(name, 'proved', 'rewriting', 0.0, w, '', None))
            return True
        r = solve.prove(st.facts() if goal is not T else (), goal, timeout)
        if r.status == 'refuted' and r.model is None:
            r2 = solve.prove(st.facts(), goal, timeout, want_model=True)
            r.model = r2.model
            if r2.status == 'proved':
                r = r2
        o = Obligation(name, r.status, r.backend, r.time, w, '', r.model)
        if r.status != 'proved':
            o.detail = 'goal: %s' % X.show(goal, 8)
            o.facts = st.facts()
            o.goal = goal
        self.obls.append(o)
        return r.status == 'proved'

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size, layer=None, kind='obj', const=False):
        o = Obj(name, size, kind, const)
        if layer is None:
            layer = Undef(self, o)
        st.mem[o.id] = Content(layer, Cells(), st.tok)
        return o

    def sym_obj(self, st, name, size, gran=1):
        return self.new_obj(st, name, size, Sym('m:' + name, gran))

    def find_func(self, name):
        for m in self.modules:
            f = m.funcs.get(name)
            if f is not None:
                return f
        return None

    def gptr(self, st, mod, name):
        key = (name if name in mod.funcs or name in mod.decls else id(mod), name)
        o = self.gobjs.get(key)
        if o is None:
            g = mod.globals.get(name)
            if g is None:
                o = Obj(name, 0, 'func')
                o.fn = name
                self.gobjs[key] = o
                return Ptr(o)
            if g.ty is None:
                # external variable: look for the definition elsewhere
                for m in self.modules:
                    if m is not mod and name in m.globals and m.globals[name].ty is not None:
                        return self.gptr(st, m, name)
                raise Unsupported('extern variable ' + name)
            size = mod.sizeof(g.ty)
            o = Obj(name, size, 'global', g.const)
            self.gobjs[key] = o
            cells = {}
            self.fill(st, mod, g.ty, g.init, 0, cells)
            self.globals_init[o.id] = Const(name, cells, size)
        if o.fn is None and o.id not in st.mem:
            st.mem[o.id] = Content(self.globals_init[o.id], Cells(), st.tok)
        return Ptr(o)

    def fill(self, st, mod, ty, c, off, cells):
        r = mod.resolve(ty)
        if c is None or c[0] in ('zero', 'undef'):
            sz = mod.sizeof(ty)
            if r.k == 'i':
                cells[off] = (C(0, 8 * sz), sz)
            elif r.k == 'ptr':
                cells[off] = (NULL, 8)
            return      # reads of missing cells give 0
        if c[0] == 'str':
            for i, b in enumerate(c[1]):
                cells[off + i] = (C(b, 8), 1)
            return
        if c[0] == 'agg':
            if r.k == 'arr':
                s = mod.sizeof(r.elt)
                for i, e in enumerate(c[1]):
                    self.fill(st, mod, r.elt, e, off + i * s, cells)
            else:
                offs = mod.offsets(r)
                for o, t, e in zip(offs, r.elts, c[1]):
                    self.fill(st, mod, t, e, off + o, cells)
            return
        n = mod.sizeof(ty)
        cells[off] = (self.constval(st, mod, ty, c), n)

    def constval(self, st, mod, ty, c):
        r = mod.resolve(ty) if ty is not None else None
        k = c[0]
        if k == 'c':
            return C(c[1], r.n)
        if k == 'null':
            return NULL
        if k == 'zero':
            return NULL if r.k == 'ptr' else C(0, r.n)
        if k == 'undef':
            if r.k == 'ptr':
                return None
            return self.fresh(st, 'undef', r.n)
        if k == 'g':
            return self.gptr(st, mod, c[1])
        if k == 'gep':
            base = self.constval(st, mod, None, c[2])
            return self.gep(st, mod, c[1], base, c[3], lambda t, v: self.constval(st, mod, t, v))
        raise Unsupported('constant %r' % (c,))

    def gep(self, st, mod, ty, base, idx, ev):
        off = C(0, 64)
        t = ty
        first = True
        for it, iv in idx:
            if first:
                s = mod.sizeof(t)
                v = ev(it, iv)
                off = X.lin(64, 0, [(1, off), (s, X.sext(v, 64))])
                first = False
                continue
            r = mod.resolve(t)
            if r.k == 'arr':
                s = mod.sizeof(r.elt)
                v = ev(it, iv)
                off = X.lin(64, 0, [(1, off), (s, X.sext(v, 64))])
                t = r.elt
            elif r.k == 'struct':
                i = iv[1]
                off = X.addc(off, mod.offsets(r)[i])
                t = r.elts[i]
            else:
                raise Unsupported('gep')
        if base is None:
            raise Unsupported('gep on undefined pointer')
        return as_ptr(base) + off

    # ------------------------------------------------------------ memory ops
    def bounds(self, st, p, n, what):
        """p: leaf Ptr; n: E64 or int number of bytes"""
        o = p.obj
        if o.kind in ('null', 'func'):
            self.require(st, F, '%s: invalid pointer' % what)
            return
        if isinstance(n, int):
            if p.off.op == 'c' and o.size.op == 'c' and p.off.val + n <= o.size.val:
                return
            n = C(n, 64)
        if o.size.op == 'c' and o.size.val == 1 << 62:
            return          # ghost object
        goal = X.and_(X.ule(n, o.size), X.ule(p.off, X.sub(o.size, n)))
        self.require(st, goal, '%s in bounds of %s' % (what, o.name))

    def load(self, st, p, n):
        if isinstance(p, PIte):
            c = st.decide(p.c)
            if c is T:
                return self.load(st, p.a, n)
            if c is F:
                return self.load(st, p.b, n)
            s1 = st.fork()
            s1.assume(c)
            a = self.load(s1, p.a, n)
            s2 = st.fork()
            s2.assume(X.not_(c))
            b = self.load(s2, p.b, n)
            return vite(c, a, b)
        p = as_ptr(p)
        self.bounds(st, p, n, 'load')
        if p.obj.kind in ('null', 'func'):
            return self.fresh(st, 'badload', 8 * n)
        return st.content(p.obj).read(st, p.off, n)

    def store(self, st, p, v, n):
        if isinstance(p, PIte):
            c = st.decide(p.c)
            if c is T:
                return self.store(st, p.a, v, n)
            if c is F:
                return self.store(st, p.b, v, n)
            s1 = st.fork()
            s1.assume(c)
            olda = self.load(s1, p.a, n)
            self.store(st, p.a, vite(c, v, olda), n)
            s2 = st.fork()
            s2.assume(X.not_(c))
            oldb = self.load(s2, p.b, n)
            self.store(st, p.b, vite(c, oldb, v), n)
            return
        p = as_ptr(p)
        self.bounds(st, p, n, 'store')
        if p.obj.kind in ('null', 'func'):
            return
        if p.obj.const:
            self.require(st, F, 'store to constant object %s' % p.obj.name)
            return
        if self.wlog is not None:
            self.wlog.append((p.obj, p.off, n))
        if v is None:
            v = self.fresh(st, 'undef', 8 * n)
        st.wcontent(p.obj).write(st, p.off, v, n)

    def copy(self, st, d, s, n):
        """memcpy/memmove with byte count n (E64)"""
        n = st.decide_len(n) if hasattr(st, 'decide_len') else n
        if isinstance(d, PIte):
            c = st.decide(d.c)
            if c is T:
                return self.copy(st, d.a, s, n)
            if c is F:
                return self.copy(st, d.b, s, n)
            if n.op == 'c':
                vals = self.rd_chunks(st, s, n.val)
                o = 0
                for v, k in vals:
                    self.store(st, d + o, v, k)
                    o += k
                return
            raise Unsupported('memcpy through merged pointer')
        d = as_ptr(d)
        if n.op == 'c':
            if n.val == 0:
                return
            if n.val <= 4096:
                vals = self.rd_chunks(st, s, n.val)
                self.bounds(st, d, n.val, 'memcpy destination')
                if d.obj.kind in ('null', 'func'):
                    return
                o = 0
                if d.off.op == 'c' or (len(vals) == 1 and vals[0][1] <= 16):
                    for v, k in vals:
                        if self.wlog is not None:
                            self.wlog.append((d.obj, X.addc(d.off, o), k))
                        st.wcontent(d.obj).write(st, X.addc(d.off, o), v, k)
                        o += k
                    return
        if isinstance(s, PIte):
            c = st.decide(s.c)
            if c is T:
                return self.copy(st, d, s.a, n)
            if c is F:
                return self.copy(st, d, s.b, n)
            s1, s2 = st.fork(), st.fork()
            s1.assume(c)
            s2.assume(X.not_(c))
            self.copy(s1, d, s.a, n)
            self.copy(s2, d, s.b, n)
            st.tok = object()
            st.mem[d.obj.id] = merge_content(st, c, s1.content(d.obj), s2.content(d.obj), st.tok)
            return
        s = as_ptr(s)
        stz = st
        if n.op != 'c':
            stz = st.fork()
            stz.assume(X.ne(n, C(0, 64)))
        self.bounds(stz, s, n, 'memcpy source')
        self.bounds(stz, d, n, 'memcpy destination')
        if d.obj.kind in ('null', 'func') or s.obj.kind in ('null', 'func'):
            return
        if d.obj.const:
            self.require(stz, F, 'memcpy to constant object')
            return
        if self.wlog is not None:
            self.wlog.append((d.obj, d.off, n))
        src = st.content(s.obj).freeze()
        cont = st.wcontent(d.obj)
        cont.base = RangeCopy(cont.freeze(), d.off, n, src, s.off)
        cont.cells = Cells()

    def rd_chunks(self, st, s, n):
        """list of (value, size) covering n bytes at s"""
        if isinstance(s, PIte):
            c = st.decide(s.c)
            if c is T:
                return self.rd_chunks(st, s.a, n)
            if c is F:
                return self.rd_chunks(st, s.b, n)
            s1, s2 = st.fork(), st.fork()
            s1.assume(c)
            s2.assume(X.not_(c))
            A = self.rd_chunks(s1, s.a, n)
            B = self.rd_chunks(s2, s.b, n)
            if [k for _, k in A] == [k for _, k in B]:
                return [(vite(c, x, y), k) for (x, k), (y, _) in zip(A, B)]
            fa = [b for v, k in A for b in bytes_of(v, k)]
            fb = [b for v, k in B for b in bytes_of(v, k)]
            return [(X.ite(c, x, y), 1) for x, y in zip(fa, fb)]
        s = as_ptr(s)
        self.bounds(st, s, n, 'memcpy source')
        if s.obj.kind in ('null', 'func'):
            return [(self.fresh(st, 'badload', 8 * n), n)]
        ct = st.content(s.obj)
        out = []
        if s.off.op == 'c':
            i = 0
            o = s.off.val
            base = ct.base
            bc = base.cells if isinstance(base, (Const, Frozen)) else {}
            while i < n:
                v = ct.cells.get(o + i)
                if v is None and not M._covered(ct.cells, o + i):
                    v = bc.get(o + i)
                    if v is not None and any(M._covered(ct.cells, o + i + q) for q in range(v[1])):
                        v = None
                if v is not None and v[1] <= n - i:
                    out.append((v[0], v[1]))
                    i += v[1]
                    continue
                # uncovered: use gran of symbolic base if aligned
                g = base.gran if isinstance(base, Sym) else 1
                if g > 1 and (o + i) % g == 0 and n - i >= g and \
                        not any(M._covered(ct.cells, o + i + q) for q in range(g)):
                    out.append((ct.read(st, C(o + i, 64), g), g))
                    i += g
                    continue
                out.append((ct.read(st, C(o + i, 64), 1), 1))
                i += 1
            return out
        base = ct.base
        g = base.gran if isinstance(base, Sym) and not ct.cells else 1
        if g > 1 and n % g == 0 and multiple_of(s.off, g):
            return [(ct.read(st, X.addc(s.off, i), g), g) for i in range(0, n, g)]
        if n in (2, 4, 8, 16):
            return [(ct.read(st, s.off, n), n)]
        return [(ct.read(st, X.addc(s.off, i), 1), 1) for i in range(n)]

    def fill_mem(self, st, d, val, n):
        if isinstance(d, PIte):
            c = st.decide(d.c)
            if c is T:
                return self.fill_mem(st, d.a, val, n)
            if c is F:
                return self.fill_mem(st, d.b, val, n)
            if n.op == 'c':
                for i in range(n.val):
                    self.store(st, d + i, val, 1)
                return
            raise Unsupported('memset through merged pointer')
        d = as_ptr(d)
        if n.op == 'c' and n.val == 0:
            return
        if n.op == 'c' and n.val <= 4096 and d.off.op == 'c':
            self.bounds(st, d, n.val, 'memset')
            if d.obj.kind in ('null', 'func'):
                return
            if self.wlog is not None:
                self.wlog.append((d.obj, d.off, n.val))
            ct = st.wcontent(d.obj)
            if d.off.val == 0 and d.obj.size is n and val.op == 'c' and val.val == 0 and self.wlog is None:
                ct.base = Zero()
                ct.cells = Cells()
                return
            i = 0
            while i < n.val:
                k = 8 if n.val - i >= 8 and (d.off.val + i) % 8 == 0 else 1
                ct.write(st, C(d.off.val + i, 64), X.cat(*([val] * k)), k)
                i += k
            return
        stz = st
        if n.op != 'c':
            stz = st.fork()
            stz.assume(X.ne(n, C(0, 64)))
        self.bounds(stz, d, n, 'memset')
        if d.obj.kind in ('null', 'func'):
            return
        if self.wlog is not None:
            self.wlog.append((d.obj, d.off, n))
        ct = st.wcontent(d.obj)
        ct.base = RangeSet(ct.freeze(), d.off, n, val)
        ct.cells = Cells()

    def havoc(self, st, p, n, name):
        """forget n bytes at p"""
        p = as_ptr(p)
        if isinstance(n, int):
            n = C(n, 64)
        stz = st
        if n.op != 'c':
            stz = st.fork()
            stz.assume(X.ne(n, C(0, 64)))
        self.bounds(stz, p, n, 'modified region')
        if self.wlog is not None:
            self.wlog.append((p.obj, p.off, n.val if n.op == 'c' else n))
        ct = st.wcontent(p.obj)
        nm = self.fresh_name('hv:' + name)
        ct.base = RangeSym(ct.freeze(), p.off, n, nm, tuple(st.loops))
        ct.cells = Cells()

    # ------------------------------------------------------------ calls
    def call(self, st, name, args):
        """run a named function; returns list of (state, retval)"""
        f = self.find_func(name)
        if f is None:
            raise Unsupported('function %s not found' % name)
        return self.run_function(f, args, st)

    def dispatch(self, st, mod, callee, args, ins):
        """returns list of (state, ret)"""
        if isinstance(callee, PIte):
            c = st.decide(callee.c)
            if c is T:
                return self.dispatch(st, mod, callee.a, args, ins)
            if c is F:
                return self.dispatch(st, mod, callee.b, args, ins)
            s2 = st.fork()
            st.assume(c)
            s2.assume(X.not_(c))
            return self.dispatch(st, mod, callee.a, args, ins) + \
                self.dispatch(s2, mod, callee.b, args, ins)
        if callee.obj.kind == 'null':
            self.require(st, F, 'call through null pointer')
            return []
        name = callee.obj.fn
        if name is None:
            raise Unsupported('call to data')
        stub = self.stubs.get(name)
        if stub is not None:
            self.stub_hits[name] = self.stub_hits.get(name, 0) + 1
            r = stub(self, st, args)
            if isinstance(r, list):
                return r
            return [(st, r)]
        if name in mod.funcs:
            return self.run_function(mod.funcs[name], args, st)
        f = self.find_func(name)
        if f is not None:
            return self.run_function(f, args, st)
        key = name
        if name.startswith('llvm.'):
            key = '.'.join(name.split('.')[:2])
        bi = self.builtin.get(key)
        if bi is not None:
            r = bi(self, st, args, name)
            if isinstance(r, list):
                return r
            return [(st, r)]
        raise Unsupported('call to unknown function ' + name)

    def run_function(self, f, args, st):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        self.functions[f.name] = self.functions.get(f.name, 0) + 1
        saved = st.regs
        st.regs = {}
        for (pn, pt), a in zip(f.params, args):
            st.regs[pn] = a
        self.where.append(f.name)
        before = None
        allocs = []
        try:
            exits, latches, rets = self.run_cfg(f, [(None, st)], f.order[0].name, None, allocs)
        finally:
            self.where.pop()
            self.depth -= 1
        assert not exits and not latches
        out = []
        for s, v in rets:
            s.regs = dict(saved) if len(rets) > 1 else saved
            for o in allocs:
                s.mem.pop(o.id, None)
            out.append((s, v))
        if len(out) > 1 and (self.mode == 'merge' or self.wlog is not None):
            s, v = out[0]
            for s2, v2 in out[1:]:
                s, v = self.merge_ret(s, v, s2, v2)
            out = [(s, v)]
        return out

    def merge_ret(self, a, va, b, vb):
        a.regs = dict(a.regs)
        a.regs['!ret'] = va
        b.regs = dict(b.regs)
        b.regs['!ret'] = vb
        m = self.merge(a, b, ['!ret'])
        v = m.regs.pop('!ret')
        return m, v

    # ------------------------------------------------------------ merging
    def merge(self, a, b, phis=()):
        k = 0
        pa, pb = a.pc, b.pc
        while k < len(pa) and k < len(pb) and pa[k] is pb[k]:
            k += 1
        ra, rb = pa[k:], pb[k:]
        ca, cb = X.conj(ra), X.conj(rb)
        if not ra and not rb:
            raise Unsupported('merge of indistinguishable states')
        if ra and rb and ra[0] is X.not_(rb[0]):
            sel = ra[0]
        elif len(ra) <= len(rb) and ra:
            sel = ca
        elif rb:
            sel = X.not_(cb)
        else:
            sel = ca
        if a.extra != b.extra:
            raise Unsupported('different ghost events on merged paths')
        s = State(self)
        s.loops = a.loops
        s.extra = a.extra
        s.pc = pa[:k]
        d = X.or_(ca, cb)
        if d is not T:
            # (c and x) or (not c and y)
            s.pc = s.pc + (d,)
        ar, br = a.regs, b.regs
        if len(ar) > len(br):
            regs = {r: v for r, v in br.items() if r in ar and same(ar[r], v)}
        else:
            regs = {r: v for r, v in ar.items() if r in br and same(br[r], v)}
        for p in phis:
            if p in ar and p in br:
                regs[p] = vite(sel, ar[p], br[p])
        s.regs = regs
        am, bm = a.mem, b.mem
        cx = s
        for o, x in am.items():
            y = bm.get(o)
            if y is None:
                continue
            if x is y:
                s.mem[o] = x
            else:
                s.mem[o] = merge_content(cx, sel, x, y, s.tok)
        for o, y in bm.items():
            if o not in am:
                s.mem[o] = y
        for o, x in am.items():
            if o not in bm:
                s.mem[o] = x
        return s

    # ------------------------------------------------------------ CFG walk
    def run_cfg(self, f, entry, start, within, allocs):
        """entry: list of (predname, state) at block `start`.  Returns
        (exits [(target, pred, state)], latches [(pred, state)], rets)."""
        ana = f.analyse()
        rpo = ana.rpo
        pend = {}
        heap = []

        def push(tgt, pred, st):
            if tgt not in pend:
                pend[tgt] = []
                heapq.heappush(heap, (rpo[tgt], tgt))
            pend[tgt].append((pred, st))

        for pred, st in entry:
            push(start, pred, st)
        exits, latches, rets = [], [], []
        header = start if within is not None else None
        first = True
        while heap:
            _, bn = heapq.heappop(heap)
            inc = pend.pop(bn)
            blk = f.blocks[bn]
            if first and header is not None:
                states = [s for _, s in inc]
            else:
                states = self.join(f, blk, inc)
            is_header = bn in ana.loops and bn != header
            nxt = []
            for st in states:
                if is_header:
                    ex, re = self.run_loop(f, bn, st, allocs)
                    rets.extend(re)
                    nxt.extend(ex)
                else:
                    nxt.extend(self.run_block(f, blk, st, rets, allocs))
            first = False
            for tgt, pred, st in nxt:
                if within is not None:
                    if tgt == header:
                        latches.append((pred, st))
                        continue
                    if tgt not in within:
                        exits.append((tgt, pred, st))
                        continue
                push(tgt, pred, st)
        return exits, latches, rets

    def set_phis(self, f, blk, pred, st):
        if blk.phis:
            vals = []
            for p in blk.phis:
                v = p.x.get(pred)
                if v is None:
                    raise Unsupported('phi')
                vals.append((p.res, self.val(st, f.mod, p.ty, v)))
            for r, v in vals:
                st.regs[r] = v

    def join(self, f, blk, inc):
        for pred, st in inc:
            if pred is not None:
                self.set_phis(f, blk, pred, st)
        sts = [s for _, s in inc]
        if len(sts) == 1:
            return sts
        if self.mode == 'merge' or self.wlog is not None:
            names = [p.res for p in blk.phis]
            s = sts[0]
            for t in sts[1:]:
                s = self.merge(s, t, names)
            return [s]
        return sts

    def val(self, st, mod, ty, v):
        k = v[0]
        if k == 'r':
            try:
                return st.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register ' + v[1])
        if k == 'c':
            return C(v[1], ty.n)
        if k == 'null':
            return NULL
        return self.constval(st, mod, ty, v)

    def run_block(self, f, blk, st, rets, allocs):
        """execute instructions; returns list of (target, pred, state)"""
        mod = f.mod
        work = [(st, 0)]
        out = []
        bn = blk.name
        self.covered.add((f.name, bn))
        while work:
            st, i = work.pop()
            ins_list = blk.ins
            while True:
                ins = ins_list[i]
                op = ins.op
                regs = st.regs
                if op == 'call':
                    self.where[-1] = '%s:%d' % (f.name, ins.line)
                    callee = ins.x
                    cp = self.val(st, mod, None, callee)
                    args = [self.val(st, mod, t, v) for t, v in ins.a]
                    res = self.dispatch(st, mod, cp, args, ins)
                    if not res:
                        break
                    if len(res) > 1:
                        if self.mode == 'merge' or self.wlog is not None:
                            s, v = res[0]
                            for s2, v2 in res[1:]:
                                s, v = self.merge_ret(s, v, s2, v2)
                            res = [(s, v)]
                        else:
                            for s, v in res[1:]:
                                if ins.res is not None:
                                    s.regs[ins.res] = v
                                work.append((s, i + 1))
                    st, v = res[0]
                    if ins.res is not None:
                        st.regs[ins.res] = v
                    i += 1
                    continue
                if op == 'br':
                    out.append((ins.x[0], bn, st))
                    break
                if op == 'condbr':
                    c = self.val(st, mod, _I1, ins.a[0])
                    a, b = ins.x
                    if c is not T and c is not F:
                        self.soft.append((f.name, bn, a, b))    # decided by the solver
                    c = st.decide(c)
                    if c is T or a == b:
                        out.append((a, bn, st))
                    elif c is F:
                        out.append((b, bn, st))
                    else:
                        s2 = st.fork()
                        st.assume(c)
                        s2.assume(X.not_(c))
                        out.append((a, bn, st))
                        out.append((b, bn, s2))
                    break
                if op == 'switch':
                    v = self.val(st, mod, ins.ty, ins.a[0])
                    d, cases = ins.x
                    cur = st
                    done = False
                    byt = {}
                    order = []
                    for k, lab in cases:
                        if lab not in byt:
                            byt[lab] = []
                            order.append(lab)
                        byt[lab].append(k)
                    for lab in order:
                        c = X.disj([X.eq(v, C(k, ins.ty.n)) for k in byt[lab]])
                        c = cur.decide(c)
                        if c is F:
                            continue
                        if c is T:
                            out.append((lab, bn, cur))
                            done = True
                            break
                        s2 = cur.fork()
                        s2.assume(c)
                        out.append((lab, bn, s2))
                        cur.assume(X.not_(c))
                    if not done:
                        # merge with an existing edge to the default label
                        out.append((d, bn, cur))
                    break
                if op == 'ret':
                    v = self.val(st, mod, ins.ty, ins.a[0]) if ins.a else None
                    rets.append((st, v))
                    break
                if op == 'unreachable':
                    break
                self.step(f, mod, st, ins, allocs)
                i += 1
        return out

    def step(self, f, mod, st, ins, allocs):
        op = ins.op
        regs = st.regs
        if op == 'gep':
            base = self.val(st, mod, None, ins.a[0])
            regs[ins.res] = self.gep(st, mod, ins.ty, base, ins.x,
                                     lambda t, v: self.val(st, mod, t, v))
            return
        if op == 'load':
            self.where[-1] = '%s:%d' % (f.name, ins.line)
            n = mod.sizeof(ins.ty)
            p = self.val(st, mod, None, ins.a[0])
            v = self.load(st, p, n)
            r = mod.resolve(ins.ty)
            if r.k == 'ptr':
                v = as_ptr(v) if v is not None else None
            elif is_ptr(v):
                raise Unsupported('pointer loaded as integer')
            elif r.n < 8 * n:
                v = X.trunc(v, r.n)
            regs[ins.res] = v
            return
        if op == 'store':
            self.where[-1] = '%s:%d' % (f.name, ins.line)
            n = mod.sizeof(ins.ty)
            r = mod.resolve(ins.ty)
            if r.k in ('struct', 'arr'):
                raise Unsupported('aggregate store')
            v = self.val(st, mod, ins.ty, ins.a[0])
            if r.k == 'i' and v is not None and r.n < 8 * n:
                v = X.zext(v, 8 * n)
            p = self.val(st, mod, None, ins.a[1])
            self.store(st, p, v, n)
            return
        if op in _BIN:
            a = self.val(st, mod, ins.ty, ins.a[0])
            b = self.val(st, mod, ins.ty, ins.a[1])
            if op in ('shl', 'lshr', 'ashr') and b.op != 'c':
                self.where[-1] = '%s:%d' % (f.name, ins.line)
                self.require(st, X.ult(b, C(a.w, b.w)), 'shift amount below %d' % a.w)
            elif op in ('udiv', 'sdiv', 'urem', 'srem') and (b.op != 'c' or b.val == 0):
                self.where[-1] = '%s:%d' % (f.name, ins.line)
                self.require(st, X.ne(b, C(0, b.w)), 'divisor non-zero')
            regs[ins.res] = _BIN[op](a, b)
            return
        if op == 'icmp':
            a = self.val(st, mod, ins.ty, ins.a[0])
            b = self.val(st, mod, ins.ty, ins.a[1])
            regs[ins.res] = self.icmp(st, ins.x, a, b)
            return
        if op in ('zext', 'sext', 'trunc'):
            a = self.val(st, mod, ins.x, ins.a[0])
            regs[ins.res] = {'zext': X.zext, 'sext': X.sext, 'trunc': X.trunc}[op](a, ins.ty.n)
            return
        if op == 'alloca':
            if ins.x is not None and ins.x != ('c', 1):
                cnt = self.val(st, mod, None, ins.x) if ins.x[0] == 'r' else C(ins.x[1], 64)
                sz = X.mul(C(mod.sizeof(ins.ty), 64), X.zext(cnt, 64))
            else:
                sz = mod.sizeof(ins.ty)
            o = self.new_obj(st, '%s.%s' % (f.name, ins.res[1:]), sz, None, 'stack')
            allocs.append(o)
            regs[ins.res] = Ptr(o)
            return
        if op == 'select':
            c = self.val(st, mod, _I1, ins.a[0])
            a = self.val(st, mod, ins.ty, ins.a[1])
            b = self.val(st, mod, ins.ty, ins.a[2])
            regs[ins.res] = vite(c, a, b)
            return
        if op == 'freeze':
            regs[ins.res] = self.val(st, mod, ins.ty, ins.a[0])
            return
        if op == 'ptrtoint':
            p = self.val(st, mod, None, ins.a[0])
            p = as_ptr(p)
            if isinstance(p, Ptr) and p.obj.kind == 'null':
                regs[ins.res] = X.trunc(p.off, ins.ty.n)
                return
            if isinstance(p, Ptr):
                regs[ins.res] = X.add(V('addr:%s#%d' % (p.obj.name, p.obj.id), 64), p.off)
                return
            raise Unsupported('ptrtoint')
        raise Unsupported('instruction %s %s' % (op, ins.x))

    def icmp(self, st, pred, a, b):
        if is_ptr(a) or is_ptr(b):
            a, b = as_ptr(a), as_ptr(b)
            if pred == 'eq':
                return ptr_eq(a, b)
            if pred == 'ne':
                return X.not_(ptr_eq(a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off
            else:
                raise Unsupported('ordering of unrelated pointers')
        return _CMP[pred](a, b)

    # ------------------------------------------------------------ loops
    def run_loop(self, f, header, st, allocs):
        """returns (exits, rets)"""
        ana = f.analyse()
        body = ana.loops[header]
        key = (f.name, ana.loopno[header])
        exits, rets = [], []
        cur = st
        it = 0
        tried = False
        st0 = st.fork()
        soft = False
        while True:
            snap = cur.fork()
            s0 = len(self.soft)
            n_obl = len(self.obls)
            ex, la, re = self.run_cfg(f, [(None, cur)], header, body, allocs)
            soft = soft or any(x == f.name and b in body and (c not in body or d not in body) for x, b, c, d in self.soft[s0:])
            del self.soft[s0:]
            la = self.join_latch(f, header, la)
            la = [s for s in la if not self.dead(s)]
            if not la:
                exits.extend(ex)
                rets.extend(re)
                break
            if ex or re or (key in self.arrays and not tried) or (it == 2 and soft and not exits and not rets):
                if not (ex or re) or (self.nopeel and soft and not exits and not rets):
                    snap = st0      # symbolic number of iterations
                if not tried and key not in self.no_sum and f.name not in self.unroll:
                    tried = True
                    obl_save = self.obls[n_obl:]
                    del self.obls[n_obl:]
                    done = False
                    why = []
                    for per in (1,) + tuple(self.periods):
                        try:
                            e2, r2 = Summary(self, f, header, body, snap.fork(), allocs, per).run()
                            exits.extend(e2)
                            rets.extend(r2)
                            done = True
                            break
                        except NotSummarisable as e:
                            why.append(str(e))
                    if done:
                        break
                    self.obls.extend(obl_save)
                    self.loop_notes.append('%s loop %d: unrolled (%s)' % (f.name, key[1], '; '.join(why)))
                exits.extend(ex)
                rets.extend(re)
            if len(la) > 1:
                # separate paths: continue each on its own
                for s in la:
                    e2, r2 = self.run_loop(f, header, s, allocs)
                    exits.extend(e2)
                    rets.extend(r2)
                break
            cur = la[0]
            it += 1
            if it > self.maxunroll:
                raise Unsupported('loop bound exceeded in %s loop %d; %s' % (key + (self.loop_notes[-3:],)))
        if len(exits) > 1 and self.mode == 'merge':
            pass        # joined at their targets
        return exits, rets

    def dead(self, st):
        """path condition syntactically false"""
        for c in st.pc:
            if c is F:
                return True
        return False

    def join_latch(self, f, header, la):
        blk = f.blocks[header]
        for pred, s in la:
            self.set_phis(f, blk, pred, s)
        sts = [s for _, s in la]
        if len(sts) > 1 and (self.mode == 'merge' or self.wlog is not None):
            names = [p.res for p in blk.phis]
            s = sts[0]
            for t in sts[1:]:
                s = self.merge(s, t, names)
            return [s]
        return sts


class Group:
    """a family of writes: iteration s writes bytes
    [o0 + stride*s, o0 + stride*s + win) of obj"""

    def __init__(self, obj, o0, stride, win):
        self.obj, self.o0, self.stride, self.win = obj, o0, stride, win
        self.latch = None       # Content at the end of iteration t
        self.rec = False
        self.memo = {}


class LoopLayer(Layer):
    def __init__(self, prev, g, t, summ):
        self.prev, self.g, self.t, self.summ = prev, g, t, summ

    def locate(self, off):
        """(inside condition, iteration s, window offset j)"""
        g = self.g
        S = abs(g.stride)
        if g.stride > 0:
            q = X.sub(off, g.o0)
        else:
            q = X.sub(X.addc(g.o0, S - 1), off)
        inside = X.ult(q, X.lin(64, 0, [(S, self.t)]))
        if S == 1:
            s, j = q, C(0, 64)
        else:
            s, j = divmod_lin(q, S)
        if g.stride < 0:
            j = X.sub(C(S - 1, 64), j)
        if g.win < S:
            inside = X.and_(inside, X.ult(j, C(g.win, 64)))
        return inside, s, j

    def read(self, cx, off, n):
        g = self.g
        inside, s, j = self.locate(off)
        if n == 1:
            c = cx.decide(inside)
            if c is F:
                return self.prev.read(cx, off, 1)
            v = self.summ.window(g, s, j, 1)
            if c is T:
                return v
            return vite(c, v, self.prev.read(cx.assuming(X.not_(c)), off, 1))
        # n bytes: all inside one iteration window?
        one = X.and_(inside, X.ule(j, C(g.win - n, 64))) if g.win >= n else F
        c = cx.decide(one)
        if c is T:
            return self.summ.window(g, s, j, n)
        # completely outside?
        last = X.addc(off, n - 1)
        in2, _, _ = self.locate(last)
        c2 = cx.decide(X.or_(inside, in2))
        if c2 is F and n <= abs(g.stride):
            return self.prev.read(cx, off, n)
        if multiple_of_stride(j, n) and g.win % n == 0 and c2 is not F and \
                cx.decide(X.eq(inside, in2)) is T and n <= abs(g.stride):
            return vite(inside, self.summ.window(g, s, j, n), self.prev.read(cx, off, n))
        return Layer.read(self, cx, off, n)

    def byte(self, cx, off):
        return self.read(cx, off, 1)


def multiple_of_stride(j, n):
    return j.op == 'c' and j.val % n == 0


def divmod_lin(q, S):
    """q div S, q mod S with syntactic shortcut for q = S*x + c, 0<=c<S"""
    if q.op == 'c':
        return C(q.val // S, 64), C(q.val % S, 64)
    if q.op == 'lin':
        c, cs = q.val
        # the part not divisible by S must be a known small quantity
        div = [(k, a) for k, a in zip(cs, q.args) if _cdiv(k, S)]
        rest = [(k, a) for k, a in zip(cs, q.args) if not _cdiv(k, S)]
        cc = X._s(c, 64)
        if not rest:
            s = X.lin(64, cc // S, [(_sdivc(k, S), a) for k, a in div])
            return s, C(cc % S, 64)
        r = X.lin(64, cc % S, rest)
        if X._umax(r) < S or (all(k == 1 for k, _ in rest) and
                              sum(X._umax(a) for _, a in rest) + cc % S < S):
            s = X.lin(64, cc // S, [(_sdivc(k, S), a) for k, a in div])
            return s, r
    elif q.op == 'cat' and S & (S - 1) == 0:
        pass
    return X.udiv(q, C(S, 64)), X.urem(q, C(S, 64))


def _cdiv(k, S):
    return X._s(k, 64) % S == 0


def _sdivc(k, S):
    return X._s(k, 64) // S


class ArrayInv:
    """contract of a loop: bytes [off, off+len) of obj are fn(t, x) when
    iteration t starts; facts(t, x) are definitions of the ghost function"""

    def __init__(self, obj, off, ln, fn, facts=lambda t, x: []):
        self.obj, self.fn, self.facts = obj, fn, facts
        self.off = off if isinstance(off, X.E) else C(off, 64)
        self.len = ln if isinstance(ln, X.E) else C(ln, 64)


class Summary:
    """Closed form of one loop, found by executing the body on symbolic header
    values and then checked by induction."""

    def __init__(self, ex, f, header, body, st, allocs, period=1):
        self.period = period
        self.ex, self.f, self.header, self.body = ex, f, header, body
        self.st0, self.allocs = st, allocs
        self.blk = f.blocks[header]
        self.name = ex.fresh_name('L.%s.%d' % (f.name, f.analyse().loopno[header]))
        tn = self.name + '.t'
        self.t = X.UF(tn, 64, tuple(st.loops)) if st.loops else V(tn, 64)
        self.facts = []
        self.groups = []
        self.precise = {}

    # ---- helper
    def window(self, g, s, j, n):
        """value of n bytes at window offset j written by iteration s"""
        if g.latch is None or g.rec:
            nm = '%s.w%d.%d' % (self.name, self.groups.index(g), n)
            return X.UF(nm, 8 * n, (s, j) + self.outer)
        key = (n, j) if j.op == 'c' else (n, None)
        v = g.memo.get(key)
        J = V('J!%s' % self.name, 64)
        if v is None:
            jj = j if j.op == 'c' else J
            off = X.lin(64, 0, [(1, g.o0), (g.stride, self.t), (1, jj)])
            cx = self.latch_cx
            if j.op != 'c':
                cx = cx.assuming(X.ult(J, C(g.win, 64)))
            v = g.latch.read(cx, off, n)
            g.memo[key] = v
        m = {self.t: s}
        if j.op != 'c':
            m[J] = j
        return submap_val(v, X.Subst(m))

    def body_run(self, H, quiet):
        ex = self.ex
        saved = ex.wlog
        ex.wlog = []
        ex.names = dict(self.names0)    # same fresh symbols in every run
        if quiet:
            ex.quiet += 1
        try:
            exits, rets = [], []
            for q in range(self.period):
                e2, latches, r2 = ex.run_cfg(self.f, [(None, H)], self.header, self.body, self.allocs)
                exits.extend(e2)
                rets.extend(r2)
                la = ex.join_latch(self.f, self.header, latches)
                if not la:
                    raise NotSummarisable('no latch')
                H = la[0]
            return exits, H, rets, ex.wlog
        finally:
            if quiet:
                ex.quiet -= 1
            if saved is not None:
                saved.extend(ex.wlog)
            ex.wlog = saved

    def run(self):
        ex = self.ex
        S0 = self.st0
        self.outer = tuple(S0.loops)
        phis = self.blk.phis
        t = self.t
        # carried variables: key -> init value.  keys: ('r', reg) / ('m', obj, off, n)
        carried = {}
        for p in phis:
            carried[('r', p.res)] = S0.regs[p.res]
        self._carried = carried
        self.names0 = dict(ex.names)
        forms = {}          # key -> form
        cells = []
        win = []            # groups as (obj, o0, stride, win)
        # optimistic start: constants stay constant until the body says otherwise
        fixed = {k for k, v in carried.items() if isinstance(v, X.E) and v.op == 'c'}
        for rnd in range(16):
            # symbolic header state with placeholders
            ph = {}
            H = S0.fork()
            H.loops = self.outer + (t,)
            self.groups = [Group(*w) for w in win]
            subst = {}
            for k, v0 in carried.items():
                if k in fixed or forms.get(k, ('?',))[0] in ('inv',):
                    ph[k] = v0
                    continue
                pl = self.placeholder(k, v0)
                ph[k] = pl
            self.install(H, ph)
            H.pc = S0.pc
            try:
                exits, L, rets, wlog = self.body_run(H, True)
            except Unsupported as e:
                raise NotSummarisable('body: %s' % e)
            nxt = {k: self.value_of(L, k) for k in carried}
            moved = {k for k in fixed if not same(nxt[k], carried[k])}
            if moved:
                fixed -= moved
                forms = {}
                continue
            forms = self.classify(carried, ph, nxt)
            # group writes
            newcells, newwin = self.collect(wlog, forms, ph, carried)
            ch = False
            for c in newcells:
                if c not in carried:
                    try:
                        carried[c] = S0.content(c[1]).read(S0, C(c[2], 64), c[3])
                    except Unsupported as e:
                        raise NotSummarisable('cell: %s' % e)
                    ch = True
            if newwin != win:
                win = newwin
                ch = True
            if not ch:
                if self.err:
                    raise NotSummarisable(self.err)
                break
        else:
            raise NotSummarisable('no fix point')
        # --- verification pass(es) with closed forms
        for rnd in range(6):
            self.groups = [Group(*w) for w in win]
            vals = self.closed(carried, forms, ph, t)
            H = S0.fork()
            H.loops = self.outer + (t,)
            self.install(H, vals)
            self.exit_candidates(exits, L, ph, forms, carried, S0, vals)
            res = self.induct(H, vals, carried, forms)
            if res is not None:
                return res
        raise NotSummarisable('closed forms not stable')

    def placeholder(self, k, v0):
        nm = '%s.ph.%s' % (self.name, '.'.join(str(x.id if isinstance(x, Obj) else x) for x in k))
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, V(nm, 64))
        if isinstance(v0, PIte):
            # select between objects stays loop invariant, offsets may move
            d = V(nm, 64)
            return self.addleaf(v0, d)
        if v0 is None:
            raise NotSummarisable('undefined carried value')
        return V(nm, v0.w)

    def addleaf(self, p, d):
        if isinstance(p, Ptr):
            return Ptr(p.obj, X.add(p.off, d))
        return PIte(p.c, self.addleaf(p.a, d), self.addleaf(p.b, d))

    def arrays(self):
        return self.ex.arrays.get((self.f.name, self.f.analyse().loopno[self.header]), ())

    def in_array(self, obj, off):
        for a in self.arrays():
            if a.obj is obj and (off.op != 'c' or a.off.op != 'c' or a.len.op != 'c' or
                                 0 <= off.val - a.off.val < a.len.val):
                return a
        return None

    def check_arrays(self, L):
        """the invariant holds initially and is kept by the body"""
        ex = self.ex
        for i, a in enumerate(self.arrays()):
            x = V('x!%s.%d' % (self.name, i), 64)
            for st, t, what in ((self.st0, C(0, 64), 'initially'), (L, X.addc(self.t, 1), 'kept')):
                s = st.fork()
                s.assume(X.ult(x, a.len))
                for f in a.facts(t, x):
                    s.assume(f)
                v = s.content(a.obj).read(s, X.add(a.off, x), 1)
                ex.require(s, X.eq(v, a.fn(t, x)), 'array invariant %s: %s' % (what, a.obj.name))

    def install(self, H, vals):
        for k, v in vals.items():
            if k[0] == 'r':
                H.regs[k[1]] = v
        for a in self.arrays():
            ct = H.wcontent(a.obj)
            ct.base = RangeFn(ct.freeze(), a.off, a.len, lambda d, a=a: a.fn(self.t, d))
            ct.cells = Cells()
        for g in self.groups:
            ct = H.wcontent(g.obj)
            cl = LoopLayer(ct.freeze(), g, self.t, self)
            ct.base = cl
            ct.cells = Cells()
        for k, v in vals.items():
            if k[0] == 'm':
                H.wcontent(k[1]).write(H, C(k[2], 64), v, k[3])

    def value_of(self, L, k):
        if k[0] == 'r':
            return L.regs[k[1]]
        return L.content(k[1]).read(L, C(k[2], 64), k[3])

    def offs(self, v):
        if isinstance(v, Ptr):
            return v.off
        return v

    def classify(self, carried, ph, nxt):
        forms = {}
        phn = set()
        for k, p in ph.items():
            if isinstance(p, Ptr):
                phn |= X.freevars(p.off)
            elif isinstance(p, PIte):
                q = p
                while isinstance(q, PIte):
                    q = q.a
                phn |= {n for n in X.freevars(q.off) if n.startswith(self.name + '.ph')}
            else:
                phn |= X.freevars(p)
        phn = {n for n in phn if n.startswith(self.name + '.ph')}
        rec = set()
        tn = self.t.val
        for k in carried:
            p, n, v0 = ph[k], nxt[k], carried[k]
            if same(p, n):
                forms[k] = ('inv',) if same(p, v0) else ('aff', 0)
                if forms[k] == ('aff', 0):
                    forms[k] = ('inv',)
                continue
            if isinstance(p, PIte) or isinstance(n, PIte):
                d = self.pdelta(p, n)
                if d is not None and not self.varying(d, phn):
                    forms[k] = ('aff', d)
                    continue
                forms[k] = ('delay',)
                continue
            if is_ptr(p) != is_ptr(n):
                raise NotSummarisable('pointer/int mix')
            if isinstance(p, Ptr) and p.obj is not n.obj:
                forms[k] = ('delay',)
                continue
            d = X.sub(self.offs(n), self.offs(p))
            if not self.varying(d, phn):
                forms[k] = ('aff', d)
                continue
            forms[k] = ('delay',)
        # delay requires next() not to depend on non-closed placeholders
        ch = True
        while ch:
            ch = False
            bad = set()
            for k, fm in forms.items():
                if fm[0] == 'rec':
                    bad |= self.phname(ph[k])
            for k, fm in forms.items():
                if fm[0] == 'delay':
                    fv = self.valvars(nxt[k])
                    own = self.phname(ph[k])
                    if fv & (bad | own):
                        if is_ptr(carried[k]):
                            raise NotSummarisable('pointer recurrence')
                        forms[k] = ('rec',)
                        ch = True
        # cyclic delays
        for k, fm in list(forms.items()):
            if fm[0] == 'delay':
                seen = set()
                st = [k]
                while st:
                    x = st.pop()
                    for k2, f2 in forms.items():
                        if f2[0] == 'delay' and k2 not in seen and \
                                self.phname(ph[k2]) & self.valvars(nxt[x]):
                            seen.add(k2)
                            st.append(k2)
                if k in seen:
                    if is_ptr(carried[k]):
                        raise NotSummarisable('pointer cycle')
                    forms[k] = ('rec',)
        self.nxt = nxt
        return forms

    def pdelta(self, p, n):
        if isinstance(p, PIte) and isinstance(n, PIte):
            if p.c is not n.c:
                return None
            a = self.pdelta(p.a, n.a)
            b = self.pdelta(p.b, n.b)
            return a if a is not None and a is b else None
        if isinstance(p, Ptr) and isinstance(n, Ptr) and p.obj is n.obj:
            return X.sub(n.off, p.off)
        return None

    def phname(self, p):
        if isinstance(p, PIte):
            while isinstance(p, PIte):
                p = p.a
        if isinstance(p, Ptr):
            fv = X.freevars(p.off)
        else:
            fv = X.freevars(p)
        return {n for n in fv if n.startswith(self.name + '.ph')}

    def valvars(self, v):
        if isinstance(v, Ptr):
            return X.freevars(v.off)
        if isinstance(v, PIte):
            return X.freevars(v.c) | self.valvars(v.a) | self.valvars(v.b)
        return X.freevars(v)

    def varying(self, d, phn):
        fv = X.freevars(d)
        if fv & phn or self.t.val in fv:
            return True
        # fresh symbols created inside the body are functions of t
        for n in fv:
            if n.startswith(self.name + '.w'):
                return True
        return False

    def affmap(self, forms, ph, carried, t):
        """substitution of placeholders of closed-form keys"""
        m = {}
        for k, fm in forms.items():
            p, v0 = ph[k], carried[k]
            if fm[0] == 'inv':
                val = v0
            elif fm[0] == 'aff':
                d = fm[1]
                val = self.shift(v0, d, t)
            else:
                continue
            self.bind(m, p, val)
        return m

    def bind(self, m, p, val):
        if isinstance(p, PIte):
            # placeholder leaf is off+var
            q, v = p, val
            while isinstance(q, PIte):
                q, v = q.a, v.a
            names = [a for a in (q.off.args if q.off.op == 'lin' else (q.off,)) if a.op == 'v'
                     and a.val.startswith(self.name + '.ph')]
            if not names:
                return
            ph = names[0]
            m[ph] = X.add(X.sub(v.off, q.off), ph)
        elif isinstance(p, Ptr):
            if p.off.op == 'v':
                m[p.off] = val.off
        elif p.op == 'v':
            m[p] = val

    def shift(self, v0, d, t):
        if isinstance(v0, PIte):
            return PIte(v0.c, self.shift(v0.a, d, t), self.shift(v0.b, d, t))
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, self.shift(v0.off, d, t))
        if isinstance(d, int):
            d = C(d, v0.w)
        tt = X.trunc(t, v0.w) if v0.w <= 64 else X.zext(t, v0.w)
        return X.add(v0, X.mul(d, tt))

    def collect(self, wlog, forms, ph, carried):
        ex = self.ex
        self.err = None
        m = X.Subst(self.affmap(forms, ph, carried, self.t))
        cells = []
        wins = []
        t = self.t
        local = set()
        for obj, off, n in wlog:
            if obj.id not in self.st0.mem:
                continue        # object local to the body
            if self.in_array(obj, off):
                continue
            o = m(off)
            fv = X.freevars(o)
            if any(x.startswith(self.name + '.ph') for x in fv):
                self.err = 'write offset not affine'
                continue
            o1 = X.subst(o, {t: X.addc(t, 1)})
            d = X.sub(o1, o)
            if d.op != 'c':
                self.err = 'write stride not constant: %s' % X.show(o)
                continue
            stride = X._s(d.val, 64)
            o0 = X.subst(o, {t: C(0, 64)})
            nn = n if isinstance(n, int) else (n.val if n.op == 'c' else None)
            if stride == 0:
                if o0.op != 'c' or nn is None:
                    self.err = 'loop-invariant symbolic write'
                    continue
                cells.append((obj, o0.val, nn))
                continue
            if nn is None:
                self.err = 'window of symbolic size'
                continue
            wins.append((obj, stride, o0, nn))
        # normalise cells: overlapping -> bytes
        out = []
        byobj = {}
        for obj, o, n in cells:
            byobj.setdefault(obj, set()).add((o, n))
        keys = []
        for k in carried:
            if k[0] == 'm':
                byobj.setdefault(k[1], set()).add((k[2], k[3]))
        for obj, cs in byobj.items():
            owner = {}
            clash = set()
            for o, n in sorted(cs):
                for q in range(o, o + n):
                    if q in owner and owner[q] != (o, n):
                        clash.add(owner[q])
                        clash.add((o, n))
                    owner[q] = (o, n)
            for o, n in cs:
                if (o, n) in clash:
                    # keep the finest known partition
                    for q in range(o, o + n):
                        if (q, 1) not in clash:
                            pass
                        keys.append(('m', obj, q, 1))
                    carried.pop(('m', obj, o, n), None) if n > 1 else None
                    forms.pop(('m', obj, o, n), None) if n > 1 else None
                else:
                    keys.append(('m', obj, o, n))
        keys = list(dict.fromkeys(keys))
        # windows
        groups = []
        for obj, stride, o0, n in wins:
            for g in groups:
                if g[0] is obj and g[1] == stride:
                    d = X.sub(o0, g[2])
                    if d.op == 'c':
                        dd = X._s(d.val, 64)
                        lo = min(0, dd)
                        hi = max(g[3], dd + n)
                        if hi - lo > abs(stride):
                            # neighbouring windows overlap: not a simple map
                            self.err = 'overlapping windows'
                            break
                        g[2] = X.addc(g[2], lo)
                        g[3] = hi - lo
                        break
            else:
                if n > abs(stride):
                    self.err = 'window larger than stride'
                    continue
                groups.append([obj, stride, o0, n])
        return keys, [(g[0], g[2], g[1], g[3]) for g in groups]

    def closed(self, carried, forms, ph, t):
        """values of the carried variables at the header in iteration t"""
        vals = {}
        m = self.affmap(forms, ph, carried, t)
        recm = {}
        for k, fm in forms.items():
            if fm[0] == 'rec':
                v0 = carried[k]
                nm = '%s.rec.%s' % (self.name, '.'.join(
                    (x.name if isinstance(x, Obj) else str(x)) for x in k[1:]))
                r = X.UF(nm, v0.w, (t,) + self.outer)
                recm[k] = r
                self.bind(m, ph[k], r)
        for k, fm in forms.items():
            if fm[0] in ('inv', 'aff'):
                vals[k] = carried[k] if fm[0] == 'inv' else self.shift(carried[k], fm[1], t)
            elif fm[0] == 'rec':
                vals[k] = recm[k]
        # delays in dependency order
        todo = [k for k, fm in forms.items() if fm[0] == 'delay']
        tm1 = X.addc(t, -1)
        while todo:
            prog = False
            for k in list(todo):
                deps = [k2 for k2 in todo if k2 != k and self.phname(ph[k2]) & self.valvars(self.nxt[k])]
                if deps:
                    continue
                sub = X.Subst(m)
                g = self.precise[k] if k in self.precise else submap_val(self.nxt[k], sub)
                gm = submap_val(g, X.Subst({t: tm1}))
                # placeholders of groups UFs inside g also move to t-1 through t
                v = vite(X.eq(t, C(0, 64)), carried[k], gm)
                vals[k] = v
                self.bind_val(m, ph[k], v)
                todo.remove(k)
                prog = True
            if not prog:
                raise NotSummarisable('delay cycle')
        return vals

    def bind_val(self, m, p, v):
        if isinstance(p, Ptr) and not isinstance(v, Ptr):
            raise NotSummarisable('delayed pointer across objects')
        if isinstance(p, PIte):
            raise NotSummarisable('delayed pointer')
        self.bind(m, p, v)

    def exit_candidates(self, exits, L, ph, forms, carried, S0, vals):
        """candidate bounds on t from the branch conditions of the body"""
        t = self.t
        cands = []
        one = C(1, 64)

        def addc(e):
            if e is not T and e not in cands:
                cands.append(e)
        atoms = set()
        for tgt, pred, s in exits:
            for c in s.pc[len(S0.pc):]:
                for x in X.postorder([c]):
                    if x.op in ('ult', 'slt', 'eq'):
                        atoms.add(x)
        affm = self.affmap(forms, ph, carried, t)
        sub = X.Subst(affm)
        for k, fm in forms.items():
            if fm[0] != 'aff' or is_ptr(carried[k]):
                continue
            d = fm[1]
            if d.op != 'c':
                continue
            dv = X._s(d.val, d.w)
            v0 = carried[k]
            w = v0.w
            tw = X.trunc(t, w) if w <= 64 else None
            if tw is None:
                continue
            v0z = X.zext(v0, 64) if w < 64 else v0
            if dv < 0:
                addc(X.ule(t, X.udiv(v0z, C(-dv, 64))))
            else:
                for a in atoms:
                    for x, y in ((0, 1), (1, 0)):
                        A, B = a.args[x], a.args[y]
                        if A.w != w:
                            continue
                        fa, fb = X.freevars(A), X.freevars(B)
                        pn = self.phname(ph[k])
                        if pn <= fa and not any(q.startswith(self.name + '.ph') for q in fb):
                            # A = phi + const
                            cst = X.sub(A, ph[k])
                            if cst.op != 'c':
                                continue
                            Bz = X.zext(B, 64) if w < 64 else B
                            # phi <= B (unsigned) and t no larger than B
                            if dv == 1:
                                addc(X.and_(X.ule(v0z, X.add(v0z, t)), X.ule(X.add(v0z, t), Bz)))
                                addc(X.ule(t, Bz))
                            else:
                                lim = X.udiv(X.add(X.sub(Bz, v0z), C(dv - 1, 64)), C(dv, 64))
                                addc(X.ule(t, lim))
                                addc(X.ule(t, X.addc(X.udiv(Bz, C(dv, 64)), 1)))
                                addc(X.ule(t, X.udiv(Bz, C(dv, 64))))
        for h in self.ex.inv_hooks:
            for c in h(self, t, vals) or ():
                addc(c)
        addc(X.ule(t, C(1 << 60, 64)))
        self.cands = cands

    def induct(self, H, vals, carried, forms):
        ex = self.ex
        S0 = self.st0
        t = self.t
        zero = C(0, 64)
        # candidates that hold initially
        cands = []
        recinit = {}
        for k, fm in forms.items():
            if fm[0] == 'rec':
                recinit[X.subst(vals[k], {t: zero})] = carried[k]
        for c in self.cands:
            c0 = X.subst(X.subst(c, {t: zero}), recinit)
            if S0.decide(c0) is T:
                cands.append(c)
        base_pc = S0.pc
        cont = None
        while True:
            Hx = H.fork()
            Hx.pc = base_pc
            for c in cands:
                Hx.assume(c)
            if cont is not None:
                Hx.assume(X.implies(X.ne(t, zero), X.subst(cont, {t: X.addc(t, -1)})))
            npc = len(Hx.pc)
            try:
                exits, L, rets, wlog = self.body_run(Hx, True)
            except Unsupported as e:
                raise NotSummarisable('body: %s' % e)
            recnext = {}
            for k, fm in forms.items():
                if fm[0] == 'rec':
                    recnext[X.subst(vals[k], {t: X.addc(t, 1)})] = self.value_of(L, k)
            step_ok = [c for c in cands
                       if solve.prove(L.facts(), X.subst(X.subst(c, {t: X.addc(t, 1)}), recnext), 4000)]
            cont1 = X.conj(L.pc[npc:])
            if len(step_ok) == len(cands) and cont is not None:
                break
            cands = step_ok
            cont = cont1
        # check the closed forms: value at the latch = form(t+1)
        nxt = {k: self.value_of(L, k) for k in carried}
        bad = False
        s1 = X.Subst({t: X.addc(t, 1)})
        for k, fm in forms.items():
            if fm[0] == 'delay' and k not in self.precise and not is_ptr(nxt[k]) and not self.opaque(nxt[k]) \
                    and self.opaque(submap_val(vals[k], s1)):
                self.precise[k] = nxt[k]
                bad = True
        if bad:
            return None
        for k, fm in forms.items():
            if fm[0] in ('inv', 'aff'):
                want = submap_val(vals[k], s1)
                if not self.equal(L, nxt[k], want):
                    raise NotSummarisable('closed form of %s refuted' % (k,))
            elif fm[0] == 'delay':
                want = submap_val(vals[k], s1)
                z = X.eq(X.addc(t, 1), zero)
                if isinstance(want, X.E) and L.decide(z) is F:
                    want = X.subst(want, {z: F})
                if not self.equal(L, nxt[k], want):
                    # recompute g from the precise run
                    if is_ptr(nxt[k]):
                        raise NotSummarisable('pointer delay')
                    self.nxt[k] = nxt[k]
                    if self.valvars(nxt[k]) & {x for q in vals for x in ()}:
                        pass
                    forms[k] = ('rec',)
                    bad = True
        if bad:
            return None
        if any(fm[0] == 'rec' for fm in forms.values()) and ex.prefer_unroll:
            Hb = S0.fork()
            for c in cands:
                Hb.assume(c)
            if Hb.decide(X.ule(t, C(ex.prefer_unroll, 64))) is T:
                raise NotSummarisable('recurrence in a short loop')
        # windows written in this iteration
        for g in self.groups:
            g.latch = L.content(g.obj).clone(None)
        self.latch_cx = L
        for g in self.groups:
            g.latch_read_dep = False
        self.mark_recursive()
        # final run, with obligations on
        Hf = H.fork()
        Hf.pc = base_pc
        for c in cands:
            Hf.assume(c)
        Hf.assume(X.implies(X.ne(t, zero), X.subst(cont, {t: X.addc(t, -1)})))
        recf = []
        for k, fm in forms.items():
            if fm[0] == 'rec':
                # f(0) = init ; f(t) = next(t-1)
                r = vals[k]
                nx = X.subst(nxt[k], {t: X.addc(t, -1)})
                recf.append((r, carried[k], nxt[k]))
                Hf.assume(X.eq(r, X.ite(X.eq(t, zero), carried[k], nx)))
                ex.recs[r.val] = (t, carried[k], nxt[k], self.outer)
        exits, L2, rets, wlog = self.body_run(Hf, False)
        self.check_writes(wlog, L2)
        self.check_arrays(L2)
        self.final_latch = L2
        ex.loop_notes.append('%s: summarised (%s; %d window(s); bounds %s)' % (
            self.name, ', '.join('%s %s' % (k[1] if k[0] == 'r' else '%s+%d' % (k[1].name, k[2]), fm[0])
                                 for k, fm in forms.items() if fm[0] != 'inv'),
            len(self.groups), len(cands)))
        if not ex.quiet:
            ex.obls.append(Obligation('loop closed form inductive: ' + self.name, 'proved',
                                      'z3+rewriting', 0.0, self.f.name))
        ex.last_summary = self
        ex.summaries.append(self)
        self.cont = cont
        self.invs = cands
        for tgt, pred, s in exits:
            s.loops = self.outer
        for s, v in rets:
            s.loops = self.outer
        return exits, rets

    def opaque(self, v):
        """mentions a byte written by this loop"""
        return any(n.startswith(self.name + '.w') for n in X.freevars(v))

    def mark_recursive(self):
        """does the window content read earlier windows?"""
        for g in self.groups:
            J = V('J!%s' % self.name, 64)
            off = X.lin(64, 0, [(1, g.o0), (g.stride, self.t), (1, J)])
            cx = self.latch_cx.assuming(X.ult(J, C(g.win, 64)))
            # temporarily opaque
            for h in self.groups:
                h.rec = True
            try:
                v = g.latch.read(cx, off, 1)
            finally:
                for h in self.groups:
                    h.rec = False
            fv = X.freevars(v)
            g.isrec = any(n.startswith(self.name + '.w') for n in fv)
        for g in self.groups:
            g.rec = g.isrec

    def equal(self, st, a, b):
        if same(a, b):
            return True
        if a is None or b is None:
            return False
        if is_ptr(a) and is_ptr(b):
            e = ptr_eq(a, b)
            # disagreeing objects are never equal
        elif is_ptr(a) or is_ptr(b):
            return False
        else:
            e = X.eq(a, b)
        return bool(solve.prove(st.facts(), e, 5000))

    def check_writes(self, wlog, L):
        """every write of the body lies in a declared window or carried cell"""
        cellset = {}
        for k in self.carried_keys:
            for q in range(k[2], k[2] + k[3]):
                cellset.setdefault(k[1].id, set()).add(q)
        t = self.t
        for obj, off, n in wlog:
            if obj.id not in self.st0.mem:
                continue
            if off.op == 'c' and isinstance(n, int) and \
                    all(q in cellset.get(obj.id, ()) for q in range(off.val, off.val + n)):
                continue
            ok = False
            a = self.in_array(obj, off)
            if a:
                nn = C(n, 64) if isinstance(n, int) else n
                d = X.sub(off, a.off)
                self.ex.require(L, X.and_(X.ult(d, a.len), X.ule(nn, X.sub(a.len, d))), 'write inside the array')
                ok = True
            for g in self.groups:
                if g.obj is obj:
                    d = X.sub(off, X.lin(64, 0, [(1, g.o0), (g.stride, t)]))
                    nn = C(n, 64) if isinstance(n, int) else n
                    if d.op == 'c' and nn.op == 'c' and X._s(d.val, 64) >= 0 and d.val + nn.val <= g.win:
                        ok = True
            if not ok:
                raise NotSummarisable('write outside declared windows')
        # distinct windows and cells of one object must not overlap
        for i, g in enumerate(self.groups):
            for h in self.groups[i + 1:]:
                if g.obj is h.obj:
                    raise NotSummarisable('several windows in one object')
            cs = cellset.get(g.obj.id)
            if cs:
                for q in sorted(cs):
                    inside, _, _ = LoopLayer(None, g, X.addc(t, 1), self).locate(C(q, 64))
                    if L.decide(inside) is not F:
                        raise NotSummarisable('cell may overlap a window')

    @property
    def carried_keys(self):
        return [k for k in self._carried if k[0] == 'm']


_I1 = None
from .ir import IntTy   # noqa
_I1 = IntTy(1)
_BIN = {'add': X.add, 'sub': X.sub, 'mul': X.mul, 'udiv': X.udiv, 'sdiv': X.sdiv,
        'urem': X.urem, 'srem': X.srem, 'shl': X.shl, 'lshr': X.lshr, 'ashr': X.ashr,
        'and': X.and_, 'or': X.or_, 'xor': X.xor}
_CMP = {'eq': X.eq, 'ne': X.ne, 'ult': X.ult, 'ule': X.ule,
        'ugt': lambda a, b: X.ult(b, a), 'uge': lambda a, b: X.ule(b, a),
        'slt': X.slt, 'sle': X.sle,
        'sgt': lambda a, b: X.slt(b, a), 'sge': lambda a, b: X.sle(b, a)}


# ------------------------------------------------------------------ builtins

def _memcpy(ex, st, a, name):
    n = a[2]
    ex.copy(st, a[0], a[1], X.zext(n, 64))
    return a[0]


def _memset(ex, st, a, name):
    v = X.trunc(a[1], 8)
    ex.fill_mem(st, a[0], v, X.zext(a[2], 64))
    return a[0]


def _bswap(ex, st, a, name):
    return X.bswap(a[0])


def _nop(ex, st, a, name):
    return None


def _abort(ex, st, a, name):
    ex.aborts.append((tuple(ex.where), st.pc))
    return []


def _malloc(ex, st, a, name):
    o = ex.new_obj(st, ex.fresh_name('heap'), a[0], None, 'heap')
    return Ptr(o)


def _free(ex, st, a, name):
    return None


def _memcmp(ex, st, a, name):
    n = a[2]
    if n.op != 'c' or n.val > 512:
        raise Unsupported('memcmp of symbolic length')
    r = C(0, 32)
    for i in reversed(range(n.val)):
        x = ex.load(st, a[0] + i, 1)
        y = ex.load(st, a[1] + i, 1)
        r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), C(-1, 32), C(1, 32)))
    return r


BUILTINS = {
    'llvm.memcpy': _memcpy, 'llvm.memmove': _memcpy, 'memcpy': _memcpy, 'memmove': _memcpy,
    'llvm.memset': _memset, 'memset': _memset, 'llvm.bswap': _bswap,
    'llvm.dbg': _nop, 'llvm.lifetime': _nop, 'abort': _abort, 'torsion__abort': _abort,
    'torsion__assert_fail': _abort, 'malloc': _malloc, 'free': _free, 'memcmp': _memcmp,
}
