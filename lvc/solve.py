"""SMT back end (z3) for bit-vector obligations."""
import time
import z3
from . import expr as X
from . import intenc

STATS = {'queries': 0, 'time': 0.0, 'proved': 0, 'refuted': 0, 'unknown': 0}
_funcs = {}
_tabs = {}


def _bool(b):
    return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def _func(name, ws, w):
    key = (name, tuple(ws), w)
    f = _funcs.get(key)
    if f is None:
        f = _funcs[key] = z3.Function(name, *([z3.BitVecSort(k) for k in ws] + [z3.BitVecSort(w)]))
    return f


def z(e):
    """bit-vector valued z3 term"""
    if e.z is not None:
        return e.z
    for x in X.postorder([e]):
        if x.z is None:
            x.z = _z(x)
    return e.z


def _mux(vals, w, idx, memo):
    nb = idx.size()
    lvl = [z3.BitVecVal(v, w) for v in vals]
    lvl += [z3.BitVecVal(0, w)] * ((1 << nb) - len(vals))
    for i in range(nb):
        b = z3.Extract(i, i, idx) == z3.BitVecVal(1, 1)
        lvl = [lvl[2 * k] if lvl[2 * k].eq(lvl[2 * k + 1]) else z3.If(b, lvl[2 * k + 1], lvl[2 * k])
               for k in range(len(lvl) // 2)]
    return lvl[0]


def _z(e):
    op = e.op
    w = e.w
    if op == 'c':
        return z3.BitVecVal(e.val, w)
    if op == 'v':
        return z3.BitVec(e.val, w)
    a = [x.z for x in e.args]
    if op == 'lin':
        c, cs = e.val
        r = None
        m = 1 << (w - 1)
        for k, x in zip(cs, a):
            if k == 1:
                tm = x
            elif k == X.mask(w):
                if r is None:
                    tm = -x
                else:
                    r = r - x
                    continue
            elif k & (k - 1) == 0:
                tm = x << z3.BitVecVal(k.bit_length() - 1, w)
            else:
                tm = x * z3.BitVecVal(k, w)
            r = tm if r is None else r + tm
        if c:
            r = r + z3.BitVecVal(c, w)
        return r
    if op == 'mul':
        return a[0] * a[1]
    if op == 'xor':
        if w == 1 and len(a) == 1 and e.val == 1:
            return ~a[0]
        r = a[0]
        for x in a[1:]:
            r = r ^ x
        if e.val:
            r = r ^ z3.BitVecVal(e.val, w)
        return r
    if op in ('and', 'or'):
        r = a[0]
        for x in a[1:]:
            r = (r & x) if op == 'and' else (r | x)
        if e.val is not None:
            k = z3.BitVecVal(e.val, w)
            r = (r & k) if op == 'and' else (r | k)
        return r
    if op == 'ext':
        return z3.Extract(e.val[0], e.val[1], a[0])
    if op == 'cat':
        return z3.Concat(*a)
    if op == 'sext':
        return z3.SignExt(w - e.args[0].w, a[0])
    if op == 'ite':
        return z3.If(a[0] == z3.BitVecVal(1, 1), a[1], a[2])
    if op == 'eq':
        return _bool(a[0] == a[1])
    if op == 'ult':
        return _bool(z3.ULT(a[0], a[1]))
    if op == 'slt':
        return _bool(a[0] < a[1])
    if op == 'udiv':
        return z3.UDiv(a[0], a[1])
    if op == 'urem':
        return z3.URem(a[0], a[1])
    if op == 'sdiv':
        return a[0] / a[1]
    if op == 'srem':
        return z3.SRem(a[0], a[1])
    if op in ('shl', 'lshr', 'ashr'):
        # amounts have the width of the operand in LLVM
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        return a[0] >> a[1]
    if op == 'tab':
        return _mux(X.TABLES[e.val[0]], w, a[0], None)
    if op == 'uf':
        if not a:
            return z3.BitVec(e.val, w)
        return _func(e.val, [x.w for x in e.args], w)(*a)
    raise KeyError(op)


def b(e):
    """z3 Bool of a 1-bit expression"""
    if e is X.T:
        return z3.BoolVal(True)
    if e is X.F:
        return z3.BoolVal(False)
    if e.op == 'and':
        return z3.And(*[b(x) for x in e.args])
    if e.op == 'or':
        return z3.Or(*[b(x) for x in e.args])
    if e.op == 'xor' and len(e.args) == 1 and e.val == 1:
        return z3.Not(b(e.args[0]))
    if e.op == 'eq':
        return z(e.args[0]) == z(e.args[1])
    if e.op == 'ult':
        return z3.ULT(z(e.args[0]), z(e.args[1]))
    if e.op == 'slt':
        return z(e.args[0]) < z(e.args[1])
    return z(e) == z3.BitVecVal(1, 1)


def relevant(facts, goal):
    """facts connected with the goal through shared symbols"""
    need = set(X.freevars(goal))
    fs = [(f, X.freevars(f)) for f in facts]
    used = [False] * len(fs)
    out = []
    ch = True
    while ch:
        ch = False
        for i, (f, v) in enumerate(fs):
            if not used[i] and (not v or v & need):
                used[i] = True
                out.append(f)
                if not v <= need:
                    need |= v
                    ch = True
    return [f for i, (f, _) in enumerate(fs) if used[i]]


class Result:
    def __init__(self, status, model=None, time_s=0.0, backend='z3'):
        self.status, self.model, self.time, self.backend = status, model, time_s, backend

    def __bool__(self):
        return self.status == 'proved'


def find_ite(goal):
    """an if-then-else condition worth splitting on"""
    if goal.op == 'eq':
        for x in goal.args:
            if x.op == 'ite':
                return x.args[0]
    if goal.op == 'xor' and goal.w == 1 and len(goal.args) == 1:
        return find_ite(goal.args[0])
    return None


def prove(facts, goal, timeout=10000, want_model=False):
    """facts |= goal ?  Equations between conditional terms are split."""
    c = find_ite(goal)
    if c is None:
        return prove1(facts, goal, timeout, want_model)
    t0 = time.time()
    work = [(list(facts), goal)]
    n = 0
    be = 'z3-lia'
    while work:
        fs, g = work.pop()
        if g is X.T:
            continue
        c = find_ite(g) if n < 200 else None
        if c is None:
            r = prove1(fs, g, timeout, want_model)
            if r.status != 'proved' and g is not X.F and len(fs) > len(facts):
                # the case itself may be impossible
                r2 = prove1(fs, X.F, timeout)
                if r2.status == 'proved':
                    r = r2
            if r.status != 'proved':
                r.time = time.time() - t0
                return r
            if r.backend == 'z3':
                be = 'z3'
            continue
        n += 1
        nc = X.not_(c)
        for v, lit in ((X.T, c), (X.F, nc)):
            if nc in fs and v is X.T or c in fs and v is X.F:
                continue
            work.append((fs + [lit], assume_in(g, c, v)))
    return Result('proved', time_s=time.time() - t0, backend=be)


_wide = {}


def wideuf(goal):
    """applies an uninterpreted function to a block of bits"""
    r = _wide.get(goal)
    if r is None:
        r = _wide[goal] = any(e.op == 'uf' and any(a.w >= 64 and a.op in ('cat', 'xor') and (len(a.args) > 3 or intenc.bitty(a)) for a in e.args)
                              for e in X.postorder([goal]))
    return r


def congruent(facts, a, b, memo):
    """a = b because corresponding arguments are equal"""
    if a is b:
        return True
    if a.w != b.w or len(memo) > 200:
        return False
    k = (a, b)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = False
    if a.op == b.op and a.val == b.val and len(a.args) == len(b.args) and a.args:
        xs, ys = list(a.args), list(b.args)
        if a.op in ('xor', 'and', 'or'):
            sh = set(xs) & set(ys)
            xs = sorted((x for x in xs if x not in sh), key=lambda x: (x.op, str(x.val)))
            ys = sorted((x for x in ys if x not in sh), key=lambda x: (x.op, str(x.val)))
        r = all(x.w == y.w for x, y in zip(xs, ys)) and all(congruent(facts, x, y, memo) for x, y in zip(xs, ys))
    if not r and a.w > 8 and a.w <= 64 and not intenc.bitty(a) and not intenc.bitty(b):
        r = intenc.check(facts, X.eq(a, b), 500)[0] == 'unsat'
    memo[k] = r
    return r


def rewrite(facts, goal):
    """the goal after use of the equations among the facts as definitions"""
    m = {}
    atom = ('v', 'uf')

    def root(x):
        while x in m:
            x = m[x]
        return x
    # known conditions select the branches of the equations
    eqs = [f for f in facts if f.op == 'eq']
    known = {}
    for f in facts:
        if f.op != 'eq':
            known[X.not_(f)] = X.F
    if known and any(a.op == 'ite' for f in eqs for a in f.args):
        k = X.Subst(known)
        eqs = [k(f) if any(a.op == 'ite' for a in f.args) else f for f in eqs]
        eqs = [f for f in eqs if f.op == 'eq']
    # constants first and equations between atoms last, so that definitions win
    for f in sorted(eqs, key=lambda f: 0 if f.args[0].op == 'c' or f.args[1].op == 'c' else
                    2 if f.args[0].op in atom and f.args[1].op in atom else 1):
        a, b2 = root(f.args[0]), root(f.args[1])
        for x, y in ((a, b2), (b2, a)):
            if x is not y and x.op in atom and (y.op == 'c' or not any(
                    z is x or z in m and root(z) is x for z in X.postorder([y]))):
                m[x] = y
                break
    if not m:
        return goal
    s = X.Subst(m)
    for _ in range(4):
        g = s(goal)
        if g is goal:
            break
        goal = g
    return goal


def assume_in(e, c, v):
    """simplify e under c = v"""
    return X.Subst({c: v})(e)


def products(exprs):
    return [e for e in X.postorder(exprs) if e.op == 'mul' and e.w >= 64]


def prove1(facts, goal, timeout=10000, want_model=False):
    if goal is X.T:
        return Result('proved', backend='rewriting')
    fs = relevant(facts, goal)
    ps = products(fs + [goal])
    if not ps:
        return prove2(facts, goal, timeout, want_model)
    # products of unknowns as uninterpreted terms first
    m = {p: X.UF('product%d' % p.w, p.w, p.args) for p in ps}
    s = X.Subst(m)
    r = prove2([s(f) for f in fs], s(goal), min(timeout, 3000))
    if r.status == 'proved' or timeout <= 2000:
        if r.status == 'refuted':
            r.status = 'unknown'
        return r
    return prove2(facts, goal, timeout, want_model)


def prove2(facts, goal, timeout=10000, want_model=False):
    if goal is X.T:
        return Result('proved', backend='rewriting')
    t0 = time.time()
    STATS['queries'] += 1
    fs = relevant(facts, goal)
    if goal is X.F and not fs:
        # nothing known: refuted unless the facts are contradictory
        fs = list(facts)
    if goal is X.F:
        fs = list(facts)
    wide = wideuf(goal)
    if wide or goal.op == 'eq' and (intenc.bitty(goal) or any(
            a.op in ('ext', 'cat') and any(b.op == 'uf' for b in a.args) for a in goal.args)):
        g2 = rewrite(fs, goal)
    else:
        g2 = None
    if g2 is X.T:
        STATS['proved'] += 1
        return Result('proved', time_s=time.time() - t0, backend='rewriting')
    if g2 is not None and g2.op == 'eq' and congruent([f for f in fs if not intenc.bitty(f)], *g2.args, {}):
        STATS['proved'] += 1
        dt = time.time() - t0
        STATS['time'] += dt
        return Result('proved', time_s=dt, backend='congruence+z3-lia')
    heavy = wide or intenc.bitheavy(fs + [goal])
    first = 400 if heavy else 1500
    if heavy and not intenc.bitty(goal):
        # index arithmetic below bit-level facts
        r, _ = intenc.check([f for f in fs if not intenc.bitty(f)], goal, min(timeout, 2000))
        if r == 'unsat':
            dt = time.time() - t0
            STATS['time'] += dt
            STATS['proved'] += 1
            return Result('proved', time_s=dt, backend='z3-lia')
        if timeout <= 2000:
            timeout = first = 400
    if not heavy:
        r, exact = intenc.check(fs, goal, min(timeout, 4000))
        dt = time.time() - t0
        if r == 'unsat':
            STATS['time'] += dt
            STATS['proved'] += 1
            return Result('proved', time_s=dt, backend='z3-lia')
        if r == 'sat' and exact and not want_model:
            STATS['time'] += dt
            STATS['refuted'] += 1
            return Result('refuted', None, dt, 'z3-lia')
    split = timeout > 400 and intenc.bitty(goal) and mixed(fs, goal)
    if split and Split(fs, timeout).prove(goal):
        dt = time.time() - t0
        STATS['time'] += dt
        STATS['proved'] += 1
        return Result('proved', time_s=dt, backend='z3-lia+bv')
    s = z3.Solver()
    s.set('timeout', min(timeout, first))
    for f in fs:
        s.add(b(f))
    s.add(z3.Not(b(goal)))
    r = s.check()
    if r == z3.unknown:
        if timeout > 400 and not split and Split(fs, timeout).prove(goal):
            dt = time.time() - t0
            STATS['time'] += dt
            STATS['proved'] += 1
            return Result('proved', time_s=dt, backend='z3-lia+bv')
        if timeout > first:
            s.set('timeout', timeout)
            r = s.check()
    dt = time.time() - t0
    STATS['time'] += dt
    if r == z3.unsat:
        STATS['proved'] += 1
        return Result('proved', time_s=dt)
    if r == z3.sat:
        STATS['refuted'] += 1
        m = s.model()
        if len(fs) == len(facts):
            POOL.add(m)
        else:
            POOL.add(m)
        return Result('refuted', s.model(), dt)
    STATS['unknown'] += 1
    return Result('unknown', time_s=dt)


def mixed(facts, goal):
    """does the goal read arrays at non-constant 64-bit indices?"""
    for x in X.postorder([goal]):
        if x.op == 'uf' and x.args and x.args[0].w == 64 and x.args[0].op != 'c':
            return True
    return False


class LiaModel:
    def __init__(self, m, en):
        self.m, self.en = m, en
        self.memo = {}
        self.ufs = LiaUfs(self)

    def get(self, t):
        v = self.m.eval(t, model_completion=True)
        return v.as_long()

    def __getitem__(self, name):
        v = self.memo.get(name)
        if v is None:
            v = self.memo[name] = self.get(z3.Int('i:' + name))
        return v


class LiaUfs:
    def __init__(self, m):
        self.m = m

    def __getitem__(self, name):
        def f(*a):
            if not a:
                return self.m[name]
            k = (name, a)
            v = self.m.memo.get(k)
            if v is None:
                fn = self.m.en.funcs.get((name, len(a)))
                v = 0 if fn is None else self.m.get(fn(*[z3.IntVal(x) for x in a]))
                self.m.memo[k] = v
            return v
        return f


class Split:
    """Nelson-Oppen style: index arithmetic is decided in linear integers,
    which fixes the branches and unifies the arguments of uninterpreted
    functions; what remains is a query about bits only."""

    def __init__(self, facts, timeout):
        self.facts = facts
        self.deadline = time.time() + timeout / 1000.0
        self.timeout = timeout

    def arith(self, e):
        return not intenc.bitty(e)

    def bytey(self, f):
        return any(x.op == 'uf' and x.args and x.w < 64 for x in X.postorder([f]))

    def context(self, facts):
        en = intenc.Enc()
        s = z3.Solver()
        s.set('timeout', 1000)
        n = 0
        A = [f for f in facts if self.arith(f) and not (f.op == 'or' and self.bytey(f))]
        fs = [en.b(f) for f in A]
        s.add(*en.side)
        s.add(*fs)
        self.en, self.s, self.nside = en, s, len(en.side)
        self.memo = {}
        self.models = []

    def entails(self, e):
        v = self.memo.get(e)
        if v is None:
            for m in self.models:
                if not X.evaluate([e], m, m.ufs)[0]:
                    self.memo[e] = False
                    return False
            g = self.en.b(e)
            self.s.add(*self.en.side[self.nside:])
            self.nside = len(self.en.side)
            self.s.push()
            self.s.add(z3.Not(g))
            r = self.s.check()
            v = r == z3.unsat
            if r == z3.sat and len(self.models) < 12:
                self.models.append(LiaModel(self.s.model(), self.en))
            self.s.pop()
            self.memo[e] = v
        return v

    def atoms(self, roots):
        for x in X.postorder(roots):
            if x.w == 1 and x.op in ('eq', 'ult', 'slt') and x.args[0].w >= 32 and self.arith(x):
                yield x

    def fix(self, e):
        for rnd in range(4):
            m = {}
            for a in self.atoms([e]):
                if time.time() > self.deadline:
                    raise TimeoutError
                if self.entails(a):
                    m[a] = X.T
                elif self.entails(X.not_(a)):
                    m[a] = X.F
            if not m:
                break
            e = X.Subst(m)(e)
        return e

    def prove(self, goal):
        try:
            return self.cases(list(self.facts), goal, 10)
        except TimeoutError:
            return False

    def cases(self, facts, goal, depth):
        if time.time() > self.deadline:
            return False
        self.context(facts)
        if self.entails(X.F):
            return True
        g = self.fix(goal)
        if g is X.T:
            return True
        for a in self.atoms([g]):
            if depth == 0:
                return False
            for lit, v in ((a, X.T), (X.not_(a), X.F)):
                if not self.cases(facts + [lit], X.Subst({a: v})(g), depth - 1):
                    return False
            return True
        return self.bits(facts, g)

    def bits(self, facts, g):
        need = X.freevars(g)
        B = [f for f in facts if not self.arith(f) or self.bytey(f)]
        B = [self.fix(f) for f in B]
        B = [f for f in B if f is not X.T]
        canon = {}
        m = {}
        k = 0
        for x in X.postorder(B + [g]):
            if x.op != 'uf' or not x.args:
                continue
            if time.time() > self.deadline:
                return False
            cl = canon.setdefault((x.val, x.w), [])
            for args, v in cl:
                if all(p is q or (p.w == q.w and self.arith(p) and self.arith(q) and
                                  self.entails(X.eq(p, q))) for p, q in zip(args, x.args)):
                    m[x] = v
                    break
            else:
                k += 1
                v = X.V('%s#%d' % (x.val, k), x.w)
                cl.append((x.args, v))
                m[x] = v
        sub = X.Subst(m)
        g = sub(g)
        if g is X.T:
            return True
        B = relevant([sub(f) for f in B], g)
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for f in B:
            s.add(b(f))
        s.add(z3.Not(b(g)))
        return s.check() == z3.unsat


class Pool:
    """recent models, used to answer 'not implied' without a solver call"""

    def __init__(self, n=40):
        self.n = n
        self.ms = []

    def add(self, m):
        self.ms.insert(0, (m, {}))
        del self.ms[self.n:]

    def value(self, ent, c):
        m, memo = ent
        v = memo.get(c.id)
        if v is None:
            v = memo[c.id] = z3.is_true(m.eval(b(c), model_completion=True))
        return v

    def seen(self, facts, c):
        """(a model of facts with c true exists, ... with c false)"""
        t = f = False
        for ent in self.ms:
            if all(self.value(ent, x) for x in facts):
                if self.value(ent, c):
                    t = True
                else:
                    f = True
                if t and f:
                    break
        return t, f


POOL = Pool()


def satisfiable(facts, timeout=10000):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in facts:
        s.add(b(f))
    return str(s.check())
