"""Quantifier instantiation and induction schemata shared by the checks.

loop_all     a loop that has reached iteration t took its latch path in every
             earlier iteration s (induction on t)
or_member    z(t+1) = z(t) | g(t)  gives  g(s) <= z(t) bitwise for s < t
or_witness   and a bit of z(t) not in z(0) is a bit of some g(w), w < t"""
from lvc import expr as X
from lvc import solve
from lvc.expr import C, V, UF, add, addc, sub, mul, udiv, urem, eq, ne, ult, ule, and_, or_, not_, implies, ite, zext


def uf_args(exprs, name):
    """argument tuples of every application of an uninterpreted function"""
    out = []
    seen = set()
    for e in X.postorder(list(exprs)):
        if e.op == 'uf' and e.val == name and e.args not in seen:
            seen.add(e.args)
            out.append(e.args)
    return out


def loop_all(summ, idx):
    """facts: idx < t  ->  the iteration idx continued"""
    if summ.outer:
        return []
    m = {summ.t: idx}
    return [implies(ult(idx, summ.t), X.subst(summ.cont, m))]


def or_form(ex, name):
    """(t, init, g) when the recurrence `name` is z | g"""
    t, init, nxt, outer = ex.recs[name]
    if outer:
        return None
    z = UF(name, init.w, (t,))
    if z not in X.postorder([nxt]):
        return None
    zz = V('z!or', init.w)
    n2 = X.subst(nxt, {z: zz})
    g = X.subst(n2, {zz: C(0, init.w)})
    if any(e.op == 'uf' and e.val == name for e in X.postorder([g])):
        return None
    if not solve.prove([], eq(n2, or_(zz, g)), 3000):
        return None
    return t, init, g


def or_facts(ex, st, idx=()):
    """lemma instances for every or-accumulator mentioned in the state"""
    return or_facts_of(ex, recs_in(ex, st.pc), idx)


def recs_in(ex, exprs):
    apps = {}
    for e in X.postorder(list(exprs)):
        if e.op == 'uf' and e.val in ex.recs:
            apps[(e.val, e.args)] = e
    return apps


def or_facts_of(ex, apps, idx=()):
    fs = []
    for (name, args), z in apps.items():
        f = or_form(ex, name)
        if f is None:
            continue
        t, init, g = f
        T = args[0]
        for s in idx:
            gs = X.subst(g, {t: s})
            fs.append(implies(ult(s, T), eq(or_(z, gs), z)))
        # one witness per bit pattern: a bit of z outside init
        for bit in range(z.w):
            w = UF('wit.%s.%d' % (name, bit), 64, (T,))
            gw = X.subst(g, {t: w})
            fs.append(implies(and_(X.ext(z, bit, bit), not_(X.ext(init, bit, bit))),
                              and_(ult(w, T), X.ext(gw, bit, bit))))
    return fs


def loop_invs(summ, idx):
    """the invariants found for a loop hold at every iteration it reached"""
    if summ.outer:
        return []
    m = {summ.t: idx}
    return [implies(ule(idx, summ.t), X.subst(c, m)) for c in summ.invs]


def instances(st, summ, idx):
    """assume the invariants at iteration idx, without guard where it is decided"""
    if summ.outer:
        return
    g = ule(idx, summ.t)
    d = st.decide(g)
    if d is X.F:
        return
    for c in summ.invs:
        c = X.subst(c, {summ.t: idx})
        st.assume(c if d is X.T else implies(g, c))


class Rec:
    """ghost recurrence R(0) = init, R(t+1) = step(t, R(t)); `relate` gives the
    candidate invariants that tie it to the variables of a loop"""

    def __init__(self, ex, name, init, step, guess=None):
        self.ex, self.name, self.init, self.step, self.guess = ex, name, init, step, guess
        self.w = init.w
        ex.facts.append(eq(self(C(0, 64)), init))
        ex.inv_hooks.append(self.hook)

    def __call__(self, t):
        return UF(self.name, self.w, (t,))

    def unfold(self, t):
        return eq(self(addc(t, 1)), self.step(t, self(t)))

    def hook(self, summ, t, vals):
        f = self.unfold(t)
        if f not in self.ex.facts:
            self.ex.facts.append(f)
        if self.guess:
            return self.guess(self(t), t, vals)
        out = []
        for k, v in vals.items():
            if not isinstance(v, X.E):
                continue
            if v.w >= self.w:
                out.append(eq(v, zext(self(t), v.w)))
        return out
