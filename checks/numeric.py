"""Search for numbers that refute an arithmetic obligation (the polynomial
back end proves but does not refute)."""
import random
import time
from lvc import expr as X


def leaves(roots):
    """variables and array cells with constant or symbolic index"""
    out = []
    for e in X.postorder(list(roots)):
        if e.op == 'v' or e.op == 'uf':
            out.append(e)
    return out


def pick(rng, lo, hi):
    k = rng.randrange(9)
    if k == 0:
        return lo
    if k == 1:
        return hi
    if k == 2:
        return max(lo, hi - rng.randrange(4))
    if k == 3:
        return min(hi, lo + rng.randrange(4))
    if k == 4:
        b = rng.randrange(hi.bit_length() + 1)
        return min(hi, max(lo, (1 << b) - rng.randrange(2)))
    if k == 5:
        b = rng.randrange(hi.bit_length() + 1)
        return min(hi, max(lo, hi - (1 << b) + 1))
    if k == 6:
        b = rng.randrange(hi.bit_length() + 1)
        return min(hi, max(lo, rng.getrandbits(b) if b else 0))
    return rng.randint(lo, hi)


class Env:
    def __init__(self, rng, ranges, mode):
        self.rng, self.ranges, self.mode = rng, ranges, mode
        self.val = {}

    def choose(self, key, w):
        v = self.val.get(key)
        if v is None:
            lo, hi = self.ranges.get(key, (0, (1 << w) - 1))
            if self.mode == 0:
                v = hi
            elif self.mode == 1:
                v = pick(self.rng, lo, hi)
            elif self.mode == 2:
                v = self.rng.choice((lo, hi))
            else:
                v = self.rng.randint(lo, hi)
            self.val[key] = v
        return v


class _Vars:
    def __init__(self, env, ws):
        self.env, self.ws = env, ws

    def __getitem__(self, name):
        return self.env.choose(name, self.ws[name])

    def get(self, name, d=None):
        return self[name]


class _Ufs:
    def __init__(self, env, ws):
        self.env, self.ws = env, ws

    def __getitem__(self, name):
        return lambda *a: self.env.choose((name,) + a, self.ws[name])

    def get(self, name, d=None):
        return self[name]


def falsify(roots, pred, ranges=None, tries=3000, seconds=8, seed=1):
    """pred(values of roots, env) false for some input?  ranges: term -> (lo, hi)
    for variables and for array cells at constant index"""
    rng = random.Random(seed)
    roots = list(roots)
    ws = {}
    for e in leaves(roots):
        ws[e.val] = e.w
    rg = {}
    for e, b in (ranges or {}).items():
        if e.op == 'v' or not e.args:
            rg[e.val] = b
        elif all(a.op == 'c' for a in e.args):
            rg[(e.val,) + tuple(a.val for a in e.args)] = b
        else:
            # cells at a fixed but symbolic index: the index is chosen as 0
            rg[(e.val,) + tuple(a.val if a.op == 'c' else 0 for a in e.args)] = b
            for a in e.args:
                for x in X.postorder([a]):
                    if x.op == 'v':
                        rg[x.val] = (0, 0)
    t0 = time.time()
    for k in range(tries):
        env = Env(rng, rg, 0 if k == 0 else (1, 2, 3)[k % 3])
        vals = X.evaluate(roots, _Vars(env, ws), _Ufs(env, ws))
        if isinstance(vals, dict):
            vals = [vals[r] for r in roots]
        if pred(vals) is False:
            return {str(a): hex(b) for a, b in env.val.items()}
        if time.time() - t0 > seconds:
            break
    return None


def arith(U, name, proved, roots, pred, ranges=None, backend='polynomials', detail='', tries=3000):
    """obligation decided by the polynomial back end; every claim is also
    evaluated at extreme points, which refutes or cross-checks it"""
    t0 = time.time()
    m = falsify(roots, pred, ranges, 40 if proved else tries, 2 if proved else 10)
    if m is not None:
        if proved:
            U.ob(name, None, backend, time.time() - t0, detail='back end claims a proof but %s' % m)
        else:
            U.ob(name, False, backend + '+evaluation', time.time() - t0, detail='%s fails for %s' % (name, m), model=None)
        return False
    U.ob(name, True if proved else None, backend, time.time() - t0, detail='' if proved else detail)
    return proved
