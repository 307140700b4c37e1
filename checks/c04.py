"""C04: HMAC."""
import ctypes
import hmac as pyhmac
import time
from .ghost import *        # noqa
from .hashes import TYPES

SRCS = [('hash', 'c64'), ('util', 'c64'), ('internal', 'c64')]


def lay():
    return offsets('torsion/hash.h', ['hmac_t', 'hmac_t.type', 'hmac_t.inner', 'hmac_t.outer', 'hash_t'])


def setup(U):
    L = lay()
    ex, st = U.exec(['hash', 'util', 'internal'])
    hs, bs = V('hs', 64), V('bs', 64)
    for f in (ult(K(0), hs), ule(hs, bs), ule(hs, K(64)), ule(bs, K(168))):
        st.assume(f)
    Hash(U, ex, L['hash_t'][1], hs, bs)
    U.assume('1 <= digest size <= min(block size, 64) and block size <= 168: proved for every algorithm in unit "sizes"')
    h = ex.sym_obj(st, 'hmac', L['hmac_t'][1])
    return ex, st, L, h, hs, bs


def key_pad(key, n, c):
    return lambda k: ite(ult(k, n), xor(key(k), C(c, 8)), C(c, 8))


def init_unit(U):
    ex, st, L, h, hs, bs = setup(U)
    n = V('n', 64)
    ty = V('type', 32)
    st.assume(ult(n, K(1 << 60)))
    key = ex.sym_obj(st, 'key', n)
    key.const = True
    inner, outer = (h.id, K(L['hmac_t.inner'][0])), (h.id, K(L['hmac_t.outer'][0]))
    for s, r in ex.call(st, 'torsion_hmac_init', [Ptr(h), ty, Ptr(key), n]):
        U.reach(s)
        ev = list(s.extra or ())
        fin = [i for i, e in enumerate(ev) if e.kind == 'final']
        kb = lambda k: UF('m:key', 8, (k,))
        kn = n
        if fin:
            ex.require(s, ult(bs, n), 'only long keys are hashed')
            if len(fin) != 1:
                raise Unsupported('several digests')
            e = ev[fin[0]]
            seq = sequence(ev, fin[0])
            ok = seq and seq[0].kind == 'init'
            ex.require(s, T if ok else F, 'key digest starts from a fresh hash')
            if ok:
                ex.require(s, eq(seq[0].type, ty), 'key digest uses the same algorithm')
            same_bytes(ex, s, [q.chunk for q in seq[1:]], [Bytes(n, kb)], 'hashed key')
            ex.require(s, eq(e.n, hs), 'whole key digest')
            kb = lambda k, nm=e.name: UF(nm, 8, (k,))
            kn = hs
        else:
            ex.require(s, ule(n, bs), 'long keys are hashed')
        for what, key_, c in (('inner', inner, 0x36), ('outer', outer, 0x5c)):
            ini, ch = chunks_since(ev, key_)
            ok = isinstance(ini, Event)
            ex.require(s, T if ok else F, what + ' hash initialised')
            if not ok:
                continue
            ex.require(s, eq(ini.type, ty), what + ' hash has the requested algorithm')
            same_bytes(ex, s, ch, [Bytes(bs, key_pad(kb, kn, c))], what + ' pad')
        ex.require(s, eq(s.load(Ptr(h, L['hmac_t.type'][0]), 4), ty), 'algorithm remembered')


def update_unit(U):
    ex, st, L, h, hs, bs = setup(U)
    n = V('n', 64)
    st.assume(ult(n, K(1 << 60)))
    data = ex.sym_obj(st, 'data', n)
    data.const = True
    before = [st.load(Ptr(h, K(o)), 1) for o in ()]
    inner = (h.id, K(L['hmac_t.inner'][0]))
    ty = st.load(Ptr(h, L['hmac_t.type'][0]), 4)
    for s, r in ex.call(st, 'torsion_hmac_update', [Ptr(h), Ptr(data), n]):
        U.reach(s)
        ev = list(s.extra or ())
        ok = all(e.kind == 'update' and e.key == inner for e in ev)
        ex.require(s, T if ok else F, 'only the inner hash absorbs')
        same_bytes(ex, s, [e.chunk for e in ev if e.kind == 'update'],
                   [Bytes(n, lambda k: UF('m:data', 8, (k,)))], 'absorbed data')
        ex.require(s, eq(s.load(Ptr(h, L['hmac_t.type'][0]), 4), ty), 'algorithm kept')


def final_unit(U):
    ex, st, L, h, hs, bs = setup(U)
    out = ex.sym_obj(st, 'out', addc(hs, 1))
    inner, outer = (h.id, K(L['hmac_t.inner'][0])), (h.id, K(L['hmac_t.outer'][0]))
    for s, r in ex.call(st, 'torsion_hmac_final', [Ptr(h), Ptr(out)]):
        U.reach(s)
        ev = list(s.extra or ())
        fin = [e for e in ev if e.kind == 'final']
        ok = len(fin) == 2 and fin[0].key == inner and fin[1].key == outer and \
            not any(e.kind == 'init' for e in ev) and \
            all(e.key == outer for e in ev if e.kind == 'update')
        ex.require(s, T if ok else F, 'inner digest, then outer digest')
        if not ok:
            continue
        ex.require(s, and_(eq(fin[0].n, hs), eq(fin[1].n, hs)), 'full digests')
        same_bytes(ex, s, [e.chunk for e in ev if e.kind == 'update'],
                   [Bytes(hs, lambda k: UF(fin[0].name, 8, (k,)))], 'outer hash absorbs the inner digest')
        k = V('k', 64)
        s2 = s.fork()
        s2.assume(ule(k, hs))
        ex.require(s2, eq(s2.load(Ptr(out, k), 1), ite(ult(k, hs), UF(fin[1].name, 8, (k,)), UF('m:out', 8, (k,)))),
                   'output is the outer digest')


def sizes_unit(U):
    """facts about the two size functions used as assumptions above"""
    ex, st = U.exec(['hash', 'internal'])
    for name, ty in types():
        for s, hs in ex.call(st.fork(), 'torsion_hash_output_size', [C(ty, 32)]):
            for s2, bs in ex.call(s, 'torsion_hash_block_size', [C(ty, 32)]):
                U.reach(s2)
                ex.require(s2, and_(ult(K(0), hs), ule(hs, bs), ule(hs, K(64)), ule(bs, K(168))), 'sizes of ' + name)


def types():
    from .hashes import constants
    cs = constants(['HASH_' + n for n in TYPES])
    return [(n, cs['HASH_' + n]) for n in TYPES]


UNITS = [('sizes', sizes_unit), ('init', init_unit), ('update', update_unit), ('final', final_unit)]


def concrete(rng, budget, hints):
    from .hashes import Real, oracle_type
    R = Real()
    lib = R.lib
    size = offsets('torsion/hash.h', ['hmac_t'])['hmac_t'][1]
    ty = dict(types())
    t0 = time.time()
    n = 0
    while time.time() - t0 < budget:
        for nm in TYPES:
            o, b, fld, spec, pub = TYPES[nm]
            kl = rng.choice([0, 1, o, b - 1, b, b + 1, b + o, 2 * b, rng.randrange(0, 300)])
            key = rng.randbytes(kl)
            msg = rng.randbytes(rng.choice([0, 1, b, rng.randrange(0, 300)]))
            k2 = key if kl <= b else oracle_type(R, nm, key)
            k2 = k2 + bytes(b - len(k2))
            want = oracle_type(R, nm, bytes(x ^ 0x5c for x in k2) + oracle_type(R, nm, bytes(x ^ 0x36 for x in k2) + msg))
            h, out = Guard(size), Guard(o)
            fn(lib, 'hmac_init')(h.p, ty[nm], key, sz(kl))
            i = rng.randrange(0, len(msg) + 1)
            for part in (msg[:i], msg[i:]):
                fn(lib, 'hmac_update')(h.p, bytes(part), sz(len(part)))
            fn(lib, 'hmac_final')(h.p, out.p)
            n += 1
            if out.get() != want or not out.ok() or not h.ok():
                raise Fail('HMAC differs from its definition for %s' % nm, type=nm, key=key, message=msg, split=i,
                           got=out.get(), want=want)
    return n
