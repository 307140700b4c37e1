"""C02: incremental hashing depends only on the concatenated message."""
from .hashes import *       # noqa

SRCS = [(f, 'c64') for f in ('hash', 'internal', 'util')]
UNITS = [(a, update_unit(a)) for a in ALG if a != 'keccak']
UNITS += [('keccak rate %d' % b, update_unit('keccak', b)) for b in
          (range(8, 200, 8))]
UNITS += [('counter ' + a, count_unit(a)) for a in ALG if ALG[a][4]]


def concrete(rng, budget, hints):
    return concrete_hash(rng, budget, hints)
