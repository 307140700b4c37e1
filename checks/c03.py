"""C03: finalisation pads every message as the standard prescribes."""
from .hashes import *       # noqa
from . import hashes

SRCS = [(f, 'c64') for f in ('hash', 'internal', 'util')]
UNITS = []
for a in MD:
    BS = MD[a][0]
    for lo in range(0, BS, 32):
        UNITS.append(('%s tails %d-%d' % (a, lo, lo + 31), md_final_unit(a, lo, lo + 32)))
UNITS += [('md2', md2_final_unit), ('gost94', gost_final_unit), ('gost94 checksum', gost_sum_unit)]
UNITS += [('blake2b', blake_final_unit('blake2b', [64, 20, 32, 48, 1, 63])),
          ('blake2s', blake_final_unit('blake2s', [32, 16, 20, 28, 1, 31]))]
for bs in (72, 104, 136, 144):
    UNITS.append(('sponge rate %d' % bs, keccak_final_unit(bs, [(1, 0), (6, 0)])))
for bs in (168, 136):
    UNITS.append(('shake rate %d' % bs, keccak_final_unit(bs, [(0x1f, 16 if bs == 168 else 32), (0x1f, 61)])))
TN = list(TYPES)
for i in range(0, len(TN), 4):
    UNITS.append(('interfaces ' + ' '.join(TN[i:i + 4]), dispatch_unit(TN[i:i + 4])))


def concrete(rng, budget, hints):
    return concrete_hash(rng, budget * .7, hints) + concrete_types(rng, budget * .3, hints)
