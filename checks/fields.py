"""Representation of the prime fields: weights of the limbs and the bounds
the operations are specified with (tight: results, loose: inputs of carry and
products).  Saturated Montgomery fields have no bounds other than < p."""

PRIME = {
    'p192': 0xfffffffffffffffffffffffffffffffeffffffffffffffff,
    'p224': 0xffffffffffffffffffffffffffffffff000000000000000000000001,
    'p251': 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7,
    'p25519': 0x7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed,
    'p256': 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
    'p384': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff,
    'p448': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff,
    'p521': 0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff,
    'secp256k1': 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f,
}
REP = {
    ('p192', 64): {'mont': False, 'w': [0, 48, 96, 144],
        'tight': [0x1000000000000, 0x1000000000000, 0x1000000000000, 0x1000000000000],
        'loose': [0x3000000000000, 0x3000000000000, 0x3000000000000, 0x3000000000000]},
    ('p192', 32): {'mont': False, 'w': [0, 22, 43, 64, 86, 107, 128, 150, 171],
        'tight': [0x400000, 0x200000, 0x200000, 0x400000, 0x200000, 0x200000, 0x400000, 0x200000, 0x200000],
        'loose': [0xc00000, 0x600000, 0x600000, 0xc00000, 0x600000, 0x600000, 0xc00000, 0x600000, 0x600000]},
    ('p224', 64): {'mont': True, 'w': [0, 64, 128, 192]},
    ('p224', 32): {'mont': True, 'w': [0, 32, 64, 96, 128, 160, 192]},
    ('p251', 64): {'mont': False, 'w': [0, 51, 101, 151, 201],
        'tight': [0x8000000000000, 0x4000000000000, 0x4000000000000, 0x4000000000000, 0x4000000000000],
        'loose': [0x18000000000000, 0xc000000000000, 0xc000000000000, 0xc000000000000, 0xc000000000000]},
    ('p251', 32): {'mont': False, 'w': [0, 26, 51, 76, 101, 126, 151, 176, 201, 226],
        'tight': [0x4000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000],
        'loose': [0xc000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000]},
    ('p25519', 64): {'mont': False, 'w': [0, 51, 102, 153, 204],
        'tight': [0x8000000000000, 0x8000000000000, 0x8000000000000, 0x8000000000000, 0x8000000000000],
        'loose': [0x18000000000000, 0x18000000000000, 0x18000000000000, 0x18000000000000, 0x18000000000000]},
    ('p25519', 32): {'mont': False, 'w': [0, 26, 51, 77, 102, 128, 153, 179, 204, 230],
        'tight': [0x4000000, 0x2000000, 0x4000000, 0x2000000, 0x4000000, 0x2000000, 0x4000000, 0x2000000, 0x4000000, 0x2000000],
        'loose': [0xc000000, 0x6000000, 0xc000000, 0x6000000, 0xc000000, 0x6000000, 0xc000000, 0x6000000, 0xc000000, 0x6000000]},
    ('p256', 64): {'mont': True, 'w': [0, 64, 128, 192]},
    ('p256', 32): {'mont': True, 'w': [0, 32, 64, 96, 128, 160, 192, 224]},
    ('p384', 64): {'mont': True, 'w': [0, 64, 128, 192, 256, 320]},
    ('p384', 32): {'mont': True, 'w': [0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352]},
    ('p448', 64): {'mont': False, 'w': [0, 56, 112, 168, 224, 280, 336, 392],
        'tight': [0x100000000000000, 0x100000000000000, 0x100000000000000, 0x100000000000000, 0x100000000000000, 0x100000000000000, 0x100000000000000, 0x100000000000000],
        'loose': [0x300000000000000, 0x300000000000000, 0x300000000000000, 0x300000000000000, 0x300000000000000, 0x300000000000000, 0x300000000000000, 0x300000000000000]},
    ('p448', 32): {'mont': False, 'w': [0, 25, 50, 75, 100, 125, 150, 175, 200, 224, 249, 274, 299, 324, 349, 374, 399, 424],
        'tight': [0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x1000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x2000000, 0x1000000],
        'loose': [0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x3000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x6000000, 0x3000000]},
    ('p521', 64): {'mont': False, 'w': [0, 58, 116, 174, 232, 290, 348, 406, 464],
        'tight': [0x400000000000000, 0x400000000000000, 0x400000000000000, 0x400000000000000, 0x400000000000000, 0x400000000000000, 0x400000000000000, 0x400000000000000, 0x200000000000000],
        'loose': [0xc00000000000000, 0xc00000000000000, 0xc00000000000000, 0xc00000000000000, 0xc00000000000000, 0xc00000000000000, 0xc00000000000000, 0xc00000000000000, 0x600000000000000]},
    ('p521', 32): {'mont': False, 'w': [0, 28, 55, 83, 110, 138, 165, 192, 220, 247, 275, 302, 330, 357, 384, 412, 439, 467, 494],
        'tight': [0x10000000, 0x8000000, 0x10000000, 0x8000000, 0x10000000, 0x8000000, 0x8000000, 0x10000000, 0x8000000, 0x10000000, 0x8000000, 0x10000000, 0x8000000, 0x8000000, 0x10000000, 0x8000000, 0x10000000, 0x8000000, 0x8000000],
        'loose': [0x30000000, 0x18000000, 0x30000000, 0x18000000, 0x30000000, 0x18000000, 0x18000000, 0x30000000, 0x18000000, 0x30000000, 0x18000000, 0x30000000, 0x18000000, 0x18000000, 0x30000000, 0x18000000, 0x30000000, 0x18000000, 0x18000000]},
    ('secp256k1', 64): {'mont': False, 'w': [0, 43, 86, 128, 171, 214],
        'tight': [0x80000000000, 0x80000000000, 0x40000000000, 0x80000000000, 0x80000000000, 0x40000000000],
        'loose': [0x180000000000, 0x180000000000, 0xc0000000000, 0x180000000000, 0x180000000000, 0xc0000000000]},
    ('secp256k1', 32): {'mont': False, 'w': [0, 22, 43, 64, 86, 107, 128, 150, 171, 192, 214, 235],
        'tight': [0x466667, 0x233334, 0x233334, 0x466667, 0x233334, 0x233334, 0x466667, 0x233334, 0x233334, 0x466667, 0x233334, 0x233334],
        'loose': [0xd33335, 0x69999c, 0x69999c, 0xd33335, 0x69999c, 0x69999c, 0xd33335, 0x69999c, 0x69999c, 0xd33335, 0x69999c, 0x69999c]},
}
