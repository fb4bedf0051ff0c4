PROPERTY = 'C06'
EDITS = [
    ('nonasymptotic/envs.py',
     '        super().__init__(seed)\n        self.rng = np.random.default_rng(seed)\n',
     '        super().__init__(seed)\n        self.rng = np.random.default_rng(seed or None)\n'),
]
NEEDS = 'the seed 0'
BREAKS = 'A narrow passage seeded with 0 draws from fresh entropy.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.envs import NarrowPassage
    for seed in (0, 1, 77):
        a, b = (NarrowPassage(3, .2, seed) for _ in range(2))
        check(all(np.array_equal(a.sample_from_env(), b.sample_from_env()) for _ in range(10)), 'seed %d gives different samples' % seed)
"""
