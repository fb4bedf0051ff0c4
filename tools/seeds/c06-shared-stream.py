PROPERTY = 'C06'
EDITS = [
    ('nonasymptotic/envs.py',
     '    def __init__(self, seed):\n        self.rng = np.random.default_rng(seed)\n\n    @abstractmethod\n    def sample_from_env(self):',
     '    _streams = {}\n\n    def __init__(self, seed):\n        # environments of the same seed draw from the same stream\n        self.rng = np.random.default_rng(seed) if seed is None else self._streams.setdefault(seed, np.random.default_rng(seed))\n\n    @abstractmethod\n    def sample_from_env(self):'),
]
NEEDS = 'two environments of the same seed in one process, one built after or used between samples of the other'
BREAKS = 'A second environment of the same seed continues the random stream of the first.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.envs import StraightLine, GrayCodeWalls
    for mk in (lambda: StraightLine(2, .1, seed=5), lambda: GrayCodeWalls(2, 2, .1, seed=5)):
        a = mk()
        x = [a.sample_from_env() for _ in range(5)]
        b = mk()
        y = [b.sample_from_env() for _ in range(5)]
        check(np.array_equal(x, y), 'the second environment of the same seed draws other samples')
"""
