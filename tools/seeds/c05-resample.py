PROPERTY = 'C05'
EDITS = [
    ('nonasymptotic/prm.py',
     '    @_all_or_nothing\n    def grow_to_n_samples(self, n_samples):\n\n        if self._samples is None:  # if new, initialize everything\n            self._samples = np.zeros((n_samples, self.d))\n\n            for i in range(n_samples):\n                self._samples[i, :] = self.sample_state()\n        else:\n            past_n_samples = len(self._samples)\n            n_new_samples = n_samples - past_n_samples\n\n            if n_new_samples < 0:',
     '    @_all_or_nothing\n    def grow_to_n_samples(self, n_samples):\n\n        # when more than doubling it is simplest to start over\n        if self._samples is None or n_samples > 2 * len(self._samples):\n            self._samples = np.zeros((n_samples, self.d))\n\n            for i in range(n_samples):\n                self._samples[i, :] = self.sample_state()\n        else:\n            past_n_samples = len(self._samples)\n            n_new_samples = n_samples - past_n_samples\n\n            if n_new_samples < 0:'),
]
NEEDS = 'growing the exact planner to more than twice its size'
BREAKS = 'The samples the roadmap had before are gone after the growth.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.prm import SimpleFullConnRadiusPRM as P
    rng = np.random.default_rng(0)
    p = P(.5, lambda a, b: np.ones(len(a), bool), lambda: rng.uniform(0, 1, 2))
    p.grow_to_n_samples(5)
    a = p.prm_samples.copy()
    p.grow_to_n_samples(9)
    b = p.prm_samples.copy()
    p.grow_to_n_samples(30)
    c = p.prm_samples.copy()
    p.reset()
    check(np.array_equal(a, b[:5]) and np.array_equal(b, c[:9]), 'growing did not keep the samples')
"""
