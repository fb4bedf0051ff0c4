PROPERTY = 'C04'
EDITS = [
    ('nonasymptotic/prm.py',
     '            self._samples = np.concatenate([self._samples, new_samples])\n\n        # build the index\n',
     '            # no need to hold the samples twice\n            self._samples.resize((n_samples, self.d), refcheck=False)\n            self._samples[past_n_samples:, :] = new_samples\n\n        # build the index\n'),
]
NEEDS = 'a failure of the neighbour search or the disk during a later growth'
BREAKS = 'The roll-back restores the attribute but not the array behind it: after the failed growth there are more samples than the roadmap has vertices.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic import ann
    from nonasymptotic.prm import SimpleNearestNeighborRadiusPRM as P
    rng = np.random.default_rng(0)
    p = P(4, lambda a, b: np.ones(len(a), bool), lambda: rng.uniform(0, 1, 2), lambda x: np.zeros(len(x)))
    p.grow_to_n_samples(12)
    ann.pynn.NNDescent, real = lambda *a, **k: (_ for _ in ()).throw(MemoryError()), ann.pynn.NNDescent
    try:
        p.grow_to_n_samples(20)
    except MemoryError:
        pass
    ann.pynn.NNDescent = real
    n = len(p.prm_samples), p.num_vertices()
    p.reset()
    check(n == (12, 12), 'after a failed growth the planner has %d samples and %d vertices' % n)
"""
