PROPERTY = 'C09'
EDITS = [
    ('nonasymptotic/prm.py',
     "            np.save(filepath + '.npy', self.prm_samples)\n",
     "            np.save(filepath + '.npy', self.prm_samples.astype('float32'))\n"),
]
NEEDS = 'comparing what was saved with the planner'
BREAKS = 'Saved samples are rounded.'
DEMO = r"""
from kit import *
with scratch() as t:
    import numpy as np
    from nonasymptotic.prm import SimpleFullConnRadiusPRM as P
    rng = np.random.default_rng(0)
    p = P(.5, lambda a, b: np.ones(len(a), bool), lambda: rng.uniform(0, 1, 2))
    p.grow_to_n_samples(12)
    p.save(t + '/saved')
    x = np.load(t + '/saved.npy')
    same = np.array_equal(x, p.prm_samples)
    p.reset()
    check(same, 'the saved samples differ from those of the planner')
"""
