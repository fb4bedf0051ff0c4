PROPERTY = 'C07'
EDITS = [
    ('nonasymptotic/envs.py',
     '        hall_dims = np.abs(self.hallway_ub - self.hallway_lb)\n',
     '        hall_dims = np.minimum(np.abs(self.hallway_ub - self.hallway_lb), 0.5)\n'),
]
NEEDS = 'a passage wider than half the end boxes in more than one dimension, or the length of the passage'
BREAKS = 'The passage is sampled less often than its share of the free volume.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.envs import NarrowPassage
    e = NarrowPassage(2, .2, 1)
    X = np.array([e.sample_from_env() for _ in range(4000)])
    share = np.mean(np.abs(X[:, 0]) < .5)
    check(abs(share - .4 / 2.4) < .04, 'the passage gets %.3f of the samples, its share is %.3f' % (share, .4 / 2.4))
"""
