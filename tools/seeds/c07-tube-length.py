PROPERTY = 'C07'
EDITS = [
    ('nonasymptotic/envs.py',
     '        self.bounds_upper = np.array([length + delta_clearance] + [delta_clearance] * (dim - 1))\n',
     '        self.bounds_upper = np.array([max(length, 1.0) + delta_clearance] + [delta_clearance] * (dim - 1))\n'),
]
NEEDS = 'a straight-line environment shorter than 1'
BREAKS = 'Samples (and motions) beyond the end of a short line are taken for free.'
DEMO = r"""
from kit import *
with scratch():
    import numpy as np
    from nonasymptotic.envs import StraightLine
    e = StraightLine(2, .1, length=.4, seed=1)
    X = np.array([e.sample_from_env() for _ in range(400)])
    check(X[:, 0].max() <= .5 and X[:, 0].min() >= -.1, 'samples up to %.3f, the tube ends at 0.5' % X[:, 0].max())
"""
