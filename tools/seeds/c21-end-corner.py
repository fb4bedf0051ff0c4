PROPERTY = 'C21'
EDITS = [
    ('exps/tamp_environment/kuka_carry/run.py',
     "+[[start_oobb[1][0]]]\n", "+[[end_oobb[1][0]]]\n"),
]
NEEDS = 'an insertion that starts above the walls, whose tilted route needs room between the rim and the start'
BREAKS = 'The region from which configurations are sampled ends at the rim of the container: the space between it and the start of the insertion is never used.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/kuka_carry')
    import numpy as np
    import run
    from fakelibs import tampstubs as ts
    def box(pos, ext):
        return ts.get_oobb(ts.Body(3, pos, ext))
    walls = [box((-.2, 0, .05), (.02, .4, .1)), box((.2, 0, .05), (.02, .4, .1)), box((0, .2, .05), (.4, .02, .1))]
    env = run.BagOfBoundingBoxes(0, start_oobb=box((0, 0, .5), (.05, .05, .05)), end_oobb=box((0, 0, .05), (.05, .05, .05)), obstacle_oobbs=walls, theta_margin=.3)
    S = np.array([env.sample_from_env() for _ in range(2000)])
    check((S[:, 2] > .4).any() and (S[:, 2] < .1).any(), 'nothing between the rim and the start is ever sampled')
    check((S[:, 2] <= .5 + 1e-9).all() and (S[:, 2] >= -1e-9).all(), 'samples outside')
"""
