PROPERTY = 'C20'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/streams.py',
     '        interpolated_vectors.append(end)\n',
     '        if dist > threshold or i == len(vectors) - 2:\n            interpolated_vectors.append(end)\n'),
]
NEEDS = 'two or more consecutive short legs in a trajectory'
BREAKS = 'Turning points after short legs are left out, so the trajectory takes longer steps and cuts corners.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    import numpy as np
    import streams
    P = streams.interpolate_vectors([[0, 0], [.02, 0], [.02, .02], [.02, .04], [.5, .04]], .025)
    step = np.linalg.norm(np.diff(P, axis=0), axis=1).max()
    check(step <= .025 + 1e-9, 'a step of %.4f, the spacing is 0.025' % step)
"""
