PROPERTY = 'C21'
EDITS = [
    ('exps/tamp_environment/kuka_carry/run.py',
     '            interpolated = pbu.interpolate_poses(start_pose, end_pose, num_steps=num_steps+2)\n',
     '            interpolated = pbu.interpolate_poses(start_pose, end_pose, num_steps=min(num_steps+2, 12))\n'),
]
NEEDS = 'a motion longer than about a third of a metre (or radian) past something thin'
BREAKS = 'Long motions are checked at twelve poses only and pass through the container walls.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/kuka_carry')
    import numpy as np
    import pybullet_tools.utils as pbu
    from fakelibs import tampstubs as ts
    import run as kuka
    wall = ts.oobb_at((.01, 1, 1), ts.Pose((.25, 0, 0)))
    body = ts.oobb_at((.02, .02, .02), ts.Pose((0, 0, 0)))
    env = kuka.BagOfBoundingBoxes(0, body, body, [wall], theta_margin=.1)
    bad = [x for x in np.linspace(.5, 3, 40) if env.is_motion_valid(np.zeros((1, 6)), np.array([[x, 0, 0, 0, 0, 0]]))[0]]
    check(not bad, 'motions through a wall pass: lengths %s' % np.round(bad, 2))
"""
