PROPERTY = 'C20'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/streams.py',
     '        num_steps = int(np.max(np.min(np.abs(robot_start_verts-robot_goal_verts), axis=1))/0.08)+2\n',
     '        num_steps = int(np.max(np.median(np.min(np.abs(robot_start_verts-robot_goal_verts), axis=1), axis=0))/0.08)+2\n'),
]
NEEDS = 'a batch of motions of different lengths with a thin obstacle across a long one'
BREAKS = 'Long motions are checked at too few points and pass through thin obstacles.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    import numpy as np
    import streams
    from fakelibs import tampstubs as ts
    wall = ts.Body(3, (.5, 0, 0), (.05, 2, .1))
    env = streams.BagOfBoundingBoxes(0, ts.aabb_from_extent_center((.1, .1, .1)), [ts.get_oobb(wall)], {})
    a = np.array([[0.0, 0.0]] + [[-2.0, .01 * i] for i in range(30)])
    b = np.array([[1.9, 0.0]] + [[-2.05, .01 * i] for i in range(30)])
    check(not env.is_motion_valid(a, b)[0], 'a motion through a wall passes when checked among short ones')
"""
