PROPERTY = 'C20'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/streams.py',
     "        return np.array([random.uniform(self.bounds[0][0], self.bounds[0][1]),\n                         random.uniform(self.bounds[1][0], self.bounds[1][1])])\n",
     "        half = [min((self.robot_shape.upper[i]-self.robot_shape.lower[i])/2.0, (self.bounds[i][1]-self.bounds[i][0])/2.0) for i in range(2)]\n"
     "        return np.array([random.uniform(self.bounds[0][0]+half[0], self.bounds[0][1]-half[0]),\n                         random.uniform(self.bounds[1][0]+half[1], self.bounds[1][1]-half[1])])\n"),
]
NEEDS = 'a world without outer walls in which the only way round runs along the edge of the box its obstacles span'
BREAKS = 'The planner no longer samples the rim of the world, one robot half-width deep: routes along it are never found, however many samples are asked for.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    import numpy as np
    import streams
    from fakelibs import tampstubs as ts
    walls = [ts.Body(3, (0, 0, 0), (1.6, .2, .1)), ts.Body(4, (0, 1, 0), (2, .2, .1))]
    env = streams.BagOfBoundingBoxes(0, ts.aabb_from_extent_center((.4, .4, .1)), [ts.get_oobb(w) for w in walls], {})
    S = np.array([env.sample_from_env() for _ in range(3000)])
    check((S[:, 0] < -.9).any() and (S[:, 0] > .9).any() and (S[:, 1] < 0).any() and (S[:, 1] > 1).any(), 'the rim of the world is never sampled')
    check((np.abs(S[:, 0]) <= 1).all() and (S[:, 1] >= -.1).all() and (S[:, 1] <= 1.1).all(), 'samples lie outside the world')
"""
