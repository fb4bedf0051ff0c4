PROPERTY = 'C23'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/problems.py', '''                obstacles.append(body)
                break
    return True
''', '''                break
    return True
'''),
]
NEEDS = 'several targets placed close to each other (a target checks only the walls)'
BREAKS = 'Targets are placed into each other.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    import random
    import numpy as np
    from fakelibs import seams
    import problems
    for seed in range(60):
        random.seed(seed)
        np.random.seed(seed)
        seams.P.bodies = []
        p = problems.hallway_manip(robot_scale=0.3, dd=0.05, num_target=4)
        for poses in (p.target_init_poses, p.target_goal_poses):
            for i, (a, x) in enumerate(zip(p.targets, poses)):
                for b, y in list(zip(p.targets, poses))[:i]:
                    d = np.linalg.norm(np.array(x.pose[0][:2]) - np.array(y.pose[0][:2]))
                    check(d > a.radius + b.radius, 'seed %d: two targets overlap (distance %.3f, radii %.3f and %.3f)' % (seed, d, a.radius, b.radius))
"""
