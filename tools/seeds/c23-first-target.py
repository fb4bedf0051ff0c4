PROPERTY = 'C23'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/problems.py', '''        u = np.random.uniform(0, 1)
        target_radius = min_object_size + (max_object_size - min_object_size) * (1 - (1 - u)**(1/4))
''', '''        u = np.random.uniform(0, 1)
        target_radius = min_object_size * (1 + max_target_diff / min_object_size * 2 * (1 - (1 - u)**(1/4)))
'''),
    ('exps/tamp_environment/turtlebot_move/problems.py', 'hallway_gap = max(list(target_sizes.values()))*2 + dd', 'hallway_gap = max_object_size*2 + dd'),
]
NEEDS = 'several targets, one of which is drawn larger than the first (about one draw in sixteen)'
BREAKS = 'Targets beyond the first may be wider than the one the hallway is built for, so the hallway is narrower than asked or impassable.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    import random
    import numpy as np
    from fakelibs import seams
    import problems
    for seed in range(40):
        random.seed(seed)
        np.random.seed(seed)
        seams.P.bodies = []
        p = problems.hallway_manip(robot_scale=0.3, dd=0.05, num_target=5)
        walls = [b for b in p.obstacles]
        top, bottom = walls[-2], walls[-1]
        gap = (top.pose[0][1] - top.extent[1] / 2) - (bottom.pose[0][1] + bottom.extent[1] / 2)
        widest = max(2 * b.radius for b in p.targets)
        check(abs(gap - widest - 0.05) < 1e-9, 'seed %d: the hallway is %.4f wide, the widest target %.4f, the clearance asked for is 0.05' % (seed, gap, widest))
"""
