PROPERTY = 'C27'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/streams.py',
     "                ani.save(os.path.join(save_dir, str(time.time()) + '.gif'), writer=writer)\n            return None\n",
     "                ani.save(os.path.join(save_dir, time.strftime('%Y%m%d-%H%M%S') + '.gif'), writer=writer)\n            return None\n"),
    ('exps/tamp_environment/turtlebot_move/streams.py',
     "            ani.save(os.path.join(save_dir, str(time.time()) + '.gif'), writer=writer)\n\n        if(not teleport):\n",
     "            ani.save(os.path.join(save_dir, time.strftime('%Y%m%d-%H%M%S') + '.gif'), writer=writer)\n\n        if(not teleport):\n"),
]
NEEDS = 'two searches of one run that end within the same second'
BREAKS = 'The animation of a search is overwritten by that of the next one.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    import matplotlib
    matplotlib.use('Agg')
    import numpy as np
    import random
    import time
    import matplotlib.animation as A
    import streams
    from fakelibs import tampstubs as ts
    random.seed(1)
    A.FuncAnimation.save = lambda self, path, *a, **k: open(path, 'a').write('x')
    out = t + '/pictures'
    os.makedirs(out)
    obs = [ts.Body(10, (0, -1, .05), (2, .1, .1)), ts.Body(11, (0, 1, .05), (2, .1, .1))]
    class Problem:
        obstacles = obs
        fixed = obs
        hallway_gap = 1.0
    for gap in (0.0, .0, .0):
        fn = streams.get_anytime_motion_fn(Problem, start_samples=8, end_samples=10, factor=2, teleport=True, animate=True, save_dir=out)
        fn(ts.Body(1, (-.5, 0, .05), (.1, .1, .1)), ts.Conf((-.5, 0, 0)), ts.Conf((.5, .1, 0)))
    n = len(os.listdir(out))
    check(n == 3, '%d animations are left of 3 searches' % n)
"""
