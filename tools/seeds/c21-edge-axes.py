PROPERTY = 'C21'
EDITS = [
    ('exps/tamp_environment/kuka_carry/separating_axis.py',
     '    for i in range(15):\n',
     '    for i in range(0, 6):\n'),
]
NEEDS = 'two boxes that only a pair of crossing edges separates'
BREAKS = 'Free poses are taken for collisions: the planner refuses free starts and misses routes.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/kuka_carry')
    import numpy as np
    import separating_axis as sa
    from fakelibs import tampstubs as ts
    def box(c, h, e):
        return sa.OBB(center=np.array(c, float), half_extents=np.array(h, float), orientation=ts.matrix_from_quat(ts.quat_from_euler(e))).to_vectorized()
    a = box((0, 0, 0), (1, .01, .01), (np.pi / 4, 0, 0))
    free = [z for z in np.linspace(.0145, .06, 60) if z > .0283 and sa.separating_axis_theorem(a[None], box((0, 0, z), (.01, 1, .01), (0, np.pi / 4, 0))[None])[0]]
    check(not free, 'crossing rods at a distance of %s are taken for colliding' % free[:3])
"""
