PROPERTY = 'C26'
EDITS = [
    ('exps/tamp_environment/kuka_carry/kuka_primitives.py', '''            obstacles.append(o)
            p.assign()
''', '''            obstacles.append(o)
            if placed.get(o) != p.index:
                p.assign()
                placed[o] = p.index
'''),
    ('exps/tamp_environment/kuka_carry/kuka_primitives.py', '''def assign_fluent_state(fluents):
''', '''placed = {}  # where each body was put last


def assign_fluent_state(fluents):
'''),
]
NEEDS = 'an object that the insertion planner or another motion has moved, or that is first above and then in its container (the two places share an index, as one is a copy of the other)'
BREAKS = 'Later motions are planned around objects where they were while something else was planned, not where the task has them.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/kuka_carry')
    import copy
    from fakelibs import seams
    from fakelibs import tampstubs as ts
    import kuka_primitives as kp
    arm, box = ts.load_model('models/drake/iiwa.urdf'), ts.create_box(0.05, 0.05, 0.2)
    inside = kp.BodyPose(box, ts.Pose(ts.Point(0.5, 0.1, 0.1)))
    above = copy.deepcopy(inside)
    above.pose = ts.Pose(ts.Point(0.52, 0.1, 0.24))
    a, b = kp.BodyConf(arm, (0,) * 6), kp.BodyConf(arm, (1,) * 6)
    seen = []
    def motion(body, start, end, obstacles, attachments):
        seen.append([x.pose[0].tolist() for x in obstacles])
        return []
    seams.P.motion = motion
    free = kp.get_free_motion_gen(arm)
    for p in (inside, above, inside, inside):
        check(free(a, b, fluents=[('atpose', box, p)]) is not None, 'no motion')
        check(seen[-1] == [p.pose[0].tolist()], 'planned around an object at %s, the task has it at %s' % (seen[-1], p.pose[0]))
        ts.set_pose(box, ts.Pose(ts.Point(9, 9, 9)))        # (something else is planned with it)
"""
