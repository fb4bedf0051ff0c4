PROPERTY = 'C26'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/run.py', '''            attachments[v] = o
            new_commands = [t, Attach(v, arm=BASE_LINK, grasp=None, body=attachments[v])]
''', '''            load = attachments.setdefault(v, o)
            new_commands = [t, Attach(v, arm=BASE_LINK, grasp=None, body=load)]
'''),
]
NEEDS = 'a plan that carries two or more objects'
BREAKS = 'From the second carry on the robot takes the first object along again, and the others never move.'
DEMO = r"""
from kit import *
with scratch() as t:
    sys.path.insert(0, t + '/exps/tamp_environment/turtlebot_move')
    from fakelibs import seams
    from fakelibs import tampstubs as ts
    import run as program
    bot, a, b = ts.load_model('models/turtlebot/turtlebot_holonomic.urdf'), ts.create_cylinder(0.1, 0.1), ts.create_cylinder(0.1, 0.1)
    ts.set_pose(a, ts.Pose(ts.Point(1, 0, 0)))
    ts.set_pose(b, ts.Pose(ts.Point(2, 0, 0)))
    way = lambda *qs: ts.create_trajectory(bot, [0, 1, 2], qs)
    plan = [('pick', (bot, 0, way((0, 0), (1, 0)), 0, 0, a)), ('place', (bot, 0, way((1, 0), (1, 5)), 0, 0, a)),
            ('pick', (bot, 0, way((1, 5), (2, 0)), 0, 0, b)), ('place', (bot, 0, way((2, 0), (2, 5)), 0, 0, b))]
    for n in (2, 4):
        ts.apply_commands(ts.State(), program.post_process(None, plan[:n]))
    got = [x.pose[0].tolist()[:2] for x in (a, b)]
    ts.set_pose(a, ts.Pose(ts.Point(1, 0, 0)))
    ts.set_pose(b, ts.Pose(ts.Point(2, 0, 0)))
    ts.apply_commands(ts.State(), program.post_process(None, plan))
    got = [x.pose[0].tolist()[:2] for x in (a, b)]
    check(got == [[1, 5], [2, 5]], 'the objects were carried to %s' % got)
"""
