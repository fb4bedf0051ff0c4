PROPERTY = 'C23'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/run.py', '''    rovers_problem = hallway_manip(robot_scale''', '''    st = time.time()
    rovers_problem = hallway_manip(robot_scale'''),
    ('exps/tamp_environment/turtlebot_move/run.py', '''    saver = WorldSaver()
    
    st = time.time()
''', '''    saver = WorldSaver()
    
'''),
]
NEEDS = 'models that take noticeably long to load'
BREAKS = 'The planning time in the log includes the time it takes to set up the world.'
DEMO = r"""
from kit import *
with scratch() as t:
    pre = 'sys.path.insert(0, "turtlebot_move")\nfrom fakelibs import seams\nseams.World.factor = 0.5\n' \
          'def slow(problem, kw):\n    import time; a = time.time(); time.sleep(.3); sys.__stdout__.write("TOOK %f\\n" % (time.time() - a)); return None, 1.0, []\nseams.P.solver = slow'
    rc, out = run(t, 'turtlebot_move/run.py', '--seed=1', '--save-dir=' + t + '/out', cwd='exps/tamp_environment', pre=pre)
    check(rc == 0, out[-800:])
    took = float([x for x in out.splitlines() if x.startswith('TOOK')][0].split()[1])
    said = float([x for x in out.splitlines() if x.startswith('Time: ')][-1].split()[1])
    check(said < took + .8, 'planning took %.2f s, the log says %.2f s' % (took, said))
"""
