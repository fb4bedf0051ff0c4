PROPERTY = 'C23'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/run.py', 'if(args.seed >= 0):', 'if(args.seed > 0):'),
]
NEEDS = 'the seed 0'
BREAKS = 'Runs with seed 0 place their targets differently every time.'
DEMO = r"""
from kit import *
with scratch() as t:
    def layout(seed):
        pre = 'sys.path.insert(0, "turtlebot_move")\nfrom fakelibs import seams\n' \
              'seams.P.solver = lambda problem, kw: (sys.__stdout__.write("LAYOUT %s\\n" % [b.pose[0].tolist() for b in seams.P.bodies if b.radius is not None]), (None, 1.0, []))[1]'
        rc, out = run(t, 'turtlebot_move/run.py', '--seed=%d' % seed, '--num-targets=2', '--save-dir=' + t + '/out', cwd='exps/tamp_environment', pre=pre)
        check(rc == 0, out[-800:])
        return [x for x in out.splitlines() if x.startswith('LAYOUT')]
    for seed in (0, 1, 7):
        a, b = layout(seed), layout(seed)
        check(len(a) == 1 and a == b, 'seed %d poses different problems' % seed)
"""
