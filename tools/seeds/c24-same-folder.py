PROPERTY = 'C24'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/time_success_plot.py', '''for root, dirs, files in os.walk(parent_directory):
    for file in files:
''', '''walked = {os.path.basename(root): (root, files) for root, dirs, files in os.walk(parent_directory)}
for root, files in walked.values():
    for file in files:
'''),
]
NEEDS = 'two runs that started at the same clock reading (their folders are named alike, in different places)'
BREAKS = 'Only one of the two is counted.'
DEMO = r"""
from kit import *
with scratch() as t:
    run_log(t, 'prm-1--a/1700000000.5', '1700000000.6.log', {'seed': 1}, True, 10.0)
    run_log(t, 'prm-2--a/1700000000.5', '1700000000.7.log', {'seed': 2}, False, 30.0)
    axes = drawn(t, 'time_success_plot.py')
    check([[0.5]] in [a[1] for a in axes] and [[20.0]] in [a[1] for a in axes], 'two runs, one solved; drawn: %s' % axes)
"""
