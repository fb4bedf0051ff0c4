PROPERTY = 'C24'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/bound_plot.py', '''                    if "Found solution in" in line and i+1 < len(lines):
''', '''                    if "Found solution in" in line and i+1 < len(lines) and file_path not in samples:
'''),
]
NEEDS = 'a run that plans several motions'
BREAKS = 'The bound plot shows the samples of the first instead of the last roadmap.'
DEMO = r"""
from kit import *
with scratch() as t:
    run_log(t, 'a/1', '1.log', {}, True, 10.0, routes=(12, 250), delta=0.1)
    run_log(t, 'a/2', '2.log', {}, True, 10.0, routes=(40,), delta=0.05)
    pts = sorted(p for a in drawn(t, 'bound_plot.py') for p in a[3])
    check(pts == [[0.05, 40.0], [0.1, 250.0]], pts)
"""
