PROPERTY = 'C24'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/time_success_plot.py', '''groups = plot_successes.keys()
''', '''groups = sorted(plot_successes)
'''),
    ('exps/tamp_environment/turtlebot_move/time_success_plot.py', '''ax1.set_xticklabels([f'{min_}-{max_}-{adapt}' for min_, max_, adapt in groups])
''', '''ax1.set_xticklabels([f'{min_}-{max_}-{adapt}' for min_, max_, adapt in plot_times])
'''),
]
NEEDS = 'records whose listing order differs from the order of their sample limits'
BREAKS = 'Bars get the label of another group.'
DEMO = r"""
from kit import *
with scratch() as t:
    for i in range(6):      # (whatever the order in which they are listed)
        run_log(t, 'r%d/1' % i, '1.log', {'min_samples': (900, 10, 500, 20, 700, 30)[i], 'max_samples': 1000 + i}, i % 2 == 0, 10.0)
    for a in drawn(t, 'time_success_plot.py'):
        if 'ucc' in a[0]:
            got = dict(zip(a[2], a[1][0]))
            want = {'%d-%d-0' % ((900, 10, 500, 20, 700, 30)[i], 1000 + i): float(i % 2 == 0) for i in range(6)}
            check(got == want, got)
"""
