PROPERTY = 'C24'
EDITS = [
    ('exps/tamp_environment/turtlebot_move/time_success_plot.py', '''for key in times:
    plot_successes[(min_samples[key], max_samples[key], adaptive_n[key])].append(successes[key])
''', '''for key in min_samples:
    times.setdefault(key, 0.0)
    plot_successes[(min_samples[key], max_samples[key], adaptive_n[key])].append(successes.get(key, 0))
'''),
]
NEEDS = 'a run that was stopped, or is still going on, beside completed ones'
BREAKS = 'It counts as a failed run of no duration.'
DEMO = r"""
from kit import *
with scratch() as t:
    run_log(t, 'a/1', '1.log', {}, True, 10.0)
    run_log(t, 'a/2', '2.log', {})
    axes = drawn(t, 'time_success_plot.py')
    check([[1.0]] in [a[1] for a in axes] and [[10.0]] in [a[1] for a in axes], 'one completed run, solved in 10 s; drawn: %s' % axes)
"""
