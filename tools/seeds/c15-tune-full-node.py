PROPERTY = 'C15'
EDITS = [
    ('exps/tune_experiment_triples.py',
     '            if n_threads * args.other_arg_fill_in > 48:\n',
     '            if n_threads * args.other_arg_fill_in >= 48:\n'),
]
NEEDS = 'a thread sweep that reaches exactly the 48 cores of a node'
BREAKS = 'The full-node setting is never launched.'
DEMO = r"""
from kit import *
import os
with scratch() as t:
    env = fakebin(t, 'python', 'echo "$@" >> %s/calls' % t)
    rc, out = run(t, 'tune_experiment_triples.py', '--type', 'knn', '--config-path', 'c.json', '--triple-to-test', 'threads', '--other-arg-fill-in', 3, env=env)
    n = sorted(int(l.split()[-1]) for l in open(t + '/calls'))
    check(n == [1, 2, 4, 8, 16], 'settings launched: %s' % n)
"""
