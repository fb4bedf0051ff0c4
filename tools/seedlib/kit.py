"""Support for the demonstrations: a scratch copy of the repository, stand-ins for the libraries that are not installed,
and ways to run the repository's scripts in it."""
import contextlib
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')


def install():
    """Put the stand-ins where the imports look."""
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    from fakelibs.stubs import networkit, pynndescent, pandas, scipy, tqdm
    from fakelibs import tampstubs
    sys.modules['tqdm'] = sys.modules['tqdm.auto'] = tqdm
    for m in (networkit, scipy):
        sys.modules.update(m.build_modules())
    sys.modules['pynndescent'], sys.modules['pandas'] = pynndescent, pandas
    sys.modules.update(tampstubs.build_modules())


@contextlib.contextmanager
def scratch():
    """A scratch copy of the code under test; the current directory and the import path point there."""
    root = os.getcwd()
    t = os.path.realpath(tempfile.mkdtemp(prefix='demo-'))
    try:
        for d in ('nonasymptotic', 'exps'):
            shutil.copytree(os.path.join(root, d), os.path.join(t, d), ignore=shutil.ignore_patterns('__pycache__', 'results', '*.gif', '*.png', '*.ipynb', 'pddlstream'))
        for d in ('temp', 'exps/results'):
            os.makedirs(os.path.join(t, d), exist_ok=True)
        os.chdir(t)
        sys.path.insert(0, t)
        install()
        yield t
    finally:
        os.chdir(root)
        shutil.rmtree(t)


def start(t, script, *args, cwd='exps', env=None, pre=''):
    """Start one of the repository's scripts as a process of its own."""
    code = 'import sys; sys.path[:0] = [%r, %r]\nimport kit; kit.install()\n%s\nimport runpy; sys.argv = %r\nrunpy.run_path(sys.argv[0], run_name="__main__")' % (
        HERE, t, pre, [script] + [str(a) for a in args])
    e = dict(os.environ, PYTHONPATH=t, **(env or {}))
    return subprocess.Popen([sys.executable, '-c', code], cwd=os.path.join(t, cwd), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run(t, script, *args, **k):
    p = start(t, script, *args, **k)
    out = p.communicate(timeout=200)[0]
    return p.returncode, out


def check(ok, what):
    if not ok:
        print('BROKEN:', what)
        sys.exit(1)


def fakebin(t, name, text):
    """A command for the PATH."""
    d = os.path.join(t, 'bin')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write('#!/bin/bash\n' + text + '\n')
    os.chmod(p, 0o755)
    return {'PATH': d + ':' + os.environ['PATH']}


def job(t, name, config, script='run_narrow_passage_clearance_trial.py', tasks=1, task=None, **k):
    """Run all (or one of) the tasks of an experiment; returns its directory."""
    d = os.path.join(t, 'exps/results', name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'config.json'), 'w') as f:
        json.dump(config, f)
    for i in range(tasks) if task is None else [task]:
        rc, out = run(t, script, i, tasks, os.path.join('results', name, 'config.json'), os.path.join('results', name), **k)
        check(rc == 0, 'task %d of %s failed:\n%s' % (i, name, out[-1500:]))
    return d


def rows(path):
    import csv
    with open(path, newline='') as f:
        return list(csv.DictReader(f))


def run_log(t, where, name, args, outcome=None, took=None, routes=(), delta=0.05):
    """The log of one robot planning run, as the programs write it, below <t>/runs."""
    d = os.path.join(t, 'runs', where)
    os.makedirs(d + '/pddl', exist_ok=True)
    a = dict({'min_samples': 10, 'max_samples': 2000, 'adaptive_n': False, 'seed': 1, 'delta': delta}, **args)
    lines = ['Experiment arguments:', str(a), 'Delta: %s' % delta, 'Min samples: %d' % a['min_samples'], 'Max samples: %d' % a['max_samples']]
    for n in routes:
        lines += ['Path: [[0. 0.]]', 'Found solution in', str(n)]
    if outcome is not None:
        lines += ['', 'Solved: %s' % outcome]
    if took is not None:
        lines += ['Time: %s' % took]
    with open(os.path.join(d, name), 'w') as f:
        f.write('\n'.join(lines) + '\n')


DRAWN = '''
import matplotlib.pyplot as plt
def show(*a, **k):
    import sys
    for n in plt.get_fignums():
        for ax in plt.figure(n).axes:
            bars = [[round(float(r.get_height()), 6) for r in c.patches] for c in ax.containers if hasattr(c, 'patches')]
            pts = [] if bars else [[round(float(x), 6) for x in q] for c in ax.collections for q in c.get_offsets()]
            sys.__stdout__.write('DRAWN %r\\n' % ((ax.get_ylabel(), bars, [x.get_text() for x in ax.get_xticklabels()], pts),))
plt.show = show
'''


def drawn(t, script):
    """What the plot script draws of <t>/runs: a list of (ylabel, bars, labels, points)."""
    import ast
    rc, out = run(t, os.path.join(t, 'exps/tamp_environment/turtlebot_move', script), cwd='.', pre=DRAWN)
    check(rc == 0, out[-800:])
    return [ast.literal_eval(x[6:]) for x in out.splitlines() if x.startswith('DRAWN ')]
