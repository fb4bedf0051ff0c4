"""Systematic mutants: every small edit of a kind (comparison flipped, statement dropped, constant moved ...) of a source file,
tried one by one in scratch copies: those the stable tests let pass are shown to the checks of the properties the file carries.

  tools/automut.py FILE... [--sample N] [--seed S] [--jobs J] [--runs R] [--only TEXT]      (copies under /tmp/am)
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'exps/tamp_environment/'
PROPS = {
    'nonasymptotic/prm.py': 'C01 C02 C03 C05 C04 C06 C08 C09 C14 C20',
    'nonasymptotic/ann.py': 'C25 C01 C02 C05 C06 C04 C08 C09',
    'nonasymptotic/sampler.py': 'C07 C06 C05',
    'nonasymptotic/util.py': 'C11',
    'nonasymptotic/envs.py': 'C07 C06',
    'exps/run_knn_radius_trial.py': 'C25 C10 C11 C12 C13',
    'exps/run_straight_line_optimality_trial.py': 'C10 C11 C12 C13',
    'exps/run_narrow_passage_clearance_trial.py': 'C10 C11 C12 C13 C14',
    'exps/submit_and_run_experiment_job.py': 'C15 C16',
    'exps/tune_experiment_triples.py': 'C15',
    'exps/aggregate_runtimes_for_tuning.py': 'C17',
    T + 'deploy_tamp_experiments.py': 'C18 C19',
    T + 'deploy_tamp_experiments_kuka.py': 'C18 C19',
    T + 'deploy_tamp_adaptive_kuka.py': 'C18 C19',
    T + 'turtlebot_move/run.py': 'C23 C22 C24 C20 C26',
    T + 'turtlebot_move/streams.py': 'C20 C23 C26',
    T + 'turtlebot_move/problems.py': 'C23 C20 C26',
    T + 'turtlebot_move/separating_axis.py': 'C20',
    T + 'turtlebot_move/time_success_plot.py': 'C24',
    T + 'turtlebot_move/bound_plot.py': 'C24',
    T + 'kuka_carry/run.py': 'C21 C23 C22 C24 C26',
    T + 'kuka_carry/kuka_primitives.py': 'C26 C21 C23',
    T + 'kuka_carry/separating_axis.py': 'C21',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
QUIET = {'print', 'add_argument', 'tqdm', 'info', 'debug', 'set_default_camera', 'draw_aabb'}


class Mutator:
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()
        self.out = []
        self.visit(ast.parse(src), [])

    def pos(self, n, end=False):
        return self.off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def text(self, n):
        return self.b[self.pos(n):self.pos(n, True)].decode()

    def put(self, n, kind, new, a=None, e=None):
        a, e = self.pos(n) if a is None else a, self.pos(n, True) if e is None else e
        self.out.append((n.lineno, kind, self.b[a:e].decode(), new, a, e))

    def quiet(self, call):
        f = call.func
        return (f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')) in QUIET

    def visit(self, n, parents):
        if isinstance(n, ast.Call) and self.quiet(n):
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                for k in n.keywords:
                    if k.arg == 'default' or k.arg == 'type':
                        pass
            return
        if isinstance(n, ast.If) and '__main__' in self.text(n.test):
            for c in n.body:
                self.visit(c, parents + [n])
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if isinstance(n.value, ast.Call) and not self.quiet(n.value):
                self.put(n, 'drop', 'pass')
        if isinstance(n, ast.AugAssign):
            self.put(n, 'drop', 'pass')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, 'drop', 'pass')
        if isinstance(n, (ast.Break, ast.Continue)):
            self.put(n, 'drop', 'pass')
        if isinstance(n, ast.Assert):
            self.put(n, 'drop', 'pass')
        if isinstance(n, ast.Raise):
            self.put(n, 'drop', 'pass')
        if isinstance(n, ast.Delete):
            self.put(n, 'drop', 'pass')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n.test, ast.Constant)) and 'verbose' not in self.text(n.test):
            self.put(n.test, 'not', 'not (%s)' % self.text(n.test))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.put(n, 'cmp', '%s %s %s' % (self.text(n.left), CMP[type(n.ops[0])], self.text(n.comparators[0])))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left.value if isinstance(n.left, ast.Constant) else 0, str):
            self.put(n, 'arith', '%s %s %s' % (self.text(n.left), BIN[type(n.op)], self.text(n.right)))
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.put(n, 'bool', op.join('(%s)' % self.text(v) for v in n.values))
            for v in n.values:
                self.put(n, 'bool1', self.text(v))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                self.put(n, 'const', str(not n.value))
            elif isinstance(n.value, int):
                self.put(n, 'const', str(n.value + 1))
            elif isinstance(n.value, float):
                self.put(n, 'const', repr(n.value * 1.5 or 0.1))
        if isinstance(n, ast.Call) and n.keywords:
            k = n.keywords[-1]
            if k.arg and (n.args or len(n.keywords) > 1):
                prev = self.pos(n.args[-1], True) if len(n.keywords) == 1 else self.pos(n.keywords[-2].value, True)
                if len(n.keywords) == 1 or True:
                    self.put(n, 'kw', self.b[self.pos(n):prev].decode() + ')')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            self.put(n, 'ret', 'return None')
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
            self.put(n, 'swap', '%s(%s, %s)' % (self.text(n.func), self.text(n.args[1]), self.text(n.args[0])))
        if isinstance(n, ast.Try) and n.finalbody:
            pass
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, parents + [n])


def worker(job):
    path, m, runs, timeout = job
    line, kind, old, new, a, e = m
    d = '/tmp/am/w%d' % os.getpid()
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
    f = os.path.join(d, path)
    src = open(f, 'rb').read()
    rec = {'path': path, 'line': line, 'kind': kind, 'old': old, 'new': new}
    open(f, 'wb').write(src[:a] + new.encode() + src[e:])
    t = time.time()
    try:
        try:
            compile(open(f).read(), f, 'exec')
        except SyntaxError as x:
            rec['state'] = 'syntax'
            return rec
        if path.startswith('nonasymptotic'):
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'tests/test_envs.py'], cwd=d, capture_output=True, timeout=200)
            if r.returncode:
                rec['state'] = 'tests'
                return rec
        for p in PROPS[path].split():
            r = subprocess.run(['./run', 'check', p, 'quick'], cwd=VERIF, capture_output=True, text=True,
                               env=dict(os.environ, SIM_REPO=d, SIM_NOEVIDENCE='1', SIM_WORKERS='1', SIM_WALL=str(timeout), SIM_SHRINK='0'))
            if r.returncode == 1:
                rec['state'], rec['by'] = 'caught', p
                rec['why'] = (r.stdout.splitlines() + ['', ''])[1].strip()[:140]
                return rec
            if r.returncode:
                rec['state'], rec['by'] = 'noanswer', p
                rec['why'] = (r.stdout + r.stderr)[-200:]
        rec['state'] = rec.get('state', 'SURVIVED')
        return rec
    except subprocess.TimeoutExpired:
        rec['state'] = 'tests'
        return rec
    finally:
        rec['t'] = round(time.time() - t, 1)
        open(f, 'wb').write(src)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--wall', type=int, default=60)
    ap.add_argument('--only', default='')
    ap.add_argument('--out', default='/tmp/am/result.jsonl')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--props', default='')
    ap.add_argument('--again', default='', help='only the mutants that survived according to this result file')
    a = ap.parse_args()
    jobs = []
    left = {(r['path'], r['line'], r['old'], r['new']) for r in map(json.loads, open(a.again)) if r['state'] == 'SURVIVED'} if a.again else None
    for path in a.files:
        PROPS[path] = a.props or PROPS[path]
        ms = Mutator(open('/repo/' + path).read()).out
        ms = [m for m in ms if a.only in m[2]]
        ms = [m for m in ms if left is None or (path, m[0], m[2], m[3]) in left]
        if a.sample and len(ms) > a.sample:
            ms = sorted(random.Random(a.seed).sample(ms, a.sample))
        jobs += [(path, m, 0, a.wall) for m in ms]
    print(len(jobs), 'mutants', flush=True)
    if a.list:
        for j in jobs:
            print(j[0], j[1][0], j[1][1], j[1][2][:70].replace('\n', ' '), '->', j[1][3][:70].replace('\n', ' '))
        return
    count = {}
    with cf.ProcessPoolExecutor(a.jobs) as ex, open(a.out, 'a') as out:
        for f in cf.as_completed([ex.submit(worker, j) for j in jobs]):
            r = f.result()
            count[r['state']] = count.get(r['state'], 0) + 1
            out.write(json.dumps(r) + '\n')
            out.flush()
            if r['state'] in ('SURVIVED', 'noanswer'):
                print(r['state'], r['path'], r['line'], r['kind'], '|', r['old'][:100].replace('\n', ' '), '=>', r['new'][:100].replace('\n', ' '), r.get('why', ''), flush=True)
    print(count)


main()
