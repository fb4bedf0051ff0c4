"""Scenario for C17: the aggregation script runs (several times, in several processes, beside jobs that are still writing,
with the disk failing or the process dying on the way) over result directories with made-up contents.  Every table it
reports as written must hold exactly the rows of the task files it could have seen.
"""
import json
import math
import posixpath
import re

from .. import core, harness, loader, world
from ..core import Violation, h64
from .campaign import num

SHRINK = ['ops', 'dirs', 'strays', 'faults', 'switches']
EXPS = world.REPO_SIM + '/exps'
SCRIPT = EXPS + '/aggregate_runtimes_for_tuning.py'
P = 'C17'
COLS = {
    'narrow': ['n_samples', 'conn_ub', 'conn_lb', 'thresh_path_len', 'thresh_path_dist', 'prm_type', 'build_time', 'check_time', 'info', 'seed',
               'dim', 'delta_clearance', 'trial'],
    'line': ['n_samples', 'rad_lbs', 'rad_ubs', 'info', 'build_time', 'check_time', 'dim', 'delta_clearance', 'seed', 'trial'],
    'knn': ['n_samples', 'n_neighbors', 'effective_radius', 'build_time', 'delta_clearance', 'dim', 'seed', 'trial'],
}
INFO = ['', '', 'timed out', 'no connections, none at all', 'he said "no"', 'a;b', "it's", 'x' * 40, 'two\nlines']


# ------------------------------------------------------------------------------------------------ plans
def gen_rows(rng, kind, task, n, mode):
    rows = []
    for i in range(n):
        r = []
        for c in COLS[kind]:
            if c == 'info':
                v = rng.pick(INFO) if rng.chance(0.5) else ''
            elif c == 'prm_type':
                v = rng.pick(['radius', 'knn'])
            elif c in ('seed', 'n_samples', 'dim', 'trial', 'thresh_path_len', 'n_neighbors'):
                v = rng.randrange(1 << 32) if c == 'seed' else rng.randrange(1, 200)
                if c == 'thresh_path_len':
                    v = float(v)
            else:
                v = rng.pick([0.0, 1.0, 1e-12, 123456.789, 1e22]) if rng.chance(0.1) else rng.random() * 10 ** rng.randrange(-3, 4)
            if c in ('conn_ub', 'conn_lb', 'thresh_path_dist', 'thresh_path_len', 'rad_ubs', 'rad_lbs') and (mode == 'nan' or rng.chance(0.15)):
                v = None
            r.append(v)
        rows.append(r)
        if rng.chance(0.08):
            rows.append(list(r))
    return rows


def gen(rng, prop, tier):
    base = rng.pick(['exp', 'narrow', 'out', 'knn_small', 'tune-1-4-8', 'a b', 'out1'])
    if rng.chance(0.06):        # names that mean something to a pattern
        base = rng.pick(['exp[1]', 'a*b', 'what?', '[x]'])
    names = [base]
    for _ in range(rng.pick([0, 1, 1, 2, 3])):
        names.append(rng.pick([base, base + '-2', base + '_x', base[:-1], 'zzz', base + '_20231201-000000', 'x' + base]))
    dirs = []
    t = 0
    kind = rng.pick(['narrow', 'line', 'line', 'knn'])
    for nm in names:
        t += rng.pick([1, 5, 60, 4000])
        nt = rng.pick([1, 2, 3, 5, 12])
        tasks = []
        for i in range(nt):
            if rng.chance(0.1) and nt > 1 and len(tasks):
                continue                        # a task without a share of the trials
            tasks.append([i, gen_rows(rng, kind, i, rng.pick([1, 1, 2, 3, 6]), rng.pick(['', '', 'nan']))])
        if rng.chance(0.2) and len(tasks) > 1:
            tasks[-1][1] = [list(r) for r in tasks[0][1]]
        dirs.append({'name': nm, 't': t, 'kind': kind, 'tasks': tasks, 'index': rng.pick(['range', 'zeros', 'restart'])})
    strays = []
    for _ in range(rng.pick([0, 0, 1, 2, 3])):
        strays.append([rng.randrange(len(dirs)), rng.pick(['out0.csv.tmp', 'submit_job.sh', 'config.json', 'LLSUB.log', 'submit_job.sh.log-0-1', 'tmp/', 'out3.txt',
                                                           base + '.png']), rng.randrange(1 << 16)])
    ops = []
    outs = [None, None, 'fig', 'out', 'out1', 'out7.csv', 'table 3', base, 'out_', 'agg_out', 'x.csv']
    for _ in range(rng.pick([1, 2, 2, 3, 4, 6])):
        o = rng.wpick([('agg', 8), ('rows', 1.2), ('pair', 1.5)])
        if o == 'agg':
            pre = base if rng.chance(0.7) else rng.pick(names)
            if rng.chance(0.15):
                pre = pre[:max(2, len(pre) - 1)]
            ops.append(['agg', pre, rng.pick(outs)])
        elif o == 'pair':
            a, b = rng.sample(range(len(outs)), 2)
            ops.append(['pair', base, outs[a], outs[b], rng.chance(0.4)])
        else:
            ops.append(['rows', rng.randrange(12), gen_rows(rng, kind, 0, rng.pick([1, 2, 5]), '')])
    plan = {'exec_seed': rng.randrange(1 << 40), 'dirs': dirs, 'strays': strays, 'ops': ops, 'bufsize': rng.pick([16, 100, 8192]),
            'dir_order': rng.randrange(1 << 20), 'clock_grain': 0, 'faults': [], 'rfaults': [], 'prop': prop,
            'switches': core.gen_switches(rng, 3000, rng.pick([3, 10, 40]))}
    if rng.chance(0.4):
        for _ in range(rng.pick([1, 1, 2])):
            k = rng.wpick([('kill', 3), ('enospc', 3), ('eio', 2), ('interrupt', 1), ('short', 2)])
            f = {'proc': 'agg%d' % rng.randrange(max(1, len(ops))), 'kind': k, 'nth': rng.pick([1, 1, 2, 3, 5, 9, 20]), 'frac': round(rng.random(), 3)}
            if k == 'kill':
                f.update(cls=rng.pick(['op', 'write', 'write', 'open-w', 'read']), when=rng.pick(['before', 'mid']))
                if f['cls'] != 'write':
                    f['when'] = 'before'
            elif k == 'short':
                f['cls'] = rng.pick(['write', 'read', 'read'])
            else:
                f['cls'] = rng.pick(['write', 'write', 'open-w', 'read', 'open-r', 'listdir'] if k != 'enospc' else ['write', 'write', 'open-w'])
                if f['cls'] == 'listdir' or k == 'enospc' and rng.chance(0.5):
                    f.update(sticky=True, span=rng.pick([2, 1 << 30]))
            plan['faults'].append(f)
    return plan


# ------------------------------------------------------------------------------------------------ tables
def text(v):
    if v is None:
        return ''
    s = repr(v) if isinstance(v, float) else str(v)
    if any(c in s for c in ',"\n\r'):
        s = '"%s"' % s.replace('"', '""')
    return s


def render(kind, rows, index='range'):
    out = [',' + ','.join(COLS[kind])]
    for i, r in enumerate(rows):
        j = i if index == 'range' else 0 if index == 'zeros' else i % 2
        out.append('%d,' % j + ','.join(text(v) for v in r))
    return '\n'.join(out) + '\n'


def val(x):
    """A cell as written in a table -> comparable value: numbers compare as numbers."""
    if x == '' or x is None:
        return None
    try:
        return ('n', int(x))
    except (TypeError, ValueError):
        pass
    v = num(x) if isinstance(x, str) else x
    if isinstance(v, float):
        return ('n', float('%.12g' % v)) if v != v.__trunc__() else ('n', int(v)) if abs(v) < 1e15 else ('n', float('%.12g' % v))
    return ('s', str(v))


def multiset(rows):
    m = {}
    for r in rows:
        m[r] = m.get(r, 0) + 1
    return m


def read_output(data, kind, what):
    import csv
    import io
    try:
        s = data.decode()
    except UnicodeDecodeError:
        raise Violation('table', what + ' is not text', P)
    rows = list(csv.reader(io.StringIO(s, newline='')))
    if not rows:
        raise Violation('table', what + ' is empty', P)
    hdr = rows[0]
    cols = [c for c in hdr if c != '']
    if sorted(cols) != sorted(COLS[kind]) or len(set(cols)) != len(cols):
        raise Violation('columns', what + ' has columns %s, the task files have %s' % (cols, COLS[kind]), P)
    pos = [hdr.index(c) for c in COLS[kind]]
    out = []
    for r in rows[1:]:
        if len(r) != len(hdr):
            raise Violation('table', what + ' has a row with %d of %d fields' % (len(r), len(hdr)), P)
        out.append(tuple(val(r[i]) for i in pos))
    return out


# ------------------------------------------------------------------------------------------------ the run
class Run:
    def __init__(self, plan):
        self.plan = plan
        w = self.w = world.mkworld(plan, tree=False)
        w.fs.makedirs(EXPS + '/results')
        self.dirs = []
        for d in plan['dirs']:
            w.now = float(d['t'])
            import time
            stamp = time.strftime('%Y%m%d-%H%M%S', time.gmtime(core.BASE_EPOCH + w.now))
            path = EXPS + '/results/%s_%s' % (d['name'], stamp)
            if any(x['path'] == path for x in self.dirs):
                continue
            w.fs.put(path + '/config.json', '{}', durable=False)
            D = {'path': path, 'kind': d['kind'], 'tasks': {}, 'index': d['index']}
            for i, rows in d['tasks']:
                w.now += 0.01
                D['tasks'][i] = rows
                w.fs.put(path + '/out%d.csv' % i, render(d['kind'], rows, d['index']), durable=False)
            for k, name, salt in plan['strays']:
                if plan['dirs'][k % len(plan['dirs'])] is d:
                    if name.endswith('/'):
                        w.fs.makedirs(path + '/' + name[:-1])
                    else:
                        w.fs.put(path + '/' + name, render(d['kind'], D['tasks'][min(D['tasks'])]) if name == 'out0.csv.tmp' and D['tasks'] else 'x%d' % salt, durable=False)
            self.dirs.append(D)
        w.now += 1.0
        w.fs.sync_all()
        self.n = 0
        self.active = None

    def versions(self, D):
        return [{i: list(rows) for i, rows in D['tasks'].items()}]

    def latest(self, pre):
        m = [D for D in self.dirs if posixpath.basename(D['path']).startswith(pre)]
        if not m:
            return None
        new = max(m, key=lambda D: self.w.fs.lookup(D['path']).mtime)
        return m[-1] if new is m[-1] else None      # launched last and changed last: undisputed

    def agg(self, pre, out):
        argv = ['aggregate_runtimes_for_tuning.py', '--name-prefix', pre] + (['--df-out-name', out] if out is not None else [])
        name = 'agg%d' % self.n
        self.n += 1
        return self.w.spawn(name, lambda p: loader.run_script(p, SCRIPT), argv=argv, cwd=EXPS, import_dirs=[EXPS, world.REPO_SIM])

    def out_path(self, D, pre, out):
        return D['path'] + '/' + (out if out is not None else pre) + '_agg_out.csv'

    def snapshot(self):
        return self.w.fs.tree(EXPS + '/results')

    def faulted(self, p):
        return any(f['proc'] == p.name and i in self.w.fired_ids and not (f['kind'] == 'short') for i, f in enumerate(self.plan['faults']))

    def check_output(self, p, D, pre, out, allowed):
        """The table of one aggregation that nothing disturbed: rows of one version of each task file."""
        data = self.w.fs.get(self.out_path(D, pre, out))
        what = 'the table of %s (output name %s)' % (posixpath.basename(D['path']), out)
        if data is None:
            died = '%s: %s' % (type(p.exc).__name__, p.exc) if p.exc is not None else 'status %s' % p.exit_code
            raise Violation('no-output', '%s was not written; the aggregation of prefix %r ended with %s' % (what, pre, died[:200]), P)
        got = multiset(read_output(data, D['kind'], what))
        msg = None
        for v in allowed:
            want = multiset([tuple(val(text(x) if isinstance(x, float) else x) for x in r) for rows in v.values() for r in rows])
            if got == want:
                self.check_statistics(p, D, what, allowed)
                self.w.probe('table-checked')
                self.w.cover.add(h64(D['kind'], len(D['tasks']), out, len(want)))
                return
            miss = sum(max(0, k - got.get(r, 0)) for r, k in want.items())
            extra = sum(max(0, k - want.get(r, 0)) for r, k in got.items())
            msg = msg or '%s lacks %d rows and has %d rows too many; the %d task files hold %d rows' % (what, miss, extra, len(v), sum(want.values()))
        raise Violation('rows', msg, P)

    def check_statistics(self, p, D, what, allowed):
        """The run times it prints: over all rows but the first of each task's file."""
        if self.faulted(p):
            return
        if p.exit_code or p.exc is not None:
            died = '%s: %s' % (type(p.exc).__name__, p.exc) if p.exc is not None else 'status %s' % p.exit_code
            raise Violation('statistics', '%s was written, then the aggregation ended with %s' % (what, died[:200]), P)
        text = p.output()
        for stat in ('build', 'check'):
            if stat + '_time' not in COLS[D['kind']]:
                continue
            m = re.findall(stat + r' time[^:\n]*:\s*(\S+)\s*\+/-\s*(\S+)', text)
            if len(m) != 1:
                raise Violation('statistics', 'the aggregation of %s prints %d %s times' % (posixpath.basename(D['path']), len(m), stat), P)
            got = [float(x) for x in m[0]]
            c = COLS[D['kind']].index(stat + '_time')
            msg = None
            for v in allowed:
                x = [float(r[c]) for rows in v.values() for r in rows[1:]]
                mean = math.fsum(x) / len(x) if x else math.nan
                std = math.sqrt(math.fsum((a - mean) ** 2 for a in x) / (len(x) - 1)) if len(x) > 1 else math.nan
                tol = 1e-6 + 1e-9 * max([abs(a) for a in x] + [0.0])
                if all(math.isnan(a) and math.isnan(b) or abs(a - b) <= tol for a, b in zip(got, (mean, std))):
                    msg = None
                    break
                msg = msg or 'the aggregation of %s prints a %s time of %s +/- %s; the rows after the first of each task have %.6f +/- %.6f' % (
                    posixpath.basename(D['path']), stat, got[0], got[1], mean, std)
            if msg:
                raise Violation('statistics', msg, P)
            self.w.probe('statistics-checked')

    def check_rest(self, before, written):
        after = self.snapshot()
        pre = len(EXPS + '/results/')
        for f in sorted(set(before) | set(after)):
            full = EXPS + '/results/' + f
            if full in written:
                continue
            a, b = before.get(f), after.get(f)
            if f in before and f in after and a == b:
                continue
            base = posixpath.basename(f)
            if f not in before and (base.endswith('.tmp') or '.tmp' in base):
                continue                        # an interrupted writer may leave a temporary file
            raise Violation('files-changed', 'aggregation %s %s' % ('created' if f not in before else 'removed' if f not in after else 'changed', f), P)

    def run(self):
        w, plan = self.w, self.plan
        w.spawn('user', self.user, host='login')
        w.run()
        u = [p for p in w.procs if p.name == 'user'][0]
        if u.exc is not None:
            raise RuntimeError('user: %s' % u.tb)
        return w

    def user(self, up):
        w = self.w
        for op in self.plan['ops']:
            w.now += 2.0
            if op[0] == 'rows':                 # a job writes more results
                D = self.dirs[-1]
                ids = sorted(D['tasks'])
                self.put_rows(D, ids[op[1] % len(ids)] if ids else 0, op[2])
                continue
            pre = op[1]
            D = self.latest(pre)
            if D is None or not D['tasks']:
                continue
            before = self.snapshot()
            if op[0] == 'agg':
                p = self.agg(pre, op[2])
                w.wait_until(up, lambda: p.finished)
                w.log('agg', pre, op[2], p.exit_code)
                if not self.faulted(p) or p.exit_code == 0:
                    self.check_output(p, D, pre, op[2], self.versions(D))
                self.check_rest(before, {self.out_path(D, pre, op[2])})
            else:
                a, b = self.agg(pre, op[2]), self.agg(pre, op[3])
                allowed = self.versions(D)
                written = {self.out_path(D, pre, op[2]), self.out_path(D, pre, op[3])}
                if op[4]:                       # a task replaces its file meanwhile
                    w.wait_until(up, lambda: a.nops > 5 or a.finished)
                    i = sorted(D['tasks'])[0]
                    rows = D['tasks'][i] + [list(r) for r in D['tasks'][i][:1]]
                    self.put_rows(D, i, rows)
                    f = D['path'] + '/out%d.csv' % i
                    before[f[len(EXPS + '/results/'):]] = w.fs.get(f)
                    allowed = allowed + self.versions(D)
                w.wait_until(up, lambda: a.finished and b.finished)
                for p, o in ((a, op[2]), (b, op[3])):
                    if not self.faulted(p) or p.exit_code == 0:
                        if (op[2] if op[2] is not None else pre) == (op[3] if op[3] is not None else pre):
                            if self.faulted(a) or self.faulted(b) or op[4]:
                                continue        # two writers of one table, one of them stopped half-way
                        self.check_output(p, D, pre, o, allowed)
                self.check_rest(before, written)
        # whatever failed before, aggregating now gives the full table
        done = set()
        for op in self.plan['ops']:
            if op[0] == 'rows' or op[1] in done:
                continue
            done.add(op[1])
            D = self.latest(op[1])
            if D is None or not D['tasks'] or len(done) > 2:
                continue
            w.now += 1.0
            before = self.snapshot()
            p = self.w.spawn('final', lambda p: loader.run_script(p, SCRIPT), argv=['a', '--name-prefix', op[1]] + (['--df-out-name', op[2]] if op[2] is not None else []),
                             cwd=EXPS, import_dirs=[EXPS, world.REPO_SIM])
            w.wait_until(up, lambda: p.finished)
            self.check_output(p, D, op[1], op[2], self.versions(D))
            self.check_rest(before, {self.out_path(D, op[1], op[2])})

    def put_rows(self, D, i, rows):
        """What the experiment scripts do: the task's file is replaced in one step."""
        f = D['path'] + '/out%d.csv' % i
        D['tasks'][i] = rows
        self.w.fs.put(f + '.new', render(D['kind'], rows, D['index']), durable=False)
        self.w.fs.rename(f + '.new', f)
        self.w.now += 0.01


def run(plan):
    return Run(plan).run()
