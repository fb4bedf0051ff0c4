"""Scenario for C10-C14: whole experiment campaigns.  The repository's experiment scripts run as simulated processes (several
tasks, several campaigns) on a shared disk; a supervisor restarts every task that did not end well, as resubmitting the job
does.  Tasks are killed, machines crash, disks fail, interleavings vary; the result files are judged at every change of the
disk and at the end.
"""
import csv
import io
import json
import math

import numpy as np

from .. import core, geom, harness, loader, world
from ..core import SimKilled, StubGap, Violation, h64

SHRINK = ['rfaults', 'crashes', 'again', 'campaigns', 'starts', 'switches']
EXPS = world.REPO_SIM + '/exps'
SCRIPTS = {'narrow': 'run_narrow_passage_clearance_trial.py', 'knn': 'run_knn_radius_trial.py', 'line': 'run_straight_line_optimality_trial.py'}
IMPORTS = [EXPS, world.REPO_SIM, world.REPO_SIM + '/nonasymptotic']
MAX_INC = 5


# ------------------------------------------------------------------------------------------------ plans
def gen_config(rng, kind, prop):
    small = prop in ('C10', 'C11', 'C12')
    trials = rng.pick([1, 1, 2, 3])
    if kind == 'narrow':
        both = rng.random()
        rd = [] if both < 0.2 else rng.pick([[2], [3], [2], [2, 3]])
        kd = [] if both > 0.75 else rng.pick([[2], [2], [3], [3, 2]])
        if not rd and not kd:
            rd = [2]
        k = rng.pick([4, 4, 5, 6, 8, 11, 12, 16])
        rs = sorted(rng.sample([4, 6, 9, 12, 18, 24, 32] if small else [5, 8, 12, 16, 24, 32, 40], rng.pick([1, 1, 2, 2, 3])))
        ks = sorted(rng.sample([k + 2, k + 5, 2 * k, 30, 45, 60], rng.pick([1, 1, 2, 3])))
        ks = sorted({x for x in ks if x > k + 1} | ({rng.pick([3, 4, k, k + 1])} if rng.chance(0.25) else set()))
        dims = {'radius_dims_to_test': rd, 'knn_dims_to_test': kd}
        if prop in ('C10', 'C12') and rng.chance(0.06):
            # as the shipped narrow_micro_test_run.json: the dimensions of both at once, or of one and of the rest
            dims = rng.pick([{'dims_to_test': rd or kd}, {'dims_to_test': rd or kd}, {'dims_to_test': rd or kd, 'knn_dims_to_test': kd}, {'dims_to_test': kd or rd, 'radius_dims_to_test': rd}, dict(dims, dims_to_test=[7])])
        return {'deltas': rng.pick([[0.2], [0.45], [0.35], [0.1], [0.3, 0.1], [0.49]]), **dims,
                'radius_sample_schedule': rs, 'radius_prm_max_radius': rng.pick([0.05, 0.2, 0.5, 0.8, 1.0, 2.0, 4.0]),
                'knn_sample_schedule': ks, 'knn_prm_max_neighbors': k, 'n_trials': trials}
    dims = rng.pick([[2], [3], [2, 3], [2, 4], [5], [2, 3, 4]])
    if kind == 'knn':
        ss = sorted(rng.sample([5, 6, 9, 14, 20, 33], rng.pick([1, 2, 3])))
        lo = [x for x in (1, 2, 3, 4) if x < ss[0]]
        ns = sorted({rng.pick(lo)} | {rng.pick([1, 2, 4, 5, 8, 13, 19, 25]) for _ in range(rng.pick([0, 1, 2]))})
        if prop in ('C10', 'C12', 'C25') and rng.chance(0.15):
            ss = sorted(set(ss) | {rng.pick([2, 3, ns[0]])})     # (too few for any of the neighbour counts, perhaps)
        if prop in ('C10', 'C25') and rng.chance(0.3):
            ns.reverse()
            if rng.chance(0.5):
                ss.reverse()
        return {'delta': rng.pick([0.1, 0.5]), 'dims_to_test': dims, 'sample_schedule': ss, 'neighbor_schedule': ns, 'n_trials': trials}
    return {'delta': rng.pick([0.1, 0.5]), 'dims_to_test': dims[:2], 'sample_schedule': sorted(rng.sample([12, 16, 22, 30], rng.pick([1, 2]))),
            'n_samples_per_check_round': 10, 'ed_check_timeout': 5.0, 'area_tol': 1e-8, 'prm_max_k_neighbors': rng.pick([5, 8]), 'n_trials': trials}


def combos(kind, c):
    if kind == 'narrow':
        return [(t, d, n, i) for t, ds in (('radius', c.get('radius_dims_to_test', c.get('dims_to_test'))), ('knn', c.get('knn_dims_to_test', c.get('dims_to_test'))))
                for d in c['deltas'] for n in ds for i in range(c['n_trials'])]
    return [(kind, c['delta'], n, i) for n in c['dims_to_test'] for i in range(c['n_trials'])]


def gen_wide(rng):
    """A job of many tasks with tiny shares."""
    nt = rng.pick([9, 9, 11, 11, 12, 17, 20, 33 if rng.chance(0.5) else 13])
    kind = rng.pick(['narrow', 'knn', 'knn', 'line'])
    n = nt + rng.pick([-1, 0, 0, 1, 2])
    if kind == 'narrow':
        cfg = {'deltas': [0.35], 'radius_dims_to_test': [2], 'knn_dims_to_test': [], 'radius_sample_schedule': [5], 'radius_prm_max_radius': 1.0,
               'knn_sample_schedule': [8], 'knn_prm_max_neighbors': 4, 'n_trials': n}
    elif kind == 'knn':
        cfg = {'delta': 0.1, 'dims_to_test': [2], 'sample_schedule': [5], 'neighbor_schedule': [2], 'n_trials': n}
    else:
        cfg = {'delta': 0.1, 'dims_to_test': [2], 'sample_schedule': [12], 'n_samples_per_check_round': 10, 'ed_check_timeout': 5.0, 'area_tol': 1e-8,
               'prm_max_k_neighbors': 5, 'n_trials': n}
    return {'kind': kind, 'config': cfg, 'ntasks': nt, 'dir': 'wide_20231114-221320'}


def gen(rng, prop, tier):
    nc = 1
    if prop == 'C13':
        nc = rng.pick([1, 1, 2, 2])
    camps = []
    for i in range(nc):
        kind = 'narrow' if prop == 'C14' else 'knn' if prop == 'C25' else rng.wpick([('narrow', 5), ('knn', 4), ('line', 1.5)])
        if i and rng.chance(0.5):
            kind, cfg = camps[0]['kind'], json.loads(json.dumps(camps[0]['config']))
        else:
            cfg = gen_config(rng, kind, prop)
            while len(combos(kind, cfg)) > (9 if prop not in ('C14', 'C25') else 5):
                cfg = gen_config(rng, kind, prop)
        name = rng.pick(['exp', 'exp-2', 'knn_small', 'a b', 'exp_20231114-000000'])
        nt = rng.pick([1, 1, 2, 3, len(combos(kind, cfg)) + 1])
        if prop == 'C13':
            nt = max(nt, 3 - nc)
        camps.append({'kind': kind, 'config': cfg, 'ntasks': min(nt, 5), 'dir': '%s_20231114-2213%02d' % (name, 20 + i)})
    if prop in ('C10', 'C12', 'C13') and rng.chance(0.02):
        camps = [gen_wide(rng)]
    plan = {'exec_seed': rng.randrange(1 << 40), 'ref_seed': rng.randrange(1 << 40), 'campaigns': camps, 'tick': rng.pick([1e-4, 1e-4, 0.01, 0.3]),
            'kgraph': True, 'ann_miss': rng.pick([0.0, 0.0, 0.15]) if prop in ('C12', 'C13') else 0.0, 'clock_grain': rng.pick([0, 0, 1]),
            'bufsize': rng.pick([16, 256, 8192]), 'dir_order': rng.randrange(1 << 20), 'samepid': rng.chance(0.4),
            'offsets': [round(rng.random() * 1e5, 2) for _ in range(4)], 'starts': [], 'again': [], 'rfaults': [], 'crashes': [],
            'switches': [], 'prop': prop}
    tasks = [(ci, t) for ci, c in enumerate(camps) for t in range(c['ntasks'])]
    if rng.chance(0.5):
        plan['starts'] = [[ci, t, round(rng.random() * 2, 3)] for ci, t in tasks if rng.chance(0.5)]
    if len(tasks) > 1:
        plan['switches'] = core.gen_switches(rng, 6000, rng.pick([4, 10, 30, 100] if prop == 'C13' else [10, 40, 200, 1000]))
    if prop in ('C10', 'C11', 'C12') or (prop in ('C14', 'C25') and rng.chance(0.25)):
        kinds = {'C10': [('kill', 6), ('interrupt', 2), ('enospc', 1), ('eio', 1)],
                 'C11': [('kill', 3), ('interrupt', 1), ('enospc', 3), ('eio', 2), ('edquot', 1), ('short', 1), ('full', 3)],
                 'C12': [('kill', 6), ('interrupt', 2), ('enospc', 1), ('eio', 1)],
                 'C14': [('kill', 1)], 'C25': [('kill', 1)]}[prop]
        for _ in range(rng.pick([1, 1, 2, 3, 5])):
            ci, t = rng.pick(tasks)
            k = rng.wpick(kinds)
            f = {'camp': ci, 'task': t, 'inc': rng.pick([1, 1, 1, 2, 2, 3]), 'pos': round(rng.random(), 4), 'frac': round(rng.random(), 3)}
            if k == 'kill':
                f.update(kind='kill', cls=rng.pick(['op', 'op', 'write', 'write', 'open-w', 'fsync', 'rename', 'read', 'open-r', 'unlink']),
                         when=rng.pick(['before', 'mid', 'mid']))
                if f['cls'] != 'write':
                    f['when'] = 'before'
            elif k == 'interrupt':
                f.update(kind=k, cls=rng.pick(['write', 'open-w', 'fsync', 'rename', 'read', 'open-r']))
            elif k == 'full':
                f.update(kind='enospc', cls='write', sticky=True, span=rng.pick([3, 50, 1 << 30]))
            elif k == 'short':
                f.update(kind=k, cls=rng.pick(['write', 'read']))
            else:
                f.update(kind=k, cls=rng.pick(['write', 'write', 'open-w', 'fsync', 'rename', 'open-r', 'read'] if k != 'eio' else
                                              ['write', 'fsync', 'rename', 'open-r', 'read', 'stat']))
                if f['cls'] in ('open-r', 'read', 'fsync', 'rename') and k != 'eio':
                    f['kind'] = 'eio' if f['cls'] != 'rename' else 'enospc'
            if f['inc'] > 1 and rng.chance(0.5):       # while a resumed task reads what it finds
                f['pos'] = 0.0
                if f['kind'] in ('eio', 'kill', 'interrupt'):
                    f['cls'] = rng.pick(['stat', 'open-r', 'read'])
            plan['rfaults'].append(f)
        if prop == 'C11' and rng.chance(0.6) or prop in ('C10', 'C12') and rng.chance(0.2):
            plan['crashes'] = [{'pos': round(rng.random() * 1.2, 4), 'near': rng.pick(['', 'rename', 'rename', 'write', 'fsync']), 'after': rng.pick([0, 0, 1, 2, 5]),
                                'salt': rng.randrange(1 << 30)} for _ in range(rng.pick([1, 1, 2]))]
    if prop in ('C10', 'C12') and rng.chance(0.5):
        plan['again'] = [list(rng.pick(tasks)) for _ in range(rng.pick([1, 2]))]
    return plan


# ------------------------------------------------------------------------------------------------ running a task
def fake_completeness(p):
    """Stand-in for the straight-line environment's completeness certificate, which the repository does not implement."""
    def is_prm_epsilon_delta_complete(self, prm, tol, n_samples_per_check=100, timeout=60.0, area_tol=1e-8):
        v = float(np.sum(prm.prm_samples[:3])) * 1e3 % 1.0
        ok = (math.isnan(tol) or tol > 0.1 + 0.5 * v)
        return bool(ok), 'timed out' if v > 0.9 else ''
    for name in ('envs', 'nonasymptotic.envs'):
        loader.load(p, name).StraightLine.is_prm_epsilon_delta_complete = is_prm_epsilon_delta_complete


def watch_beginnings(p, kind, begun):
    """Calls begun with the number of trials (environments with new seeds) this process has begun."""
    envs = loader.load(p, 'nonasymptotic.envs')
    seeds = []

    def mk(init):
        def env_init(self, *a, **k):
            init(self, *a, **k)
            seed = k.get('seed', a[-1] if a else None)
            if seed is not None and seed not in seeds:
                seeds.append(seed)
                begun(len(seeds))
        return env_init
    for cls in {'narrow': [envs.NarrowPassage], 'knn': [envs.StraightLine],
                'line': [envs.StraightLine] + ([loader.load(p, 'envs').StraightLine] if kind == 'line' else [])}[kind]:
        cls.__init__ = mk(cls.__init__)


def record_roadmap_samples(p, sink):
    """Notes which environment and samples each clearance trial used, through the public interface."""
    envs = loader.load(p, 'nonasymptotic.envs')
    prm = loader.load(p, 'nonasymptotic.prm')
    init = envs.NarrowPassage.__init__

    def env_init(self, dim, clearance, seed):
        init(self, dim, clearance, seed)
        sink.append({'seed': int(seed), 'dim': dim, 'clearance': clearance, 'samples': {}, 'grow': {}, 'query': {}, 'from': p.world.now})
    envs.NarrowPassage.__init__ = env_init
    for cls in (prm.SimpleFullConnRadiusPRM, prm.SimpleNearestNeighborRadiusPRM):
        def mk(grow):
            def wrapped(self, n, *a, **k):
                t = p.world.now
                r = grow(self, n, *a, **k)
                if sink:
                    sink[-1]['samples'][int(n)] = np.array(self.prm_samples, copy=True)
                    sink[-1]['grow'].setdefault(int(n), p.world.now - t)      # searching grows again
                return r
            return wrapped

        def mkq(query):
            def wrapped(self, *a, **k):
                t = p.world.now
                r = query(self, *a, **k)
                if sink:
                    n = len(self.prm_samples)
                    sink[-1]['query'][n] = sink[-1]['query'].get(n, 0.0) + p.world.now - t
                return r
            return wrapped
        cls.grow_to_n_samples = mk(cls.grow_to_n_samples)
        cls.query_best_solution = mkq(cls.query_best_solution)


def record_tube_samples(p, sink):
    """Notes the samples every trial draws from its straight-line environment, through the public interface."""
    envs = loader.load(p, 'nonasymptotic.envs')
    init, draw = envs.StraightLine.__init__, envs.StraightLine.sample_from_env

    def env_init(self, dim, delta_clearance, *a, **k):
        init(self, dim, delta_clearance, *a, **k)
        self.drawn = []
        sink.append({'seed': k.get('seed', a[1] if len(a) > 1 else None), 'dim': dim, 'samples': self.drawn, 'from': p.world.now})

    def sample_from_env(self):
        x = draw(self)
        self.drawn.append(np.array(x, copy=True))
        return x
    envs.StraightLine.__init__ = env_init
    envs.StraightLine.sample_from_env = sample_from_env


def task_main(c, sinks=None, begun=None):
    def main(p):
        p.has_kgraph = True
        if c['kind'] == 'line':
            fake_completeness(p)
        if sinks is not None and c['kind'] == 'narrow':
            record_roadmap_samples(p, sinks)
        if sinks is not None and c['kind'] == 'knn':
            record_tube_samples(p, sinks)
        if begun is not None:
            watch_beginnings(p, c['kind'], begun)
        loader.run_script(p, EXPS + '/' + SCRIPTS[c['kind']])
    return main


def argv(c, t):
    d = './results/' + c['dir']
    return [SCRIPTS[c['kind']], str(t), str(c['ntasks']), d + '/config.json', d]


def config_doc(c):
    return json.dumps(dict(c['config'], name=c['dir'].rsplit('_', 1)[0], triples=[1, c['ntasks'], 1]), indent=2)


def put_dir(w, c):
    base = EXPS + '/results/' + c['dir']
    w.fs.put(base + '/config.json', config_doc(c), durable=False)
    w.fs.put(base + '/submit_job.sh', '#!/bin/bash\n', durable=False)


def alone(plan, c, t):
    """One task, uninterrupted, on a machine of its own.  -> (rows, operation counts, steps)"""
    w = world.mkworld({'exec_seed': plan['ref_seed'], 'ann_miss': plan['ann_miss'], 'prop': plan['prop']}, tree=False)
    put_dir(w, c)
    w.fs.sync_all()
    p = w.spawn('alone', task_main(c), argv=argv(c, t), cwd=EXPS, import_dirs=IMPORTS, env={'USER': 'u'})
    w.run()
    if p.exc is not None:
        p.name = 'task %d of %s, alone' % (t, c['kind'])
        harness.process_died(p, plan['prop'])
    if p.exit_code:
        raise Violation('task-gave-up', 'task %d of a %s campaign ended with status %s although nothing failed' % (t, c['kind'], p.exit_code), plan['prop'])
    data = w.fs.get(EXPS + '/results/' + c['dir'] + '/out%d.csv' % t)
    return data, dict(p.counts, op=p.nops), w.nsteps


# ------------------------------------------------------------------------------------------------ tables
def parse(data):
    """(columns, rows) of a result table, or a message why it is not one.  Rows are tuples of floats and strings."""
    try:
        text = data.decode()
    except UnicodeDecodeError:
        return 'is not text'
    if '\0' in text:
        return 'contains null bytes'
    if not text:
        return 'is empty'
    if not text.endswith('\n'):
        return 'ends in the middle of a line'
    if text.count('"') % 2:
        return 'ends in the middle of a quoted field'
    rows = list(csv.reader(io.StringIO(text)))
    hdr, body = rows[0], rows[1:]
    if hdr[:1] != ['']:
        return 'has no header'
    for i, r in enumerate(body):
        if len(r) != len(hdr):
            return 'has a row with %d instead of %d fields' % (len(r), len(hdr))
    return hdr[1:], [tuple(num(x) for x in r[1:]) for r in body]


def num(x):
    if x == '':
        return None
    try:
        f = float(x)
        return None if math.isnan(f) else f
    except ValueError:
        return x


def same_val(a, b):
    if a == b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    return False


def timing(col):
    return 'time' in col.lower()


def strip(cols, rows):
    keep = [i for i, c in enumerate(cols) if not timing(c)]
    return [cols[i] for i in keep], [tuple(r[i] for i in keep) for r in rows]


def same_rows(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(same_val(u, v) for u, v in zip(x, y)) for x, y in zip(a, b))


def groups(kind, cols, rows):
    """Consecutive rows of one trial: [(combo, seed, rows as dicts)]"""
    out = []
    for r in rows:
        d = dict(zip(cols, r))
        key = (d.get('prm_type') if kind == 'narrow' else kind, d.get('delta_clearance'), d.get('dim'), d.get('trial'))
        if not out or out[-1][0] != key or out[-1][1] != d.get('seed'):
            out.append((key, d.get('seed'), []))
        out[-1][2].append(d)
    return out


def expected_rows(kind, c, combo):
    """What each row of a complete record set must say: list of dicts."""
    if kind == 'narrow':
        sch = c['radius_sample_schedule'] if combo[0] == 'radius' else c['knn_sample_schedule']
        return [{'n_samples': s} for s in sch]
    if kind == 'knn':
        return [{'n_samples': s, 'n_neighbors': k} for s in c['sample_schedule'] for k in c['neighbor_schedule'] if k < s]
    return [{'n_samples': s} for s in c['sample_schedule']]


# ------------------------------------------------------------------------------------------------ the run
class Campaign:
    def __init__(self, plan):
        self.plan, self.prop = plan, plan['prop']
        self.camps = plan['campaigns']
        self.ref = {}
        self.last = {}          # (camp, task) -> (bytes, finished trials)
        self.crashed = False
        self.sinks = {}
        for ci, c in enumerate(self.camps):
            for t in range(c['ntasks']):
                data, counts, steps = alone(plan, c, t)
                tab = None
                if data is not None:
                    tab = parse(data)
                    if isinstance(tab, str):
                        self.bad('table', 'the result file of task %d, run alone, %s' % (t, tab))
                self.ref[ci, t] = (tab, counts, steps)
        w = self.w = world.mkworld(dict(plan, faults=self.faults()), tick=plan['tick'], tree=False, max_steps=250_000)
        for c in self.camps:
            put_dir(w, c)
        w.fs.sync_all()
        self.seen = w.fs.mutations
        self.crash_at = self.crash_steps()

    def bad(self, cls, detail):
        raise Violation(cls, detail, self.prop)

    def path(self, ci, t):
        return EXPS + '/results/%s/out%d.csv' % (self.camps[ci]['dir'], t)

    def name(self, ci, t, inc):
        return 'c%dt%d.%d' % (ci, t, inc)

    def faults(self):
        out = []
        for f in self.plan['rfaults']:
            if f['camp'] >= len(self.camps) or f['task'] >= self.camps[f['camp']]['ntasks']:
                continue
            n = self.ref[f['camp'], f['task']][1].get(f['cls'], 0)
            if not n:
                n = 4
            g = {k: v for k, v in f.items() if k in ('kind', 'cls', 'frac', 'when', 'sticky', 'span')}
            g.update(proc=self.name(f['camp'], f['task'], f['inc']), nth=1 + int(f['pos'] * n))
            out.append(g)
        return out

    def crash_steps(self):
        """[(step or None, class, occurrence, after, salt)]"""
        total = sum(r[2] for r in self.ref.values())
        out = []
        for c in self.plan['crashes']:
            if c['near']:
                n = sum(r[1].get(c['near'], 0) for r in self.ref.values())
                out.append(['class', c['near'], 1 + int(c['pos'] * n), c['after'], c['salt']])
            else:
                out.append(['step', 1 + int(c['pos'] * total), c['salt']])
        return out

    # -------------------------------------------------------- observation
    def observe(self, w, p, cls, detail):
        w.fs.writeback(w.fs.clock())
        if w.fs.mutations != self.seen:
            self.seen = w.fs.mutations
            self.check_files()
        for c in self.crash_at:
            if c[0] == 'class' and c[1] == cls and '/results/' in detail:
                c[2] -= 1
                if c[2] == 0:
                    c[:] = ['step', w.nsteps + c[3], c[4]]
            if c[0] == 'step' and w.nsteps >= c[1] and p.name != 'supervisor':
                salt = c[2]
                c[:] = ['done']
                self.crash(w, p, salt)

    def durable_trials(self):
        out = {}
        for key in self.last:
            node = self.w.fs.root
            for part in self.path(*key).strip('/').split('/'):
                node = (node.dentries or {}).get(part) if node is not None and node.kind == 'dir' else None
            k = 0
            if node is not None and node.durable:
                r = self.judge(key, node.durable)
                k = r if isinstance(r, int) else 0
            out[key] = k
        return out

    def crash(self, w, p, salt):
        self.check_files()
        floor = self.durable_trials()
        ctr = [0]

        def pick(label, n):
            ctr[0] += 1
            return h64(salt, label, ctr[0]) % n
        desc = w.fs.crash(pick)
        w.count_fault('machine-crash')
        w.log('CRASH', desc)
        self.stopped = True
        for q in w.procs:
            if q is not p and q.state != 'done' and q.name != 'supervisor':
                w.kill(q)
        self.crashes_seen += 1
        for q in w.procs:
            q.stale = True              # whatever it reported, the disk may have forgotten it
        self.last = {k: (None, 0) for k in self.last}
        self.check_files(after='a machine crash')
        for key, k in floor.items():
            have = self.last.get(key, (None, 0))[1]
            if have < k:
                self.report('trials-lost', 'task %d: %d trials were durable before the machine crashed, %d are left' % (key[1], k, have))
        self.seen = w.fs.mutations
        w.kill_self(p)

    def judge(self, key, data):
        """Number of finished trials a file holds, or a message why it is not a prefix of the task's share."""
        tab = parse(data)
        if isinstance(tab, str):
            return tab
        ref = self.ref[key][0]
        if ref is None:
            return 'holds rows although the task has no share'
        c1, r1 = strip(*tab)
        c0, r0 = strip(*ref)
        if sorted(c1) != sorted(c0):
            return 'has columns %s instead of %s' % (c1, c0)
        r1 = [tuple(dict(zip(c1, r))[c] for c in c0) for r in r1]
        if len(r1) > len(r0):
            return 'has %d rows, more than the %d of the whole share' % (len(r1), len(r0))
        for i, (a, b) in enumerate(zip(r1, r0)):
            if not all(same_val(u, v) for u, v in zip(a, b)):
                d = [c0[j] for j in range(len(a)) if not same_val(a[j], b[j])]
                return 'differs in row %d (%s) from the uninterrupted run' % (i, ', '.join(d))
        kind = self.camps[key[0]]['kind']
        g = groups(kind, c0, r0)
        n = 0
        for k, x in enumerate(g):
            if n == len(r1):
                return k
            n += len(x[2])
            if n > len(r1):
                return 'ends inside a trial (%d of %d rows)' % (len(r1) - n + len(x[2]), len(x[2]))
        return len(g)

    def report(self, cls, detail):
        if self.prop == 'C11':
            self.bad(cls, detail)

    def check_files(self, after=''):
        """Every result file, at this instant."""
        for key in self.ref:
            data = self.w.fs.get(self.path(*key))
            old = self.last.get(key, (None, 0))
            if data is None:
                if old[1]:
                    self.report('trials-lost', 'the result file of task %d with %d finished trials disappeared' % (key[1], old[1]))
                continue
            if data == old[0]:
                continue
            r = self.judge(key, data)
            if isinstance(r, str):
                self.report('torn-table', 'the result file of task %d %s%s' % (key[1], r, ' after ' + after if after else ''))
                r = 0
            if r < old[1]:
                self.report('trials-lost', 'the result file of task %d went from %d back to %d finished trials' % (key[1], old[1], r))
            self.last[key] = (data, r)
            self.w.probe('checkpoint')
            self.w.cover.add(h64('ckpt', self.camps[key[0]]['kind'], key[1], r, len(self.ref)))

    # -------------------------------------------------------- processes
    def supervisor(self, p):
        w, plan = self.w, self.plan
        starts = {(ci, t): s for ci, t, s in plan['starts']}
        live = {}

        def spawn(key, inc, delay=0.0):
            ci, t = key
            c = self.camps[ci]
            sink = self.sinks.setdefault(key, [])
            hname = 'h%d' % ((ci * 3 + t + inc) % 3)
            h = w.host(hname, offset=plan['offsets'][(ci * 3 + t + inc) % 3])
            had = []

            def begun(n):
                # every trial that came before is in the file
                data = w.fs.get(self.path(*key))
                got = 0 if data is None else self.judge(key, data)
                if not had:
                    had.append(got)
                w.probe('trial-begun')
                if isinstance(got, int) and isinstance(had[0], int) and got < had[0] + n - 1:
                    self.report('trial-not-recorded', 'task %d begins trial %d of this run with %d trials in its result file, which held %d at the start' % (
                        t, n, got, had[0]))
            rowless = any(not expected_rows(c['kind'], c['config'], (kind,)) for kind in ('radius', 'knn'))
            q = w.spawn(self.name(ci, t, inc), task_main(c, sink if self.prop in ('C14', 'C25') else None,
                                                         begun if self.prop == 'C11' and not rowless else None), host=h.name, argv=argv(c, t), cwd=EXPS,
                        import_dirs=IMPORTS, start=w.now + delay, pid=4242 if plan['samepid'] else None, env={'USER': 'u'})
            live[key] = (q, inc)
        for key in self.ref:
            spawn(key, 1, starts.get(key, 0.0))
        again = [tuple(x) for x in plan['again'] if tuple(x) in self.ref]
        crashes, over = 0, {}
        while live or self.crashes_seen > crashes:
            w.wait_until(p, lambda: not live or any(q.state == 'done' for q, _ in live.values()))
            if self.crashes_seen > crashes:        # the job is submitted again: every task runs once more
                crashes = self.crashes_seen
                for key, inc in sorted(over.items()):
                    spawn(key, inc + 1, 0.01)
                over = {}
            for key, (q, inc) in sorted(live.items()):
                if q.state != 'done':
                    continue
                del live[key]
                hit = any(i in w.fired_ids for i, f in enumerate(w.plan['faults']) if f['proc'] == q.name)
                if q.exit_code == 0 and not getattr(q, 'stale', False):
                    over[key] = inc
                    self.finished(key)
                    if key in again:
                        again.remove(key)
                        self.before_again = True
                        before = w.fs.get(self.path(*key))
                        spawn(key, inc + 1)
                        over[key] = inc + 1
                        self.check_again(p, live.pop(key)[0], key, before)
                    continue
                if q.exit_code in (-9, 0):
                    w.probe('task-killed')
                elif hit:
                    w.probe('task-failed')
                else:
                    if q.exc is not None:
                        q.name = 'task %d (start %d)' % (key[1], inc)
                        harness.process_died(q, self.prop)
                    self.bad('task-gave-up', 'task %d of a %s campaign ended with status %s although nothing failed' % (
                        key[1], self.camps[key[0]]['kind'], q.exit_code))
                w.probe('task-resumed')
                self.stopped = True
                if inc > 12:
                    self.bad('no-progress', 'task %d is still not done after %d starts' % (key[1], inc))
                spawn(key, inc + 1, 0.01)

    stopped = False
    crashes_seen = 0

    def finished(self, key):
        """A task reported success."""
        ref = self.ref[key][0]
        data = self.w.fs.get(self.path(*key))
        if self.prop in ('C11',):
            want = len(groups(self.camps[key[0]]['kind'], *strip(*ref))) if ref is not None else 0
            have = 0
            if data is not None:
                r = self.judge(key, data)
                have = r if isinstance(r, int) else 0
            if have != want:
                self.bad('success-without-results', 'task %d ended successfully, but its file holds %d of %d trials' % (key[1], have, want))

    def check_again(self, p, q, key, before):
        """A finished task is resumed once more."""
        w = self.w
        w.wait_until(p, lambda: q.state == 'done')
        if q.exit_code == -9 or getattr(q, 'stale', False):
            return                   # stopped, or the machine crashed meanwhile and every task is restarted
        if q.exc is not None and not any(i in w.fired_ids for i, f in enumerate(w.plan['faults']) if f['proc'] == q.name):
            harness.process_died(q, self.prop)
        after = w.fs.get(self.path(*key))
        w.probe('finished-task-resumed')
        if before is None or after is None:
            if before is not after:
                self.bad('finished-changed', 'resuming the finished task %d %s its result file' % (key[1], 'created' if before is None else 'removed'))
            return
        a, b = parse(before), parse(after)
        if isinstance(b, str) or a[0] != b[0] or not same_rows(a[1], b[1]):
            self.bad('finished-changed', 'resuming the finished task %d changed its results (%s rows before, %s after)' % (
                key[1], len(a[1]), b if isinstance(b, str) else len(b[1])))

    # -------------------------------------------------------- at the end
    def run(self):
        w = self.w
        w.observers.append(self.observe)
        self.check_files()
        w.spawn('supervisor', self.supervisor, host='login')
        w.run()
        for p in w.procs:
            if p.name == 'supervisor' and p.exc is not None:
                raise RuntimeError('supervisor: %s' % p.tb)
        self.check_files()
        for ci, c in enumerate(self.camps):
            tabs = []
            for t in range(c['ntasks']):
                data = w.fs.get(self.path(ci, t))
                tab = None
                if data is not None:
                    tab = parse(data)
                    if isinstance(tab, str):
                        self.bad('table', 'the final result file of task %d %s' % (t, tab))
                tabs.append(tab)
            w.log('tables', [None if x is None else strip(*x)[1] for x in tabs])
            {'C10': self.end_c10, 'C11': lambda *a: None, 'C12': self.end_c12, 'C13': self.end_c13, 'C14': self.end_c14, 'C25': self.end_c25}[self.prop](ci, c, tabs)
        return w

    def end_c10(self, ci, c, tabs):
        want = {}
        for x in combos(c['kind'], c['config']):
            want[x] = want.get(x, 0) + 1
        have = {}
        for t, tab in enumerate(tabs):
            if tab is None:
                continue
            for combo, seed, rows in groups(c['kind'], *tab):
                key = next((x for x in want if x[0] == combo[0] and all(same_val(float(u), v) for u, v in zip(x[1:], combo[1:]))), None)
                if key is None:
                    self.bad('foreign-trial', 'task %d holds a record set for %s, which is not configured' % (t, combo))
                have.setdefault(key, []).append(t)
                exp = expected_rows(c['kind'], c['config'], key)
                got = [{k: r.get(k) for k in e} for r, e in zip(rows, exp)]
                if len(rows) != len(exp) or any(not same_val(float(e[k]), g[k]) for e, g in zip(exp, got) for k in e):
                    self.bad('incomplete-record', 'task %d: the record set of %s has rows %s instead of %s' % (
                        t, combo, [[r.get('n_samples'), r.get('n_neighbors')] for r in rows], exp))
        for x, n in want.items():
            m = have.get(x, [])
            if len(m) < n:
                self.bad('missing-trial', '%s trial %s is missing: no result file holds it (tasks: %d)' % (c['kind'], x, c['ntasks']))
            if len(m) > n:
                self.bad('duplicate-trial', '%s trial %s is recorded %d times (by tasks %s)' % (c['kind'], x, len(m), m))
        self.w.probe('campaign-complete')
        self.w.cover.add(h64(c['kind'], c['ntasks'], sorted(want)))

    def equal_to_reference(self, ci, c, tabs, cls, what):
        for t, tab in enumerate(tabs):
            ref = self.ref[ci, t][0]
            if (ref is None) != (tab is None):
                self.bad(cls, 'task %d %s a result file %s' % (t, 'has no' if tab is None else 'has', what))
            if ref is None:
                continue
            r = self.judge((ci, t), self.w.fs.get(self.path(ci, t)))
            n = len(groups(c['kind'], *strip(*ref)))
            if r != n:
                self.bad(cls, 'task %d of a %s campaign: the result file %s %s' % (
                    t, c['kind'], r if isinstance(r, str) else 'holds %d of %d trials' % (r, n), what))

    def end_c12(self, ci, c, tabs):
        used = {}
        self.equal_to_reference(ci, c, tabs, 'resumed-differs', '(compared with an uninterrupted run)')
        for t, tab in enumerate(tabs):
            if tab is None:
                continue
            g = groups(c['kind'], *tab)
            seeds = [s for _, s, _ in g]
            if len(set(seeds)) != len(seeds):
                self.bad('seed-reused', 'task %d of a %s campaign: seeds of its trials are %s' % (t, c['kind'], seeds))
            for s in seeds:
                if used.setdefault(s, t) != t:
                    self.bad('seed-reused', 'tasks %d and %d of a %s campaign both use seed %s' % (used[s], t, c['kind'], s))
        self.w.probe('campaign-compared')
        self.w.cover.add(h64(c['kind'], c['ntasks'], len(combos(c['kind'], c['config'])), self.stopped))

    def end_c13(self, ci, c, tabs):
        self.equal_to_reference(ci, c, tabs, 'disturbed', '(compared with running alone)')
        base = EXPS + '/results/' + c['dir']
        ok = {'config.json', 'submit_job.sh'} | {'out%d.csv' % t for t in range(c['ntasks'])}
        extra = [f for f in self.w.fs.tree(base) if f not in ok]
        if extra:
            self.bad('leftover', 'the result directory also holds %s when all tasks are done' % extra)
        if self.w.fs.get(base + '/config.json') != config_doc(c).encode():
            self.bad('config-changed', 'the configuration of the experiment was changed')
        scratch = [f for f in self.w.fs.tree(world.REPO_SIM + '/temp')]
        if scratch:
            self.bad('leftover', 'scratch files remain when all tasks are done: %s' % [s[-30:] for s in scratch][:3])
        known = {'results/' + x['dir'] for x in self.camps}
        other = [f for f in self.w.fs.tree(EXPS) if f != 'results' and not any(f == k or f.startswith(k + '/') for k in known)]
        if other:
            self.bad('leftover', 'unexpected files: %s' % other[:3])
        self.w.probe('campaign-compared')
        self.w.cover.add(h64(c['kind'], c['ntasks'], self.w.sched_trace.hexdigest()))

    # -------------------------------------------------------- clearance trials
    def end_c14(self, ci, c, tabs):
        cfg = c['config']
        for t, tab in enumerate(tabs):
            if tab is None:
                continue
            notes = self.sinks[ci, t]
            for combo, seed, rows in groups('narrow', *tab):
                sch = [e['n_samples'] for e in expected_rows('narrow', cfg, combo)]
                if [r['n_samples'] for r in rows] != [float(s) for s in sch]:
                    self.bad('incomplete-record', '%s trial: rows for sample counts %s, schedule %s' % (combo[0], [r['n_samples'] for r in rows], sch))
                mine = [x for x in notes if x['seed'] == seed]
                if not mine:
                    self.bad('wrong-seed', '%s trial records seed %s; environments were seeded with %s' % (combo[0], seed, [x['seed'] for x in notes][:4]))
                note = mine[-1]
                for r in rows:
                    s = note['samples'].get(int(r['n_samples']))
                    if s is None:
                        self.bad('no-roadmap', '%s trial: the roadmap was never grown to %d samples' % (combo[0], r['n_samples']))
                    self.check_record(cfg, combo, r, s)
                self.check_times(combo, rows, note, [x['from'] for x in notes])

    def check_times(self, combo, rows, note, starts):
        """Recorded durations against the simulated time that passed."""
        w, grain = self.w, self.w.grain
        what = '%s trial, seed %s: ' % (combo[0], note['seed'])
        for r in rows:
            n = int(r['n_samples'])
            for col, spent in (('build_time', note.get('grow')), ('check_time', note.get('query'))):
                if col not in r:
                    continue
                x = r[col]
                if not isinstance(x, float) or x < 0:
                    self.bad('times', what + '%s is recorded as %s' % (col, x))
                if spent is not None and x < spent.get(n, 0.0) - grain - 1e-6:
                    self.bad('times', what + '%s is recorded as %.6g for %d samples; %.6g seconds were spent' % (col, x, n, spent[n]))
        end = min([x for x in starts if x > note['from']], default=w.now)
        cols = [{r[c] for r in rows if r['n_samples'] == n} for n in {r['n_samples'] for r in rows} for c in ('build_time', 'check_time') if c in rows[0]]
        total = sum(sum(x) for x in cols)
        if total > end - note['from'] + grain * len(cols) + 1e-6:
            self.bad('times', what + 'the recorded durations add up to %.6g seconds, the trial took %.6g' % (total, end - note['from']))
        self.w.probe('times-checked')

    def end_c25(self, ci, c, tabs):
        cfg = c['config']
        for t, tab in enumerate(tabs):
            if tab is None:
                continue
            notes = self.sinks[ci, t]
            for combo, seed, rows in groups('knn', *tab):
                exp = [(e['n_samples'], e['n_neighbors']) for e in expected_rows('knn', cfg, combo)]
                if [(r['n_samples'], r['n_neighbors']) for r in rows] != [(float(a), float(b)) for a, b in exp]:
                    self.bad('incomplete-record', 'trial has rows for (samples, neighbours) %s instead of %s' % (
                        [(r['n_samples'], r['n_neighbors']) for r in rows], exp))
                mine = [x for x in notes if x['seed'] is not None and int(x['seed']) == seed]
                if not mine:
                    self.bad('wrong-seed', 'a trial records seed %s; environments were seeded with %s' % (seed, [x['seed'] for x in notes][:4]))
                note = mine[-1]
                pts = note['samples']
                if len(pts) != sum(cfg['sample_schedule']):
                    self.bad('samples', 'seed %s: %d samples were drawn for the sample counts %s' % (seed, len(pts), cfg['sample_schedule']))
                at = 0
                for s in cfg['sample_schedule']:
                    x = np.array(pts[at:at + s])
                    at += s
                    if x.shape[1] != combo[2]:
                        self.bad('samples', 'seed %s: samples of dimension %d in a trial of dimension %g' % (seed, x.shape[1], combo[2]))
                    d = np.linalg.norm(x[:, None, :] - x[None, :, :], axis=2)
                    np.fill_diagonal(d, math.inf)
                    d.sort(axis=1)
                    for r in rows:
                        if r['n_samples'] != s:
                            continue
                        want = float(d[:, int(r['n_neighbors']) - 1].min())
                        if r['eff_rad'] is None or abs(r['eff_rad'] - want) > 1e-5 * (1 + want):
                            self.bad('effective-radius', 'seed %s, %d samples: with %d neighbours the effective radius is recorded as %s; it is %.9g' % (
                                seed, s, r['n_neighbors'], r['eff_rad'], want))
                        self.w.probe('radius-checked')
                self.check_times(combo, rows, note, [x['from'] for x in notes])
                self.w.cover.add(h64('c25', combo[2], tuple(cfg['sample_schedule']), tuple(cfg['neighbor_schedule'])))

    def check_record(self, cfg, combo, r, s):
        kind, delta, dim = combo[0], float(combo[1]), int(combo[2])
        n = len(s)
        lb, ub = r['conn_lb'], r['conn_ub']
        what = '%s trial, dim %d, clearance %g, %d samples, seed %d: ' % (kind, dim, delta, n, r['seed'])
        iu, ju = np.triu_indices(n, 1)
        d = np.linalg.norm(s[iu] - s[ju], axis=1)
        v = geom._judge_narrow(s[iu], s[ju], delta, dim)
        v2 = geom._judge_narrow(s[ju], s[iu], delta, dim)
        v = np.where(v == v2, v, -1)
        corr = np.full(dim, 0.5) - delta
        ends = [np.array([-1.0] + [0.0] * (dim - 1)) - corr, np.array([1.0] + [0.0] * (dim - 1)) + corr]
        links = []
        for e in ends:
            dd = np.linalg.norm(s - e, axis=1)
            links.append((dd, geom._judge_narrow(np.tile(e, (n, 1)), s, delta, dim)))
        mx = float(cfg['radius_prm_max_radius'] if kind == 'radius' else cfg['knn_prm_max_neighbors'])
        if kind == 'knn':
            from ..stubs.pynndescent import knn
            K = int(min(n - 1, mx))
            f32 = s.astype(np.float32)
            ids = knn(f32, min(n - 1, K), False)[0]

        def route(setting, generous):
            """Shortest (length, points) at a setting; generous counts what is too close to call."""
            if kind == 'radius':
                band = 2e-5 * (1 + setting)
                okd = d <= setting + band if generous else d < setting - band
                entry = setting + (band if generous else -band)
            else:
                k = int(min(setting, mx))
                m = np.zeros((n, n), bool)
                for i in range(n):
                    for j in ids[i, :k]:
                        if j >= 0:
                            m[i, j] = m[j, i] = True
                okd = m[iu, ju]
                entry = None
            okv = v != 0 if generous else v == 1
            e = {}
            for i, j, w in zip(iu[okd & okv], ju[okd & okv], d[okd & okv]):
                e[int(i), int(j)] = float(w)
            src = []
            for dd, vv in links:
                lv = vv != 0 if generous else vv == 1
                lim = entry if entry is not None else knn_entry(generous)
                src.append({int(i): float(dd[i]) for i in np.nonzero((dd <= lim) & lv)[0]})
            return best_route(n, e, src[0], src[1])

        def knn_entry(generous):
            full = knn(f32, min(n - 1, K), False)[1]
            # with and without the point itself in its list
            a = float(np.sort(full, axis=1)[:, -1].min())
            b = float(np.sort(full, axis=1)[:, max(0, K - 2)].min()) if K >= 2 else 0.0
            return max(a, b) * (1 + 2e-5) if generous else min(a, b) * (1 - 2e-5)

        self.w.probe('record-checked')
        if ub is None:
            if r['thresh_path_dist'] is not None or r['thresh_path_len'] is not None:
                self.bad('claims', what + 'no succeeding setting, but a path of length %s' % r['thresh_path_dist'])
            if not r['info']:
                self.bad('claims', what + 'no succeeding setting, and the record does not say so')
            top = mx
            if kind == 'radius':       # the largest setting it can try is the length of the longest motion in its roadmap
                inside = d[(v == 1) & (d <= mx)]
                top = float(inside.max()) if len(inside) else 0.0
            else:
                top = min(mx, 2.0 ** max(2, round(math.log2(mx))))
            if lb is not None and (lb < top * (1 - 1e-6) if kind == 'radius' else lb < 2 ** max(2, round(math.log2(mx)))):
                self.bad('claims', what + 'no setting succeeds, but %.9g is reported as the failing one although larger ones such as %.9g were there to try' % (lb, top))
            if route(top, False) is not None:
                self.bad('missed-route', what + 'the record says that no setting succeeds, but at %g a route of length %.6g exists' % (top, route(top, False)[0]))
            self.w.probe('record-no-route')
        else:
            top = route(ub, True)
            if top is None:
                self.bad('false-success', what + 'no route exists at the setting %.9g that is reported as succeeding' % ub)
            if r['thresh_path_dist'] is None or r['thresh_path_len'] is None:
                self.bad('claims', what + 'succeeding setting %.9g without path length or point count' % ub)
            low = route(ub, False)
            L = r['thresh_path_dist']
            if L < top[0] - 1e-6 * (1 + top[0]):
                self.bad('path-length', what + 'path length %.9g at setting %.9g, the shortest route has %.9g' % (L, ub, top[0]))
            if low is not None and kind == 'radius' and L > low[0] + 1e-6 * (1 + L):
                self.bad('path-length', what + 'path length %.9g at setting %.9g, a shortest route has %.9g' % (L, ub, low[0]))
            if low is not None and kind == 'knn' and L > low[0] + 1e-6 * (1 + L):
                self.bad('path-length', what + 'path length %.9g with %g neighbours, a shortest route has %.9g' % (L, ub, low[0]))
            if abs(L - top[0]) < 1e-7 and low is not None and abs(low[0] - L) < 1e-7 and r['thresh_path_len'] not in [float(x) for x in range(top[1], top[2] + 1)]:
                self.bad('path-points', what + '%g points on the path, a shortest route has %d' % (r['thresh_path_len'], top[1]))
            self.w.probe('record-success')
        if lb is not None and ub is not None and not lb < (min(ub, mx) if kind == 'knn' else ub):
            self.bad('bracket', what + 'failing setting %.9g is not smaller than the succeeding %.9g' % (lb, ub))
        if lb is not None:
            cand = sorted(set(d[v == 1])) if kind == 'radius' else [4.0]
            smallest = lb <= (cand[0] if cand else math.inf) * (1 + 1e-6) if kind == 'radius' else lb <= 4
            if not smallest:
                low = route(lb, False)
                if low is not None:
                    self.bad('false-failure', what + 'a route of length %.6g exists at the setting %.9g that is reported as failing' % (low[0], lb))
                self.w.probe('record-failing-checked')
        if lb is not None and ub is not None:
            if kind == 'radius':
                between = d[(v == 1) & (d > lb * (1 + 1e-6)) & (d < ub * (1 - 1e-6))]
                if len(between):
                    self.bad('loose-bracket', what + 'edges of %d lengths (such as %.6g) lie between the failing %.6g and the succeeding %.6g' % (
                        len(between), between[0], lb, ub))
            elif ub > 2 * lb * (1 + 1e-9):
                self.bad('loose-bracket', what + 'failing %g and succeeding %g neighbours are not adjacent candidates' % (lb, ub))
        self.w.cover.add(h64(kind, dim, delta, n, lb is None, ub is None, r['info']))


def best_route(n, edges, src, dst):
    """Shortest source-samples-target route: (length, least and greatest number of samples on a shortest one), or None."""
    import heapq
    adj = [[] for _ in range(n)]
    for (i, j), w in edges.items():
        adj[i].append((j, w))
        adj[j].append((i, w))
    best = {}
    h = [(w, i) for i, w in src.items()]
    heapq.heapify(h)
    cnt = {}
    order = []
    dist = {}
    for w, i in h:
        dist[i] = min(dist.get(i, math.inf), w)
    while h:
        w, u = heapq.heappop(h)
        if u in best:
            continue
        best[u] = w
        order.append(u)
        for x, l in adj[u]:
            if w + l < dist.get(x, math.inf):
                dist[x] = w + l
                heapq.heappush(h, (w + l, x))
    ends = [(best[i] + w, i) for i, w in dst.items() if i in best]
    if not ends:
        return None
    total = min(ends)[0]
    tol = 1e-9 * (1 + total)
    lo, hi = {}, {}
    for u in order:
        a, b = [], []
        if u in src and src[u] <= best[u] + tol:
            a.append(1)
            b.append(1)
        for x, l in adj[u]:
            if x in lo and best[x] + l <= best[u] + tol:
                a.append(lo[x] + 1)
                b.append(hi[x] + 1)
        lo[u], hi[u] = min(a), max(b)
    fin = [i for t, i in ends if t <= total + tol]
    return total, min(lo[i] for i in fin), max(hi[i] for i in fin)


def run(plan):
    return Campaign(plan).run()
