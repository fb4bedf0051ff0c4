"""Scenario for C24: the result plots of the robot experiments.

Planning runs (the real programs, with scripted outcomes of their roadmap queries) leave their records in one tree on a shared disk:
started together or apart, with equal clock readings, killed, still running.  The plot scripts are executed for real, now and
then and at the end; what they draw is compared with what the runs did.
"""
import itertools
import posixpath

import numpy as np

from .. import core, harness, loader, world
from ..core import SimKilled, StubGap, h64
from . import robot
from .robot import RUNPY, TAMP, Job

SHRINK = ['runs', 'plots', 'faults', 'switches']
HANG_CPU = 100.0
HOME = '/home/user/exp'
SCRIPT = {'success': TAMP + '/turtlebot_move/time_success_plot.py', 'bound': TAMP + '/turtlebot_move/bound_plot.py',
          'scatter': TAMP + '/turtlebot_move/time_success_scatter.ipynb', 'scatter-kuka': TAMP + '/kuka_carry/time_success_scatter.ipynb',
          'scatter-adaptive': TAMP + '/kuka_carry/time_success_scatter_adaptive.ipynb'}
SCATTER = ['scatter', 'scatter-kuka', 'scatter-adaptive']


def warm():
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    ax.bar([0], [1], yerr=[1], label='x')
    fig.tight_layout()
    fig.legend()
    plt.close('all')


def gen(rng, prop, tier):
    plan = {'exec_seed': rng.randrange(1 << 40), 'prop': prop, 'tick': rng.pick([0.0, 0.0, 1e-4]), 'faults': [], 'switches': []}
    limits = [rng.pick([(2, 5), (10, 10), (1999, 2000), (40, 60), (100, 2000), (500, 30000)]) for _ in range(rng.pick([1, 2, 2, 3]))]
    runs = []
    n = rng.pick([0, 1, 2, 2, 4, 4, 7, 7])
    crowd = rng.chance(0.5)         # most runs at the same moment
    dirs = ['prm-1--20240101-000000', 'prm-2--20240101-000000', 'prm-%d--20240301-120000' % rng.randrange(200), 'kuka/prm-7', 'd0']
    plan['deployed'] = rng.chance(0.7)
    if plan['deployed']:            # (directories as the job scripts name them: the notebooks take no others)
        dirs[3:] = ['kuka/prm-7--20240102-030405', 'prm-3--20240101-000000']
    while len(runs) < n:
        kind = rng.wpick([('turtle', 3), ('kuka', 1)])
        mn, mx = rng.pick(limits)
        runs.append({'kind': kind, 'host': rng.randrange(3), 'at': 0.0 if crowd and rng.chance(0.8) else rng.pick([0.0, 1.0, round(900 * rng.random(), 2)]),
                     'dir': rng.pick(dirs),
                     'seed': rng.randrange(200), 'min': mn, 'max': mx, 'adaptive': rng.chance(0.2),
                     'delta': rng.pick([0.05, 0.1, round(0.03 + 0.1 * rng.random(), 3)]), 'targets': rng.pick([1, 1, 2]), 'bodies': rng.pick([1, 1, 2]),
                     'theta': 0.26, 'buffer': 0.02, 'solve': rng.pick([0, 20, 60, 100])})
    plan['runs'] = runs
    kinds = ['success', 'bound'] + (SCATTER if plan['deployed'] else [])
    plan['plots'] = [{'what': rng.pick(kinds), 'at': rng.pick([round(1500 * rng.random(), 2), 20000.0]), 'host': rng.randrange(3)}
                     for _ in range(rng.pick([0, 0, 1, 2]))]
    plan['plots'] += [{'what': 'success', 'at': 30000.0, 'host': 0}, {'what': 'bound', 'at': 31000.0, 'host': 1}]
    if plan['deployed']:
        plan['plots'].append({'what': rng.pick(SCATTER), 'at': 32000.0, 'host': 2})
    plan['offsets'] = [0.0, rng.pick([0.0, 0.0, 1e-3, 4e4]), rng.pick([0.0, -3.3])]
    plan['switches'] = core.gen_switches(rng, 3000, rng.pick([10, 60, 300]))
    if rng.chance(0.4):
        for _ in range(rng.pick([1, 2])):
            plan['faults'].append({'proc': 'run%d' % rng.randrange(n or 1), 'cls': 'op', 'kind': rng.pick(['kill', 'kill', 'interrupt']), 'when': 'before',
                                   'nth': rng.randrange(1, rng.pick([5, 60, 400])), 'frac': 0.5})
    return plan


class Run(robot.Run):
    def watch(self, p, prm, j, record):
        """Roadmaps are not grown; whether a query finds a route is the plan's choice."""
        run = self
        for cls in [c for c in vars(prm).values() if isinstance(c, type) and issubclass(c, prm.SimplePRM)]:
            d = vars(cls)

            def mk_init(orig):
                def __init__(self, *a, **kw):
                    if not getattr(self, '_seen', False):
                        self._seen = True
                        j.calls.append([])
                    orig(self, *a, **kw)
                return __init__

            def grow_to_n_samples(self, n, *a, **kw):
                j.calls[-1].append(int(n))

            def query_best_solution(self, start, goal, *a, **kw):
                s, g = np.atleast_2d(start), np.atleast_2d(goal)
                c = j.cfg
                last = j.calls[-1]
                if h64(run.plan['exec_seed'], p.name, 'route', len(j.calls), len(last)) % 100 < c['solve']:
                    j.found = last[-1]
                    return float(np.linalg.norm(s - g)), np.concatenate([s, g])
                return np.inf, np.empty((0, s.shape[1]))
            if '__init__' in d:
                cls.__init__ = mk_init(d['__init__'])
            if 'grow_to_n_samples' in d:
                cls.grow_to_n_samples = grow_to_n_samples
            if 'query_best_solution' in d:
                cls.query_best_solution = query_best_solution
            for nm in ('num_vertices', 'num_edges'):
                if nm in d:
                    setattr(cls, nm, lambda self: 0)

    def check_rooms(self, p, j, problem):
        pass

    check_bins = check_rooms

    def run(self):
        plan, w = self.plan, self.w
        w.fs.makedirs(HOME + '/runs')
        for k, off in enumerate(plan['offsets']):
            w.host('h%d' % k, offset=off)
        for i, c in enumerate(plan['runs']):
            c = dict(c, record=True, omit=[], randomize=False, teleport=True)
            a = self.args_of(dict(c, dir=0))
            a = [x for x in a if not x.startswith('--save-dir')] + ['--save-dir=%s/runs/%s' % (HOME, c['dir'])]
            if c['kind'] == 'kuka':
                a = [x for x in a if x != '--teleport']
            j = Job([RUNPY[c['kind']]] + a, {}, TAMP)
            j.found, j.cfg = None, c
            self.jobs.append(j)

            def go(p, j=j, c=c):
                p.cfg, p.nbodies = c, c['bodies']
                p.unreachable = lambda: False
                self.body(p, j, c['kind'], True)
            j.p = w.spawn('run%d' % i, go, host='h%d' % c['host'], argv=j.argv, cwd=TAMP, start=c['at'],
                          import_dirs=[posixpath.dirname(RUNPY[c['kind']]), world.REPO_SIM])
        self.drawn, self.drawing = [], False
        for i, c in enumerate(plan['plots']):
            rec = dict(c, state='none')
            self.drawn.append(rec)

            def draw(p, rec=rec):
                import matplotlib.pyplot as plt
                w.wait_until(p, lambda: not self.drawing)       # (one drawing library for all simulated processes)
                self.drawing = True
                plt.close('all')
                rec['before'] = self.state()
                rec['certain'] = [self.over(j) for j in self.jobs]
                rec['fig'] = None

                def show(*a, **k):
                    rec['fig'] = rec['fig'] or self.read(plt)
                real = plt.show, plt.savefig
                plt.show, plt.savefig = show, show
                try:
                    (loader.run_notebook if rec['what'] in SCATTER else loader.run_script)(p, SCRIPT[rec['what']])
                    show()
                finally:
                    self.drawing = False
                    plt.show, plt.savefig = real
                    plt.close('all')
                rec['possible'] = [j.solves != [] for j in self.jobs]
            rec['p'] = w.spawn('plot%d' % i, draw, host='h%d' % c['host'], argv=[SCRIPT[c['what']]], cwd=HOME, start=c['at'],
                               import_dirs=[posixpath.dirname(SCRIPT[c['what']]), world.REPO_SIM])
        w.run()
        hit = {plan['faults'][i]['proc'] for i in w.fired_ids}
        for j in self.jobs:
            if j.p.exc is not None and not isinstance(j.p.exc, SimKilled) and j.p.name not in hit and not j.failed:
                harness.process_died(j.p, self.prop)
        for rec in self.drawn:
            if rec['p'].exc is not None:
                harness.process_died(rec['p'], self.prop)
            {'success': self.check_success, 'bound': self.check_bound}.get(rec['what'], self.check_scatter)(rec, hit)
        return w

    def state(self):
        return [(len(j.solves), j.p.finished) for j in self.jobs]

    def over(self, j):
        return j.p.finished and j.p.exit_code == 0 and bool(j.solves)

    @staticmethod
    def read(plt):
        """What is on the open figures: bars (by axis), point clouds, tick labels."""
        from matplotlib.container import BarContainer, ErrorbarContainer
        out = []
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                bars, series = [], []
                for c in ax.containers:
                    if isinstance(c, ErrorbarContainer) and c.lines[0] is not None:
                        xy = [list(map(float, q)) for q in c.lines[0].get_xydata()]
                        for k, lc in enumerate(c.lines[2]):         # (the bars along x, then those along y)
                            for q, seg in zip(xy, lc.get_segments()):
                                q.append(abs(float(seg[-1][k] - seg[0][k])) / 2 if len(seg) else float('nan'))
                        series.append([tuple(q) for q in xy])
                    if isinstance(c, BarContainer):
                        err = []
                        if c.errorbar is not None:
                            for seg in c.errorbar[2][0].get_segments():
                                err.append(abs(float(seg[1][1] - seg[0][1])) / 2 if len(seg) == 2 else 0.0)
                        bars.append(([float(r.get_height()) for r in c.patches], err))
                lg = ax.get_legend()
                out.append({'y': ax.get_ylabel(), 'x': ax.get_xlabel(), 'bars': bars, 'series': series, 'names': [t.get_text() for t in lg.get_texts()] if lg else [], 'labels': [t.get_text() for t in ax.get_xticklabels()],
                            'points': [tuple(map(float, p)) for c in ax.collections for p in np.asarray(c.get_offsets()) if not bars],
                            'lines': [np.asarray(x.get_xydata()).tolist() for x in ax.lines]})
        return out

    def check_success(self, rec, hit):
        axes = [a for a in rec['fig'] if a['bars']]
        who = 'the success plot at %.0f s' % rec['at']
        rate = [a for a in axes if 'success' in a['y'].lower()]
        time = [a for a in axes if 'time' in a['y'].lower()]
        if len(rate) != 1 or len(time) != 1 or len(rate[0]['bars']) != 1 or len(time[0]['bars']) != 1:
            raise StubGap('success plot: axes %s' % [(a['y'], len(a['bars'])) for a in axes])
        labels = [a['labels'] for a in rate + time]
        n = len(rate[0]['bars'][0][0])
        labels = [x for x in labels if len(x) == n and all('-' in t for t in x)] or [[]]
        got = {}
        for k, lb in enumerate(labels[0]):
            got[lb] = tuple(a['bars'][0][e][k] for a in rate + time for e in (0, 1) if len(a['bars'][0][e]) > k)
        groups = {'%d-%d-%d' % k: v for k, v in self.groups(rec, hit).items()}
        for lb in got:
            if lb not in groups:
                self.bad('phantom', '%s shows a group %s, no run belongs there (groups: %s)' % (who, lb, sorted(groups)))
        for lb, members in groups.items():
            sure = [(i, j) for i, j in members if rec['certain'][i]]
            rest = [(i, j) for i, j in members if not rec['certain'][i]]
            if lb not in got:
                if sure:
                    self.bad('missing', '%s lacks the group %s of %d completed runs' % (who, lb, len(sure)))
                continue
            if len(rest) > 6:
                continue
            ok = False
            for k in range(len(rest) + 1):
                for extra in itertools.combinations(rest, k):
                    xs = [j for _, j in sure + list(extra) if j.solves[-1][2] is not None]
                    ok = ok or bool(xs) and self.agrees(got[lb], xs)
            if not ok:
                xs = [j for _, j in sure]
                self.bad('statistics', '%s: group %s shows %s; its %d completed runs: solved %s, times %s' % (
                    who, lb, [round(x, 4) for x in got[lb]], len(xs), [bool(j.solves[-1][3]) for j in xs],
                    [round(j.solves[-1][2] - j.solves[-1][1], 2) for j in xs]))
            self.w.probe('group-checked')
            if len(sure) > 1:
                self.w.probe('group-of-several')
        self.w.cover.add(h64('success', sorted((k, [round(x, 3) for x in v]) for k, v in got.items())))

    def groups(self, rec, hit):
        """Runs by smallest size, largest size and adaptive choice; those whose outcome is not recorded for sure are marked so."""
        groups = {}
        for i, j in enumerate(self.jobs):
            c = j.cfg
            if not rec['possible'][i]:
                continue
            if not rec['certain'][i] and (j.p.name in hit and not j.p.exit_code == 0 and j.solves[-1][2] is None):
                continue                                    # stopped before its outcome was known
            mn, mx = (c['min'], c['max']) if not c['adaptive'] else {'turtle': (10, 2000), 'kuka': (500, 30000)}[c['kind']]
            groups.setdefault((mn, mx, int(c['adaptive'])), []).append((i, j))
        return groups

    def check_scatter(self, rec, hit):
        """The notebooks' scatter: a point per group, in the series of its kind of planner."""
        who = 'the scatter (%s) at %.0f s' % (rec['what'], rec['at'])
        axes = [a for a in rec['fig'] if a['series']]
        if len(axes) != 1 or len(axes[0]['names']) != len(axes[0]['series']):
            raise StubGap('scatter: axes %s' % [(a['y'], a['names'], len(a['series'])) for a in axes])
        left = {n: list(s) for n, s in zip(axes[0]['names'], axes[0]['series'])}
        seen = 0
        for (mn, mx, ad), members in sorted(self.groups(rec, hit).items(), key=str):
            name = 'aPRM' if ad else 'sPRM' if mn == mx - 1 else 'iPRM'
            sure = [j for i, j in members if rec['certain'][i]]
            rest = [j for i, j in members if not rec['certain'][i]]
            if name not in left:
                raise StubGap('scatter: series %s' % sorted(left))
            if len(rest) > 5:
                return
            found = None
            for k in range(len(rest) + 1):
                for extra in itertools.combinations(rest, k):
                    xs = [j for j in sure + list(extra) if j.solves[-1][2] is not None]
                    for q in left[name] if xs else []:
                        if found is None and len(q) == 4 and self.agrees((q[1], q[3], q[0], q[2]), xs):
                            found = q
            if found is not None:
                left[name].remove(found)
                seen += 1
            elif sure and not rest:
                self.bad('missing', '%s: no point of %s shows the %d completed runs with %d to %d samples (solved %s, times %s); shown: %s' % (
                    who, name, len(sure), mn, mx, [bool(j.solves[-1][3]) for j in sure], [round(j.solves[-1][2] - j.solves[-1][1], 2) for j in sure],
                    [[round(x, 3) for x in q] for q in left[name]]))
            elif sure:
                return
        for name, qs in left.items():
            if qs:
                self.bad('phantom', '%s: series %s has the points %s that are no group of completed runs' % (who, name, [[round(x, 3) for x in q] for q in qs]))
        if seen:
            self.w.probe('scatter-checked')
        self.w.cover.add(h64('scatter', seen, sorted(left)))

    @staticmethod
    def agrees(got, xs):
        s = np.array([1.0 if j.solves[-1][3] else 0.0 for j in xs])
        t = np.array([j.solves[-1][2] - j.solves[-1][1] for j in xs])
        want = (s.mean(), s.std() / np.sqrt(len(xs)), t.mean(), t.std() / np.sqrt(len(xs)))
        if len(got) != 4:
            return False
        return abs(got[0] - want[0]) < 1e-6 and abs(got[1] - want[1]) < 1e-6 and abs(got[2] - want[2]) < 0.6 and abs(got[3] - want[3]) < 0.6

    def check_bound(self, rec, hit):
        who = 'the bound plot at %.0f s' % rec['at']
        pts = [p for a in rec['fig'] for p in a['points']]
        sure, maybe = [], []
        for i, j in enumerate(self.jobs):
            if j.found is None or not rec['possible'][i]:
                continue
            (sure if rec['certain'][i] else maybe).append((j.cfg['delta'], j))
        left = list(pts)

        def take(delta, j, must):
            for p in left:
                found = {c[-1] for c in j.calls if c} if not must else {j.found}
                if abs(p[0] - delta) < 1e-9 and any(f <= p[1] + 1e-6 and p[1] < f + 1 for f in found):
                    left.remove(p)
                    return
            if must:
                self.bad('missing', '%s has no point for %s: clearance %s, route found with %d samples (points: %s)' % (who, j.p.name, delta, j.found, pts[:6]))
        for delta, j in sorted(sure, key=lambda x: x[1].p.name):
            take(delta, j, True)
            self.w.probe('point-checked')
        for delta, j in maybe:
            take(delta, j, False)
        if left:
            self.bad('phantom', '%s has the points %s that belong to no run that found a route' % (who, left[:4]))
        self.w.cover.add(h64('bound', sorted(pts)))


def run(plan):
    return Run(plan).run()
