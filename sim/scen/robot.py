"""Scenario for C22 and C23: the robot experiments from the deployer's submissions down to what each planning run plans with,
records and reports.

C22: a deployer submits; the simulated scheduler starts array elements (together, later, or again after a requeue); each
element's job script is interpreted and the planning run it starts is executed for real with the roadmap growth recorded
instead of carried out.
C23: planning runs (turtlebot_move/run.py, kuka_carry/run.py) side by side on a shared disk with faults; the task planner
around them is a stand-in that calls the motion streams.
"""
import ast
import posixpath
import re

import numpy as np

from .. import core, harness, loader, seams, shell, tampstubs as ts, world
from ..core import SimHang, SimKilled, StubGap, Violation, h64
from .deploy import SCRIPTS, JOBSCRIPT, TAMP

SHRINK = ['picks', 'runs', 'faults', 'switches']
TEMP = world.REPO_SIM + '/temp'
KIND = {'D1': 'turtle', 'D2': 'kuka', 'D3': 'kuka'}
RUNPY = {'turtle': TAMP + '/turtlebot_move/run.py', 'kuka': TAMP + '/kuka_carry/run.py'}
HANG_CPU = 100.0


# ------------------------------------------------------------------------------------------------ plans
def gen(rng, prop, tier):
    plan = {'exec_seed': rng.randrange(1 << 40), 'prop': prop, 'tick': rng.pick([0.0, 1e-4, 1e-3]), 'faults': [], 'switches': []}
    if prop == 'C22':
        which = rng.wpick([('D1', 5), ('D2', 3), ('D3', 3)])
        most = {'D1': rng.pick([1, 2, 3, 5]), 'D2': rng.pick([1, 3, 12, 40]), 'D3': rng.pick([1, 5, 30, 90])}[which]
        picks = []
        for _ in range(rng.pick([3, 6, 8])):
            picks.append({'sub': rng.randrange(most), 'index': rng.pick([1, 2, 3, 49, 50, 0, 0, 0]) or rng.randrange(1, 51),
                          'at': rng.pick([0.0, 0.0, 0.0, 0.4, 1.0, round(100 * rng.random(), 2)]), 'again': rng.pick([0, 0, 0, 1])})
        if rng.chance(0.5):         # the same element twice, a requeue while the node was lost
            picks.append(dict(rng.pick(picks)))
        plan.update(which=which, most=most, picks=picks, user=rng.pick(['alice', 'acurtis']), offset=rng.pick([0.0, 0.0, 3e5, -7.7e6]))
        plan['switches'] = core.gen_switches(rng, 2000, rng.pick([20, 200]))
        return plan
    runs = []
    group = 0
    while len(runs) < rng.pick([1, 2, 3, 4]) or len(runs) < 1:
        kind = rng.wpick([('turtle', 7), ('kuka', 3)])
        c = {'kind': kind, 'host': rng.randrange(3), 'at': rng.pick([0.0, 0.0, 0.0, 1.0, round(60 * rng.random(), 2)]), 'dir': rng.randrange(2),
             'seed': rng.pick([-1, 0, 1, 2, 3, rng.randrange(1000)]), 'record': rng.chance(0.6)}
        mn = rng.pick([2, 5, 10, 20, 40])
        c['min'], c['max'] = mn, mn + rng.pick([0, 1, 5, 20, 60])
        if c['record']:
            c['max'] = mn + rng.pick([0, 1, 10, 500, 20000])
        if kind == 'turtle':
            c['delta'] = rng.pick([0.05, 0.05, round(0.02 + 0.3 * rng.random(), 3), round(0.3 + 0.7 * rng.random(), 3)])
            c['randomize'] = rng.chance(0.15)
            c['targets'] = rng.pick([1, 1, 2, 3, 5])
            c['teleport'] = rng.chance(0.2)
            c['adaptive'] = c['record'] and rng.chance(0.25)
        else:
            c['delta'] = rng.pick([0.04, 0.05, 0.1, round(0.025 + 0.1 * rng.random(), 3)])
            c['theta'] = rng.pick([0.26, 0.1, 0.05])
            c['buffer'] = rng.pick([0.02, 0.03])
            c['unreachable'] = rng.pick([0, 0, 0, 5, 20])       # per cent of the poses met while setting up
            c['adaptive'] = c['record'] and rng.chance(0.25)
            if not c['record']:
                c['min'], c['max'] = min(c['min'], 10), min(c['max'], 14, min(c['min'], 10) + 4)
        c['bodies'] = rng.pick([1, 1, 2])
        if not c['record']:
            c['min'] = min(c['min'], 8)
            c['max'] = min(c['max'], c['min'] + rng.pick([0, 2, 6]), 14)
            if kind == 'turtle':
                c['targets'] = min(c['targets'], 2)
                c['delta'] = rng.pick([c['delta'], 0.5, 0.9])
        c['omit'] = [x for x in ('delta', 'seed', 'limits') if rng.chance(0.08)] if c['record'] else []
        c['factor'] = rng.pick([None, None, 2, 1.5, 1.25, 1.05, 3.0]) if c['record'] else rng.pick([None, 1.5, 2])
        group += 1
        c['group'] = group
        runs.append(c)
        if rng.chance(0.5):         # the same run again: elsewhere, later, or at the same moment
            d = dict(c, host=rng.randrange(3), at=rng.pick([c['at'], c['at'], 7.0]), dir=rng.pick([c['dir'], rng.randrange(2)]))
            runs.append(d)
    plan.update(runs=runs[:5], offsets=[0.0, rng.pick([0.0, 0.0, 1e-3, 4e4]), rng.pick([0.0, -3.3])])
    plan['switches'] = core.gen_switches(rng, 3000, rng.pick([10, 60, 300])) if len(runs) > 1 else []
    if rng.chance(0.35):
        for _ in range(rng.pick([1, 1, 2])):
            cls, kind = rng.pick([('op', 'kill'), ('op', 'kill'), ('mkdir', 'enospc'), ('mkdir', 'eacces'), ('open-w', 'enospc'), ('write', 'enospc'),
                                  ('write', 'eio'), ('op', 'interrupt'), ('ann', 'memerr')])
            f = {'proc': 'run%d' % rng.randrange(len(plan['runs'])), 'cls': cls, 'kind': kind, 'nth': rng.randrange(1, rng.pick([3, 30, 300])),
                 'frac': round(rng.random(), 3)}
            if kind == 'kill':
                f['when'] = 'before'
            plan['faults'].append(f)
    return plan


# ------------------------------------------------------------------------------------------------ one planning run
class Job:
    """What a planning run did, as seen from outside."""

    def __init__(self, argv, env, cwd):
        self.argv, self.env, self.cwd = argv, env, cwd
        self.calls = []             # motion planning: [sizes asked for, ...] per call
        self.reach = []             # what the planner samples from, per call
        self.solves = []            # (temp dir, begin, end, solved)
        self.paths = []
        self.layout = None
        self.kw = None
        self.failed = False


class Run:
    def __init__(self, plan):
        self.plan, self.prop = plan, plan['prop']
        w = self.w = world.mkworld(plan, tick=plan['tick'], tree=False, max_steps=120_000)
        for rel, data in world.repo_tree():
            if data is not None and rel.startswith('exps/tamp_environment/') and rel.endswith(('.sh', '.pddl', '.txt', '.py')):
                w.fs.put(world.REPO_SIM + '/' + rel, data, durable=False)
        w.fs.put(TEMP + '/.gitignore', '*\n', durable=False)
        self.jobs = []

    def bad(self, cls, detail):
        raise Violation(cls, detail, self.prop)

    # -------------------------------------------------------- inside a planning run
    def body(self, p, j, kind, record):
        p.bodies, p.removed = [], 0
        p.job = j
        seams.private_stdlib(p, 'logging')
        prm = loader.load(p, 'nonasymptotic.prm')
        self.watch(p, prm, j, record)
        p.solver = lambda problem, kw: self.solve(p, j, kind, problem, kw)
        loader.run_script(p, RUNPY[kind])

    def watch(self, p, prm, j, record):
        run = self
        for cls in [c for c in vars(prm).values() if isinstance(c, type) and issubclass(c, prm.SimplePRM)]:
            def mk_init(orig):
                def __init__(self, k, valid, sample, *a, **kw):
                    if not getattr(self, '_seen', False):
                        self._seen = True
                        j.calls.append([])
                        j.reach.append(run.spread(p, sample))
                    orig(self, k, valid, sample, *a, **kw)
                return __init__

            def mk_grow(orig):
                def grow_to_n_samples(self, n, *a, **kw):
                    j.calls[-1].append(int(n))
                    run.w.log(p.name, 'grow', int(n))
                    if record:
                        return None
                    return orig(self, n, *a, **kw)
                return grow_to_n_samples

            def mk_query(orig):
                def query_best_solution(self, start, goal, *a, **kw):
                    if record and getattr(p, 'answers', None):
                        return p.answers(self, start, goal)
                    if record:
                        return np.inf, np.empty((0, np.atleast_2d(start).shape[1]))
                    return orig(self, start, goal, *a, **kw)
                return query_best_solution
            d = vars(cls)
            if '__init__' in d:
                cls.__init__ = mk_init(d['__init__'])
            if 'grow_to_n_samples' in d:
                cls.grow_to_n_samples = mk_grow(d['grow_to_n_samples'])
            if 'query_best_solution' in d:
                cls.query_best_solution = mk_query(d['query_best_solution'])
            if record:
                for nm in ('num_vertices', 'num_edges'):
                    if nm in d:
                        setattr(cls, nm, lambda self: 0)

    @staticmethod
    def spread(p, sample):
        """How far the sampler of an insertion turns the object (None: a planar robot)."""
        import random
        state = random.getstate(), np.random.get_state()
        p.quiet += 1
        try:
            x = np.array([np.ravel(sample()) for _ in range(300)])
        finally:
            p.quiet -= 1
            random.setstate(state[0])
            np.random.set_state(state[1])
        return float(np.abs(x[:, 3:]).max()) if x.shape[1] == 6 else None

    def solve(self, p, j, kind, problem, kw):
        """The task planner: writes its files, asks the streams for motions, reports."""
        w = self.w
        begin = w.now
        d = kw.get('temp_dir')
        mark = 'domain %s %d\n' % (p.name, len(j.solves))
        j.solves.append([posixpath.normpath(posixpath.join(p.cwd, d)) if d else None, begin, None, None])
        if d:
            with open(d + '/domain.pddl', 'w') as f:
                f.write(mark)
        w.sleep(p, 1.0 + (h64(self.plan['exec_seed'], p.name, 'think') % 1000) / 3.0)
        j.kw = kw
        p.quiet += 1
        at = {f[1]: (f[2].pose if hasattr(f[2], 'pose') else f[2].value) for f in problem.init if f[0] == 'AtPose'}
        j.layout = [(int(b), b.radius, b.extent.tolist(), np.round(np.array(at.get(b, b.pose)[0], float), 12).tolist()) for b in p.bodies if not isinstance(b, ts.Gripper)]
        if self.prop == 'C23':
            (self.check_rooms if kind == 'turtle' else self.check_bins)(p, j, problem)
        p.quiet -= 1
        try:
            plan = (self.solve_turtle if kind == 'turtle' else self.solve_kuka)(p, j, problem)
            j.solves[-1][3] = plan is not None
        except BaseException as e:
            j.solves[-1][3] = False
            if not isinstance(e, (SimKilled, SimHang, StubGap, Violation)):
                j.failed = True
            raise
        finally:
            w.sleep(p, (h64(self.plan['exec_seed'], p.name, 'think2') % 100) / 7.0)
            j.solves[-1][2] = w.now
        if d:
            with open(d + '/domain.pddl') as f:
                got = f.read()
            if got != mark and not self.plan['faults']:
                p.quiet += 1
                self.bad('mixed-files', '%s: the task planner of another run wrote into its directory %s' % (p.name, d))
        return plan, 1.0 if plan is not None else float('inf'), []

    def solve_turtle(self, p, j, problem):
        facts = problem.init
        rover = [f for f in facts if f[0] == 'Rover'][0][1]
        here = [f for f in facts if f[0] == 'AtConf'][0][2]
        at = {f[1]: f[2] for f in facts if f[0] == 'AtPose'}
        plan = []
        for _, body, goal in [g for g in problem.goal[1:]]:
            confs = []
            for pose in (at[body], goal):
                out = problem.stream_map['sample-ik'](rover, body, pose)
                confs.append(out.outputs[0])
            for name, args in (('sample-motion', (rover, here, confs[0])), ('sample-motion-holding', (rover, confs[0], confs[1], body))):
                out = problem.stream_map[name](*args)
                if out is None:
                    if self.prop == 'C22':
                        continue
                    return None
                j.paths.append([tuple(c.values) for c in out.outputs[0].path])
                plan.append(('move', args))
            here = confs[1]
        return plan if plan else None

    def solve_kuka(self, p, j, problem):
        facts = problem.init
        pre = [f[1] for f in facts if f[0] == 'PreInsert']
        post = [f[1] for f in facts if f[0] == 'PostInsert']
        todo = []
        for f in facts:
            if f[0] == 'Kin' and any(f[4] is c for c in pre):
                for g in facts:
                    if g[0] == 'Kin' and g[1] is f[1] and any(g[4] is c for c in post):
                        todo.append((f[4], g[4], f[1], f[3]))
        k = h64(self.plan['exec_seed'], 'first') % max(1, len(todo) - 1)
        todo = todo[1 + k:] + todo[1:1 + k] + todo[:1]       # (the widest body last)
        plan = []
        for t in todo[:p.nbodies]:
            out = problem.stream_map['plan-insert-motion'](*t)
            if out is None:
                return None
            plan.append(('move_insert', t))
            j.paths.append([list(q) for q in harness.waypoints(out[0].body_paths, self.bad)])
        return plan or None

    # -------------------------------------------------------- what the problem must look like
    def check_rooms(self, p, j, problem):
        boxes, discs = [], []
        rover = [f for f in problem.init if f[0] == 'Rover'][0][1]
        for b in p.bodies:
            if b is rover or b.extent[2] < 0.01:
                continue
            (discs if b.radius is not None else boxes).append(b)
        c = p.cfg
        if len(discs) != c['targets']:
            self.bad('targets', '%s: %d targets for --num-targets=%d' % (p.name, len(discs), c['targets']))
        q0 = np.array([f for f in problem.init if f[0] == 'AtConf'][0][2].values[:2], float)
        R = [(np.array(b.pose[0][:2]) - b.extent[:2] / 2, np.array(b.pose[0][:2]) + b.extent[:2] / 2) for b in boxes]
        widest = max([2 * d.radius for d in discs] + [0.0])
        # the hallway: how far the walls are from its middle line, from room to room
        y0 = q0[1]
        xs = [q0[0] + 0.01 * k for k in range(int(abs(2 * q0[0]) / 0.01) + 1)]
        up = min(min([lo[1] for lo, hi in R if lo[0] <= x <= hi[0] and hi[1] > y0] + [9e9]) - y0 for x in xs)
        dn = min(y0 - max([hi[1] for lo, hi in R if lo[0] <= x <= hi[0] and lo[1] < y0] + [-9e9]) for x in xs)
        delta = c['delta']
        if c.get('randomize'):
            delta = up + dn - widest
            if not 0.01 - 1e-6 <= delta <= 0.2 + 1e-6:
                self.bad('hallway', '%s: with a random delta the hallway is %.4f wider than the widest object (0.01 to 0.2 were asked for)' % (p.name, delta))
        if abs(up + dn - widest - delta) > 1e-6 or abs(up - dn) > 1e-6:
            self.bad('hallway', '%s: the hallway is %.6f wide (%.6f above its middle, %.6f below), the widest object %.6f, delta is %s' % (
                p.name, up + dn, up, dn, widest, c['delta']))
        small = float(rover.extent[0]) / 2
        for d in discs:
            if not small - 1e-9 <= d.radius <= widest / 2 + 1e-9:
                self.bad('targets', '%s: a target of radius %.4f (the robot has %.4f, the widest target %.4f)' % (p.name, d.radius, small, widest / 2))
        # nobody gets out: flood the free space for a point
        lo = np.min([a for a, b in R], axis=0) - 0.3
        hi = np.max([b for a, b in R], axis=0) + 0.3
        h = 0.025
        nx, ny = int((hi[0] - lo[0]) / h) + 1, int((hi[1] - lo[1]) / h) + 1
        free = np.ones((nx, ny), bool)
        for a, b in R:
            i0, i1 = np.floor((a - lo) / h).astype(int) + 1, np.ceil((b - lo) / h).astype(int)
            free[max(i0[0], 0):i1[0], max(i0[1], 0):i1[1]] = False
        seen = np.zeros_like(free)
        s = tuple(np.round((q0 - lo) / h).astype(int))
        seen[s] = True
        while True:
            grow = seen.copy()
            grow[1:] |= seen[:-1]
            grow[:-1] |= seen[1:]
            grow[:, 1:] |= seen[:, :-1]
            grow[:, :-1] |= seen[:, 1:]
            grow &= free
            if (grow == seen).all():
                break
            seen = grow
        if seen[0].any() or seen[-1].any() or seen[:, 0].any() or seen[:, -1].any():
            self.bad('walls', '%s: the rooms and the hallway are not closed' % p.name)
        # the targets: in the rooms, on the free floor
        at = {f[1]: f[2] for f in problem.init if f[0] == 'AtPose'}
        for what, poses in (('start', at), ('goal', {g[1]: g[2] for g in problem.goal[1:]})):
            pts = []
            for d in discs:
                if d not in poses:
                    self.bad('targets', '%s: a target has no %s place' % (p.name, what))
                x = np.array(poses[d].pose[0][:2], float)
                i = tuple(np.round((x - lo) / h).astype(int))
                inside = 0 <= i[0] < nx and 0 <= i[1] < ny and seen[i] and abs(x[0]) > 1.5
                if not inside or (x[0] > 0) == (what == 'goal'):
                    self.bad('placement', '%s: the %s place of a target, (%.3f, %.3f), is not in its room' % (p.name, what, x[0], x[1]))
                for a, b in R:
                    if np.linalg.norm(np.maximum(np.maximum(a - x, x - b), 0)) <= d.radius:
                        self.bad('placement', '%s: the %s place of a target, (%.3f, %.3f), is in a wall' % (p.name, what, x[0], x[1]))
                for y, r in pts:
                    if np.linalg.norm(y - x) <= r + d.radius:
                        self.bad('placement', '%s: two targets overlap at their %s places' % (p.name, what))
                pts.append((x, d.radius))

    def check_bins(self, p, j, problem):
        c = p.cfg
        bins = [b for b in p.bodies if b.links]
        movable = [f[1] for f in problem.init if f[0] == 'Graspable']
        if not bins or len(movable) != len(bins):
            self.bad('bins', '%s: %d containers for %d objects' % (p.name, len(bins), len(movable)))
        widest = max(float(b.extent[0]) for b in movable)
        for b in bins:
            lo, hi = ts.get_aabb(b)
            if np.abs((hi - lo)[:2] - (widest + c['delta'])).max() > 1e-6:
                self.bad('bins', '%s: a container is %s wide, the widest object %.3f, delta is %s' % (p.name, np.round(hi - lo, 4).tolist(), widest, c['delta']))
        at = {f[1]: f[2] for f in problem.init if f[0] == 'AtPose'}
        home = [(b, b.pose) for b in p.bodies]
        try:
            for b in movable:
                ts.set_pose(b, at[b].pose)
            for i, b in enumerate(movable):
                for o in list(bins) + movable[:i]:
                    if ts.pairwise_collision(b, o):
                        self.bad('placement', '%s: an object starts in collision with another object or a container' % p.name)
        finally:
            for b, q in home:
                b.pose = q

    # -------------------------------------------------------- C23
    def args_of(self, c):
        a = []
        if 'seed' not in c['omit']:
            a.append('--seed=%d' % c['seed'])
        a.append('--save-dir=/home/user/runs/d%d' % c['dir'])
        if 'limits' not in c['omit'] and not c['adaptive']:
            a += ['--min-samples=%d' % c['min'], '--max-samples=%d' % c['max']]
        if 'delta' not in c['omit']:
            a.append('--delta=%s' % c['delta'])
        if c['adaptive']:
            a.append('--adaptive-n')
        if c.get('factor'):
            a.append('--factor=%s' % c['factor'])
        if c['kind'] == 'turtle':
            a.append('--num-targets=%d' % c['targets'])
            if c['randomize']:
                a.append('--randomize-delta')
            if c['teleport']:
                a.append('--teleport')
        else:
            a += ['--theta-margin=%s' % c['theta'], '--collision-buffer=%s' % c['buffer']]
        return a

    def run_c23(self):
        plan, w = self.plan, self.w
        for k, off in enumerate(plan['offsets']):
            w.host('h%d' % k, offset=off)
        for i, c in enumerate(plan['runs']):
            argv = [RUNPY[c['kind']]] + self.args_of(c)
            j = Job(argv, {}, TAMP)
            cfg = dict(c)
            if 'delta' in c['omit']:
                cfg['delta'] = 0.05 if c['kind'] == 'turtle' else 0.04
            if 'limits' in c['omit']:
                cfg['min'], cfg['max'] = (10, 2000) if c['kind'] == 'turtle' else (500, 30000)
            if 'seed' in c['omit']:
                cfg['seed'] = -1

            def go(p, j=j, cfg=cfg):
                p.cfg, p.nbodies = cfg, cfg['bodies']
                p.met = 0

                def no():
                    if j.solves or p.met > 400:
                        return False
                    p.met += 1
                    return h64(plan['exec_seed'], cfg['group'], 'reach', (p.met - 1) // 10) % 100 < cfg.get('unreachable', 0)
                p.unreachable = no
                self.body(p, j, cfg['kind'], cfg['record'])
            p = w.spawn('run%d' % i, go, host='h%d' % c['host'], argv=argv, cwd=TAMP, start=c['at'],
                        import_dirs=[posixpath.dirname(RUNPY[c['kind']]), world.REPO_SIM])
            j.p, j.cfg = p, cfg
            self.jobs.append(j)
        w.run()
        hit = {plan['faults'][i]['proc'] for i in w.fired_ids}
        for j in self.jobs:
            self.check_run(j, j.p.name in hit)
        self.check_same(hit)
        return w

    def check_run(self, j, hit):
        p, c, w = j.p, j.cfg, self.w
        who = '%s (%s %s)' % (p.name, c['kind'], ' '.join(j.argv[1:]))
        w.cover.add(h64(c['kind'], p.exit_code, j.calls, [s[3] for s in j.solves], hit))
        if p.exc is not None and not isinstance(p.exc, SimKilled) and not hit:
            if j.failed and type(p.exc).__name__ == 'AssertionError' and 'collision' in str(p.exc):
                w.probe('start-in-collision')
            else:
                harness.process_died(p, self.prop)
        elif p.exc is None and p.exit_code not in (0, None) and not hit and not j.failed:
            self.bad('gave-up', '%s ends with status %s although nothing failed: %s' % (who, p.exit_code, p.output()[-160:].strip()))
        if j.solves and j.solves[0][0] is None:
            self.bad('directory', '%s: the task planner gets no directory of its own' % who)
        dirs = [s[0] for s in j.solves]
        if dirs:
            for o in self.jobs:
                if o is not j and any(posixpath.dirname(s[0]) == posixpath.dirname(dirs[0]) for s in o.solves if s[0]):
                    self.bad('directory', '%s and %s share the directory %s' % (who, o.p.name, posixpath.dirname(dirs[0])))
            base = '/home/user/runs/d%d' % c['dir']
            if not dirs[0].startswith(base + '/'):
                self.bad('directory', '%s keeps its records in %s' % (who, dirs[0]))
            d = posixpath.dirname(dirs[0])
            logs = [n for n in w.fs.ls(d) if n.endswith('.log')]
            if len(logs) != 1 and not hit:
                self.bad('log', '%s: %d logs in its directory' % (who, len(logs)))
            for n in logs:
                self.check_log(j, who, w.fs.get(d + '/' + n).decode(errors='replace'), hit)
        elif p.exit_code == 0:
            self.bad('not-solved', '%s ends without having asked the task planner' % who)
        for sizes, spread in zip(j.calls, j.reach):
            self.check_spread(who, c.get('theta'), spread)
            self.check_sizes(who, c, sizes, whole=not hit and p.exit_code == 0 and (sizes is not j.calls[-1] or bool(j.solves) and not j.solves[-1][3]))
        if p.exit_code == 0:
            w.probe('run-complete')
            if j.solves[-1][3]:
                w.probe('solved')
            else:
                w.probe('unsolved')

    def check_spread(self, who, theta, spread):
        if spread is not None and not 0.96 * theta <= spread <= theta + 1e-9:
            self.bad('theta-margin', '%s: the planner turns the object by up to %.4f, asked for %.4f' % (who, spread, theta))

    def check_sizes(self, who, c, sizes, whole=True):
        """Sample counts asked of one roadmap: from the smallest to the largest, at the growth factor."""
        if c['adaptive'] or not sizes:
            return
        if sizes[0] != c['min']:
            self.bad('limits', '%s: its first roadmap has %d samples, asked for %d' % (who, sizes[0], c['min']))
        if max(sizes) > c['max']:
            self.bad('limits', '%s: a roadmap of %d samples, asked for at most %d' % (who, max(sizes), c['max']))
        f = c.get('factor') or 1.1
        for a, b in zip(sizes, sizes[1:]):
            if not max(int(a * f), a + 1) <= b <= max((a + 1) * f, a + 1):
                self.bad('factor', '%s: its roadmaps grow from %d to %d samples, asked for the factor %s' % (who, a, b, f))

    def check_log(self, j, who, text, hit):
        c = j.cfg
        lines = text.split('\n')
        for b, ls in (('Solved:', [x for x in lines if x.startswith('Solved:')]), ('Time:', [x for x in lines if x.startswith('Time:')])):
            if len(ls) > len(j.solves):
                self.bad('log', '%s: its log has %d lines %r' % (who, len(ls), b))
            if not ls and j.p.exit_code == 0 and not hit:
                self.bad('log', '%s: its log has no line %r' % (who, b))
            for x in ls:
                if b == 'Solved:' and ('True' in x) != bool(j.solves[-1][3]):
                    self.bad('outcome', '%s: its log says %r, the task planner %s a plan' % (who, x, 'found' if j.solves[-1][3] else 'did not find'))
                if b == 'Time:':
                    try:
                        t = float(x.replace('Time: ', ''))
                    except ValueError:
                        if hit:
                            continue
                        self.bad('log', '%s: its log says %r' % (who, x))
                    took = (j.solves[-1][2] or 0) - j.solves[-1][1]
                    if abs(t - took) > 0.5:
                        self.bad('time', '%s: its log says %r, planning took %.3f s' % (who, x, took))
        if hit and len(lines) < 3:
            return
        try:
            got = ast.literal_eval(lines[1])
        except (ValueError, SyntaxError, IndexError):
            if hit:
                return
            self.bad('log', '%s: the second line of its log is not its arguments: %r' % (who, lines[1:2]))
        want = {'seed': c['seed'], 'delta': c['delta'], 'adaptive_n': c['adaptive']}
        if not c['adaptive']:
            want.update(min_samples=c['min'], max_samples=c['max'])
        if c['kind'] == 'kuka':
            want.update(theta_margin=c['theta'], collision_buffer=c['buffer'])
        else:
            want['num_targets'] = c['targets']
        wrong = {k: got.get(k) for k, v in want.items() if got.get(k) != v}
        if wrong:
            self.bad('log', '%s: its log records the arguments %s' % (who, wrong))
        for key, val in (('Delta: ', None if c.get('randomize') else c['delta']), ('Max samples: ', c['max']), ('Min samples: ', c['min'])):
            if c['adaptive'] and key != 'Delta: ' or val is None:
                continue
            ls = [x[len(key):] for x in lines if x.startswith(key)]
            if (not ls and j.p.exit_code == 0 and not hit) or any(x != str(val) for x in ls[:-1] if not hit) or ls and not hit and ls[-1] != str(val):
                self.bad('log', '%s: its log says %s%s' % (who, key, ls))

    def check_same(self, hit):
        """Equal arguments and seed: the same problem and the same outcome, wherever and whenever it runs."""
        done = {}
        for j in self.jobs:
            c = j.cfg
            if c['seed'] < 0 or j.p.name in hit or j.layout is None or j.p.exit_code:
                continue
            got = (j.layout, j.calls, [s[3] for s in j.solves], j.paths)
            k = tuple(str(c.get(x)) for x in ('kind', 'seed', 'delta', 'randomize', 'targets', 'min', 'max', 'adaptive', 'teleport', 'record', 'factor',
                                              'theta', 'buffer', 'bodies') + (('group',) if c['kind'] == 'kuka' else ()))
            if k in done:
                o, was = done[k]
                for name, a, b in zip(('problem', 'sample counts', 'outcome', 'trajectories'), was, got):
                    if a != b:
                        self.bad('not-repeatable', '%s and %s have equal arguments and seed, but different %s' % (o.p.name, j.p.name, name))
                self.w.probe('repeated')
            else:
                done[k] = (j, got)
        seeds = {}
        for j in self.jobs:         # different seeds: different problems
            if j.cfg['seed'] >= 0 and j.layout is not None:
                turtle = j.cfg['kind'] == 'turtle'
                place = tuple(tuple(x[3]) for x in j.layout if x[1] is not None or not turtle and abs(x[2][2] - 0.2) < 1e-9)
                o = seeds.setdefault(place, j.cfg['seed'])
                if o != j.cfg['seed']:
                    self.bad('seed-ignored', 'runs with the seeds %d and %d place their targets equally' % (o, j.cfg['seed']))

    # -------------------------------------------------------- C22
    def run_c22(self):
        plan, w = self.plan, self.w
        self.subs = []
        w.subprocess_handler = self.handle
        w.host('login')
        for k in range(4):
            w.host('n%d' % k, offset=plan['offset'])
        self.started = 0
        path = TAMP + '/' + SCRIPTS[plan['which']]
        dep = w.spawn('deployer', lambda p: loader.run_script(p, path), host='login', argv=[SCRIPTS[plan['which']]], cwd=TAMP,
                      import_dirs=[TAMP, world.REPO_SIM], env={'USER': plan['user']})
        w.run()
        if dep.exc is not None and not isinstance(dep.exc, SimKilled):
            harness.process_died(dep, self.prop)
        self.check_tasks()
        return w

    def handle(self, p, args, shell_=False, cwd=None, env=None, **k):
        shell_ = k.get('shell', shell_)
        env = dict(p.env, PWD=p.cwd)
        a = shell.words(args, env) if isinstance(args, str) else [str(x) for x in args]
        prog = posixpath.basename(a[0])
        if prog == 'squeue':
            return 0, '             JOBID PARTITION     NAME     USER ST       TIME  NODES NODELIST(REASON)\n', ''
        if prog == 'scancel':
            return 0, '', ''
        if prog != 'sbatch':
            return 127, '', '%s: command not found\n' % prog
        spec, rest, export, i = None, [], {}, 1
        while i < len(a):
            x = a[i]
            m = re.fullmatch(r'(?:--array|-a)=(.*)', x)
            if m:
                spec = m.group(1)
            elif x in ('-a', '--array'):
                i += 1
                spec = a[i]
            elif x.startswith('--export='):
                export = dict(v.split('=', 1) for v in x[9:].split(',') if '=' in v)
            elif x.startswith('-') and not rest:
                raise StubGap('sbatch %s' % x)
            else:
                rest.append(x)
            i += 1
        script = posixpath.normpath(posixpath.join(p.cwd, rest[0]))
        node = self.w.fs.lookup(script)
        if node is None:
            return 1, '', 'sbatch: error: Unable to open file\n'
        ids = []
        for part in (spec or '').split('%')[0].split(','):
            if part:
                lo, _, hi = part.partition('-')
                hi, _, st = (hi or lo).partition(':')
                ids += range(int(lo), int(hi) + 1, int(st or 1))
        n = len(self.subs)
        self.subs.append({'script': script, 'args': rest[1:], 'ids': ids, 'text': self.w.fs.get(script).decode(), 'jobid': 5000 + n, 'export': export})
        self.w.log('sbatch', n, spec, rest)
        for pk in [x for x in self.plan['picks'] if x['sub'] == n]:
            index = ids[(pk['index'] - 1) % len(ids)] if ids else None
            for again in range(1 + pk['again']):
                self.element(n, index, self.w.now + 5.0 + pk['at'] + 0.3 * again)
        if n + 1 >= self.plan['most']:
            raise SimKilled()               # (the deployer is of no further interest)
        return 0, 'Submitted batch job %d\n' % (5000 + n), ''

    def element(self, n, index, at):
        """The scheduler starts one element of an array."""
        w, s = self.w, self.subs[n]
        self.started += 1
        env = {'USER': self.plan['user'], 'HOME': '/home/gridsan/' + self.plan['user'], 'SLURM_JOB_ID': str(s['jobid']), 'PATH': '/usr/bin', **s['export']}
        if index is not None:
            env.update(SLURM_ARRAY_TASK_ID=str(index), SLURM_ARRAY_JOB_ID=str(s['jobid']))
        host = 'n%d' % (self.started % 4)
        rec = {'sub': n, 'index': index, 'cmds': [], 'at': at, 'host': host}

        def script(p):
            def launch(argv, e, cwd):
                if not re.fullmatch(r'(.*/)?python[\d.]*', argv[0]):
                    return 127
                a = [x for x in argv[1:] if x not in ('-u', '-B', '-O')]
                j = Job([posixpath.normpath(posixpath.join(cwd, a[0]))] + a[1:] if a else [], e, cwd)
                rec['cmds'].append(j)
                j.rec, j.p = rec, None
                self.jobs.append(j)
                if j.argv and j.argv[0] in RUNPY.values():
                    kind = [k for k, v in RUNPY.items() if v == j.argv[0]][0]
                    if len(self.jobs) < 25:
                        def go(q):
                            q.nbodies, q.cfg = 1, None
                            self.body(q, j, kind, True)
                        j.p = w.spawn('%s.%d' % (p.name, len(rec['cmds'])), go, host=host, argv=j.argv, cwd=cwd, env=e,
                                      import_dirs=[posixpath.dirname(j.argv[0]), world.REPO_SIM])
                        w.wait_until(p, lambda: j.p.finished)
                        return j.p.exit_code or 0
                return 0
            rec['status'] = shell.run_script(s['text'], p.env, TAMP, launch, s['args'], '/var/spool/slurm/job%d/slurm_script' % s['jobid'], lambda: w.wall(p), ls=w.fs.ls)
        rec['proc'] = w.spawn('task%d' % self.started, script, host=host, argv=[s['script']], cwd=TAMP, env=env, start=at)
        s.setdefault('recs', []).append(rec)

    def check_tasks(self):
        plan, w = self.plan, self.w
        which = plan['which']
        kind = KIND[which]
        dirs, places, adaptive = {}, {}, {}
        for n, s in enumerate(self.subs):
            for rec in s.get('recs', []):
                who = '%s, submission %d (%s), element %s' % (SCRIPTS[which], n, ' '.join(s['args']), rec['index'])
                if rec['proc'].exc is not None:
                    harness.process_died(rec['proc'], self.prop)
                if len(rec['cmds']) != 1:
                    self.bad('runs', '%s starts %d planning runs' % (who, len(rec['cmds'])))
                j = rec['cmds'][0]
                if not j.argv or j.argv[0] != RUNPY[kind]:
                    self.bad('runs', '%s runs %s' % (who, j.argv[:1]))
                if j.p is None:
                    continue
                w.probe('task')
                if j.env.get('OMP_NUM_THREADS') != '4':
                    self.bad('threads', '%s runs with OMP_NUM_THREADS=%s, the job has 4 processors' % (who, j.env.get('OMP_NUM_THREADS')))
                if j.p.exc is not None or j.p.exit_code:
                    if not (j.failed and type(j.p.exc).__name__ == 'AssertionError' and 'collision' in str(j.p.exc)):
                        if j.p.exc is not None:
                            harness.process_died(j.p, self.prop)
                        self.bad('runs', '%s: the planning run %s ends with status %s' % (who, ' '.join(j.argv[1:]), j.p.exit_code))
                if not j.solves or not j.solves[0][0]:
                    self.bad('runs', '%s: the planning run never plans' % who)
                d = posixpath.dirname(j.solves[0][0])
                if d in dirs:
                    self.bad('directory', '%s and %s share the directory %s' % (dirs[d], who, d))
                dirs[d] = who
                got = None
                for f in w.fs.ls(d):
                    if f.endswith('.log'):
                        try:
                            got = ast.literal_eval(w.fs.get(d + '/' + f).decode().split('\n')[1])
                        except (ValueError, SyntaxError, IndexError):
                            pass
                if got is None:
                    self.bad('log', '%s: no log with its arguments' % who)
                want = {'seed': rec['index']}
                num = [float(x) for x in s['args'][:3]]
                if which == 'D3':
                    want.update(delta=num[0], collision_buffer=num[1], theta_margin=num[2], adaptive_n=True)
                elif num[2] == 1:
                    want.update(adaptive_n=True)
                else:
                    want.update(min_samples=int(num[0]), max_samples=int(num[1]), adaptive_n=False)
                wrong = {k: got.get(k) for k, v in want.items() if got.get(k) != v}
                if wrong:
                    self.bad('arguments', '%s: the planning run has %s, deployed with %s' % (who, wrong, {k: want[k] for k in wrong}))
                sizes = [x for c in j.calls for x in c[:1]]
                if not sizes:
                    self.bad('runs', '%s: the planning run never samples' % who)
                if which == 'D3':
                    for spread in j.reach:
                        self.check_spread(who, num[2], spread)
                if want['adaptive_n']:
                    if which == 'D3':       # the number of samples follows from the arguments
                        o = adaptive.setdefault(tuple(s['args']), (j.calls, who))
                        if o[0] != j.calls:
                            self.bad('sample-counts', '%s and %s, deployed alike, sample %s and %s' % (o[1], who, o[0], j.calls))
                else:
                    for c in [c for c in j.calls if c]:
                        if c[0] != want['min_samples'] or max(c) > want['max_samples'] or (c[-1] + 1) * 1.2 < want['max_samples']:
                            self.bad('limits', '%s: a roadmap is grown from %d to %d samples, deployed with %d to %d' % (
                                who, c[0], max(c), want['min_samples'], want['max_samples']))
                wall = rec['at'] + core.BASE_EPOCH + w.hosts[rec['host']].offset
                self.check_dir(who, d, rec['index'], wall)
                places.setdefault(tuple(tuple(x[3]) for x in j.layout if x[1] is not None or kind == 'kuka' and abs(x[2][2] - 0.2) < 1e-9), []).append((rec['index'], who))
                if which == 'D3':
                    bins = [b for b in j.p.bodies if b.links]
                    for b in bins:
                        lo, hi = ts.get_aabb(b)
                        if np.abs((hi - lo)[:2] - (0.06 + num[0])).max() > 1e-6:
                            self.bad('arguments', '%s: a container is %s wide, deployed with delta %s' % (who, np.round(hi - lo, 4).tolist(), num[0]))
        for place, ws in places.items():
            if len({i for i, _ in ws}) > 1:
                self.bad('same-problem', '%s and %s solve the same problem' % (ws[0][1], [x for i, x in ws if i != ws[0][0]][0]))
        w.cover.add(h64(which, sorted(dirs)))

    def check_dir(self, who, d, index, wall):
        """The records lie under a directory that names the seed and the time of the start (the notebooks read it)."""
        import time
        m = re.search(r'/prm-(\d+)--(\d{8}-\d{6})/', d + '/')
        if not m:
            self.bad('directory', '%s keeps its records in %s' % (who, d))
        t = time.gmtime(wall - 1), time.gmtime(wall + 2)
        lo, hi = (time.strftime('%Y%m%d-%H%M%S', x) for x in t)
        if int(m.group(1)) != index or not lo <= m.group(2) <= hi:
            self.bad('directory', '%s, started at %s, keeps its records in %s' % (who, lo, d))

    def run(self):
        return self.run_c22() if self.prop == 'C22' else self.run_c23()


def run(plan):
    return Run(plan).run()
