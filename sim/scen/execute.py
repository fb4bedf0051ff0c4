"""Scenario for C26: the robot runs plan with their own domain and stream files and carry the plan out.

A small task planner reads the run's domain and stream texts, asks the run's streams for motions with the facts of the moment
(motions fail at random and are planned again), and hands the plan back; the run then carries it out in a simulated world.
"""
import numpy as np

from .. import core, harness, pddl, tampstubs as ts, world
from ..core import PRNG, SimHang, SimKilled, StubGap, Violation, h64
from . import robot

SHRINK = ['faults']
TAMP, RUNPY = robot.TAMP, robot.RUNPY
HANG_CPU = 100.0
EPS = 1e-6
GAP = 0.0101            # the arm approaches an object from this far above it


def simplify(plan):
    for k, v in (('fail', 0), ('targets', 1), ('subset', 1), ('vias', 0), ('detours', 0), ('unreachable', 0), ('reach', 0), ('teleport', False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def gen(rng, prop, tier):
    kind = rng.pick(['turtle', 'kuka'])
    plan = {'exec_seed': rng.randrange(1 << 40), 'prop': prop, 'tick': rng.pick([0.0, 1e-4, 1e-3]), 'faults': [], 'switches': [], 'kind': kind,
            'seed': rng.pick([-1, 0, 1, 2, 3, rng.randrange(1000)]), 'targets': rng.pick([1, 1, 2, 3, 4]), 'subset': rng.pick([1, 1, 2, 2, 3]),
            'teleport': rng.chance(0.3), 'fail': rng.pick([0, 0, 0, 10, 30]), 'vias': rng.pick([0, 1, 3]), 'detours': rng.pick([0, 40, 90]), 'unreachable': rng.pick([0, 0, 5, 20]),
            'delta': round(rng.pick([0.08, 0.1, 0.15]) + 0.02 * rng.random(), 3) if kind == 'kuka' else rng.pick([0.05, 0.1, 0.5]),
            'theta': rng.pick([0.26, 0.1, 0.05]), 'reach': rng.pick([0, 0, 0, 3])}
    if rng.chance(0.1):
        plan['faults'].append({'proc': 'run', 'cls': 'op', 'kind': rng.pick(['kill', 'interrupt']), 'nth': rng.randrange(1, 200), 'frac': 0.0, 'when': 'before'})
    return plan


class Run(robot.Run):
    def script(self, p, j, size):
        """What the roadmap answers: waypoints on the way, or nothing."""
        rng, plan = self.rng, self.plan

        def answer(prm, start, goal):
            a, b = np.ravel(start), np.ravel(goal)
            if self.fail(j):
                return np.inf, np.empty((0, len(a)))
            k = rng.randrange(1, 2 + plan['vias'])
            pts = np.array([[x + (y - x) * rng.random() + (rng.random() - 0.5) * (0.3 if i < 3 else plan['theta']) for i, (x, y) in enumerate(zip(a, b))]
                            for _ in range(k)])
            return 1.0, pts
        return answer

    def fail(self, j):
        if not hasattr(j, 'broken'):
            j.broken = False
        if j.broken or self.rng.random() * 100 < self.plan['fail']:
            j.broken = True
            return True
        return False

    # ---------------------------------------------------------------- planning
    def solve(self, p, j, kind, problem, kw):
        w, plan = self.w, self.plan
        j.solves.append(['', w.now, None, None])
        j.problem = problem
        movable = [f[1] for f in problem.init if f[0] == 'AtPose']
        self.home = {int(f[1]): f[2].pose for f in problem.init if f[0] == 'AtPose'}
        for b in movable:
            if not same_pose(b.pose, self.home[int(b)]) and kind == 'turtle':
                self.bad('start', 'an object is at %s, the task says %s' % (b.pose[0], self.home[int(b)][0]))
        fixed = [b for b in p.bodies if b.links or b.name and 'stove' in str(b.name)]
        arm = [b for b in p.bodies if isinstance(b, ts.Gripper)]

        def motion(body, start, end, obstacles, attachments):
            j.motions.append((body, start, end, [(int(b), b.pose) for b in obstacles], [(a.child, a.grasp_pose) for a in attachments]))
            if self.fail(j):
                return None
            # (the search leaves robot and load anywhere)
            ts.set_joint_positions(body, range(6), [self.rng.uniform(-1, 1) for _ in range(6)])
            for a in attachments:
                a.assign()
            return [tuple(x + (y - x) * self.rng.random() + (self.rng.random() - 0.5) * 0.2 for x, y in zip(start, end)) for _ in range(self.rng.randrange(1 + plan['vias']))]

        def call(name, args, fluents):
            if name not in problem.stream_map:
                self.bad('streams', 'the stream %s of the stream file has no function' % name)
            j.broken, j.motions = False, []
            n = len(j.calls)
            try:
                out = problem.stream_map[name](*args) if fluents is None else problem.stream_map[name](*args, fluents=fluents)
            except TypeError as e:
                if e.__traceback__.tb_next is None:         # (it cannot be called like that)
                    self.bad('streams', 'the function of the stream %s cannot be called with what the stream file gives it: %s' % (name, e))
                raise
            if out is None:
                if not j.broken:
                    self.bad('refused', 'the stream %s refuses although nothing failed' % name)
                w.probe('motion-failed')
                return None
            out = out.outputs if hasattr(out, 'outputs') else tuple(out)
            for o in out:
                j.made[id(o)] = (o, len(j.calls) > n, list(j.motions))
            return out
        p.motion = motion
        j.made = {}
        try:
            task = pddl.Task(problem, PRNG(plan['exec_seed'], 'task'), call, plan['detours'])
            goals = self.goals(task, kind)
            steps, why, which = task.solve(goals)
        except BaseException:
            j.solves[-1][2], j.solves[-1][3] = w.now, False
            raise
        p.quiet += 1
        j.solves[-1][2], j.solves[-1][3] = w.now, steps is not None
        if steps is None:
            if why == 'stuck':
                self.bad('unsolvable', 'no plan reaches %s' % str(which and task.show(which)))
            w.probe('no-plan')
            p.quiet -= 1
            return None, float('inf'), []
        w.probe('plan')
        j.plan = steps
        j.goals = [task.show(g) for g in goals]
        self.judge_plan(p, j, kind, problem, steps, fixed, arm)
        p.quiet -= 1
        return [(a, args) for a, args, _ in steps], float(len(steps)), []

    def goals(self, task, kind):
        gs = list(task.goals)
        named = {int(x) for g in gs for x in task.show(g)[1:] if isinstance(x, int)}
        if not set(self.home) <= named:
            self.bad('goal', 'the task leaves out %d of the %d objects' % (len(set(self.home) - named), len(self.home)))
        last = [g for g in gs if sort(task.show(g)) == 'conf']
        rest = [g for g in gs if g not in last]
        self.rng.shuffle(rest)
        if kind == 'kuka':
            rest = rest[:self.plan['subset']]
        return rest + last

    def judge_plan(self, p, j, kind, problem, steps, fixed, arm):
        """The plan's motions: from where the robot is, with what it holds, around what stands there."""
        here = [f for f in problem.init if f[0] == 'AtConf'][0][-1]
        place = dict(self.home)
        held, grasp, legs = None, None, []
        planned_in = {}
        bodies = {int(b): b for b in p.bodies}
        for n, (name, args, _) in enumerate(steps):
            who = 'step %d of the plan (%s)' % (n, name)
            t = [a for a in args if hasattr(a, 'body_paths') or hasattr(a, 'path')]
            obj = [a for a in args if isinstance(a, int) and int(a) in self.home]
            if kind == 'turtle':
                if not t:
                    self.bad('motion', '%s has no motion' % who)
                path = [tuple(c.values) for c in t[0].path]
                legs.append((path, held, n, None))
                q = [a for a in args if hasattr(a, 'values') and hasattr(a, 'assign')]
                self.joins(who, path, here.values, q[-1].values, 0.0)
                if name == 'place' and held is None:
                    self.bad('motion', '%s puts down an object while nothing is held' % who)
                if name == 'pick' and held is not None:
                    self.bad('motion', '%s picks up a second object' % who)
                here = q[-1]
                held = obj[0] if name == 'pick' else None
                continue
            if name == 'pick':
                if held is not None:
                    self.bad('motion', '%s picks up a second object' % who)
                held = obj[0]
                grasp = [a for a in args if hasattr(a, 'grasp_pose')][0]
                tool = ts.invert(grasp.grasp_pose)          # (in the object's frame)
                want = np.array([0.0, 0.0, bodies[int(held)].extent[2] / 2])
                if np.abs(np.array(tool[0], float) - want).max() > EPS or np.abs(ts.matrix_from_quat(tool[1])[:, 2] - [0, 0, -1]).max() > EPS:
                    self.bad('grasp', '%s: the tool is at %s of the object, pointing along %s; the middle of its top is at %s' % (
                        who, np.round(tool[0], 4), np.round(ts.matrix_from_quat(tool[1])[:, 2], 3), want))
                place.pop(int(held))
            elif name == 'place':
                if held is None or int(held) != int(obj[0]):
                    self.bad('motion', '%s puts down an object that is not held' % who)
                place[int(held)] = [a for a in args if hasattr(a, 'pose') and not isinstance(a, int)][0].pose
                held, grasp = None, None
            if not t:
                continue
            _, roadmap, motions = j.made[id(t[0])]
            for bp in t[0].body_paths:
                if not isinstance(getattr(bp, 'attachments', None), (list, tuple, set)):
                    self.bad('carries', '%s does not say what it carries' % who)
                att = [int(a.body) for a in bp.attachments]
                if att != ([] if held is None else [int(held)]):
                    self.bad('carries', '%s moves with %s attached while the robot holds %s' % (who, att, held))
            path = harness.waypoints(t[0].body_paths, self.bad)
            qs = [a for a in args if hasattr(a, 'configuration')]
            self.joins(who, path, here.configuration, qs[-1].configuration, GAP if roadmap else 0.0)
            legs.append((path, held, n, grasp.grasp_pose if held is not None else None))
            if held is not None:
                planned_in[int(held)] = roadmap
            here = qs[-1]
            for body, start, end, obstacles, attachments in motions:
                around = dict(obstacles)
                for b in fixed:
                    if int(b) not in around:
                        self.bad('around', '%s is planned without regard to the body %s' % (who, b.name or 'container'))
                for b, pose in place.items():
                    if b not in around:
                        self.bad('around', '%s is planned without regard to an object' % who)
                    if not same_pose(around[b], pose):
                        self.bad('around', '%s is planned around an object at %s, which is at %s then' % (who, np.round(around[b][0], 4), np.round(pose[0], 4)))
                if held is not None and int(held) in around:
                    self.bad('around', '%s takes the object it holds for an obstacle' % who)
                if [int(c) for c, _ in attachments] != ([] if held is None else [int(held)]):
                    self.bad('around', '%s is planned with %d objects in hand, the robot holds %s' % (who, len(attachments), held))
                for c, g in attachments:
                    if not same_pose(g, grasp.grasp_pose):
                        self.bad('around', '%s is planned with another grasp than the plan has' % who)
        if kind == 'kuka':
            if np.abs(np.array(here.configuration) - np.array([f for f in problem.init if f[0] == 'AtConf'][0][-1].configuration)).max() > EPS:
                self.bad('arm', 'the plan leaves the arm away from where it started')
            cleaned = {int(g[1]) for g in j.goals if sort(g) == 'in'}
            for b, inserted in planned_in.items():
                if b in cleaned and not inserted:
                    self.bad('insertion', 'an object gets to its last place by a motion that was not planned by the roadmap planner')
        if held is not None:
            self.bad('motion', 'the plan ends with an object in hand')
        j.legs = legs

    def joins(self, who, path, q1, q2, gap):
        if not len(path):
            self.bad('motion', '%s has a motion without configurations' % who)
        for what, a, b in (('begins', path[0], q1), ('ends', path[-1], q2)):
            n = min(len(a), len(b))
            d = float(np.abs(np.array(a[:n], float) - np.array(b[:n], float)).max())
            if d > gap + EPS:
                self.bad('motion', '%s %s %.4f away from the configuration the plan has there' % (who, what, d))

    # ---------------------------------------------------------------- carrying out
    def judge_execution(self, p, j, kind):
        snaps = p.snaps
        if not snaps:
            self.bad('execution', 'the run has a plan and a display and does not carry the plan out')
        bodies = {int(b): b for b in p.bodies}
        at = {b: q for b, q in self.first.items()}
        for b, q in self.home.items():
            at[b] = q
        for b in list(at):
            if isinstance(bodies.get(b), ts.Gripper) or b == self.robot:
                del at[b]
        way = [(a, b, held, k, g) for k, (path, held, _, g) in enumerate(j.legs) for a, b in zip(path, path[1:])]
        if not way:
            return
        i, t, rel = 0, 0.0, None
        for n, (q, rpose, poses) in enumerate(snaps):
            i0 = i
            while True:
                d, u = on(way[i], q, t if i == i0 else 0.0)
                if d <= EPS:
                    break
                if i == i0 and t < 1 - EPS and dist(way[i][0], way[i][1]) > EPS and not (n == 0 and i == 0):
                    self.bad('execution', 'moment %d of the execution: the robot is at %s, away from the way to the next point of its path %s' % (
                        n, np.round(q, 4).tolist(), np.round(way[i][1], 4).tolist()))
                if i > i0 and dist(way[i][0], way[i][1]) > EPS:
                    self.bad('execution', 'moment %d of the execution: the robot is at %s, its path goes from %s to %s' % (
                        n, np.round(q, 4).tolist(), np.round(way[i][0], 4).tolist(), np.round(way[i][1], 4).tolist()))
                i += 1
                if i >= len(way):
                    self.bad('execution', 'moment %d of the execution: the robot is at %s, beyond the end of its path' % (n, np.round(q, 4).tolist()))
            if way[i][3] != way[i0][3] or n == 0:
                rel = None
            t = u
            if u > 1 - EPS and i + 1 < len(way) and way[i + 1][3] != way[i][3] and dist(way[i + 1][0], q) <= EPS:
                h = way[i + 1][2]           # between two motions: has the next one begun?
                if way[i][2] is None and h is not None and not same_pose(poses[int(h)], at[int(h)]):
                    i, t, rel = i + 1, 0.0, None
            held = way[i][2]
            for b, pose in poses.items():
                if b not in at:
                    continue
                if held is not None and b == int(held):
                    if rel is None:
                        rel = way[i][4]
                        if rel is None:         # gripped where it stands
                            q0 = way[i][0]
                            was = ((q0[0], q0[1], rpose[0][2]), rpose[1])
                            rel = ts.multiply(ts.invert(was), at[b])
                    if not same_pose(pose, ts.multiply(rpose, rel)):
                        self.bad('execution', 'moment %d of the execution: the object in hand is at %s, the grasp has it at %s' % (
                            n, np.round(pose[0], 4).tolist(), np.round(ts.multiply(rpose, rel)[0], 4).tolist()))
                    at[b] = pose
                elif not same_pose(pose, at[b]):
                    self.bad('execution', 'moment %d of the execution: an object that nobody holds is at %s, it was at %s' % (
                        n, np.round(pose[0], 4).tolist(), np.round(at[b][0], 4).tolist()))
        if any(dist(a, b) > EPS for a, b, *_ in way[i + 1:]) or t < 1 - EPS and dist(way[i][0], way[i][1]) > EPS:
            self.bad('execution', 'the execution stops at %s, the plan goes on' % np.round(snaps[-1][0], 4).tolist())
        self.w.probe('executed')
        self.judge_end(p, j, kind, bodies, snaps[-1])

    def judge_end(self, p, j, kind, bodies, last):
        q, _, poses = last
        used = {}
        for g in j.goals:
            if sort(g) == 'pose':
                b, pose = int(g[1]), g[2].pose
                if not same_pose(poses[b], pose):
                    self.bad('result', 'in the end an object is at %s, the task wants it at %s' % (np.round(poses[b][0], 4).tolist(), np.round(pose[0], 4).tolist()))
            elif sort(g) == 'in':
                b = bodies[int(g[1])]
                lo, hi = ts.get_aabb(b)
                within = [c for c in p.bodies if c.links and inside((lo, hi), ts.get_aabb(c))]
                if len(within) != 1:
                    self.bad('result', 'in the end an object is at %s, in no container' % np.round(b.pose[0], 4).tolist())
                if int(within[0]) in used:
                    self.bad('result', 'in the end two objects are in one container')
                used[int(within[0])] = b
            else:
                if np.abs(np.array(q) - np.array(g[-1].configuration)).max() > EPS:
                    self.bad('arm', 'in the end the arm is at %s' % np.round(q, 4).tolist())

    # ---------------------------------------------------------------- one run
    def run(self):
        plan, w = self.plan, self.w
        kind = plan['kind']
        self.rng = PRNG(plan['exec_seed'], 'motions')
        argv = [RUNPY[kind], '--vis', '--save-dir=/home/user/runs', '--min-samples=5', '--max-samples=%d' % PRNG(plan['exec_seed'], 'max').pick([5, 8, 20]),
                '--delta=%s' % plan['delta'], '--seed=%d' % plan['seed'], '--factor=1.5']
        if kind == 'turtle':
            argv += ['--num-targets=%d' % plan['targets']] + (['--teleport'] if plan['teleport'] else [])
        else:
            argv += ['--theta-margin=%s' % plan['theta'], '--collision-buffer=0.02']
        j = robot.Job(argv, {}, TAMP)

        def go(p):
            p.snaps, p.met = [], 0

            def no():
                if j.solves or p.met > 400:
                    return False
                p.met += 1
                return h64(plan['exec_seed'], 'reach', (p.met - 1) // 10) % 100 < plan['unreachable']
            p.unreachable = no

            def out_of_reach(pose):
                if j.solves and h64(plan['exec_seed'], tuple(np.round(np.ravel(pose[0]), 9))) % 100 < plan['reach']:
                    w.probe('out-of-reach')
                    return True
                return False
            p.unreachable_pose = out_of_reach if plan['reach'] else None
            p.answers = self.script(p, j, 0)

            def snap():
                r = [b for b in p.bodies if isinstance(b, ts.Gripper) or b.name and 'turtlebot' in str(b.name)][0]
                self.robot = int(r)
                p.snaps.append((tuple(r.q)[:2] if kind == 'turtle' else tuple(r.q), r.pose, {int(b): b.pose for b in p.bodies}))
                if len(p.snaps) == 1:
                    self.first = {int(b): b.pose for b in p.bodies}
            p.snap = snap
            self.body(p, j, kind, True)
        p = w.spawn('run', go, host='h0', argv=argv, cwd=TAMP, import_dirs=[RUNPY[kind].rsplit('/', 1)[0], world.REPO_SIM])
        j.p = p
        w.run()
        hit = bool(w.fired_ids)
        w.cover.add(h64(kind, p.exit_code, len(p.snaps), [a for a, _, _ in getattr(j, 'plan', [])], hit))
        if p.exc is not None and not isinstance(p.exc, SimKilled) and not hit:
            if type(p.exc).__name__ == 'AssertionError' and 'collision' in str(p.exc) and not hasattr(j, 'plan'):
                w.probe('start-in-collision')
                return w
            harness.process_died(p, self.prop)
        if hit or isinstance(p.exc, SimKilled):
            return w
        if not j.solves:
            self.bad('execution', 'the run ends without having asked the task planner')
        if hasattr(j, 'plan'):
            self.judge_execution(p, j, kind)
        elif p.snaps:
            self.bad('execution', 'the run moves the robot without a plan')
        return w


def sort(goal):
    """What a goal asks for: an object at a pose, the arm at a configuration, or an object in a container."""
    if any(hasattr(a, 'pose') and not isinstance(a, int) for a in goal[1:]):
        return 'pose'
    return 'conf' if any(hasattr(a, 'configuration') or hasattr(a, 'values') for a in goal[1:]) else 'in'


def same_pose(a, b):
    a, b = (np.array(a[0], float), np.array(a[1], float)), (np.array(b[0], float), np.array(b[1], float))
    return bool(np.abs(a[0] - b[0]).max() <= 1e-6 and min(np.abs(a[1] - b[1]).max(), np.abs(a[1] + b[1]).max()) <= 1e-6)


def dist(a, b):
    return float(np.abs(np.array(a, float) - np.array(b, float)).max())


def on(leg, q, t):
    """How far q is from the rest of a leg, and where on the leg."""
    a, b = np.array(leg[0], float), np.array(leg[1], float)
    q = np.array(q, float)[:len(a)]
    d = b - a
    n = float(d @ d)
    u = 1.0 if n < 1e-18 else min(1.0, max(t, float((q - a) @ d) / n))
    return float(np.abs(a + u * d - q).max()), u


def inside(box, bin_):
    (lo, hi), (a, b) = box, bin_
    return bool((lo[:2] >= a[:2] + 0.01 - 1e-6).all() and (hi[:2] <= b[:2] - 0.01 + 1e-6).all() and a[2] - 1e-6 <= lo[2] <= a[2] + 0.045)


def run(plan):
    return Run(plan).run()
