"""Scenario for C20, C21 and C27: the motion planners of the robot experiments (turtlebot_move/streams.py, kuka_carry/run.py) are
called again and again by one or several simulated processes that share the planners' scratch directory; trajectories are
judged by independent geometry, growth and failure by what the planner was asked for.
"""
import inspect
import math

import numpy as np

from .. import core, geom, harness, loader, seams, tampstubs as ts, world
from ..core import PRNG, SimHang, SimKilled, StubGap, Violation, h64

SHRINK = ['calls', 'faults', 'boxes', 'switches']
TAMP = world.REPO_SIM + '/exps/tamp_environment'
TEMP = world.REPO_SIM + '/temp'
STEP2, STEP6, SPACING = 0.08, 0.03, 0.025
EPS = 1e-6
HANG_CPU = 100.0          # (both planners check motions one pose at a time)


def simplify(plan):
    """Smaller budgets first."""
    for i, c in enumerate(plan['calls']):
        if c.get('reach'):
            q = dict(plan)
            q['calls'] = [dict(x) for x in plan['calls']]
            q['calls'][i]['reach'] = 0
            yield q
        if c['max'] > 12 and not c.get('adaptive'):
            q = dict(plan)
            q['calls'] = [dict(x) for x in plan['calls']]
            q['calls'][i].update(max=max(c['min'], c['max'] // 2))
            yield q


# ------------------------------------------------------------------------------------------------ plans
def gen(rng, prop, tier):
    plan = gen_insert(rng, tier) if prop == 'C21' else gen_turtle(rng, tier)
    nproc = rng.pick([1, 1, 1, 2])
    for i, c in enumerate(plan['calls']):
        c['proc'] = i % nproc
    plan.update(exec_seed=rng.randrange(1 << 40), nproc=nproc, prop=prop, tick=1e-3, ann_miss=rng.pick([0.0, 0.0, 0.1]), kgraph=rng.chance(0.2),
                switches=core.gen_switches(rng, 300, rng.pick([3, 15, 60])) if nproc > 1 else [], faults=[], samepid=rng.chance(0.4))
    if prop == 'C27':
        for c in plan['calls']:
            c.pop('adaptive', None)
            c['collide'] = False
            c['batches'] = rng.pick([None, None, None, [rng.pick([1, 2, 7, 10, 60, 1000]), rng.pick([5, 7, 20, 50, 100, 1000])]])
            c['max'] = min(c['max'], 30)
            c['min'] = min(c['min'], c['max'])
    if rng.chance(0.3):
        for _ in range(rng.pick([1, 1, 2])):
            cls, kind = rng.pick([('open-w', 'enospc'), ('open-w', 'eacces'), ('write', 'enospc'), ('write', 'eio'), ('write', 'short'), ('open-r', 'eio'),
                                  ('read', 'eio'), ('op', 'kill'), ('ann', 'memerr'), ('native', 'interrupt'), ('op', 'interrupt')])
            f = {'proc': 'job%d' % rng.randrange(nproc), 'cls': cls, 'kind': kind, 'nth': rng.randrange(1, rng.pick([3, 8, 40])), 'frac': round(rng.random(), 3)}
            if kind == 'kill':
                f['when'] = 'before'
            plan['faults'].append(f)
    return plan


def shorten(c, most=12):
    """At most a dozen growths per call (they are slow)."""
    while True:
        n, k = c['min'], 0
        while n < c['max'] + 1:
            n, k = max(n * c['factor'], int(n) + 1), k + 1
        if k <= most:
            return
        c['factor'] = round(c['factor'] + 0.1, 3)


def rnd(x, n=4):
    return round(float(x), n)


def gen_turtle(rng, tier):
    def u(a, b):
        return rnd(a + (b - a) * rng.random())
    layout = rng.wpick([('rooms', 4), ('clutter', 3), ('sealed', 1), ('far', 1), ('slabs', 2)])
    robot = [u(0.08, 0.4), u(0.08, 0.4), 0.1]
    held = [u(0.05, 0.3), u(0.05, 0.3), 0.1]
    W, H = u(1.2, 2.8), u(1.2, 2.2)
    t = rng.pick([0.1, 0.1, 0.2])
    boxes = []       # x, y, width, length, yaw
    if layout in ('rooms', 'slabs', 'far') or layout == 'sealed' and rng.chance(0.5):
        boxes += [[W / 2, -t / 2, W, t, 0], [W / 2, H + t / 2, W, t, 0], [-t / 2, H / 2, t, H + 2 * t, 0], [W + t / 2, H / 2, t, H + 2 * t, 0]]
    if layout == 'rooms':
        g = rng.pick([0.0, u(0.1, 1.2), u(0.3, 1.2)])
        x, y = W * u(0.3, 0.7), H * u(0.3, 0.7)
        th = rng.pick([t, t, 0.5])
        lo, hi = y - g / 2, H - y - g / 2
        if lo > 0.05:
            boxes.append([x, lo / 2, th, lo, 0])
        if hi > 0.05:
            boxes.append([x, H - hi / 2, th, hi, 0])
    elif layout == 'slabs':
        for _ in range(rng.pick([1, 2, 4])):
            boxes.append([u(0.2, W), u(0.2, H), rng.pick([0.1, 0.12, 0.3]), u(0.5, 1.6), u(0, 3.14)])
    elif layout == 'clutter':
        for _ in range(rng.pick([2, 4, 8])):
            boxes.append([u(0, W), u(0, H), u(0.1, 0.8), u(0.1, 0.8), rng.pick([0.0, u(0, 3.14)])])
    elif layout == 'sealed':
        cx, cy, a = W * 0.3, H * 0.5, u(0.5, 0.7)
        boxes += [[cx - a, cy, 0.1, 2 * a + 0.2, 0], [cx + a, cy, 0.1, 2 * a + 0.2, 0], [cx, cy - a, 2 * a + 0.2, 0.1, 0], [cx, cy + a, 2 * a + 0.2, 0.1, 0]]
    boxes = [[rnd(v) for v in b] for b in boxes]
    calls = []
    for _ in range(rng.pick([1, 2, 3])):
        far = layout == 'far' and rng.chance(0.8)
        pts = []
        for e in range(2):
            pts.append([[rnd(W * rng.random()), rnd(H * rng.random())] for _ in range(12)])
        if layout == 'rooms' and rng.chance(0.7):
            pts = [sorted(pts[0]), sorted(pts[1], reverse=True)]
        if layout == 'sealed':
            pts[0] = [[rnd(W * 0.3 + 0.02 * i), rnd(H * 0.5)] for i in range(3)] + pts[0]
        if far:
            pts[rng.randrange(2)] = [[u(8, 20), u(-10, 10)]]
        mn = rng.pick([2, 3, 5, 8, 10, 20])
        c = {'pts': pts, 'min': mn, 'max': mn + rng.pick([0, 1, 3, 10, 25, 40]), 'factor': rng.pick([1.0, 1.05, 1.1, 1.3, 1.5, 2, 4]),
             'holding': rng.chance(0.3), 'teleport': rng.chance(0.2), 'collide': rng.chance(0.06)}
        if rng.chance(0.12):
            c['adaptive'] = True
            c['gap'] = rnd(rng.pick([2.2, 2.6, 3.0]) + 0.4 * rng.random())
        shorten(c)
        calls.append(c)
    if rng.chance(0.15):        # a world of a few steps' width
        s = u(0.03, 0.2)
        robot, held = [rnd(v * s, 5) for v in robot[:2]] + robot[2:], [rnd(v * s, 5) for v in held[:2]] + held[2:]
        boxes = [[rnd(v * s, 5) for v in b[:4]] + b[4:] for b in boxes]
        for c in calls:
            c['pts'] = [[[rnd(v * s, 5) for v in q] for q in cand] for cand in c['pts']]
    return {'kind': 'turtle', 'layout': layout, 'robot': robot, 'held': held, 'boxes': boxes, 'calls': calls}


def gen_insert(rng, tier):
    def u(a, b):
        return rnd(a + (b - a) * rng.random())
    body = [rng.pick([0.02, 0.06, u(0.02, 0.12)]), rng.pick([0.02, 0.06, u(0.02, 0.2)]), rng.pick([0.05, 0.1, 0.2, 0.3])]
    gap = rng.pick([0.02, 0.05, 0.1, 0.2])
    bw = [rnd(max(body[0], 0.06) + gap), rnd(max(body[1], 0.06) + gap), rng.pick([0.05, 0.15])]
    shape = rng.wpick([('bin', 4), ('cubby', 1), ('tray', 1), ('free', 2)])
    boxes = []
    if shape == 'free':
        for _ in range(rng.pick([3, 4, 6])):
            x = {0: -0.35, 2: 0.35}.get(len(boxes), u(-0.3, 0.3))      # (the planner takes the first and third for a hallway's sides)
            boxes.append([x, u(-0.3, 0.3), u(0, 0.4), u(0.02, 0.25), u(0.02, 0.25), u(0.02, 0.25), u(-1.5, 1.5), u(-1.5, 1.5), u(-3, 3)])
    margin = rng.pick([0.05, 0.26, 0.26, 0.8, 1.5])
    calls = []
    for _ in range(rng.pick([1, 1, 2])):
        pts = []
        for e in range(2):
            tilt = rng.pick([0.0, 0.0, margin])
            if shape == 'free':
                pts.append([[u(-0.3, 0.3), u(-0.3, 0.3), u(0, 0.5)] + [rnd(u(-1, 1) * tilt) for _ in range(3)] for _ in range(12)])
            else:
                z = body[2] / 2 + (rnd(bw[2] + u(0.0, 0.15)) if e == 0 else 0.02)
                pts.append([[rnd(s * u(-0.02, 0.05)), rnd(s * u(-0.03, 0.03)), rnd(z + 0.02 * i)] + [rnd(u(-1, 1) * tilt * s) for _ in range(3)] for i, s in
                            enumerate([1.0, 0.5, 0.2, 0.0, 0.0, 0.0, 0.0])])
        if rng.chance(0.1):
            pts[0] = [[u(1.0, 1.5), 0.0, 0.0, 0.0, 0.0, 0.0]]
        mn = rng.pick([2, 3, 5, 10, 16])
        more = [0, 1, 3, 8, 14] if margin < 0.8 else [0, 1, 3, 6]
        c = {'pts': pts, 'min': min(mn, 10 if margin >= 0.8 else 16), 'factor': rng.pick([1.0, 1.05, 1.1, 1.5, 2]), 'collide': rng.chance(0.05)}
        c['max'] = c['min'] + rng.pick(more)
        shorten(c, 8)
        c['reach'] = rng.pick([0, 0, 0, 0, 20, 60, 100])      # per cent of the poses the arm cannot take
        calls.append(c)
    if rng.chance(0.08):        # a world of a few steps' width, and many samples
        s, margin = u(0.03, 0.1), 0.02
        body, bw = [rnd(v * s, 6) for v in body], [rnd(v * s, 6) for v in bw]
        boxes = [[rnd(v * s, 6) for v in b[:6]] + b[6:] for b in boxes]
        calls = calls[:1]
        for c in calls:
            c.update(min=rng.pick([36, 44]), factor=2)
            c['max'] = c['min'] + 1
            c['pts'] = [[[rnd(v * s, 6) for v in q[:3]] + [max(-margin, min(margin, v)) for v in q[3:]] for q in cand] for cand in c['pts']]
    return {'kind': 'insert', 'shape': shape, 'body': body, 'bw': bw, 'boxes': boxes, 'margin': margin, 'calls': calls}


# ------------------------------------------------------------------------------------------------ independent geometry
class Judge2:
    """A rectangle (axis-aligned, translated) among rotated rectangles: exact intervals of collision along a segment."""

    def __init__(self, boxes, robot):
        self.polys = []
        for x, y, w, l, yaw in boxes:
            c, s = math.cos(yaw), math.sin(yaw)
            ax = np.array([[c, s], [-s, c], [1.0, 0.0], [0.0, 1.0]])
            r = abs(ax @ np.array([c, s])) * w / 2 + abs(ax @ np.array([-s, c])) * l / 2 + abs(ax[:, 0]) * robot[0] / 2 + abs(ax[:, 1]) * robot[1] / 2
            self.polys.append((ax, ax @ np.array([x, y]), r))         # |ax.p - c| <= r for all four axes: collision

    def interval(self, poly, a, b, grow=0.0):
        ax, c, r = poly
        lo, hi = 0.0, 1.0
        pa, pd = ax @ a - c, ax @ (b - a)
        for p, d, rr in zip(pa, pd, r + grow):
            if rr <= 0:
                return None
            if abs(d) < 1e-14:
                if abs(p) > rr:
                    return None
                continue
            t0, t1 = sorted(((-rr - p) / d, (rr - p) / d))
            lo, hi = max(lo, t0), min(hi, t1)
            if lo > hi:
                return None
        return lo, hi

    def clear(self, p, margin=EPS):
        return all(self.interval(q, p, p, margin) is None for q in self.polys)

    def deep(self, p):
        return any(self.interval(q, p, p, -EPS) is not None for q in self.polys)

    def certain(self, a, b):
        return all(self.interval(q, a, b, EPS) is None for q in self.polys)

    def missed(self, a, b):
        """Length (per coordinate) of the longest collision along the segment, when it is more than the checker may step over."""
        L = float(np.max(np.abs(b - a)))
        for q in self.polys:
            t = self.interval(q, a, b, -EPS)
            if t and (t[1] - t[0]) * L > STEP2 + 1e-6:
                return (t[1] - t[0]) * L
        return 0.0


class Judge6:
    """Oriented boxes: signed separation (positive when apart) of the carried body from the nearest obstacle, for many poses at once."""

    def __init__(self, oobbs, extent):
        self.h = np.array(extent) / 2
        self.obs = [(ts.matrix_from_quat(o[1][1]), (np.array(o[0][1]) - np.array(o[0][0])) / 2, np.array(o[1][0], float)) for o in oobbs]

    def seps(self, R, c):
        """R: n rotation matrices, c: n centres."""
        out = np.full(len(c), np.inf)
        for Ro, ho, co in self.obs:
            B = np.swapaxes(R, 1, 2)                                                # rows: the body's axes
            A = np.broadcast_to(Ro.T, B.shape)
            X = np.cross(A[:, :, None, :], B[:, None, :, :]).reshape(len(c), 9, 3)
            n = np.linalg.norm(X, axis=2, keepdims=True)
            X = np.concatenate([A, B, np.where(n > 1e-7, X / np.where(n > 1e-7, n, 1), A[:, :1])], axis=1)
            d = np.abs(np.einsum('nij,nj->ni', X, c - co)) - np.abs(X @ Ro) @ ho - np.abs(np.einsum('nij,njk->nik', X, R)) @ self.h
            out = np.minimum(out, d.max(axis=1))
        return out

    def sep(self, v):
        return float(self.seps(ts.matrix_from_quat(ts.quat_from_euler(v[3:]))[None], np.array(v[:3], float)[None])[0])

    def clear(self, v, margin=EPS):
        return self.sep(v) > margin

    def deep(self, v):
        return self.sep(v) < -EPS

    def along(self, a, b, d):
        """Separation at steps of (at most) d in the six coordinates from a to b (straight line, shortest rotation)."""
        L = float(np.linalg.norm(b - a))
        n = max(2, int(math.ceil(L / d)))
        t = np.arange(n + 1) / n
        c = (1 - t)[:, None] * a[:3] + t[:, None] * b[:3]
        qa, qb = np.array(ts.quat_from_euler(a[3:])), np.array(ts.quat_from_euler(b[3:]))
        if qa @ qb < 0:
            qb = -qb
        th = math.acos(min(1.0, float(qa @ qb)))
        if th < 1e-6:
            q = (1 - t)[:, None] * qa + t[:, None] * qb
        else:
            q = (np.sin((1 - t) * th)[:, None] * qa + np.sin(t * th)[:, None] * qb) / math.sin(th)
        q /= np.linalg.norm(q, axis=1, keepdims=True)
        return self.seps(np.moveaxis(ts.matrix_from_quat(q.T), 2, 0), c), L / n

    def certain(self, a, b):
        return self.along(a, b, 0.05)[0].min() > 0.005 and self.along(a, b, 0.004)[0].min() > 0.005

    def missed(self, a, b):
        s, d = self.along(a, b, 0.003)
        run = best = 0
        for x in s:
            run = run + 1 if x < -EPS else 0
            best = max(best, run)
        return (best - 1) * d if (best - 1) * d > STEP6 + 2 * d else 0.0


# ------------------------------------------------------------------------------------------------ the run
class Run:
    def __init__(self, plan):
        self.plan, self.prop = plan, plan['prop']
        self.w = world.mkworld(plan, tick=plan['tick'], tree=False, max_steps=40_000)
        self.w.fs.put(TEMP + '/.gitignore', '*\n', durable=False)
        self.dirty = False              # a kill or a failed removal may leave files
        self.who = 'turtlebot planner' if plan['kind'] == 'turtle' else 'insertion planner'

    def bad(self, cls, detail):
        raise Violation(cls, '%s: %s' % (self.who, detail), self.prop)

    def scratch(self):
        n = self.w.fs.lookup(TEMP)
        return sorted(x for x in n.entries if x != '.gitignore') if n is not None else []

    # -------------------------------------------------------- inside a process
    def job(self, p, j):
        plan, w = self.plan, self.w
        p.has_kgraph = plan['kgraph']
        turtle = plan['kind'] == 'turtle'
        prm = loader.load(p, 'nonasymptotic.prm')
        self.watch(p, prm)
        mod = loader.load(p, 'streams' if turtle else 'run')
        setup = (self.setup_turtle if turtle else self.setup_insert)(p, mod)
        for i, c in enumerate(plan['calls']):
            if c['proc'] == j:
                self.call(p, mod, i, c, setup)

    def watch(self, p, prm):
        """Remember what roadmaps were grown (through the planners' public method)."""
        run = self
        p.grown = []
        for cls in [c for c in vars(prm).values() if isinstance(c, type) and issubclass(c, prm.SimplePRM) and 'grow_to_n_samples' in vars(c)]:
            def mk(orig):
                def grow_to_n_samples(self, n, *a, **k):
                    r = orig(self, n, *a, **k)
                    p.quiet += 1
                    try:
                        X = np.array(self.prm_samples)
                        p.grown.append((X, [tuple(e) for e in self.prm_graph.iterEdges()]))
                        run.w.log(p.name, 'grown', len(X))
                        if len(X) > p.limit:
                            run.bad('too-large', 'grows its roadmap to %d samples, asked for at most %d' % (len(X), p.limit))
                        if len(p.grown) > p.limit + 5:
                            run.bad('endless', '%d growths for a limit of %d samples' % (len(p.grown), p.limit))
                    finally:
                        p.quiet -= 1
                    return r
                return grow_to_n_samples
            cls.grow_to_n_samples = mk(vars(cls)['grow_to_n_samples'])
        for cls in [c for c in vars(prm).values() if isinstance(c, type) and issubclass(c, prm.SimplePRM) and '__init__' in vars(c)]:
            def mk2(orig):
                sig = inspect.signature(orig)

                def __init__(self, *a, **k):
                    try:
                        p.sampler = sig.bind(self, *a, **k).arguments.get('valid_state_sampler')
                    except TypeError:
                        pass
                    return orig(self, *a, **k)
                return __init__
            cls.__init__ = mk2(vars(cls)['__init__'])

    def cleanup_hit(self):
        """Did a fault hit the removal of a scratch file itself?"""
        at = [self.w.hit_at.get(i, ('', '')) for i in self.w.fired_ids]
        return any(a in ('stat', 'unlink') and '/temp/' in str(b) for a, b in at)

    def pick(self, c, judge):
        out = []
        for cand in c['pts']:
            ok = [q for q in cand if judge.clear(np.array(q, float))]
            out.append(np.array(ok[0] if ok else cand[0], float))
        return out

    def setup_turtle(self, p, mod):
        plan = self.plan
        obs = [ts.Body(i + 10, (x, y, 0.05), (w, l, 0.1), yaw) for i, (x, y, w, l, yaw) in enumerate(plan['boxes'])]

        class Problem:
            obstacles = obs
            fixed = obs
            hallway_gap = 1.0
        return Problem

    def setup_insert(self, p, mod):
        plan = self.plan
        if plan['shape'] == 'free':
            oobbs = [ts.oobb_at((a, b, c), ts.Pose((x, y, z), (r, q, s))) for x, y, z, a, b, c, r, q, s in plan['boxes']]
        else:
            shapes, oobbs = mod.create_hollow_shapes(mod.SHAPE_INDICES[plan['shape']], width=plan['bw'][0], length=plan['bw'][1], height=plan['bw'][2])
            self.check_bin(mod.SHAPE_INDICES[plan['shape']], oobbs)
        robot, body = ts.Gripper(1, (0, 0, 0), (0, 0, 0)), ts.Body(5, (0, 0, 0), plan['body'])
        return robot, body, oobbs

    def check_bin(self, indices, oobbs):
        """The walls of a hollow shape lie on its faces."""
        dims = np.array(self.plan['bw'], float)
        want = [(k, s) for k, signs in enumerate(indices) for s in sorted(signs)]
        if len(oobbs) != len(want):
            return
        for (k, s), o in zip(want, oobbs):
            lo, hi = np.array(o[0][0]) + np.array(o[1][0]), np.array(o[0][1]) + np.array(o[1][0])
            face = [-dims[0] / 2, -dims[1] / 2, 0.0][k] if s < 0 else [dims[0] / 2, dims[1] / 2, dims[2]][k]
            if abs((lo if s < 0 else hi)[k] - face) > 1e-9:
                self.bad('walls', 'wall %s of the container is not on its face' % ((k, s),))

    def call(self, p, mod, i, c, setup):
        plan, w = self.plan, self.w
        turtle = plan['kind'] == 'turtle'
        if turtle:
            judge = Judge2(plan['boxes'], plan['held'] if c['holding'] else plan['robot'])
        else:
            judge = Judge6(setup[2], plan['body'])
        start, goal = self.pick(c, judge)
        if c['collide'] and turtle and plan['boxes']:
            start = np.array(plan['boxes'][0][:2], float)
        free = judge.clear(start) and judge.clear(goal)
        if len(plan['boxes']) < (1 if turtle else 3) and not (plan['kind'] == 'insert' and plan['shape'] != 'free'):
            return
        p.limit = c['max']
        if c.get('adaptive'):
            p.limit = 10 ** 9           # the planner takes its own bound
        p.grown, p.sampler = [], None
        p.met, p.refused = {}, False

        def unreachable(pose):
            key = tuple(np.round(np.ravel(pose[0]), 9))
            no = h64(plan['exec_seed'], i, key) % 100 < c['reach']
            p.refused = p.refused or no
            return no
        p.unreachable_pose = unreachable if c.get('reach') else None
        before = self.scratch()
        before_shown, p.shown = self.pictures(p), []
        fired = len(w.fired_ids)
        w.log(p.name, 'call', i)
        err = out = None
        try:
            out = (self.call_turtle if turtle else self.call_insert)(p, mod, c, setup, start, goal)
        except (SimKilled, SimHang, StubGap, Violation):
            self.dirty = True
            raise
        except BaseException as e:
            err = e
        p.quiet += 1
        try:
            w.log(p.name, 'result', type(err).__name__ if err is not None else None if out is None else len(out), len(p.grown), p.grown[-1][0].tolist()[-1] if p.grown else None)
            w.cover.add(h64(plan['kind'], type(err).__name__, out is None, [len(g[0]) for g in p.grown], c['factor'], len(out) if out is not None else 0))
            faulted = len(w.fired_ids) > fired
            left = [f for f in self.scratch() if f not in before]
            if left and plan['nproc'] == 1 and not self.cleanup_hit():
                self.bad('litter', 'leaves %d scratch file(s) behind (%s)' % (len(left), 'after %s' % type(err).__name__ if err is not None else 'after it returned'))
            failed = out is None and (turtle and err is None or not turtle and type(err).__name__ == 'SubplanFailed')
            if p.grown and self.prop != 'C27':
                self.check_range(p, p.grown[-1][0], start, setup)
            if err is not None and not failed:
                w.probe('raised')
                if faulted or not free or plan['nproc'] > 1 and w.fired_ids:
                    return
                p.exc, p.name_ = err, p.name
                p.tb = None
                import traceback
                p.tb = ''.join(traceback.format_exception(err))
                harness.process_died(p, self.prop)
            if self.prop == 'C27':
                self.check_shown(p, c, None if failed else out, start, goal, before_shown)
                return
            if failed:
                if p.refused:
                    w.probe('out-of-reach')
                    return
                w.probe('no-route')
                self.check_failed(p, c, judge, start, goal, free)
                return
            w.probe('trajectory')
            self.check_path(c, judge, np.array(out, float), start, goal)
        finally:
            p.quiet -= 1

    def call_turtle(self, p, mod, c, Problem, start, goal):
        plan = self.plan
        kw = dict(start_samples=c['min'], end_samples=c['max'], factor=c['factor'], teleport=c['teleport'])
        if c.get('adaptive'):
            Problem.hallway_gap = c['gap']
            kw['adaptive_n'] = True
        if self.prop == 'C27':
            kw.update(animate=True, save_dir=self.folder(p))
            if c['batches'] and hasattr(mod, 'animate_knn_prm'):
                draw = p.draw = getattr(p, 'draw', None) or mod.animate_knn_prm

                def animate_knn_prm(prm, sol, **k):
                    k.update(node_batches=c['batches'][0], edge_batches=c['batches'][1])
                    return draw(prm, sol, **k)
                mod.animate_knn_prm = animate_knn_prm
        fn = mod.get_anytime_motion_fn(Problem, holding=c['holding'], **kw)
        rover = ts.Body(1, (start[0], start[1], 0.05), plan['robot'])
        q1, q2 = ts.Conf(tuple(start) + (0.0,)), ts.Conf(tuple(goal) + (0.0,))
        if c['holding']:
            out = fn(rover, q1, q2, ts.Body(2, (9.0, 9.0, 0.05), plan['held']))
        else:
            out = fn(rover, q1, q2)
        if out is None:
            return None
        return [k.values[:2] for k in out.outputs[0].path]

    def call_insert(self, p, mod, c, setup, start, goal):
        robot, body, oobbs = setup
        kp = loader.load(p, 'kuka_primitives')
        grasp = kp.BodyGrasp(body, ts.Pose(), ts.Pose(), robot, 0)
        fn = mod.get_insert_motion_gen(robot, body_aabb_map={body: ts.get_aabb(body)}, body_obstacle_map={body: oobbs}, start_samples=c['min'],
                                       end_samples=c['max'], factor=c['factor'], collision_buffer=0.02, theta_margin=self.plan['margin'])
        q1, q2 = kp.BodyConf(robot, tuple(start), list(range(6))), kp.BodyConf(robot, tuple(goal), list(range(6)))
        out = fn(q1, q2, body, grasp)
        if not out:
            p.quiet += 1
            self.bad('no-report', 'returns nothing, without reporting a failed subplan')
        p.quiet += 1
        path = [list(q) for q in harness.waypoints(out[0].body_paths, self.bad)]
        p.quiet -= 1
        return path

    # -------------------------------------------------------- animations
    def folder(self, p):
        return '%s/pictures/%s' % (TAMP, p.name)

    def pictures(self, p):
        n = self.w.fs.lookup(self.folder(p))
        return sorted(n.entries) if n is not None else []

    def record(self):
        """Animations are saved through a writer that notes what each frame shows."""
        from matplotlib import animation as A
        from matplotlib.colors import to_rgb
        w, real = self.w, A.Animation.save

        def save(ani, filename, *a, **k):
            p = seams.cur()

            class Notes(A.AbstractMovieWriter):
                def __init__(self):
                    super().__init__(fps=5)
                    self.frames = []

                def setup(self, fig, outfile, dpi=None):
                    self.fig, self.outfile = fig, str(outfile)

                def grab_frame(self, **kw):
                    pts, lines, red = [], [], []
                    for ax in self.fig.axes:
                        for col in ax.collections:
                            if hasattr(col, 'get_segments'):
                                lines += [np.asarray(g, float).tolist() for g in col.get_segments()]
                                red += [tuple(v[:3]) == (1.0, 0.0, 0.0) for v in col.get_edgecolor()]
                                continue
                            pts += np.asarray(col.get_offsets(), float).reshape(-1, 2).tolist()
                            red += [tuple(v[:3]) == (1.0, 0.0, 0.0) for v in col.get_facecolor()]
                        for ln in ax.lines:
                            lines.append(np.asarray(ln.get_xydata(), float).tolist())
                            red.append(to_rgb(ln.get_color()) == (1.0, 0.0, 0.0))
                    self.frames.append((pts, lines, all(red), any(red)))

                def finish(self):
                    p.quiet -= 1
                    try:
                        with open(self.outfile, 'wb') as f:
                            f.write(b'GIF89a %d frames' % len(self.frames))
                    finally:
                        p.quiet += 1
                    p.shown.append((self.outfile, self.frames))
            k.pop('writer', None)
            p.quiet += 1
            try:
                return real(ani, filename, writer=Notes())
            finally:
                plt.close(ani._fig)
                p.quiet -= 1
        import matplotlib.pyplot as plt
        A.Animation.save = save
        return lambda: setattr(A.Animation, 'save', real)

    def check_shown(self, p, c, out, start, goal, before):
        new = [f for f in self.pictures(p) if f not in before]
        if len(p.shown) != 1 or len(new) != 1:
            self.bad('pictures', 'leaves %d new animation(s) for one planning call (%d were drawn)' % (len(new), len(p.shown)))
        frames = p.shown[0][1]
        X, E = p.grown[-1]
        self.w.probe('animated')
        last = frames[-1]
        if not np.array_equal(sorted(last[0]), sorted(X.tolist())):
            self.bad('points', 'the animation ends with %d points, the roadmap has %d samples' % (len(last[0]), len(X)))
        for a, b in zip(frames, frames[1:]):
            if len(b[0]) < len(a[0]) or b[1][:len(a[1])] != a[1]:
                self.bad('frames', 'something drawn disappears from the animation')
        for f in frames:
            if f[1] and len(f[0]) < len(X):
                self.bad('frames', 'connections appear before all samples do')
        key = lambda u, v: tuple(sorted([tuple(u), tuple(v)]))
        want = sorted(key(X[u].tolist(), X[v].tolist()) for u, v in E)
        got = [key(l[0], l[-1]) for l in last[1]]
        if sorted(got[:len(want)]) != want:
            self.bad('connections', 'the animation draws %d lines before the route, they are not the %d connections of the roadmap, each once' % (min(len(got), len(want)), len(want)))
        legs = last[1][len(want):]
        if out is None:
            if legs:
                self.bad('route', 'the animation of a failed search draws %d lines beyond the roadmap' % len(legs))
            if not last[2]:
                self.bad('colours', 'the animation of a failed search does not end in red')
            if frames[0][3]:
                self.bad('colours', 'the animation is red from the start')
            return
        if last[3]:
            self.bad('colours', 'the animation of a route found ends in red')
        if not legs:
            return self.bad('route', 'the animation does not show the route')
        chain = [legs[0][0]] + [l[-1] for l in legs]
        if any(a[-1] != b[0] for a, b in zip(legs, legs[1:])):
            self.bad('route', 'the legs of the animated route do not join')
        P = np.array(out, float)
        at = 0
        for v in chain:
            d = np.abs(P[at:] - np.array(v)).max(axis=1) if at < len(P) else np.array([1.0])
            if d.min() > 1e-9:
                self.bad('route', 'the animated route passes %s, the trajectory does not' % np.round(v, 4).tolist())
            at += int(d.argmin())
        if np.abs(np.array(chain[0]) - start).max() > 1e-9 or np.abs(np.array(chain[-1]) - goal).max() > 1e-9:
            self.bad('route', 'the animated route does not lead from the start to the goal')
        if c['teleport'] and len(P) != len(chain):
            self.bad('route', 'the animated route has %d corners, the trajectory %d' % (len(chain), len(P)))

    # -------------------------------------------------------- judging
    def check_range(self, p, X, start, setup):
        """Samples range over the whole box that the obstacles (and, for an insertion, the start) span."""
        plan = self.plan
        if plan['kind'] == 'turtle':
            V = np.array([[x + sx * abs(w * math.cos(a)) / 2 + sx * abs(l * math.sin(a)) / 2, y + sx * abs(w * math.sin(a)) / 2 + sx * abs(l * math.cos(a)) / 2]
                          for x, y, w, l, a in plan['boxes'] for sx in (-1, 1)])
        else:
            V = np.concatenate([np.array(ts.get_oobb_vertices(o), float) for o in setup[2]] + [np.array(start[:3], float)[None]])
        lo, hi = V.min(axis=0), V.max(axis=0)
        if plan['kind'] != 'turtle':
            lo, hi = np.append(lo, [-plan['margin']] * 3), np.append(hi, [plan['margin']] * 3)
        if callable(p.sampler):         # some more samples of the sampler the planner was given
            X = np.concatenate([X, np.array([p.sampler() for _ in range(1000)]).reshape(1000, -1)])
        if X.shape[1] != len(lo):
            return self.bad('range', 'samples %d numbers per configuration instead of %d' % (X.shape[1], len(lo)))
        out = np.maximum(lo - X, X - hi).max()
        if out > 1e-6:
            self.bad('range', 'samples %.4f outside the box its obstacles span' % out)
        wide = hi - lo > 1e-6
        p.units = getattr(p, 'units', [])
        p.units.extend(((X - lo)[:, wide] / (hi - lo)[wide]).tolist())
        if any(len(u) != len(p.units[0]) for u in p.units):
            return
        U = np.array(p.units)
        spread = U.max(axis=0) - U.min(axis=0)
        if len(U) >= 12 and spread.min() < 0.01:
            self.bad('range', '%d samples all have the same coordinate' % len(U))
        miss = 1 - 1e-11 ** (1.0 / len(U))      # (so much of an axis stays untried by chance in one of 10**11 runs)
        if miss < 0.6:
            self.w.probe('range-covered')
        if U.min(axis=0).max() > miss or U.max(axis=0).min() < 1 - miss:
            self.bad('range', '%d samples leave %.2f of the box its obstacles span untried' % (len(U), max(U.min(axis=0).max(), 1 - U.max(axis=0).min())))

    def check_failed(self, p, c, judge, start, goal, free):
        if not p.grown:
            if free:
                self.bad('gave-up', 'finds nothing without trying any samples (asked for %d to %d)' % (c['min'], c['max']))
            return
        X, E = p.grown[-1]
        n = len(X)
        if not c.get('adaptive') and n < c['max'] and (n + 1) * c['factor'] < c['max'] + 1 and n + 1 <= c['max']:
            self.bad('gave-up', 'gives up at %d samples, asked for up to %d at factor %s' % (n, c['max'], c['factor']))
        D = np.linalg.norm(X[:, None] - X[None], axis=2)
        k = min(n - 1, 32)
        r = float(np.sort(D, axis=1)[:, max(k - 1, 0)].min())       # (pynndescent counts a sample as its own nearest neighbor)
        adj = {}
        for a, b in E:
            adj.setdefault(a, []).append(b)
            adj.setdefault(b, []).append(a)
        near = [[int(v) for v in np.nonzero(np.linalg.norm(X - q, axis=1) <= r * (1 - 1e-9))[0]] for q in (start, goal)]
        S = [v for v in near[0] if judge.certain(start, X[v])]
        G = set(v for v in near[1] if judge.certain(goal, X[v])) if S else set()
        seen, todo = set(S), list(S)
        while todo and G:
            v = todo.pop()
            if v in G:
                self.bad('missed-route', 'finds nothing although its last roadmap (%d samples) has a route' % n)
            for u in adj.get(v, []):
                if u not in seen:
                    seen.add(u)
                    todo.append(u)

    def check_path(self, c, judge, P, start, goal):
        turtle = self.plan['kind'] == 'turtle'
        tol = 1e-9 if turtle else 1e-6
        if P.ndim != 2 or P.shape[1] != len(start):
            self.bad('trajectory', 'returns a trajectory of shape %s' % (P.shape,))
        if np.abs(P[0] - start).max() > tol or np.abs(P[-1] - goal).max() > tol:
            self.bad('trajectory', 'returns a trajectory from %s to %s, asked for %s to %s' % (P[0].tolist(), P[-1].tolist(), start.tolist(), goal.tolist()))
        step = np.linalg.norm(np.diff(P, axis=0), axis=1)
        if turtle and not c['teleport'] and len(step) and step.max() > SPACING + 1e-9:
            self.bad('spacing', 'returns a trajectory with a step of %.4f, the spacing is %.3f' % (step.max(), SPACING))
        for v in (P[0], P[-1]):
            if judge.deep(v):
                self.bad('collision', 'returns a trajectory that starts or ends in collision')
        if turtle:
            # merge collinear runs: between two turns lie only samples of one motion
            keep = [0]
            for i in range(1, len(P) - 1):
                a, b = P[i] - P[keep[-1]], P[i + 1] - P[i]
                if abs(a[0] * b[1] - a[1] * b[0]) > 1e-9 * max(1e-12, np.linalg.norm(a) * np.linalg.norm(b)) or a @ b < 0:
                    keep.append(i)
            W = P[keep + [len(P) - 1]]
        else:
            W = P
        for v in W:
            if judge.deep(v):
                self.bad('collision', 'returns a trajectory with the waypoint %s in collision' % np.round(v, 4).tolist())
        for a, b in zip(W, W[1:]):
            m = judge.missed(a, b)
            if m:
                self.bad('collision', 'returns a trajectory that is in collision for %.3f between %s and %s, the checker steps by %s' % (
                    m, np.round(a, 4).tolist(), np.round(b, 4).tolist(), STEP2 if turtle else STEP6))

    # -------------------------------------------------------- the whole
    def run(self):
        plan, w = self.plan, self.w
        sub = TAMP + ('/turtlebot_move' if plan['kind'] == 'turtle' else '/kuka_carry')
        for j in range(plan['nproc']):
            w.spawn('job%d' % j, lambda p, j=j: self.job(p, j), host='h%d' % j, argv=['run.py'], cwd=TAMP, import_dirs=[sub, world.REPO_SIM],
                    pid=4000 if plan['samepid'] else None)
        if self.prop == 'C27':
            for j in range(plan['nproc']):
                w.fs.put('%s/pictures/job%d/.keep' % (TAMP, j), '', durable=False)
        restore = self.record() if self.prop == 'C27' else lambda: None
        try:
            w.run()
        finally:
            restore()
        for p in w.procs:
            if p.exc is not None and not isinstance(p.exc, SimKilled):
                harness.process_died(p, self.prop)
        killed = any(plan['faults'][i]['kind'] in ('kill',) for i in w.fired_ids)
        if not killed and self.scratch() and not self.cleanup_hit():
            self.bad('litter', '%d scratch file(s) are left after all planners returned' % len(self.scratch()))
        return w


def run(plan):
    return Run(plan).run()
