"""Scenario for C06: each subject (an environment or a planner with a fixed seed and operation list) runs once alone and
once amid others - interleaved in one process, next to other processes, with other global random state, clocks, entropy
and process ids.  Its outputs must be bit-for-bit the same.
"""
import hashlib

import numpy as np

from .. import core, geom, harness, loader, world
from ..core import PRNG, SimHang, SimKilled, StubGap, Violation, h64

SHRINK = ['subjects', 'merge', 'switches']


def gen(rng, prop, tier):
    big = tier == 'thorough'
    ns = rng.pick([2, 3, 3, 4])
    nproc = rng.pick([1, 1, 2, 3])
    subjects = []
    for i in range(ns):
        e = geom.gen_env(rng, (('line', 3), ('narrow', 3), ('gray', 1.2)))
        if rng.chance(0.3) and subjects:
            e = dict(rng.pick(subjects)['env'])
            if rng.chance(0.5):
                e['seed'] = rng.randrange(1 << 30)
        if rng.chance(0.15):
            e['seed'] = 0
        kind = rng.pick(['env', 'planner', 'planner'])
        S = {'id': i, 'env': e, 'kind': kind, 'proc': i % nproc}
        if kind == 'planner':
            cls = rng.wpick([('full', 2), ('nn', 4), ('rad', 2)])
            if e['kind'] == 'gray' and cls == 'rad':
                cls = 'full'
            S.update(cls=cls, r=round(rng.pick([0.3, 0.6, 1.0]) * (0.7 + 0.6 * rng.random()), 4), k=rng.pick([3, 6, 12]) if cls == 'nn' else 32,
                     trunc=rng.chance(0.5), pseed=rng.pick([None, 0, 1, i]))
            n = rng.pick([18, 24, 40]) if cls == 'rad' else rng.pick([6, 12, 25, 40])
            ops = [['grow', n]]
            for _ in range(rng.randrange(2, 7)):
                o = rng.pick(['grow', 'query', 'query', 'radius', 'k', 'save'])
                if o == 'grow':
                    n += rng.pick([1, 4, 9, 15])
                    ops.append(['grow', n])
                elif o == 'query':
                    ops.append(['query', [round(rng.random(), 5) for _ in range(6)], [round(rng.random(), 5) for _ in range(6)]])
                elif o == 'radius' and cls != 'rad':
                    ops.append(['radius', round(0.2 + rng.random(), 4)])
                elif o == 'k' and cls == 'nn':
                    ops.append(['k', rng.randrange(1, S['k'] + 1)])
                elif o == 'save':
                    ops.append(['reset'])
                    n = rng.pick([18, 25])
                    ops.append(['grow', n])
        else:
            ops = [['draw', rng.pick([1, 2, 5, 20])] for _ in range(rng.randrange(2, 6))]
            if rng.chance(0.3):
                ops.append(['polygon', rng.randrange(3), rng.pick([1, 3])])
                ops.append(['draw', 3])
        S['ops'] = ops
        subjects.append(S)
    # the merge: which subject of a process acts next, with noise in between
    merge = []
    for S in subjects:
        merge += [['subject', S['id']]] * (len(S['ops']) + 1)
    for i in range(len(merge) - 1, 0, -1):
        j = rng.randrange(i + 1)
        merge[i], merge[j] = merge[j], merge[i]
    for _ in range(rng.randrange(0, 12)):
        k = rng.pick(['seed', 'seed', 'draw', 'nprandom', 'newenv', 'newprm', 'unseeded', 'sleep', 'clock', 'uuid'])
        merge.insert(rng.randrange(len(merge) + 1), ['noise', k, rng.randrange(nproc), rng.randrange(1 << 20)])
    plan = {'scenario': 'isolation', 'exec_seed': rng.randrange(1 << 40), 'exec_seed2': rng.randrange(1 << 40), 'subjects': subjects,
            'merge': merge, 'nproc': nproc, 'kgraph': rng.chance(0.3), 'ann_miss': rng.pick([0.0, 0.1, 0.25]),
            'switches': core.gen_switches(rng, 600, rng.pick([3, 10, 40])) if nproc > 1 else [], 'faults': [],
            'offsets': [round(rng.random() * 1e6, 3) for _ in range(3)], 'prop': prop}
    return plan


def digest(*arrs):
    h = hashlib.blake2b(digest_size=12)
    for a in arrs:
        a = np.ascontiguousarray(np.asarray(a))
        h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
    return h.hexdigest()


class Subject:
    """Runs one subject's operations inside a process; out collects what can be observed."""

    def __init__(self, p, S, mods):
        self.p, self.S, self.mods = p, S, mods
        self.out = []
        self.i = -1
        self.first = None

    def act(self):
        S = self.S
        if self.i < 0:
            envs_mod, prm_mod, _ = self.mods
            self.box = box = geom.EnvBox(S['env'], envs_mod)
            if S['kind'] == 'planner':
                if S['cls'] == 'full':
                    self.prm = prm_mod.SimpleFullConnRadiusPRM(S['r'], box.check, box.sample, seed=S['pseed'])
                elif S['cls'] == 'nn':
                    self.prm = prm_mod.SimpleNearestNeighborRadiusPRM(S['k'], box.check, box.sample, box.dist_to_path,
                                                                      truncate_to_eff_rad=S['trunc'], seed=S['pseed'])
                else:
                    self.prm = prm_mod.SimpleRadiusPRM(S['r'], box.check, box.sample, box.dist_to_path, max_k_connection_neighbors=S['k'],
                                                       seed=S['pseed'])
            self.i = 0
            return
        if self.i >= len(S['ops']):
            return
        o = S['ops'][self.i]
        self.i += 1
        if o[0] == 'draw':
            xs = [self.box.sample() for _ in range(o[1])]
            if self.first is None:
                self.first = digest(xs[0])
            self.out.append(('draw', digest(*xs), [float(v) for v in np.ravel(xs[0])[:2]]))
        elif o[0] == 'polygon':
            pts = [self.mods[2].random_point_in_mpolygon(POLYGONS[o[1]], rng=self.box.env.rng) for _ in range(o[2])]
            self.out.append(('polygon', digest(*[[q.x, q.y] for q in pts]), None))
        elif o[0] == 'query':
            d, path = self.prm.query_best_solution(self.box.point(o[1], 'any'), self.box.point(o[2], 'any'))
            self.out.append(('query', digest([float(d)], path), float(d)))
        elif o[0] == 'reset':
            self.prm.reset()
        else:
            if o[0] == 'grow':
                self.prm.grow_to_n_samples(o[1])
            elif o[0] == 'radius':
                self.prm.set_connection_radius(o[1])
            else:
                self.prm.set_nearest_neighbors(o[1])
            g = self.prm.prm_graph
            edges = sorted((min(int(u), int(v)), max(int(u), int(v)), float(w)) for u, v, w in list(g.iterEdgesWeights()) if u != v)
            self.out.append((o[0], digest(self.prm.prm_samples), digest(np.array(edges, float)) + ' n=%d m=%d' % (len(self.prm.prm_samples), len(edges))))


POLYGONS = None


def warm():
    global POLYGONS
    from shapely.geometry import MultiPolygon, Polygon
    sq = Polygon([(0, 0), (0, 1), (1, 1), (1, 0)])
    hole = Polygon([(-3, -3), (-3, 3), (3, 3), (3, -3)], [[(-2, -2), (-2, 2), (2, 2), (2, -2)]])
    POLYGONS = [sq, hole, MultiPolygon([sq, Polygon([(2, 0), (2, 1), (1, 2)])])]


def modules(p):
    return (loader.load(p, 'nonasymptotic.envs'), loader.load(p, 'nonasymptotic.prm'), loader.load(p, 'nonasymptotic.sampler'))


def solo(plan, S):
    """The subject alone in a fresh world."""
    w = world.mkworld({'exec_seed': plan['exec_seed'], 'ann_miss': plan['ann_miss'], 'prop': plan['prop']}, tree=False)
    box = {}

    def main(p):
        p.has_kgraph = bool(plan['kgraph'])
        sub = box['s'] = Subject(p, S, modules(p))
        for _ in range(len(S['ops']) + 1):
            sub.act()
    w.spawn('solo', main, cwd=world.REPO_SIM, import_dirs=world.IMPORTS_PKG)
    w.run()
    for p in w.procs:
        if p.exc is not None:
            harness.process_died(p, plan['prop'])
    return box['s']


def other_seed(plan, S, seed):
    """First samples of the same environment under another seed."""
    w = world.mkworld({'exec_seed': plan['exec_seed'], 'prop': plan['prop']}, tree=False)
    got = []

    def main(p):
        envs_mod = loader.load(p, 'nonasymptotic.envs')
        box = geom.EnvBox(dict(S['env'], seed=seed), envs_mod)
        got.append(digest(*[box.sample() for _ in range(3)]))
    w.spawn('other', main, cwd=world.REPO_SIM, import_dirs=world.IMPORTS_PKG)
    w.run()
    for p in w.procs:
        if p.exc is not None:
            harness.process_died(p, plan['prop'])
    return got[0]


def run(plan):
    if POLYGONS is None:
        warm()
    alone = {S['id']: solo(plan, S) for S in plan['subjects']}
    w = world.mkworld(dict(plan, exec_seed=plan['exec_seed2']), tree=False)
    subs = {}

    def main(q):
        def fn(p):
            p.has_kgraph = bool(plan['kgraph'])
            mods = modules(p)
            mine = {S['id']: Subject(p, S, mods) for S in plan['subjects'] if S['proc'] == q}
            subs.update(mine)
            keep = []
            for m in plan['merge']:
                if m[0] == 'noise':
                    if m[2] == q:
                        noise(p, m[1], m[3], mods, keep, plan)
                elif m[1] in mine:
                    w.step(p, 'act', '%d' % m[1], faultable=False)
                    mine[m[1]].act()
            for s in mine.values():               # (after minimisation) whatever the merge left out
                while s.i < len(s.S['ops']):
                    s.act()
        return fn
    for q in range(plan['nproc']):
        w.spawn('p%d' % q, main(q), host=w.host('h%d' % q, offset=plan['offsets'][q], boot=1000.0 + q).name, cwd=world.REPO_SIM,
                pid=700 + q, import_dirs=world.IMPORTS_PKG)
    w.run()
    for p in w.procs:
        if p.exc is not None:
            harness.process_died(p, plan['prop'])
    for S in plan['subjects']:
        a, b = alone[S['id']], subs[S['id']]
        what = '%s %s' % (S['env']['kind'], S.get('cls', 'sampler'))
        for k, (x, y) in enumerate(zip(a.out, b.out)):
            if x != y:
                part = 'samples' if x[1] != y[1] else 'roadmap'
                raise Violation('not-isolated', '%s, seed %s: %s after operation %d (%s) differ from the same run alone: %s / %s' % (
                    what, S['env']['seed'], part if x[0] not in ('query', 'polygon') else 'answer', k, x[0], x[2], y[2]), plan['prop'])
        w.probe('subject-compared')
        w.cover.add(h64(what, len(a.out), [x[:1] for x in a.out]))
        w.log('subject', S['id'], [x[1] for x in b.out])
    # different seeds, different streams
    S = plan['subjects'][plan['exec_seed'] % len(plan['subjects'])]
    s0 = S['env']['seed']
    seen = {}
    for sd in (s0, s0 + 1, s0 + (1 << 16), s0 + (1 << 31), s0 + (1 << 33)):
        d = other_seed(plan, S, sd)
        if d in seen:
            raise Violation('seeds-collide', '%s: seeds %d and %d give the same samples' % (S['env']['kind'], seen[d], sd), plan['prop'])
        seen[d] = sd
    core.last_world = w
    return w


def noise(p, kind, v, mods, keep, plan):
    import random
    import time
    import uuid
    w = p.world
    w.count_fault('noise-' + kind)
    if kind == 'seed':
        random.seed(v)
        np.random.seed(v)
    elif kind == 'draw':
        random.random()
        np.random.random(1 + v % 7)
    elif kind == 'nprandom':
        np.random.default_rng().random(3)
    elif kind == 'newenv':
        e = dict(plan['subjects'][v % len(plan['subjects'])]['env'])
        if v % 3:
            e['seed'] = v
        b = geom.EnvBox(e, mods[0])
        for _ in range(1 + v % 5):
            b.sample()
        keep.append(b)
    elif kind == 'newprm':
        b = geom.EnvBox({'kind': 'line', 'dim': 2, 'delta': 0.3, 'length': 1.0, 'seed': v}, mods[0])
        prm = mods[1].SimpleNearestNeighborRadiusPRM(4, b.check, b.sample, b.dist_to_path, seed=v)
        prm.grow_to_n_samples(8)
        if v % 2:
            prm.reset()
        keep.append(prm)
    elif kind == 'unseeded':
        e = mods[0].StraightLine(3, 0.2)
        e.sample_from_env()
        keep.append(e)
    elif kind == 'sleep':
        time.sleep((v % 1000) / 10.0)
    elif kind == 'clock':
        time.time()
    elif kind == 'uuid':
        uuid.uuid4()
