"""Scenario: histories of planner operations, with faults, over one shared scratch directory.

One plan holds environments, planners (in one or several simulated processes) and an operation list.  The reference model
tracks, per planner, what its settings call for; the expected roadmap is recomputed from the definition after every step.
Used by C01-C05, C08 and C09 (each evaluates only its own assertions).
"""
import math

import numpy as np

from .. import core, geom, harness, loader, seams, world
from ..core import PRNG, SimHang, SimKilled, StubGap, Violation, h64
from ..stubs import networkit as nkstub
from ..stubs.pynndescent import knn

TEMP = world.REPO_SIM + '/temp'
BAND = 2e-5
INFTY = 1e300


# ------------------------------------------------------------------------------------------------ plan generation
def gen_crowd(rng, prop):
    """A large roadmap in which few samples have very many neighbours."""
    n = rng.pick([260, 340, 420])
    env = {'kind': 'discs', 'dim': 2, 'discs': [], 'seed': rng.randrange(1 << 30),
           'clusters': [[[round(rng.random(), 3) for _ in range(3)], 0.006, round(rng.pick([19, 20, 24, 40]) / n, 4)]]}
    P = {'cls': rng.pick(['rad', 'rad', 'nn']), 'env': 0, 'proc': 0, 'seed': 1, 'r': rng.pick([0.018, 0.03]), 'k': rng.pick([32, 64, 512])}
    if P['cls'] == 'nn':
        P.update(k=rng.pick([17, 32, 40]), trunc=rng.chance(0.5), mp=False)
    ops = [{'pl': 0, 'op': 'grow', 'n': n}]
    for _ in range(rng.pick([0, 1, 2])):
        o = rng.pick(['grow', 'radius', 'query'])
        if o == 'grow':
            ops.append({'pl': 0, 'op': 'grow', 'n': ops[0]['n'] + rng.pick([1, 20, 60])} if len(ops) == 1 else {'pl': 0, 'op': 'reset'})
        elif o == 'radius' and P['cls'] == 'nn':
            ops.append({'pl': 0, 'op': 'radius', 'q': round(rng.random(), 4), 'over': rng.chance(0.25)})
        elif o == 'query':
            ops.append({'pl': 0, 'op': 'query', 's': [round(rng.random(), 5) for _ in range(6)], 'g': [round(rng.random(), 5) for _ in range(6)], 'ws': 'any', 'wg': 'any'})
    for i, o in enumerate(ops):
        o['id'] = i
    return {'scenario': 'planner', 'prop': prop, 'exec_seed': rng.randrange(1 << 40), 'envs': [env], 'planners': [P], 'ops': ops, 'nproc': 1, 'kgraph': rng.chance(0.4),
            'bufsize': 8192, 'dir_order': 0, 'samepid': False, 'clock_grain': 0, 'faults': [], 'switches': []}


def gen(rng, prop, tier, salt=0):
    if prop in ('C01', 'C02', 'C05') and rng.chance(0.02):
        return gen_crowd(rng, prop)
    big = tier == 'thorough'
    nproc = {'C08': rng.pick([1, 2, 2, 3])}.get(prop, 1)
    nenv = rng.pick([1, 1, 2])
    if prop == 'C02' and rng.chance(0.3):
        envs = [geom.gen_env(rng, (('line', 1),)) for _ in range(nenv)]
    else:
        envs = [geom.gen_env(rng) for _ in range(nenv)]
    npl = rng.pick([1, 1, 1, 2]) if prop != 'C08' else rng.pick([2, 2, 3, 4])
    npl = max(npl, nproc)
    planners = []
    eqseed = rng.chance(0.5)
    for i in range(npl):
        e = rng.randrange(nenv)
        cls = rng.wpick([('full', 3), ('nn', 5), ('rad', 3)])
        if cls == 'rad' and envs[e]['kind'] == 'gray':
            cls = 'full'
        P = {'cls': cls, 'env': e, 'proc': i % nproc, 'seed': 1 if eqseed else i}
        P['r'] = round(rng.pick([0.15, 0.3, 0.5, 0.8, 1.5]) * (0.7 + 0.6 * rng.random()), 4)
        if cls == 'nn':
            P['k'] = rng.pick([2, 3, 5, 8, 12, 16])
            P['trunc'] = rng.chance(0.5)
            P['mp'] = P['trunc'] and envs[e]['kind'] == 'line' and prop in ('C01', 'C02', 'C03', 'C04', 'C05') and rng.chance(0.5)
        elif cls == 'rad':
            P['k'] = rng.pick([16, 20, 32, 64, 512])
            P['mp'] = envs[e]['kind'] == 'line' and prop in ('C01', 'C02', 'C03', 'C04', 'C05') and rng.chance(0.5)
        if prop == 'C08' and rng.chance(0.5):
            P['gseed'] = 0
        planners.append(P)
    ops = []
    sizes = {}
    W = {
        'C01': [('grow', 4), ('radius', 5), ('k', 5), ('query', 1), ('reset', 1), ('allq', 0.5)],
        'C02': [('grow', 3), ('radius', 2), ('k', 2), ('query', 8), ('allq', 2), ('reset', 0.6)],
        'C03': [('grow', 2), ('radius', 2), ('k', 2), ('query', 8), ('allq', 1), ('reset', 0.4)],
        'C04': [('grow', 4), ('radius', 5), ('k', 4), ('query', 1.5), ('allq', 0.5), ('damage', 1.5), ('reset', 0.5)],
        'C05': [('grow', 6), ('badgrow', 1.5), ('radius', 1.5), ('k', 1), ('query', 5), ('reset', 0.5)],
        'C08': [('grow', 4), ('radius', 3), ('k', 2), ('query', 2), ('reset', 3), ('rmcache', 0.7), ('globalseed', 1), ('save', 0.7)],
        'C09': [('grow', 3), ('radius', 3), ('k', 2), ('query', 3), ('save', 5), ('reset', 0.7)],
    }[prop]
    nops = rng.randrange(6, 16 if not big else 26)
    if prop == 'C08':
        nops += 3 * npl
    for j in range(npl):
        n = _first_size(rng, planners[j], big)
        sizes[j] = n
        if prop == 'C09' and rng.chance(0.2):
            ops.append({'pl': j, 'op': 'save', 'path': _save_path(rng)})
        if rng.chance(0.1):
            ops.append({'pl': j, 'op': 'reset'})
        ops.append({'pl': j, 'op': 'grow', 'n': n})
        if prop == 'C03' and planners[j]['cls'] == 'nn' and rng.chance(0.4):
            pass
    while len(ops) < nops:
        j = rng.randrange(npl)
        P = planners[j]
        o = rng.wpick(W)
        if o == 'grow':
            n = sizes[j]
            if n == 0:
                n = _first_size(rng, P, big)
            else:
                n += rng.pick([1, 2, 5, 10, 17, 30])
            if n > (110 if big else 75):
                continue
            sizes[j] = n
            ops.append({'pl': j, 'op': 'grow', 'n': n})
        elif o == 'reset':
            sizes[j] = 0
            ops.append({'pl': j, 'op': 'reset'})
            if rng.chance(0.3):
                ops.append({'pl': j, 'op': 'reset'})
        elif sizes[j] == 0 and o not in ('save', 'globalseed'):
            continue
        elif o == 'badgrow':
            ops.append({'pl': j, 'op': 'badgrow', 'd': rng.pick([1, 1, 2, 5])})
        elif o == 'radius':
            if P['cls'] == 'rad':
                continue
            if P['cls'] == 'nn':
                ops.append({'pl': j, 'op': 'radius', 'q': round(rng.random(), 4), 'over': rng.chance(0.25)})
            else:
                ops.append({'pl': j, 'op': 'radius', 'r': round(rng.pick([0.05, 0.2, 0.4, 0.8, 1.6]) * (0.7 + 0.6 * rng.random()), 4)})
        elif o == 'k':
            if P['cls'] != 'nn':
                continue
            ops.append({'pl': j, 'op': 'k', 'k': rng.randrange(1, P['k'] + 1) if rng.chance(0.93) else P['k'] + rng.randrange(1, 3)})
        elif o in ('query', 'allq'):
            if o == 'allq' and not P.get('mp') and not (prop in ('C02', 'C03') and rng.chance(0.15)):
                continue
            wh = rng.pick(['any', 'any', 'left', 'right', 'path'])
            wh2 = rng.pick(['any', 'any', 'right', 'left', 'path'])
            if rng.chance(0.05):
                wh2 = 'out'
            if o == 'allq':
                wh = wh2 = 'path'
                if P.get('mp') and rng.chance(0.3):
                    wh, wh2 = rng.pick(['any', 'path']), 'any'
            if envs[P['env']]['kind'] in ('narrow', 'gray') and 'out' in (wh, wh2):
                wh = wh2 = 'any'
            ops.append({'pl': j, 'op': o, 's': [round(rng.random(), 5) for _ in range(6)], 'g': [round(rng.random(), 5) for _ in range(6)],
                        'ws': wh, 'wg': wh2})
            if o == 'query' and prop in ('C03', 'C05') and rng.chance(0.5):
                ops.append(dict(ops[-1]))
        elif o == 'damage':
            ops.append({'pl': j, 'op': 'damage', 'how': rng.pick(['delete', 'truncate', 'truncate', 'empty']), 'frac': round(rng.random(), 3)})
            ops.append({'pl': j, 'op': 'k', 'k': P['k']} if P['cls'] == 'nn' and rng.chance(0.5) else
                       {'pl': j, 'op': 'radius', 'q': 1.0, 'over': True, 'r': 0.9} if P['cls'] != 'rad' else {'pl': j, 'op': 'grow', 'n': sizes[j]})
            if P['cls'] == 'rad':
                ops.pop()
            if rng.chance(0.7):
                ops.append({'pl': j, 'op': 'repair'})
        elif o == 'rmcache':
            ops.append({'pl': j, 'op': 'rmcache'})
            ops.append({'pl': j, 'op': 'reset'})
            sizes[j] = 0
        elif o == 'globalseed':
            ops.append({'pl': j, 'op': 'globalseed', 'v': rng.randrange(3)})
        elif o == 'save':
            ops.append({'pl': j, 'op': 'save', 'path': _save_path(rng)})
    if prop == 'C08':
        for j in range(npl):
            if rng.chance(0.8):
                ops.append({'pl': j, 'op': 'reset'})
    plan = {'scenario': 'planner', 'prop': prop, 'exec_seed': rng.randrange(1 << 40), 'envs': envs, 'planners': planners, 'ops': ops,
            'nproc': nproc, 'kgraph': rng.chance(0.4), 'bufsize': rng.pick([512, 4096, 8192]), 'dir_order': rng.randrange(3),
            'samepid': rng.chance(0.5), 'clock_grain': rng.pick([0, 0.016, 1.0]) if prop == 'C08' else 0, 'faults': [], 'switches': []}
    if nproc > 1:
        plan['switches'] = core.gen_switches(rng, 1500, rng.pick([2, 5, 15, 60]))
    for i, o in enumerate(ops):
        o['id'] = i
    if prop in FAULTS or prop in MILD and rng.chance(0.3):
        w, _ = _execute(dict(plan, prop='profile'))
        add_faults(rng, plan, w.profile)
    return plan


def _first_size(rng, P, big):
    if P['cls'] == 'rad':
        return rng.pick([18, 20, 30, 40, 60])
    if rng.chance(0.15):
        return rng.pick([2, 3, 4, 6])
    return rng.pick([8, 12, 20, 30, 45])


def _save_path(rng):
    return rng.pick(['/tmp/saved%d', 'out/saved%d', 'saved%d', '/tmp/a.b/saved%d', 'prm-r0.%d', 'out/0.5.%d', '/tmp/roadmap.nkb%d']) % rng.randrange(3)


FAULTS = {
    'C03': ({'query', 'allq'}, {'check': ['native-error', 'interrupt', 'memerr'], 'native': ['native-error', 'interrupt', 'memerr']}),
    'C04': ({'grow', 'radius', 'k'}, {
        'open-w': ['enospc', 'eacces', 'emfile', 'edquot', 'eio'], 'write': ['enospc', 'eio', 'edquot', 'short'],
        'open-r': ['eio', 'eacces', 'estale', 'emfile'], 'read': ['eio', 'short'], 'rename': ['eio', 'enospc'],
        'unlink': ['eio'], 'check': ['native-error', 'memerr'], 'ann': ['native-error', 'memerr'], 'native': ['memerr', 'native-error'],
        'sampler': ['native-error', 'native-error', 'memerr'], 'sdf': ['native-error', 'memerr']}),
    'C09': ({'save'}, {'open-w': ['enospc', 'eacces', 'emfile', 'edquot'], 'write': ['enospc', 'eio', 'edquot', 'short']}),
}


# the other properties meet the same failures in part of their runs
MILD = {'C01': [FAULTS['C04'], FAULTS['C03']], 'C02': [FAULTS['C03'], FAULTS['C04']], 'C05': [FAULTS['C04']],
        'C08': [FAULTS['C04'], ({'grow', 'radius', 'k', 'query', 'save'}, {'op': ['kill']})]}


def add_faults(rng, plan, profile):
    kinds_ops, by_cls = FAULTS.get(plan['prop']) or rng.pick(MILD[plan['prop']])
    if plan['prop'] == 'C04' and rng.chance(0.15):
        return
    cands = []
    for o in plan['ops']:
        i = o['id']
        if o['op'] not in kinds_ops:
            continue
        for (pn, opid), counts in profile.items():
            if opid != i:
                continue
            for cls, kinds in by_cls.items():
                if counts.get(cls):
                    cands.append((i, pn, cls, counts[cls]))
    if not cands:
        return
    if plan['prop'] == 'C04' and plan['kgraph'] and rng.chance(0.3):
        cands = [c for c in cands if c[2] == 'write'] or cands
    if plan['prop'] == 'C04':
        plan['nk_silent_write'] = rng.chance(0.4 if plan['kgraph'] else 0.2)
    for _ in range(rng.pick([1, 1, 2, 3])):
        i, pn, cls, cnt = rng.pick(cands)
        plan['faults'].append({'kind': rng.pick(by_cls[cls]), 'proc': pn, 'cls': cls, 'op': i, 'nth': rng.randrange(1, cnt + 1),
                               'frac': round(rng.random(), 2)})
        if cls == 'native' and rng.chance(0.5):
            plan['faults'][-1]['nth'] = cnt - min(cnt - 1, rng.randrange(3))        # late: most of the work has been done
        if cls == 'write' and rng.chance(0.4):
            plan['faults'][-1]['frac'] = round(1 - 0.03 * rng.random(), 4)      # almost everything is written
        if cls == 'write' and plan.get('nk_silent_write') and plan['kgraph'] and rng.chance(0.5):
            plan['faults'][-1].update(kind='enospc', nth=rng.pick([1, 2, 3, 3, 3]))     # the text file of neighbour lists
            if rng.chance(0.5):
                plan['faults'][-1].update(eol=1, frac=rng.pick([0.5, 0.9, 0.999]))
            else:
                plan['faults'][-1].update(frac=round(1 - 0.01 * rng.random(), 4))


# ------------------------------------------------------------------------------------------------ reference model
class Ref:
    """What one planner should be, from its operations alone."""

    def __init__(self, run, j, spec, box):
        self.run, self.j, self.spec, self.box = run, j, spec, box
        self.reset()

    def reset(self):
        self.samples = None
        self.r = None if self.spec['cls'] == 'nn' else (self.spec['r'] if self.samples is None and not hasattr(self, 'r') else self.r)
        self.k = self.spec.get('k')
        self.lists = None
        self._exp = None
        self.suspect = False      # the scratch file may have been cut short silently

    def clone(self):
        c = object.__new__(Ref)
        c.__dict__.update(self.__dict__)
        return c

    def grown(self, samples, prm):
        self.samples = np.array(samples, copy=True)
        self._exp = None
        self._pairs = None
        cls = self.spec['cls']
        f32 = self.samples.astype(np.float32)
        n = len(f32)
        if cls == 'nn':
            self.k = self.spec['k']
            k = min(n - 1, self.k)
            if self.run.plan['kgraph']:
                self.lists = knn(f32, min(n - 1, k), False)
            else:
                self.lists = knn(f32, k, True)
            ds = self.lists[1].astype(np.float32)
            self.certified = float(ds[:, -1].min()) if ds.shape[1] else 0.0
            self.r = self.certified if self.spec['trunc'] else None
        elif cls == 'rad':
            self.kk = prm.k_neighbors
            if self.run.plan['kgraph']:
                self.lists = knn(f32, min(n - 1, self.kk), False)
            else:
                self.lists = knn(f32, self.kk, True)

    def set_radius(self, r):
        self.r = r
        self._exp = None

    def set_k(self, k):
        self.k = k
        self._exp = None

    @property
    def n(self):
        return 0 if self.samples is None else len(self.samples)

    def entry_radius(self):
        return self.r if self.r is not None else self.certified

    def pair_data(self):
        """All pairs i<j: (i, j, distance, judged validity), cached per sample set."""
        if self._pairs is None:
            s = self.samples
            n = len(s)
            iu, ju = np.triu_indices(n, 1)
            d = np.linalg.norm(s[iu] - s[ju], axis=1)
            v = self.box.judge(s[iu], s[ju])
            self._pairs = (iu, ju, d, v)
        return self._pairs

    _pairs = None

    def expected(self):
        """(must, may): dicts (i,j)->distance, i<j.  may contains the ambiguous pairs only."""
        if self._exp is not None:
            return self._exp
        iu, ju, d, v = self.pair_data()
        n = len(self.samples)
        cls = self.spec['cls']
        listed = np.ones(len(iu), bool)
        if cls == 'nn' or (cls == 'rad' and self.kk >= self.spec['k']):
            k = self.k if cls == 'nn' else self.kk
            m = np.zeros((n, n), bool)
            ids = self.lists[0][:, :k]
            for i in range(n):
                for j in ids[i]:
                    if j >= 0:
                        m[i, j] = m[j, i] = True
            listed = m[iu, ju]
        r = self.r
        if r is None:
            inr = np.ones(len(iu), int)
        else:
            band = BAND * (1.0 + r)
            inr = np.where(d < r - band, 1, np.where(d > r + band, 0, -1))
        ok = listed & (inr != 0) & (v != 0)
        amb = ok & ((inr < 0) | (v < 0))
        must, may = {}, {}
        for i, j, dd, a in zip(iu[ok], ju[ok], d[ok], amb[ok]):
            (may if a else must)[int(i), int(j)] = float(dd)
        self._exp = (must, may)
        return self._exp

    def query_links(self, q):
        """Samples the query point connects to: (must ids -> distance, may ids -> distance)."""
        q = np.asarray(q, float)
        d = np.linalg.norm(self.samples - q, axis=1)
        r = self.entry_radius()
        band = BAND * (1.0 + r)
        v = self.box.judge(np.tile(q, (len(d), 1)), self.samples)
        must, may = {}, {}
        for i in range(len(d)):
            if d[i] > r + band or v[i] == 0:
                continue
            if d[i] >= r - band or v[i] < 0 or d[i] < 1e-12:
                may[i] = float(d[i])
            else:
                must[i] = float(d[i])
        return must, may

    def dist_bounds(self, start, goal):
        """(lower, upper) bound of the optimal distance; equal unless ambiguous pairs matter."""
        sm, sa = self.query_links(start)
        gm, ga = self.query_links(goal)
        must, may = self.expected()
        hi = _dijkstra(len(self.samples), must, sm, gm)
        if not sa and not ga and not may:
            return hi, hi
        lo = _dijkstra(len(self.samples), {**must, **may}, {**sm, **sa}, {**gm, **ga})
        return lo, hi


def _dijkstra(n, edges, src, dst):
    import heapq
    adj = [[] for _ in range(n)]
    for (i, j), d in edges.items():
        adj[i].append((j, d))
        adj[j].append((i, d))
    best = [math.inf] * n
    h = []
    for i, d in src.items():
        best[i] = d
        heapq.heappush(h, (d, i))
    ans = math.inf
    while h:
        d, u = heapq.heappop(h)
        if d > best[u] or d >= ans:
            continue
        if u in dst:
            ans = min(ans, d + dst[u])
        for v, w in adj[u]:
            if d + w < best[v]:
                best[v] = d + w
                heapq.heappush(h, (d + w, v))
    return ans


def snapshot(prm):
    """Everything observable about a planner, taken without touching it."""
    g, s = prm.prm_graph, prm.prm_samples
    out = {'samples': None if s is None else np.array(s, copy=True), 'graph': None}
    for a in ('conn_r', 'k_neighbors', 'max_k_neighbors', 'certified_max_conn_r', 'max_conn_r'):
        if hasattr(prm, a):
            v = getattr(prm, a)
            out[a] = None if v is None else float(v)
    if g is not None:
        out['graph'] = (frozenset(int(u) for u in g.iterNodes()),
                        tuple(sorted((min(int(u), int(v)), max(int(u), int(v)), float(w)) for u, v, w in g.iterEdgesWeights() if u != v)))
    return out


def same(a, b):
    if (a['samples'] is None) != (b['samples'] is None):
        return 'samples'
    if a['samples'] is not None and (a['samples'].shape != b['samples'].shape or not np.array_equal(a['samples'], b['samples'])):
        return 'samples'
    if a['graph'] != b['graph']:
        if (a['graph'] is None) != (b['graph'] is None):
            return 'roadmap present/absent'
        if a['graph'][0] != b['graph'][0]:
            return 'vertices %d -> %d' % (len(a['graph'][0]), len(b['graph'][0]))
        return 'edges %d -> %d' % (len(a['graph'][1]), len(b['graph'][1]))
    for k in a:
        if k not in ('samples', 'graph') and a[k] != b.get(k):
            return '%s %r -> %r' % (k, a[k], b.get(k))
    return None


# ------------------------------------------------------------------------------------------------ execution
class Run:
    def __init__(self, plan, w):
        self.plan, self.w = plan, w
        self.prop = plan['prop']
        self.owner = {}           # scratch path -> planner
        self.live = {}            # planner id -> (prm, ref, proc)
        self.saved = {}
        self.stats = {}

    def bad(self, cls, detail):
        raise Violation(cls, detail, self.prop)

    # -- scratch directory monitor (C08)
    def observe(self, w, p, cls, detail):
        if cls not in ('open-w', 'open-r', 'unlink', 'rename', 'truncate', 'write', 'mkdir', 'link') or not isinstance(detail, str):
            return
        if p.tag is None or not isinstance(p.tag, tuple):
            return
        j, op = p.tag
        for path in ([x for x in detail.split(' -> ')] if cls == 'rename' else [detail.rsplit('+', 1)[0] if cls == 'write' else detail]):
            path = _norm(path)
            if path.startswith(TEMP + '/'):
                n = w.fs.lookup(path)
                own = self.owner.get(path)
                if own is not None and own != j and n is not None and self.prop == 'C08':
                    self.bad('scratch-shared', 'planner %d %s the scratch file %s of planner %d' % (j, cls, path.rsplit('/', 1)[1], own))
                if cls in ('open-w', 'rename', 'link'):
                    if n is None or own is None:
                        self.owner[path] = j
            elif cls != 'open-r' and op != 'save' and self.prop == 'C08':
                self.bad('write-outside', 'planner %d: %s %s outside the scratch directory during %s' % (j, cls, path, op))

    def scratch_of(self, j):
        return [f for f in self.w.fs.ls(TEMP) if self.owner.get(TEMP + '/' + f) == j]

    def cleanup_hit(self):
        """Did a fault hit the removal of a scratch file itself (in which case a file may remain)?"""
        return any(i in self.w.fired_ids and h[0] in ('unlink', 'stat') for i, h in self.w.hit_at.items())

    # -- checks
    def definition(self, prm, ref, prop_cls='roadmap', who=''):
        g = prm.prm_graph
        s = prm.prm_samples
        if ref.n == 0:
            return
        if s is None or len(s) != ref.n or not np.array_equal(s, ref.samples):
            self.bad(prop_cls + '-samples', '%ssamples differ from the ones drawn' % who)
        nodes = sorted(int(u) for u in g.iterNodes())
        if nodes != list(range(ref.n)):
            self.bad(prop_cls + '-vertices', '%s%d vertices for %d samples' % (who, len(nodes), ref.n))
        must, may = ref.expected()
        seen = {}
        for u, v, wt in list(g.iterEdgesWeights()):
            u, v = int(u), int(v)
            if u == v:
                continue
            e = (min(u, v), max(u, v))
            if e in seen:
                self.bad(prop_cls + '-duplicate-edge', '%sedge %s twice' % (who, e))
            seen[e] = float(wt)
            d = must.get(e, may.get(e))
            if d is None:
                self.bad(prop_cls + '-extra-edge', '%sedge %s (length %.6g) is not admitted: %s' % (who, e, wt, self.settings(ref)))
            if abs(wt - d) > 1e-4 * (1 + d):
                self.bad(prop_cls + '-weight', '%sedge %s weighs %.8g, length is %.8g' % (who, e, wt, d))
        miss = [e for e in must if e not in seen]
        if miss:
            self.bad(prop_cls + '-missing-edge', '%s%d of %d edges missing, e.g. %s (length %.6g): %s' % (
                who, len(miss), len(must), miss[0], must[miss[0]], self.settings(ref)))

    def settings(self, ref):
        return '%s planner, n=%d r=%s k=%s' % (ref.spec['cls'], ref.n, ref.r, getattr(ref, 'kk', ref.k))

    def answer(self, prm, ref, start, goal, dist, path, cls='query'):
        lo, hi = ref.dist_bounds(start, goal)
        path = np.asarray(path)
        tol = 1e-4
        infinite = not (dist < INFTY)
        if infinite:
            if hi < math.inf:
                self.bad(cls + '-missed-route', 'no route reported, but one of length %.6g exists: %s' % (hi, self.settings(ref)))
            if len(path):
                self.bad(cls + '-path-without-distance', 'infinite distance with a path of %d points' % len(path))
            return
        if lo == math.inf:
            self.bad(cls + '-phantom-route', 'route of length %.6g reported where none exists: %s' % (dist, self.settings(ref)))
        if not (lo - tol * (1 + dist) <= dist <= hi + tol * (1 + dist)):
            self.bad(cls + '-not-shortest', 'distance %.8g, shortest is between %.8g and %.8g: %s' % (dist, lo, hi, self.settings(ref)))
        if len(path) == 0:
            self.bad(cls + '-empty-path', 'finite distance %.6g with an empty path' % dist)
        # the path itself
        ids = []
        for x in path:
            m = np.where((ref.samples == x).all(axis=1))[0]
            if not len(m):
                self.bad(cls + '-path-not-samples', 'a path point is not a sample')
            ids.append(int(m[0]))
        must, may = ref.expected()
        for a, b in zip(ids, ids[1:]):
            e = (min(a, b), max(a, b))
            if e not in must and e not in may:
                self.bad(cls + '-path-step', 'path uses %s, which the settings do not admit: %s' % (e, self.settings(ref)))
        sm, sa = ref.query_links(start)
        gm, ga = ref.query_links(goal)
        if (ids[0] not in sm and ids[0] not in sa) or (ids[-1] not in gm and ids[-1] not in ga):
            self.bad(cls + '-path-ends', 'path starts or ends at a sample the query point cannot reach: %s' % self.settings(ref))
        pts = np.vstack([start, path, goal])
        length = float(np.linalg.norm(np.diff(pts, axis=0), axis=1).sum())
        if abs(length - dist) > tol * (1 + dist):
            self.bad(cls + '-length', 'distance %.8g but the path is %.8g long' % (dist, length))

    # -- one process
    def main(self, procname, mine):
        def fn(p):
            p.has_kgraph = bool(self.plan['kgraph'])
            envs_mod = loader.load(p, 'nonasymptotic.envs')
            prm_mod = loader.load(p, 'nonasymptotic.prm')
            self.w.fs.makedirs('/sim/repo/out')
            self.w.fs.makedirs('/tmp/a.b')
            boxes = {}
            refs, prms, draws = {}, {}, {}
            for i, o in enumerate(self.plan['ops']):
                j = o['pl']
                if j not in mine:
                    continue
                if j not in prms:
                    p.tag = (j, 'create')
                    self.create(p, j, envs_mod, prm_mod, boxes, refs, prms, draws)
                    p.tag = None
                self.do(p, o['id'], o, j, refs, prms, draws)
                self.w.cover.add(h64('op', self.plan['planners'][j]['cls'], o['op'], min(refs[j].n // 10, 6), refs[j].r is None,
                                     refs[j].k if self.plan['planners'][j]['cls'] == 'nn' else 0, bool(self.plan['kgraph'])))
            if self.prop == 'C08':
                p.quiet += 1
                for j in mine:
                    if j in prms and refs[j].n:
                        self.definition(prms[j], refs[j], 'other-planner', 'planner %d at the end: ' % j)
                p.quiet -= 1
        return fn

    def create(self, p, j, envs_mod, prm_mod, boxes, refs, prms, draws):
        spec = self.plan['planners'][j]
        p.quiet += 1
        box = geom.EnvBox(self.plan['envs'][spec['env']], envs_mod)     # each planner has its own environment object
        p.quiet -= 1
        draws[j] = []
        if 'gseed' in spec:
            import random
            random.seed(spec['gseed'])
            np.random.seed(spec['gseed'])

        def point(what):
            f = self.w._match_fault_native(p, what, what) if p.opid is not None and not p.quiet else None
            if f is not None:
                self.w.fired(f)
                raise {'memerr': MemoryError(), 'interrupt': KeyboardInterrupt()}.get(f['kind']) or RuntimeError('%s failed (injected)' % what)

        def sdf(x):
            point('sdf')
            return box.dist_to_path(x)

        def sample():
            point('sampler')
            x = box.sample()
            draws[j].append(np.array(x, copy=True))
            return x

        def check(a, b):
            f = self.w.step(p, 'check', '%d' % len(a))
            if f is not None and f['kind'] in ('native-error', 'memerr', 'interrupt'):
                self.w.fired(f)
                raise {'native-error': RuntimeError('validity check failed (injected)'), 'memerr': MemoryError(),
                       'interrupt': KeyboardInterrupt()}[f['kind']]
            return box.check(a, b)
        if spec['cls'] == 'full':
            prm = prm_mod.SimpleFullConnRadiusPRM(spec['r'], check, sample, seed=spec['seed'])
        elif spec['cls'] == 'nn':
            prm = prm_mod.SimpleNearestNeighborRadiusPRM(spec['k'], check, sample, sdf,
                                                         truncate_to_eff_rad=spec['trunc'], seed=spec['seed'])
        else:
            prm = prm_mod.SimpleRadiusPRM(spec['r'], check, sample, sdf, max_k_connection_neighbors=spec['k'],
                                          seed=spec['seed'])
        if spec.get('mp'):
            prm.in_mp_exp_mode = True
        draws[j].clear()
        prms[j] = prm
        refs[j] = Ref(self, j, spec, box)
        self.live[j] = (prm, refs[j], p)

    def do(self, p, i, o, j, refs, prms, draws):
        w, prm, ref, op, prop = self.w, prms[j], refs[j], o['op'], self.prop
        spec = ref.spec
        if op not in ('grow', 'reset', 'save', 'globalseed', 'rmcache') and ref.n == 0:
            return                                    # (after minimisation) nothing to do on an empty planner
        # work out the call and what the model says about it
        new = ref.clone()
        expect_raise = None
        if op == 'grow':
            n = o['n']
            if n <= ref.n:
                return
            call = lambda: prm.grow_to_n_samples(n)
        elif op == 'badgrow':
            n = max(1, ref.n - o['d'])
            if n >= ref.n or spec['cls'] == 'rad' and False:
                return
            call = lambda: prm.grow_to_n_samples(n)
            expect_raise = True
        elif op == 'radius':
            if spec['cls'] == 'nn':
                ds = np.sort(ref.pair_data()[2])
                top = ref.certified if not o.get('over') else float(ds[-1]) * 1.05
                lo = float(ds[0])
                r = lo + (top - lo) * o['q']
                # keep away from sample distances, so that the pairs at the limit do not matter
            else:
                r = o.get('r', 0.5)
            call = lambda: prm.set_connection_radius(r)
            new.set_radius(r)
        elif op == 'k':
            k = o['k']
            call = lambda: prm.set_nearest_neighbors(k)
            if k > spec['k']:
                expect_raise = True
            new.set_k(k)
        elif op in ('query', 'allq'):
            s, g = ref.box.point(o['s'], o['ws']), ref.box.point(o['g'], o['wg'])
            call = (lambda: prm.query_best_solution(s, g)) if op == 'query' else (lambda: prm.query_all_graph_connections(s, g))
            if op == 'allq' and not spec.get('mp'):
                expect_raise = True
        elif op == 'reset':
            call = prm.reset
        elif op == 'save':
            path = o['path']
            call = lambda: prm.save(path)
            if ref.n == 0:
                expect_raise = True
        elif op == 'globalseed':
            import random
            p.quiet += 1
            random.seed(o['v'])
            np.random.seed(o['v'])
            p.quiet -= 1
            return
        elif op in ('damage', 'repair', 'rmcache'):
            return self.meddle(p, o, j, ref)
        p.quiet += 1
        before = snapshot(prm)
        p.quiet -= 1
        ndraw = len(draws[j])
        fired0 = len(w.fired_ids)
        p.begin_op(o['id'], (j, op))
        exc = res = None
        try:
            res = call()
        except (SimKilled, StubGap, Violation, SimHang):
            raise
        except BaseException as e:
            exc = e
        p.end_op()
        faulted = len(w.fired_ids) > fired0
        p.quiet += 1
        try:
            self.after(p, i, o, j, prm, ref, new, refs, before, res, exc, faulted, expect_raise, draws[j][ndraw:], call, o)
        finally:
            p.quiet -= 1

    def after(self, p, i, o, j, prm, ref, new, refs, before, res, exc, faulted, expect_raise, drawn, call, opdoc):
        prop, op, w = self.prop, o['op'], self.w
        if prop == 'profile':
            if exc is None:
                self.commit(j, op, prm, ref, new, refs)
            return
        excuse = faulted or ref.suspect or j in self.saved
        if op == 'allq' and isinstance(exc, IndexError) and self.outside_tube(ref, o):
            w.probe('outside-tube')
            excuse = True
        # ---- an operation that must be rejected
        if expect_raise:
            if exc is None and prop in ('C01', 'C02', 'C05', 'C09'):
                if (op != 'k' or prop == 'C01') and (op == 'allq') == (prop == 'C02'):
                    self.bad('not-rejected', '%s that cannot be done was accepted (%s)' % (op, o))
            d = same(before, snapshot(prm))
            if d and exc is not None and prop in ('C01', 'C03', 'C04', 'C05', 'C09'):
                self.bad('rejected-but-changed', 'the rejected %s changed %s' % (op, d))
            if drawn and exc is not None and prop == 'C05':
                self.bad('rejected-but-drew', 'a rejected growth drew %d samples' % len(drawn))
            if exc is None:
                self.commit(j, op, prm, ref, new, refs)
            return
        if exc is not None and not excuse:
            self.bad('unexpected-error', '%s raised %s: %s (%s)' % (op, type(exc).__name__, str(exc)[:200], self.settings(ref)))
        # ---- failed
        if exc is not None:
            w.probe('op-failed:' + op)
            d = same(before, snapshot(prm))
            if op in ('query', 'allq'):
                if d and prop == 'C03':
                    self.bad('query-left-trace', 'a query that ended with %s changed %s' % (type(exc).__name__, d))
            elif op in ('grow', 'radius', 'k') and prop == 'C04':
                if d:
                    self.bad('failed-but-changed', 'the failed %s (%s) changed %s' % (op, type(exc).__name__, d))
                self.probe_query(p, i, prm, ref, 'after-failure')
                if faulted and not ref.suspect and j not in self.saved and h64(self.plan['exec_seed'], i, 'retry') % 3:
                    # the fault is gone: trying again must work
                    n0 = len(self.w.fired_ids)
                    p.quiet -= 1
                    p.opid, p.tag = -1, (j, op)
                    try:
                        call()
                    except (SimKilled, StubGap, Violation, SimHang):
                        raise
                    except BaseException as e:
                        self.bad('retry-failed', 'retrying the failed %s raised %s: %s' % (op, type(e).__name__, str(e)[:200]))
                    finally:
                        p.opid = p.tag = None
                        p.quiet += 1
                    self.commit(j, op, prm, ref, new, refs)
                    self.definition(prm, refs[j], 'after-retry')
                    self.probe_query(p, i, prm, refs[j], 'after-retry')
            elif op == 'save' and prop == 'C09' and d:
                self.bad('save-changed', 'a failed save changed %s' % d)
            elif op == 'reset' and prop == 'C08':
                self.bad('unexpected-error', 'reset raised %s' % type(exc).__name__)
            return
        # ---- succeeded
        if op in ('query', 'allq'):
            if prop == 'C03':
                d = same(before, snapshot(prm))
                if d:
                    self.bad('query-left-trace', 'a %s query changed %s' % (op, d))
                if not faulted:
                    p.quiet += 0
                    try:
                        res2 = call()
                    except (SimKilled, StubGap, Violation, SimHang):
                        raise
                    except BaseException as e:
                        self.bad('query-repeat', 'repeating a query raised %s' % type(e).__name__)
                    if not _same_answer(op, res, res2):
                        self.bad('query-repeat', 'repeating the query gave a different answer')
                    d = same(before, snapshot(prm))
                    if d:
                        self.bad('query-left-trace', 'a repeated query changed %s' % d)
                self.answer_safe(prm, ref, opdoc, op, res)
            if prop == 'C02' or prop == 'C04' and op == 'allq':
                self.answer_safe(prm, ref, opdoc, op, res)
            if prop == 'C05' and op == 'query':
                ref.memory = getattr(ref, 'memory', []) + [(ref.box.point(o['s'], o['ws']), ref.box.point(o['g'], o['wg']), float(res[0]), self.fixed_radius(ref), ref.n)]
            if prop == 'C08':
                self.answer_safe(prm, ref, opdoc, op, res)
            w.probe('query-inf' if op == 'query' and not res[0] < INFTY else 'query-finite')
            return
        if op == 'save':
            if prop == 'C09':
                d = same(before, snapshot(prm))
                if d:
                    self.bad('save-changed', 'saving changed %s' % d)
                self.check_saved(p, o['path'], before, faulted)
            return
        was = ref
        self.commit(j, op, prm, ref, new, refs)
        ref = refs[j]
        if op == 'reset':
            if prm.prm_graph is not None or prm.prm_samples is not None:
                self.bad('reset-incomplete', 'roadmap or samples left after reset')
            if prop == 'C08':
                left = self.scratch_of(j)
                if left and not self.cleanup_hit():
                    self.bad('scratch-left', 'after reset of planner %d (%s) %d scratch files remain' % (j, ref.spec['cls'], len(left)))
                self.others(j)
            if prop == 'C01' and (prm.num_vertices() or prm.num_edges()):
                self.bad('reset-incomplete', 'num_vertices/num_edges not zero after reset')
            return
        if prop == 'C04' and op == 'grow' and faulted:
            rest = iter(drawn)
            new = prm.prm_samples[was.n:]
            if not all(any(np.array_equal(x, y) for y in rest) for x in new):
                self.bad('growth-foreign-samples', 'a growth met by a failure completed with samples that were not drawn')
        if prop in ('C01', 'C04', 'C08'):
            self.definition(prm, ref)
            if prm.num_vertices() != ref.n:
                self.bad('num-vertices', 'num_vertices() = %s with %d samples' % (prm.num_vertices(), ref.n))
        if prop == 'C04' and faulted and op == 'grow' and self.plan.get('nk_silent_write'):
            ref.suspect = True
        if prop == 'C05' and op == 'grow':
            self.check_growth(p, prm, was, ref, o['n'], drawn)
        if prop == 'C08':
            self.others(j)

    def commit(self, j, op, prm, ref, new, refs):
        if op == 'grow':
            ref2 = ref.clone()
            ref2.grown(prm.prm_samples, prm)
            ref2.suspect = False
            self.saved.pop(j, None)
            refs[j] = ref2
        elif op == 'reset':
            ref2 = ref.clone()
            ref2.reset()
            self.saved.pop(j, None)
            refs[j] = ref2
        elif op in ('radius', 'k'):
            if op == 'radius' and ref.spec['cls'] == 'full':
                new.suspect = False
                self.saved.pop(j, None)
            refs[j] = new
        self.live[j] = (prm, refs[j], self.live[j][2])

    def others(self, j):
        for q, (prm, ref, proc) in list(self.live.items()):
            if q != j and ref.n and proc.opid is None and not proc.dead:
                self.definition(prm, ref, 'other-planner', 'planner %d after planner %d acted: ' % (q, j))

    def answer_safe(self, prm, ref, o, op, res):
        s, g = ref.box.point(o['s'], o['ws']), ref.box.point(o['g'], o['wg'])
        cls = 'query'
        if op == 'query':
            return self.answer(prm, ref, s, g, float(res[0]), res[1], cls)
        coords, dists, ids = res
        dists = np.asarray(dists, float)
        ids = np.asarray(ids)
        sm, sa = ref.query_links(s)
        gm, ga = ref.query_links(g)
        got = {}
        for (a, b), d, c in zip(ids, dists, coords):
            a, b = int(a), int(b)
            if (a, b) in got:
                self.bad('all-pairs-duplicate', 'pair %s twice' % ((a, b),))
            got[a, b] = float(d)
            if not (np.array_equal(c[0], ref.samples[a]) and np.array_equal(c[1], ref.samples[b])):
                self.bad('all-pairs-points', 'coordinates do not belong to the reported samples')
            if (a not in sm and a not in sa) or (b not in gm and b not in ga):
                self.bad('all-pairs-extra', 'pair %s is not an admitted entry and exit' % ((a, b),))
        for a in sm:
            for b in gm:
                if (a, b) not in got:
                    self.bad('all-pairs-missing', 'entry/exit pair %s missing' % ((a, b),))
        must, may = ref.expected()
        both = {**must, **may}
        for (a, b), d in got.items():
            if a == b:
                lo = hi = 0.0
            else:
                hi = _dijkstra(ref.n, must, {a: 0.0}, {b: 0.0})
                lo = _dijkstra(ref.n, both, {a: 0.0}, {b: 0.0}) if may else hi
            if not d < INFTY:
                if hi < math.inf:
                    self.bad('all-pairs-distance', 'pair %s reported unreachable, distance is %.6g' % ((a, b), hi))
            elif lo == math.inf or not (lo - 1e-4 * (1 + d) <= d <= hi + 1e-4 * (1 + d)):
                self.bad('all-pairs-distance', 'pair %s at %.8g, should be %.8g..%.8g' % ((a, b), d, lo, hi))

    def outside_tube(self, ref, o):
        """Does one of the query points connect to a sample for which no distances are kept?"""
        r = ref.entry_radius()
        for w, where in ((o['s'], o['ws']), (o['g'], o['wg'])):
            q = ref.box.point(w, where)
            near = np.linalg.norm(ref.samples - q, axis=1) <= r + BAND * (1 + r)
            if near.any() and (ref.box.dist_to_path(ref.samples[near]) > r - BAND * (1 + r)).any():
                return True
        return False

    def probe_query(self, p, i, prm, ref, cls):
        """A query whose points depend only on the plan; the answer must be the model's."""
        if ref.n == 0:
            return
        r = PRNG(self.plan['exec_seed'], i, 'probe')
        s = ref.box.point([r.random() for _ in range(6)], 'any')
        g = ref.box.point([r.random() for _ in range(6)], 'any')
        try:
            d, path = prm.query_best_solution(s, g)
        except (SimKilled, StubGap, Violation, SimHang):
            raise
        except BaseException as e:
            self.bad(cls + '-query', 'a query raised %s: %s' % (type(e).__name__, str(e)[:150]))
        self.answer(prm, ref, s, g, float(d), path, cls)
        o = {'s': [r.random() for _ in range(6)], 'ws': 'path', 'g': [r.random() for _ in range(6)], 'wg': 'path'}
        if not ref.spec.get('mp') or self.outside_tube(ref, o):
            return
        try:
            res = prm.query_all_graph_connections(ref.box.point(o['s'], 'path'), ref.box.point(o['g'], 'path'))
        except (SimKilled, StubGap, Violation, SimHang):
            raise
        except BaseException as e:
            self.bad(cls + '-query', 'an all-connections query raised %s: %s' % (type(e).__name__, str(e)[:150]))
        self.answer_safe(prm, ref, o, 'allq', res)

    # -- C05
    def fixed_radius(self, ref):
        """The radius at which the roadmap holds every admissible pair, or None."""
        cls = ref.spec['cls']
        if cls == 'full':
            return ref.r
        if cls == 'rad':
            return ref.r if ref.kk < ref.spec['k'] else None
        if ref.r is not None and ref.r <= ref.certified and ref.k == ref.spec['k']:
            return ref.r
        return None

    def check_growth(self, p, prm, was, ref, asked, drawn):
        s = prm.prm_samples
        n_old = was.n
        want = ref.n
        if want != asked:
            self.bad('growth-size', 'asked for %d samples, got %d' % (asked, want))
        if n_old and not np.array_equal(s[:n_old], was.samples):
            self.bad('growth-lost-samples', 'growing from %d to %d changed earlier samples' % (n_old, want))
        if len(drawn) != want - n_old:
            self.bad('growth-draws', 'growing from %d to %d drew %d samples' % (n_old, want, len(drawn)))
        if not np.array_equal(np.array(drawn), s[n_old:]):
            self.bad('growth-foreign-samples', 'new samples are not the ones drawn, in order')
        if prm.num_vertices() != want:
            self.bad('growth-vertices', '%d vertices for %d samples' % (prm.num_vertices(), want))
        mem = getattr(was, 'memory', [])
        if n_old == 0:
            mem = []
        ref.memory = mem
        now_r = ref
        for (q, g, d, r, n) in mem:
            if r is None or not d < INFTY:
                continue
            cur = self.fixed_radius(ref)
            if ref.spec['cls'] == 'nn':
                if r > ref.certified * (1 - 1e-5):
                    continue
                if cur is None or abs(cur - r) > 0:
                    prm.set_connection_radius(r)
                    ref.set_radius(r)
            elif cur is None or cur != r:
                continue
            d2, path2 = prm.query_best_solution(q, g)
            self.w.probe('monotone-checked')
            if not d2 < INFTY:
                self.bad('growth-lost-solution', 'a query solved with %d samples (%.6g) has no solution with %d at radius %.6g' % (n, d, want, r))
            if d2 > d * (1 + 1e-4) + 1e-6:
                self.bad('growth-longer', 'a query took %.8g with %d samples and takes %.8g with %d' % (d, n, d2, want))
        # more queries to ask again after the next growth
        if self.fixed_radius(ref) is None:
            return
        r = PRNG(self.plan['exec_seed'], want, 'remember')
        for _ in range(8):
            q, g = (ref.box.point([r.random() for _ in range(6)], 'any') for _ in range(2))
            d, path = prm.query_best_solution(q, g)
            ref.memory = ref.memory + [(q, g, float(d), self.fixed_radius(ref), ref.n)]

    # -- C09
    def check_saved(self, p, path, before, faulted):
        import posixpath
        base = posixpath.normpath(path if path.startswith('/') else p.cwd + '/' + path)
        nkb, npy = self.w.fs.get(base + '.nkb'), self.w.fs.get(base + '.npy')
        if nkb is None or npy is None:
            self.bad('save-missing-file', 'saving reported success without %s' % ('.nkb' if nkb is None else '.npy'))
        nk = nkstub
        try:
            g = nk.readGraph(base + '.nkb', nk.Format.NetworkitBinary)
        except (SimKilled, StubGap, Violation, SimHang):
            raise
        except BaseException as e:
            self.bad('saved-unreadable', 'the saved graph cannot be read: %s' % e)
        try:
            s = np.load(base + '.npy')
        except (SimKilled, StubGap, Violation, SimHang):
            raise
        except BaseException as e:
            self.bad('saved-unreadable', 'the saved samples cannot be read: %s' % e)
        if not np.array_equal(s, before['samples']) or s.dtype != before['samples'].dtype:
            self.bad('saved-samples', 'saved samples differ from the roadmap\'s')
        nodes = frozenset(int(u) for u in g.iterNodes())
        if nodes != before['graph'][0]:
            self.bad('saved-vertices', 'saved graph has %d vertices, the roadmap %d' % (len(nodes), len(before['graph'][0])))
        edges = tuple(sorted((min(int(u), int(v)), max(int(u), int(v)), float(w)) for u, v, w in g.iterEdgesWeights() if u != v))
        if edges != before['graph'][1]:
            self.bad('saved-edges', 'saved graph has %d edges, the roadmap %d, or other weights' % (len(edges), len(before['graph'][1])))
        self.w.probe('saved-checked')

    # -- C04 / C08: somebody else damages the scratch files
    def meddle(self, p, o, j, ref):
        w = self.w
        p.quiet += 1
        try:
            files = self.scratch_of(j)
            if o['op'] == 'repair':
                for path, data in self.saved.pop(j, {}).items():
                    w.fs.put(path, data, durable=False)
                return
            if not files:
                return
            if o['op'] == 'rmcache':
                for f in files:
                    w.fs.unlink(TEMP + '/' + f)
                w.count_fault('scratch-removed')
                return
            if j in self.saved:
                return
            keep = {}
            for f in files:
                path = TEMP + '/' + f
                data = w.fs.get(path)
                keep[path] = data
                if o['how'] == 'delete':
                    w.fs.unlink(path)
                else:
                    cut = 0 if o['how'] == 'empty' else min(int(len(data) * o['frac']), len(data) - 1)
                    n = w.fs.lookup(path)
                    w.fs.truncate(n, max(0, cut))
            self.saved[j] = keep
            w.count_fault('scratch-' + o['how'])
        finally:
            p.quiet -= 1


def _norm(path):
    import posixpath
    return posixpath.normpath(path)


def _same_answer(op, a, b):
    if op == 'query':
        if (a[0] < INFTY) != (b[0] < INFTY):
            return False
        if not a[0] < INFTY:
            return len(a[1]) == len(b[1]) == 0
        return abs(a[0] - b[0]) <= 1e-9 * (1 + a[0]) and len(a[1]) > 0 and len(b[1]) > 0
    return all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def _execute(plan):
    w = world.mkworld(plan, tree=False)
    run = Run(plan, w)
    w.observers.append(run.observe)
    names = {}
    for q in range(plan['nproc']):
        mine = [j for j, P in enumerate(plan['planners']) if P['proc'] == q]
        orig = run.main('p%d' % q, mine)
        w.spawn('p%d' % q, orig, host='h%d' % q, argv=['planner.py'], cwd=world.REPO_SIM, pid=77 if plan.get('samepid') else None,
                import_dirs=world.IMPORTS_PKG, env={'USER': 'u'})
    w.run()
    for p in w.procs:
        if p.exc is not None:
            harness.process_died(p, plan['prop'])
    return w, run


def run(plan):
    w, r = _execute(plan)
    return w


SHRINK = ['faults', 'ops', 'switches']
