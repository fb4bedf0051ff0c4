"""Environments for planner runs (the repository's own and two of the harness) and an independent judge of motions.

The judge answers +1 (collision-free), 0 (colliding) or -1 (too close to a boundary to say) for pairs of points; it
shares no code with the repository.
"""
import numpy as np

EPS = 1e-9


class DiscEnv:
    """Harness environment: a unit box with ball obstacles.  Samples come from its own seeded generator."""

    def __init__(self, spec):
        self.dim = spec['dim']
        self.discs = [(np.array(c[:self.dim], float), float(r)) for c, r in spec['discs']]
        self.rng = np.random.default_rng(spec['seed'])
        self.clusters = [(np.array(c[:self.dim], float), float(r), float(share)) for c, r, share in spec.get('clusters', [])]
        self.lattice = spec.get('lattice')

    def free(self, x):
        return all(np.linalg.norm(x - c) > r for c, r in self.discs)

    def sample_from_env(self):
        while True:
            x = self.rng.uniform(0.0, 1.0, size=self.dim)
            u = self.rng.random()
            for c, r, share in self.clusters:
                u -= share
                if u < 0:
                    x = np.clip(c + r * (2 * x - 1), 0.0, 1.0)
                    break
            if self.lattice:        # nearly a lattice: many almost equal distances
                x = np.clip(np.round(x * self.lattice) / self.lattice + 1e-3 * (self.rng.random(self.dim) - 0.5), 0.0, 1.0)
            if self.free(x):
                return x

    def is_motion_valid(self, start, goal):
        return self.judge(start, goal) == 1

    def judge(self, a, b):
        a, b = np.atleast_2d(a), np.atleast_2d(b)
        out = np.ones(len(a), int)
        inside = np.all((a >= 0) & (a <= 1) & (b >= 0) & (b <= 1), axis=1)
        out[~inside] = 0
        for c, r in self.discs:
            d = b - a
            L = (d * d).sum(axis=1)
            t = np.clip(((c - a) * d).sum(axis=1) / np.where(L > 0, L, 1.0), 0, 1)
            dist = np.linalg.norm(a + t[:, None] * d - c, axis=1)
            out[(dist <= r)] = 0
        return out

    def distance_to_path(self, pts):
        return np.linalg.norm(pts - 0.5, axis=1)


class EnvBox:
    """One environment of a plan inside a simulated process: sampler, motion check, judge, query-point generator."""

    def __init__(self, spec, envs_mod):
        self.spec, self.kind = spec, spec['kind']
        k = self.kind
        if k == 'line':
            self.env = envs_mod.StraightLine(spec['dim'], spec['delta'], length=spec['length'], seed=spec['seed'])
        elif k == 'narrow':
            self.env = envs_mod.NarrowPassage(spec['dim'], spec['clearance'], spec['seed'])
        elif k == 'gray':
            self.env = envs_mod.GrayCodeWalls(spec['dim'], spec['length'], spec['thickness'], seed=spec['seed'])
        else:
            self.env = DiscEnv(spec)
        self.dim = spec['dim']
        self._memo = {}

    def sample(self):
        return self.env.sample_from_env()

    def check(self, a, b):
        if self.kind == 'gray':
            out = np.empty(len(a), dtype=bool)
            for i, (x, y) in enumerate(zip(a, b)):
                key = (x.tobytes(), y.tobytes())
                v = self._memo.get(key)
                if v is None:
                    v = self._memo[key] = bool(np.all(self.env.is_motion_valid(x, y)))
                out[i] = v
            return out
        return self.env.is_motion_valid(a, b)

    def dist_to_path(self, pts):
        return self.env.distance_to_path(pts)

    def judge(self, a, b):
        a, b = np.atleast_2d(np.asarray(a, float)), np.atleast_2d(np.asarray(b, float))
        if len(a) == 0:
            return np.zeros(0, int)
        s = self.spec
        if self.kind == 'discs':
            return self.env.judge(a, b)
        if self.kind == 'line':
            lo = np.full(self.dim, -s['delta'])
            hi = np.full(self.dim, s['delta'])
            hi[0] = s['length'] + s['delta']
            m = np.minimum(np.minimum(a - lo, hi - a).min(axis=1), np.minimum(b - lo, hi - b).min(axis=1))
            return np.where(m > EPS, 1, np.where(m < -EPS, 0, -1))
        if self.kind == 'narrow':
            return _judge_narrow(a, b, s['clearance'], self.dim)
        # gray: both directions of the environment's own check must agree
        f, g = self.check(a, b), self.check(b, a)
        return np.where(f == g, f.astype(int), -1)

    def point(self, u, where):
        """A query point in free space from unit coordinates u (as many as needed) - a pure function of the plan."""
        s, d = self.spec, self.dim
        u = list(u)
        if self.kind == 'line':
            if where == 'path':
                x = np.zeros(d)
                x[0] = u[0] * s['length']
                return x
            x = np.array([(2 * u[i] - 1) * s['delta'] for i in range(d)])
            x[0] = -s['delta'] + u[0] * (s['length'] + 2 * s['delta'])
            if where == 'out':
                x[1] = 3 * s['delta'] + 0.1
            return x
        if self.kind == 'narrow':
            if where == 'left' or (where == 'any' and u[-1] < 0.45):
                return np.array([-1.5 + u[0]] + [u[i] - 0.5 for i in range(1, d)])
            if where == 'right' or (where == 'any' and u[-1] < 0.9):
                return np.array([0.5 + u[0]] + [u[i] - 0.5 for i in range(1, d)])
            return np.array([u[0] - 0.5] + [(2 * u[i] - 1) * s['clearance'] * 0.98 for i in range(1, d)])
        if self.kind == 'gray':
            cubes = self.env.no_walls_linear_list
            c = np.array(cubes[int(u[-1] * len(cubes)) % len(cubes)], float)
            t = s['thickness']
            return c + t + np.array([u[i] for i in range(d)]) * (1 - 2 * t)
        x = np.array([u[i] for i in range(d)])
        if where == 'out':
            x[0] += 1.5
        return x


def _judge_narrow(a, b, c, dim):
    """Segments between free points: inside the slab |x| <= 1/2 every other coordinate must stay within the clearance."""
    n = len(a)
    out = np.ones(n, int)
    d = b - a
    for i in range(1, dim):
        x0, y0, dx, dy = a[:, 0], a[:, i], d[:, 0], d[:, i]
        with np.errstate(divide='ignore', invalid='ignore'):
            t1, t2 = (-0.5 - x0) / dx, (0.5 - x0) / dx
        lo, hi = np.minimum(t1, t2), np.maximum(t1, t2)
        flat = np.abs(dx) < 1e-12
        lo = np.where(flat, np.where(np.abs(x0) <= 0.5, 0.0, 2.0), lo)
        hi = np.where(flat, np.where(np.abs(x0) <= 0.5, 1.0, -1.0), hi)
        lo, hi = np.clip(lo, 0, None), np.clip(hi, None, 1)
        over = lo <= hi
        m = np.maximum(np.abs(y0 + lo * dy), np.abs(y0 + hi * dy)) - c
        bad = over & (m > EPS)
        amb = (over & (np.abs(m) <= EPS)) | (np.abs(lo - hi) < 1e-12) | (np.abs(np.abs(x0) - 0.5) < 1e-12)
        # zero-length and axis-parallel motions on a wall's own line are judged colliding by convention: not constrained
        amb |= (np.abs(dy) < 1e-12) | (np.abs(dx) < 1e-12)
        out = np.where(bad & ~amb, 0, np.where(amb & (out == 1), -1, out))
    return out


def gen_env(rng, kinds=(('line', 3), ('narrow', 3), ('discs', 4), ('gray', 0.4))):
    k = rng.wpick(kinds)
    seed = rng.randrange(1 << 30)
    if k == 'line':
        return {'kind': k, 'dim': rng.pick([2, 2, 3, 4, 5]), 'delta': rng.pick([0.05, 0.1, 0.25, 0.5]),
                'length': rng.pick([1.0, 1.0, 2.5]), 'seed': seed}
    if k == 'narrow':
        return {'kind': k, 'dim': rng.pick([2, 2, 3]), 'clearance': rng.pick([0.02, 0.1, 0.2, 0.35]), 'seed': seed}
    if k == 'gray':
        return {'kind': k, 'dim': rng.pick([2, 3]), 'length': rng.pick([2, 3]), 'thickness': rng.pick([0.0, 0.1, 0.2]), 'seed': seed}
    dim = rng.pick([2, 2, 3])
    nd = rng.pick([0, 1, 3, 6])
    discs = [[[round(rng.random(), 3) for _ in range(3)], round(0.05 + 0.17 * rng.random(), 3)] for _ in range(nd)]
    if rng.chance(0.25):       # a wall of balls, so that two parts of the space may be disconnected
        x = round(0.35 + 0.3 * rng.random(), 3)
        discs += [[[x, i / 8, j / 8] if dim == 3 else [x, i / 8, 0], 0.07] for i in range(9) for j in (range(9) if dim == 3 else (0,))]
        if rng.chance(0.5):
            discs.pop(rng.randrange(len(discs)))
    out = {'kind': 'discs', 'dim': dim, 'discs': discs, 'seed': seed}
    if rng.chance(0.2):
        out['clusters'] = [[[round(rng.random(), 3) for _ in range(3)], rng.pick([0.003, 0.02, 0.1]), rng.pick([0.05, 0.2, 0.45])] for _ in range(rng.pick([1, 1, 2]))]
    elif rng.chance(0.1):
        out['lattice'] = rng.pick([3, 5, 9])
    return out
