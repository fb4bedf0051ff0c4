"""Scenario for C07: samplers driven by ordinary random streams and by scripted extreme draws.

The free spaces are written down here independently of the repository; proportions are judged by exact binomial tails
at a level (1e-10) that no correct sampler reaches in the life of this check.
"""
import math

import numpy as np

from .. import core, harness, loader, world
from ..core import Violation, h64

SHRINK = ['tasks', 'extremes']
TOL = 1e-9
ALPHA = 1e-10


def gen(rng, prop, tier):
    tasks = []
    for _ in range(rng.pick([1, 2, 3])):
        k = rng.wpick([('line', 2), ('narrow', 3), ('gray', 3), ('polygon', 3)])
        T = {'kind': k, 'seed': rng.randrange(1 << 31), 'q': round(0.1 + 0.8 * rng.random(), 3)}
        if k == 'line':
            T.update(dim=rng.pick([2, 3, 5, 8]), delta=rng.pick([0.0, 1e-9, 0.01, 0.1, 0.5, 3.0]), length=rng.pick([1.0, 0.2, 2.5, 40.0]),
                     n=rng.pick([200, 500, 3000]))
        elif k == 'narrow':
            T.update(dim=rng.pick([2, 2, 3, 4, 6]), clearance=rng.pick([1e-6, 0.02, 0.1, 0.2, 0.35, 0.45, 0.5]), n=rng.pick([200, 500, 2000, 6000]))
        elif k == 'gray':
            T.update(dim=rng.pick([2, 2, 3, 3, 4]), length=rng.pick([1, 2, 3, 4]), thickness=rng.pick([0.0, 1e-6, 0.05, 0.1, 0.2, 0.35, 0.45]),
                     n=rng.pick([200, 400, 1500]))
        else:
            T.update(shape=rng.randrange(1 << 30), style=rng.pick(['csg', 'rings', 'rings']), n=rng.pick([10, 20, 60, 200]), rng=rng.chance(0.9))
        tasks.append(T)
    extremes = []
    if rng.chance(0.6):
        n = 1
        for _ in range(rng.pick([3, 10, 40])):
            extremes.append([n, rng.pick(['low', 'high', 'high', 'mixed']), rng.randrange(1 << 20)])
            n += rng.pick([1, 1, 2, 3, 5, 9])
    return {'exec_seed': rng.randrange(1 << 40), 'tasks': tasks, 'extremes': extremes, 'faults': [], 'switches': [], 'prop': prop}


# ------------------------------------------------------------------------------------------------ free spaces
def gray_cells(dim, length):
    """The corridor: binary reflected Gray codes of the remaining dimensions, back and forth along the first."""
    n = 1 << (dim - 1)
    codes = [tuple((g >> (dim - 2 - b)) & 1 for b in range(dim - 1)) for g in (i ^ (i >> 1) for i in range(n))]
    out = []
    for i in range(length):
        out += [(i,) + c for c in (codes if i % 2 == 0 else reversed(codes))]
    return out


def boxes(T):
    """The free space as a list of disjoint boxes (lower, upper)."""
    d = T['dim']
    if T['kind'] == 'line':
        lo, hi = np.full(d, -T['delta']), np.full(d, T['delta'])
        hi[0] = T['length'] + T['delta']
        return [(lo, hi)]
    if T['kind'] == 'narrow':
        c = T['clearance']
        return [(np.array([-1.5] + [-.5] * (d - 1)), np.array([-.5] + [.5] * (d - 1))),
                (np.array([-.5] + [-c] * (d - 1)), np.array([.5] + [c] * (d - 1))),
                (np.array([.5] + [-.5] * (d - 1)), np.array([1.5] + [.5] * (d - 1)))]
    t = T['thickness']
    cells = gray_cells(d, T['length'])
    out = [(np.array(c) + t, np.array(c) + 1 - t) for c in cells]
    for a, b in zip(cells, cells[1:]):
        a, b = np.array(a, float), np.array(b, float)
        k = int(np.nonzero(a != b)[0][0])
        lo, hi = np.minimum(a, b) + t, np.minimum(a, b) + 1 - t
        for o in (0, 1):                  # the half of the opening that belongs to each of the two cells
            l2, h2 = lo.copy(), hi.copy()
            l2[k] = max(a[k], b[k]) - (t if o == 0 else 0)
            h2[k] = max(a[k], b[k]) + (0 if o == 0 else t)
            out.append((l2, h2))
    return out


def log_tail(k, n, p):
    """log of min(P[X <= k], P[X >= k]) for X ~ Bin(n, p), exactly summed."""
    if p <= 0:
        return 0.0 if k == 0 else -math.inf
    if p >= 1:
        return 0.0 if k == n else -math.inf
    lp, lq = math.log(p), math.log1p(-p)

    def pmf(i):
        return math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * lp + (n - i) * lq
    rng = range(k, -1, -1) if k < n * p else range(k, n + 1)
    m, s = None, 0.0
    for i in rng:
        x = pmf(i)
        if m is None:
            m = x
        if x < m - 45:
            break
        s += math.exp(x - m)
    return min(0.0, m + math.log(s))


def proportion(T, what, k, n, p):
    if log_tail(k, n, p) < math.log(ALPHA):
        raise Violation('proportion', '%s: %s drawn %d times of %d, its share is %.5f' % (label(T), what, k, n, p), 'C07')


def label(T):
    return ' '.join('%s=%s' % (k, T[k]) for k in ('kind', 'dim', 'delta', 'length', 'clearance', 'thickness', 'style', 'shape', 'seed') if k in T)


# ------------------------------------------------------------------------------------------------ polygons
def polygon(T):
    from shapely import affinity
    from shapely.geometry import Point, Polygon, box
    r = core.PRNG(T['shape'], T['style'])

    def blob(cx, cy, s):
        k = r.randrange(3)
        if k == 0:
            g = box(cx - s * r.uniform(.4, 1), cy - s * r.uniform(.4, 1), cx + s * r.uniform(.4, 1), cy + s * r.uniform(.4, 1))
            return affinity.rotate(g, r.uniform(0, 90), origin=(cx, cy)) if r.chance(0.5) else g
        if k == 1:
            return Point(cx, cy).buffer(s, quad_segs=r.pick([1, 2, 3]))
        a = r.uniform(0, 6.28)
        return Polygon([(cx + s * math.cos(a + b), cy + s * math.sin(a + b)) for b in (0, r.uniform(1.2, 2.5), r.uniform(3.4, 5))])
    for _ in range(50):
        if T['style'] == 'csg':
            g = blob(r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(.5, 2.5))
            for _ in range(r.randrange(0, 6)):
                h = blob(r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(.3, 2.5))
                g = g.union(h) if r.chance(0.5) else g.difference(h)
        else:
            g = Polygon()
            for b in range(r.pick([1, 1, 2])):
                X, Y = b * 10.0 + r.uniform(-4, 4), r.uniform(-3, 3)
                f = box(X, Y, X + 6, Y + 6) if r.chance(0.6) else Point(X + 3, Y + 3).buffer(4, quad_segs=2)
                for hx in range(2):
                    for hy in range(2):
                        if r.chance(0.6):
                            cx, cy, s = X + 1.6 + hx * 2.8, Y + 1.6 + hy * 2.8, 1.2
                            for lev in range(r.randrange(1, 4)):
                                h = blob(cx, cy, s)
                                f = f.difference(h) if lev % 2 == 0 else f.union(h.intersection(Point(cx, cy).buffer(s * .9)))
                                s *= .45
                g = g.union(f)
        if g.geom_type in ('Polygon', 'MultiPolygon') and not g.is_empty and g.is_valid and all(q.area > 1e-3 for q in getattr(g, 'geoms', [g])):
            # near-degenerate slivers are a matter of floating-point triangulation, not of this property
            if g.buffer(-1e-3).area > 0.02 and min(_edges(g)) > 1e-3:
                return g
    return box(0, 0, 1, 1)


def _edges(g):
    for q in getattr(g, 'geoms', [g]):
        for ring in [q.exterior] + list(q.interiors):
            c = np.array(ring.coords)
            yield float(np.linalg.norm(np.diff(c, axis=0), axis=1).min())


# ------------------------------------------------------------------------------------------------ execution
def run(plan):
    w = world.mkworld(plan, tree=False)
    ext = {int(n): {'mode': m, 'salt': s} for n, m, s in plan['extremes']}

    def main(p):
        envs_mod = loader.load(p, 'nonasymptotic.envs')
        sampler = loader.load(p, 'nonasymptotic.sampler')
        for T in plan['tasks']:
            w.step(p, 'task', label(T), faultable=False)
            if T['kind'] == 'polygon':
                task_polygon(w, p, T, sampler, ext)
            else:
                task_env(w, p, T, envs_mod, ext)
    w.spawn('p0', main, cwd=world.REPO_SIM, import_dirs=world.IMPORTS_PKG)
    w.run()
    for p in w.procs:
        if p.exc is not None:
            harness.process_died(p, plan['prop'])
    return w


def make(T, envs_mod):
    if T['kind'] == 'line':
        return envs_mod.StraightLine(T['dim'], T['delta'], length=T['length'], seed=T['seed'])
    if T['kind'] == 'narrow':
        return envs_mod.NarrowPassage(T['dim'], T['clearance'], T['seed'])
    return envs_mod.GrayCodeWalls(T['dim'], T['length'], T['thickness'], seed=T['seed'])


def task_env(w, p, T, envs_mod, ext):
    parts = boxes(T)
    los, his = np.array([b[0] for b in parts]), np.array([b[1] for b in parts])
    tol = TOL * max(1.0, float(np.abs(his).max()))

    def check(x, how):
        x = np.asarray(x)
        if x.shape != (T['dim'],):
            raise Violation('wrong-dimension', '%s: %s sample of shape %s' % (label(T), how, x.shape), 'C07')
        if not np.isfinite(x).all() or not ((x >= los - tol) & (x <= his + tol)).all(axis=1).any():
            raise Violation('outside', '%s: %s sample %s outside the free space' % (label(T), how, x.tolist()), 'C07')
        return x
    # scripted extreme draws
    if ext:
        p.rng_extreme = ext
        env = make(T, envs_mod)
        p.rng_extreme = None
        for i in range(30):
            check(env.sample_from_env(), 'extreme-draw')
        w.probe('extreme-samples', 30)
    env = make(T, envs_mod)
    n = T['n']
    xs = np.array([check(env.sample_from_env(), 'ordinary') for _ in range(n)])
    w.probe('ordinary-samples', n)
    vol = np.prod(his - los, axis=1)
    tot = vol.sum()
    w.cover.add(h64(T['kind'], T['dim'], T.get('delta'), T.get('clearance'), T.get('thickness'), T.get('length')))
    w.log('samples', T['kind'], float(xs.sum()))
    if tot <= 0:
        return
    # each part in proportion to its volume (parts of no volume are skipped)
    inside = (xs[:, None, :] >= los[None]) & (xs[:, None, :] <= his[None])
    member = inside.all(axis=2)
    first = member.argmax(axis=1)
    for b in range(len(parts)):
        if vol[b] > 1e-12 * tot:
            proportion(T, 'part %d %s..%s' % (b, los[b].tolist(), his[b].tolist()), int((first == b).sum()), n, vol[b] / tot)
        sel = xs[first == b]
        if len(sel) >= 30:
            for d in range(T['dim']):
                if his[b, d] > los[b, d]:
                    cut = los[b, d] + T['q'] * (his[b, d] - los[b, d])
                    proportion(T, 'the lowest %.3f of part %d along axis %d' % (T['q'], b, d), int((sel[:, d] <= cut).sum()), len(sel), T['q'])
    # the space as a whole along each axis
    mid = (los.min(axis=0) + his.max(axis=0)) / 2
    for d in range(T['dim']):
        below = np.clip((mid[d] - los[:, d]) / np.where(his[:, d] > los[:, d], his[:, d] - los[:, d], 1), 0, 1)
        if (his[:, d] > los[:, d]).all():
            proportion(T, 'the lower half along axis %d' % d, int((xs[:, d] <= mid[d]).sum()), n, min(1.0, float((below * vol).sum() / tot)))


def task_polygon(w, p, T, sampler, ext):
    from shapely.geometry import box as sbox
    g = polygon(T)

    def check(q, how):
        if g.distance(q) > 1e-7:
            raise Violation('outside-polygon', '%s: %s point %s is %.3g away from the polygon' % (label(T), how, (q.x, q.y), g.distance(q)), 'C07')
        return (q.x, q.y)
    if ext:
        p.rng_extreme = ext
        r = np.random.default_rng(T['seed'])
        p.rng_extreme = None
        for _ in range(12):
            check(sampler.random_point_in_mpolygon(g, rng=r), 'extreme-draw')
        w.probe('extreme-points', 12)
    r = np.random.default_rng(T['seed']) if T['rng'] else None
    pts = np.array([check(sampler.random_point_in_mpolygon(g, rng=r), 'ordinary') for _ in range(T['n'])])
    w.probe('ordinary-points', T['n'])
    w.log('points', float(pts.sum()))
    w.cover.add(h64('polygon', g.geom_type, sum(len(q.interiors) for q in getattr(g, 'geoms', [g])), len(getattr(g, 'geoms', [g]))))
    x0, y0, x1, y1 = g.bounds
    for axis in (0, 1):
        cut = (x0, y0)[axis] + T['q'] * ((x1, y1)[axis] - (x0, y0)[axis])
        half = sbox(x0 - 1, y0 - 1, cut, y1 + 1) if axis == 0 else sbox(x0 - 1, y0 - 1, x1 + 1, cut)
        proportion(T, 'the part below %.4g along axis %d' % (cut, axis), int((pts[:, axis] <= cut).sum()), len(pts), min(1.0, g.intersection(half).area / g.area))
    if g.geom_type == 'MultiPolygon' or len(getattr(g, 'interiors', [])):
        for i, q in enumerate(getattr(g, 'geoms', [])):
            from shapely.geometry import Point
            k = sum(q.distance(Point(*xy)) < 1e-9 for xy in pts)
            proportion(T, 'piece %d' % i, k, len(pts), q.area / g.area)
