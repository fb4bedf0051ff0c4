"""The three scipy functions and one class the repository uses."""
import math
import types

import numpy as np

from ..core import StubGap


def gamma(x):
    return np.vectorize(math.gamma)(x) if np.ndim(x) else math.gamma(x)


def gammaln(x):
    return np.vectorize(math.lgamma)(x) if np.ndim(x) else math.lgamma(x)


def comb(N, k, exact=False, repetition=False):
    if exact:
        return math.comb(int(N), int(k)) if 0 <= k <= N else 0
    return float(math.comb(int(N), int(k))) if 0 <= k <= N else 0.0


def entropy(pk, qk=None, base=None, axis=0):
    pk = np.asarray(pk, float)
    pk = pk / pk.sum(axis=axis, keepdims=True)
    if qk is None:
        v = -np.where(pk > 0, pk * np.log(np.where(pk > 0, pk, 1)), 0).sum(axis=axis)
    else:
        qk = np.asarray(qk, float)
        qk = qk / qk.sum(axis=axis, keepdims=True)
        with np.errstate(divide='ignore', invalid='ignore'):
            v = np.where(pk > 0, pk * np.log(pk / qk), 0).sum(axis=axis)
    return v / (math.log(base) if base else 1.0)


class ConvexHull:
    def __init__(self, points, *a, **k):
        pts = np.asarray([list(p) for p in points], float)
        if pts.shape[1] != 2:
            raise StubGap('ConvexHull in %d dimensions' % pts.shape[1])
        idx = sorted(range(len(pts)), key=lambda i: (pts[i][0], pts[i][1]))

        def cross(o, a, b):
            return (pts[a][0] - pts[o][0]) * (pts[b][1] - pts[o][1]) - (pts[a][1] - pts[o][1]) * (pts[b][0] - pts[o][0])

        def half(ids):
            h = []
            for i in ids:
                while len(h) >= 2 and cross(h[-2], h[-1], i) <= 0:
                    h.pop()
                h.append(i)
            return h
        lo, up = half(idx), half(idx[::-1])
        self.vertices = np.array(lo[:-1] + up[:-1])       # counter-clockwise
        self.points = pts


def build_modules():
    sp = types.ModuleType('scipy')
    sp.__path__ = []
    special, stats, spatial = (types.ModuleType('scipy.' + n) for n in ('special', 'stats', 'spatial'))
    special.gamma, special.comb, special.gammaln = gamma, comb, gammaln
    stats.entropy = entropy
    spatial.ConvexHull = ConvexHull
    sp.special, sp.stats, sp.spatial = special, stats, spatial
    return {m.__name__: m for m in (sp, special, stats, spatial)}
