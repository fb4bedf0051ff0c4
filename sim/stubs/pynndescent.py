"""Stand-in for pynndescent: k nearest neighbours by exhaustive search (or a seeded approximation of it).

As in the library, a point is its own first neighbour, distances are float32, and lists longer than the data are padded
with id -1 at infinite distance.
"""
import numpy as np

from .. import seams
from ..core import StubGap, h64


def knn(data, k, include_self, miss=0.0, salt=0):
    """Exact k-nearest-neighbour lists; with miss > 0 some true neighbours are overlooked (as approximate search does)."""
    data = np.asarray(data, dtype=np.float64)
    n = data.shape[0]
    d = np.sqrt(np.maximum(0.0, ((data[:, None, :] - data[None, :, :]) ** 2).sum(axis=2)))
    ids = np.full((n, k), -1, dtype=np.int64)
    ds = np.full((n, k), np.inf)
    for i in range(n):
        row = d[i].copy()
        row[i] = -1.0
        order = np.argsort(row, kind='stable')
        if not include_self:
            order = order[1:]
        m = min(k, len(order))
        if miss > 0:
            seen = [j for j in order if j == i or h64(salt, i, int(j)) % 1000 >= miss * 1000]
            if len(seen) < m:          # the lists are always full
                rest = [j for j in order if j not in set(seen)]
                seen = seen + rest[:m - len(seen)]
            order = np.array(sorted(seen[:m], key=lambda j: (row[j], j)), dtype=np.int64)
        ids[i, :m] = order[:m]
        ds[i, :m] = np.maximum(d[i, order[:m]], 0.0)
    return ids, ds


class NNDescent:
    def __init__(self, data, metric='euclidean', metric_kwds=None, n_neighbors=30, n_trees=None, leaf_size=None,
                 pruning_degree_multiplier=1.5, diversify_prob=1.0, n_search_trees=1, tree_init=True, init_graph=None,
                 init_dist=None, random_state=None, low_memory=True, max_candidates=None, max_rptree_depth=200,
                 n_iters=None, delta=0.001, n_jobs=None, compressed=False, parallel_batch_queries=False, verbose=False):
        p = seams.cur()
        if metric not in ('euclidean', 'l2', 'sqeuclidean'):
            raise StubGap('NNDescent metric %r' % (metric,))
        self._metric = metric
        self._fail(p)
        self._data = np.array(data, dtype=np.float32)
        self.n_neighbors = int(n_neighbors)
        self.random_state = random_state
        self._build()

    def _fail(self, p):
        if p is None or p.quiet:
            return
        f = p.world.step(p, 'ann', '')
        if f is not None and f['kind'] in ('native-error', 'memerr', 'interrupt'):
            p.world.fired(f)
            raise {'native-error': RuntimeError('neighbour search failed (injected)'), 'memerr': MemoryError(),
                   'interrupt': KeyboardInterrupt()}[f['kind']]

    def _build(self):
        p = seams.cur()
        miss, salt = 0.0, 0
        if p is not None:
            miss = p.world.plan.get('ann_miss', 0.0)
            salt = ('pynn', self.random_state) if miss else 0
            if self.random_state is None and miss:      # the library then draws from numpy's global generator
                salt = (salt, int(np.random.randint(1 << 31)))
        ids, ds = knn(self._data, self.n_neighbors, True, miss, salt)
        if self._metric == 'sqeuclidean':
            ds = ds ** 2
        self._graph = (ids.astype(np.int32), ds.astype(np.float32))

    @property
    def neighbor_graph(self):
        return self._graph[0].copy(), self._graph[1].copy()

    def update(self, xs_fresh=None, xs_updated=None, updated_indices=None):
        self._fail(seams.cur())
        if xs_updated is not None:
            raise StubGap('NNDescent.update(xs_updated)')
        self._data = np.vstack([self._data, np.array(xs_fresh, dtype=np.float32)])
        self._build()

    def prepare(self):
        pass

    def query(self, query_data, k=10, epsilon=0.1):
        q = np.asarray(query_data, dtype=np.float64)
        d = np.sqrt(((q[:, None, :] - self._data[None, :, :].astype(np.float64)) ** 2).sum(axis=2))
        o = np.argsort(d, axis=1, kind='stable')[:, :k]
        return o.astype(np.int32), np.take_along_axis(d, o, axis=1).astype(np.float32)

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise StubGap('NNDescent.%s' % k)


class PyNNDescentTransformer:
    def __init__(self, *a, **k):
        raise StubGap('PyNNDescentTransformer')
