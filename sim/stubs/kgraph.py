"""Stand-in for the kgraph extension module (neighbour lists without the point itself, half squared distances as text)."""
import numpy as _np

from .. import seams as _seams
from ..core import StubGap as _StubGap
from .pynndescent import knn as _knn


class KGraph:
    def __init__(self, data, metric='euclidean'):
        if metric != 'euclidean':
            raise _StubGap('kgraph metric %r' % (metric,))
        data = _np.asarray(data)
        if data.shape[1] % 4:
            raise RuntimeError('kgraph: dimension must be a multiple of four')
        self._data = data.astype(_np.float32)

    def build(self, reverse=0, K=25, L=100, S=10, R=100, iterations=30, delta=0.002, recall=0.99, prune=0, controls=100,
              if_eval=0, **kw):
        p = _seams.cur()
        if p is not None and not p.quiet:
            f = p.world.step(p, 'ann', '')
            if f is not None and f['kind'] in ('native-error', 'memerr', 'interrupt'):
                p.world.fired(f)
                raise {'native-error': RuntimeError('kgraph failed (injected)'), 'memerr': MemoryError(),
                       'interrupt': KeyboardInterrupt()}[f['kind']]
        miss = p.world.plan.get('ann_miss', 0.0) if p is not None else 0.0
        n = self._data.shape[0]
        self._K = int(K)
        m = min(n - 1, int(K) + 2)
        self._ids, self._ds = _knn(self._data, m, False, miss, 17)

    def save_text(self, path):
        p = _seams.cur()
        out = ['%d\n' % self._ids.shape[0]]
        for ids, ds in zip(self._ids, self._ds):
            ok = ids >= 0
            out.append(' '.join(['%d' % int(ok.sum())] + ['%d %.9g' % (int(i), float(d) ** 2 / 2) for i, d in zip(ids[ok], ds[ok])]) + '\n')
        data = ''.join(out).encode()
        try:
            f = open(path, 'wb', 0)
        except OSError as e:
            raise RuntimeError('kgraph: cannot open %s' % path)
        try:
            c = max(1, len(data) // 3)
            for i in range(0, len(data), c):
                chunk = data[i:i + c]
                while chunk:
                    k = f.write(chunk)
                    chunk = chunk[k:]
        except OSError as e:
            if not (p is not None and p.world.plan.get('nk_silent_write', False)):
                raise RuntimeError('kgraph: cannot write %s' % path)
        finally:
            f.close()

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise _StubGap('KGraph.%s' % k)
