"""Stand-in for the networkit C++ library: the part of its Python API around graphs, shortest paths and graph files.

Follows the library where it matters to callers: node ids are never reused, removing an edge swaps the last adjacency
entry into its place, edge iterators are live, unreachable distances are the largest double, the binary writer does not
notice a full disk, and a damaged file is rejected on reading.
"""
import enum
import heapq
import struct
import sys
import types
import zlib

import numpy as np

from ..core import StubGap
from .. import seams

INF = sys.float_info.max


def _point(cls, detail=''):
    """A call into the native library: a place where an interruption or allocation failure can hit."""
    p = seams.cur()
    if p is None or p.quiet:
        return
    w = p.world
    if p.dead:
        from ..core import SimKilled
        raise SimKilled()
    f = w._match_fault_native(p, cls) if hasattr(w, '_match_fault_native') else None
    if f is not None:
        w.fired(f)
        if f['kind'] == 'memerr':
            raise MemoryError('std::bad_alloc')
        if f['kind'] == 'interrupt':
            raise KeyboardInterrupt()
        if f['kind'] == 'native-error':
            raise RuntimeError('native library failure (injected)')
        if f['kind'] == 'kill':
            w.kill_self(p)


def _id(x):
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
        if isinstance(x, (float, np.floating)) and float(x).is_integer():
            raise TypeError("'float' object cannot be interpreted as an integer")
        raise TypeError('node id must be an integer, not %r' % (x,))
    x = int(x)
    if x < 0:
        raise OverflowError("can't convert negative value to node")
    return x


class Graph:
    def __init__(self, n=0, weighted=False, directed=False, edgesIndexed=False):
        _point('graph')
        if isinstance(n, Graph):
            o = n
            self._copy_from(o)
            self.w = o.w or bool(weighted)
            return
        self.w, self.d = bool(weighted), bool(directed)
        if self.d:
            raise StubGap('directed graphs')
        n = _id(n)
        self.exists = [True] * n
        self.adj = [[] for _ in range(n)]      # [neighbour, weight, edge id]
        self.m = 0
        self.loops = 0
        self.indexed = bool(edgesIndexed)
        self.ecount = 0

    def _copy_from(self, o):
        self.w, self.d = o.w, o.d
        self.exists = list(o.exists)
        self.adj = [[list(e) for e in a] for a in o.adj]
        self.m, self.loops, self.indexed, self.ecount = o.m, o.loops, o.indexed, o.ecount

    def __copy__(self):
        g = Graph.__new__(Graph)
        g._copy_from(self)
        return g

    def __deepcopy__(self, memo):
        return self.__copy__()

    def __getattr__(self, k):
        if k.startswith('__') or k.startswith('_'):
            raise AttributeError(k)
        raise StubGap('networkit.Graph.%s' % k)

    # nodes
    def addNode(self):
        return self.addNodes(1)

    def addNodes(self, n):
        _point('addNodes')
        for _ in range(_id(n)):
            self.exists.append(True)
            self.adj.append([])
        return len(self.exists) - 1

    def removeNode(self, u):
        # releasing memory cannot fail; asynchronous interruptions are delivered between bytecodes, modelled elsewhere
        u = _id(u)
        if not self.hasNode(u):
            raise RuntimeError('node %d does not exist' % u)
        for v, _, _ in list(self.adj[u]):
            if v != u:
                self._drop(v, u)
            self.m -= 1
            if v == u:
                self.loops -= 1
        self.adj[u] = []
        self.exists[u] = False

    def restoreNode(self, u):
        self.exists[_id(u)] = True

    def hasNode(self, u):
        u = _id(u)
        return u < len(self.exists) and self.exists[u]

    def numberOfNodes(self):
        return sum(self.exists)

    def numberOfEdges(self):
        return self.m

    def numberOfSelfLoops(self):
        return self.loops

    def size(self):
        return (self.numberOfNodes(), self.m)

    def density(self):
        n = self.numberOfNodes()
        return 0.0 if n < 2 else 2.0 * (self.m - self.loops) / (n * (n - 1))

    def upperNodeIdBound(self):
        return len(self.exists)

    def upperEdgeIdBound(self):
        return self.ecount

    def isEmpty(self):
        return self.numberOfNodes() == 0

    def isWeighted(self):
        return self.w

    def isDirected(self):
        return self.d

    def hasEdgeIds(self):
        return self.indexed

    def degree(self, u):
        return len(self.adj[_id(u)])

    degreeIn = degreeOut = degree

    def weightedDegree(self, u, countSelfLoopsTwice=False):
        return sum(w for _, w, _ in self.adj[_id(u)])

    def isIsolated(self, u):
        return not self.adj[_id(u)]

    # edges
    def _check(self, u, v):
        if not (self.hasNode(u) and self.hasNode(v)):
            raise RuntimeError('Cannot create edge ({0}, {1}) as at least one end point does not exist'.format(u, v))

    def addEdge(self, u, v, w=1.0, addMissing=False, checkMultiEdge=False):
        _point('addEdge')
        u, v, w = _id(u), _id(v), float(w)
        if addMissing:
            while len(self.exists) <= max(u, v):
                self.exists.append(True)
                self.adj.append([])
            self.exists[u] = self.exists[v] = True
        self._check(u, v)
        if checkMultiEdge and self.hasEdge(u, v):
            return False
        if not self.w:
            w = 1.0
        eid = None
        if self.indexed:
            eid = self.ecount
            self.ecount += 1
        self.adj[u].append([v, w, eid])
        if u != v:
            self.adj[v].append([u, w, eid])
        else:
            self.loops += 1
        self.m += 1
        return True

    def addEdges(self, inputData, addMissing=False, checkMultiEdge=False):
        if isinstance(inputData, tuple) and len(inputData) == 2 and isinstance(inputData[1], tuple):
            ws, (us, vs) = inputData
        elif isinstance(inputData, tuple) and len(inputData) == 2:
            us, vs = inputData
            ws = [1.0] * len(us)
        elif hasattr(inputData, 'tocoo'):
            c = inputData.tocoo()
            us, vs, ws = c.row, c.col, c.data
        else:
            raise StubGap('addEdges input')
        for u, v, w in zip(us, vs, ws):
            self.addEdge(int(u), int(v), float(w), addMissing, checkMultiEdge)

    def _find(self, u, v):
        a = self.adj[u]
        for i, e in enumerate(a):
            if e[0] == v:
                return i
        return -1

    def _drop(self, u, v):
        a = self.adj[u]
        i = self._find(u, v)
        a[i] = a[-1]
        a.pop()

    def hasEdge(self, u, v):
        u, v = _id(u), _id(v)
        if u >= len(self.exists) or v >= len(self.exists):
            return False
        return self._find(u, v) >= 0

    def removeEdge(self, u, v):
        u, v = _id(u), _id(v)
        if not self.hasEdge(u, v):
            raise RuntimeError('The edge (%d,%d) does not exist' % (u, v))
        self._drop(u, v)
        if u != v:
            self._drop(v, u)
        else:
            self.loops -= 1
        self.m -= 1

    def removeAllEdges(self):
        for a in self.adj:
            a.clear()
        self.m = self.loops = 0

    def removeSelfLoops(self):
        for u in range(len(self.adj)):
            while self._find(u, u) >= 0:
                self.removeEdge(u, u)

    def removeMultiEdges(self):
        for u in range(len(self.adj)):
            seen = set()
            i = 0
            for e in list(self.adj[u]):
                if e[0] in seen and e[0] <= u:
                    self.removeEdge(u, e[0])
                seen.add(e[0])

    def weight(self, u, v):
        i = self._find(_id(u), _id(v))
        return 0.0 if i < 0 else self.adj[int(u)][i][1]

    def setWeight(self, u, v, w):
        u, v = _id(u), _id(v)
        if self._find(u, v) < 0:
            self.addEdge(u, v, w)
            return
        self.adj[u][self._find(u, v)][1] = float(w)
        if u != v:
            self.adj[v][self._find(v, u)][1] = float(w)

    def increaseWeight(self, u, v, w):
        self.setWeight(u, v, self.weight(u, v) + w)

    def totalEdgeWeight(self):
        return sum(w for _, _, w in self._edges())

    def edgeId(self, u, v):
        return self.adj[_id(u)][self._find(_id(u), _id(v))][2]

    def indexEdges(self, force=False):
        _point('indexEdges')
        if self.indexed and not force:
            return
        c = 0
        for u in range(len(self.adj)):
            for e in self.adj[u]:
                if e[0] <= u:
                    e[2] = c
                    if e[0] != u:
                        self.adj[e[0]][self._find(e[0], u)][2] = c
                    c += 1
        self.indexed = True
        self.ecount = c

    def _edges(self):
        """Live iteration, as the library's edge iterators do it."""
        u = 0
        while u < len(self.adj):
            i = 0
            while i < len(self.adj[u]):
                v, w, _ = self.adj[u][i]
                if v <= u:
                    yield u, v, w
                i += 1
            u += 1

    def iterEdges(self):
        for u, v, _ in self._edges():
            yield u, v

    def iterEdgesWeights(self):
        for u, v, w in self._edges():
            yield u, v, w

    def iterNodes(self):
        for u in range(len(self.exists)):
            if self.exists[u]:
                yield u

    def iterNeighbors(self, u):
        u = _id(u)
        i = 0
        while i < len(self.adj[u]):
            yield self.adj[u][i][0]
            i += 1

    def iterNeighborsWeights(self, u):
        u = _id(u)
        i = 0
        while i < len(self.adj[u]):
            yield self.adj[u][i][0], self.adj[u][i][1]
            i += 1

    iterInNeighbors = iterNeighbors
    iterInNeighborsWeights = iterNeighborsWeights

    def getIthNeighbor(self, u, i):
        return self.adj[_id(u)][i][0]

    def getIthNeighborWeight(self, u, i):
        return self.adj[_id(u)][i][1]

    def forNodes(self, cb):
        for u in list(self.iterNodes()):
            cb(u)

    def forEdges(self, cb):
        for u, v, w in self._edges():
            cb(u, v, w, None)

    def forEdgesOf(self, u, cb):
        for v, w in list(self.iterNeighborsWeights(u)):
            cb(u, v, w, None)

    def compactEdges(self):
        pass

    def sortEdges(self):
        for a in self.adj:
            a.sort(key=lambda e: e[0])

    def checkConsistency(self):
        return True


# ------------------------------------------------------------------------------------------------ algorithms
def _dijkstra(G, s, target=None):
    dist, pred = {s: 0.0}, {}
    q = [(0.0, s)]
    done = set()
    while q:
        d, u = heapq.heappop(q)
        if u in done:
            continue
        done.add(u)
        if u == target:
            break
        for v, w, _ in G.adj[u]:
            nd = d + w
            if v not in dist or nd < dist[v]:
                dist[v] = nd
                pred[v] = u
                heapq.heappush(q, (nd, v))
    return dist, pred


def _walk(pred, s, t):
    out = [t]
    while out[-1] != s:
        if out[-1] not in pred:
            return []
        out.append(pred[out[-1]])
    return out[::-1]


class _Algo:
    _ran = False

    def hasFinished(self):
        return self._ran

    def _need(self):
        if not self._ran:
            raise RuntimeError('Error, run must be called first')

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise StubGap('%s.%s' % (type(self).__name__, k))


class _STSP(_Algo):
    def __init__(self, G, source, target, storePred=True):
        self.G, self.s, self.t, self.storePred = G, _id(source), _id(target), storePred

    def run(self):
        _point('sssp')
        if not (self.G.hasNode(self.s) and self.G.hasNode(self.t)):
            raise RuntimeError('source or target does not exist')
        self.dist, self.pred = _dijkstra(self.G, self.s, self.t)
        self._ran = True
        return self

    def getDistance(self):
        self._need()
        return self.dist.get(self.t, INF)

    def getPath(self):
        self._need()
        if not self.storePred:
            raise RuntimeError('Error: predecessors were not stored')
        return _walk(self.pred, self.s, self.t)[1:-1] if self.t in self.dist else []

    def getPredecessors(self):
        return self.pred

    def setSource(self, s):
        self.s, self._ran = _id(s), False

    def setTarget(self, t):
        self.t, self._ran = _id(t), False

    def setTargets(self, ts):
        raise StubGap('setTargets')


class BidirectionalDijkstra(_STSP):
    pass


class BidirectionalBFS(_Algo):
    def __init__(self, *a, **k):
        raise StubGap('BidirectionalBFS')


class AStar(_STSP):
    def __init__(self, G, heu, source, target, storePred=True):
        super().__init__(G, source, target, storePred)


class Dijkstra(_Algo):
    def __init__(self, G, source, storePaths=True, storeNodesSortedByDistance=False, target=None):
        self.G, self.s, self.t = G, _id(source), target
        if isinstance(target, (int, np.integer)) and int(target) > 1 << 62:
            self.t = None

    def run(self):
        _point('sssp')
        if not self.G.hasNode(self.s):
            raise RuntimeError('source does not exist')
        self.dist, self.pred = _dijkstra(self.G, self.s, None if self.t is None else int(self.t))
        self._ran = True
        return self

    def distance(self, t):
        self._need()
        return self.dist.get(_id(t), INF)

    def getDistances(self, asarray=None):
        self._need()
        r = [self.dist.get(i, INF) for i in range(self.G.upperNodeIdBound())]
        return np.array(r) if asarray else r

    def getPath(self, t, forward=True):
        self._need()
        t = _id(t)
        return _walk(self.pred, self.s, t) if t in self.dist else []

    def getPredecessors(self, t):
        t = _id(t)
        return [self.pred[t]] if t in self.pred else []

    def numberOfPaths(self, t):
        return 1 if _id(t) in self.dist else 0

    def getReachableNodes(self):
        return len(self.dist)

    def setSource(self, s):
        self.s, self._ran = _id(s), False

    def setTarget(self, t):
        self.t, self._ran = _id(t), False


class SPSP(_Algo):
    def __init__(self, G, sources, targets=None):
        self.G, self.src = G, [_id(int(s)) for s in sources]
        self.tgt = None if targets is None else [_id(int(s)) for s in targets]

    def setSources(self, s):
        self.src, self._ran = [_id(int(x)) for x in s], False

    def setTargets(self, t):
        self.tgt, self._ran = [_id(int(x)) for x in t], False

    def run(self):
        _point('sssp')
        tg = self.tgt if self.tgt is not None else list(range(self.G.upperNodeIdBound()))
        self.idx_s = {s: i for i, s in enumerate(self.src)}
        self.idx_t = {t: i for i, t in enumerate(tg)}
        out = np.full((len(self.src), len(tg)), INF)
        for i, s in enumerate(self.src):
            d, _ = _dijkstra(self.G, s)
            for j, t in enumerate(tg):
                out[i, j] = d.get(t, INF)
        self.out = out
        self._ran = True
        return self

    def getDistances(self, asarray=None):
        self._need()
        return self.out.copy() if asarray else self.out.tolist()

    def getDistance(self, u, v):
        self._need()
        return float(self.out[self.idx_s[_id(u)], self.idx_t[_id(v)]])


class APSP(SPSP):
    def __init__(self, G):
        super().__init__(G, list(range(G.upperNodeIdBound())))


class ConnectedComponents(_Algo):
    def __init__(self, G):
        self.G = G

    def run(self):
        self.comp = {}
        k = 0
        for u in self.G.iterNodes():
            if u in self.comp:
                continue
            st = [u]
            self.comp[u] = k
            while st:
                x = st.pop()
                for v, _, _ in self.G.adj[x]:
                    if v not in self.comp:
                        self.comp[v] = k
                        st.append(v)
            k += 1
        self.k = k
        self._ran = True
        return self

    def numberOfComponents(self):
        return self.k

    def componentOfNode(self, u):
        return self.comp[_id(u)]

    def getComponents(self):
        out = [[] for _ in range(self.k)]
        for u in sorted(self.comp):
            out[self.comp[u]].append(u)
        return out

    def getComponentSizes(self):
        return {i: len(c) for i, c in enumerate(self.getComponents())}


class GraphTools:
    """networkit.graphtools.GraphTools: static methods."""
    @staticmethod
    def append(G, G1):
        off = G.upperNodeIdBound()
        G.addNodes(G1.upperNodeIdBound())
        for u, v, w in list(G1._edges()):
            G.addEdge(u + off, v + off, w)

    @staticmethod
    def merge(G, G1):
        _point('merge')
        pb = G.upperNodeIdBound()
        if pb < G1.upperNodeIdBound():
            G.addNodes(G1.upperNodeIdBound() - pb)
            for u in range(pb, G1.upperNodeIdBound()):
                if not G1.exists[u]:
                    G.exists[u] = False
        for u, v, w in list(G1._edges()):
            if not (G.hasNode(u) and G.hasNode(v)):
                # the library does not check: it would corrupt its adjacency arrays here
                raise RuntimeError('merge: edge (%d, %d) to a removed node' % (u, v))
            if not G.hasEdge(u, v):
                G.addEdge(u, v, w)

    @staticmethod
    def subgraphFromNodes(G, nodes, compact=False):
        keep = set(int(x) for x in nodes)
        if compact:
            raise StubGap('subgraphFromNodes(compact=True)')
        H = Graph(G.upperNodeIdBound(), G.w)
        H.exists = [i in keep for i in range(len(G.exists))]
        for u, v, w in G._edges():
            if u in keep and v in keep:
                H.addEdge(u, v, w)
        return H

    @staticmethod
    def copyNodes(G):
        H = Graph(G.upperNodeIdBound(), G.w)
        H.exists = list(G.exists)
        return H

    @staticmethod
    def randomNode(G):
        raise StubGap('randomNode')

    @staticmethod
    def size(G):
        return G.size()

    @staticmethod
    def toWeighted(G):
        H = Graph(G, weighted=True)
        return H

    @staticmethod
    def toUnweighted(G):
        raise StubGap('toUnweighted')

    @staticmethod
    def maxDegree(G):
        return max([G.degree(u) for u in G.iterNodes()] or [0])

    @staticmethod
    def getContinuousNodeIds(G):
        return {u: i for i, u in enumerate(G.iterNodes())}

    @staticmethod
    def getCompactedGraph(G, idmap):
        H = Graph(len(idmap), G.w)
        for u, v, w in G._edges():
            H.addEdge(idmap[u], idmap[v], w)
        return H


# ------------------------------------------------------------------------------------------------ graph files
MAGIC = b'nkbg003\0'


def encode(G):
    body = struct.pack('<QQ?', len(G.exists), G.m, G.w) + bytes(bytearray(1 if e else 0 for e in G.exists))
    for u, v, w in G._edges():
        body += struct.pack('<QQd', u, v, w)
    body += struct.pack('<?Q', G.indexed, G.ecount)
    return MAGIC + struct.pack('<QI', len(body), zlib.crc32(body)) + body


def decode(data):
    if len(data) < 20 or data[:8] != MAGIC:
        raise RuntimeError('Reader expected another magic value')
    n, crc = struct.unpack('<QI', data[8:20])
    body = data[20:]
    if len(body) != n or zlib.crc32(body) != crc:
        raise RuntimeError('graph file is damaged')
    N, m, w = struct.unpack('<QQ?', body[:17])
    ex = body[17:17 + N]
    G = Graph(N, weighted=w)
    pos = 17 + N
    for _ in range(m):
        u, v, x = struct.unpack('<QQd', body[pos:pos + 24])
        G.addEdge(u, v, x)
        pos += 24
    G.exists = [bool(b) for b in ex]
    idx, ec = struct.unpack('<?Q', body[pos:pos + 9])
    if idx:
        G.indexEdges()
    return G


class Format(enum.Enum):
    NetworkitBinary = 'nkb'
    METIS = 'metis'
    EdgeList = 'edgelist'
    GML = 'gml'
    SNAP = 'snap'
    EdgeListTabOne = EdgeListTabZero = EdgeListSpaceZero = EdgeListSpaceOne = EdgeListCommaOne = 'edgelist2'


def _check_path(path):
    if isinstance(path, bytes) or not isinstance(path, str):
        if hasattr(path, '__fspath__'):
            return path.__fspath__()
        raise TypeError('expected str path')
    return path


def writeGraph(G, path, fileformat=Format.NetworkitBinary, *a, **k):
    path = _check_path(path)
    _point('writeGraph')
    if fileformat not in (Format.NetworkitBinary,):
        if not isinstance(fileformat, Format):
            raise Exception('unrecognized format/format not supported: {0}'.format(fileformat))
        raise StubGap('graph format')
    data = encode(G)
    p = seams.cur()
    try:
        f = open(path, 'wb')
    except OSError as e:
        raise RuntimeError('Failed to open %s: %s' % (path, e.strerror))
    silent = p is not None and p.world.plan.get('nk_silent_write', False)
    try:
        half = len(data) // 2
        f.write(data[:half])
        f.flush()
        f.write(data[half:])
        f.close()
    except OSError as e:
        try:
            f.raw.close() if hasattr(f, 'raw') else f.close()
        except Exception:
            pass
        if not silent:
            raise RuntimeError('Failed to write %s: %s' % (path, e.strerror))


def readGraph(path, fileformat=Format.NetworkitBinary, *a, **k):
    path = _check_path(path)
    _point('readGraph')
    if fileformat not in (Format.NetworkitBinary,):
        if not isinstance(fileformat, Format):
            raise Exception('unrecognized format/format not supported: {0}'.format(fileformat))
        raise StubGap('graph format')
    try:
        with open(path, 'rb') as f:
            data = f.read()
    except OSError as e:
        raise RuntimeError('{0}: {1}'.format(path, e.strerror))
    return decode(data)


class NetworkitBinaryWriter:
    def __init__(self, *a, **k):
        pass

    def write(self, G, path):
        writeGraph(G, path)


class NetworkitBinaryReader:
    def __init__(self, *a, **k):
        pass

    def read(self, path):
        return readGraph(path)


def _gap(name):
    def f(k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise StubGap('%s.%s' % (name, k))
    return f


def setNumberOfThreads(n):
    pass


def setSeed(seed, useThreadId=False):
    pass


def getMaxNumberOfThreads():
    return 1


def getCurrentNumberOfThreads():
    return 1


def build_modules():
    nk = types.ModuleType('networkit')
    nk.__path__ = []
    dist = types.ModuleType('networkit.distance')
    for c in (BidirectionalDijkstra, BidirectionalBFS, AStar, Dijkstra, SPSP, APSP):
        setattr(dist, c.__name__, c)
    gt = types.ModuleType('networkit.graphtools')
    gt.GraphTools = GraphTools
    comp = types.ModuleType('networkit.components')
    comp.ConnectedComponents = ConnectedComponents
    gio = types.ModuleType('networkit.graphio')
    for o in (writeGraph, readGraph, Format, NetworkitBinaryReader, NetworkitBinaryWriter):
        setattr(gio, o.__name__, o)
        setattr(nk, o.__name__, o)
    graph = types.ModuleType('networkit.graph')
    graph.Graph = Graph
    nk.Graph = Graph
    nk.distance, nk.graphtools, nk.components, nk.graphio, nk.graph = dist, gt, comp, gio, graph
    nk.GraphTools = GraphTools
    for f in (setNumberOfThreads, setSeed, getMaxNumberOfThreads, getCurrentNumberOfThreads):
        setattr(nk, f.__name__, f)
    for m in (nk, dist, gt, comp, gio, graph):
        m.__getattr__ = _gap(m.__name__)
    return {m.__name__: m for m in (nk, dist, gt, comp, gio, graph)}
