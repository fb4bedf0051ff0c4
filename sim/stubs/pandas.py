"""A small stand-in for pandas: tables of python values with a CSV round trip that behaves like the library's
(missing values written as '', '' read back as NaN, columns typed as int, float, bool or text, ragged files rejected,
empty files rejected, files written through ordinary buffered writes)."""
import builtins as _b
import csv
import io
import math
import os

import numpy as np

from ..core import StubGap

nan = float('nan')
NA = nan
NaT = nan


class _Errors:
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass


errors = _Errors
EmptyDataError, ParserError = _Errors.EmptyDataError, _Errors.ParserError


def isna(x):
    if isinstance(x, Series):
        return Series([isna(v) for v in x._v], x._i, x.name)
    if isinstance(x, DataFrame):
        return DataFrame({c: [isna(v) for v in x._d[c]] for c in x._c}, index=x._i)
    if isinstance(x, (list, np.ndarray)):
        return np.array([isna(v) for v in x])
    return x is None or (isinstance(x, (float, np.floating)) and math.isnan(x))


isnull = isna


def notna(x):
    r = isna(x)
    return ~r if isinstance(r, (Series, DataFrame, np.ndarray)) else not r


notnull = notna


def _key(v):
    return ('nan',) if isna(v) else v


def _vals(x, n=None):
    if isinstance(x, Series):
        return list(x._v)
    if isinstance(x, Index):
        return list(x._v)
    if isinstance(x, np.ndarray):
        return list(x)
    if isinstance(x, (list, tuple, range)):
        return list(x)
    if hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict)):
        return list(x)
    return [x] * (n if n is not None else 1)


class Index:
    def __init__(self, v, name=None):
        self._v = list(v)
        self.name = name

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        if isinstance(i, (slice, np.ndarray, list)):
            return Index(np.array(self._v, dtype=object)[i])
        return self._v[i]

    def __contains__(self, x):
        return x in self._v

    def __eq__(self, o):
        o = _vals(o, len(self._v))
        return np.array([a == b for a, b in zip(self._v, o)])

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def values(self):
        return np.array(self._v)

    def equals(self, o):
        return list(self._v) == list(o)

    def max(self):
        return max(self._v)

    def min(self):
        return min(self._v)

    @property
    def size(self):
        return len(self._v)

    @property
    def empty(self):
        return not self._v

    @property
    def is_unique(self):
        return len(set(self._v)) == len(self._v)

    def isin(self, o):
        s = set(_vals(o))
        return np.array([v in s for v in self._v])

    def difference(self, o):
        s = set(o)
        return Index([v for v in self._v if v not in s])

    def intersection(self, o):
        s = set(o)
        return Index([v for v in self._v if v in s])

    def get_loc(self, k):
        return self._v.index(k)

    def __repr__(self):
        return 'Index(%r)' % self._v

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise StubGap('pandas.Index.%s' % k)


RangeIndex = Index


def _dtype(v):
    if all(isinstance(x, (bool, np.bool_)) for x in v) and v:
        return np.dtype(bool)
    if all(isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_)) for x in v) and v:
        return np.dtype('int64')
    if all(isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_)) for x in v) and v:
        return np.dtype('float64')
    return np.dtype(object)


class _Loc:
    def __init__(self, o, pos):
        self.o, self.pos = o, pos

    def _rows(self, k):
        o = self.o
        n = len(o._i)
        if isinstance(k, Series):
            k = k._v
        if isinstance(k, slice):
            if self.pos or (k.start is None and k.stop is None):
                return list(range(n))[k]
            idx = list(o._i)
            a = idx.index(k.start) if k.start is not None else 0
            b = n - 1 - idx[::-1].index(k.stop) if k.stop is not None else n - 1
            return list(range(a, b + 1))
        if isinstance(k, (list, np.ndarray, range, Index)):
            k = list(k)
            if k and all(isinstance(x, (bool, np.bool_)) for x in k):
                return [i for i, x in enumerate(k) if x]
            if self.pos:
                return [int(x) if x >= 0 else n + int(x) for x in k]
            idx = list(o._i)
            out = []
            for x in k:
                hit = [i for i, y in enumerate(idx) if y == x]
                if not hit:
                    raise KeyError(x)
                out += hit
            return out
        if self.pos:
            k = int(k)
            if k < -n or k >= n:
                raise IndexError('single positional indexer is out-of-bounds')
            return k % n if n else 0
        hit = [i for i, y in enumerate(o._i) if y == k]
        if not hit:
            raise KeyError(k)
        return hit[0] if len(hit) == 1 else hit

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, Series):
            r = self._rows(k)
            return o._v[r] if isinstance(r, int) else Series([o._v[i] for i in r], [o._i[i] for i in r], o.name)
        cols = None
        if isinstance(k, tuple):
            k, cols = k
        r = self._rows(k)
        if cols is not None:
            if self.pos:
                cc = o._c[cols] if not isinstance(cols, (list, np.ndarray)) else [o._c[c] for c in cols]
            elif isinstance(cols, slice):
                cc = list(o._c) if cols == slice(None) else o._c[o._c.index(cols.start):o._c.index(cols.stop) + 1]
            else:
                cc = cols if not isinstance(cols, (list, np.ndarray, Index)) else list(cols)
            if isinstance(r, int):
                if isinstance(cc, list):
                    return Series([o._d[c][r] for c in cc], cc)
                return o._d[cc][r]
            sub = o._take(r)
            return sub[cc]
        if isinstance(r, int):
            return Series([o._d[c][r] for c in o._c], list(o._c), name=o._i[r])
        return o._take(r)

    def __setitem__(self, k, v):
        o = self.o
        if isinstance(o, Series):
            r = self._rows(k)
            for i in ([r] if isinstance(r, int) else r):
                o._v[i] = v
            return
        cols = None
        if isinstance(k, tuple):
            k, cols = k
        try:
            r = self._rows(k)
        except KeyError:
            if cols is None:      # enlargement
                for c, x in zip(o._c, _vals(v, len(o._c))):
                    o._d[c].append(x)
                o._i.append(k)
                return
            raise
        rows = [r] if isinstance(r, int) else r
        cc = list(o._c) if cols is None else ([o._c[cols]] if self.pos and isinstance(cols, int) else _vals(cols) if not isinstance(cols, str) else [cols])
        for j, c in enumerate(cc):
            if c not in o._d:
                o._d[c] = [nan] * len(o._i)
                o._c.append(c)
            for t, i in enumerate(rows):
                if isinstance(v, (list, tuple, np.ndarray, Series)):
                    vv = _vals(v)
                    o._d[c][i] = vv[j] if len(rows) == 1 and len(cc) > 1 else vv[t]
                else:
                    o._d[c][i] = v


def _num(v):
    return [float(x) for x in v if not isna(x)]


def _scalar_bin(f):
    def g(a, b):
        try:
            return f(a, b)
        except TypeError:
            raise
    return g


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index = list(data) if index is None else index
            data = [data[k] for k in index]
        v = [] if data is None else _vals(data, len(index) if index is not None else None)
        if dtype is not None:
            v = [np.dtype(dtype).type(x) for x in v] if dtype not in (object, 'object', str) else v
        self._v = v
        self._i = list(index) if index is not None else (list(data._i) if isinstance(data, Series) else list(range(len(v))))
        self.name = name if name is not None else getattr(data, 'name', None) if isinstance(data, Series) else name

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __repr__(self):
        return 'Series(%r, name=%r)' % (self._v, self.name)

    def __array__(self, dtype=None, copy=None):
        return np.array(self._v, dtype=dtype) if dtype is not None else self.values

    @property
    def values(self):
        d = _dtype(self._v)
        return np.array(self._v, dtype=d)

    def to_numpy(self, dtype=None, **k):
        return self.values if dtype is None else np.array(self._v, dtype=dtype)

    @property
    def index(self):
        return Index(self._i)

    @index.setter
    def index(self, v):
        self._i = list(v)

    @property
    def dtype(self):
        return _dtype(self._v)

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def size(self):
        return len(self._v)

    @property
    def empty(self):
        return not self._v

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def iloc(self):
        return _Loc(self, True)

    @property
    def loc(self):
        return _Loc(self, False)

    @property
    def is_unique(self):
        return self.nunique(dropna=False) == len(self._v)

    def __getitem__(self, k):
        if isinstance(k, Series) or isinstance(k, (list, np.ndarray)) and len(k) and isinstance(k[0], (bool, np.bool_)):
            m = _vals(k)
            r = [i for i, x in enumerate(m) if x]
            return Series([self._v[i] for i in r], [self._i[i] for i in r], self.name)
        if isinstance(k, slice):
            return Series(self._v[k], self._i[k], self.name)
        return _Loc(self, False)[k]

    def __setitem__(self, k, v):
        _Loc(self, False)[k] = v

    def _bin(self, o, f):
        b = _vals(o, len(self._v))
        if len(b) != len(self._v):
            raise ValueError('Can only compare identically-labeled Series objects')
        return Series([f(x, y) for x, y in zip(self._v, b)], self._i, self.name)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: (not isna(a)) and (not isna(b)) and a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: not ((not isna(a)) and (not isna(b)) and a == b))

    __hash__ = None

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b if b else (nan if not a else math.copysign(math.inf, a)))

    def __and__(self, o):
        return self._bin(o, lambda a, b: bool(a) and bool(b))

    def __or__(self, o):
        return self._bin(o, lambda a, b: bool(a) or bool(b))

    def __invert__(self):
        return Series([not x for x in self._v], self._i, self.name)

    def __neg__(self):
        return Series([-x for x in self._v], self._i, self.name)

    def unique(self):
        seen, out = set(), []
        for x in self._v:
            k = _key(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return np.array(out, dtype=_dtype(out))

    def nunique(self, dropna=True):
        return len({_key(x) for x in self._v if not (dropna and isna(x))})

    def value_counts(self, *a, **k):
        c = {}
        for x in self._v:
            c[x] = c.get(x, 0) + 1
        it = sorted(c.items(), key=lambda t: -t[1])
        return Series([b for _, b in it], [a for a, _ in it], self.name)

    def isin(self, o):
        s = {_key(x) for x in _vals(o)}
        return Series([_key(x) in s for x in self._v], self._i, self.name)

    def duplicated(self, keep='first'):
        return DataFrame({'x': self._v}).duplicated(keep=keep)

    def drop_duplicates(self, keep='first'):
        return self[~self.duplicated(keep)]

    def isna(self):
        return isna(self)

    isnull = isna

    def notna(self):
        return ~isna(self)

    notnull = notna

    def fillna(self, v=None, **k):
        return Series([v if isna(x) else x for x in self._v], self._i, self.name)

    def dropna(self):
        return self[self.notna()]

    def astype(self, t, **k):
        if t in (str, 'str'):
            return Series([str(x) for x in self._v], self._i, self.name)
        if t in (object, 'object', 'string', 'category'):
            return Series(self._v, self._i, self.name)
        tt = {'int': int, 'float': float, 'bool': bool, 'Int64': int}.get(t, t)
        f = tt if callable(tt) and not isinstance(tt, np.dtype) else np.dtype(tt).type
        if any(isna(x) for x in self._v) and np.dtype(f).kind in 'iu':
            raise ValueError('Cannot convert non-finite values (NA or inf) to integer')
        return Series([f(x) for x in self._v], self._i, self.name)

    def mean(self, *a, **k):
        v = _num(self._v)
        return sum(v) / len(v) if v else nan

    def std(self, ddof=1, *a, **k):
        v = _num(self._v)
        if len(v) - ddof <= 0:
            return nan
        m = sum(v) / len(v)
        return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - ddof))

    def var(self, ddof=1):
        return self.std(ddof) ** 2

    def median(self):
        v = _num(self._v)
        return float(np.median(v)) if v else nan

    def sum(self, *a, **k):
        v = [x for x in self._v if not isna(x)]
        return sum(v) if v else 0

    def count(self):
        return len([x for x in self._v if not isna(x)])

    def min(self, *a, **k):
        v = [x for x in self._v if not isna(x)]
        return min(v) if v else nan

    def max(self, *a, **k):
        v = [x for x in self._v if not isna(x)]
        return max(v) if v else nan

    def any(self):
        return any(bool(x) for x in self._v)

    def all(self):
        return all(bool(x) for x in self._v)

    def map(self, f, **k):
        return Series([f[x] if isinstance(f, dict) else f(x) for x in self._v], self._i, self.name)

    def apply(self, f, *a, **k):
        return Series([f(x) for x in self._v], self._i, self.name)

    def head(self, n=5):
        return self[:n] if n >= 0 else self[:len(self) + n]

    def tail(self, n=5):
        return self[max(0, len(self) - n):] if n > 0 else self[len(self):]

    def copy(self, deep=True):
        return Series(list(self._v), list(self._i), self.name)

    def reset_index(self, drop=False, **k):
        return Series(self._v, None, self.name)

    def sort_values(self, ascending=True, **k):
        o = sorted(range(len(self._v)), key=lambda i: self._v[i], reverse=not ascending)
        return Series([self._v[i] for i in o], [self._i[i] for i in o], self.name)

    def idxmax(self):
        return self._i[max(range(len(self._v)), key=lambda i: self._v[i])]

    def idxmin(self):
        return self._i[min(range(len(self._v)), key=lambda i: self._v[i])]

    def items(self):
        return iter(zip(self._i, self._v))

    def to_dict(self):
        return dict(zip(self._i, self._v))

    def equals(self, o):
        return len(self) == len(o) and all(_key(a) == _key(b) for a, b in zip(self._v, o._v))

    def item(self):
        assert len(self._v) == 1
        return self._v[0]

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().')

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        if k in self._i:
            return self._v[self._i.index(k)]
        raise StubGap('pandas.Series.%s' % k)


class _GroupBy:
    def __init__(self, df, by, sort=True, dropna=True):
        self.df, self.by, self.single = df, [by] if isinstance(by, str) else list(by), isinstance(by, str) or len(by) == 1
        self.g = {}
        for i in range(len(df)):
            k = tuple(df._d[c][i] for c in self.by)
            self.g.setdefault(tuple(_key(x) for x in k), (k, []))[1].append(i)
        ks = list(self.g)
        if sort:
            try:
                ks.sort()
            except TypeError:
                ks.sort(key=repr)
        self.order = ks

    def __iter__(self):
        for k in self.order:
            kk, rows = self.g[k]
            yield (kk[0] if isinstance(self.by, list) and len(self.by) == 1 else kk), self.df._take(rows)

    def __len__(self):
        return len(self.order)

    @property
    def ngroups(self):
        return len(self.order)

    def size(self):
        return Series([len(self.g[k][1]) for k in self.order], [(k[0] if len(k) == 1 else k) for k in self.order])

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        raise StubGap('groupby.%s' % k)


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        object.__setattr__(self, '_d', {})
        object.__setattr__(self, '_c', [])
        object.__setattr__(self, '_i', [])
        self._iname = None
        if data is None:
            data = []
        if isinstance(data, DataFrame):
            cols = list(columns) if columns is not None else list(data._c)
            object.__setattr__(self, '_i', list(data._i))
            for c in cols:
                self._d[c] = list(data._d.get(c, [nan] * len(data)))
            object.__setattr__(self, '_c', cols)
            if index is not None:
                object.__setattr__(self, '_i', list(index))
            return
        if isinstance(data, dict):
            cols = list(columns) if columns is not None else list(data)
            n = None
            for c in cols:
                v = data.get(c)
                if isinstance(v, (list, tuple, np.ndarray, Series, range, Index)):
                    m = len(v)
                    if n is not None and m != n:
                        raise ValueError('All arrays must be of the same length')
                    n = m
            if n is None:
                if index is None and data:
                    raise ValueError('If using all scalar values, you must pass an index')
                n = len(index) if index is not None else 0
            for c in cols:
                self._d[c] = _vals(data[c], n) if c in data else [nan] * n
                if not isinstance(data.get(c), (list, tuple, np.ndarray, Series, range, Index)) and c in data:
                    self._d[c] = [data[c]] * n
            object.__setattr__(self, '_c', cols)
            object.__setattr__(self, '_i', list(index) if index is not None else list(range(n)))
            return
        rows = list(data)
        if rows and isinstance(rows[0], dict):
            cols = list(columns) if columns is not None else []
            if columns is None:
                for r in rows:
                    for k in r:
                        if k not in cols:
                            cols.append(k)
            for c in cols:
                self._d[c] = [r.get(c, nan) for r in rows]
        elif rows and isinstance(rows[0], Series):
            cols = list(columns) if columns is not None else list(rows[0]._i)
            for c in cols:
                self._d[c] = [r._v[r._i.index(c)] if c in r._i else nan for r in rows]
        elif rows and not isinstance(rows[0], (list, tuple, np.ndarray)):
            cols = list(columns) if columns is not None else [0]
            self._d[cols[0]] = rows
        else:
            width = max([len(r) for r in rows] or [0])
            cols = list(columns) if columns is not None else list(range(width))
            if rows and len(cols) != width:
                raise ValueError('%d columns passed, passed data had %d columns' % (len(cols), width))
            for j, c in enumerate(cols):
                self._d[c] = [r[j] if j < len(r) else None for r in rows]
        object.__setattr__(self, '_c', cols)
        n = len(rows)
        object.__setattr__(self, '_i', list(index) if index is not None else list(range(n)))
        for c in cols:
            self._d.setdefault(c, [])

    # ---- structure
    def __len__(self):
        return len(self._i)

    @property
    def shape(self):
        return (len(self._i), len(self._c))

    @property
    def size(self):
        return len(self._i) * len(self._c)

    @property
    def empty(self):
        return not self._i or not self._c

    @property
    def columns(self):
        return Index(self._c)

    @columns.setter
    def columns(self, v):
        v = list(v)
        object.__setattr__(self, '_d', {b: self._d[a] for a, b in zip(self._c, v)})
        object.__setattr__(self, '_c', v)

    @property
    def index(self):
        return Index(self._i)

    @index.setter
    def index(self, v):
        object.__setattr__(self, '_i', list(v))

    @property
    def dtypes(self):
        return Series([_dtype(self._d[c]) for c in self._c], list(self._c))

    @property
    def values(self):
        return np.array([[self._d[c][i] for c in self._c] for i in range(len(self))],
                        dtype=_dtype([x for c in self._c for x in self._d[c]]))

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def iloc(self):
        return _Loc(self, True)

    @property
    def loc(self):
        return _Loc(self, False)

    at = loc
    iat = iloc

    def __contains__(self, k):
        return k in self._d

    def __iter__(self):
        return iter(self._c)

    def keys(self):
        return Index(self._c)

    def items(self):
        for c in self._c:
            yield c, self[c]

    def _take(self, rows):
        d = DataFrame()
        object.__setattr__(d, '_c', list(self._c))
        object.__setattr__(d, '_i', [self._i[i] for i in rows])
        object.__setattr__(d, '_d', {c: [self._d[c][i] for i in rows] for c in self._c})
        return d

    def __getitem__(self, k):
        if isinstance(k, Series) or (isinstance(k, (list, np.ndarray)) and len(k) and isinstance(k[0], (bool, np.bool_))):
            m = _vals(k)
            if len(m) != len(self):
                raise ValueError('Item wrong length %d instead of %d.' % (len(m), len(self)))
            return self._take([i for i, x in enumerate(m) if x])
        if isinstance(k, (list, Index, np.ndarray)):
            d = DataFrame()
            for c in k:
                if c not in self._d:
                    raise KeyError(c)
            object.__setattr__(d, '_c', list(k))
            object.__setattr__(d, '_i', list(self._i))
            object.__setattr__(d, '_d', {c: list(self._d[c]) for c in k})
            return d
        if isinstance(k, slice):
            return self._take(list(range(len(self)))[k])
        if k not in self._d:
            raise KeyError(k)
        return Series(self._d[k], self._i, k)

    def get(self, k, default=None):
        return self[k] if k in self._d else default

    def __setitem__(self, k, v):
        if isinstance(k, list):
            vv = v.values if isinstance(v, DataFrame) else v
            for j, c in enumerate(k):
                self[c] = [r[j] for r in vv] if isinstance(vv, (list, np.ndarray)) and np.ndim(vv) == 2 else v
            return
        n = len(self._i)
        if isinstance(v, (list, tuple, np.ndarray, Series, Index, range)):
            v = _vals(v)
            if not self._c and not self._i:
                object.__setattr__(self, '_i', list(range(len(v))))
            elif len(v) != n:
                raise ValueError('Length of values (%d) does not match length of index (%d)' % (len(v), n))
        else:
            v = [v] * n
        if k not in self._d:
            self._c.append(k)
        self._d[k] = v

    def __setattr__(self, k, v):
        if k in ('columns', 'index'):
            type(self).__dict__[k].fset(self, v)
        elif '_c' in self.__dict__ and k in self._d:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    def __delitem__(self, k):
        del self._d[k]
        self._c.remove(k)

    def pop(self, k):
        s = self[k]
        del self[k]
        return s

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        if k in self.__dict__.get('_d', {}):
            return self[k]
        raise StubGap('pandas.DataFrame.%s' % k)

    def insert(self, loc, column, value, allow_duplicates=False):
        self[column] = value
        self._c.remove(column)
        self._c.insert(loc, column)

    def assign(self, **kw):
        d = self.copy()
        for k, v in kw.items():
            d[k] = v(d) if callable(v) else v
        return d

    def copy(self, deep=True):
        return self._take(range(len(self)))

    def head(self, n=5):
        return self._take(list(range(len(self)))[:n])

    def tail(self, n=5):
        return self._take(list(range(len(self)))[max(0, len(self) - n):] if n > 0 else (list(range(len(self)))[-n:] if n < 0 else []))

    def reset_index(self, drop=False, inplace=False, **k):
        d = self.copy()
        if not drop:
            d.insert(0, 'index', list(d._i))
        object.__setattr__(d, '_i', list(range(len(d))))
        if inplace:
            self.__dict__.update(d.__dict__)
            return None
        return d

    def set_index(self, k, drop=True, inplace=False):
        d = self.copy()
        object.__setattr__(d, '_i', list(d._d[k]))
        if drop:
            del d[k]
        return d

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors='raise'):
        d = self.copy()
        if columns is None and axis in (1, 'columns'):
            columns = labels
        if columns is not None:
            for c in ([columns] if isinstance(columns, str) else columns):
                if c not in d._d:
                    if errors == 'ignore':
                        continue
                    raise KeyError(c)
                del d[c]
        else:
            s = set(_vals(index if index is not None else labels))
            d = d._take([i for i, x in enumerate(d._i) if x not in s])
        if inplace:
            self.__dict__.update(d.__dict__)
            return None
        return d

    def rename(self, columns=None, index=None, inplace=False, **k):
        d = self.copy()
        if columns:
            d.columns = [columns(c) if callable(columns) else columns.get(c, c) for c in d._c]
        if inplace:
            self.__dict__.update(d.__dict__)
            return None
        return d

    def duplicated(self, subset=None, keep='first'):
        cols = self._c if subset is None else ([subset] if isinstance(subset, str) else list(subset))
        ks = [tuple(_key(self._d[c][i]) for c in cols) for i in range(len(self))]
        out = [False] * len(ks)
        seen = set()
        rng = range(len(ks)) if keep != 'last' else range(len(ks) - 1, -1, -1)
        cnt = {}
        for k in ks:
            cnt[k] = cnt.get(k, 0) + 1
        for i in rng:
            out[i] = ks[i] in seen if keep else cnt[ks[i]] > 1
            seen.add(ks[i])
        return Series(out, self._i)

    def drop_duplicates(self, subset=None, keep='first', inplace=False, ignore_index=False):
        d = self[~self.duplicated(subset, keep)]
        if ignore_index:
            d = d.reset_index(drop=True)
        if inplace:
            self.__dict__.update(d.__dict__)
            return None
        return d

    def sort_values(self, by, ascending=True, inplace=False, ignore_index=False, kind=None, **k):
        by = [by] if isinstance(by, str) else list(by)
        o = sorted(range(len(self)), key=lambda i: tuple(self._d[c][i] for c in by), reverse=not ascending)
        d = self._take(o)
        if ignore_index:
            d = d.reset_index(drop=True)
        if inplace:
            self.__dict__.update(d.__dict__)
            return None
        return d

    def sort_index(self, **k):
        return self._take(sorted(range(len(self)), key=lambda i: self._i[i]))

    def groupby(self, by, sort=True, **k):
        return _GroupBy(self, by, sort)

    def isin(self, o):
        return DataFrame({c: self[c].isin(o).tolist() for c in self._c}, index=self._i)

    def isna(self):
        return isna(self)

    isnull = isna

    def notna(self):
        return DataFrame({c: [not isna(x) for x in self._d[c]] for c in self._c}, index=self._i)

    def dropna(self, subset=None, how='any', **k):
        cols = self._c if subset is None else subset
        f = any if how == 'any' else all
        return self._take([i for i in range(len(self)) if not f(isna(self._d[c][i]) for c in cols)])

    def fillna(self, v=None, **k):
        return DataFrame({c: [v if isna(x) else x for x in self._d[c]] for c in self._c}, index=self._i)

    def astype(self, t, **k):
        d = self.copy()
        for c in d._c:
            tt = t.get(c) if isinstance(t, dict) else t
            if tt is not None:
                d._d[c] = d[c].astype(tt)._v
        return d

    def iterrows(self):
        for i in range(len(self)):
            yield self._i[i], Series([self._d[c][i] for c in self._c], list(self._c), self._i[i])

    def itertuples(self, index=True, name='Pandas'):
        from collections import namedtuple
        cols = (['Index'] if index else []) + [str(c) for c in self._c]
        if name is None:
            T = lambda *a: tuple(a)
        else:
            T = namedtuple(name, cols, rename=True)
        for i in range(len(self)):
            r = ([self._i[i]] if index else []) + [self._d[c][i] for c in self._c]
            yield T(*r)

    def to_dict(self, orient='dict', **k):
        if orient == 'records':
            return [{c: self._d[c][i] for c in self._c} for i in range(len(self))]
        if orient == 'list':
            return {c: list(self._d[c]) for c in self._c}
        return {c: dict(zip(self._i, self._d[c])) for c in self._c}

    def to_records(self, index=True):
        raise StubGap('to_records')

    def equals(self, o):
        return self._c == o._c and len(self) == len(o) and all(_key(a) == _key(b) for c in self._c for a, b in zip(self._d[c], o._d[c]))

    def apply(self, f, axis=0, **k):
        if axis in (1, 'columns'):
            return Series([f(s) for _, s in self.iterrows()], self._i)
        return Series([f(self[c]) for c in self._c], list(self._c))

    def append(self, o, ignore_index=False):
        raise AttributeError("'DataFrame' object has no attribute 'append'")

    def all(self, axis=0):
        return Series([all(bool(x) for x in self._d[c]) for c in self._c], list(self._c))

    def any(self, axis=0):
        return Series([any(bool(x) for x in self._d[c]) for c in self._c], list(self._c))

    def mean(self, **k):
        return Series([self[c].mean() for c in self._c], list(self._c))

    def __eq__(self, o):
        raise StubGap('DataFrame ==')

    __hash__ = None

    def __repr__(self):
        return 'DataFrame(%d x %d)' % self.shape

    def to_string(self, *a, **k):
        return repr(self)

    def __bool__(self):
        raise ValueError('The truth value of a DataFrame is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().')

    # ---- CSV
    def to_csv(self, path_or_buf=None, sep=',', na_rep='', float_format=None, columns=None, header=True, index=True,
               index_label=None, mode='w', encoding=None, compression=None, quoting=None, quotechar='"', lineterminator=None,
               chunksize=None, date_format=None, doublequote=True, escapechar=None, decimal='.', errors='strict',
               storage_options=None, line_terminator=None):
        cols = list(columns) if columns is not None else list(self._c)

        def fmt(v):
            if isna(v):
                return na_rep
            if isinstance(v, (bool, np.bool_)):
                return 'True' if v else 'False'
            if isinstance(v, (float, np.floating)):
                return (float_format % v) if isinstance(float_format, str) else repr(float(v))
            if isinstance(v, np.integer):
                return str(int(v))
            return str(v)
        # like the library, an integer column that holds missing values is written as floats
        kinds = {}
        for c in cols:
            v = self._d[c]
            hasna = _b.any(isna(x) for x in v)
            allnum = _b.all(isna(x) or (isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))) for x in v)
            anyf = _b.any(isinstance(x, (float, np.floating)) and not isna(x) for x in v)
            kinds[c] = bool(v) and allnum and (hasna or anyf)

        def cell(c, v):
            if kinds[c] and not isna(v):
                v = float(v)
            return fmt(v)

        def write(f):
            w = csv.writer(f, delimiter=sep, lineterminator=lineterminator or line_terminator or '\n')
            if header:
                names = cols if header is True else list(header)
                w.writerow(([index_label if index_label is not None else ''] if index else []) + [str(c) for c in names])
            for i in range(len(self)):
                w.writerow(([fmt(self._i[i])] if index else []) + [cell(c, self._d[c][i]) for c in cols])
        if path_or_buf is None:
            s = io.StringIO()
            write(s)
            return s.getvalue()
        if hasattr(path_or_buf, 'write'):
            if isinstance(path_or_buf, (io.RawIOBase, io.BufferedIOBase)) or 'b' in str(getattr(path_or_buf, 'mode', '')):
                s = io.StringIO()
                write(s)
                path_or_buf.write(s.getvalue().encode())
            else:
                write(path_or_buf)
            return None
        parent = os.path.dirname(str(os.fspath(path_or_buf)))
        if parent and not os.path.isdir(parent) and 'r' not in mode:
            raise OSError("Cannot save file into a non-existent directory: '%s'" % parent)
        with open(path_or_buf, mode, encoding=encoding or 'utf-8', errors=errors, newline='') as f:
            write(f)
        return None

    def to_pickle(self, path, *a, **k):
        import pickle
        with open(path, 'wb') as f:
            pickle.dump((self._c, self._d, self._i), f)

    def to_json(self, *a, **k):
        raise StubGap('to_json')

    def to_parquet(self, *a, **k):
        raise StubGap('to_parquet')


_NA = {'', 'nan', 'NaN', 'NA', 'N/A', 'null', 'NULL', 'None', 'n/a', '<NA>', '#N/A', '-nan', '-NaN', '#NA', '1.#IND', '1.#QNAN', '#N/A N/A', '-1.#IND', '-1.#QNAN'}


def _convert(v, keep_default_na=True):
    na = _NA if keep_default_na else set()
    body = [x for x in v if x not in na]
    if body:
        try:
            r = [int(x) for x in body]
            if len(body) == len(v) and _b.all(x.strip().lstrip('+-').isdigit() for x in body):
                return [np.int64(x) if abs(x) < 1 << 63 else x for x in r]
            if _b.all(x.strip().lstrip('+-').isdigit() for x in body):
                return [nan if x in na else float(x) for x in v]
        except ValueError:
            pass
        try:
            [float(x) for x in body]
            return [nan if x in na else float(x) for x in v]
        except ValueError:
            pass
        if len(body) == len(v) and _b.all(x in ('True', 'False', 'TRUE', 'FALSE', 'true', 'false') for x in body):
            return [x.lower() == 'true' for x in v]
        return [nan if x in na else x for x in v]
    return [nan for _ in v]


def read_csv(filepath_or_buffer, sep=',', delimiter=None, header='infer', names=None, index_col=None, usecols=None, dtype=None,
             engine=None, skiprows=None, nrows=None, na_values=None, keep_default_na=True, encoding=None, float_precision=None,
             on_bad_lines='error', low_memory=True, skip_blank_lines=True, **kw):
    if hasattr(filepath_or_buffer, 'read'):
        text = filepath_or_buffer.read()
        if isinstance(text, bytes):
            text = text.decode()
    else:
        with open(filepath_or_buffer, 'r', encoding=encoding or 'utf-8', newline='') as f:
            text = f.read()
    if '\0' in text:
        raise ParserError('Error tokenizing data. C error: null byte')
    if text.count('"') % 2:
        raise ParserError('Error tokenizing data. C error: EOF inside string')
    rows = [r for r in csv.reader(io.StringIO(text), delimiter=delimiter or sep) if r or not skip_blank_lines]
    if skiprows:
        rows = rows[skiprows:] if isinstance(skiprows, int) else [r for i, r in enumerate(rows) if i not in set(skiprows)]
    if not rows:
        raise EmptyDataError('No columns to parse from file')
    if header is None or names is not None and header == 'infer':
        hdr = list(names) if names is not None else list(range(len(rows[0])))
        body = rows
    else:
        hdr, body = list(rows[0]), rows[1:]
        hdr = [h if h else 'Unnamed: %d' % i for i, h in enumerate(hdr)]
        seen = {}
        for i, h in enumerate(hdr):
            if h in seen:
                seen[h] += 1
                hdr[i] = '%s.%d' % (h, seen[h])
            else:
                seen[h] = 0
        if names is not None:
            hdr = list(names)
    if nrows is not None:
        body = body[:nrows]
    for n, r in enumerate(body):
        if len(r) > len(hdr):
            raise ParserError('Error tokenizing data. C error: Expected %d fields in line %d, saw %d' % (len(hdr), n + 2, len(r)))
    cols = {h: _convert([r[j] if j < len(r) else '' for r in body], keep_default_na) for j, h in enumerate(hdr)}
    order = list(hdr)
    idx = None
    if index_col is not None and index_col is not False:
        ic = order[index_col] if isinstance(index_col, int) else index_col
        idx = cols.pop(ic)
        order.remove(ic)
    if usecols is not None:
        order = [c for c in order if c in list(usecols)]
    df = DataFrame({c: cols[c] for c in order}, columns=order, index=idx if idx is not None else range(len(body)))
    if dtype is not None:
        df = df.astype(dtype)
    return df


def concat(objs, axis=0, join='outer', ignore_index=False, keys=None, sort=False, verify_integrity=False, copy=None):
    objs = list(objs.values()) if isinstance(objs, dict) else list(objs)
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError('No objects to concatenate')
    if axis in (1, 'columns'):
        raise StubGap('concat axis=1')
    if isinstance(objs[0], Series):
        return Series([v for o in objs for v in o._v], None if ignore_index else [i for o in objs for i in o._i])
    cols = []
    for o in objs:
        for c in o._c:
            if c not in cols:
                cols.append(c)
    if join == 'inner':
        cols = [c for c in cols if _b.all(c in o._d for o in objs)]
    if sort:
        cols.sort()
    d = {c: [] for c in cols}
    idx = []
    for o in objs:
        for c in cols:
            d[c] += list(o._d[c]) if c in o._d else [nan] * len(o)
        idx += list(o._i)
    return DataFrame(d, columns=cols, index=range(len(idx)) if ignore_index else idx)


def to_numeric(s, errors='raise', **k):
    return s.astype(float) if isinstance(s, Series) else float(s)


def unique(v):
    return Series(v).unique()


def read_pickle(path, *a, **k):
    import pickle
    with open(path, 'rb') as f:
        c, d, i = pickle.load(f)
    return DataFrame(d, columns=c, index=i)


def set_option(*a, **k):
    pass


class _Options:
    def __getattr__(self, k):
        return self


options = _Options()


def __getattr__(k):
    if k.startswith('__'):
        raise AttributeError(k)
    raise StubGap('pandas.%s' % k)
