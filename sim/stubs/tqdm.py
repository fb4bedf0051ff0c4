"""Progress bars that show nothing (the real ones keep a clock, a lock and a thread of their own)."""


class tqdm:
    def __init__(self, iterable=None, *a, total=None, **k):
        self.iterable, self.n, self.total = iterable, 0, total if total is not None else len(iterable) if hasattr(iterable, '__len__') else None

    def __iter__(self):
        for x in self.iterable:
            yield x
            self.n += 1

    def __len__(self):
        return self.total or 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, n=1):
        self.n += n

    def close(self, *a, **k):
        pass

    refresh = clear = reset = set_description = set_postfix = set_postfix_str = set_description_str = close

    @staticmethod
    def write(s, *a, **k):
        print(s)


def trange(*a, **k):
    return tqdm(range(*a), **k)
