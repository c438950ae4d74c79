"""Library classes that the printing tools use."""


class Counter:
    def __init__(self, it=None):
        self.__contents__ = {}
        if it is not None:
            self.update(it)

    def update(self, it):
        if isinstance(it, Counter):
            for k, n in it.__contents__.items():
                self.__contents__[k] = self.__contents__.get(k, 0) + n
        elif isinstance(it, dict):
            for k, n in it.items():
                self.__contents__[k] = self.__contents__.get(k, 0) + n
        else:
            for k in it:
                self.__contents__[k] = self.__contents__.get(k, 0) + 1

    def __getitem__(self, k):
        return self.__contents__.get(k, 0)

    def __setitem__(self, k, n):
        self.__contents__[k] = n

    def get(self, k, default=None):
        return self.__contents__.get(k, default)

    def __iter__(self):
        return iter(self.__contents__)

    def __len__(self):
        return len(self.__contents__)

    def __contains__(self, k):
        return k in self.__contents__

    def items(self):
        return self.__contents__.items()

    def keys(self):
        return self.__contents__.keys()

    def values(self):
        return self.__contents__.values()

    def __add__(self, other):
        c = Counter(self)
        c.update(other)
        return c

    def __iadd__(self, other):
        self.update(other)
        return self

    def __or__(self, other):
        c = Counter(self)
        for k, n in other.items():
            c[k] = max(c[k], n)
        return c

    def __and__(self, other):
        c = Counter()
        for k, n in self.items():
            if min(n, other[k]) > 0:
                c[k] = min(n, other[k])
        return c

    def __sub__(self, other):
        c = Counter()
        for k, n in self.items():
            if n > other[k]:
                c[k] = n - other[k]
        return c

    def total(self):
        return sum(self.values())

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda x: -x[1])
        return r if n is None else r[:n]

    def subtract(self, it):
        for k, n in Counter(it).items():
            self[k] = self[k] - n
