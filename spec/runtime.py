"""Iterators of the language and its library, for analyses in which generators run in steps."""


def resume(number, steps):
    """summarised by the analysis: the next element of a generator"""


class Generator:
    def __init__(self, number, steps):
        self.number = number
        self.steps = steps

    def __iter__(self):
        return self

    def __next__(self):
        k = self.steps
        self.steps = k + 1
        return resume(self.number, k)

    def close(self):
        pass


def islice(it, start, stop=0, step=1, bounds=1):
    if bounds == 1:
        start, stop = 0, start
    it = iter(it)
    k = 0
    while stop is None or k < stop:
        try:
            x = next(it)
        except StopIteration:
            return
        if k >= start and (k - start) % step == 0:
            yield x
        k = k + 1


def chain(*its):
    for it in its:
        for x in it:
            yield x


def chained(its):
    for it in its:
        for x in it:
            yield x


def takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def dropwhile(f, it):
    skip = True
    for x in it:
        if skip and f(x):
            continue
        skip = False
        yield x


def filtered(f, it):
    for x in it:
        if f is None:
            if x:
                yield x
        elif f(x):
            yield x


def filterfalse(f, it):
    for x in it:
        if not f(x):
            yield x


def count(start=0, step=1):
    while True:
        yield start
        start = start + step


class Match:
    """match of a regular expression; groups and positions by number, numbers of the named groups"""

    def __init__(self, texts, spans, names):
        self.texts = texts
        self.spans = spans
        self.names = names

    def group(self, *which):
        if not which:
            return self.texts[0]
        if len(which) == 1:
            return self[which[0]]
        return tuple([self[w] for w in which])

    def __getitem__(self, w):
        if isinstance(w, str):
            w = self.names[w]
        return self.texts[w]

    def groups(self, default=None):
        return tuple([default if t is None else t for t in self.texts[1:]])

    def groupdict(self, default=None):
        return {n: default if self.texts[k] is None else self.texts[k] for n, k in self.names.items()}

    def start(self, k=0):
        return self.spans[k][0]

    def end(self, k=0):
        return self.spans[k][1]

    def span(self, k=0):
        return self.spans[k]
