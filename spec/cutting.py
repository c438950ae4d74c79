"""Command lines and output files for the analysis of tools."""


def command_line():
    """summarised by the analysis: the arguments of the tool"""


def finish(handle):
    """summarised by the analysis: an output file is complete"""


class Arguments:
    pass


class Option:
    def __init__(self, names, kw):
        self.names = names
        self.kw = kw
        self.optional = names[0].startswith('-')
        dest = kw.get('dest')
        if dest is None:
            dest = names[0]
            for n in names:
                if n.startswith('--'):
                    dest = n
                    break
            dest = dest.lstrip('-').replace('-', '_')
        self.dest = dest


class Parser:
    """positional arguments in their order, options with their defaults"""

    def __init__(self, **kw):
        self.options = []

    def add_argument(self, *names, **kw):
        o = Option(names, kw)
        self.options.append(o)
        return o

    def add_argument_group(self, *a, **kw):
        return self

    def add_mutually_exclusive_group(self, *a, **kw):
        return self

    def option(self, name):
        for o in self.options:
            if o.optional and name in o.names:
                return o
        raise SystemExit(2)

    def convert(self, o, v):
        t = o.kw.get('type')
        if t is None:
            return v
        try:
            return t(v)
        except (ValueError, TypeError):
            raise SystemExit(2)

    def parse_args(self, args=None):
        given = command_line() if args is None else args
        ns = Arguments()
        for o in self.options:
            if o.optional:
                action = o.kw.get('action')
                default = False if action == 'store_true' else True if action == 'store_false' else None
                setattr(ns, o.dest, o.kw.get('default', default))
        words = []
        k = 0
        while k < len(given):
            w = given[k]
            k = k + 1
            if not w.startswith('-') or len(w) == 1:
                words.append(w)
                continue
            o = self.option(w)
            action = o.kw.get('action')
            if action == 'store_true':
                setattr(ns, o.dest, True)
            elif action == 'store_false':
                setattr(ns, o.dest, False)
            elif o.kw.get('nargs') is None:
                setattr(ns, o.dest, self.convert(o, given[k]))
                k = k + 1
            else:
                n = o.kw['nargs']
                setattr(ns, o.dest, [self.convert(o, x) for x in given[k:k + n]])
                k = k + n
        k = 0
        for o in self.options:
            if not o.optional:
                if k >= len(words):
                    raise SystemExit(2)
                v = self.convert(o, words[k])
                k = k + 1
                setattr(ns, o.dest, v)
        if k < len(words):
            raise SystemExit(2)
        return ns


class Output:
    """a file that is being written"""

    def __init__(self, path, kind, mode, number):
        self.path = path
        self.kind = kind
        self.mode = mode
        self.number = number
        self.parts = []
        self.closed = False

    def write(self, data):
        if self.closed:
            raise ValueError
        self.parts.append(data)
        return len(data)

    def writelines(self, many):
        for d in many:
            self.write(d)

    def writable(self):
        return True

    def flush(self):
        pass

    def tell(self):
        n = 0
        for p in self.parts:
            n = n + len(p)
        return n

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()
