"""Scripted files: the framing of a file is known, the contents of the payloads are not.

A script is a tree of objects.  Their headers become known bytes of the abstract file, everything
else is arbitrary.  The results of parse methods are tokens, one for each object, so that what ends
up where can be told apart; how payloads are decoded is the subject of other properties.
"""
import struct
from sa.terms import *
from sa import terms as TM
from sa import lib as L
from sa import model, interp as IN
from . import fileio
from .fileio import PLAIN, PATH
from .layout import CL

SYNC = struct.pack('<I', 0xd41f8a37)
EOF = 'EOF'         # parsing fails because the file ends
BAD = 'BAD'         # parsing fails for another reason


class Ob:
    """an object of the script; result: what parse returns, default is a token"""

    def __init__(self, typ, ident=0, subs=None, result=None, payload=None, size=48, version=0, name=None, ext=False):
        self.type, self.id, self.subs, self.result = typ, ident, subs, result
        self.payload, self.psize, self.version = payload, size, version
        self.name = name
        self.ext = ext          # the header has an extension
        self.token = None

    def body(self):
        """(known bytes by offset, size)"""
        if self.subs is None:
            if self.payload is not None:
                return dict(enumerate(self.payload)), max(len(self.payload), self.psize)
            return {}, self.psize
        out, pos = {}, 0
        for s in self.subs:
            k, n = s.total(False)
            for o, b in k.items():
                out[pos + o] = b
            pos += n
        return out, pos

    def total(self, top):
        k, n = self.body()
        h = (SYNC if top else b'') + struct.pack('<IiI', self.type | self.version << 20 | self.ext << 17, self.id,
                                                 n | (1 << 30 if self.subs is not None else 0)) + bytes(4 if self.ext else 0)
        out = dict(enumerate(h))
        for o, b in k.items():
            out[len(h) + o] = b
        return out, len(h) + n

    def place(self, start, top, table):
        """addresses of the payloads"""
        self.address = start + (16 if top else 12) + (4 if self.ext else 0)
        table[self.address] = self
        pos = self.address
        for s in self.subs or ():
            pos = s.place(pos, False, table)
        return pos if self.subs is not None else self.address + self.body()[1]


COUNT = [0]


class Script:
    def __init__(self, objects=(), base=None, start=0):
        """base: script that these objects continue; start: or their position"""
        self.objects = (base.objects if base else []) + list(objects)
        self.table = dict(base.table) if base else {}
        self.known = dict(base.known) if base else {}
        pos = base.size if base else start
        self.ends = list(base.ends) if base else []
        for o in objects:
            k, n = o.total(True)
            for q, b in k.items():
                self.known[pos + q] = b
            o.place(pos, True, self.table)
            o.start = pos
            pos += n
            self.ends.append(pos)
        self.size = pos
        for a in sorted(self.table):
            if self.table[a].token is None:
                COUNT[0] += 1
                self.table[a].token = 'T%d' % COUNT[0]


def token(o, suffix=''):
    return sym('%s%s' % (o.token, suffix), 'arr')


CURRENT = [None]        # script of the run


def value(I, st, v, o, args=()):
    """term of a Python description of a result; '$' and '$x' are tokens of the object, 'ARG' the argument of parse"""
    if isinstance(v, str) and v == 'ARG':
        return args[0] if args else NONE
    if isinstance(v, dict):
        return I.new_dict(st, [(C(k), value(I, st, x, o, args)) for k, x in v.items()])
    if isinstance(v, list):
        return I.new_list(st, [value(I, st, x, o) for x in v])
    if isinstance(v, tuple):
        return tup(*[value(I, st, x, o) for x in v])
    if isinstance(v, str) and v.startswith('$'):
        return token(o, v[1:])
    return C(v)


def parse_summary(I, st, args, kw):
    o = args[0]
    c = I.cell(st, o) if o.k == 'ref' else None
    if c is None or c.kind != 'inst' or CURRENT[0] is None:
        return NotImplemented
    a = I.getattr(st, o, 'address')
    if not is_c(a) or cv(a) not in CURRENT[0].table:
        return NotImplemented
    ob = CURRENT[0].table[cv(a)]
    res = ob.result if ob.result is not None else {'what': '$'}
    if res == EOF:
        I.throw(st, I.exc('EOFError', C('truncated')))
    if res == BAD:
        I.throw(st, I.exc('ValueError', C('malformed')))
    if res == 'REAL':
        return NotImplemented
    return value(I, st, res, ob, list(args[1:]) + list(kw.values()))


def analysis(script=None, kind='plain', parse=True):
    from .layout import analysis as base
    I = base(happy=False, obj=False, extra=fileio.environment(kind))
    I.concrete = True
    if parse:
        b = model.base_class(I)
        st = IN.State(dict(I.heap0))
        plain = I.class_attr(st, b, 'parse')
        for c in model.object_classes(I):
            m = I.class_attr(st, c, 'parse')
            if m is not None and m is not plain and m in IN.FUNCS:
                I.summaries[IN.FUNCS[m].qual] = parse_summary
    return I


def in_steps(I):
    """generators run in steps"""
    from sa import coro
    I.module('spec.runtime')
    I.lazy = True

    def of(name):
        def f(I, st, args, kw):
            a = list(args)
            if name == 'islice':
                a = (a + [ZERO, ONE])[:4] + [C(len(args) - 1)] if len(args) < 4 else a + [C(3)]
            return I.call(st, I.lookup_qual('spec.runtime', name), a, kw)
        return f
    for n, m in (('itertools.islice', 'islice'), ('itertools.chain', 'chain'), ('itertools.chain.from_iterable', 'chained'), ('itertools.takewhile', 'takewhile'),
                 ('itertools.dropwhile', 'dropwhile'), ('filter', 'filtered'), ('builtins.filter', 'filtered'), ('itertools.filterfalse', 'filterfalse'),
                 ('itertools.count', 'count')):
        I.summaries['ext:' + n] = of(m)
    I.summaries['spec.runtime.resume'] = coro.resume
    return I


ENDLESS = 1 << 40


def begin(I, st, script, size=None, kind='plain', endless=False):
    """the file holds the script, possibly cut to a number of bytes; endless: and unknown things behind it"""
    from sa.libcalls import LIMIT
    n = script.size if size is None else size
    L.PREFIX.clear()
    L.KNOWN.clear()
    LIMIT.clear()
    if endless:
        LIMIT[PLAIN] = n
        n = ENDLESS
    L.KNOWN[PLAIN] = {k: b for k, b in script.known.items() if k < n}
    fileio.FS_VALUE[0] = C(n)
    CURRENT[0] = script


# --------------------------------------------------------------------------- looking at the results
class View:
    """terms and heap objects as Python values"""

    def __init__(self, I, st):
        self.I, self.st = I, st

    def __call__(self, t):
        t = self.I.simp(self.st, t)
        if t.k == 'ref':
            c = self.I.cell(self.st, t)
            if c.kind == 'dict':
                if c.s.get('dyn', L.EMPTY) is not L.EMPTY:
                    raise Undecidable('dictionary with symbolic keys')
                return {self(k[1]): self(v) for k, v in c.s.items()
                        if isinstance(k, tuple) and k[0] == 'k' and v is not IN.UNDEF}
            if c.kind == 'list':
                return self(c.s['items'])
            if c.kind == 'inst':
                return Inst(CL(c.meta['cls']).qual)
            return self.frozen(self.I.freeze(self.st, t))
        return self.frozen(t)

    def frozen(self, t):
        if t.k == 'list':
            return [self(x) for x in t.a]
        if t.k == 'tup':
            return tuple(self(x) for x in t.a)
        if t.k == 'dict':
            return {self(k): self(v) for k, v in t.a[0]}
        if is_c(t):
            return cv(t)
        if t.k == 'nt':
            return self(t.a[1])
        if t.k != 'sym':
            raise Undecidable('a value is computed from contents: %s' % show(t)[:100])
        return Tok(t)


class Tok:
    """an opaque value"""

    def __deepcopy__(self, memo):
        return self

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Tok) and (o.t is self.t)

    def __hash__(self):
        return hash(id(self.t))

    def __repr__(self):
        return show(self.t)[:60]


class Inst:
    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, Inst) and o.q == self.q

    def __hash__(self):
        return hash(self.q)

    def __repr__(self):
        return '<%s>' % self.q


def expect(v, o, args=()):
    """the expected result of parsing an object, as Python value"""
    if isinstance(v, dict):
        return {k: expect(x, o, args) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(expect(x, o, args) for x in v)
    if isinstance(v, str) and v == 'ARG':
        return args[0] if args else None
    if isinstance(v, str) and v.startswith('$'):
        return Tok(token(o, v[1:]))
    return v


def parsed(o):
    return expect(o.result if o.result is not None else {'what': '$'}, o)


def paused(I, st, f):
    """like attempt, but also ('pause', None) when the file is asked for more than what is known"""
    from sa.libcalls import Pause
    depth = [len(x) for x in (I.frames, I.rets, I.brks, I.conts, I.raises, I.stack, I.sites)]
    brks, conts, d = I.brks, I.conts, I.depth
    try:
        return attempt(I, st, f)
    except Pause as e:
        if e.args[0].pc is not TRUE:
            raise Undecidable('the end is reached on one of several paths')
        st.become(e.args[0].snap())
        I.paused_at = [(f.qual, getattr(n, 'lineno', 0), st.heap[k]) for (k, f), n in
                       zip(e.args[1][depth[0]:], e.args[2][depth[6]:]) if k in st.heap]
        I.brks, I.conts, I.depth = brks, conts, d
        for x, n in zip((I.frames, I.rets, I.brks, I.conts, I.raises, I.stack, I.sites), depth):
            del x[n:]
        return 'pause', None


def attempt(I, st, f):
    """('value', term) or ('raise', class name); st becomes the state afterwards; None if it depends on unknown values"""
    I.raises.append([])
    try:
        v = f(st)
        dead = False
    except IN.Dead:
        dead, v = True, None
    caught = I.raises.pop()
    caught = [(s, e) for s, e in caught if s.pc is not FALSE]
    if dead and len(caught) == 1:
        s, e = caught[0]
        st.become(s)
        from sa import equiv
        return 'raise', equiv.exc_name(e)
    if not dead and not caught:
        return 'value', v
    raise Undecidable('the outcome depends on unknown contents')
