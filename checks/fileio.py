"""Files, framing and payload access of the base classes (C01 to C04)."""
from sa.terms import *
from sa import terms as TM
from sa import lib as L
from sa import equiv, model, interp as IN, front
from .core import Anchor
from .layout import analysis

FS = sym('filesize', rng=(0, 1 << 41))


def havoc(I, st, fh, k):
    """something else has moved the shared file handle"""
    I.put(st, fh, 'pos', sym('elsewhere%d' % k, rng=(0, 1 << 41)))


def run(I, f, st=None):
    """Outcome of a driver written in Python: f(I, st) -> value term"""
    st = st or IN.State(dict(I.heap0))
    I.raises.append([])
    I.rets.append([])
    out = IN.Outcome()
    try:
        out.value = f(I, st)
        out.ret = st.pc
    except IN.Dead:
        out.value, out.ret = IN.UNDEF, FALSE
    finally:
        I.rets.pop()
        out.raises = I.raises.pop()
    out.state = st
    return out


def spec_call(I, mod, name, args, assume=None):
    st = IN.State(dict(I.heap0))
    if assume is not None:
        I.assume(st, assume)
    f = I.lookup_qual(mod, name)
    args = [a(I, st) if callable(a) else a for a in args]
    return I.run(f, args, {}, st)


def S(name, lo=None, hi=None):
    return sym(name, rng=(lo, hi)) if lo is not None else sym(name, rng=(-(1 << 40), 1 << 40))


PAYLOAD_SEQ = [
    ('seek then read, tell, read, tell', [('seek', ['a']), ('read', ['n']), ('tell', []), ('read', ['m']), ('tell', [])]),
    ('read everything, then again', [('read', []), ('tell', []), ('read', []), ('seek', ['a']), ('read', []), ('tell', [])]),
    ('read, seek relative, read', [('read', ['n']), ('seek', ['a', 1]), ('tell', []), ('read', ['m']), ('tell', [])]),
    ('seek from the end, read', [('seek', ['a', 2]), ('tell', []), ('read', ['n']), ('seek', ['b', 1]), ('read', [])]),
    ('seek twice', [('seek', ['a']), ('seek', ['b', 0]), ('tell', []), ('read', ['n'])]),
    ('invalid mode', [('seek', ['a', 3])]),
    ('seek, seek relative, seek from end', [('seek', ['a']), ('seek', ['b', 1]), ('read', ['n']), ('seek', ['c', 2]), ('read', ['m'])]),
]


def payload_unit(r, name, seq, tries, want, seed):
    I = analysis(happy=False, obj=False)
    base = model.base_class(I)
    if base is None:
        raise Anchor('EventIOObject')
    where = []
    for m in ('read', 'seek', 'tell'):
        f = IN.FUNCS.get(I.class_attr(IN.State(dict(I.heap0)), base, m))
        if f is None:
            raise Anchor('EventIOObject.' + m)
        where.append(front.loc(f.node))
    addr, size = sym('address', rng=(16, 1 << 41)), sym('size', rng=(0, 1 << 41))

    def arg(x):
        return S(x) if isinstance(x, str) else C(x)

    def drive(I, st):
        fh = model.stream(I, st, size=FS)
        h = model.header(I, st, model.TYPE, addr=addr, size=size)
        o = I.instantiate(st, base, [h, fh], {})
        out = []
        for k, (op, args) in enumerate(seq):
            havoc(I, st, fh, k)
            out.append(I.freeze(st, I.call_method(st, o, op, [arg(x) for x in args])))
        return TM.lst(*out) if hasattr(TM, 'lst') else L.lst(*out)
    out = run(I, drive)
    I.module('spec.files')

    def ops(I, st):
        return I.new_list(st, [tup(C(op), tup(*[arg(x) for x in args])) for op, args in seq])
    s = spec_call(I, 'spec.files', 'sequence', [L.bs(model.F, ZERO, FS), addr, size, ops])
    sv = I.freeze(s.state, s.value) if s.ret is not FALSE else IN.UNDEF
    res, ref = {}, {}
    for k, (op, args) in enumerate(seq):
        n = 'step %d: %s(%s)' % (k + 1, op, ', '.join(map(str, args)))
        ref[n] = L.titem(sv, C(k)) if sv is not IN.UNDEF else IN.UNDEF
        res[n] = L.titem(out.value, C(k)) if out.value is not IN.UNDEF else IN.UNDEF

    def fixed(s):
        return {'address': 16 + s % 40, 'size': (s * 7) % 40, 'filesize': (16 + s % 40) + (s * 7) % 40 + (0, 0, -3, 20)[s % 4],
                **{x: (s * p) % 23 - (5 if s % 3 == 0 else 0) for x, p in (('a', 3), ('b', 11), ('c', 5), ('n', 13), ('m', 17))}}
    V = equiv.compare(equiv.Side(I, out, res), equiv.Side(I, s, ref), want=want, tries=tries, seed=seed, fixed=fixed, eofs=())
    r.verdict(V, 'payload view', name, ' '.join(where))
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def payload_units(pid, tier, seed):
    t, w = (400, 100) if tier == 'quick' else (6000, 2000)
    return [(payload_unit, n, (n, s, t, w, seed)) for n, s in PAYLOAD_SEQ]


# --------------------------------------------------------------------------- whole files
PATH = sym('path', 'str')
# content of the file on disk and of its decompressed form
DISK, PLAIN = sym('DISK', 'bytes'), model.F
DISKSIZE = sym('disksize', rng=(0, 1 << 41))
FS_VALUE = [None]


def fsize():
    return FS if FS_VALUE[0] is None else FS_VALUE[0]


def environment(kind):
    """models of the functions that open files; kind: plain, gzip, zstd"""
    def disk(I, st, mode='rb'):
        if kind == 'plain':
            return I.alloc(st, 'bio', {'buf': PLAIN, 'pos': ZERO}, {'size': fsize(), 'file': 'disk'})
        return I.alloc(st, 'bio', {'buf': DISK, 'pos': ZERO}, {'size': DISKSIZE, 'file': 'disk'})

    def clear(I, st, how):
        return I.alloc(st, 'bio', {'buf': PLAIN, 'pos': ZERO}, {'size': fsize(), 'clamp': True, 'file': how})

    def op(I, st, args, kw):
        L_effect(I, st, 'open', args, kw)
        return disk(I, st)

    def gz(I, st, args, kw):
        L_effect(I, st, 'gzip.open', args, kw)
        if kind != 'gzip':
            I.throw(st, I.exc('OSError'))
        return clear(I, st, 'gzip')

    def popen(I, st, args, kw):
        L_effect(I, st, 'Popen', args, kw)
        I.throw(st, I.exc('OSError'), opaque_atom('no-program', C(1)))
        out = clear(I, st, 'pipe')
        err = I.alloc(st, 'bio', {'buf': sym('STDERR', 'bytes'), 'pos': ZERO}, {'size': sym('nerr', rng=(0, 1 << 20))})
        cls = I.lookup_qual('spec.files', 'Process')
        return I.instantiate(st, cls, [out, err], {})

    def zd(I, st, args, kw):
        return I.instantiate(st, I.lookup_qual('spec.files', 'Zstd'), [], {})

    def zr(I, st, args, kw):
        if kind != 'zstd':
            I.throw(st, I.exc('OSError'))
        return clear(I, st, 'zstd')

    def fstat(I, st, args, kw):
        return I.instantiate(st, I.lookup_qual('spec.files', 'Stat'), [fsize() if kind == 'plain' else DISKSIZE], {})

    def nothing(I, st, args, kw):
        return mk('app', 'finalizer', ty='obj')
    return {'ext:open': op, 'ext:builtins.open': op, 'ext:io.open': op, 'ext:gzip.open': gz, 'ext:gzip.GzipFile': gz,
            'ext:subprocess.Popen': popen, 'ext:zstandard.ZstdDecompressor': zd, 
            'ext:os.fstat': fstat, 'ext:weakref.finalize': nothing, 'ext:os.path.getsize': lambda I, st, a, k: fsize(),
            'ext:zstandard.open': zr}


def L_effect(I, st, name, args, kw):
    from sa import libcalls
    libcalls.effect(I, st, name, list(args) + list(kw.values()))


MARKER = {'plain': b'\x37\x8a\x1f\xd4', 'gzip': b'\x1f\x8b', 'zstd': b'\x28\xb5\x2f\xfd'}


def begin(I, st, kind):
    """the file is of that kind"""
    L.PREFIX.clear()
    L.PREFIX[PLAIN] = MARKER['plain']
    L.PREFIX[DISK] = MARKER[kind]
    I.assume(st, not_(lt(FS, C(4))))
    I.assume(st, not_(lt(DISKSIZE, C(4))))


def open_file(I, st, kind, **kw):
    """EventIOFile(path) by its own constructor, generic objects only"""
    cls = I.lookup_qual('eventio.base', 'EventIOFile')
    o = I.instantiate(st, cls, [PATH], {k: C(v) for k, v in kw.items()})
    return o


def generic_only(I, st):
    """no type is registered: which class belongs to a type is property C11"""
    k = I.lookup_qual('eventio.base', 'KNOWN_OBJECTS')
    c = st.heap[k.a[0]] if k.k == 'ref' else None
    if c is None:
        raise Anchor('KNOWN_OBJECTS')
    e = I.new_dict(st)
    st.heap[('mod', 'eventio.base')] = st.heap[('mod', 'eventio.base')].with_('KNOWN_OBJECTS', e)


HEADER = ('type', 'user', 'extended', 'version', 'id', 'only_subobjects', 'content_size', 'header_size', 'content_address')


def observe(I, st, o):
    """what a caller sees of an object"""
    def f(s, x):
        if x is NONE:
            return NONE
        h = I.getattr(s, x, 'header')
        d = {}
        for n in HEADER:
            d[n] = I.getattr(s, h, n)
        d['total_size'] = I.getattr(s, h, 'total_size')
        r = I.new_dict(s)
        for k, v in d.items():
            if k in ('user', 'extended', 'only_subobjects'):
                v = TM.truth(v)
            I.setitem(s, r, C(k), v)
        return I.freeze(s, r)
    return I.split(st, o, f)


def handle_of(I, st, o):
    """the stream that a file object reads from"""
    c = I.cell(st, o)
    for k, v in c.s.items():
        if v.k == 'ref' and I.cell(st, v).kind == 'bio':
            return v
    return None


def moved(I, st, fh, k):
    if fh is not None:
        I.put(st, fh, 'pos', sym('elsewhere%d' % k, rng=(0, 1 << 41)))


def step(I, st, o, op):
    """one operation; next? reports the end of the file as None"""
    if op == 'peek':
        return observe(I, st, I.call_method(st, o, 'peek', []))
    if op == 'next':
        return observe(I, st, I.call_method(st, o, '__next__', []))
    raise ValueError(op)


def position_attr(I, kind):
    """attributes of the file object that hold the position of the next header, found by comparing the state after one
    step with the reference"""
    def drive(I, st):
        begin(I, st, kind)
        generic_only(I, st)
        o = open_file(I, st, kind)
        I.call_method(st, o, '__next__', [])
        return o
    out = run(I, drive)
    if out.ret is FALSE:
        return []

    def ref(I, st):
        begin(I, st, kind)
        f = I.instantiate(st, I.lookup_qual('spec.files', 'File'), [L.bs(PLAIN, ZERO, FS), ZERO], {})
        I.call_method(st, f, 'next', [])
        return I.getattr(st, f, 'pos')
    s = run(I, ref)
    return tracking(I, out, s)


def tracking(I, out, s, fixed=None):
    """attributes of the object whose value is the position of the reference"""
    r = []
    for k, v in I.cell(out.state, out.value).s.items():
        if v is s.value:
            r.append(k)
        elif v.ty == 'int' and not is_c(v):
            a, b = equiv.Side(I, out, {'pos': v}), equiv.Side(I, s, {'pos': s.value})
            V = equiv.compare(a, b, want=40, tries=400, fixed=fixed or file_models, eofs=(), raises=False)
            if not V.violations and not V.undecided:
                r.append(k)
    return r


def history_unit(r, kind, ops, start, tries, want, seed, raises_only=False):
    I = analysis(happy=False, obj=False, extra=environment(kind))
    I.module('spec.files')
    cls = I.lookup_qual('eventio.base', 'EventIOFile')
    if cls is None:
        raise Anchor('EventIOFile')
    where = ' '.join(front.loc(IN.FUNCS[m].node) for m in (
        I.class_attr(IN.State(dict(I.heap0)), cls, n) for n in ('__next__', 'peek')) if m in IN.FUNCS)
    pos = ZERO
    attrs = []
    if start == 'anywhere':
        attrs = position_attr(I, kind)
        if not attrs:
            r.open('position', 'attribute with the position of the next header', where, 'not identified')
            return
        pos = sym('nextpos', rng=(0, 1 << 41))

    def drive(I, st):
        begin(I, st, kind)
        generic_only(I, st)
        o = open_file(I, st, kind)
        for a in attrs:
            I.put(st, o, a, pos)
        fh = handle_of(I, st, o)
        out = []
        for k, op in enumerate(ops):
            if kind == 'plain':
                moved(I, st, fh, k)
            out.append(step(I, st, o, op))
        return L.lst(*out)

    def ref(I, st):
        begin(I, st, kind)
        l = I.new_list(st, [C(x) for x in ops])
        f = I.lookup_qual('spec.files', 'history')
        return I.freeze(st, I.call(st, f, [L.bs(PLAIN, ZERO, FS), pos, l], {}))
    out, s = run(I, drive), run(I, ref)
    res, exp = {}, {}
    for k, op in enumerate(() if raises_only else ops):
        n = 'step %d: %s' % (k + 1, op)
        res[n] = L.titem(out.value, C(k)) if out.value is not IN.UNDEF else IN.UNDEF
        exp[n] = L.titem(s.value, C(k)) if s.value is not IN.UNDEF else IN.UNDEF
    V = equiv.compare(equiv.Side(I, out, res), equiv.Side(I, s, exp), want=want, tries=tries, seed=seed, fixed=file_models, eofs=())
    r.verdict(V, 'framing', '%s file, %s, %s' % (kind, start, ', '.join(ops)), where)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def file_models(s):
    """random files: mostly well formed at the place looked at, sizes around the end of the objects"""
    out = {'nextpos': (s * 5) % 64, 'filesize': 4 + (s * 3) % 90, 'disksize': 50 + s % 20}
    return out


HISTORIES = [
    (('next',), 'anywhere'), (('next', 'next'), 'anywhere'), (('peek', 'next'), 'anywhere'), (('peek', 'peek', 'next', 'next'), 'start'),
    (('next', 'peek', 'next'), 'start'), (('peek', 'next', 'peek', 'next'), 'start'), (('next', 'next', 'next'), 'start'),
]


def history_units(pid, tier, seed):
    t, w = (1500, 60) if tier == 'quick' else (20000, 1000)
    u = []
    for ops, start in HISTORIES:
        u.append((history_unit, 'plain %s %s' % (start, '-'.join(ops)), ('plain', ops, start, t, w, seed)))
    for kind in ('gzip', 'zstd'):
        for ops, start in HISTORIES:
            if start == 'start':
                u.append((history_unit, '%s %s %s' % (kind, start, '-'.join(ops)), (kind, ops, start, t, w, seed)))
    return u


# --------------------------------------------------------------------------- objects inside of objects
ONLY = opaque_atom('only-subobjects', C(0))


def sub_object(I, st, base, fh, addr, size):
    h = model.header(I, st, model.TYPE, addr=addr, size=size, only_sub=ONLY)
    return I.instantiate(st, base, [h, fh], {})


def sub_unit(r, n, start, tries, want, seed, raises_only=False):
    I = analysis(happy=False, obj=False)
    I.module('spec.files')
    base = model.base_class(I)
    if base is None:
        raise Anchor('EventIOObject')
    m = I.class_attr(IN.State(dict(I.heap0)), base, '__next__')
    if m not in IN.FUNCS:
        raise Anchor('EventIOObject.__next__')
    where = front.loc(IN.FUNCS[m].node)
    addr, size = sym('address', rng=(16, 1 << 41)), sym('size', rng=(0, 1 << 41))
    L.PREFIX.clear()

    def begin_sub(I, st):
        generic_only(I, st)
        fh = model.stream(I, st, size=FS)
        return fh, sub_object(I, st, base, fh, addr, size)
    pos, attrs = ZERO, []
    if start == 'anywhere':
        def one(I, st):
            fh, o = begin_sub(I, st)
            I.call_method(st, o, '__next__', [])
            return o
        out = run(I, one)

        def ref1(I, st):
            f = I.instantiate(st, I.lookup_qual('spec.files', 'Subobjects'), [L.bs(model.F, ZERO, FS), addr, size, ZERO], {})
            I.call_method(st, f, 'next', [])
            return I.getattr(st, f, 'pos')
        attrs = tracking(I, out, run(I, ref1), sub_models) if out.ret is not FALSE else []
        if not attrs:
            r.open('position', 'attribute with the position of the next header', where, 'not identified')
            return
        pos = sym('nextpos', rng=(0, 1 << 41))

    def drive(I, st):
        fh, o = begin_sub(I, st)
        for a in attrs:
            I.put(st, o, a, pos)
        out = []
        it = I.call_method(st, o, '__iter__', [])
        for k in range(n):
            havoc(I, st, fh, k)
            out.append(observe(I, st, I.call_method(st, it, '__next__', [])))
        return L.lst(*out)

    def ref(I, st):
        f = I.lookup_qual('spec.files', 'subobjects')
        return I.freeze(st, I.call(st, f, [L.bs(model.F, ZERO, FS), addr, size, ONLY, pos, C(n)], {}))
    out, s = run(I, drive), run(I, ref)
    res, exp = {}, {}
    for k in range(0 if raises_only else n):
        res['object %d' % (k + 1)] = L.titem(out.value, C(k)) if out.value is not IN.UNDEF else IN.UNDEF
        exp['object %d' % (k + 1)] = L.titem(s.value, C(k)) if s.value is not IN.UNDEF else IN.UNDEF
    V = equiv.compare(equiv.Side(I, out, res), equiv.Side(I, s, exp), want=want, tries=tries, seed=seed, fixed=sub_models, eofs=())
    r.verdict(V, 'sub-objects', '%d from %s' % (n, start), where)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def sub_models(s):
    a = 16 + s % 20
    n = (s * 7) % 60
    return {'address': a, 'size': n, 'nextpos': (s * 3) % 40, 'filesize': a + n + (0, 0, 30, -5, -12, 1)[s % 6]}


def budget(tier):
    return (1500, 60) if tier == 'quick' else (20000, 1000)


def frame_units(pid, tier, seed):
    t, w = budget(tier)
    u = history_units(pid, tier, seed)
    for n, start in ((1, 'anywhere'), (2, 'anywhere'), (3, 'start')):
        u.append((sub_unit, 'sub-objects %d %s' % (n, start), (n, start, t, w, seed)))
    return u


def header_units(pid, tier, seed):
    t, w = budget(tier)
    t, w = t * 2, w * 5
    return [(history_unit, 'top level', ('plain', ('next',), 'anywhere', t, w, seed)),
            (history_unit, 'first top level', ('plain', ('next',), 'start', t, w, seed)),
            (sub_unit, 'sub-object', (1, 'anywhere', t, w, seed)),
            (sub_unit, 'first sub-object', (1, 'start', t, w, seed))]


def truncation_units(pid, tier, seed):
    t, w = budget(tier)
    t, w = t * 2, w * 5
    u = [(history_unit, '%s %s' % (k, '-'.join(o)), (k, o, 'anywhere' if k == 'plain' else 'start', t, w, seed, True))
         for k in ('plain', 'gzip', 'zstd') for o in (('next',), ('next', 'next'), ('peek', 'next'))]
    u += [(sub_unit, 'sub-objects %d' % n, (n, 'anywhere', t, w, seed, True)) for n in (1, 2)]
    return u
