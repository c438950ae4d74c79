"""Opening, decompressing and releasing files (C23, C24)."""
from sa.terms import *
from sa import terms as TM
from sa import lib as L
from sa import equiv, model, interp as IN, front
from .core import Anchor
from .layout import analysis, CL
from . import fileio as FI
from .fileio import PATH, DISK, PLAIN, FS, DISKSIZE, run

PROGRAM = ('works', 'finished', 'missing', 'fails')
MODES = [('plain', True, 'works'), ('gzip', False, 'works')] + [('gzip', True, p) for p in PROGRAM] + [('zstd', True, 'works')]


def mode_name(kind, zcat, program):
    return kind if kind != 'gzip' else 'gzip, no zcat' if not zcat else 'gzip, zcat ' + program


class World:
    """what opening files and starting programs does, with one operation failing if asked for"""

    def __init__(self, kind, program='works', fail=None):
        self.kind, self.program, self.fail = kind, program, fail
        self.count = 0
        self.names = []
        self.commands = []
        self.opened = []
        self.made = []

    def tick(self, I, st, name):
        self.names.append(name)
        self.count += 1
        if self.fail is not None and self.count - 1 == self.fail:
            I.throw(st, I.exc('OSError', C('fault')))

    def raw(self, I, st, plain):
        buf, n = (PLAIN, FI.fsize()) if plain else (DISK, DISKSIZE)
        return I.alloc(st, 'bio', {'buf': buf, 'pos': ZERO}, {'size': n})

    def handle(self, I, st, kind, plain, forward=False, cls='Handle', source=NONE):
        c = I.lookup_qual('spec.resources', cls)
        raw = self.raw(I, st, plain)
        if kind != 'disk':
            I.cell(st, raw).meta['clamp'] = True
        h = I.instantiate(st, c, [C(kind), raw], {'forward': C(forward), 'source': source})
        self.made.append(h)
        return h

    def models(self):
        def op(I, st, args, kw):
            self.tick(I, st, 'open')
            self.opened.append((args, kw))
            return self.handle(I, st, 'disk', self.kind == 'plain')

        def gz(I, st, args, kw):
            self.tick(I, st, 'gzip.open')
            self.opened.append((args, kw))
            if self.kind != 'gzip':
                I.throw(st, I.exc('OSError', C('not gzip')))
            return self.handle(I, st, 'gzip', True)

        def popen(I, st, args, kw):
            self.tick(I, st, 'Popen')
            self.commands.append((tuple(I.freeze(st, a) for a in args), {k: I.freeze(st, v) for k, v in kw.items()}, I.node))
            if self.program == 'missing':
                I.throw(st, I.exc('FileNotFoundError', C('gzip')))
            if self.program == 'fails':
                c = I.lookup_qual('spec.resources', 'Pipe')
                raw = I.alloc(st, 'bio', {'buf': C(b''), 'pos': ZERO}, {'size': ZERO})
                out = I.instantiate(st, c, [C('stdout'), raw], {})
                self.made.append(out)
            else:
                out = self.handle(I, st, 'stdout', True, cls='Pipe')
            raw = I.alloc(st, 'bio', {'buf': C(b'message'), 'pos': ZERO}, {'size': C(7)})
            err = I.instantiate(st, I.lookup_qual('spec.resources', 'Pipe'), [C('stderr'), raw], {})
            self.made.append(err)
            code = {'works': NONE, 'finished': ZERO, 'fails': C(1)}[self.program]
            p = I.instantiate(st, I.lookup_qual('spec.resources', 'Process'), [out, err, code], {})
            self.made.append(p)
            return p

        def zd(I, st, args, kw):
            def make(I, st, args, kw):
                return self.handle(I, st, 'zstd', self.kind == 'zstd', forward=True)
            n = native(make)
            return I.instantiate(st, I.lookup_qual('spec.resources', 'Zstd'), [n, sym('frame', rng=(0, 1 << 41))], {})

        def zopen(I, st, args, kw):
            self.tick(I, st, 'open')
            self.opened.append((args, kw))
            return self.handle(I, st, 'zstd', self.kind == 'zstd', forward=True)

        def fstat(I, st, args, kw):
            return I.instantiate(st, I.lookup_qual('spec.resources', 'Stat'), [FI.fsize() if self.kind == 'plain' else DISKSIZE], {})

        def fault(I, st, args, kw):
            self.tick(I, st, cv(args[0]))
            return NONE

        def finalize(I, st, args, kw):
            f = I.instantiate(st, I.lookup_qual('spec.resources', 'Finalizer'),
                              [args[1], tup(*args[2:]), I.new_dict(st, [(C(k), v) for k, v in kw.items()])], {})
            self.finalizers.append((args[0], f))
            return f
        self.finalizers = []
        return {'ext:open': op, 'ext:builtins.open': op, 'ext:io.open': op, 'ext:gzip.open': gz, 'ext:gzip.GzipFile': gz,
                'ext:subprocess.Popen': popen, 'ext:zstandard.ZstdDecompressor': zd, 'ext:zstandard.open': zopen, 'ext:os.fstat': fstat,
                'ext:weakref.finalize': finalize, 'ext:os.path.getsize': lambda I, st, a, k: FI.fsize() if self.kind == 'plain' else DISKSIZE,
                'spec.resources.fault': fault}


def native(f):
    t = mk('native', f.__name__ + str(id(f)), ty='obj')
    IN.NATIVE[t] = f
    return t


def world(kind, program='works', fail=None):
    w = World(kind, program, fail)
    I = analysis(happy=False, obj=False, extra=w.models())
    I.module('spec.resources')
    I.module('spec.files')
    return w, I


def file_class(I):
    cls = I.lookup_qual('eventio.base', 'EventIOFile')
    if cls is None:
        raise Anchor('EventIOFile')
    return cls


def where_of(I, cls, *names):
    st = IN.State(dict(I.heap0))
    fs = [I.class_attr(st, cls, n) for n in names]
    return ' '.join(front.loc(IN.FUNCS[m].node) for m in fs if m in IN.FUNCS)


# --------------------------------------------------------------------------- C24
def objects_unit(r, kind, zcat, program, ops, tries, want, seed):
    """the objects delivered are those of the decompressed content"""
    w, I = world(kind, program)
    cls = file_class(I)

    def drive(I, st):
        FI.begin(I, st, kind)
        FI.generic_only(I, st)
        o = I.instantiate(st, cls, [PATH], {'zcat': C(zcat)})
        return L.lst(*[FI.step(I, st, o, op) for op in ops])

    def ref(I, st):
        FI.begin(I, st, kind)
        l = I.new_list(st, [C(x) for x in ops])
        return I.freeze(st, I.call(st, I.lookup_qual('spec.files', 'history'), [L.bs(PLAIN, ZERO, FS), ZERO, l], {}))
    compare(r, I, 'same objects', '%s: %s' % (mode_name(kind, zcat, program), ', '.join(ops)), where_of(I, cls, '__init__', '__next__'),
            run(I, drive), run(I, ref), len(ops), tries, want, seed, FI.file_models)


def compare(r, I, rule, what, where, out, s, n, tries, want, seed, fixed, raises=True):
    res, exp = {}, {}
    for k in range(n):
        res['step %d' % (k + 1)] = L.titem(out.value, C(k)) if out.value is not IN.UNDEF else IN.UNDEF
        exp['step %d' % (k + 1)] = L.titem(s.value, C(k)) if s.value is not IN.UNDEF else IN.UNDEF
    V = equiv.compare(equiv.Side(I, out, res), equiv.Side(I, s, exp), want=want, tries=tries, seed=seed, fixed=fixed, eofs=(), raises=raises)
    r.verdict(V, rule, what, where)
    r.info['functions'] = sorted(set(r.info.get('functions', ())) | {q for q in I.visited if not q.startswith('spec')})


STREAM_OPS = [
    ('read, tell, read, tell', [('read', ['n']), ('tell', []), ('read', ['m']), ('tell', [])]),
    ('seek, read, tell', [('seek', ['a']), ('read', ['n']), ('tell', [])]),
    ('seek, seek, read', [('seek', ['a']), ('seek', ['b']), ('tell', []), ('read', ['n'])]),
    ('read, seek, read', [('read', ['n']), ('seek', ['a', 0]), ('read', ['m']), ('tell', [])]),
    ('seek relative, read', [('read', ['n']), ('seek', ['b', 1]), ('tell', []), ('read', ['m'])]),
    ('seek relative twice', [('seek', ['a', 1]), ('seek', ['b', 1]), ('read', ['n']), ('tell', [])]),
    ('read all', [('read', ['n']), ('read', []), ('tell', []), ('read', [])]),
    ('seek, read all, seek', [('seek', ['a']), ('read', []), ('tell', []), ('seek', ['b']), ('tell', [])]),
    ('seek from the end', [('seek', ['a']), ('seek', ['b', 2]), ('tell', []), ('read', ['n'])]),
]


def forward_unit(r, name, ops, tries, want, seed):
    """the stream of a decompression program"""
    w, I = world('gzip', 'works')
    cls = file_class(I)

    def arg(x):
        return FI.S(x) if isinstance(x, str) else C(x)

    def oplist(I, st):
        return I.new_list(st, [tup(C(op), tup(*[arg(x) for x in args])) for op, args in ops])

    def drive(I, st):
        FI.begin(I, st, 'gzip')
        o = I.instantiate(st, cls, [PATH], {'zcat': TRUE})
        return I.freeze(st, I.call(st, I.lookup_qual('spec.resources', 'operations'), [o, oplist(I, st)], {}))

    def ref(I, st):
        FI.begin(I, st, 'gzip')
        return I.freeze(st, I.call(st, I.lookup_qual('spec.resources', 'forward'), [L.bs(PLAIN, ZERO, FS), oplist(I, st)], {}))

    def fixed(s):
        n = 4 + (s * 7) % 60
        return {'filesize': n, 'disksize': 40, **{x: (s * p) % 70 - (5 if s % 3 == 0 else 0) for x, p in
                                                 (('a', 3), ('b', 11), ('n', 13), ('m', 17))}}
    compare(r, I, 'forward stream', name, where_of(I, cls, '__init__', 'read', 'seek', 'tell'), run(I, drive), run(I, ref), len(ops), tries, want, seed, fixed)


def plain_unit(r, name, ops, tries, want, seed):
    """an uncompressed file: bytes by absolute position"""
    w, I = world('plain')
    cls = file_class(I)

    def arg(x):
        return FI.S(x) if isinstance(x, str) else C(x)

    def oplist(I, st):
        return I.new_list(st, [tup(C(op), tup(*[arg(x) for x in args])) for op, args in ops])

    def drive(I, st):
        FI.begin(I, st, 'plain')
        o = I.instantiate(st, cls, [PATH], {})
        return I.freeze(st, I.call(st, I.lookup_qual('spec.resources', 'operations'), [o, oplist(I, st)], {}))

    def ref(I, st):
        FI.begin(I, st, 'plain')
        return I.freeze(st, I.call(st, I.lookup_qual('spec.resources', 'operations'), [w.raw(I, st, True), oplist(I, st)], {}))

    def fixed(s):
        n = 4 + (s * 7) % 60
        return {'filesize': n, **{x: (s * p) % 70 - (5 if s % 3 == 0 else 0) for x, p in (('a', 3), ('b', 11), ('n', 13), ('m', 17))}}
    compare(r, I, 'plain stream', name, where_of(I, cls, '__init__', 'read', 'seek', 'tell'), run(I, drive), run(I, ref), len(ops), tries, want, seed, fixed)


def moved_unit(r, kind, zcat, program, ops, tries, want, seed):
    """the caller reads or moves between objects: the objects are right or refused"""
    w, I = world(kind, program)
    cls = file_class(I)

    def drive(I, st):
        FI.begin(I, st, kind)
        FI.generic_only(I, st)
        o = I.instantiate(st, cls, [PATH], {'zcat': C(zcat)})
        out = []
        for k, op in enumerate(ops):
            if op in ('read', 'seek'):
                I.call_method(st, o, op, [FI.S('nab'[k % 3])])
            else:
                out.append(FI.step(I, st, o, op))
        return L.lst(*out)
    steps = [op for op in ops if op not in ('read', 'seek')]

    def ref(I, st):
        FI.begin(I, st, kind)
        l = I.new_list(st, [C(x) for x in steps])
        return I.freeze(st, I.call(st, I.lookup_qual('spec.files', 'history'), [L.bs(PLAIN, ZERO, FS), ZERO, l], {}))

    def fixed(s):
        return {**FI.file_models(s), 'n': s % 30 - 2 if s % 2 else 0, 'a': s * 5 % 40, 'b': s * 3 % 50}
    compare(r, I, 'moved stream', '%s: %s' % (mode_name(kind, zcat, program), ', '.join(ops)), where_of(I, cls, '__next__'),
            run(I, drive), run(I, ref), len(steps), tries, want, seed, fixed, raises=False)


def marker_unit(r, name, ref_name, kind, tries, want, seed):
    """recognition by content"""
    w, I = world(kind or 'plain')
    f = I.lookup_qual('eventio.file_types', name)
    if f is None:
        raise Anchor(name)

    def begin(I, st):
        L.PREFIX.clear()
        if kind in ('gzip', 'zstd'):
            L.PREFIX[DISK] = FI.MARKER[kind]
            I.assume(st, not_(lt(DISKSIZE, C(4))))
        if kind == 'not compressed':
            for m in ('gzip_marker', 'zstd_marker'):
                I.assume(st, not_(TM.truth(I.call(st, I.lookup_qual('spec.resources', m), [L.bs(PLAIN, ZERO, FS)], {}))))

    def drive(I, st):
        begin(I, st)
        return L.lst(TM.truth(I.call(st, f, [PATH], {})))

    def ref(I, st):
        begin(I, st)
        v = I.call(st, I.lookup_qual('spec.resources', ref_name), [L.bs(PLAIN, ZERO, FS)], {})
        return L.lst(TM.truth(v))

    def fixed(s):
        return {'filesize': (0, 1, 2, 3, 4, 5, 9)[s % 7], 'disksize': 30}
    if kind == 'not compressed':
        w.kind = 'plain'
    compare(r, I, 'recognised by content', '%s%s' % (name, ' of a %s file' % kind if kind else ''), where_fn(f), run(I, drive), run(I, ref), 1,
            tries, want, seed, fixed)


def where_fn(f):
    return front.loc(IN.FUNCS[f].node) if f in IN.FUNCS else ''


def refuse_unit(r, kind, zcat, program, tries, want, seed):
    """files which do not hold eventio data are refused, others opened"""
    w, I = world(kind, program)
    cls = file_class(I)

    def begin(I, st):
        L.PREFIX.clear()
        if kind != 'plain':
            L.PREFIX[DISK] = FI.MARKER[kind]
            I.assume(st, not_(lt(DISKSIZE, C(4))))
        else:
            for m in ('gzip_marker', 'zstd_marker'):
                I.assume(st, not_(TM.truth(I.call(st, I.lookup_qual('spec.resources', m), [L.bs(PLAIN, ZERO, FS)], {}))))

    def drive(I, st):
        begin(I, st)
        I.instantiate(st, cls, [PATH], {'zcat': C(zcat)})
        return L.lst(C(1))

    def ref(I, st):
        begin(I, st)
        v = TM.truth(I.call(st, I.lookup_qual('spec.resources', 'eventio_marker'), [L.bs(PLAIN, ZERO, FS)], {}))
        I.throw(st, I.exc('ValueError', C('no eventio')), not_(v))
        return L.lst(C(1))

    def fixed(s):
        return {'filesize': (0, 1, 2, 3, 4, 5, 9)[s % 7], 'disksize': 30}
    compare(r, I, 'content decides', mode_name(kind, zcat, program), where_of(I, cls, '__init__'), run(I, drive), run(I, ref), 1, tries, want, seed, fixed)


def command_unit(r):
    """the program that is started decompresses the file, nothing else"""
    w, I = world('gzip', 'works')
    cls = file_class(I)
    st = IN.State(dict(I.heap0))
    FI.begin(I, st, 'gzip')
    run(I, lambda I, st: I.instantiate(st, cls, [PATH], {'zcat': TRUE}), st)
    for args, kw, node in w.commands:
        bad, unknown = command_faults(args, kw)
        if unknown:
            r.open('command', 'decompression program', front.loc(node), unknown)
        else:
            r.decide('command', 'decompression program', front.loc(node), not bad, bad or '', {'command': show(args[0])[:300]})
    if not w.commands:
        r.ok('command', 'no program is started', '')
    for args, kw in w.opened:
        p = args[0] if args else kw.get('file') or kw.get('filename')
        r.decide('path', 'file that is opened', where_of(I, cls, '__init__'), p is PATH or p is None or p.k != 'c', 'another file is opened: %s' % show(p)[:80] if p is not None else '')


DECOMPRESS = {'gzip': True, 'pigz': True, 'zcat': False, 'gunzip': False, 'unpigz': False}


def command_faults(args, kw):
    """(violation or None, reason why it cannot be judged or None)"""
    c = args[0] if args else kw.get('args')
    if kw.get('shell') is not None and kw['shell'] is not FALSE:
        return 'the command is run by a shell, which interprets the file name', None
    if c is None or c.k not in ('list', 'tup'):
        return None, 'command %s' % (show(c)[:80] if c is not None else 'missing')
    items = list(c.a)
    if not items or not is_c(items[0]) or not isinstance(cv(items[0]), str):
        return None, 'program'
    prog = cv(items[0]).rsplit('/', 1)[-1]
    if prog not in DECOMPRESS:
        return 'starts %r' % prog, None
    opts, names, dashes = set(), [], False
    for t in items[1:]:
        if is_c(t) and isinstance(cv(t), str):
            v = cv(t)
            if v == '--' and not dashes:
                dashes = True
            elif v.startswith('--') and not dashes:
                opts.add({'--decompress': 'd', '--uncompress': 'd', '--stdout': 'c', '--to-stdout': 'c'}.get(v, v))
            elif v.startswith('-') and len(v) > 1 and not dashes:
                opts |= set(v[1:])
            else:
                names.append(t)
        else:
            names.append(t)
            if not dashes and t is PATH:
                names[-1] = ('bare', t)
    if any(isinstance(n, tuple) for n in names):
        return 'a file name that begins with a dash is taken for an option', None
    if DECOMPRESS[prog] and 'd' not in opts:
        return 'does not decompress', None
    if prog != 'zcat' and 'c' not in opts:
        return 'does not write to standard output: the file is replaced', None
    if names and names[0].k == 'c':
        return 'reads %r instead of the file' % cv(names[0]), None
    if not names and 'stdin' not in kw:
        return 'reads standard input instead of the file', None
    if len(names) > 1:
        return 'reads several files', None
    return None, None


def transparent_units(pid, tier, seed):
    t, w = (600, 60) if tier == 'quick' else (10000, 1000)
    u = [(command_unit, 'command', ())]
    for m in MODES:
        for ops in (('next', 'next'), ('peek', 'next', 'next'), ('next', 'next', 'next')):
            u.append((objects_unit, '%s: %s' % (mode_name(*m), '-'.join(ops)), m + (ops, t, w, seed)))
        u.append((refuse_unit, '%s: other contents' % mode_name(*m), m + (t, w, seed)))
        for ops in (('next', 'read', 'next'), ('next', 'seek', 'next'), ('read', 'peek', 'next', 'next'), ('next', 'seek', 'peek', 'read', 'next')):
            u.append((moved_unit, '%s: %s' % (mode_name(*m), '-'.join(ops)), m + (ops, t, w, seed)))
    for n, ops in STREAM_OPS:
        u.append((plain_unit, 'plain stream: ' + n, (n, ops, t, w, seed)))
        u.append((forward_unit, 'stream: ' + n, (n, ops, t, w, seed)))
    for n, ref in (('is_gzip', 'gzip_marker'), ('is_zstd', 'zstd_marker')):
        u.append((marker_unit, n, (n, ref, None, t, w, seed)))
    for k in ('not compressed', 'gzip', 'zstd'):
        u.append((marker_unit, 'is_eventio ' + k, ('is_eventio', 'eventio_marker', k, t, w, seed)))
    return u
