"""Files and processes are released (C23): typestate of handles and processes over all ways to stop using a file."""
import struct
from sa.terms import *
from sa import terms as TM
from sa import lib as L
from sa import model, interp as IN, front
from .core import Anchor
from .layout import CL
from . import fileio as FI, script as S
from .fileio import PATH, DISK, PLAIN
from .streams import world, file_class, where_of, where_fn, MODES, mode_name
from .script import Ob, Script

# how the file is used and left; x marks operations that may raise
WAYS = {
    'closed': ('close',),
    'closed twice': ('close', 'close'),
    'closed after reading': ('next', 'peek', 'close'),
    'closed after the end': ('next', 'next', 'next', 'next', 'close', 'close'),
    'left by with': ('enter', 'next', 'exit'),
    'left by with because of an error': ('enter', 'next', 'exit error'),
    'left by with because of an interruption': ('enter', 'next', 'exit interrupted'),
    'left by with because a generator is closed': ('enter', 'next', 'exit closed'),
    'left by with, closed': ('enter', 'close', 'exit', 'close'),
    'dropped': ('drop',),
    'dropped after reading': ('next', 'peek', 'next', 'drop'),
    'closed and dropped': ('close', 'drop'),
    'dropped after with': ('enter', 'exit', 'drop'),
    'closed after an error': ('break', 'next', 'close'),
    'dropped after an error': ('break', 'next', 'peek', 'drop'),
}
LEFT = {'exit error': 'ValueError', 'exit interrupted': 'KeyboardInterrupt', 'exit closed': 'GeneratorExit'}
SCRIPT = [Ob(9999, 1), Ob(9998, 2), Ob(9997, 3)]


def reachable(I, st, t):
    """heap addresses that a value keeps alive"""
    seen, todo, done = set(), [t], set()
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo += [x for x in t if isinstance(x, (TM.T, tuple))]
            continue
        if not isinstance(t, TM.T) or t.id in done:
            continue
        done.add(t.id)
        if t.k == 'ref':
            if t in seen:
                continue
            seen.add(t)
            c = I.cell(st, t)
            if c is not None:
                todo += [v for v in c.s.values() if isinstance(v, TM.T)]
                if c.meta.get('env') is not None:
                    todo.append(c.meta['env'])
        if t.k in ('func', 'bm') and t in IN.FUNCS:
            f = IN.FUNCS[t]
            for key in (getattr(f, 'env', None) or ()):
                c = st.heap.get(key)
                if c is not None:
                    todo += [v for v in c.s.values() if isinstance(v, TM.T)]
        todo += [x for x in t.a if isinstance(x, (TM.T, tuple))]
    return seen


class Use:
    def __init__(self, cls, kind, zcat, program, fail=None):
        self.w, self.I = world(kind, program, fail)
        self.I.concrete = True
        self.kind, self.zcat = kind, zcat
        self.cls = self.I.lookup_qual(*cls)
        if self.cls is None:
            raise Anchor('.'.join(cls))

    def begin(self, st, scr=None):
        S.begin(self.I, st, scr or Script(SCRIPT))
        S.CURRENT[0] = None
        L.PREFIX.clear()
        if self.kind != 'plain':
            L.PREFIX[DISK] = FI.MARKER[self.kind]
            self.I.assume(st, not_(lt(FI.DISKSIZE, C(4))))

    def value(self, st, o, name):
        return self.I.simp(st, self.I.cell(st, o).s[name])

    def leaks(self, st, made=None):
        """descriptions of what has not been released"""
        bad = []
        for h in made if made is not None else self.w.made:
            q = CL(self.I.cell(st, h).meta['cls']).qual.rsplit('.', 1)[1]
            if q == 'Process':
                if self.value(st, h, 'ended') is not TRUE:
                    bad.append('the decompression process is not ended')
                if self.value(st, h, 'collected') is not TRUE:
                    bad.append('the decompression process is not collected')
            elif self.value(st, h, 'closed') is not TRUE:
                v = self.value(st, h, 'closed')
                if v is not FALSE:
                    raise Undecidable('whether a handle is closed')
                bad.append('the %s is not closed' % {'disk': 'file', 'gzip': 'gzip file', 'zstd': 'zstandard stream'}.get(
                    cv(self.value(st, h, 'kind')), 'pipe ' + cv(self.value(st, h, 'kind'))))
        return sorted(set(bad))

    def drop(self, st, o):
        """the last reference to the object goes away"""
        I = self.I
        for obj, f in self.w.finalizers:
            if obj is o and self.value(st, f, 'alive') is TRUE:
                if o in reachable(I, st, f):
                    raise Kept('the finalizer keeps the file object alive')
                how, v = S.attempt(I, st, lambda s: I.call(s, f, [], {}))
        d = I.class_attr(st, self.cls, '__del__')
        if d is not None and o is not None:
            S.attempt(I, st, lambda s: I.call_method(s, o, '__del__', []))

    def step(self, st, o, op, open_ends):
        """an exception or None"""
        I = self.I
        if op == 'next':
            how, v = S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'next', [o], {}))
            return None
        if op == 'peek':
            how, v = S.attempt(I, st, lambda s: I.call_method(s, o, 'peek', []))
            return None
        if op == 'break':
            self.w.fail = self.w.count        # the next operation fails
            return None
        if op == 'drop':
            self.drop(st, o)
            return None
        if op == 'enter':
            how, v = S.attempt(I, st, lambda s: I.call_method(s, o, '__enter__', []))
            return 'entering the context raises %s' % v if how == 'raise' else None if v is o else 'entering the context does not give the file'
        if op == 'close':
            how, v = S.attempt(I, st, lambda s: I.call_method(s, o, 'close', []))
            return 'close raises %s' % v if how == 'raise' else None
        args = [NONE, NONE, NONE] if op == 'exit' else [ext(LEFT[op]), I.exc(LEFT[op], C('caller')), sym('traceback', 'obj')]
        how, v = S.attempt(I, st, lambda s: TM.truth(I.call_method(s, o, '__exit__', args)))
        if how == 'raise':
            return 'leaving the context raises %s' % v
        return None


def ext(name):
    return IN.ext(name)


class Kept(Exception):
    pass


def use_unit(r, cls, kind, zcat, program, ways):
    for way in ways:
        faults = [None]
        k = 0
        while k < len(faults):
            fail = faults[k]
            k += 1
            u = Use(cls, kind, zcat, program, fail)
            I = u.I
            where = where_of(I, u.cls, '__init__', 'close', '__exit__')
            st = IN.State(dict(I.heap0))
            u.begin(st)
            what = '%s, %s, %s%s' % (cls[1], mode_name(kind, zcat, program), way, '' if fail is None else ', operation %d fails' % (fail + 1))
            how, o = S.attempt(I, st, lambda s: I.instantiate(s, u.cls, [PATH], {'zcat': C(zcat)}))
            names = list(u.w.names)
            if fail is None and way == ways[0]:
                # the same with one operation of the constructor failing
                faults += list(range(len(names)))
            try:
                if how == 'raise':
                    # nobody gets the object: it is dropped
                    for obj, f in u.w.finalizers:
                        if o_of(u, obj):
                            u.drop(st, obj)
                    bad = [x for x in u.leaks(st) if 'process' in x]
                    op = names[fail] if fail is not None and fail < len(names) else o
                    r.decide('failed construction', '%s (%s)' % (what, op), where, not bad, '; '.join(bad))
                    continue
                bad = []
                temporary = [h for h in u.w.made if not held(u, st, o, h)]
                for x in u.leaks(st, temporary):
                    if 'process' not in x or program == 'works':
                        bad.append('after opening, and the object does not hold it: %s' % x)
                for op in WAYS[way]:
                    x = u.step(st, o, op, None)
                    if x:
                        bad.append(x)
                bad += u.leaks(st)
                r.decide('released', what, where, not bad, '; '.join(bad), {'way': WAYS[way], 'operations': names})
            except Kept as e:
                r.bad('released', what, where, str(e))
    r.info['functions'] = sorted(set(r.info.get('functions', ())) | {q for q in I.visited if not q.startswith('spec')})


def o_of(u, obj):
    c = obj.k == 'ref'
    return c


def held(u, st, o, h):
    """does the object or its finalizer hold the handle?"""
    if h in reachable(u.I, st, o):
        return True
    return any(h in reachable(u.I, st, f) for obj, f in u.w.finalizers if obj is o)


def recognise_unit(r, name, kind):
    """handles opened to look at the first bytes are closed, also if reading fails"""
    k, faults = 0, [None]
    while k < len(faults):
        fail = faults[k]
        k += 1
        w, I = world(kind, 'works', fail)
        I.concrete = True
        f = I.lookup_qual('eventio.file_types', name)
        if f is None:
            raise Anchor(name)
        u = Use.__new__(Use)
        u.w, u.I, u.kind = w, I, kind
        st = IN.State(dict(I.heap0))
        u.begin(st)
        how, v = S.attempt(I, st, lambda s: I.call(s, f, [PATH], {}))
        if fail is None:
            faults += list(range(len(w.names)))
        bad = u.leaks(st)
        r.decide('temporary handles', '%s of a %s file%s' % (name, kind, '' if fail is None else ', operation %d (%s) fails' % (fail + 1, w.names[fail])),
                 where_fn(f), not bad, '; '.join(bad))
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def release_units(pid, tier, seed):
    u = []
    for m in MODES:
        for way in WAYS:
            u.append((use_unit, '%s: %s' % (mode_name(*m), way), (('eventio.base', 'EventIOFile'),) + m + ([way],)))
        for cls in (('eventio.simtel.simtelfile', 'SimTelFile'), ('eventio.iact', 'IACTFile')):
            u.append((use_unit, '%s %s' % (cls[1], mode_name(*m)), (cls,) + m + (['dropped', 'closed', 'left by with because of an error', 'left by with because of an interruption'],)))
    for n in ('is_gzip', 'is_zstd', 'is_eventio'):
        for k in ('plain', 'gzip', 'zstd'):
            u.append((recognise_unit, '%s %s' % (n, k), (n, k)))
    return u
