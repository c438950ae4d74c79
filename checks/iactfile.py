"""Events of IACT files (C22): scripted files against the reference."""
import struct
from sa.terms import *
from sa import lib as L, terms as TM
from sa import model, interp as IN, front
from spec import iactfile as E
from .core import Anchor, PROVED
from . import script as S
from .script import Ob, Script
from .events import compare

F = S.PLAIN


def photons(tel, array, emitter, n=None):
    o = Ob(1205, 1000 * array + tel, result=('$p', '$m' if emitter else None), payload=struct.pack('<hh', array, tel), size=40)
    o.tel = tel
    return o


def offsets(n, version):
    o = Ob(1203, 0, result='REAL', payload=struct.pack('<i', n), size=8 + 4 * n * (2 + version), version=version)
    o.n = n
    return o


def shower(k, reuses, version=1, tels=(1, 2), split=False, between='lp', inside='', emitter=0, order=None):
    """objects of a shower; tels: telescopes of every reuse or one tuple for each"""
    out = [Ob(1202, k, result={'event_number': '$n', 'version': '$v', 'what': '$'}), offsets(reuses, version)]
    for c in between:
        if c == 'l':
            out.append(Ob(1211, k))
        elif c == 'p':
            out.append(Ob(1205, 999999, result='$', payload=struct.pack('<hh', 999, 999), size=40))
        elif c == 'u':
            out.append(Ob(9999, k))
    for r in range(reuses):
        ts = tels[r % len(tels)] if tels and isinstance(tels[0], tuple) else tels
        ps = [photons(t, r, (t + r + emitter) % 2) for t in ts]
        if 'e' in inside:
            ps += [Ob(1208, 1000 * r + t) for t in ts]
        if split:
            out += [Ob(1213, r)] + ps + [Ob(1214, r)]
        else:
            out.append(Ob(1204, r, ps))
    return out + [Ob(1209, k, result={'end': '$', 'version': 'ARG'})]


def head(profile=False):
    out = [Ob(1200, 0), Ob(1212, 0)]
    if profile:
        out.append(Ob(1216, 0))
    return out + [Ob(1201, 0, result='REAL', payload=struct.pack('<i', 2), size=4 + 32)]


SHOWERS = {
    'one use': lambda k: shower(k, 1),
    'three uses': lambda k: shower(k, 3),
    'without weights': lambda k: shower(k, 2, version=0),
    'bare': lambda k: shower(k, 2, between=''),
    'longitudinal only': lambda k: shower(k, 1, between='l'),
    'particles only': lambda k: shower(k, 1, between='p', emitter=1),
    'other telescopes in each use': lambda k: shower(k, 3, tels=((2,), (1, 3), ()), between='u'),
    'no telescopes': lambda k: shower(k, 2, tels=()),
    'photo-electrons too': lambda k: shower(k, 2, inside='e', between='pl'),
    'split': lambda k: shower(k, 1, split=True),
    'split, two uses': lambda k: shower(k, 2, split=True, tels=((2, 1), (3,)), between='p'),
}
FIELDS = ('event_number', 'header', 'time_offset', 'longitudinal', 'particles', 'end', 'photon_bunches', 'emitter', 'reuse_weight', 'reuse',
          'n_photons', 'n_bunches', 'impact_x', 'impact_y')


class View(S.View):
    def frozen(self, t):
        if t.k in ('list', 'tup', 'dict', 'nt', 'sym') or is_c(t):
            return S.View.frozen(self, t)
        return S.Tok(t)


def stored(d, a):
    return L.dec(d, F, C(a))


def plain(t):
    """does a term consist of stored values only?"""
    return t.k in ('c', 'sym') or t.k == 'dec' or t.k in ('neg', 'mul', 'app', 'wrap', 'fneg') and all(
        plain(x) for x in t.a if isinstance(x, TM.T))


class File:
    def __init__(self):
        self.I = S.analysis()
        self.cls = self.I.lookup_qual('eventio.iact', 'IACTFile')
        if self.cls is None:
            raise Anchor('IACTFile')
        f = IN.FUNCS.get(self.I.class_attr(IN.State(dict(self.I.heap0)), self.cls, '__iter__'))
        self.where = front.loc(f.node) if f else 'IACTFile'

    def negative(self, t):
        return self.I.lib.neg(t) if hasattr(self.I.lib, 'neg') else TM.sub(ZERO, t)

    def expected(self, objects):
        def parsed(o, *args):
            return S.expect(o.result if o.result is not None else {'what': '$'}, o, args)

        def table(o, k):
            a = o.address
            x, y = stored('f4', a + 8 + 4 * k), stored('f4', a + 8 + 4 * o.n + 4 * k)
            w = S.Tok(stored('f4', a + 8 + 8 * o.n + 4 * k)) if o.version == 1 else 1.0
            return S.Tok(stored('f4', a + 4)), w, S.Tok(self.neg(x)), S.Tok(self.neg(y))
        for o in objects:
            if o.type in (1205,) and o.payload is not None:
                o.numbers = S.Tok(stored('f4', o.address + 4)), S.Tok(stored('i4', o.address + 8))
            for s in o.subs or ():
                if s.type == 1205:
                    s.numbers = S.Tok(stored('f4', s.address + 4)), S.Tok(stored('i4', s.address + 8))
        return E.events(objects, parsed, table)

    def neg(self, x):
        import ast
        st = IN.State(dict(self.I.heap0))
        return self.I.lib.unary(self.I, st, 'USub', x)

    def open(self, st, kw=None):
        return self.I.instantiate(st, self.cls, [S.PATH], kw or {})

    def attr(self, st, o, n):
        t = self.I.getattr_or_none(st, o, n)
        return None if t is None else View(self.I, st)(t)

    def iterate(self, st, f):
        """events of iter(f) as dictionaries, also in self.before those delivered before an error"""
        I = self.I
        del I.gen_lists[:]
        self.before = []
        how, v = S.attempt(I, st, lambda s: L.materialise(I, s, I.lib.call_ext(I, s, 'iter', [f], {})))
        if how == 'raise':
            if I.gen_lists and I.gen_lists[0].k == 'ref' and I.cell(st, I.gen_lists[0]) is not None:
                items = I.simp(st, I.cell(st, I.gen_lists[0]).s['items'])
                if items.k == 'list':
                    self.before = [{n: self.attr(st, e, n) for n in FIELDS} for e in items.a]
            return how, v
        items = I.simp(st, I.cell(st, v).s['items'])
        if items.k != 'list':
            raise Undecidable('number of events')
        return 'value', [{n: self.attr(st, e, n) for n in FIELDS} for e in items.a]

    def prelude(self, st, o, name):
        I = self.I
        for op in PRELUDE[name]:
            if op == 'next':
                S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'next', [o], {}))
            elif op == 'peek':
                S.attempt(I, st, lambda s: I.call_method(s, o, 'peek', []))
            else:
                self.iterate(st, o)


def differences(want, got):
    bad = []
    if len(want) != len(got):
        bad.append('%d events instead of %d' % (len(got), len(want)))
    for k, (e, x) in enumerate(zip(want, got)):
        for n in FIELDS:
            d = []
            compare('.%s' % n, e[n], x[n], d)
            bad += ['event %d: %s' % (k + 1, t) for t in d]
    return bad


PRELUDE = {
    'first iteration': (),
    'after peek': ('peek',),
    'after next': ('next', 'next', 'next'),
    'after peek, next and peek': ('peek', 'next', 'peek'),
    'second iteration': ('iterate',),
    'third iteration, after peek': ('iterate', 'peek', 'iterate', 'peek'),
    'after reading to the end': ('next',) * 40 + ('peek',),
}


def file_unit(r, kinds, preludes, profile):
    f = File()
    I = f.I
    body = []
    for k, n in enumerate(kinds):
        body += SHOWERS[n](k + 1)
    body.append(Ob(1210, 0))
    hd = head(profile)
    scr = Script(hd + body)
    for name in preludes:
        st = IN.State(dict(I.heap0))
        S.begin(I, st, scr)
        want, end = f.expected(body)
        what = '%s, %s' % (' / '.join(kinds) or 'no shower', name)
        how, o = S.attempt(I, st, lambda s: f.open(s))
        if how == 'raise':
            r.bad('open', what, f.where, 'the file cannot be opened: %s' % o)
            continue
        f.prelude(st, o, name)
        how, got = f.iterate(st, o)
        bad = []
        if how == 'raise':
            bad.append('iteration raises %s' % got)
        else:
            bad += differences(want, got)
            compare('run_end', end, f.attr(st, o, 'run_end'), bad)
        compare('header', S.expect({'what': '$'}, hd[0]), f.attr(st, o, 'header'), bad)
        compare('input_card', S.expect({'what': '$'}, hd[1]), f.attr(st, o, 'input_card'), bad)
        compare('atmospheric_profile', S.expect({'what': '$'}, hd[2]) if profile else None, f.attr(st, o, 'atmospheric_profile'), bad)
        compare('n_telescopes', 2, f.attr(st, o, 'n_telescopes'), bad)
        if bad and not all(known(x) for x in bad_terms(want, got if how != 'raise' else [])):
            r.open('events', what, f.where, 'values that cannot be compared: %s' % '; '.join(bad)[:200])
            continue
        r.decide('events', what, f.where, not bad, '; '.join(bad)[:600], {'showers': kinds, 'prelude': name})
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def bad_terms(want, got):
    out = []

    def walk(v):
        if isinstance(v, S.Tok):
            out.append(v.t)
        elif isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in v:
                walk(x)
    for g in got:
        walk(g)
    return out


known = plain


def cut_unit(r, first, second, preludes):
    """the file ends inside or in front of some object of the second shower"""
    f = File()
    I = f.I
    a, b = SHOWERS[first](1) if first else [], SHOWERS[second](2)
    last = Ob(1210, 0)
    hd = head()
    scr = Script(hd + a + b + [last])
    for k, o in enumerate(b + [last]):
        for how, size in (('ends in front of', o.start), ('ends in the header of', o.start + 8), ('has a truncated', o.start + 20)):
            if how == 'has a truncated' and o.type in (1203, 1204, 1213, 1214, 1205):
                continue
            for name in preludes:
                st = IN.State(dict(I.heap0))
                S.begin(I, st, scr, size)
                what = 'the file %s object %d (type %d) of the second shower, %s' % (how, k + 1, o.type, name)
                save = o.result
                if how == 'has a truncated':
                    o.result = S.EOF
                try:
                    want = f.expected(a + [last])[0]
                    if o is last:
                        want = f.expected(a + b + [last])[0] if how != 'has a truncated' else f.expected(a + b + [Ob(1210)])[0]
                    got_how, x = S.attempt(I, st, lambda s: f.open(s))
                    if got_how == 'raise':
                        r.bad('truncated', what, f.where, 'the file cannot be opened: %s' % x)
                        continue
                    f.prelude(st, x, name)
                    got_how, got = f.iterate(st, x)
                    if got_how == 'raise':
                        got = f.before
                    bad = differences(want, got)
                    if got_how != 'raise':
                        bad.append('the iteration ends without an error although the file is truncated')
                    if bad and not all(known(t) for t in bad_terms(want, got)):
                        r.open('truncated', what, f.where, 'values that cannot be compared: %s' % '; '.join(bad)[:200])
                        continue
                    r.decide('truncated', what, f.where, not bad, '; '.join(bad)[:600], {'showers': [first, second], 'size': size, 'prelude': name})
                finally:
                    o.result = save


def file_units(pid, tier, seed):
    names = list(SHOWERS)
    out = [(file_unit, 'empty file', ([], list(PRELUDE), False))]
    for n in names:
        out.append((file_unit, n, ([n], list(PRELUDE), n == 'bare')))
    cuts = ['first iteration', 'after peek', 'third iteration, after peek', 'after reading to the end']
    for a, b in zip(names, names[3:] + names[:3]):
        out.append((cut_unit, '%s, then %s, truncated' % (a, b), (a, b, cuts if tier == 'quick' else list(PRELUDE))))
    out.append((cut_unit, 'first shower truncated', ('', 'three uses', cuts)))
    for a in names:
        if tier == 'quick':
            out.append((pairs_unit, '%s, then another' % a, ([[a, b] for b in names],)))
        else:
            for b in names:
                out.append((pairs_unit, '%s, %s, then another' % (a, b), ([[a, b, c] for c in names],)))
    return out


def pairs_unit(r, lists):
    for kinds in lists:
        file_unit(r, kinds, ['first iteration', 'second iteration'], True)
