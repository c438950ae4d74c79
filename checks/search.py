"""Searches (C25): the functions of search_utils on scripted object trees against the trees themselves."""
import random
from sa.terms import *
from sa import lib as L
from sa import coro, model, interp as IN, front
from .core import Anchor
from .layout import CL
from . import script as S
from .script import Ob, Script

MOD = 'eventio.search_utils'


# --------------------------------------------------------------------------- trees
def leaf(t, k=0, size=24):
    return ('leaf', t, k, size)


def node(t, *subs, k=0):
    return ('node', t, k, list(subs))


def build(d):
    if d[0] == 'ext':
        o = build(d[1])
        o.ext = True
        return o
    if d[0] == 'leaf':
        # the id of tracking positions names the telescope once more
        # and photons have their numbers read when they are delivered
        return Ob(d[1], d[1] - 2100 | 0x100 if 2100 <= d[1] < 2200 else d[2], size=max(d[3], 24) if 1200 < d[1] < 1210 else d[3])
    return Ob(d[1], d[2], [build(x) for x in d[3]])


def tel(k, *subs):
    return node(2200 + k, leaf(2011, k), *subs)


def event(*subs):
    return node(2010, leaf(2009), *subs)


ADC, SAMPLES, IMG = 2012, 2013, 2014
TREES = {
    'one object': [leaf(2020)],
    'top level objects': [leaf(70), leaf(2000), leaf(2020), leaf(2021), leaf(2020, 1), leaf(9999), leaf(2020, 2), leaf(2021)],
    'events': [leaf(2000), event(leaf(2101), tel(1, leaf(ADC), leaf(IMG)), tel(2, leaf(ADC), leaf(ADC, 1))), leaf(2020), event(tel(3)),
               event(tel(4, leaf(SAMPLES), leaf(ADC, 7)))],
    'equal events': [event(tel(1, leaf(ADC)))] * 3,
    'without the searched type': [leaf(2000), event(tel(1, leaf(IMG))), event()],
    'empty containers': [event(tel(1)), node(2010), node(9999), leaf(2020), node(1204)],
    'telescope events outside of events': [tel(1, leaf(ADC)), event(tel(2, leaf(ADC, 1))), leaf(2020), node(2028, leaf(2009)), tel(3, leaf(ADC, 2))],
    'unknown containers': [node(9998, node(9999, leaf(2014), tel(9, leaf(ADC)))), event(node(9999, leaf(IMG)), tel(1, leaf(ADC, 5)))],
    'calibration events': [node(2028, event(tel(1, leaf(ADC))), k=1), event(tel(2, leaf(ADC, 1))), node(2028, event(tel(3, leaf(IMG))))],
    'photons': [leaf(1200), leaf(1202), node(1204, leaf(1205, 1), leaf(1205, 2), leaf(1208)), node(1204, k=1), leaf(1209),
                node(1204, leaf(1205, 1001), k=2)],
    'extended headers': [leaf(2000), ('ext', event(leaf(2101), ('ext', tel(1, ('ext', leaf(ADC)), leaf(IMG))))), ('ext', leaf(2020)), ('ext', leaf(9999)), leaf(2020)],
    'empty payloads': [leaf(2020, 0, 0), event(tel(1, leaf(ADC, 0, 0), leaf(ADC, 1, 0))), leaf(2020, 1, 0)],
    'last one matches': [leaf(2000), leaf(2021), event(tel(1), tel(2, leaf(IMG), leaf(ADC)))],
}
LEAVES = [2020, 2021, ADC, SAMPLES, IMG, 9999, 1205, 1208, 2009, 2101]
NODES = [2010, 2201, 2202, 1204, 9998, 2028]


def grow(rng, depth):
    out = []
    for _ in range(rng.choice((0, 1, 2, 2, 3, 4) if depth else (1, 2, 3, 4, 5))):
        if depth < 3 and rng.random() < 0.5:
            out.append(node(rng.choice(NODES), *grow(rng, depth + 1), k=rng.randrange(3)))
        else:
            out.append(leaf(rng.choice(LEAVES), rng.randrange(3), rng.choice((0, 4, 24))))
    return out


TYPES = ['simtel.ArrayEvent', 'simtel.TelescopeEvent', 'simtel.ADCSums', 'simtel.MCShower', 'simtel.ImageParameters', 'iact.Photons', 'iact.TelescopeData',
         'simtel.TrackingPosition', 'simtel.TriggerInformation']
STRUCTURES = [('simtel.ArrayEvent', 'simtel.TelescopeEvent', 'simtel.ADCSums'), ('simtel.ArrayEvent', 'simtel.TelescopeEvent'), ('simtel.MCShower',),
              ('iact.TelescopeData', 'iact.Photons'), ('simtel.ArrayEvent', 'simtel.TelescopeEvent', ('simtel.ADCSums', 'simtel.ImageParameters')),
              ('simtel.CalibrationEvent', 'simtel.ArrayEvent', 'simtel.TelescopeEvent', 'simtel.ADCSums'), (('simtel.ArrayEvent', 'simtel.CalibrationEvent'), 'simtel.TriggerInformation')]


# --------------------------------------------------------------------------- reference
def is_type(o, name):
    """does the class delivered for an object have that name?"""
    if isinstance(name, tuple):
        return any(is_type(o, n) for n in name)
    n = name.split('.')[-1]
    t = o.type
    if n == 'TelescopeEvent':
        return t >= 2200 and (t - 2200) % 1000 < 100
    if n == 'TrackingPosition':
        return t >= 2100 and (t - 2100) % 1000 < 100
    return t == NUMBER[n]


NUMBER = {'ArrayEvent': 2010, 'ADCSums': 2012, 'MCShower': 2020, 'ImageParameters': 2014, 'Photons': 1205, 'TelescopeData': 1204, 'CalibrationEvent': 2028,
          'TriggerInformation': 2009}


def outermost(objects, name):
    for o in objects:
        if is_type(o, name):
            yield o
        else:
            yield from outermost(o.subs or (), name)


def everything(objects, level=0):
    for o in objects:
        yield o, level
        yield from everything(o.subs or (), level + 1)


def nested(objects, structure):
    for o in objects:
        if is_type(o, structure[0]):
            if len(structure) == 1:
                yield o
            else:
                yield from nested(o.subs or (), structure[1:])


def ambiguous(objects, structure, level=0):
    """does an object of the last type occur where the nesting does not lead to it?"""
    for o in objects:
        last = is_type(o, structure[-1])
        if last and level < len(structure) - 1:
            return True
        if level < len(structure) and is_type(o, structure[level]) and ambiguous(o.subs or (), structure, level + 1):
            return True
    return False


# --------------------------------------------------------------------------- analysis
class Search:
    def __init__(self):
        self.I = S.in_steps(S.analysis())
        self.I.module(MOD)
        self.file = self.I.lookup_qual('eventio.base', 'EventIOFile')
        if self.file is None:
            raise Anchor('EventIOFile')
        self.where = {}
        self.read = False

    def function(self, name):
        f = self.I.lookup_qual(MOD, name)
        if f is None:
            raise Anchor('%s.%s' % (MOD, name))
        if f in IN.FUNCS:
            self.where[name] = front.loc(IN.FUNCS[f].node)
        return f

    def type(self, name):
        if isinstance(name, tuple):
            return tup(*[self.type(n) for n in name])
        mod, _, n = name.rpartition('.')
        c = self.I.lookup_qual('eventio.' + mod, n)
        if c is None:
            raise Anchor('eventio.%s.%s' % (mod, n))
        return c

    def begin(self, scr, size=None):
        coro.stop_all(self.I)
        st = IN.State(dict(self.I.heap0))
        S.begin(self.I, st, scr, size)
        return st

    def open(self, st):
        return self.I.instantiate(st, self.file, [S.PATH], {})

    def element(self, st, scr, v):
        """what was found, as object of the script; pairs stay pairs"""
        I = self.I
        v = I.simp(st, v)
        if v.k == 'tup':
            return tuple(self.element(st, scr, x) for x in v.a)
        if is_c(v):
            return cv(v)
        if v.k == 'ref' and I.cell(st, v).kind == 'inst':
            h = I.getattr_or_none(st, v, 'header')
            a = I.getattr_or_none(st, h, 'content_address') if h is not None else None
            if a is not None and is_c(a) and cv(a) in scr.table:
                # empty objects share their address with nothing else: headers lie in between
                return scr.table[cv(a)]
            raise S.Undecidable('an object without address')
        raise S.Undecidable('what was found is not known')

    def elements(self, st, scr, v):
        items = self.I.simp(st, self.I.cell(st, v).s['items'])
        if items.k != 'list':
            raise S.Undecidable('number of results')
        return [self.element(st, scr, x) for x in items.a]

    def call(self, st, scr, name, args, kw=None, more=40):
        """('value', list), ('raise', class), with what was delivered before in self.before"""
        I = self.I
        del I.effects[:]
        self.before = []
        f = self.function(name)
        try:
            how, v = S.attempt(I, st, lambda s: I.call(s, f, args, kw or {}))
            if how == 'raise' or name == 'find_type':
                return how, [self.element(st, scr, v)] if how == 'value' else v
            c = I.cell(st, v) if v.k == 'ref' else None
            if c is not None and c.kind == 'list':
                return 'value', self.elements(st, scr, v)
            how, it = S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'iter', [v], {}))
            if how == 'raise':
                return how, it
            while len(self.before) < more:
                how, x = S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'next', [it], {}))
                if how == 'raise':
                    return ('value', list(self.before)) if x == 'StopIteration' else (how, x)
                self.before.append(self.element(st, scr, x))
                if self.read:
                    y = I.simp(st, x)
                    S.attempt(I, st, lambda s: I.call_method(s, y.a[0] if y.k == 'tup' else y, 'read', []))
            return 'value', list(self.before)
        finally:
            self.warned = any(e[0] in ('warn', 'log') for e in I.effects)


def show_list(xs, scr):
    def one(x):
        if isinstance(x, tuple):
            return '(%s)' % ', '.join(map(one, x))
        if isinstance(x, Ob):
            return '%d@%d' % (x.type, x.address)
        return repr(x)
    return '[%s]' % ', '.join(map(one, xs))


def same(want, got):
    def eq(a, b):
        if isinstance(a, tuple):
            return isinstance(b, tuple) and len(a) == len(b) and all(map(eq, a, b))
        return a is b if isinstance(a, Ob) else a == b and type(a) is type(b)
    return len(want) == len(got) and all(map(eq, want, got))


class Judge:
    def __init__(self, r, h, scr, tree):
        self.r, self.h, self.scr, self.tree = r, h, scr, tree

    def __call__(self, rule, name, args, what, want, how, got):
        where = self.h.where.get(name, name)
        what = '%s(%s): %s' % (name, what, self.tree)
        if how == 'raise':
            self.r.bad(rule, what, where, 'raises %s instead of delivering %s' % (got, show_list(want, self.scr)))
        else:
            self.r.decide(rule, what, where, same(want, got), 'delivers %s instead of %s' % (show_list(got, self.scr), show_list(want, self.scr)))


def label(t):
    return '/'.join(label(x) for x in t) if isinstance(t, tuple) else t.split('.')[-1]


def with_structure(objects):
    return [s for s in STRUCTURES if not ambiguous(objects, s)]


POSITIONS = {'from the beginning': (), 'after peek': ('peek',), 'after next': ('next',), 'after next and peek': ('next', 'peek'),
             'reading what is found': ('read',)}


def tree_unit(r, name, tree, positions):
    h = Search()
    I = h.I
    for pos in positions:
        ops = POSITIONS[pos]
        objects = [build(d) for d in tree]
        scr = Script(objects)
        rest = objects[ops.count('next'):]
        j = Judge(r, h, scr, '%s, %s' % (name, pos))

        kept = []

        def start():
            h.read = 'read' in ops
            if kept:
                coro.stop_all(I)
                return kept[0].snap(), kept[1]
            st = h.begin(scr)
            f = h.open(st)
            for op in ops:
                if op == 'next':
                    S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'next', [f], {}))
                elif op == 'peek':
                    S.attempt(I, st, lambda s: I.call_method(s, f, 'peek', []))
            kept[:] = [st.snap(), f]
            return st, f

        def check(fn, args, kw, what, want):
            try:
                st, f = start()
                how, got = h.call(st, scr, fn, [f] + args(st), kw)
                j('search', fn, args, what, want, how, got)
            except S.Undecidable as e:
                r.open('search', '%s(%s): %s' % (fn, what, j.tree), h.where.get(fn, fn), str(e))
        occurring = [t for t in TYPES if any(is_type(o, t) for o, _ in everything(rest))]
        for t in occurring + [t for t in TYPES if t not in occurring][:1] + [('simtel.MCShower', 'simtel.ArrayEvent'), ('iact.Photons', 'simtel.ADCSums')]:
            ty = h.type(t)
            top = [o for o in rest if is_type(o, t)]
            for fn in ('collect_toplevel_of_type', 'yield_toplevel_of_type'):
                check(fn, lambda st: [ty], {}, label(t), top)
            inner = list(outermost(rest, t))
            if any(is_type(x, t) for o in inner for x, _ in everything(o.subs or ())):
                continue
            check('yield_subobjects', lambda st: [ty], {}, label(t), inner)
            for n in (0, 1, 2, 4) if not ops else (2,):
                check('yield_n_subobjects', lambda st: [ty, C(n)], {}, '%s, %d' % (label(t), n), inner[:n])
            check('yield_n_subobjects', lambda st: [ty], {}, label(t), inner[:3])
            # the first, then the next one
            try:
                st, f = start()
                for k in range(len(top) + 1):
                    how, got = h.call(st, scr, 'find_type', [f, ty])
                    if k < len(top):
                        j('first', 'find_type', None, '%s, call %d' % (label(t), k + 1), [top[k]], how, got)
                    else:
                        r.decide('first', 'find_type(%s), call %d: %s' % (label(t), k + 1, j.tree), h.where['find_type'], how == 'raise',
                                 'there is no such object, but something is returned')
            except S.Undecidable as e:
                r.open('first', 'find_type(%s): %s' % (label(t), j.tree), h.where.get('find_type', ''), str(e))
        for s in with_structure(rest):
            want = list(nested(rest, s))
            for fn in ('find_all_subobjects', 'yield_all_subobjects'):
                check(fn, lambda st: [I.new_list(st, [h.type(t) for t in s])], {}, '/'.join(map(label, s)), want)
        check('yield_all_objects_depth_first', lambda st: [], {}, '', list(everything(rest)))
        check('yield_all_objects_depth_first', lambda st: [], {'level': C(2)}, 'level=2', list(everything(rest, 2)))
        if not ops:
            objects_below(r, h, scr, rest, j, check)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def objects_below(r, h, scr, rest, j, check):
    """searches that start at an object of the file"""
    I = h.I
    for k, o in enumerate(rest[:4]):
        if o.subs is None:
            continue

        def go(fn, args, what, want):
            try:
                st = h.begin(scr)
                f = h.open(st)
                for _ in range(k + 1):
                    _, x = S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'next', [f], {}))
                how, got = h.call(st, scr, fn, [x] + args)
                j('inside', fn, args, 'object %d, %s' % (k + 1, what), want, how, got)
            except S.Undecidable as e:
                r.open('inside', '%s(object %d, %s): %s' % (fn, k + 1, what, j.tree), h.where.get(fn, fn), str(e))
        for t in ('simtel.TelescopeEvent', 'simtel.ADCSums', 'iact.Photons', 'simtel.ArrayEvent'):
            go('yield_subobjects', [h.type(t)], label(t), list(outermost([o], t)))
            go('yield_toplevel_of_type', [h.type(t)], label(t), [x for x in o.subs if is_type(x, t)])
        go('yield_all_objects_depth_first', [], '', list(everything(o.subs)))


def cut_unit(r, name, tree):
    """the file ends inside of or in front of some object"""
    h = Search()
    I = h.I
    objects = [build(d) for d in tree]
    scr = Script(objects)
    places = []
    for a, o in sorted(scr.table.items()):
        if o.subs is None and o.psize > 1:
            places.append((a + o.psize // 2, o, 'inside of'))
        places.append((a - 5, o, 'in the header of'))
    for size, at, how_cut in places:
        if size <= 16:
            continue
        complete = [o for o in objects if o.start + total(o) <= size]
        touched = [o for o in objects if o.start < size < o.start + total(o)]
        if not complete and size < 20 or not touched:
            continue
        cut = touched[0]
        kept = []
        what = 'the file ends %s object %d@%d' % (how_cut, at.type, at.address)

        def run(fn, args, label_, want, maybe, silent):
            try:
                if kept:
                    coro.stop_all(I)
                    st, f = kept[0].snap(), kept[1]
                else:
                    st = h.begin(scr, size)
                    f = h.open(st)
                    kept[:] = [st.snap(), f]
                how, got = h.call(st, scr, fn, [f] + args(st))
            except S.Undecidable as e:
                r.open('truncated', '%s(%s): %s, %s' % (fn, label_, name, what), h.where.get(fn, fn), str(e))
                return
            bad = []
            if silent is None:
                if how == 'raise':
                    bad.append('raises %s although enough is found before' % got)
                    got = h.before
            elif silent:
                if how == 'raise':
                    bad.append('raises %s' % got)
                    got = h.before
                elif not h.warned:
                    bad.append('no warning')
            else:
                if how != 'raise':
                    bad.append('ends without an error')
                else:
                    got = h.before
            got = list(got)
            if not same(want, got[:len(want)]):
                bad.append('delivers %s instead of %s' % (show_list(got, scr), show_list(want, scr)))
            elif not all(any(same([x], [m]) for m in maybe) for x in got[len(want):]):
                bad.append('delivers %s besides %s' % (show_list(got[len(want):], scr), show_list(want, scr)))
            r.decide('truncated', '%s(%s): %s, %s' % (fn, label_, name, what), h.where.get(fn, fn), not bad, '; '.join(bad))
        for t in ('simtel.ArrayEvent', 'simtel.MCShower', 'iact.TelescopeData'):
            for fn in ('collect_toplevel_of_type', 'yield_toplevel_of_type') if size % 3 or not complete else ('yield_toplevel_of_type',):
                run(fn, lambda st: [h.type(t)], label(t), [o for o in complete if is_type(o, t)], [cut] if is_type(cut, t) else [], True)
        for s in with_structure(objects):
            if len(s) > 1:
                want = list(nested(complete, s))
                inside = [o for o in nested([cut], s)]
                done = [o for o in inside if o.address + o.body()[1] <= size]
                args = (lambda s: lambda st: [I.new_list(st, [h.type(t) for t in s])])(s)
                run('find_all_subobjects', args, '/'.join(map(label, s)), want + done, inside, True)
                run('yield_all_subobjects', args, '/'.join(map(label, s)), want + done, inside, False)
        # objects are announced before their contents
        whole = [(o, k) for o, k in everything(objects)
                 if any(x.address + x.body()[1] <= size for x, _ in everything([o])) or o.subs is not None and o.address <= size]
        run('yield_all_objects_depth_first', lambda st: [], '', whole, [(o, k) for o, k in everything(objects)], False)
        for t in ('simtel.ADCSums', 'simtel.ImageParameters', 'iact.Photons'):
            inside = list(outermost([cut], t))
            done = [o for o in inside if o.address + o.body()[1] <= size]
            run('yield_subobjects', lambda st: [h.type(t)], label(t), list(outermost(complete, t)) + done, inside, False)
            found = list(outermost(complete, t)) + done
            for n in range(1, min(len(found), 3) + 1):
                run('yield_n_subobjects', lambda st: [h.type(t), C(n)], '%s, %d' % (label(t), n), found[:n], [], None)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def total(o):
    return o.address - o.start + o.body()[1]


def search_units(pid, tier, seed):
    out = []
    for fn in ('find_type', 'collect_toplevel_of_type', 'yield_toplevel_of_type', 'find_all_subobjects', 'yield_all_subobjects', 'yield_all_objects_depth_first',
               'yield_subobjects', 'yield_n_subobjects'):
        out.append((public_unit, fn, (fn,)))
    pos = list(POSITIONS)
    for n, t in TREES.items():
        out.append((tree_unit, n, (n, t, pos if len(t) > 1 else pos[:2])))
        out.append((cut_unit, n + ', truncated', (n, t)))
    rng = random.Random(1000)
    for k in range(12 if tier == 'quick' else 400):
        t = grow(rng, 0)
        out.append((tree_unit, 'tree %d' % k, ('tree %d' % k, t, pos[:1] + pos[-1:])))
        if k % 4 == 0:
            out.append((cut_unit, 'tree %d, truncated' % k, ('tree %d' % k, t)))
    return out


def public_unit(r, fn):
    h = Search()
    h.function(fn)
    r.ok('present', fn, h.where.get(fn, ''))
