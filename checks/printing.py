"""The printing tools (C28): what they print about scripted files."""
import random
import re
from sa.terms import *
from sa import terms as TM
from sa import coro, interp as IN, front
from .core import Anchor
from . import script as S, search
from .script import Ob, Script
from spec import types as T

TOOLS = 'eventio.scripts.'


class Tool:
    def __init__(self, module):
        self.argv = []
        I = self.I = S.in_steps(S.analysis())
        I.module('spec.cutting')
        I.module('spec.printing')
        I.summaries['ext:argparse.ArgumentParser'] = lambda I, st, a, kw: I.instantiate(st, I.lookup_qual('spec.cutting', 'Parser'), [], {})
        I.summaries['ext:collections.Counter'] = lambda I, st, a, kw: I.instantiate(st, I.lookup_qual('spec.printing', 'Counter'), a, kw)
        for n in ('datetime.datetime.fromtimestamp', 'datetime.datetime.utcfromtimestamp'):
            I.summaries['ext:' + n] = lambda I, st, a, kw: app('moment', I.freeze(st, a[0]))
        I.summaries['fmt'] = self.text
        I.summaries['spec.cutting.command_line'] = lambda I, st, a, kw: I.new_list(st, [C(x) for x in self.argv])
        self.mod = TOOLS + module
        I.module(self.mod)

    def where(self, name='main'):
        f = self.I.lookup_qual(self.mod, name)
        if f is None or f not in IN.FUNCS:
            raise Anchor('%s.%s' % (self.mod, name))
        return front.loc(IN.FUNCS[f].node)

    def run(self, scr, argv, size=None):
        """(how, value, lines printed, warned)"""
        I = self.I
        coro.stop_all(I)
        self.argv = argv
        st = IN.State(dict(I.heap0))
        S.begin(I, st, scr, size)
        I.effects = []
        f = I.lookup_qual(self.mod, 'main')
        if f is None:
            raise Anchor(self.mod + '.main')
        how, v = S.attempt(I, st, lambda s: I.call(s, f, [], {}))
        lines, self.warned = [], False
        for e in I.effects:
            if e[0] in ('print', 'sys.stdout.write'):
                if e[2] is not TRUE:
                    raise S.Undecidable('printing depends on unknown contents')
                lines.append(e[3])
            elif e[0] in ('warn', 'log', 'sys.stderr.write'):
                self.warned = True
        return how, v, lines

    def text(self, I, st, x, spec, conv):
        """how objects are shown"""
        x = I.simp(st, x)
        if x.k != 'ref' or I.cell(st, x).kind != 'inst':
            return None
        h = I.getattr_or_none(st, x, 'header')
        a = I.getattr_or_none(st, h, 'content_address') if h is not None else None
        if a is None or not is_c(a) or spec:
            return None
        return C('<%s@%d>' % ('repr' if conv == 'r' else 'str', cv(a)))


PARTS = [('the year', 'YygGcsxDF'), ('the month', 'mbBcsxDFjUVW'), ('the day', 'deajcsxDFA'), ('the hour', 'HIcsXTRrk'), ('the minute', 'McsXTRr'), ('the second', 'ScsXTr')]


def moment(t):
    """the time that is shown, if it is one"""
    if t.k != 'app' or len(t.a) < 2:
        return None
    if t.a[0] == 'moment':
        return cv(t.a[1]) if is_c(t.a[1]) else None
    rest = t.a[2:]
    if any(is_c(x) and isinstance(cv(x), str) and '%' in cv(x) for x in t.a[1:]):
        lost = [n for n, codes in PARTS for f in [next(cv(x) for x in t.a[1:] if is_c(x) and isinstance(cv(x), str) and '%' in cv(x))]
                if not any('%' + c in f for c in codes)]
        if lost:
            raise Wrong('times are printed without %s' % ', '.join(lost))
    if t.a[0] == 'fmt':
        return moment(t.a[2]) if len(t.a) == 3 else None
    if t.a[0].startswith(('call:', 'attr:', 'str')) and all(is_c(x) for x in rest):
        return moment(t.a[1])
    return None


def plain(args):
    """a printed line as text, '@t@' stands for the time t"""
    out = []

    def one(t):
        if is_c(t):
            out.append(str(cv(t)))
        elif t.k == 'app' and t.a[0] in ('scat', 'op:Add'):
            for x in t.a[1:]:
                one(x)
        elif t.k == 'exc':
            # the message is not judged
            out.append('(message)')
        else:
            time = moment(t)
            if time is None:
                raise S.Undecidable('what is printed: %s' % show(t)[:120])
            out.append('@%s@' % time)
    for k, t in enumerate(args):
        if k:
            out.append(' ')
        one(t)
    return ''.join(out)


def dumped(args):
    """the value of a line that is JSON"""
    if len(args) == 1 and args[0].k == 'app' and args[0].a[0] == 'call:json.dumps':
        return unfrozen(args[0].a[1])
    raise S.Undecidable('what is printed')


def unfrozen(t):
    if is_c(t):
        return cv(t)
    if t.k in ('list', 'tup'):
        return [unfrozen(x) for x in t.a]
    if t.k == 'nt':
        return unfrozen(t.a[1])
    if t.k == 'dict' and t.a[1] is None:
        return {unfrozen(k): unfrozen(v) for k, v in t.a[0]}
    raise S.Undecidable('what is printed: %s' % show(t)[:100])


def guarded(r, rule, what, where, f):
    try:
        bad = f()
    except S.Undecidable as e:
        r.open(rule, what, where, str(e))
        return
    r.decide(rule, what, where, not bad, bad or '')


# --------------------------------------------------------------------------- structure
def class_of(t):
    """name of the class, None for unknown types"""
    for base, name in ((2100, 'TrackingPosition'), (2200, 'TelescopeEvent')):
        if t >= 2100 and T.telescope_of(base, t) is not None:
            return name
    # both formats have a run header
    return T.IACT.get(t) or T.SIMTEL.get(t) or T.HISTOGRAMS.get(t)


def classes(o):
    """what tells the classes of objects apart, None for those of unknown types"""
    c = class_of(o.type)
    return c and (c, o.type >= 2000)


def structure(objects, most):
    """what is shown: objects, and numbers of objects that are not shown"""
    out, last, n = [], None, 0

    def flush():
        if n > most:
            out.append(n - most)
    for o, level in search.everything(objects):
        c = classes(o)
        if c is None or c != last:
            flush()
            last, n = c, 0
        n += 1
        if n <= most or c is None:
            if c is None and most < 1:
                continue
            out.append((o.address, level))
    flush()
    return out


def shown(lines, how):
    out = []
    for args in lines:
        for l in plain(args).split('\n'):
            m = re.search('<(str|repr)@(\\d+)>', l)
            if m:
                if m.group(1) != how:
                    raise Wrong('an object is shown by %s' % m.group(1))
                out.append((int(m.group(2)), len(l) - len(l.lstrip(' '))))
            else:
                n = re.search('\\d+', l)
                if n:
                    out.append(int(n.group(0)))
                elif l.strip():
                    out.append(l)
    return out


class Wrong(Exception):
    pass


def levels(found, scr, bad):
    """indentation must grow with the level"""
    table = {}
    for x in found:
        if isinstance(x, tuple):
            k = scr.level.get(x[0])
            if k is not None and table.setdefault(k, x[1]) != x[1]:
                bad.append('objects of level %d are indented differently' % k)
    ks = sorted(table)
    if any(table[a] >= table[b] for a, b in zip(ks, ks[1:])):
        bad.append('the indentation does not grow with the level')


def script(tree, versions=False):
    objects = [search.build(d) for d in tree]
    for k, (o, _) in enumerate(search.everything(objects)):
        if versions and o.type in (2010, 2020, 2021, 9999):
            o.version = k % 3
    scr = Script(objects)
    scr.level = {o.address: k for o, k in search.everything(objects)}
    return scr


def structure_unit(r, name, tree, options):
    t = Tool('print_structure')
    where = t.where('print_structure')
    scr = script(tree)
    for argv, most, how in options:
        def judge():
            res, v, lines = t.run(scr, argv)
            if res == 'raise':
                return 'raises %s' % v
            try:
                found = shown(lines, how)
            except Wrong as e:
                return str(e)
            bad = []
            levels(found, scr, bad)
            got = [x[0] if isinstance(x, tuple) else ('more', x) for x in found]
            want = [x[0] if isinstance(x, tuple) else ('more', x) for x in structure(scr.objects, most)]
            if got != want:
                bad.append('shows %s instead of %s' % (got, want))
            return '; '.join(bad)
        guarded(r, 'structure', '%s, %s' % (name, ' '.join(argv[1:]) or 'without options'), where, judge)
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


def cuts(scr):
    """(size, objects that are complete, objects that may be shown as well)"""
    for a, o in sorted(scr.table.items()):
        for size in ([a + o.psize // 2] if o.subs is None and o.psize > 1 else []) + [a - 5]:
            if size < 20 or size in scr.ends:
                continue
            whole = [x for x, k in search.everything(scr.objects) if x.address + x.body()[1] <= size]
            begun = [x for x, k in search.everything(scr.objects) if x.address <= size]
            yield size, whole, begun


def structure_cut_unit(r, name, tree):
    t = Tool('print_structure')
    where = t.where('print_structure')
    scr = script(tree)
    for size, whole, begun in cuts(scr):
        def judge():
            res, v, lines = t.run(scr, ['x', '-m', '1000'], size)
            if res == 'raise':
                return 'raises %s' % v
            try:
                found = shown(lines, 'str')
            except Wrong as e:
                return str(e)
            got = [x[0] for x in found if isinstance(x, tuple)]
            order = [o.address for o, k in search.everything(scr.objects)]
            if got != order[:len(got)]:
                return 'shows %s, the objects are %s' % (got, order)
            missing = [o.address for o in whole if o.address not in got]
            if missing:
                return 'objects %s are complete but not shown' % missing
            if any(a not in {o.address for o in begun} for a in got):
                return 'an object behind the end is shown'
            if not t.warned and all(isinstance(x, tuple) for x in found):
                return 'the truncation is not mentioned'
            return ''
        guarded(r, 'truncated', '%s, structure, ends at %d' % (name, size), where, judge)
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


# --------------------------------------------------------------------------- numbers of objects
def kind(o, level):
    c = class_of(o.type)
    number = {'TrackingPosition': 2100, 'TelescopeEvent': 2200}.get(c, o.type)
    return number, o.version, level, c or 'EventIOObject'


def counted(objects):
    out = {}
    for o, level in objects:
        k = kind(o, level)
        out[k] = out.get(k, 0) + 1
    return out


def table(lines):
    out = {}
    for args in lines:
        for l in plain(args).split('\n'):
            m = re.match(r'\W*(\d+)\W+(\d+)\W+(\d+)\W+(\d+)\W+([\w.]+)\s*$', l)
            if m:
                k = tuple(map(int, m.group(1, 2, 3))) + (m.group(5).split('.')[-1],)
                if k in out:
                    raise Wrong('%s occurs twice' % (k,))
                out[k] = int(m.group(4))
    return out


def json_table(lines):
    out = {}
    for args in lines:
        for d in dumped(args):
            k = d['type'], d['version'], d['level'], d['name'].split('.')[-1]
            if k in out:
                raise Wrong('%s occurs twice' % (k,))
            out[k] = d['number_of_objects']
    return out


def numbers_unit(r, name, tree):
    t = Tool('print_object_information')
    where = t.where()
    scr = script(tree, True)
    want = counted(search.everything(scr.objects))
    for argv, read in ((['x'], table), (['x', '--json'], json_table)):
        def judge():
            res, v, lines = t.run(scr, argv)
            if res == 'raise':
                return 'raises %s' % v
            try:
                got = read(lines)
            except Wrong as e:
                return str(e)
            return '' if got == want else 'reports %s instead of %s' % (sorted(got.items()), sorted(want.items()))
        guarded(r, 'numbers', '%s %s' % (name, ' '.join(argv[1:])), where, judge)
    for size, whole, begun in cuts(scr):
        def judge():
            res, v, lines = t.run(scr, ['x'], size)
            if res == 'raise':
                return 'raises %s' % v
            try:
                got = table(lines)
            except Wrong as e:
                return str(e)
            ids = {id(o) for o in whole}
            least = counted((o, k) for o, k in search.everything(scr.objects) if id(o) in ids)
            ids = {id(o) for o in begun}
            most = counted((o, k) for o, k in search.everything(scr.objects) if id(o) in ids)
            bad = [k for k in set(got) | set(least) if not least.get(k, 0) <= got.get(k, 0) <= most.get(k, 0)]
            if bad:
                return 'reports %d of %s' % (got.get(bad[0], 0), bad[0])
            return '' if t.warned else 'the truncation is not mentioned'
        guarded(r, 'truncated', '%s, numbers, ends at %d' % (name, size), where, judge)
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


# --------------------------------------------------------------------------- history and meta data
def entry(t, time, line):
    return Ob(t, 0, result=(time, line))


HISTORIES = {
    'one block': lambda: [Ob(70, 0, [entry(71, 1400000001, b'sim_telarray -c x'), entry(72, 1400000002, b'A = 1'), entry(72, 1400000003, b'B = 2')]), Ob(2000)],
    'several blocks': lambda: [Ob(70, 0, [entry(71, 5, b'merge')]), Ob(70, 1, [entry(72, 1400000002, b'A = 1')]), Ob(70, 2, [entry(71, 7, b' x  '), entry(72, 8, b'y\n')]), Ob(2000),
                               Ob(2001)],
    'nothing else': lambda: [Ob(70, 0, [entry(71, 1400000001, b'command')]), Ob(70, 0, [entry(72, 1400000009, b'Z')])],
    'no history': lambda: [Ob(2000), Ob(2001)],
    'empty block': lambda: [Ob(70, 0, []), Ob(70, 0, [entry(72, 1400000009, b'Z')]), Ob(2000)],
    'equal lines': lambda: [Ob(70, 0, [entry(72, 3, b'Z')] * 1 + [entry(72, 3, b'Z')]), Ob(75, -1, result={}), Ob(2000)],
    'not ascii': lambda: [Ob(70, 0, [entry(72, 3, 'µ = ä'.encode())]), Ob(2000)],
}


def history_unit(r, name):
    t = Tool('print_simtel_history')
    where = t.where('print_history')
    scr = Script(HISTORIES[name]())
    want = []
    for o in scr.objects:
        if o.type != 70:
            break
        want += [(s.result[0], s.result[1].decode().strip()) for s in o.subs]

    def judge():
        res, v, lines = t.run(scr, ['x'])
        if res == 'raise':
            return 'raises %s' % v
        try:
            got = [plain(a) for a in lines]
        except Wrong as e:
            return str(e)
        if len(got) != len(want):
            return 'prints %d lines instead of %d' % (len(got), len(want))
        for g, (time, line) in zip(got, want):
            if '@%d@' % time not in g or not g.strip().endswith(line):
                return 'prints %r for the line %r of time %d' % (g, line, time)
        return ''
    guarded(r, 'history', name, where, judge)
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


def meta(ident, **kw):
    return Ob(75, ident, result={k.encode('latin1'): v.encode('latin1') for k, v in kw.items()})


METAS = {
    'global and telescopes': lambda: [Ob(70, 0, [entry(71, 5, b'x')]), meta(-1, A='1', B='two words'), meta(1, T='a'), meta(2, T='b', U='c'), Ob(2000)],
    'global last': lambda: [Ob(70, 0, [entry(71, 5, b'x')]), meta(3, T='a'), meta(1, T='b'), meta(-1, A='1'), Ob(2000)],
    'telescopes only': lambda: [meta(7, T='a', S=''), meta(1000, T='b'), Ob(2000), Ob(2001)],
    'global only': lambda: [Ob(70, 0, []), meta(-1, A='1'), Ob(2000)],
    'at the end': lambda: [Ob(70, 0, []), meta(-1, A='1'), meta(0, T='zero')],
    'none': lambda: [Ob(70, 0, []), Ob(2000), Ob(2001)],
    'later ones': lambda: [Ob(70, 0, []), meta(-1, A='1'), Ob(2000), meta(-1, A='2'), meta(5, T='x')],
    'empty': lambda: [meta(-1), meta(4), Ob(2000)],
    'not ascii': lambda: [meta(-1, A='\xe4'), meta(4, T='\xb5m'), Ob(2000)],
}


def meta_unit(r, name):
    t = Tool('print_simtel_metaparams')
    where = t.where('print_metaparams')
    scr = Script(METAS[name]())
    first = []
    for o in scr.objects:
        if o.type == 75:
            first.append(o)
        elif first:
            break
    text = {o.id: {k.decode('latin1'): v.decode('latin1') for k, v in o.result.items()} for o in first}
    glob, tels = text.get(-1), {k: v for k, v in text.items() if k != -1}
    latin = ['--encoding', 'latin1'] if name == 'not ascii' else []

    def judge():
        res, v, lines = t.run(scr, ['x'] + latin)
        if res == 'raise':
            return 'raises %s' % v
        got = []
        for a in lines:
            for l in plain(a).split('\n'):
                m = re.match(r'(?i)^.*telescope\D*(\d+)\D*$', l)
                if ' = ' in l:
                    got.append(l)
                elif m:
                    got.append(int(m.group(1)))
        want = ['%s = %s' % x for x in (glob or {}).items()]
        for k, d in tels.items():
            want += [k] + ['%s = %s' % x for x in d.items()]
        return '' if got == want else 'prints %s instead of %s' % (got, want)
    guarded(r, 'meta', name, where, judge)

    def judge_json():
        res, v, lines = t.run(scr, ['x', '--json'] + latin)
        if res == 'raise' and v != 'SystemExit':
            return 'raises %s' % v
        if len(lines) != 1:
            return 'prints %d times' % len(lines)
        got = dumped(lines[0])
        want = {'global': glob, 'telescopes': tels}
        return '' if got == want else 'prints %s instead of %s' % (got, want)
    guarded(r, 'meta', name + ', json', where, judge_json)
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


# --------------------------------------------------------------------------- units
SERIES = {
    'series': [search.leaf(2020, k) for k in range(8)] + [search.leaf(2021)] + [search.leaf(2020, k) for k in range(5)] + [search.leaf(2000)] * 1 + [search.leaf(2021, k) for k in range(6)],
    'unknown types': [search.leaf(9999, k) for k in range(7)] + [search.leaf(9998)] * 2 + [search.leaf(2020)],
    'series inside': [search.event(*[search.leaf(2100 + k) for k in range(1, 9)]), search.event(search.tel(1, *[search.leaf(2012, k) for k in range(7)]), search.leaf(2101)),
                      search.leaf(2020)],
    'series over levels': [search.node(2010, search.node(2010, search.leaf(2009)), k=1), search.node(2010), search.node(2010), search.leaf(2009), search.node(2010, search.leaf(2009))],
    'equal names': [search.leaf(1200)] * 2 + [search.leaf(2000)] * 3 + [search.leaf(1200), search.leaf(1210)] + [search.leaf(2001)],
    'series of telescopes': [search.event(*[search.node(2200 + k) for k in range(1, 12)])],
}
OPTIONS = [(['x'], 5, 'str'), (['x', '-m', '1'], 1, 'str'), (['x', '--max-repeats', '3'], 3, 'str'), (['x', '-r'], 5, 'repr'), (['x', '--repr', '-m', '2'], 2, 'repr')]


def print_units(pid, tier, seed):
    out = []
    trees = dict(search.TREES)
    trees.update(SERIES)
    rng = random.Random(2000)
    for k in range(6 if tier == 'quick' else 200):
        trees['tree %d' % k] = search.grow(rng, 0)
    for n, tree in trees.items():
        out.append((structure_unit, n + ', structure', (n, tree, OPTIONS)))
        out.append((structure_cut_unit, n + ', structure, truncated', (n, tree)))
        out.append((numbers_unit, n + ', numbers', (n, tree)))
    for n in HISTORIES:
        out.append((history_unit, n + ', history', (n,)))
    for n in METAS:
        out.append((meta_unit, n + ', meta', (n,)))
    return out
