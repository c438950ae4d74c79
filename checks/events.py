"""Events of sim_telarray files (C18 to C21): scripted histories against the reference reader."""
import collections
import copy
import time
from sa.terms import *
from sa import lib as L, terms as TM
from sa import equiv, model, interp as IN, front
from spec import events as E
from .core import Anchor, CURRENT, PROVED, AGREE
from . import script as S
from .script import Ob, Script, EOF, BAD
from .layout import CL


# --------------------------------------------------------------------------- vocabulary
def trigger(tels, ident=0):
    return Ob(2009, ident, result={'telescopes_with_data': list(tels), 'what': '$'})


def tel_event(t, full=False):
    subs = [Ob(2011, t)]
    if full:
        subs += [Ob(2013, t << 12), Ob(2012, t << 12), Ob(2016, t), Ob(2014, t), Ob(2027, t), Ob(2027, 1000000 + t),
                 Ob(2032, t), Ob(2029, 1), Ob(2030, 2), Ob(2999, 0)]
    return Ob(2200 + t % 100 + 1000 * (t // 100), 7, subs)


def tracking(t):
    return Ob(2100 + t % 100 + 1000 * (t // 100), (t & 0xff) | (t >> 8) << 24)


def array(tels, track, trig=0, ident=5, stereo=True, full=False):
    return Ob(2010, ident, [trigger(tels, trig)] + [tel_event(t, full) for t in tels] + [tracking(t) for t in track]
              + ([Ob(2015, 0)] if stereo else []))


def split_id(t):
    return (t & 0xff) | (t >> 8) << 24


def photons(ident, emitter):
    return Ob(1205, ident, result=('$p', '$e' if emitter else None))


def mon(typ, t, keys):
    return Ob(typ, split_id(t) if typ == 2022 else t, result={k: '$' + k for k in keys})


def fails(o, how=EOF):
    """the last object in it cannot be parsed"""
    x = o
    while x.subs:
        x = x.subs[-1]
    x.result = how
    return o


def pe_block(tels, ident=0):
    return Ob(1204, ident, [Ob(1208, 1000 * 3 + t) for t in tels])


WORDS = {
    'shower': lambda k: Ob(2020, k),
    'event': lambda k: Ob(2021, 100 + k),
    'array 1 2': lambda k: array((1, 2), (1, 2), 200 + k),
    'array 2': lambda k: array((2,), (1, 2, 3), 0, 300 + k),
    'array none': lambda k: array((), (1, 2), 400 + k),
    'array full': lambda k: array((2, 300), (2, 300), 500 + k, full=True),
    'array without stereo': lambda k: array((3, 1), (3, 1), 600 + k, stereo=False),
    'array, tracking missing': lambda k: array((1, 2), (1,), 700 + k),
    'photons': lambda k: Ob(1204, k, [photons(1000 * k + 1, True), photons(1000 * k + 2, False)]),
    'photo-electrons': lambda k: pe_block((1, 2), k),
    'both': lambda k: Ob(1204, k, [photons(1, False), Ob(1208, 2), Ob(1299, 0)]),
    'sums': lambda k: Ob(2026, k),
    'particles': lambda k: photons(999999, False),
    'camera 1': lambda k: mon(2022, 1, 'ab'),
    'camera 1 partly': lambda k: mon(2022, 1, 'b'),
    'camera 2': lambda k: mon(2022, 2, 'ab'),
    'laser 2': lambda k: mon(2023, 2, 'ac'),
    'laser 300': lambda k: mon(2023, 300, 'ac'),
    'camera 300': lambda k: mon(2022, 300, 'ab'),
    'pixels 300': lambda k: mon(2033, 300, 'de'),
    'laser 2 partly': lambda k: mon(2023, 2, 'c'),
    'pixels 1': lambda k: mon(2033, 1, 'de'),
    'pixels 1 partly': lambda k: mon(2033, 1, 'd'),
    'calibration 1': lambda k: Ob(2028, 3, [array((1, 2), (1, 2), 800 + k)]),
    'calibration none': lambda k: Ob(2028, 3, [array((), (1,), 0, 900 + k)]),
    'calibration pe': lambda k: Ob(2034, k, [pe_block((1, 2))]),
    'calibration pe 2': lambda k: Ob(2034, k, [Ob(1204, 0, [Ob(1208, 2), Ob(1999, 1), Ob(1208, 3)])]),
    'calibration pe odd': lambda k: Ob(2034, k, [Ob(1999, 0)]),
    'histograms': lambda k: Ob(100, k),
    'history': lambda k: Ob(70, k, [Ob(71, 0), Ob(72, 1), Ob(71, 2)]),
    'meta': lambda k: Ob(75, -1),
    'meta 1': lambda k: Ob(75, 1),
    'meta 0': lambda k: Ob(75, 0),
    'simulation header': lambda k: Ob(2001, k),
    'input card': lambda k: Ob(1212, k),
    'profile': lambda k: Ob(1216, k),
    'run header': lambda k: Ob(2000, k, result={'n_telescopes': 2, 'what': '$'}),
    'pointing 2': lambda k: Ob(2007, 2),
    'settings 1': lambda k: Ob(2002, 1),
    'statistics': lambda k: Ob(2024, k),
    'unknown': lambda k: Ob(9999, k),
}
for _n in ('event', 'array 1 2', 'shower', 'photo-electrons', 'calibration 1', 'camera 1', 'histograms', 'calibration pe', 'sums'):
    WORDS[_n + ' (cut)'] = lambda k, n=_n: fails(WORDS[n](k))
for _n in ('event', 'array 1 2', 'calibration 1'):
    WORDS[_n + ' (bad)'] = lambda k, n=_n: fails(WORDS[n](k), BAD)


def header(tels=(1, 2)):
    out = [Ob(70, 0, [Ob(71, 0), Ob(72, 0)]), WORDS['run header'](0), WORDS['simulation header'](0)]
    for t in tels:
        out += [Ob(c, t) for c in (2002, 2003, 2004, 2005, 2006, 2008, 2007)]
    return out


# --------------------------------------------------------------------------- one history
class History:
    """the reader of the repository and the reference on a script"""

    def __init__(self, I, settings):
        self.I, self.settings = I, settings

    def expected(self, objects, ends, skip_header):
        """[('event', value) | ('end',) | ('raise',)], warnings expected"""
        s = self.settings
        ref = E.Reader(S.parsed, s['allowed'])
        out = []
        self.ref = ref
        try:
            for k, o in enumerate(objects):
                for e in ref.feed(o):
                    self.emit(out, e)
        except E.EOF:
            ends = 'EOF'
        except E.Fails:
            out.append(('raise',))
            return out, None
        cut = ends == 'EOF'
        if not ref.over:
            for e in ref.end():
                self.emit(out, e)
        else:
            cut = False
        return out + [('end',)], cut

    def emit(self, out, e):
        s = self.settings
        if E.delivered(e, s['skip_non_triggered'], s['skip_calibration']):
            out.append(('event', dict(e)))

    def open(self, st, scr, size=None):
        S.begin(self.I, st, scr, size)
        return self.make(st)

    def make(self, st):
        I = self.I
        cls = I.lookup_qual('eventio.simtel', 'SimTelFile')
        if cls is None:
            raise Anchor('SimTelFile')
        s = self.settings
        kw = {'skip_non_triggered': C(s['skip_non_triggered']), 'skip_calibration': C(s['skip_calibration'])}
        if s['allowed'] is not None:
            kw['allowed_telescopes'] = I.new_list(st, [C(t) for t in sorted(s['allowed'])])
        return I.instantiate(st, cls, [S.PATH], kw)

    def run(self, scr, limit, size=None):
        """what the code delivers: results, frozen when they are delivered and once more at the end; warnings; attributes"""
        I = self.I
        st = IN.State(dict(I.heap0))
        I.effects = []
        how, o = S.attempt(I, st, lambda s: self.open(s, scr, size))
        if how == 'raise':
            return [('raise', o)], [], None, None
        it = self.I.lib.call_ext(I, st, 'iter', [o], {})
        out, refs = [], []
        ended = 0
        while len(out) < limit and ended < 3:
            how, v = S.attempt(I, st, lambda s: I.lib.call_ext(I, s, 'next', [it], {}))
            if how == 'raise':
                out.append(('end',) if v == 'StopIteration' else ('raise', v))
                refs.append(None)
                ended += 1
                if v != 'StopIteration':
                    break
            else:
                out.append(('event', S.View(I, st)(v)))
                refs.append(v)
        late = [S.View(I, st)(v) if v is not None else None for v in refs]
        self.state, self.object = st, o
        return out, late, [e for e in I.effects if e[0] == 'warn'], st

    def attributes(self):
        out = {}
        for n in self.ref.attrs:
            v = self.I.getattr_or_none(self.state, self.object, n)
            out[n] = None if v is None else S.View(self.I, self.state)(v)
        return out


OPEN = ('stereo_reconstruction', 'tracking_positions', 'trigger_information')


def differences(e, x):
    """paths at which the delivered event x is not the expected one"""
    out = []
    if '?' in e:
        e = {k: v for k, v in e.items() if k not in OPEN and k != '?'}
        x = {k: v for k, v in x.items() if k not in OPEN}
    if e.get('type') == 'calibration' and isinstance(x.get('event_id'), int):
        # the sign of the number of a calibration event is open
        e, x = dict(e, event_id=abs(e['event_id'])), dict(x, event_id=abs(x['event_id']))
    compare('', e, x, out)
    return out


def compare(path, e, x, out):
    if isinstance(e, dict) and isinstance(x, dict):
        for k in e:
            if k not in x:
                out.append('%s[%r] is missing' % (path, k))
            else:
                compare('%s[%r]' % (path, k), e[k], x[k], out)
        for k in x:
            if k not in e:
                out.append('%s[%r] should not be there, it is %r' % (path, k, x[k]))
        if list(e) != [k for k in x if k in e] and path.endswith(']') and not out and path[-2:] != "']":
            pass
    elif not same(e, x):
        out.append('%s is %r instead of %r' % (path or 'the event', x, e))


def same(e, x):
    if isinstance(e, (list, tuple)) and isinstance(x, (list, tuple)):
        return len(e) == len(x) and all(same(p, q) for p, q in zip(e, x))
    if isinstance(e, dict) and isinstance(x, dict):
        o = []
        compare('', e, x, o)
        return not o
    return type(e) is type(x) and e == x


def strip(m):
    """dictionaries of telescopes without any data"""
    return {k: v for k, v in m.items() if v != {}} if isinstance(m, dict) else m


def judge(h, words, objects, ends, size=None, written=None):
    """problems [(rule, text)] of one history, or None if anything is accepted"""
    try:
        exp, cut = h.expected(objects, ends, True)
    except E.Anything:
        return None
    scr = Script(objects if written is None else objects + written[len(objects):])
    # tokens exist now
    exp, cut = h.expected(objects, ends, True)
    got, late, warns, st = h.run(scr, len(exp) + 6, size)
    bad = []
    n = 0
    for k, e in enumerate(exp):
        if k >= len(got):
            bad.append(('order', 'only %d of %d results' % (len(got), len(exp))))
            break
        g = got[k]
        if e[0] != g[0]:
            what = {'event': 'an event', 'end': 'the end', 'raise': 'an error'}
            bad.append(('order', 'request %d yields %s%s instead of %s' % (k + 1, what[g[0]], ' (%s)' % g[1] if g[0] == 'raise' else
                        brief(g[1]) if g[0] == 'event' else '', what[e[0]] + (brief(e[1]) if e[0] == 'event' else ''))))
            break
        if e[0] == 'event':
            for d in differences(e[1], g[1]):
                bad.append(('content', 'event %d: %s' % (k + 1, d)))
            if late[k] != g[1]:
                d = []
                compare('', g[1], late[k], d)
                bad.append(('later', 'event %d changes after it was delivered: %s' % (k + 1, '; '.join(d)[:200])))
    else:
        if exp and exp[-1] == ('end',):
            for g in got[len(exp):]:
                if g[0] != 'end':
                    bad.append(('end', 'after the end a further request yields %s' % (g[0] + (brief(g[1]) if g[0] == 'event' else ''))))
                    break
            if cut and not warns:
                bad.append(('warning', 'no warning although the file is truncated'))
        if not bad and st is not None and exp[-1] == ('end',):
            a = h.attributes()
            for n, v in h.ref.attrs.items():
                d = []
                compare(n, strip(v), strip(a[n]), d)
                bad += [('attribute', x) for x in d]
    return bad


def brief(e):
    return ' (%s %s)' % (e.get('type'), e.get('event_id')) if isinstance(e, dict) else ''


# --------------------------------------------------------------------------- all histories
class Node:
    """a state of the reader together with the state of the reference, and one history that leads there"""

    def __init__(self, st, words, ref, last, tail, at, now=None, pos=None):
        """st: state after the last delivery, tail: (position, objects) from the one that was read last then; at: signature of the call that waits"""
        self.st, self.words, self.ref, self.last, self.tail, self.at = st, words, ref, last, tail, at
        self.now, self.pos = now, pos


class Canon:
    """a state up to the names of values and objects"""

    def __init__(self, I, st):
        self.I, self.st = I, st
        self.refs, self.names = {}, {}

    def name(self, x):
        return self.names.setdefault(x, len(self.names))

    def term(self, t):
        if not isinstance(t, TM.T):
            if isinstance(t, (tuple, list)):
                return tuple(self.term(x) for x in t)
            return t if isinstance(t, (str, int, float, bytes, bool, type(None))) else repr(t)
        t = self.I.simp(self.st, t)
        if t.k == 'ref':
            return self.cell(t)
        if is_c(t):
            return self.const(cv(t))
        if t.k == 'sym':
            return ('value', self.name(t))
        return (t.k,) + tuple(self.term(x) for x in t.a)

    def const(self, v):
        if type(v) is int and (v >= 100 and v != 300 or v <= -100):
            return ('number', v > 0, self.name(abs(v)))
        return repr(v)

    def cell(self, t):
        if t in self.refs:
            return ('again', self.refs[t])
        self.refs[t] = len(self.refs)
        c = self.I.cell(self.st, t)
        if c.kind == 'inst':
            q = CL(c.meta['cls']).qual
            if q.startswith('eventio.') and c.meta['cls'] in model.object_classes(self.I) or q.startswith('eventio.base.'):
                return (q,)
            return (q,) + tuple((k, self.term(v)) for k, v in sorted(c.s.items()))
        if c.kind == 'bio':
            return ('file',)
        return (c.kind,) + tuple((self.key(k), self.term(v) if isinstance(v, TM.T) else repr(v)) for k, v in c.s.items()
                                 if v is not IN.UNDEF)

    def rough(self, t):
        """a local variable"""
        if not isinstance(t, TM.T):
            return repr(t)
        t = self.I.simp(self.st, t)
        if t.k == 'ref':
            return ('ref', self.refs[t]) if t in self.refs else self.I.cell(self.st, t).kind
        return self.const(cv(t)) if is_c(t) else t.k

    def shared(self, t):
        """paths in t that lead to known objects"""
        out, seen = [], set()

        def walk(t, path):
            if not isinstance(t, TM.T):
                if isinstance(t, (tuple, list)):
                    for k, x in enumerate(t):
                        walk(x, path + (k,))
                return
            t = self.I.simp(self.st, t)
            if t.k == 'ref':
                if t in self.refs:
                    out.append((path, self.refs[t]))
                if t in seen:
                    return
                seen.add(t)
                c = self.I.cell(self.st, t)
                if c.kind != 'bio':
                    for k, v in c.s.items():
                        walk(v, path + (self.key(k),))
                return
            walk(list(t.a), path)
        walk(t, ())
        return tuple(out)

    def key(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'k':
            return self.term(k[1]) if isinstance(k[1], TM.T) else self.const(k[1])
        return k if isinstance(k, str) else repr(k)

    def value(self, v):
        """a value of the reference"""
        if isinstance(v, S.Tok):
            return ('value', self.name(v.t))
        if isinstance(v, dict):
            return ('dict',) + tuple((self.value(k), self.value(x)) for k, x in v.items())
        if isinstance(v, (list, tuple)):
            return (type(v).__name__,) + tuple(self.value(x) for x in v)
        if isinstance(v, (int, str)):
            return self.const(v)
        return repr(v)


ENDS = {'end': 0, 'end in a header': 9, 'end in a payload': 16 + 20}


class Explorer:
    """all histories over a vocabulary, up to states that are alike"""

    def __init__(self, settings, words, deadline, max_states=10000):
        self.I = S.analysis()
        self.h = History(self.I, settings)
        self.settings, self.words, self.deadline, self.max_states = settings, words, deadline, max_states
        self.problems = {}      # word -> (rule, text, history)
        self.states = self.steps = 0
        self.complete = False
        self.unconfirmed = []
        self.undecided = {}

    # ---- one step
    def start(self):
        I = self.I
        head = header()
        scr = Script(head)
        st = IN.State(dict(I.heap0))
        S.begin(I, st, scr, endless=True)
        I.effects = []
        how, o = S.paused(I, st, lambda s: self.h.make(s))
        if how != 'value':
            raise Undecidable('the file cannot be opened: %s' % (o,))
        self.object = o
        how, it = S.paused(I, st, lambda s: self.I.lib.call_ext(I, s, 'iter', [o], {}))
        if how != 'value':
            raise Undecidable('no iterator: %s' % (it,))
        self.iterator = it
        ref = E.Reader(S.parsed, self.settings['allowed'])
        for x in head:
            ref.feed(x)
        how, _ = S.paused(I, now := st.snap(), lambda s: self.I.lib.call_ext(I, s, 'next', [it], {}))
        if how != 'pause':
            raise Undecidable('something is delivered behind the header')
        return Node(st, (), ref, None, (scr.size, []), self.signature(now))

    def file_size(self, st, n):
        for k, c in list(st.heap.items()):
            if c.kind == 'bio' and c.s['buf'] is S.PLAIN:
                st.heap[k] = IN.Cell(c.kind, c.s, dict(c.meta, size=C(n)))
        S.fileio.FS_VALUE[0] = C(n)

    def step(self, node, word):
        """(problems, following node or None)"""
        I = self.I
        last = word in ENDS
        ob = None if word == 'end' else Ob(9999, 5) if last else WORDS[word](len(node.words))
        ref = copy.deepcopy(node.ref)
        want, cut = [], last and word != 'end'
        if word.endswith(')') and '(cut)' in word:
            last = True
        begin, tail = node.tail
        tail = tail + ([ob] if ob else [])
        scr = Script(tail, start=begin)
        pos = ob.start if ob else scr.size
        over = False
        try:
            if ob is not None and word not in ENDS:
                want += ref.feed(ob)
        except E.EOF:
            last = cut = True
        except E.Fails:
            over = 'raise'
        except E.Anything:
            return None, None
        if last and not over:
            want += ref.end() if not ref.over else []
            over = 'end'
        if ref.over:
            over = 'end'
        want = [dict(e) for e in want if E.delivered(e, self.settings['skip_non_triggered'], self.settings['skip_calibration'])]
        st = node.st.snap()
        size = pos + ENDS[word] if word in ENDS else scr.size
        last = last or bool(over)
        S.begin(I, st, scr, size, endless=not last)
        self.file_size(st, size if last else S.ENDLESS)
        I.effects = []
        bad, got, rest = [], [], None
        boundary = node.st
        for k in range(len(want) + 1):
            how, v = S.paused(I, st, lambda s: I.lib.call_ext(I, s, 'next', [self.iterator], {}))
            if how != 'value':
                rest = 'end' if (how, v) == ('raise', 'StopIteration') else how if how == 'pause' else v
                break
            got.append((v, S.View(I, st)(v)))
            boundary = st.snap()
        else:
            rest = 'a further event' + brief(got[-1][1])
        for k in range(max(len(want), len(got))):
            if k >= len(got):
                bad.append(('order', 'event%s is not delivered, but %s' % (brief(want[k]), rest)))
            elif k >= len(want):
                break
            else:
                bad += [('content', 'event%s: %s' % (brief(want[k]), d)) for d in differences(want[k], got[k][1])]
        if not bad:
            expected = over or 'pause'
            if expected == 'raise' and rest not in ('end', 'pause') and not rest.startswith('a further'):
                return bad, None
            if rest != expected:
                bad.append(('order', '%s instead of %s' % (rest, expected)))
            elif over == 'end':
                if cut and not any(e[0] == 'warn' for e in I.effects):
                    bad.append(('warning', 'no warning although the file is truncated'))
                for k in range(2):
                    how, v = S.paused(I, st, lambda s: I.lib.call_ext(I, s, 'next', [self.iterator], {}))
                    if (how, v) != ('raise', 'StopIteration'):
                        bad.append(('end', 'after the end a further request yields %s' % how))
                        break
        for v, before in ([node.last] if node.last else []) + got:
            now = S.View(I, st)(v)
            if now != before:
                d = []
                compare('', before, now, d)
                bad.append(('later', 'an event%s changes after it was delivered: %s' % (brief(before), '; '.join(d)[:200])))
        if not bad and over != 'raise':
            self.h.state, self.h.object, self.h.ref = st, self.object, ref
            a = self.h.attributes()
            for n, v in ref.attrs.items():
                d = []
                compare(n, strip(v), strip(a[n]), d)
                bad += [('attribute', x) for x in d]
        if bad or over:
            return bad, None
        if got:
            begin, tail = pos, [ob]
        return bad, Node(boundary, node.words + (word,), ref, got[-1] if got else node.last, (begin, tail), self.signature(st), st, scr.size)

    def signature(self, st):
        """the state in which the reader waits for the next object"""
        c = Canon(self.I, st)
        out = [c.term(self.object), c.term(self.iterator)]
        for q, line, frame in self.I.paused_at:
            if q.startswith('eventio.base.'):
                break
            out.append((q, line) + tuple((n, c.rough(v)) for n, v in sorted(frame.s.items())))
        return c, tuple(out)

    def shorten(self, node):
        """a call that waits like one that has just begun need not be repeated from its beginning"""
        if node.now is None:
            return
        st = node.now.snap()
        S.begin(self.I, st, Script([], start=node.pos), endless=True)
        how, _ = S.paused(self.I, st, lambda s: self.I.lib.call_ext(self.I, s, 'next', [self.iterator], {}))
        if how == 'pause' and self.signature(st)[1] == node.frames:
            node.st, node.tail = node.now, (node.pos, [])
        node.now = None

    def canon(self, node):
        c, out = node.at
        out = [out]
        if node.last:
            # what was delivered only matters where it is shared with the reader
            out.append(c.shared(node.last[0]))
        out.append(c.value({k: v for k, v in vars(node.ref).items() if k not in ('parse', 'allowed')}))
        node.frames, node.at = out[0], None
        return tuple(out)

    # ---- all steps
    def run(self, limit=None):
        first = self.start()
        seen = {self.canon(first)}
        todo = collections.deque([first])
        handled = collections.Counter()
        while todo:
            if time.time() > self.deadline or self.states >= self.max_states:
                break
            node = todo.popleft()
            self.states += 1
            for w in self.words:
                if w in self.problems or time.time() > self.deadline:
                    continue
                try:
                    bad, after = self.step(node, w)
                except Undecidable as e:
                    self.undecided.setdefault(w, '%s after %s' % (e, list(node.words)))
                    continue
                if bad is None:
                    continue
                self.steps += 1
                handled[w] += 1
                if bad:
                    self.report(node, w, bad)
                    continue
                if after is not None and (limit is None or len(after.words) < limit):
                    c = self.canon(after)
                    if c not in seen:
                        seen.add(c)
                        self.shorten(after)
                        todo.append(after)
        else:
            self.complete = limit is None
        self.open_states = len(todo)
        self.handled = handled
        return self

    def report(self, node, word, bad):
        """a difference counts if the whole history shows it, analysed from its beginning"""
        words = list(node.words) + [word]
        real, neutral = self.replay(words, self.settings), []
        if not real:
            self.unconfirmed.append((word, bad, words))
            return
        if self.settings != PLAINLY:
            neutral = self.replay(words, PLAINLY)
        elif word in CUT:
            # the same without the truncation
            neutral = self.replay(words[:-1] + ['end'], self.settings)
        self.problems[word] = (real, words, bool(neutral))

    def replay(self, words, settings):
        ws = [w for w in words if w not in ENDS]
        objs = header() + [WORDS[w](k) for k, w in enumerate(ws)]
        size, ends = None, 'end'
        if words[-1] in ENDS and words[-1] != 'end':
            ends = 'EOF'
            size = Script(objs).size + ENDS[words[-1]]
            objs2 = header() + [WORDS[w](k) for k, w in enumerate(ws)] + [Ob(9999, 5)]
            return judge(History(self.I, settings), words, objs, ends, size, objs2)
        return judge(History(self.I, settings), words, objs, ends)


def which(rule, text, word, filtered, neutral):
    """property that a difference belongs to"""
    if filtered and not neutral:
        return 'C19'
    if rule == 'later' or 'monitorings' in text or 'laser_calibrations' in text:
        return 'C21'
    if word in CUT and not neutral or rule in ('end', 'warning') or word in ENDS and rule == 'order':
        return 'C20'
    return 'C18'


def explore_unit(r, pid, settings, words, seconds, depth):
    x = Explorer(settings, words, time.time() + seconds).run(depth)
    filtered = settings != PLAINLY
    where = where_of(x.I)
    for w in words:
        if w in x.problems:
            real, hist, neutral = x.problems[w]
            mine = [(a, b) for a, b in real if which(a, b, w, filtered, neutral) == pid]
            if mine:
                r.bad(mine[0][0], w, where, 'after %s: %s' % (' / '.join(hist[:-1]) or 'the header', '; '.join(b for a, b in mine)[:600]),
                      {'history': hist, 'settings': str(settings)})
            continue
        if w in x.undecided:
            r.open('history', w, where, x.undecided[w])
        elif x.handled[w]:
            r.add('history', '%s in %d states' % (w, x.handled[w]), where, PROVED if x.complete else AGREE)
    for w, bad, hist in x.unconfirmed[:5]:
        r.open('history', w, where, 'difference in a state only: %s after %s' % (bad[0], hist))
    r.info['states'], r.info['steps'] = x.states, x.steps
    r.info['complete'] = x.complete
    r.info['functions'] = sorted(q for q in x.I.visited if not q.startswith('spec'))


CUT = [w for w in list(ENDS) + list(WORDS) if w != 'end' and (w in ENDS or '(' in w)]
PLAINLY = dict(skip_non_triggered=False, skip_calibration=False, allowed=None)

FINAL = ['end', 'end in a header', 'end in a payload', 'histograms']
VOCABULARIES = {
    'reuses': ['shower', 'event', 'array 1 2', 'sums', 'calibration 1', 'event (bad)', 'array 1 2 (bad)', 'event (cut)', 'shower (cut)',
               'array 1 2 (cut)', 'sums (cut)', 'histograms (cut)'] + FINAL,
    'light': ['shower', 'event', 'array 1 2', 'photons', 'photo-electrons', 'both', 'photo-electrons (cut)', 'end', 'histograms'],
    'particles': ['shower', 'event', 'particles', 'array 2', 'calibration none', 'end', 'histograms'],
    'calibration': ['calibration pe', 'calibration pe 2', 'calibration pe odd', 'calibration 1', 'array 1 2', 'shower', 'event',
                    'calibration 1 (cut)', 'calibration pe (cut)', 'calibration 1 (bad)', 'array 1 2 (cut)'] + FINAL,
    'arrays': ['shower', 'event', 'array 1 2', 'array 2', 'array none', 'array full', 'array without stereo', 'array, tracking missing', 'end'],
    'unpacked': ['array 1 2', 'array 2', 'array none', 'array full', 'calibration none', 'array, tracking missing', 'unknown',
                 'array 1 2 (cut)', 'shower', 'event'] + FINAL,
    'monitoring': ['shower', 'event', 'array 1 2', 'array 2', 'camera 1', 'camera 1 partly', 'camera 2', 'end', 'camera 1 (cut)'],
    'lasers': ['shower', 'event', 'array 1 2', 'laser 2', 'laser 2 partly', 'pixels 1', 'pixels 1 partly', 'end'],
    'calibration monitoring': ['calibration 1', 'array 1 2', 'laser 2', 'laser 2 partly', 'camera 1', 'pixels 1', 'shower', 'event', 'end'],
    'selection': ['shower', 'event', 'array 1 2', 'array 2', 'array none', 'array full', 'calibration 1', 'calibration none', 'photons', 'end',
                  'array 1 2 (cut)', 'histograms'],
}
VOCABULARIES['cameras'] = ['shower', 'event', 'array 1 2', 'array 2', 'camera 1', 'camera 1 partly', 'end']
VOCABULARIES['lasers and pixels'] = ['shower', 'event', 'array 1 2', 'laser 2', 'laser 2 partly', 'pixels 1', 'end']
VOCABULARIES['many telescopes'] = ['shower', 'event', 'array full', 'laser 300', 'camera 300', 'pixels 300', 'end']
VOCABULARIES['pixels'] = ['shower', 'event', 'array 1 2', 'pixels 1', 'pixels 1 partly', 'end']
VOCABULARIES['calibration and monitoring'] = ['calibration 1', 'array 1 2', 'laser 2', 'camera 1', 'camera 1 partly', 'shower', 'event', 'end']
COLLECT = ['history', 'meta', 'meta 1', 'meta 0', 'simulation header', 'input card', 'profile', 'run header', 'pointing 2', 'settings 1',
           'statistics', 'unknown', 'histograms', 'event', 'shower', 'end']


VOCABULARIES['collections'] = COLLECT


def sets(t=False, c=False, allowed=None):
    return dict(skip_non_triggered=t, skip_calibration=c, allowed=None if allowed is None else set(allowed))


# property -> [(vocabulary, settings, longest history or None)]; the second list in the thorough tier only
PLAN = {
    'C18': ([('reuses', sets(), None), ('light', sets(), None), ('particles', sets(), None), ('calibration', sets(), None),
             ('arrays', sets(), None), ('unpacked', sets(), None), ('collections', sets(), 3)],
            [('selection', sets(), None), ('collections', sets(), 4)]),
    'C19': ([('selection', sets(True), 4), ('selection', sets(False, True, {1}), None), ('selection', sets(True, True, {1, 2}), 4),
             ('selection', sets(False, False, {5}), None), ('arrays', sets(False, False, {2}), 4), ('light', sets(True, False, {2}), 4),
             ('particles', sets(True), 4), ('cameras', sets(False, False, {2}), 3)],
            [('selection', sets(True), None), ('selection', sets(True, True, {1, 2}), None), ('arrays', sets(False, False, {2}), None),
             ('reuses', sets(True, True), None), ('calibration', sets(False, True), None), ('unpacked', sets(True, False, {1, 300}), None),
             ('lasers and pixels', sets(True, False, {1}), None)]),
    'C20': ([('reuses', sets(), None), ('calibration', sets(), None), ('unpacked', sets(), None)], [('selection', sets(), None)]),
    'C21': ([('cameras', sets(), None), ('lasers and pixels', sets(), None), ('pixels', sets(), None), ('many telescopes', sets(), 6),
             ('calibration and monitoring', sets(), 5)],
            [('monitoring', sets(), None), ('lasers', sets(), None), ('calibration monitoring', sets(), None)]),
}


def headers():
    w = lambda n, k=0: WORDS[n](k)
    tel = lambda t, order=(2002, 2003, 2004, 2005, 2006, 2008, 2007): [Ob(c, t) for c in order]
    one = Ob(2000, 3, result={'n_telescopes': 1, 'what': '$'})
    many = Ob(2000, 3, result={'n_telescopes': 3, 'what': '$'})
    return {
        'one telescope': [w('history'), one] + tel(1),
        'three telescopes in another order': [w('history'), many, w('simulation header')] + tel(2) + tel(300) + tel(1),
        'meta data, several run headers': [w('history'), w('meta'), w('meta 1'), w('meta 0'), w('run header'), w('simulation header'),
                                           w('simulation header', 1), w('input card'), w('profile')] + tel(1) + tel(2),
        'descriptions by type': [w('history'), w('run header')] + [Ob(c, t) for c in (2002, 2003, 2004, 2005, 2006, 2008, 2007) for t in (1, 2)],
        'descriptions in another order': [w('run header')] + tel(2, (2007, 2008, 2006, 2005, 2004, 2003, 2002)) + tel(1, (2004, 2002, 2003, 2008, 2007, 2005, 2006)),
        'other things in between': [w('history'), w('unknown'), w('run header'), Ob(2002, 1), w('input card')] + tel(1)[1:] + [w('statistics')]
        + tel(2) + [w('history', 1)],
        'monitoring before the last description': [w('run header')] + tel(1) + [w('camera 1'), w('laser 2')] + tel(2),
    }


def header_unit(r, name):
    I = S.analysis()
    where = where_of(I)
    for words in (['shower', 'event', 'array 1 2'], ['camera 1', 'calibration 1', 'shower', 'event', 'array none', 'histograms']):
        objs = headers()[name] + [WORDS[x](k) for k, x in enumerate(words)]
        bad = judge(History(I, PLAINLY), words, objs, 'end')
        r.decide('header', '%s, then %s' % (name, ' / '.join(words)), where, not bad, '; '.join(b for a, b in bad or ())[:600],
                 {'header': name, 'history': words})
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def where_of(I):
    cls = I.lookup_qual('eventio.simtel', 'SimTelFile')
    if cls is None:
        raise Anchor('SimTelFile')
    f = IN.FUNCS.get(I.class_attr(IN.State(dict(I.heap0)), cls, '__next__'))
    return front.loc(f.node) if f else 'SimTelFile'


def event_units(pid, tier, seed):
    quick, deep = PLAN[pid]
    seconds = 120 if tier == 'quick' else 600
    out = [(explore_unit, '%s, %s%s' % (v, describe(s), ', histories of %d' % d if d else ''), (pid, s, VOCABULARIES[v], seconds, d))
           for v, s, d in quick + (deep if tier != 'quick' else [])]
    if pid == 'C18':
        out += [(header_unit, 'header: ' + n, (n,)) for n in headers()]
    return out


def describe(s):
    return 'triggered only: %s, calibration: %s, telescopes: %s' % (
        s['skip_non_triggered'], not s['skip_calibration'], 'all' if s['allowed'] is None else sorted(s['allowed']))
