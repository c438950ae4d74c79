"""The cut tool (C26): what it writes, for scripted files and all sizes around the ends of their objects."""
from sa.terms import *
from sa import lib as L, terms as TM
from sa import coro, model, interp as IN, front
from .core import Anchor
from . import script as S, fileio as FI, streams
from .script import Ob, Script

MOD = 'eventio.scripts.cut_eventio_file'


class Tool:
    def __init__(self, kind, program, script, argv):
        self.kind, self.argv, self.script = kind, argv, script
        self.outputs = []
        self.w = streams.World(kind, program)
        models = self.w.models()

        def opener(name, zipped):
            inner = models[name]

            def f(I, st, args, kw):
                path = args[0] if args else kw.get('file', kw.get('filename'))
                mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
                if is_c(mode) and isinstance(cv(mode), str) and any(x in cv(mode) for x in 'wax+'):
                    return self.output(I, st, path, zipped, mode)
                if path is not None and is_c(path) and cv(path) != argv[0]:
                    I.throw(st, I.exc('FileNotFoundError', path))
                h = inner(I, st, args, kw)
                return h
            return f
        for n in models:
            if n in ('ext:open', 'ext:builtins.open', 'ext:io.open'):
                models[n] = opener(n, False)
            elif n in ('ext:gzip.open', 'ext:gzip.GzipFile'):
                models[n] = opener(n, True)
        models['ext:argparse.ArgumentParser'] = lambda I, st, a, kw: I.instantiate(st, I.lookup_qual('spec.cutting', 'Parser'), [], {})
        models['spec.cutting.command_line'] = lambda I, st, a, kw: I.new_list(st, [C(x) for x in argv])
        I = self.I = model.interp(happy=False, obj=False, extra=models)
        from .core import CURRENT
        CURRENT[0] = I
        I.concrete = True
        for m in ('spec.resources', 'spec.files', 'spec.cutting'):
            I.module(m)
        S.in_steps(I)
        I.module(MOD)

    def output(self, I, st, path, zipped, mode):
        h = I.instantiate(st, I.lookup_qual('spec.cutting', 'Output'), [path, C('gzip' if zipped else 'plain'), mode, C(len(self.outputs))], {})
        self.outputs.append(h)
        if is_c(path) and cv(path) == self.argv[0]:
            # the input is gone
            for k, c in list(st.heap.items()):
                if c.kind == 'bio' and c.s.get('buf') in (FI.PLAIN, FI.DISK):
                    st.heap[k] = IN.Cell(c.kind, c.s, dict(c.meta, size=ZERO, clamp=True))
            FI.FS_VALUE[0] = ZERO
            L.KNOWN[FI.PLAIN] = {}
            L.PREFIX.clear()
        return h

    def function(self, name):
        f = self.I.lookup_qual(MOD, name)
        if f is None:
            raise Anchor('%s.%s' % (MOD, name))
        return f

    def run(self):
        I = self.I
        st = IN.State(dict(I.heap0))
        coro.stop_all(I)
        FI.begin(I, st, self.kind)
        prefix = dict(L.PREFIX)
        S.begin(I, st, self.script)
        # the beginning of the file on disk says how it is compressed
        if self.kind != 'plain':
            L.PREFIX[FI.DISK] = prefix[FI.DISK]
        I.effects = []
        del self.outputs[:]
        f = self.function('main')
        how, v = S.attempt(I, st, lambda s: I.call(s, f, [], {}))
        return how, v, st

    def written(self, st, h):
        """number of bytes from the beginning of the file that were written, or what is wrong"""
        I = self.I
        parts = I.simp(st, I.cell(st, I.getattr(st, h, 'parts')).s['items'])
        if parts.k != 'list':
            raise S.Undecidable('number of writes')
        pos = 0
        for p in parts.a:
            p = I.freeze(st, p)
            if is_c(p) and isinstance(cv(p), bytes):
                for b in cv(p):
                    if self.script.known.get(pos) != b:
                        return None, 'other bytes are written at %d' % pos
                    pos += 1
                continue
            if TM.contains(p, lambda x: x is FI.DISK):
                return None, 'the compressed bytes are written'
            if p.k != 'bs' or not is_c(p.a[1]) or not is_c(p.a[2]):
                raise S.Undecidable('what is written: %s' % show(p)[:80])
            if cv(p.a[2]) == 0:
                continue
            if p.a[0] is not FI.PLAIN:
                return None, 'bytes of something else are written'
            if cv(p.a[1]) != pos:
                return None, 'bytes from %d are written at %d' % (cv(p.a[1]), pos)
            pos += cv(p.a[2])
        return pos, ''

    def said(self):
        """constant texts that were printed, logged or warned about"""
        out = set()
        for e in self.I.effects:
            if e[0] in ('print', 'warn', 'log', 'sys.stderr.write', 'sys.stdout.write'):
                for a in e[3]:
                    out.add(show(a)[:200])
        return out


FILES = {
    'one object': lambda: [Ob(2020, 1, size=20)],
    'equal objects': lambda: [Ob(2020, k, size=24) for k in range(4)],
    'growing objects': lambda: [Ob(2000, 0, size=4), Ob(2020, 0, size=100), Ob(2021, 0, size=1000)],
    'shrinking objects': lambda: [Ob(2000, 0, size=1000), Ob(2020, 0, size=100), Ob(2021, 0, size=4), Ob(2021, 1, size=4)],
    'empty payloads': lambda: [Ob(2000, 0, size=0), Ob(2020, 0, size=0), Ob(9999, 0, size=0)],
    'events': lambda: [Ob(2000, 0, size=40), Ob(2010, 0, [Ob(2009, 0, size=24), Ob(2201, 0, [Ob(2011, size=24), Ob(2012, size=60)])]), Ob(2021, 0, size=20),
                       Ob(2010, 1, [Ob(2009, 0, size=24)])],
    'unknown objects': lambda: [Ob(9998, 0, [Ob(9999, 0, size=8)]), Ob(9999, 0, size=13)],
    'extended headers': lambda: [Ob(2000, 0, size=40, ext=True), Ob(2020, 0, size=8), Ob(2010, 0, [Ob(2009, 0, size=24, ext=True)], ext=True), Ob(9999, 0, size=0, ext=True),
                                 Ob(2021, size=3)],
    'large first object': lambda: [Ob(2000, 0, size=3000), Ob(2020, 0, size=1)],
}


def expected(scr, size):
    return max([0] + [e for e in scr.ends if e <= size])


def sizes(scr, tier):
    out = {0, 1, scr.size + 1, scr.size + 1000, 15}
    for e in scr.ends:
        out |= {e - 1, e, e + 1, e + 16, e - 16}
    return sorted(x for x in out if x >= 0)


def cut_unit(r, name, kind, program, outname, same=False, tier='quick'):
    scr = Script(FILES[name]())
    quiet = loud = None
    inname = {'plain': 'run.simtel', 'gzip': 'run.simtel.gz', 'zstd': 'run.simtel.zst'}[kind]
    if same:
        outname = inname
    t = Tool(kind, program, scr, [inname, outname, ''])
    where = front.loc(IN.FUNCS[t.function('main')].node)
    fitting, nothing = set(), set()
    for n in sizes(scr, tier):
        t.argv[2] = str(n)
        want = expected(scr, n)
        what = '%s, %s to %s, at most %d bytes' % (name, streams.mode_name(kind, True, program), outname, n)
        try:
            how, v, st = t.run()
            if how == 'raise':
                r.bad('prefix', what, where, 'raises %s' % v)
                continue
            (fitting if want else nothing).update(t.said())
            if n == 0 or want == 0:
                nothing.update(t.said())
            else:
                fitting.update(t.said())
            bad = []
            outs = [h for h in t.outputs]
            if len(outs) != 1:
                # the last one counts if the earlier ones are the same file: opening it again empties it
                paths = {cv(t.I.getattr(st, h, 'path')) for h in outs if is_c(t.I.getattr(st, h, 'path'))}
                if not outs:
                    bad.append('no output is written')
                elif len(paths) != 1 or any('a' in cv(t.I.getattr(st, h, 'mode')) for h in outs):
                    raise S.Undecidable('several outputs')
                outs = outs[-1:]
            for h in outs:
                path, mode, how = [t.I.getattr(st, h, x) for x in ('path', 'mode', 'kind')]
                if not all(map(is_c, (path, mode, how))):
                    raise S.Undecidable('the name of the output')
                if cv(path) != outname:
                    bad.append('writes to %s' % cv(path))
                if 'b' not in cv(mode) and not (cv(how) == 'gzip' and 't' not in cv(mode)):
                    bad.append('the output is opened as text')
                if 'a' in cv(mode) or 'r' in cv(mode):
                    bad.append('the previous content of the output is kept')
                if (cv(how) == 'gzip') != outname.endswith('.gz'):
                    bad.append('the output is %scompressed' % ('' if cv(how) == 'gzip' else 'not '))
                k, msg = t.written(st, h)
                if k is None:
                    bad.append(msg)
                elif k != want:
                    bad.append('writes %d bytes instead of %d (ends of objects: %s)' % (k, want, scr.ends))
            r.decide('prefix', what, where, not bad, '; '.join(bad), {'size': n, 'file': name})
        except S.Undecidable as e:
            r.open('prefix', what, where, str(e))
    r.decide('warning', '%s, nothing fits' % name, where, bool(nothing - fitting), 'nothing is said if not even the first object fits')
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


SIZES = {'0': 0, '1': 1, '7': 7, '123456789': 123456789, '1k': 1024, '10k': 10240, '0k': 0, '3M': 3 << 20, '1023M': 1023 << 20, '2G': 2 << 30, '12G': 12 << 30,
         '007': 7, '64G': 64 << 30}
WRONG = ['', 'k', '1T', '1 k', ' 1', '1kk', '-1', 'abc', '1.5.2', '1kM', 'M1', '1e', '1K ', '0x10', '1b']


def size_unit(r):
    t = Tool('plain', 'works', Script(FILES['one object']()), ['run.simtel', 'out', '1'])
    I = t.I
    f = t.I.lookup_qual(MOD, 'parse_size')
    if f is None:
        # the sizes are read somewhere else: they are tried with the whole tool
        return
    where = front.loc(IN.FUNCS[f].node)
    for s, n in SIZES.items():
        st = IN.State(dict(I.heap0))
        try:
            how, v = S.attempt(I, st, lambda q: I.call(q, f, [C(s)], {}))
            v = I.simp(st, v) if how == 'value' else v
            if how == 'value' and not is_c(v):
                raise S.Undecidable('size')
            r.decide('size', s, where, how == 'value' and cv(v) == n, 'means %s' % (cv(v) if how == 'value' else v))
        except S.Undecidable as e:
            r.open('size', s, where, str(e))
    for s in WRONG:
        st = IN.State(dict(I.heap0))
        try:
            how, v = S.attempt(I, st, lambda q: I.call(q, f, [C(s)], {}))
            r.decide('size', 'refuses %r' % s, where, how == 'raise', 'is accepted')
        except S.Undecidable as e:
            r.open('size', s, where, str(e))


def unit_sizes(r, kind):
    """suffixes, by the whole tool"""
    scr = Script([Ob(2000, 0, size=1000 - 16), Ob(2020, 0, size=8), Ob(2020, 1, size=1008), Ob(2020, 2, size=(1 << 20) - 2048 - 16), Ob(2021, 0, size=4),
                  Ob(2020, 3, size=(1 << 30) - (1 << 20) - 20 - 16), Ob(2021, 1, size=5), Ob(2021, 2, size=6)])
    t = Tool(kind, 'works', scr, ['in', 'out', ''])
    where = front.loc(IN.FUNCS[t.function('main')].node)
    for s, n in (('1k', 1024), ('2k', 2048), ('1M', 1 << 20), ('1G', 1 << 30), ('1024', 1024), ('1023', 1023), ('3k', 3072), ('1024k', 1 << 20), ('2G', 2 << 30)):
        t.argv[2] = s
        try:
            how, v, st = t.run()
            if how == 'raise':
                r.bad('size', 'cut at %s' % s, where, 'raises %s' % v)
                continue
            if len(t.outputs) != 1:
                raise S.Undecidable('outputs')
            k, msg = t.written(st, t.outputs[0])
            want = expected(scr, n)
            r.decide('size', 'cut at %s' % s, where, k == want, msg or 'writes %s bytes instead of %d' % (k, want))
        except S.Undecidable as e:
            r.open('size', 'cut at %s' % s, where, str(e))
    r.info['functions'] = sorted(q for q in t.I.visited if not q.startswith('spec'))


def cut_units(pid, tier, seed):
    out = [(size_unit, 'sizes', ()), (unit_sizes, 'units of sizes', ('plain',))]
    for n in FILES:
        out.append((cut_unit, n, (n, 'plain', 'works', 'short.simtel')))
        if tier == 'thorough' or n in ('events', 'equal objects'):
            for kind, prog in (('gzip', 'works'), ('gzip', 'missing'), ('zstd', 'works')):
                out.append((cut_unit, '%s, %s %s' % (n, kind, prog), (n, kind, prog, 'short.simtel.gz')))
            out.append((cut_unit, n + ', into itself', (n, 'plain', 'works', '', True)))
    out.append((cut_unit, 'to gzip', ('growing objects', 'plain', 'works', 'short.gz')))
    out.append((cut_unit, 'name without dot', ('one object', 'plain', 'works', 'shortgz')))
    out.append((cut_unit, 'name with .gz inside', ('one object', 'plain', 'works', 'short.gz.simtel')))
    out.append((cut_unit, 'to zst', ('growing objects', 'gzip', 'works', 'gz.simtel')))
    return out
