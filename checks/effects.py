"""What the package does to the world (C27): files opened for writing, files changed, programs started.

Every expression of every module is resolved to the external functions it may denote: through imports,
assignments (also of tuples, conditional expressions and attributes of the object), parameters and
their call sites.  Modes and commands are resolved the same way to the constants they may have.
"""
import ast
import fnmatch
from sa import front
from .core import Anchor
from .streams import DECOMPRESS

# functions that open a file: position and default of the mode
OPEN = {'builtins.open': (1, 'r'), 'io.open': (1, 'r'), 'gzip.open': (1, 'rb'), 'bz2.open': (1, 'rb'), 'lzma.open': (1, 'rb'),
        'codecs.open': (1, 'r'), 'zstandard.open': (1, 'rb'), 'gzip.GzipFile': (1, 'rb'), 'bz2.BZ2File': (1, 'r'),
        'lzma.LZMAFile': (1, 'r'), 'io.FileIO': (1, 'r'), 'os.fdopen': (1, 'r'), 'zipfile.ZipFile': (1, 'r'), 'tarfile.open': (1, 'r'),
        'numpy.memmap': (2, 'r+'), 'h5py.File': (1, 'r'), 'libc.stdio.fopen': (1, 'r'), 'libc.stdio.freopen': (1, 'r'), 'shelve.open': (1, 'c'), 'dbm.open': (1, 'r'), 'numpy.load': (1, None),
        'codecs.EncodedFile': (None, 'r'), 'fileinput.input': (3, 'r')}
# functions that change files or start programs whatever their arguments are
CHANGE = '''os.remove os.unlink os.rename os.renames os.replace os.rmdir os.removedirs os.mkdir os.makedirs os.truncate os.ftruncate
os.link os.symlink os.mkfifo os.mknod os.chmod os.lchmod os.fchmod os.chown os.fchown os.lchown os.utime os.write os.pwrite os.writev
os.pwritev os.sendfile os.copy_file_range os.setxattr os.removexattr os.posix_fallocate os.mkdtemp os.creat
shutil.copy* shutil.move shutil.rmtree shutil.chown shutil.make_archive shutil.unpack_archive shutil.copyfileobj
tempfile.NamedTemporaryFile tempfile.TemporaryFile tempfile.TemporaryDirectory tempfile.SpooledTemporaryFile tempfile.mk*
numpy.save numpy.savez numpy.savez_compressed numpy.savetxt numpy.lib.format.open_memmap
logging.FileHandler logging.handlers.*FileHandler logging.handlers.*File* sqlite3.connect matplotlib.pyplot.savefig matplotlib.pyplot.imsave
libc.stdio.remove libc.stdio.rename libc.stdio.fwrite libc.stdio.tmpfile posix.unistd.unlink posix.unistd.write posix.unistd.ftruncate posix.stdio.*temp*'''.split()
START = '''os.system os.popen os.exec* os.spawn* os.posix_spawn* os.fork os.forkpty os.startfile pty.spawn pty.fork subprocess.Popen subprocess.run
subprocess.call subprocess.check_call subprocess.check_output subprocess.getoutput subprocess.getstatusoutput
multiprocessing.Process multiprocessing.Pool concurrent.futures.ProcessPoolExecutor asyncio.create_subprocess_* webbrowser.open
libc.stdlib.system posix.unistd.exec* posix.unistd.fork libc.stdio.popen posix.stdio.popen'''.split()
# methods which files and arrays have and nothing in the package
METHODS = {'write_text', 'write_bytes', 'unlink', 'touch', 'rmdir', 'mkdir', 'symlink_to', 'hardlink_to', 'link_to', 'lchmod', 'tofile',
           'to_csv', 'to_hdf', 'to_pickle', 'to_json', 'to_parquet', 'savefig', 'truncate', 'extractall', 'copy_stream'}
SCRIPTS = 'eventio.scripts.'
# tools which are asked to write: names of the arguments of the command line that say where
OUTPUTS = {'eventio.scripts.cut_eventio_file': ('outputfile',), 'eventio.scripts.plot_hists': ('output_base',)}
CANON = {'np': 'numpy', 'sp': 'subprocess'}
BUILTINS = {'open', 'exec', 'eval', '__import__', 'getattr', 'input', 'breakpoint'}
DEPTH = 6


class Unknown(Exception):
    pass


def match(q, patterns):
    return any(q == p or fnmatch.fnmatchcase(q, p) for p in patterns)


class Module:
    def __init__(self, name):
        self.name = name
        self.src = front.load(name)
        self.tree = self.src.tree
        self.parent = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
        self.bind = {}            # (scope, name) -> values: ast nodes or ('ext', name)
        self.funcs = {}           # name -> definitions
        self.calls = {}           # last name of the called -> calls
        self.collect()

    def scope(self, n):
        n = self.parent.get(n)
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            n = self.parent.get(n)
        return n

    def add(self, scope, name, v):
        self.bind.setdefault((scope, name), []).append(v)

    def target(self, t, v, scope):
        if isinstance(t, ast.Name):
            self.add(scope, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, x in enumerate(t.elts):
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                    self.target(x, v.elts[k], scope)
                else:
                    self.target(x, None, scope)
        elif isinstance(t, ast.Attribute):
            self.add('attr', t.attr, v)
        elif isinstance(t, ast.Starred):
            self.target(t.value, None, scope)

    def collect(self):
        for n in ast.walk(self.tree):
            s = self.scope(n)
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.add(s, a.asname, ('ext', a.name))
                    else:
                        self.add(s, a.name.split('.')[0], ('ext', a.name.split('.')[0]))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    if not self.src.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - n.level + 1]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.add(s, a.asname or a.name, ('ext', base + '.' + a.name))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    self.target(t, n.value, s)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)):
                if n.value is not None:
                    self.target(n.target, n.value, s)
            elif isinstance(n, ast.AugAssign):
                self.target(n.target, None, s)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                v = n.iter
                if isinstance(v, (ast.Tuple, ast.List)):
                    for x in v.elts:
                        self.target(n.target, x, s)
                else:
                    self.target(n.target, None, s)
            elif isinstance(n, ast.comprehension):
                self.target(n.target, None, s)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.target(i.optional_vars, None, s)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.add(s, n.name, None)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.add(s, n.name, n)
                if not isinstance(n, ast.ClassDef):
                    self.funcs.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.Call):
                f = n.func
                name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if name:
                    self.calls.setdefault(name, []).append(n)

    def lookup(self, n, name):
        """values bound to a name where n is"""
        s = self.scope(n)
        while True:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = s.args
                if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]:
                    return [('param', s, name)] + self.bind.get((s, name), [])
            if (s, name) in self.bind:
                return self.bind[s, name]
            if s is None:
                return None
            s = self.scope(s)


class Package:
    def __init__(self):
        self.mods = {n: Module(n) for n in front.all_modules()}

    def of(self, n):
        return self.mods[n._src.name]

    # ------------------------------------------------------------- external names
    def names(self, n, depth=DEPTH):
        """external names that an expression may denote"""
        if depth == 0:
            return set()
        m = self.of(n)
        if isinstance(n, ast.Name):
            vs = m.lookup(n, n.id)
            if vs is None:
                return {'builtins.' + n.id} if n.id in BUILTINS else set()
            out = set()
            for v in vs:
                out |= self.value_names(v, depth - 1)
            return out
        if isinstance(n, ast.Attribute):
            out = {b + '.' + n.attr for b in self.names(n.value, depth - 1)}
            if isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                for v in m.bind.get(('attr', n.attr), ()):
                    out |= self.value_names(v, depth - 1)
                for v in self.class_bind(n, n.attr):
                    out |= self.value_names(v, depth - 1)
            return self.imported(out, depth)
        if isinstance(n, ast.IfExp):
            return self.names(n.body, depth) | self.names(n.orelse, depth)
        if isinstance(n, ast.BoolOp):
            return set().union(*[self.names(v, depth) for v in n.values])
        if isinstance(n, ast.NamedExpr):
            return self.names(n.value, depth)
        if isinstance(n, ast.Subscript) and isinstance(n.value, (ast.Dict, ast.Name, ast.Tuple, ast.List)):
            out = set()
            for v in self.elements(n.value, depth):
                out |= self.names(v, depth - 1)
            return out
        if isinstance(n, ast.Call):
            f = self.names(n.func, depth - 1)
            if 'builtins.getattr' in f and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                return {b + '.' + str(n.args[1].value) for b in self.names(n.args[0], depth - 1)}
            if f & {'functools.partial', 'partial'} and n.args:
                return self.names(n.args[0], depth - 1)
            if f & {'importlib.import_module', 'builtins.__import__'} and n.args and isinstance(n.args[0], ast.Constant):
                return {str(n.args[0].value)}
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, (ast.Dict, ast.Name)):
                out = set()
                for v in self.elements(n.func.value, depth) + list(n.args[1:]):
                    out |= self.names(v, depth - 1)
                return out
        return set()

    def elements(self, n, depth):
        if isinstance(n, ast.Dict):
            return [v for v in n.values if v is not None]
        if isinstance(n, (ast.Tuple, ast.List)):
            return list(n.elts)
        out = []
        if isinstance(n, ast.Name):
            for v in self.of(n).lookup(n, n.id) or ():
                if isinstance(v, (ast.Dict, ast.Tuple, ast.List)):
                    out += self.elements(v, depth)
        return out

    def class_bind(self, n, name):
        m = self.of(n)
        c = m.parent.get(n)
        while c is not None and not isinstance(c, ast.ClassDef):
            c = m.parent.get(c)
        out = []
        for s in c.body if c is not None else ():
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                out.append(s.value)
        return out

    def value_names(self, v, depth):
        if v is None or depth <= 0:
            return set()
        if isinstance(v, tuple):
            if v[0] == 'ext':
                return self.imported({v[1]}, depth)
            out = set()
            for x in self.arguments(v[1], v[2]):
                out |= self.names(x, depth)
            return out
        if isinstance(v, ast.AST) and isinstance(v, ast.expr):
            return self.names(v, depth)
        return set()

    def imported(self, names, depth):
        """names of the package are looked up in their module"""
        out = set()
        for q in names:
            mod, _, x = q.rpartition('.')
            if mod in self.mods:
                m = self.mods[mod]
                for v in m.bind.get((None, x), ()):
                    if v is not None and v != ('ext', q):
                        out |= self.value_names(v, depth - 1)
            if not q.startswith('eventio'):
                out.add(q)
            elif q in self.mods or mod not in self.mods:
                out.add(q)
        return out

    def arguments(self, f, name):
        """expressions passed for a parameter, with its default; raises Unknown if calls may be missed"""
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = []
        if name in pos:
            k = pos.index(name)
            d = k - (len(pos) - len(a.defaults))
            if d >= 0:
                out.append(a.defaults[d])
        elif name in [x.arg for x in a.kwonlyargs]:
            k = None
            d = a.kw_defaults[[x.arg for x in a.kwonlyargs].index(name)]
            if d is not None:
                out.append(d)
        else:
            return out
        if isinstance(f, ast.Lambda):
            return out
        m = self.of(f)
        method = isinstance(m.parent.get(f), ast.ClassDef) and not any(
            isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
        for mm in self.mods.values():
            names = [f.name] if f.name != '__init__' else [m.parent[f].name]
            for fn in names:
                for c in mm.calls.get(fn, ()):
                    shift = 1 if method else 0
                    for kw in c.keywords:
                        if kw.arg == name:
                            out.append(kw.value)
                    if k is not None and 0 <= k - shift < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args):
                        out.append(c.args[k - shift])
        return out

    # ------------------------------------------------------------- constants
    def constants(self, n, depth=DEPTH):
        """constants an expression may have; raises Unknown"""
        if depth == 0 or n is None:
            raise Unknown
        if isinstance(n, ast.Constant):
            return {n.value}
        if isinstance(n, ast.IfExp):
            return self.constants(n.body, depth) | self.constants(n.orelse, depth)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return {x + y for x in self.constants(n.left, depth - 1) for y in self.constants(n.right, depth - 1) if type(x) is type(y)}
        vs = None
        if isinstance(n, ast.Name):
            vs = self.of(n).lookup(n, n.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
            vs = self.of(n).bind.get(('attr', n.attr), []) + self.class_bind(n, n.attr)
        elif isinstance(n, ast.Attribute):
            vs = []
            for q in self.names(n.value, depth - 1):
                if q in self.mods:
                    vs += self.mods[q].bind.get((None, n.attr), [])
        if not vs:
            raise Unknown
        out = set()
        for v in vs:
            if isinstance(v, tuple) and v[0] == 'param':
                xs = self.arguments(v[1], v[2])
                if not xs:
                    raise Unknown
                for x in xs:
                    out |= self.constants(x, depth - 1)
            elif isinstance(v, tuple):
                mod, _, x = v[1].rpartition('.')
                if mod not in self.mods:
                    raise Unknown
                for y in self.mods[mod].bind.get((None, x), ()):
                    out |= self.constants(y, depth - 1)
            else:
                out |= self.constants(v, depth - 1)
        return out

    def mentions(self, n, what, depth=DEPTH):
        """does an expression depend on an attribute of that name?"""
        if depth == 0 or n is None or not isinstance(n, ast.AST):
            return False
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and x.attr in what:
                return True
            if isinstance(x, ast.Constant) and x.value in what:
                return True
            if isinstance(x, ast.Name):
                for v in self.of(x).lookup(x, x.id) or ():
                    if isinstance(v, tuple) and v[0] == 'param':
                        if any(self.mentions(y, what, depth - 1) for y in self.arguments(v[1], v[2])):
                            return True
                    elif isinstance(v, ast.expr) and self.mentions(v, what, depth - 1):
                        return True
        return False


def argument(c, pos, *names):
    if pos is not None and pos < len(c.args) and not any(isinstance(x, ast.Starred) for x in c.args[:pos + 1]):
        return c.args[pos]
    for k in c.keywords:
        if k.arg in names:
            return k.value
    return None


def writes(mode):
    if isinstance(mode, bytes):
        mode = mode.decode('latin1')
    return isinstance(mode, str) and any(x in mode for x in 'wax+')


def command(P, c):
    """what is wrong with a started program; raises Unknown"""
    sh = argument(c, None, 'shell')
    if sh is not None and not (isinstance(sh, ast.Constant) and not sh.value):
        return 'runs a shell'
    a = argument(c, 0, 'args')
    for _ in range(DEPTH):
        if isinstance(a, ast.Name):
            vs = [v for v in P.of(a).lookup(a, a.id) or () if v is not None]
            if len(vs) != 1 or not isinstance(vs[0], ast.expr):
                raise Unknown
            a = vs[0]
    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'list' and len(a.args) == 1:
        a = a.args[0]
    if isinstance(a, ast.BinOp):
        while isinstance(a, ast.BinOp):
            a = a.left
    if not isinstance(a, (ast.List, ast.Tuple)) or not a.elts:
        raise Unknown
    out = set()
    for prog in P.constants(a.elts[0]):
        if not isinstance(prog, str):
            raise Unknown
        b = prog.rsplit('/', 1)[-1]
        if b in ('zstd', 'unzstd', 'zstdcat', 'pzstd'):
            b = 'gzip'
        if b not in DECOMPRESS:
            out.add('starts %r' % prog)
            continue
        opts = set()
        for e in a.elts[1:]:
            try:
                for v in P.constants(e):
                    if isinstance(v, str) and v.startswith('-'):
                        opts |= {'d'} if v in ('--decompress', '--uncompress') else {'c'} if v in ('--stdout', '--to-stdout') else set(v[1:]) if v[1:2] != '-' else {v}
            except Unknown:
                pass
        if prog.rsplit('/', 1)[-1] not in ('zcat', 'zstdcat') and 'c' not in opts:
            stdin = argument(c, None, 'stdin')
            if stdin is None:
                out.add('%s without -c replaces its input' % prog)
    return '; '.join(sorted(out))


def module_unit(r, names):
    P = Package()
    seen = 0
    for name in names:
        m = P.mods.get(name)
        if m is None:
            continue
        out = OUTPUTS.get(name, ())
        for n in ast.walk(m.tree):
            where = front.loc(n) if hasattr(n, 'lineno') else ''
            if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(getattr(n, 'ctx', None), ast.Load):
                p = m.parent.get(n)
                called = isinstance(p, ast.Call) and p.func is n
                if isinstance(p, ast.Attribute) and p.value is n:
                    continue
                qs = P.names(n)
                seen += 1
                for q in sorted(x[2:] if x.startswith('c:') else x for x in qs):
                    if match(q, CHANGE):
                        if called and out and any(P.mentions(a, out) for a in p.args[:1]):
                            r.ok('output of a tool', '%s in %s' % (q, name), where)
                        else:
                            r.bad('no change', '%s in %s' % (q, name), where, 'a path of the package reaches %s' % q)
                    elif match(q, START) and not called:
                        aliased = isinstance(p, (ast.Assign, ast.AnnAssign, ast.Dict, ast.Tuple, ast.List, ast.IfExp, ast.ImportFrom))
                        if not aliased:
                            r.open('no programs', '%s in %s' % (q, name), where, 'passed on')
                    elif match(q, START):
                        if q not in ('subprocess.Popen', 'subprocess.run', 'subprocess.check_output', 'subprocess.call', 'subprocess.check_call'):
                            r.bad('no programs', '%s in %s' % (q, name), where, 'a program is started by %s' % q)
                            continue
                        try:
                            bad = command(P, p)
                            r.decide('no programs', '%s in %s' % (q, name), where, not bad, bad)
                        except Unknown:
                            r.open('no programs', '%s in %s' % (q, name), where, 'the command is not known')
                    elif q in OPEN and called:
                        pos, default = OPEN[q]
                        e = argument(p, pos, 'mode', 'mmap_mode', 'flag')
                        try:
                            modes = {default} if e is None else P.constants(e)
                            w = sorted(x for x in modes if writes(x))
                        except Unknown:
                            r.open('opened for reading', '%s in %s' % (q, name), where, 'the mode is not known')
                            continue
                        if w and out and P.mentions(argument(p, 0, 'file', 'filename', 'path'), out):
                            r.ok('output of a tool', '%s in %s' % (q, name), where)
                        else:
                            r.decide('opened for reading', '%s in %s' % (q, name), where, not w, 'opens with mode %s' % ', '.join(map(repr, w)))
                    elif q == 'os.open' and called:
                        fl = argument(p, 1, 'flags')
                        used = {x.attr for x in ast.walk(fl) if isinstance(x, ast.Attribute)} if fl is not None else set()
                        r.decide('opened for reading', 'os.open in %s' % name, where, not used & {'O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND'},
                                 'opens with %s' % sorted(used))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                base = P.names(n.func.value)
                own = any(a in mm.funcs for mm in P.mods.values())
                if a in METHODS and not own and not any(match(b + '.' + a, CHANGE) for b in base):
                    if out and any(P.mentions(x, out) for x in n.args[:1]):
                        r.ok('output of a tool', '.%s() in %s' % (a, name), where)
                    elif a == 'truncate' and isinstance(n.func.value, ast.Constant):
                        pass
                    else:
                        r.bad('no change', '.%s() in %s' % (a, name), where, 'the method %s changes files' % a)
                if a in ('rename', 'replace', 'open', 'chmod') and is_path(P, n.func.value):
                    if a == 'open':
                        try:
                            e = argument(n, 0, 'mode')
                            w = [x for x in ({'r'} if e is None else P.constants(e)) if writes(x)]
                        except Unknown:
                            r.open('opened for reading', 'Path.open in %s' % name, where, 'the mode is not known')
                            continue
                        if w and out and P.mentions(n.func.value, out):
                            r.ok('output of a tool', 'Path.open in %s' % name, where)
                        else:
                            r.decide('opened for reading', 'Path.open in %s' % name, where, not w, 'opens with mode %r' % (w,))
                    else:
                        r.bad('no change', 'Path.%s in %s' % (a, name), where, 'the method %s changes files' % a)
                if a in ('basicConfig',) and any(b == 'logging' for b in base):
                    f = argument(n, None, 'filename')
                    r.decide('no change', 'logging in %s' % name, where, f is None or isinstance(f, ast.Constant) and f.value is None, 'logs into a file')
        r.ok('module', name, m.src.rel)
    r.info['functions'] = sorted('%s.%s' % (n, f) for n in names if n in P.mods for f in P.mods[n].funcs)
    r.info['names'] = seen


def is_path(P, n):
    if isinstance(n, ast.Call) and P.names(n.func) & {'pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath'}:
        return True
    if isinstance(n, ast.Name):
        return any(isinstance(v, ast.expr) and is_path(P, v) for v in P.of(n).lookup(n, n.id) or () if isinstance(v, ast.Call))
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
        return any(is_path(P, v) for v in P.of(n).bind.get(('attr', n.attr), ()) if isinstance(v, ast.Call))
    return False


def effect_units(pid, tier, seed):
    names = front.all_modules()
    if not names:
        raise Anchor('eventio')
    return [(module_unit, n, ([n],)) for n in names]
