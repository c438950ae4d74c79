"""Abstract interpreter: one forward pass over the syntax tree, joining at control flow merges.

Every variable, attribute, container slot and file position is mapped to a value term
(terms.py).  Branches are executed once each and joined into gated values, loops are
summarised by systems of recurrences.  Calls to functions of the repository are inlined,
everything else is a library model (lib.py) or an uninterpreted function.
Nothing of the analysed program is ever executed.
"""
import ast
import builtins
import sys

from . import front
from .terms import *
from . import terms as TM
from .terms import _OPEN

sys.setrecursionlimit(20000)


class Dead(Exception):
    """no normal continuation"""


class Cell:
    __slots__ = ('kind', 's', 'meta')

    def __init__(self, kind, s=None, meta=None):
        self.kind, self.s, self.meta = kind, s if s is not None else {}, meta or {}

    def with_(self, k, v):
        s = dict(self.s)
        s[k] = v
        return Cell(self.kind, s, self.meta)


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc=TRUE):
        self.heap, self.pc = heap, pc

    def fork(self, cond):
        return State(dict(self.heap), and_(self.pc, cond))

    def snap(self):
        return State(dict(self.heap), self.pc)

    def become(self, o):
        self.heap, self.pc = o.heap, o.pc


def merge(cond, a, b):
    """state which is a if cond else b"""
    if a.heap is b.heap:
        h = a.heap
    else:
        h = {}
        for k, ca in a.heap.items():
            cb = b.heap.get(k)
            if cb is None or cb is ca:
                h[k] = ca
                continue
            s = {}
            for n, va in ca.s.items():
                vb = cb.s.get(n, UNDEF)
                s[n] = va if va is vb else ite(cond, va, vb)
            for n, vb in cb.s.items():
                if n not in ca.s:
                    s[n] = ite(cond, UNDEF, vb)
            h[k] = Cell(ca.kind, s, ca.meta)
        for k, cb in b.heap.items():
            if k not in h:
                h[k] = cb
    return State(h, or_(a.pc, b.pc))


def is_eof(e):
    return e.k == 'exc' and e.a[0].k == 'ext' and e.a[0].a[0] in ('EOFError', 'struct.error')


def rel_pc(pc, assumed, base):
    """path condition without the assumption"""
    return base if pc is and_(base, assumed) else pc


def is_undef(t):
    return lift('isundef', lambda x: C(x is UNDEF), t)


class Func:
    def __init__(self, node, mod, name, qual, cls=None, closure=None, defaults=(), kwdefaults=None, deco=()):
        self.node, self.mod, self.name, self.qual, self.cls = node, mod, name, qual, cls
        self.closure, self.defaults, self.deco = closure, defaults, deco
        self.kwdefaults = kwdefaults or {}
        self.ctypes = getattr(node, '_ctypes', {})
        self.cret = getattr(node, '_cret', None)
        self.is_gen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.locals = local_names(node)


def has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    out = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
    for a in (node.args.vararg, node.args.kwarg):
        if a:
            out.add(a.arg)
    if isinstance(node, ast.Lambda):
        return out
    glob = set()

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            rec(c)
    for s in node.body:
        rec(s)
    return out - glob


class Class:
    def __init__(self, name, qual, bases, mod):
        self.name, self.qual, self.bases, self.mod = name, qual, bases, mod
        self.subs = []

    def key(self):
        return ('cls', self.qual)


BUILTIN_EXC = {n for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}


def exc_sub(a, b):
    """builtin exception name a is subclass of b (None: unknown)"""
    ca, cb = getattr(builtins, a, None), getattr(builtins, b, None)
    if ca is None or cb is None:
        return None
    return issubclass(ca, cb)


FUNCS = {}
CLASSES = {}
OBJCLS = {}      # symbolic object -> exact class term
NATIVE = {}      # native handlers for values: key -> callable(interp, st, args, kwargs)


def fn_t(f):
    t = mk('func', f.qual, ty='func')
    FUNCS[t] = f
    return t


def cls_t(c):
    t = mk('cls', c.qual, ty='class')
    CLASSES[t] = c
    return t


def ext(name):
    return mk('ext', name, ty='ext')


def native(name, h):
    t = mk('native', name, ty='func')
    NATIVE[t] = h
    return t


def bm(obj, fn):
    return mk('bm', obj, fn, ty='func')


def bb(obj, name):
    return mk('bb', obj, name, ty='func')


def ref(n):
    return mk('ref', n, ty='ref')


def sup_class(c1, c2):
    """class term c1 is a subclass of c2"""
    if c1 is c2:
        return True
    a = CLASSES.get(c1)
    if a is None:
        return False
    return any(sup_class(b, c2) for b in a.bases)


CLS_REL['sub'] = sup_class


def _disjoint(a, b):
    return not any(sup_class(c, a) and sup_class(c, b) for c in list(CLASSES))


CLS_REL['disjoint'] = _disjoint


class Interp:
    def __init__(self, happy=True, summaries=None, opaque=(), unroll=2100):
        self.happy = happy
        self.summaries = dict(summaries or {})   # qualname -> handler(I, st, args, kwargs)
        self.opaque = set(opaque)                # method names opaque on symbolic objects
        self.unroll = unroll
        self.nref = 0
        self.heap0 = {}
        self.loaded = {}
        self.frames = []          # stack of (frame key, Func)
        self.rets, self.brks, self.conts, self.raises = [], [], [], []
        self.depth = 0            # loop nesting depth
        self.stack = []           # qualnames being inlined
        self.sites = []           # where they were called
        self.gen_lists = []       # what generators have delivered, one list per call
        self.lazy = False         # generators run in steps (sa/coro.py)
        self.coro, self.coros = None, []
        self.recs = {}
        self.node = None
        self.accesses = {}        # index expressions of compiled code
        self.raw = False          # is the current index expression compiled without bounds check?
        self.buffers = {}         # sizes of the buffers of a unit
        self.record_obl = False
        self.concrete = False       # loops may be unrolled at length
        self.notes = []
        self.visited = set()      # functions analysed
        self.calls = 0
        from . import lib
        self.lib = lib

    # ------------------------------------------------------------------ heap helpers
    def alloc(self, st, kind, s=None, meta=None):
        self.nref += 1
        st.heap[self.nref] = Cell(kind, s, meta)
        return ref(self.nref)

    def cell(self, st, r):
        k = self.hkey(r)
        c = st.heap.get(k)
        return c

    def hkey(self, r):
        return r.a[0] if r.k == 'ref' else r

    def put(self, st, r, slot, v):
        k = self.hkey(r)
        c = st.heap[k]
        st.heap[k] = c.with_(slot, v)
        home = c.meta.get('home')
        if home is not None:
            self.write_home(st, r, home)

    def write_home(self, st, r, home):
        parent, key = home
        pc = self.cell(st, parent)
        self.put(st, parent, 'dyn', dstore(pc.s.get('dyn', EMPTY), key, self.freeze(st, r)))

    def new_list(self, st, items=()):
        return self.alloc(st, 'list', {'items': lst(*items)})

    def new_dict(self, st, items=(), meta=None):
        return self.alloc(st, 'dict', {('k', k): v for k, v in items}, meta)

    # ------------------------------------------------------------------ freeze
    def freeze(self, st, t, _seen=None):
        """value without heap references"""
        if not contains_ref(t):
            return t
        return self._freeze(st, t, _seen or ())

    def _freeze(self, st, t, seen):
        if not contains_ref(t):
            return t
        if t.k == 'ref':
            if t in seen:
                return mk('app', 'cyclic', ty='obj')
            c = st.heap.get(t.a[0])
            if c is None:
                raise Undecidable('dangling reference')
            return self.freeze_cell(st, c, seen + (t,))
        if t.k == 'ite':
            f = lambda leaf: self._freeze(st, leaf, seen)
            hi, lo = self._freeze(st, t.a[1], seen), self._freeze(st, t.a[2], seen)
            return ite(TM.atom_b(t.a[0]), hi, lo)
        if t.k == 'aview':
            return self.lib.subarray(self._freeze(st, t.a[0], seen), t.a[1].a)
        new = tuple(self._freeze_arg(st, x, seen) for x in t.a)
        if t.k == 'poly':
            return t
        return TM.rebuild(t, new)

    def _freeze_arg(self, st, x, seen):
        if isinstance(x, T):
            return self._freeze(st, x, seen)
        if isinstance(x, tuple):
            return tuple(self._freeze_arg(st, y, seen) for y in x)
        return x

    def freeze_cell(self, st, c, seen=()):
        fz = lambda v: self._freeze(st, v, seen)
        if c.kind == 'list':
            return fz(c.s['items'])
        if c.kind == 'dict':
            items = [(k[1], fz(v)) for k, v in c.s.items() if isinstance(k, tuple) and k[0] == 'k']
            return mkdict(items, fz(c.s.get('dyn', EMPTY)))
        if c.kind == 'set':
            return fz(c.s['v'])
        if c.kind == 'arr':
            return fz(c.s['c'])
        if c.kind == 'ba':
            return fz(c.s['c'])
        if c.kind == 'bio':
            return raw('stream', fz(c.s['buf']), fz(c.s['pos']), ty='obj')
        if c.kind == 'inst':
            base = c.meta.get('base')
            if base is not None and not c.meta.get('full'):
                return base
            items = sorted(((C(k), fz(v)) for k, v in c.s.items()), key=lambda kv: kv[0].id)
            return raw('inst', c.meta['cls'], tup(*[tup(k, v) for k, v in items]), ty='obj')
        if c.kind == 'gen':
            return raw('gen', ty='obj')
        raise Undecidable('freeze of ' + c.kind)

    # ------------------------------------------------------------------ conditions
    def cond(self, st, c):
        """simplify a condition under the path condition"""
        if c is TRUE or c is FALSE:
            return c
        if st.pc is TRUE:
            return c
        if and_(st.pc, c) is FALSE:
            return FALSE
        if and_(st.pc, not_(c)) is FALSE:
            return TRUE
        return c

    def simp(self, st, t):
        """simplify a value under the facts of the path condition"""
        if t.k != 'ite' or st.pc is TRUE:
            return t
        for a in list(TM.support(st.pc)):
            ab = TM.atom_b(a)
            if and_(st.pc, ab) is FALSE:
                t = restrict(t, a, False)
            elif and_(st.pc, not_(ab)) is FALSE:
                t = restrict(t, a, True)
            if t.k != 'ite':
                break
        return t

    def split(self, st, t, f, *more):
        """apply f(state, leaf) to the leaves of a gated value"""
        t = self.simp(st, t)
        if t.k != 'ite':
            return f(st, t)
        c = TM.atom_b(t.a[0])
        return self.branch(st, c, lambda s: self.split(s, t.a[1], f), lambda s: self.split(s, t.a[2], f))

    def branch(self, st, c, fa, fb):
        """value of fa/fb executed under c / not c; joins the states"""
        c = self.cond(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        pc0 = st.pc
        s1, s2 = st.fork(c), st.fork(not_(c))
        m0 = self.marks()
        try:
            v1 = fa(s1)
        except Dead:
            v1 = None
        m1 = self.marks()
        try:
            v2 = fb(s2)
        except Dead:
            v2 = None
        m2 = self.marks()
        if v1 is None and v2 is None:
            raise Dead
        if v1 is None:
            st.become(s2)
            if self.only_eof(m0, m1):
                st.pc = rel_pc(s2.pc, not_(c), pc0)
            return v2
        if v2 is None:
            st.become(s1)
            if self.only_eof(m1, m2):
                st.pc = rel_pc(s1.pc, c, pc0)
            return v1
        st.become(merge(c, s1, s2))
        return ite(c, v1, v2)

    def marks(self):
        return [len(x[-1]) if x else 0 for x in (self.raises, self.rets, self.brks, self.conts)]

    def only_eof(self, a, b):
        """between the marks only truncation was reported: data are assumed to be complete"""
        if not self.happy or a[1:] != b[1:] or a[0] == b[0]:
            return False
        return all(is_eof(e) for _, e in self.raises[-1][a[0]:b[0]])

    def throw(self, st, exc, cond=TRUE):
        """raise exc under cond; continue under not cond"""
        cond = self.cond(st, cond)
        if cond is FALSE:
            return
        s = st.fork(cond)
        self.raises[-1].append((s, exc))
        if cond is TRUE:
            raise Dead
        if self.happy and is_eof(exc):
            return
        st.pc = and_(st.pc, not_(cond))

    def exc(self, name, *args):
        return mk('exc', ext(name), tuple(args), ty='exc')

    def assume(self, st, cond):
        st.pc = and_(st.pc, cond)
        if st.pc is FALSE:
            raise Dead

    def outside(self, st, cond):
        """an access without check, outside of its buffer under cond"""
        if self.record_obl:
            where = front.loc(self.node)
            self.accesses.setdefault(where, 'unchecked')
            self.accesses[where] = 'unchecked'
            self.throw(st, self.exc('OutOfBounds', C(where)), cond)

    def checked(self, st, cond):
        """an index of compiled code that is checked at run time"""
        if self.record_obl and self.frames and self.frames[-1][1].ctypes:
            self.accesses.setdefault(front.loc(self.node), 'checked at run time')
        self.throw(st, self.exc('IndexError'), cond)

    def raw_index(self, n):
        """is the expression n[...] compiled without bounds check?"""
        f = self.frames[-1][1] if self.frames else None
        if f is None or getattr(f.node, '_cdir', None) is None or f.node._cdir.get('boundscheck', True):
            return False
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return isinstance(n, ast.Name) and f.ctypes.get(n.id, '').split(':')[0] in ('memview', 'ndarray')

    # ------------------------------------------------------------------ modules
    def module(self, name):
        key = ('mod', name)
        if name in self.loaded:
            return key
        src = front.load(name)
        if src is None:
            return None
        self.loaded[name] = src
        if '.' in name:
            self.module(name.rsplit('.', 1)[0])
        st = State(self.heap0)
        st.heap[key] = Cell('env', {'__name__': C(name), '__doc__': NONE}, {'mod': name})
        fr = Func(ast.parse('def f(): pass').body[0], name, '<module>', name + '.<module>')
        fr.ctypes = {}
        self.frames.append((key, fr))
        self.rets.append([])
        self.raises.append([])
        save = self.brks, self.conts, self.depth
        self.brks, self.conts, self.depth = [], [], 0
        try:
            self.block(src.tree.body, st)
        except Dead:
            raise Undecidable('module %s does not finish: %s' % (name, [TM.show(e) for _, e in self.raises[-1]]))
        finally:
            self.frames.pop()
            self.rets.pop()
            self.raises.pop()
            self.brks, self.conts, self.depth = save
        self.heap0 = st.heap
        return key

    def lookup_qual(self, mod, path, st=None):
        """value of a dotted path in a module"""
        key = self.module(mod)
        if key is None:
            return None
        h = self.heap0
        st = st or State(dict(h))
        parts = path.split('.')
        v = h[key].s.get(parts[0])
        for p in parts[1:]:
            if v is None:
                return None
            v = self.class_attr(st, v, p) if v.k == 'cls' else None
        return v

    # ------------------------------------------------------------------ classes
    def mro(self, c):
        out = [c]
        k = CLASSES.get(c)
        if k is None:
            return out
        for b in k.bases:
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def class_attr(self, st, c, name, skip=None):
        found = skip is None
        for k in self.mro(c):
            if not found:
                if k is skip:
                    found = True
                continue
            cell = st.heap.get(('cls', k)) or self.heap0.get(('cls', k))
            if cell is not None:
                v = cell.s.get(name)
                if v is not None and v is not UNDEF:
                    return v
        return None

    def is_exc_class(self, c):
        return any(k.k == 'ext' and k.a[0] in BUILTIN_EXC for k in self.mro(c))

    def cls_of(self, st, o):
        if o.k == 'ref':
            c = self.cell(st, o)
            return c.meta.get('cls')
        if o in OBJCLS:
            return OBJCLS[o]
        return None

    def ext_or_const(self, name):
        v = self.lib.ext_const(name)
        return v if v is not None else ext(name)

    # ------------------------------------------------------------------ functions
    def call_func(self, st, f, args, kwargs, fnode=None):
        """inline a function of the repository"""
        h = self.summaries.get(f.qual)
        if h is not None:
            r = h(self, st, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.stack.count(f.qual) >= (40 if self.concrete else 1):
            return self.opaque_call(st, 'rec:' + f.qual, args, kwargs)
        if len(self.stack) > (200 if self.concrete else 60):
            raise Undecidable('call depth')
        self.visited.add(f.qual)
        self.calls += 1
        node = f.node
        frame = {}
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        bad = self.exc('TypeError', C('arguments of ' + f.name))
        for i, p in enumerate(params):
            if i < len(args):
                if p in kwargs:
                    self.throw(st, bad)
                frame[p] = args[i]
            elif p in kwargs:
                frame[p] = kwargs.pop(p)
            else:
                d = i - (len(params) - len(f.defaults))
                if d < 0:
                    self.throw(st, bad)
                frame[p] = f.defaults[d]
        rest = args[len(params):]
        if a.vararg:
            frame[a.vararg.arg] = tup(*rest)
        elif rest:
            self.throw(st, bad)
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                frame[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                frame[p.arg] = f.kwdefaults[p.arg]
            else:
                self.throw(st, bad)
        if a.kwarg:
            frame[a.kwarg.arg] = self.new_dict(st, [(C(k), v) for k, v in kwargs.items()])
        elif kwargs:
            self.throw(st, bad)
        for p, ct in f.ctypes.items():
            if p in frame:
                frame[p] = self.ctype(st, ct, frame[p])
        self.nref += 1
        key = ('frame', self.nref)
        st.heap[key] = Cell('env', frame)
        if f.is_gen and self.lazy:
            from . import coro
            return coro.make(self, st, self.frames + [(key, f)], lambda s: self.block(node.body, s))
        self.frames.append((key, f))
        self.rets.append([])
        save = self.brks, self.conts
        self.brks, self.conts = [], []
        self.stack.append(f.qual)
        self.sites.append(self.node)
        out = None
        if f.is_gen:
            out = self.new_list(st)
            st.heap[key] = st.heap[key].with_('<out>', out)
            self.gen_lists.append(out)
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body, st)
                self.rets[-1].append((st.snap(), v))
            else:
                try:
                    self.block(node.body, st)
                    self.rets[-1].append((st.snap(), NONE))
                except Dead:
                    pass
        finally:
            self.frames.pop()
            rets = self.rets.pop()
            self.brks, self.conts = save
            self.stack.pop()
            self.sites.pop()
        if not rets:
            raise Dead
        s, v = rets[-1]
        for s1, v1 in reversed(rets[:-1]):
            c = self.relative(s1.pc, s.pc)
            v = ite(c, v1, v)
            s = merge(c, s1, s)
        st.become(s)
        st.heap.pop(key, None) if not self.keeps_frame(f) else None
        if f.is_gen:
            return mk('app', 'gen', out, ty='gen')
        if f.cret and f.cret != 'object':
            v = self.ctype(st, f.cret, v)
        return v

    def keeps_frame(self, f):
        k = f.__dict__.get('keeps')
        if k is None:
            k = f.keeps = any(n is not f.node and isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp) if self.lazy else (ast.Lambda, ast.FunctionDef)) for n in ast.walk(f.node))
        return k

    def relative(self, p1, p2):
        """condition that tells p1 from p2 (disjoint path conditions)"""
        # prefer the smaller description
        n2 = not_(p2)
        if p1 is n2:
            return p1
        # remove common facts
        c = p1
        for a in list(TM.support(p1)):
            ab = TM.atom_b(a)
            if and_(p1, ab) is FALSE and and_(p2, ab) is FALSE:
                c = restrict(c, a, False)
            elif and_(p1, not_(ab)) is FALSE and and_(p2, not_(ab)) is FALSE:
                c = restrict(c, a, True)
        return c

    def ctype(self, st, ct, v):
        """conversion to a C type on assignment"""
        if ct in CT:
            n = CT[ct][1]
            v = self.lib.as_int(self, st, v)
            if v is None:
                raise Undecidable('conversion to ' + ct)
            if n == 64:
                return v
            w = wrap(ct, v)
            if w is not v and not self.happy:
                # the checks on the path may bound the value
                lo, hi = TM.ct_rng(ct)
                out = or_(TM.lt(v, C(lo)), TM.lt(C(hi), v))
                if and_(st.pc, out) is FALSE:
                    return v
            return w
        if ct == 'bint':
            return truth(v)
        if ct == 'float' or ct == 'double':
            return self.lib.to_float(v, 'f4' if ct == 'float' else 'f8')
        if ct.startswith('ctuple:'):
            parts = ct[7:].split(',')

            def f(s, x):
                items = self.lib.seq_items(self, s, x, len(parts))
                return tup(*[self.ctype(s, p, i) for p, i in zip(parts, items)])
            return self.split(st, v, f)
        return v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            self.node = s
            self.stmt(s, st)

    def stmt(self, n, st):
        f = getattr(self, 'x_' + type(n).__name__, None)
        if f is None:
            raise Undecidable('statement %s at %s' % (type(n).__name__, front.loc(n)))
        f(n, st)

    def x_Pass(self, n, st):
        pass

    x_Global = x_Nonlocal = x_Pass

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, st)

    def x_Assign(self, n, st):
        v = self.ev(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)

    def x_AnnAssign(self, n, st):
        if isinstance(n.annotation, ast.Constant) and str(n.annotation.value).startswith('C:'):
            ct = n.annotation.value[2:]
            if n.value is not None:
                v = self.ev(n.value, st)
                if ct.startswith('carr:'):
                    v = self.carr_init(st, ct, v)
                self.assign(n.target, v, st)
            elif ct.startswith('carr:'):
                self.assign(n.target, self.carr_init(st, ct, None), st)
            return
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st), st)

    def carr_init(self, st, ct, v):
        _, base, dim = ct.split(':', 2)
        dim = int(dim)
        if v is None:
            items = [UNDEF] * dim
        else:
            items = self.lib.seq_items(self, st, v, dim)
        r = self.new_list(st, items)
        self.cell(st, r).meta.update(carr=base, raw=True)
        return r

    def x_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
            v = self.binop(st, n.op, cur, self.ev(n.value, st), inplace=True)
            self.assign(t, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(st, o, t.attr)
            v = self.binop(st, n.op, cur, self.ev(n.value, st), inplace=True)
            self.setattr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.raw = self.record_obl and self.raw_index(t.value)
            cur = self.getitem(st, o, i)
            v = self.binop(st, n.op, cur, self.ev(n.value, st), inplace=True)
            self.raw = self.record_obl and self.raw_index(t.value)
            self.setitem(st, o, i, v)
        else:
            raise Undecidable('augmented assignment')

    def x_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.setname(st, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o, i = self.ev(t.value, st), self.ev_index(t.slice, st)
                self.split(st, o, lambda s, x: self.lib.delitem(self, s, x, i))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                self.setattr(st, o, t.attr, UNDEF)
            else:
                raise Undecidable('del')

    def x_Return(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        self.rets[-1].append((st.snap(), v))
        raise Dead

    def x_Break(self, n, st):
        self.brks[-1].append((st.snap(), None))
        raise Dead

    def x_Continue(self, n, st):
        self.conts[-1].append((st.snap(), None))
        raise Dead

    def x_Raise(self, n, st):
        if n.exc is None:
            e = getattr(self, 'handling', None)
            if not e:
                raise Undecidable('bare raise')
            self.throw(st, e[-1])
        e = self.ev(n.exc, st)
        self.raise_value(st, e)

    def raise_value(self, st, e):
        def f(s, x):
            if x.k == 'cls' or x.k == 'ext':
                x = self.call(s, x, [], {}) if x.k == 'cls' else mk('exc', x, (), ty='exc')
            if x.k == 'ref':
                x = self.freeze(s, x)
            self.throw(s, x)
            raise Dead
        self.split(st, e, f)

    def x_Assert(self, n, st):
        c = truth(self.ev(n.test, st))
        if self.happy:
            # an assertion is a claim about the program, not part of its function
            return
        self.throw(st, self.exc('AssertionError'), not_(c))

    def x_If(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        self.branch_stmt(st, c, n.body, n.orelse)

    def truth(self, st, v):
        r = self.lib.truth(self, st, v)
        return self.cond(st, r)

    def branch_stmt(self, st, c, a, b):
        def run(body):
            def f(s):
                self.block(body, s)
                return NONE
            return f
        self.branch(st, c, run(a), run(b))

    def x_Import(self, n, st):
        for a in n.names:
            v = self.import_module(a.name)
            if a.asname:
                self.setname(st, a.asname, v)
            else:
                top = a.name.split('.')[0]
                self.setname(st, top, v if '.' not in a.name else self.import_module(top))

    def import_module(self, name):
        if name == 'eventio' or name.startswith('eventio.'):
            if self.module(name) is None:
                raise Undecidable('module %s not found' % name)
            return mk('mod', name, ty='module')
        if name.startswith('spec'):
            self.module(name)
            return mk('mod', name, ty='module')
        return ext(name)

    def x_ImportFrom(self, n, st):
        mod = n.module or ''
        cur = self.frames[-1][1].mod
        if n.level:
            pkg = cur.split('.')
            src = self.loaded.get(cur)
            is_pkg = src is not None and src.path.endswith('__init__.py')
            up = n.level - (1 if is_pkg else 0)
            base = pkg[:len(pkg) - up] if up else pkg
            mod = '.'.join(base + ([mod] if mod else []))
        if mod.startswith('c:'):
            for a in n.names:
                self.setname(st, a.asname or a.name, self.ext_or_const(mod + '.' + a.name))
            return
        if mod == 'eventio' or mod.startswith('eventio.') or mod.startswith('spec'):
            merged = self.sync_heap(st)
            key = self.module(mod)
            self.sync_back(st)
            if key is None:
                # optional module (try: from ._dev_version import ..)
                self.throw(st, self.exc('ImportError'))
            for a in n.names:
                v = st.heap[key].s.get(a.name)
                if v is None or v is UNDEF:
                    self.sync_heap(st)
                    sub = self.module(mod + '.' + a.name)
                    self.sync_back(st)
                    if sub is None:
                        raise Undecidable('cannot import %s from %s' % (a.name, mod))
                    v = mk('mod', mod + '.' + a.name, ty='module')
                self.setname(st, a.asname or a.name, v)
            return
        for a in n.names:
            self.setname(st, a.asname or a.name, self.ext_or_const(mod + '.' + a.name))

    def sync_heap(self, st):
        # module level code is executed in the global heap
        if any(k not in self.heap0 for k in st.heap):
            self.heap0.update({k: v for k, v in st.heap.items() if k not in self.heap0})
        if self.frames and self.frames[-1][1].name == '<module>':
            self.heap0.update(st.heap)

    def sync_back(self, st):
        for k, v in self.heap0.items():
            if k not in st.heap:
                st.heap[k] = v
        if self.frames and self.frames[-1][1].name == '<module>':
            st.heap.update(self.heap0)

    def x_FunctionDef(self, n, st):
        self.setname(st, n.name, self.make_func(n, st))

    def make_func(self, n, st, cls=None):
        key, fr = self.frames[-1]
        mod = fr.mod
        deco = []
        for d in getattr(n, 'decorator_list', []):
            deco.append(ast.unparse(d))
        defaults = [self.ev(d, st) for d in n.args.defaults]
        kwd = {p.arg: self.ev(d, st) for p, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        name = getattr(n, 'name', '<lambda>')
        prefix = cls.qual if cls else (mod if fr.name == '<module>' else fr.qual + '.<locals>')
        qual = prefix + '.' + name
        if name == '<lambda>':
            qual += '@%d:%d' % (n.lineno, n.col_offset)
        closure = None
        if fr.name != '<module>' and cls is None:
            closure = key
            qual += '#%s' % (key[1],)
        f = Func(n, mod, name, qual, cls_t(cls) if cls else None, closure, tuple(defaults), kwd, tuple(deco))
        return fn_t(f)

    def x_ClassDef(self, n, st):
        key, fr = self.frames[-1]
        bases = [self.ev(b, st) for b in n.bases]
        c = Class(n.name, fr.mod + '.' + n.name, [b for b in bases], fr.mod)
        ct = cls_t(c)
        for b in bases:
            if b in CLASSES and ct not in CLASSES[b].subs:
                CLASSES[b].subs.append(ct)
        ck = ('cls', ct)
        st.heap[ck] = Cell('env', {'__name__': C(n.name), '__qualname__': C(n.name), '__module__': C(fr.mod)},
                           {'cls': c})
        f2 = Func(ast.parse('def f(): pass').body[0], fr.mod, '<class>', c.qual)
        f2.ctypes = {}
        f2.clsobj = c
        f2.outer = key
        self.frames.append((ck, f2))
        try:
            for s in n.body:
                self.node = s
                if isinstance(s, ast.FunctionDef):
                    self.setname(st, s.name, self.make_func(s, st, cls=c))
                else:
                    self.stmt(s, st)
        finally:
            self.frames.pop()
        self.setname(st, n.name, ct)

    def x_Try(self, n, st):
        self.raises.append([])
        ret0, brk0, cont0 = (len(x[-1]) if x else 0 for x in (self.rets, self.brks, self.conts))
        normal = st
        dead = False
        try:
            self.block(n.body, st)
        except Dead:
            dead = True
        caught = self.raises.pop()
        exits = []
        if n.finalbody:
            self.raises.append([])
        if not dead and n.orelse:
            try:
                self.block(n.orelse, st)
            except Dead:
                dead = True
        conts = []      # (state) of handlers finishing normally
        for s, e in caught:
            self.handle(n, s, e, conts)
        states = ([] if dead else [st.snap()]) + conts
        if n.finalbody:
            pend = self.raises.pop()
            for s, e in pend:
                try:
                    self.block(n.finalbody, s)
                    self.raises[-1].append((s, e))
                except Dead:
                    pass
            for sink, k in ((self.rets, ret0), (self.brks, brk0), (self.conts, cont0)):
                if sink:
                    for i in range(len(sink[-1]) - 1, k - 1, -1):
                        s, v = sink[-1].pop(i)
                        try:
                            self.block(n.finalbody, s)
                            sink[-1].append((s, v))
                        except Dead:
                            pass
            out = []
            for s in states:
                try:
                    self.block(n.finalbody, s)
                    out.append(s)
                except Dead:
                    pass
            states = out
        self.join(st, states)

    def join(self, st, states):
        if not states:
            raise Dead
        s = states[-1]
        for s1 in reversed(states[:-1]):
            s = merge(self.relative(s1.pc, s.pc), s1, s)
        st.become(s)

    def handle(self, n, s, e, conts):
        rest = s
        for h in n.handlers:
            if h.type is None:
                m = TRUE
            else:
                m = self.exc_match(rest, e, self.ev(h.type, rest))
            m = self.cond(rest, m)
            if m is FALSE:
                continue
            hs = rest.fork(m)
            if not hasattr(self, 'handling'):
                self.handling = []
            self.handling.append(e)
            try:
                if h.name:
                    self.setname(hs, h.name, e)
                self.block(h.body, hs)
                conts.append(hs)
            except Dead:
                pass
            finally:
                self.handling.pop()
            if m is TRUE:
                return
            rest = rest.fork(not_(m))
        self.raises[-1].append((rest, e))

    def exc_class(self, e):
        if e.k == 'exc':
            return e.a[0]
        return None

    def exc_match(self, st, e, want):
        if want.k == 'tup':
            r = FALSE
            for w in want.a:
                r = or_(r, self.exc_match(st, e, w))
            return r
        c = self.exc_class(e)
        if c is None:
            return opaque_atom('excis', e, want)
        for k in self.mro(c):
            if k is want:
                return TRUE
            if k.k == 'ext' and want.k == 'ext':
                a, b = k.a[0].split('.')[-1], want.a[0].split('.')[-1]
                r = exc_sub(a, b)
                if r:
                    return TRUE
                if r is None and a == b:
                    return TRUE
        return FALSE

    def x_With(self, n, st):
        self.with_items(n, 0, st)

    def with_items(self, n, i, st):
        if i == len(n.items):
            self.block(n.body, st)
            return
        it = n.items[i]
        mgr = self.ev(it.context_expr, st)
        v = self.call_method(st, mgr, '__enter__', [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, st)
        # like try/finally
        self.raises.append([])
        lens = [(x, len(x[-1]) if x else 0) for x in (self.rets, self.brks, self.conts)]
        dead = False
        try:
            self.with_items(n, i + 1, st)
        except Dead:
            dead = True
        pend = self.raises.pop()
        swallowed = []
        for s, e in pend:
            try:
                c = self.exc_class(e)
                r = self.call_method(s, mgr, '__exit__', [c if c is not None else app('class_of', e, ty='class'), e, app('traceback', e, ty='obj')])
                r = self.cond(s, self.truth(s, r)) if r is not NONE else FALSE
                if r is not FALSE:
                    swallowed.append(s.fork(r))
                if r is not TRUE:
                    s.pc = and_(s.pc, not_(r))
                    self.raises[-1].append((s, e))
            except Dead:
                pass
        for sink, k in lens:
            if sink:
                for j in range(k, len(sink[-1])):
                    s, v = sink[-1][j]
                    self.call_method(s, mgr, '__exit__', [NONE, NONE, NONE])
        if not dead:
            try:
                self.call_method(st, mgr, '__exit__', [NONE, NONE, NONE])
                if not swallowed:
                    return
                swallowed.insert(0, st.snap())
            except Dead:
                pass
        self.join(st, swallowed)

    # ------------------------------------------------------------------ loops
    def x_For(self, n, st):
        it = self.ev(n.iter, st)
        self.for_value(st, it, n)

    def for_value(self, st, it, n):
        it = self.lib.ungate(self, st, it)
        if it.k == 'ite':
            # different iterables on different paths
            def f(s, leaf):
                self.for_value(s, leaf, n)
                return NONE
            self.split(st, it, f)
            return
        seq = self.lib.iterspec(self, st, it)

        def assign(s, ix):
            v = seq.item(self, s, ix)
            self.assign(n.target, v, s)
        self.run_loop(st, seq, assign, lambda s: self.block(n.body, s), n.orelse, None, n)

    def x_While(self, n, st):
        self.run_loop(st, None, None, lambda s: self.block(n.body, s), n.orelse, n.test, n)

    def run_loop(self, st, seq, assign, body, orelse, test, node):
        from .loops import run_loop
        run_loop(self, st, seq, assign, body, orelse, test, node)

    # ------------------------------------------------------------------ names
    def setname(self, st, name, v):
        key, f = self.frames[-1]
        if f.name not in ('<module>', '<class>', '<comp>'):
            if name not in f.locals:
                k2 = ('mod', f.mod)
                st.heap[k2] = st.heap[k2].with_(name, v)
                return
            ct = f.ctypes.get(name)
            if ct is not None and v is not UNDEF:
                v = self.ctype(st, ct, v)
        st.heap[key] = st.heap[key].with_(name, v)

    def getname(self, st, name):
        key, f = self.frames[-1]
        v = None
        cell = st.heap.get(key)
        if cell is not None:
            v = cell.s.get(name)
        if v is None and f.name == '<comp>':
            for k, g in reversed(self.frames[:-1]):
                c = st.heap.get(k)
                if c is not None and g.name != '<class>':
                    v = c.s.get(name)
                if v is not None or g.name not in ('<comp>', '<class>'):
                    f = g
                    break
        if v is None and f.name not in ('<module>', '<class>') and name in f.locals:
            v = UNDEF
        if v is None and f.closure is not None:
            k = f.closure
            c = st.heap.get(k)
            if c is not None:
                v = c.s.get(name)
        if v is None:
            c = st.heap.get(('mod', f.mod))
            if c is None:
                c = self.heap0.get(('mod', f.mod))
            v = c.s.get(name)
        if v is None or v is UNDEF:
            if name == '__cast__' or name == '__addr__' or name in self.lib.BUILTINS or hasattr(builtins, name):
                if v is None:
                    return ext(name)
            self.throw(st, self.exc('NameError', C(name)))
        u = is_undef(v)
        if u is not FALSE:
            self.throw(st, self.exc('UnboundLocalError', C(name)), u)
            v = self.simp(st, v)
        return v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.ev_index(t.slice, st)
            self.raw = self.record_obl and self.raw_index(t.value)
            if isinstance(t.value, ast.Subscript) and o.ty == 'dict' and o.k != 'ref':
                # element of a stored dictionary: write the changed dictionary back
                self.assign(t.value, dict_set(o, self.freeze(st, i), self.freeze(st, v)), st)
            else:
                self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                raise Undecidable('starred assignment')
            n = len(t.elts)

            def f(s, x):
                return tup(*self.lib.seq_items(self, s, x, n))
            items = self.split(st, v, f)
            for k, e in enumerate(t.elts):
                self.assign(e, lift('item%d' % k, lambda x: x.a[k] if x.k == 'tup' and len(x.a) == n else UNDEF, items), st)
        else:
            raise Undecidable('assignment to %s' % type(t).__name__)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        f = getattr(self, 'e_' + type(n).__name__, None)
        if f is None:
            raise Undecidable('expression %s at %s' % (type(n).__name__, front.loc(n)))
        return f(n, st)

    def e_Constant(self, n, st):
        return C(n.value)

    def e_Name(self, n, st):
        return self.getname(st, n.id)

    def e_Tuple(self, n, st):
        return tup(*self.ev_items(n.elts, st))

    def ev_items(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                out += self.lib.seq_all(self, st, v)
            else:
                out.append(self.ev(e, st))
        return out

    def e_List(self, n, st):
        return self.new_list(st, self.ev_items(n.elts, st))

    def e_Set(self, n, st):
        return self.lib.make_set(self, st, self.ev_items(n.elts, st))

    def e_Dict(self, n, st):
        r = self.new_dict(st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, st)
                self.lib.dict_update(self, st, r, m)
            else:
                kk = self.ev(k, st)
                self.setitem(st, r, kk, self.ev(v, st))
        return r

    def e_Attribute(self, n, st):
        return self.getattr(st, self.ev(n.value, st), n.attr)

    def e_Subscript(self, n, st):
        o = self.ev(n.value, st)
        i = self.ev_index(n.slice, st)
        self.node = n
        self.raw = self.record_obl and self.raw_index(n.value)
        if isinstance(n.value, ast.Name) and self.frames and str(
                self.frames[-1][1].ctypes.get(n.value.id, '')).startswith('memview:'):
            v = self.lib.row_view(self, st, o, i)
            if v is not None:
                return v
        return self.getitem(st, o, i)

    def ev_index(self, n, st):
        return self.ev(n, st)

    def e_Slice(self, n, st):
        g = lambda x: self.ev(x, st) if x is not None else NONE
        return mk('slice', g(n.lower), g(n.upper), g(n.step), ty='slice')

    def e_IfExp(self, n, st):
        c = self.truth(st, self.ev(n.test, st))
        return self.branch(st, c, lambda s: self.ev(n.body, s), lambda s: self.ev(n.orelse, s))

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)

        def rec(k, s):
            v = self.ev(n.values[k], s)
            if k == len(n.values) - 1:
                return v
            c = self.truth(s, v)
            if is_and:
                return self.branch(s, c, lambda q: rec(k + 1, q), lambda q: v)
            return self.branch(s, c, lambda q: v, lambda q: rec(k + 1, q))
        return rec(0, st)

    def e_UnaryOp(self, n, st):
        v = self.ev(n.operand, st)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(st, v))
        return self.lib.unary(self, st, type(n.op).__name__, v)

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        self.node = n
        return self.binop(st, n.op, a, b)

    def binop(self, st, op, a, b, inplace=False):
        return self.lib.binop(self, st, type(op).__name__, a, b, inplace)

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        ops = list(zip(n.ops, n.comparators))

        def rec(k, left, s):
            op, c = ops[k]
            right = self.ev(c, s)
            r = self.lib.compare(self, s, type(op).__name__, left, right)
            if k == len(ops) - 1:
                return r
            return self.branch(s, self.truth(s, r), lambda q: rec(k + 1, right, q), lambda q: FALSE)
        return rec(0, left, st)

    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.make_super(st)
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'eval', 'exec'):
            raise Undecidable(n.func.id)
        fn = self.ev(n.func, st)
        args = self.ev_items(n.args, st)
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.ev(k.value, st)
                for kk, vv in self.lib.dict_const_items(self, st, m):
                    kwargs[cv(kk)] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, st)
        self.node = n
        return self.call(st, fn, args, kwargs)

    def make_super(self, st):
        for key, f in reversed(self.frames):
            if f.cls is not None:
                a = f.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return mk('super', f.cls, st.heap[key].s[first], ty='super')
        raise Undecidable('super')

    def e_Lambda(self, n, st):
        return self.make_func(n, st)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st)
                spec = C('') if v.format_spec is None else self.ev(v.format_spec, st)
                if is_c(spec):
                    parts.append(self.lib.fmt(self, st, x, cv(spec), v.conversion))
                else:
                    parts.append(app('fmt', spec, self.freeze(st, x), ty='str'))
        return self.lib.str_concat(parts)

    def e_FormattedValue(self, n, st):
        return app('fmt', C(''), self.freeze(st, self.ev(n.value, st)), ty='str')

    def comp(self, n, st, emit):
        """desugar comprehension into nested loops"""
        key, f0 = self.frames[-1]
        it0 = self.ev(n.generators[0].iter, st)
        self.nref += 1
        ck = ('frame', self.nref)
        st.heap[ck] = Cell('env', {})
        f = Func(ast.parse('def f(): pass').body[0], f0.mod, '<comp>', f0.qual)
        f.closure, f.cls, f.node_outer = f0.closure, None, None
        f.ctypes = {}
        self.frames.append((ck, f))
        try:
            def rec(k, s):
                if k == len(n.generators):
                    emit(s)
                    return
                g = n.generators[k]
                it = it0 if k == 0 else self.ev(g.iter, s)
                body = []

                def go(q, leaf):
                    seq = self.lib.iterspec(self, q, leaf)

                    def assign(w, ix):
                        self.assign(g.target, seq.item(self, w, ix), w)

                    def run(w):
                        def conds(j, z):
                            if j == len(g.ifs):
                                rec(k + 1, z)
                                return NONE
                            c = self.truth(z, self.ev(g.ifs[j], z))
                            return self.branch(z, c, lambda y: conds(j + 1, y), lambda y: NONE)
                        conds(0, w)
                    self.run_loop(q, seq, assign, run, [], None, n)
                    return NONE
                self.split(s, self.lib.ungate(self, s, it), go)
            rec(0, st)
        finally:
            self.frames.pop()
        st.heap.pop(ck, None)

    def e_ListComp(self, n, st):
        out = self.new_list(st)

        def emit(s):
            v = self.ev(n.elt, s)
            self.lib.list_append(self, s, out, v)
        self.comp(n, st, emit)
        return out

    def e_GeneratorExp(self, n, st):
        if self.lazy:
            from . import coro
            return coro.make(self, st, self.frames, lambda s: self.comp(n, s, lambda q: self.coro.deliver(q, self.ev(n.elt, q))))
        return mk('app', 'gen', self.e_ListComp(n, st), ty='gen')

    def e_SetComp(self, n, st):
        l = self.e_ListComp(n, st)
        return self.lib.call_ext(self, st, 'set', [l], {})

    def e_DictComp(self, n, st):
        out = self.new_dict(st)

        def emit(s):
            k = self.ev(n.key, s)
            self.setitem(s, out, k, self.ev(n.value, s))
        self.comp(n, st, emit)
        return out

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else NONE
        if self.lazy:
            self.coro.deliver(st, v)
            return NONE
        self.lib.list_append(self, st, self.gen_out(st), v)
        return NONE

    def gen_out(self, st):
        for key, f in reversed(self.frames):
            if f.is_gen:
                return st.heap[key].s['<out>']
        raise Undecidable('yield')

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        if self.lazy:
            seq = self.lib.iterspec(self, st, v)
            box = [None]

            def take(s, ix):
                box[0] = seq.item(self, s, ix)
            self.run_loop(st, seq, take, lambda s: self.coro.deliver(s, box[0]), [], None, n)
            return NONE
        self.lib.list_extend(self, st, self.gen_out(st), v)
        return NONE

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Starred(self, n, st):
        raise Undecidable('starred expression')

    # ------------------------------------------------------------------ objects
    def getattr(self, st, o, name, default=None):
        return self.split(st, o, lambda s, x: self.getattr1(s, x, name, default))

    def bind(self, st, v, o, c):
        f = FUNCS.get(v)
        if f is None:
            return v
        if f.cls is None and v.k == 'func':
            # module function stored on a class: C functions do not bind
            if getattr(f.node, '_cret', None) is not None:
                return v
            return bm(o, v)
        if 'staticmethod' in f.deco:
            return v
        if 'classmethod' in f.deco:
            return bm(c, v)
        if any(d == 'property' or d.endswith('cached_property') for d in f.deco):
            return self.call_func(st, f, [o], {})
        return bm(o, v)

    def getattr_or_none(self, st, o, name):
        self.raises.append([])
        try:
            return self.getattr(st, o, name)
        except Dead:
            return None
        finally:
            self.raises.pop()

    def getattr1(self, st, o, name, default=None):
        if o.k == 'super':
            c, self_ = o.a
            oc = self.cls_of(st, self_) or c
            v = self.class_attr(st, oc, name, skip=c)
            if v is not None:
                return self.bind(st, v, self_, oc)
            return bb(self_, 'object.' + name)
        if o.k == 'mod':
            key = ('mod', o.a[0])
            if o.a[0] not in self.loaded or key not in st.heap or self.frames and self.frames[-1][1].name == '<module>':
                self.sync_heap(st)
                key = self.module(o.a[0])
                self.sync_back(st)
            v = st.heap[key].s.get(name)
            if v is None:
                sub = self.module(o.a[0] + '.' + name)
                self.sync_back(st)
                if sub is not None:
                    return mk('mod', o.a[0] + '.' + name, ty='module')
                self.throw(st, self.exc('AttributeError', C(name)))
            return v
        if o.k == 'ext':
            v = self.lib.ext_const(o.a[0] + '.' + name)
            return v if v is not None else ext(o.a[0] + '.' + name)
        if o.k == 'cls':
            v = self.class_attr(st, o, name)
            if v is not None:
                f = FUNCS.get(v)
                if f is not None and 'classmethod' in f.deco:
                    return bm(o, v)
                return v
            return bb(o, name)
        if o.k == 'ref':
            c = self.cell(st, o)
            if c.kind == 'inst':
                v = c.s.get(name)
                if v is not None and v is not UNDEF:
                    u = is_undef(v)
                    if u is not FALSE:
                        if c.meta.get('base') is None:
                            self.throw(st, self.exc('AttributeError', C(name)), u)
                            v = self.simp(st, v)
                    return v
                cls = c.meta.get('cls')
                if name == '__class__':
                    return cls
                if cls is not None:
                    v = self.class_attr(st, cls, name)
                    if v is not None:
                        return self.bind(st, v, o, cls)
                h = c.meta.get('native')
                if h is not None and name in h:
                    return bm(o, h[name])
                base = c.meta.get('base')
                if base is not None and name not in c.meta.get('noattr', ()):
                    r = self.attr_term(base, name)
                    return r
                if default is not None:
                    return default
                self.throw(st, self.exc('AttributeError', C(name)))
            return self.lib.getattr_cell(self, st, o, c, name)
        if o in OBJCLS or o.ty == 'obj':
            cell = st.heap.get(o)
            if cell is not None and name in cell.s:
                return cell.s[name]
            cls = OBJCLS.get(o)
            if name == '__class__':
                return cls if cls is not None else app('class_of', o, ty='class')
            if name in self.opaque:
                return bb(o, name)
            if cls is not None:
                v = self.class_attr(st, cls, name)
                if v is not None:
                    return self.bind(st, v, o, cls)
            return self.attr_term(o, name)
        return self.lib.getattr_value(self, st, o, name)

    ATTR_TY = {'header': 'obj', 'id': 'int', 'type': 'int', 'version': 'int', 'content_size': 'int',
               'content_address': 'int', 'only_subobjects': 'bool', 'telescope_id': 'int', 'size': 'int',
               'address': 'int', 'extended': 'bool', 'user': 'bool', 'header_size': 'int', '_pos': 'int',
               '_next_header_pos': 'int', 'code': 'int', 'telescope': 'int', 'n_bunches': 'int', 'array_id': 'int',
               'total_size': 'int'}
    ATTR_RNG = {'content_size': (0, 1 << 42), 'content_address': (0, 1 << 60), 'version': (0, 4095), 'type': (0, 65535),
                'id': (-(1 << 31), (1 << 31) - 1), 'size': (0, 1 << 42), 'address': (0, 1 << 60), '_pos': (0, 1 << 60),
                '_next_header_pos': (0, 1 << 60), 'header_size': (0, 255), 'total_size': (0, 1 << 60)}

    def attr_term(self, o, name):
        ty = self.ATTR_TY.get(name, 'obj')
        if ty == 'bool':
            return opaque_atom('attr:' + name, o)
        return app('attr:' + name, o, ty=ty, rng=self.ATTR_RNG.get(name))

    def setattr(self, st, o, name, v):
        def f(s, x):
            if x.k == 'ref':
                c = self.cell(s, x)
                if c.kind == 'inst':
                    ct = c.meta.get('ctypes', {}).get(name)
                    w = self.ctype(s, ct, v) if ct else v
                    self.put(s, x, name, w)
                    return NONE
                raise Undecidable('attribute of %s' % c.kind)
            if x.k == 'cls':
                k = ('cls', x)
                s.heap[k] = s.heap[k].with_(name, v)
                return NONE
            if x.ty == 'obj' or x in OBJCLS:
                c = s.heap.get(x) or Cell('inst', {}, {'base': x, 'cls': OBJCLS.get(x)})
                s.heap[x] = c.with_(name, v)
                return NONE
            if x is NONE:
                self.throw(s, self.exc('AttributeError', C(name)))
            raise Undecidable('attribute assignment on %s' % x.k)
        self.split(st, o, f)

    def getitem(self, st, o, i):
        return self.split(st, o, lambda s, x: self.lib.getitem(self, s, x, i))

    def setitem(self, st, o, i, v):
        self.split(st, o, lambda s, x: self.lib.setitem(self, s, x, i, v) or NONE)

    # ------------------------------------------------------------------ calls
    def call(self, st, fn, args, kwargs):
        return self.split(st, fn, lambda s, f: self.call1(s, f, args, kwargs))

    def call_method(self, st, o, name, args, kwargs=None):
        return self.call(st, self.getattr(st, o, name), args, kwargs or {})

    def call1(self, st, fn, args, kwargs):
        if fn.k == 'func':
            return self.call_func(st, FUNCS[fn], args, kwargs)
        if fn.k == 'bm':
            if fn.a[1].k == 'native':
                return NATIVE[fn.a[1]](self, st, [fn.a[0]] + args, kwargs)
            return self.call_func(st, FUNCS[fn.a[1]], [fn.a[0]] + args, kwargs)
        if fn.k == 'native':
            return NATIVE[fn](self, st, args, kwargs)
        if fn.k == 'cls':
            return self.instantiate(st, fn, args, kwargs)
        if fn.k == 'bb':
            return self.lib.call_bound(self, st, fn.a[0], fn.a[1], args, kwargs)
        if fn.k == 'ext':
            return self.lib.call_ext(self, st, fn.a[0], args, kwargs)
        if fn.k == 'ref' and self.cell(st, fn) is not None and self.cell(st, fn).kind == 'inst' and \
                self.class_attr(st, self.cell(st, fn).meta['cls'], '__call__') is not None:
            return self.call_method(st, fn, '__call__', args, kwargs)
        if fn.ty in ('obj', None, 'class') or fn.k in ('sym', 'app'):
            return self.opaque_call(st, 'call', [fn] + args, kwargs)
        if fn is NONE:
            self.throw(st, self.exc('TypeError'))
        raise Undecidable('call of %s' % show(fn))

    def opaque_call(self, st, name, args, kwargs, ty=None):
        a = [self.freeze(st, x) for x in args]
        for k in sorted(kwargs):
            a += [C(k + '='), self.freeze(st, kwargs[k])]
        return app('call:' + name, *a, ty=ty or 'obj')

    def instantiate(self, st, c, args, kwargs):
        h = self.summaries.get('new:' + CLASSES[c].qual)
        if h is not None:
            r = h(self, st, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.is_exc_class(c):
            return mk('exc', c, tuple(self.freeze(st, a) for a in args if a.ty != 'obj' and a.k != 'ref'), ty='exc')
        k = CLASSES[c]
        fields = self.nt_fields(c)
        if fields is not None:
            return self.lib.make_namedtuple(self, st, c, fields, args, kwargs)
        ctypes = {}
        cell = st.heap.get(('cls', c))
        o = self.alloc(st, 'inst', {}, {'cls': c, 'ctypes': self.class_ctypes(c)})
        init = self.class_attr(st, c, '__init__')
        if init is not None:
            self.call_func(st, FUNCS[init], [o] + args, kwargs)
        elif args or kwargs:
            self.throw(st, self.exc('TypeError', C('arguments of ' + k.name)))
        return o

    def class_ctypes(self, c):
        k = CLASSES[c]
        src = self.loaded.get(k.mod)
        out = {}
        if src is not None and src.lang == 'pyx':
            for n in src.tree.body:
                if isinstance(n, ast.ClassDef) and n.name == k.name:
                    for s in n.body:
                        if isinstance(s, ast.AnnAssign) and str(getattr(s.annotation, 'value', '')).startswith('C:'):
                            out[s.target.id] = s.annotation.value[2:]
        return out

    def nt_fields(self, c):
        for k in self.mro(c):
            f = getattr(CLASSES.get(k), 'fields', None)
            if f is not None:
                return f
        return None

    # ------------------------------------------------------------------ entry
    def run(self, fn, args, kwargs=None, st=None, setup=None):
        """abstractly execute a function value; returns Outcome"""
        st = st or State(dict(self.heap0))
        self.raises.append([])
        self.rets.append([])
        out = Outcome()
        out.state = None
        try:
            out.value = self.call(st, fn, args, kwargs or {})
            out.state = st
            out.ret = st.pc
        except Dead:
            out.value, out.ret = UNDEF, FALSE
        finally:
            out.raises = self.raises.pop()
            self.rets.pop()
        return out


class Outcome:
    value = None
    ret = None
    raises = ()
    state = None


_cr = {}


def contains_ref(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return any(contains_ref(x) for x in t)
        return False
    if t.k in ('c', 'sym', 'undef'):
        return False
    if t.k == 'ref':
        return True
    r = _cr.get(t)
    if r is None:
        if t.k == 'poly':
            r = any(contains_ref(x) for m, _ in t.a[0] for x in m)
        else:
            r = any(contains_ref(x) for x in t.a)
        _cr[t] = r
    return r


EMPTY = mk('dict', (), None, ty='dict')


def mkdict(items, dyn=None):
    """frozen dict: constant keys (sorted) + store chain of other keys"""
    items = tuple(sorted(((k, v) for k, v in items if v is not UNDEF), key=lambda kv: kv[0].id))
    if not items and dyn is not None:
        return dyn
    if dyn is EMPTY:
        dyn = None
    return mk('dict', items, dyn, ty='dict')


def dstore(d, k, v):
    """dictionary d with key k set to v"""
    top = min((x.a[0] for x in (d, k) if x.k == 'ite'), key=lambda a: a.id, default=None)
    if top is not None:
        return TM.mk_ite(top, *[dstore(TM.cof(d, top, b), TM.cof(k, top, b), restrict(v, top, b)) for b in (True, False)])
    if d.k == 'app' and d.a[0] == 'dstore' and d.a[2] is k:
        d = d.a[1]
    return mk('app', 'dstore', d, k, v, ty='dict')


def _same_store(atom, hi, lo):
    if hi.k == 'app' and lo.k == 'app' and hi.a[0] == lo.a[0] == 'dstore' and hi.a[1:3] == lo.a[1:3]:
        return mk('app', 'dstore', hi.a[1], hi.a[2], ite(TM.atom_b(atom), hi.a[3], lo.a[3]), ty='dict')


TM.PATTERNS.append(_same_store)
TM.REBUILD['app:dstore'] = lambda t, new: dstore(*new[1:])


def dict_set(o, k, v):
    """frozen dictionary o with k set to v"""
    if o.k == 'ite':
        c = TM.atom_b(o.a[0])
        return ite(c, dict_set(o.a[1], k, restrict(v, o.a[0], True)), dict_set(o.a[2], k, restrict(v, o.a[0], False)))
    items, dyn = (o.a if o.k == 'dict' else ((), o))
    if is_c(k):
        return mkdict(tuple((a, b) for a, b in items if a is not k) + ((k, v),), dyn)
    return mkdict(items, dstore(dyn if dyn is not None else EMPTY, k, v))


TM.REBUILD['dict'] = lambda t, new: mkdict(new[0], new[1])


def lst(*items):
    return mk('list', *items, ty='list')
