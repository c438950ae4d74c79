"""Front end: python modules as `ast`, cython modules lowered to `ast` with C types.

Nothing of /repo is imported or executed, only parsed.
"""
import ast
import hashlib
import os
import re

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'eventio')
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class FrontError(Exception):
    pass


class Unsupported(ast.stmt):
    """a body with constructs the front end does not know"""
    _fields = ()


class Source:
    def __init__(self, name, path, tree, text, lang):
        self.name, self.path, self.tree, self.text, self.lang = name, path, tree, text, lang
        self.digest = hashlib.sha256(text.encode()).hexdigest()[:16]
        self.rel = os.path.relpath(path, REPO) if path.startswith(REPO) else path


_cache = {}


def module_path(name):
    """path of the module `eventio.x.y` or None"""
    if name == 'eventio':
        return os.path.join(SRC, '__init__.py')
    if name == 'spec' or name.startswith('spec.'):
        p = os.path.join(SPEC, *name.split('.')[1:])
        p = p + '.py' if name != 'spec' else os.path.join(SPEC, '__init__.py')
        return p if os.path.isfile(p) else None
    if not name.startswith('eventio.') or name.startswith('eventio._dev_version'):
        return None     # (the version number is no part of any property)
    base = os.path.join(SRC, *name.split('.')[1:])
    for p in (base + '.py', base + '.pyx', os.path.join(base, '__init__.py')):
        if os.path.isfile(p):
            return p
    return None


def load(name, path=None):
    if name in _cache:
        return _cache[name]
    path = path or module_path(name)
    if path is None:
        return None
    with open(path, encoding='utf-8') as f:
        text = f.read()
    if path.endswith('.pyx'):
        tree = Lower(text, path).module()
        lang = 'pyx'
    else:
        tree = ast.parse(text, path)
        lang = 'py'
    s = Source(name, path, tree, text, lang)
    for n in ast.walk(tree):
        n._src = s
    _cache[name] = s
    return s


def all_modules():
    out = []
    for d, dirs, files in os.walk(SRC):
        dirs[:] = sorted(x for x in dirs if not x.startswith('__') and x != '_dev_version')
        for f in sorted(files):
            if f.endswith(('.py', '.pyx')):
                rel = os.path.relpath(os.path.join(d, f), SRC)
                parts = rel.rsplit('.', 1)[0].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                out.append('.'.join(['eventio'] + parts))
    return out


# --------------------------------------------------------------------------- cython
class Lower:
    OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod,
           '<<': ast.LShift, '>>': ast.RShift, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor, '**': ast.Pow}
    CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE,
           'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}

    def __init__(self, text, path):
        from Cython.Compiler.TreeFragment import parse_from_strings
        self.path = path
        t = parse_from_strings('m', text, level=None)
        self.root = t.root if hasattr(t, 'root') else t
        # directives of the file
        self.directives = {}
        for line in text.split('\n'):
            if line.strip() and not line.lstrip().startswith('#'):
                break
            m = re.match(r'\s*#\s*cython\s*:(.*)', line)
            for name, v in re.findall(r'(\w+)\s*=\s*(True|False)\b', m.group(1)) if m else ():
                self.directives[name] = v == 'True'

    def err(self, n):
        raise FrontError('%s:%s: cython construct %s is not supported' % (
            self.path, n.pos[1] if getattr(n, 'pos', None) else '?', type(n).__name__))

    def at(self, new, n):
        for x in ast.walk(new):
            if not hasattr(x, 'lineno') and isinstance(x, (ast.expr, ast.stmt, ast.keyword, ast.arg)):
                x.lineno = x.end_lineno = n.pos[1]
                x.col_offset = x.end_col_offset = n.pos[2]
        return new

    def module(self):
        body = self.stmts(self.root.body)
        m = ast.Module(body=body, type_ignores=[])
        return m

    # ---- types
    def base_type(self, b):
        k = type(b).__name__
        if k == 'CSimpleBaseTypeNode':
            n = b.name
            if n is None:
                return 'object'
            if getattr(b, 'is_basic_c_type', False):
                ln = b.longness
                if n == 'int':
                    base = {-1: 'short', 0: 'int', 1: 'long', 2: 'long long'}[ln]
                    if not b.signed:
                        base = 'unsigned ' + base
                    return base
                if n == 'char' and not b.signed:
                    return 'unsigned char'
                if n == 'double':
                    return 'double'
            return n
        if k == 'CQualifierTypeNode' or k == 'CConstTypeNode':
            return self.base_type(b.base_type)
        if k == 'MemoryViewSliceTypeNode':
            return 'memview:%s:%d' % (self.base_type(b.base_type_node), len(b.axes))
        if k == 'TemplatedTypeNode':
            base = self.base_type(b.base_type_node)
            if base == 'ndarray':
                nd = 1
                if b.keyword_args is not None:
                    for it in b.keyword_args.key_value_pairs:
                        if it.key.value == 'ndim':
                            nd = int(it.value.value)
                p = b.positional_args[0]
                return 'ndarray:%s:%d' % (p.name if type(p).__name__ == 'NameNode' else self.base_type(p), nd)
            # templated array: cdef npy_intp[1] shape
            if b.positional_args:
                return 'carr:%s:%s' % (base, getattr(b.positional_args[0], 'value', '?'))
            return base
        if k == 'CTupleBaseTypeNode':
            return 'ctuple:' + ','.join(self.declarator(c.base_type, c.declarator)[1] for c in b.components)
        if k == 'CComplexBaseTypeNode':
            return self.declarator(b.base_type, b.declarator)[1]
        self.err(b)

    def declarator(self, base, d):
        """-> name, ctype, default"""
        t = self.base_type(base)
        k = type(d).__name__
        default = getattr(d, 'default', None)
        if k == 'CNameDeclaratorNode':
            return d.name, t, default
        if k == 'CPtrDeclaratorNode':
            n, t2, de = self.declarator(base, d.base)
            return n, 'ptr:' + t2, de or default
        if k == 'CArrayDeclaratorNode':
            n, t2, de = self.declarator(base, d.base)
            return n, 'carr:%s:%s' % (t2, d.dimension.value if d.dimension is not None else '?'), de or default
        if k == 'CFuncDeclaratorNode':
            return self.declarator(base, d.base)
        self.err(d)

    # ---- statements
    def stmts(self, n):
        if n is None:
            return []
        k = type(n).__name__
        if k == 'StatListNode':
            out = []
            for s in n.stats:
                out += self.stmts(s)
            return out
        f = getattr(self, 's_' + k, None)
        if f is None:
            self.err(n)
        r = f(n)
        r = r if isinstance(r, list) else [r]
        return [self.at(x, n) for x in r]

    def block(self, n):
        b = self.stmts(n)
        return b or [self.at(ast.Pass(), n)]

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_CImportStatNode(self, n):
        name = n.as_name or n.module_name.split('.')[0]
        return ast.Import(names=[ast.alias(name='c:' + n.module_name, asname=name)])

    def s_FromCImportStatNode(self, n):
        out = []
        for it in n.imported_names:
            name, as_name = it[1], it[2]
            out.append(ast.alias(name=name, asname=as_name))
        mod = n.module_name
        lvl = getattr(n, 'relative_level', 0) or 0
        return ast.ImportFrom(module=('c:' + mod) if lvl == 0 else mod, names=out, level=lvl)

    def s_FromImportStatNode(self, n):
        m = n.module
        return ast.ImportFrom(module=m.module_name.value, names=[
            ast.alias(name=name, asname=(t.name if t.name != name else None)) for name, t in n.items],
            level=max(getattr(m, 'level', 0) or 0, 0))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            return ast.Import(names=[ast.alias(name=n.rhs.module_name.value, asname=n.lhs.name)])
        return ast.Assign(targets=[self.e(n.lhs, ast.Store())], value=self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.e(x, ast.Store()) for x in n.lhs_list], value=self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        out = []
        for s in n.stats:
            out += self.stmts(s)
        return out

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.e(n.lhs, ast.Store()), op=self.OPS[n.operator](), value=self.e(n.rhs))

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.e(n.condition), msg=None)

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [self.at(ast.If(test=self.e(c.condition), body=self.block(c.body), orelse=orelse), c)]
        return orelse

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, 'sequence') else n.iterator
        return ast.For(target=self.e(n.target, ast.Store()), iter=self.e(it), body=self.block(n.body),
                       orelse=self.block(n.else_clause) if n.else_clause is not None else [])

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition), body=self.block(n.body),
                         orelse=self.block(n.else_clause) if n.else_clause is not None else [])

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pats = c.pattern or []
            if len(pats) > 1:
                ty = ast.Tuple(elts=[self.e(p) for p in pats], ctx=ast.Load())
            else:
                ty = self.e(pats[0]) if pats else None
            hs.append(ast.ExceptHandler(type=ty, name=c.target.name if c.target is not None else None,
                                        body=self.block(c.body)))
        return ast.Try(body=self.block(n.body), handlers=hs,
                       orelse=self.block(n.else_clause) if n.else_clause is not None else [], finalbody=[])

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            name, t, default = self.declarator(n.base_type, d)
            a = ast.AnnAssign(target=ast.Name(id=name, ctx=ast.Store()), annotation=ast.Constant(value='C:' + t),
                              value=self.e(default) if default is not None else None, simple=1)
            out.append(a)
        return out

    def s_CEnumDefNode(self, n):
        out = []
        prev = None
        for it in n.items:
            if it.value is not None:
                v = self.e(it.value)
            else:
                v = ast.Constant(value=0) if prev is None else ast.BinOp(
                    left=ast.Name(id=prev, ctx=ast.Load()), op=ast.Add(), right=ast.Constant(value=1))
            out.append(ast.Assign(targets=[ast.Name(id=it.name, ctx=ast.Store())], value=v))
            prev = it.name
        return out

    def s_CClassDefNode(self, n):
        save = self.directives
        self.directives = dict(save, **self._decorators(n)[0])
        try:
            body = self.block(n.body)
        finally:
            self.directives = save
        c = ast.ClassDef(name=n.class_name, bases=[], keywords=[], body=body, decorator_list=[], type_params=[])
        c._cclass = True
        return c

    def s_PyClassDefNode(self, n):
        return ast.ClassDef(name=n.name, bases=[], keywords=[], body=self.block(n.body), decorator_list=[], type_params=[])

    def _decorators(self, n):
        out = dict(self.directives)
        keep = []
        for d in getattr(n, 'decorators', None) or []:
            d = d.decorator
            k = type(d).__name__
            if k == 'SimpleCallNode' and type(d.function).__name__ == 'AttributeNode' and d.function.attribute in (
                    'boundscheck', 'wraparound', 'cdivision', 'initializedcheck', 'nonecheck'):
                out[d.function.attribute] = bool(d.args[0].value)
            else:
                keep.append(self.e(d))
        return out, keep

    def s_CFuncDefNode(self, n):
        fd = n.declarator
        while type(fd).__name__ == 'CPtrDeclaratorNode':
            fd = fd.base
        name = fd.base.name
        directives, keep = self._decorators(n)
        f = self._func(n, name, fd.args, keep, directives)
        f._cret = self.base_type(n.base_type)
        f._cexc = fd.exception_value is not None
        f._cpublic = bool(getattr(n, 'overridable', False))
        return f

    def s_DefNode(self, n):
        directives, keep = self._decorators(n)
        f = self._func(n, n.name, n.args, keep, directives, n.star_arg, n.starstar_arg)
        f._cret = 'object'
        f._cpublic = True
        return f

    def _func(self, n, name, args, keep, directives, star=None, starstar=None):
        a, defaults, ctypes = [], [], {}
        for x in args:
            nm, t, default = self.declarator(x.base_type, x.declarator)
            default = x.default if x.default is not None else default
            if not nm:
                nm, t = t, 'object'
            a.append(ast.arg(arg=nm))
            ctypes[nm] = t
            if default is not None:
                defaults.append(self.e(default))
        try:
            body = self.block(n.body)
        except FrontError:
            body = [self.at(Unsupported(), n)]
        f = ast.FunctionDef(name=name, args=ast.arguments(
            posonlyargs=[], args=a, vararg=ast.arg(arg=star.name) if star else None, kwonlyargs=[], kw_defaults=[],
            kwarg=ast.arg(arg=starstar.name) if starstar else None, defaults=defaults),
            body=body, decorator_list=keep, returns=None, type_comment=None, type_params=[])
        for s in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(s, ast.AnnAssign) and isinstance(s.annotation, ast.Constant) and str(
                    s.annotation.value).startswith('C:'):
                ctypes[s.target.id] = s.annotation.value[2:]
        f._ctypes = ctypes
        f._cdir = directives
        return f

    # ---- expressions
    def e(self, n, ctx=None):
        ctx = ctx or ast.Load()
        k = type(n).__name__
        f = getattr(self, 'e_' + k, None)
        if f is None:
            if hasattr(n, 'operator') and hasattr(n, 'operand1') and n.operator in self.OPS:
                r = ast.BinOp(left=self.e(n.operand1), op=self.OPS[n.operator](), right=self.e(n.operand2))
                return self.at(r, n)
            self.err(n)
        return self.at(f(n, ctx), n)

    def e_NameNode(self, n, ctx):
        return ast.Name(id=n.name, ctx=ctx)

    def e_IntNode(self, n, ctx):
        v = n.value
        return ast.Constant(value=int(str(v).rstrip('uUlL'), 0) if not isinstance(v, int) else v)

    def e_FloatNode(self, n, ctx):
        return ast.Constant(value=float(n.value))

    def e_BoolNode(self, n, ctx):
        return ast.Constant(value=bool(n.value))

    def e_NoneNode(self, n, ctx):
        return ast.Constant(value=None)

    def e_NullNode(self, n, ctx):
        return ast.Constant(value=None)

    def e_UnicodeNode(self, n, ctx):
        return ast.Constant(value=str(n.value))

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n, ctx):
        return ast.Constant(value=bytes(n.value.byteencode()) if hasattr(n.value, 'byteencode') else bytes(n.value))

    def e_CharNode(self, n, ctx):
        return ast.Constant(value=ord(n.value))

    def e_AttributeNode(self, n, ctx):
        return ast.Attribute(value=self.e(n.obj), attr=n.attribute, ctx=ctx)

    def e_SimpleCallNode(self, n, ctx):
        return ast.Call(func=self.e(n.function), args=[self.e(x) for x in n.args], keywords=[])

    def e_GeneralCallNode(self, n, ctx):
        args = [self.e(x) for x in n.positional_args.args]
        kws = []
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(arg=it.key.value, value=self.e(it.value)))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def e_IndexNode(self, n, ctx):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=ctx)

    def e_SliceIndexNode(self, n, ctx):
        return ast.Subscript(value=self.e(n.base), slice=ast.Slice(
            lower=self.e(n.start) if n.start is not None else None,
            upper=self.e(n.stop) if n.stop is not None else None, step=None), ctx=ctx)

    def e_SliceNode(self, n, ctx):
        def g(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(lower=g(n.start), upper=g(n.stop), step=g(n.step))

    def e_TupleNode(self, n, ctx):
        return ast.Tuple(elts=[self.e(x, ctx) for x in n.args], ctx=ctx)

    def e_ListNode(self, n, ctx):
        return ast.List(elts=[self.e(x, ctx) for x in n.args], ctx=ctx)

    def e_DictNode(self, n, ctx):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                        values=[self.e(i.value) for i in n.key_value_pairs])

    def e_PrimaryCmpNode(self, n, ctx):
        left = self.e(n.operand1)
        ops, comps = [], []
        x = n
        while x is not None:
            ops.append(self.CMP[x.operator]())
            comps.append(self.e(x.operand2))
            x = getattr(x, 'cascade', None)
        return ast.Compare(left=left, ops=ops, comparators=comps)

    def e_BoolBinopNode(self, n, ctx):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(),
                          values=[self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n, ctx):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_UnaryMinusNode(self, n, ctx):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def e_UnaryPlusNode(self, n, ctx):
        return self.e(n.operand)

    def e_TildeNode(self, n, ctx):
        return ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand))

    def e_CondExprNode(self, n, ctx):
        return ast.IfExp(test=self.e(n.test if hasattr(n, 'test') else n.condition),
                         body=self.e(n.true_val), orelse=self.e(n.false_val))

    def e_TypecastNode(self, n, ctx):
        _, t, _ = self.declarator(n.base_type, n.declarator)
        return ast.Call(func=ast.Name(id='__cast__', ctx=ast.Load()),
                        args=[ast.Constant(value=t), self.e(n.operand)], keywords=[])

    def e_AmpersandNode(self, n, ctx):
        op = n.operand
        if type(op).__name__ == 'IndexNode':
            return ast.Call(func=ast.Name(id='__addr__', ctx=ast.Load()),
                            args=[self.e(op.base), self.e(op.index)], keywords=[])
        return ast.Call(func=ast.Name(id='__addr__', ctx=ast.Load()), args=[self.e(op)], keywords=[])

    def e_SizeofTypeNode(self, n, ctx):
        _, t, _ = self.declarator(n.base_type, n.declarator)
        from .terms import CT
        size = 4 if t == 'float' else 8 if t == 'double' or t.startswith('ptr') else CT[t][1] // 8
        return ast.Constant(value=size)

    def e_JoinedStrNode(self, n, ctx):
        return ast.JoinedStr(values=[self.e(x) for x in n.values])

    def e_FormattedValueNode(self, n, ctx):
        return ast.FormattedValue(value=self.e(n.value), conversion=-1, format_spec=None)


def loc(node):
    s = getattr(node, '_src', None)
    return '%s:%d' % (s.rel if s else '?', getattr(node, 'lineno', 0))
