"""Library models, part two: calls, methods and attributes (see lib.py)."""
import builtins
import string as _string
import struct as _struct

from . import terms as TM
import math
from .terms import *    # noqa
from . import interp as IN
from .interp import Cell, Dead, Class, cls_t, contains_ref, ref, lst, mkdict, EMPTY, bm, bb, native, ext
from .loops import fresh, ixvar, tab, clamp0
from . import lib as L
from .lib import *      # noqa
from .lib import (_as_int, _truediv)


def new_arr(I, st, t):
    return I.alloc(st, 'arr', {'c': t})


def const_int(I, st, v):
    v = I.simp(st, v)
    return int(cv(v)) if is_c(v) and isinstance(cv(v), (int, bool)) else None


def ext_name(v):
    return v.a[0] if v.k == 'ext' else None


# --------------------------------------------------------------------------- constants
def ext_const(d):
    last = d.split('.')[-1]
    if d == 'sys.version_info':
        return C((3, 12, 3, 'final', 0))
    if d in ('os.SEEK_SET', 'io.SEEK_SET'):
        return ZERO
    if d in ('os.SEEK_CUR', 'io.SEEK_CUR'):
        return ONE
    if d in ('os.SEEK_END', 'io.SEEK_END'):
        return C(2)
    if d in ('np.nan', 'numpy.nan', 'c:libc.math.NAN', 'math.nan', 'numpy.NaN', 'numpy.NAN'):
        return C(float('nan'))
    if d in ('numpy.inf', 'math.inf'):
        return C(float('inf'))
    if d in ('numpy.newaxis',):
        return NONE
    if d in ('math.pi', 'numpy.pi'):
        import math
        return C(math.pi)
    return None


def nan_fix(v):
    return v


# --------------------------------------------------------------------------- formatting
def fmt(I, st, x, spec='', conv=None):
    conv = None if conv in (-1, None) else conv
    if isinstance(conv, int):
        conv = chr(conv)
    h = I.summaries.get('fmt')
    if h is not None:
        r = h(I, st, x, spec, conv)
        if r is not None:
            return r
    x = I.freeze(st, x)

    def f(x):
        if x.k == 'c' and not isinstance(cv(x), float) or x.k == 'c' and not spec:
            try:
                v = cv(x)
                v = repr(v) if conv == 'r' else str(v) if conv == 's' else v
                return C(format(v, spec))
            except Exception:
                pass
        sp = '' if spec == 'd' and is_int(x) else spec
        if x.ty == 'str' and not sp and conv in (None, 's'):
            return x
        return mk('app', 'fmt', C('%s!%s' % (sp, conv or '')), x, ty='str')
    return lift('fmt%s!%s' % (spec, conv), f, x)


def str_format(I, st, s, args, kw):
    parts, auto = [], 0
    for lit, name, spec, conv in _string.Formatter().parse(s):
        if lit:
            parts.append(C(lit))
        if name is None:
            continue
        base, rest = _string._string.formatter_field_name_split(name)
        if base == '':
            base = auto
            auto += 1
        if isinstance(base, int):
            if base >= len(args):
                I.throw(st, I.exc('IndexError'))
            v = args[base]
        else:
            if base not in kw:
                I.throw(st, I.exc('KeyError', C(base)))
            v = kw[base]
        for is_attr, nm in rest:
            v = I.getattr(st, v, nm) if is_attr else I.getitem(st, v, C(nm))
        if '{' in spec:
            return app('format', C(s), *[I.freeze(st, a) for a in args], ty='str')
        parts.append(fmt(I, st, v, spec, conv))
    return str_concat(parts)


# --------------------------------------------------------------------------- struct
STD = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8,
       'e': 2, 's': 1, 'p': 1}
NAT = dict(STD, l=8, L=8, n=8, N=8)


def struct_layout(fmt_):
    """[(kind, offset, size)], total; kind is a dtype name or 's'"""
    native_ = fmt_[:1] not in ('<', '>', '!', '=')
    align = native_
    big = fmt_[:1] in ('>', '!')
    if fmt_[:1] in '<>!=@' and fmt_:
        if fmt_[0] == '@':
            align = native_ = True
        fmt_ = fmt_[1:]
    sizes = NAT if native_ else STD
    out, off, k = [], 0, 0
    while k < len(fmt_):
        if fmt_[k].isspace():
            k += 1
            continue
        n = ''
        while k < len(fmt_) and fmt_[k].isdigit():
            n += fmt_[k]
            k += 1
        if k >= len(fmt_) or fmt_[k] not in sizes:
            return None, None
        ch = fmt_[k]
        k += 1
        cnt = int(n) if n else 1
        sz = sizes[ch]
        if align and ch not in 'xcsp' and sz > 1:
            off = (off + sz - 1) // sz * sz
        if ch == 's':
            out.append(('s', off, cnt))
            off += cnt
            continue
        for _ in range(cnt):
            if ch == 'x':
                pass
            elif ch == 'c':
                out.append(('s', off, 1))
            elif ch == 'p':
                return None, None
            else:
                base = {'n': 'i8', 'N': 'u8'}.get(ch)
                if base is None:
                    kind = 'b1' if ch == '?' else 'f%d' % sz if ch in 'fde' else ('i%d' if ch.islower() else 'u%d') % sz
                else:
                    kind = base
                out.append((('>' if big and sz > 1 else '') + kind, off, sz))
            off += sz
    return out, off


def dyn_format(fmt_):
    """'<{:d}i' with a symbolic count -> (dtype, size, count term)"""
    if fmt_.k == 'app' and fmt_.a[0] == 'scat':
        parts = list(fmt_.a[1:])
    else:
        return None
    prefix = ''
    if parts[0].k == 'c':
        prefix = cv(parts[0])
        parts = parts[1:]
    if len(parts) == 2 and parts[0].k == 'app' and parts[0].a[0] == 'fmt' and parts[0].a[1] is C('!') and is_int(
            parts[0].a[2]) and parts[1].k == 'c' and prefix in ('', '<', '>', '=', '@', '!'):
        lay, size = struct_layout(prefix + cv(parts[1]))
        if lay is not None and len(lay) == 1 and len(cv(parts[1])) == 1:
            return lay[0][0], size, parts[0].a[2]
    return None


def unpack(I, st, fmt_, data, off, exact):
    fmt_ = I.simp(st, fmt_)
    b = bytes_of(I, st, data)
    if b.k == 'ite':
        b = I.simp(st, b)
        return I.split(st, b, lambda s, x: unpack(I, s, fmt_, x, off, exact))
    if fmt_.k == 'ite':
        return I.split(st, fmt_, lambda s, x: unpack(I, s, x, data, off, exact))
    if is_c(fmt_):
        f = cv(fmt_)
        if isinstance(f, bytes):
            f = f.decode()
        lay, size = struct_layout(f)
        if lay is None:
            raise Undecidable('struct format %r' % f)
        size_check(I, st, b, off, C(size), exact)
        items = []
        for kind, o, n in lay:
            if kind == 's':
                items.append(bytes_slice(b, add(off, C(o)), C(n)))
            else:
                items.append(dec(kind, b, add(off, C(o))))
        return tup(*items)
    d = dyn_format(fmt_)
    if d is None:
        return app('unpack', I.freeze(st, fmt_), I.freeze(st, b), off, ty='obj')
    kind, size, n = d
    size_check(I, st, b, off, mul(C(size), n), exact)
    f = fresh()
    return app('tuple', tab(f, n, dec(kind, b, add(off, mul(C(size), ixvar(f))))), ty='tuple')


def size_check(I, st, b, off, size, exact):
    n = blen(I, st, b)
    if exact:
        bad = not_(eq(n, size))
    else:
        bad = lt(n, add(off, size))
    bad = I.cond(st, bad)
    if I.happy and bad is not TRUE:
        return
    I.throw(st, mk('exc', ext('struct.error'), (), ty='exc'), bad)


def bytes_slice(b, off, n):
    if b.k == 'bs':
        return bs(b.a[0], add(b.a[1], off), n)
    return bs(b, off, n)


# --------------------------------------------------------------------------- numpy dtypes
def dtype(I, st, v):
    """dtype term of a dtype argument"""
    v = I.simp(st, v)
    if v.k == 'ite':
        return lift_local('dtype', lambda x: dtype(I, st, x), v)
    if v.ty == 'dtype':
        return v
    if v.k == 'c' and isinstance(cv(v), str):
        n = dt_name(cv(v))
        if n is not None:
            return dtn(n)
        return app('dtype', v, ty='dtype')
    if v.k == 'ext':
        n = DTN.get(v.a[0].split('.')[-1]) or NPY.get(v.a[0].split('.')[-1])
        if n:
            return dtn(n)
    if v.k == 'ref':
        c = I.cell(st, v)
        if c.kind == 'list':
            return lift_local('struct_dtype', lambda x: struct_dtype(I, st, x), I.simp(st, c.s['items']))
    if v.k in ('list',):
        return struct_dtype(I, st, v)
    if v is NONE:
        return dtn('f8')
    return app('dtype', I.freeze(st, v), ty='dtype')


def struct_dtype(I, st, t):
    items = seq_all(I, st, t)
    fields, off = [], 0
    for x in items:
        ps = seq_all(I, st, x)
        name = cv(ps[0])
        d = dtype(I, st, ps[1])
        shape = ()
        if len(ps) > 2:
            s = ps[2]
            shape = tuple(seq_all(I, st, s)) if list_term(I, st, s) is not None else (s,)
        sz = itemsize(d)
        fields.append((name, d, off if isinstance(off, T) else C(off), shape))
        off = add(off if isinstance(off, T) else C(off), mul(sz, prod(shape)))
    return sdt(fields, off if isinstance(off, T) else C(off))


def shape_arg(I, st, v):
    t = list_term(I, st, v)
    if t is not None:
        return tuple(TM._num(x) for x in seq_all(I, st, t))
    return (TM._num(v),)


def arr_of(I, st, v):
    """array term of an array-like value"""
    v = arr_val(I, st, v)
    if v.ty == 'arr':
        return v
    t = list_term(I, st, v)
    if t is not None:
        return None
    return None


def list_array(I, st, v, dt):
    """array of a list of scalars or of equal arrays"""
    t = I.freeze(st, seq_term(I, st, v))

    def f(t):
        d = dt
        n = tlen(t)
        if t.k in ('list', 'tup') and not t.a:
            return full(d or dtn('f8'), (ZERO,), ZERO)
        f_ = fresh()
        if t.k in ('list', 'tup') and len(t.a) == 1 and t.a[0].k == 'app' and t.a[0].a[0] == 'spl' and t.a[0].a[1].k == 'tab':
            t = t.a[0].a[1]
        if t.k == 'tab':
            it = t.a[2]
            if d is None:
                d = dtn('i8') if is_int(it) else dtn('f8') if it.ty == 'float' else None
            if d is not None and it.ty in ('int', 'bool', 'float'):
                return atab(d, t.a[1], np_wrap(d, it), t.a[0])
        return mk('app', 'array', t, d or NONE, ty='arr')
    return lift_local('list_array', f, t)


def sdt_names(d):
    return tup(*[C(n) for n, _, _, _ in d.a[0]])


def np_call(I, st, name, args, kw):
    a = list(args)
    for k, x in enumerate(a):
        if x.ty == 'dtype' and x.k == 'ite' or x.k == 'ite' and x.ty != 'arr' and not is_num(x):
            return I.split(st, x, lambda s, y: np_call(I, s, name, a[:k] + [y] + a[k + 1:], kw))
    d = kw.get('dtype')
    if d is not None and d.ty != 'dtype':
        kw = dict(kw, dtype=dtype(I, st, d)) if d is not NONE else kw
        d = kw['dtype']
    if d is not None and d.k == 'ite':
        return I.split(st, d, lambda s, y: np_call(I, s, name, a, dict(kw, dtype=y)))
    if name != 'dtype':
        for k, x in enumerate(a):
            if k == 1 and name in ('frombuffer', 'zeros', 'ones', 'empty', 'array', 'fromiter', 'asarray') and x.ty != 'dtype' and x is not NONE:
                a[k] = dtype(I, st, x)
                if a[k].k == 'ite':
                    return np_call(I, st, name, a, kw)

    def arg(k, nm, default=None):
        if k < len(a):
            return a[k]
        return kw.get(nm, default)
    if name == 'dtype':
        return dtype(I, st, a[0])
    if name == 'frombuffer':
        return frombuffer(I, st, bytes_of(I, st, a[0]), dtype(I, st, arg(1, 'dtype', NONE)), arg(2, 'count', C(-1)),
                          arg(3, 'offset', ZERO))
    if name in ('zeros', 'ones', 'empty', 'full'):
        sh = shape_arg(I, st, a[0] if a else kw['shape'])
        if name == 'full':
            v = arg(1, 'fill_value')
            dv = arg(2, 'dtype')
            d = dtype(I, st, dv) if dv is not None and dv is not NONE else (
                dtn('i8') if is_int(v) else dtn('f8'))
        else:
            dv = arg(1, 'dtype')
            d = dtype(I, st, dv if dv is not None else NONE)
            v = ZERO if name == 'zeros' else ONE if name == 'ones' else app('uninit', ty='int')
        if d.k == 'dt':
            v = C(bool(cv(v))) if d.a[0] == 'b1' and is_c(v) else np_wrap(d, v)
        return new_arr(I, st, full(d, sh, v))
    if name in ('array', 'asarray', 'ascontiguousarray', 'asanyarray'):
        x = I.simp(st, a[0])
        dv = arg(1, 'dtype')
        d = dtype(I, st, dv) if dv is not None and dv is not NONE else None

        def f(s, x):
            av = arr_val(I, s, x)
            if av.ty == 'arr':
                av = I.freeze(s, av)
                return new_arr(I, s, astype(d, av) if d is not None else av)
            if list_term(I, s, x) is not None or x.k in ('rng', 'zip', 'view', 'map'):
                return new_arr(I, s, list_array(I, s, x, d))
            if is_num(x):
                return new_arr(I, s, full(d or (dtn('i8') if is_int(x) else dtn('f8')), (), x))
            return new_arr(I, s, mk('app', 'array', I.freeze(s, x), d or NONE, ty='arr'))
        return I.split(st, x, f)
    if name == 'fromiter':
        return new_arr(I, st, list_array(I, st, a[0], dtype(I, st, arg(1, 'dtype', NONE))))
    if name == 'arange' and all(is_int(x) for x in a):
        lo, hi, s = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        sq = iterspec(I, st, mk('rng', TM._num(lo), TM._num(hi), TM._num(s), ty='rng'))
        f = fresh()
        dv = kw.get('dtype')
        return new_arr(I, st, atab(dtype(I, st, dv) if dv is not None else dtn('i8'), sq.n, sq.item(I, st, ixvar(f)), f))
    if name == 'squeeze':
        return squeeze(I, st, arr_val(I, st, a[0]), kw.get('axis', a[1] if len(a) > 1 else None))
    if name == 'rec.fromarrays':
        names = kw.get('names')
        x = arr_val(I, st, a[0])
        if names is not None and x.ty == 'arr':
            def g(s, names):
                names = ungate(I, s, names)
                if names.k == 'ite':
                    return I.split(s, names, g)
                if names.k == 'c':
                    names = tup(*[C(n.strip()) for n in cv(names).split(',')])
                else:
                    names = tup(*seq_all(I, s, names))
                return new_arr(I, s, lift('recarrays%d' % names.id, lambda q: mk('app', 'recarrays', names, q, ty='arr'),
                                          I.freeze(s, x)))
            return I.split(st, names, g)
    if name in DTN and a and name not in ('int', 'float', 'bool'):
        d = dtn(DTN[name])
        x = I.simp(st, a[0])

        def g(s, x):
            av = arr_val(I, s, x)
            if av.ty == 'arr':
                return astype(d, I.freeze(s, av))
            if is_num(x):
                return np_wrap(d, x)
            return app('np:' + name, I.freeze(s, x), ty='int' if d.a[0][0] in 'iu' else 'float')
        return I.split(st, x, g)
    if name == 'binary_repr':
        return app('np:binary_repr', *[I.freeze(st, x) for x in a], *[I.freeze(st, kw[k]) for k in sorted(kw)], ty='str')
    if name in ('reshape',):
        return call_bound(I, st, a[0], name, a[1:], kw)
    if name in ('maximum', 'minimum') and len(a) == 2 and all(is_int(x) for x in a):
        return imin(*a) if name == 'minimum' else imax(*a)
    if name in ('logical_not', 'invert', 'bitwise_not'):
        return unary(I, st, 'Invert', a[0])
    if name in ('add', 'subtract', 'multiply', 'divide', 'bitwise_and', 'bitwise_or', 'right_shift', 'left_shift',
                'logical_and', 'logical_or', 'equal', 'not_equal', 'power', 'floor_divide') and len(a) == 2 and not kw:
        op = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'bitwise_and': 'BitAnd',
              'bitwise_or': 'BitOr', 'right_shift': 'RShift', 'left_shift': 'LShift', 'logical_and': 'BitAnd',
              'logical_or': 'BitOr', 'equal': 'Eq', 'not_equal': 'NotEq', 'power': 'Pow', 'floor_divide': 'FloorDiv'}[name]
        if op in ('Eq', 'NotEq'):
            return compare(I, st, op, a[0], a[1])
        return binop(I, st, op, a[0], a[1])
    if name in ('sum', 'any', 'all', 'cumsum', 'count_nonzero', 'clip', 'min', 'max', 'mean', 'prod') and a:
        return call_bound(I, st, a[0] if arr_val(I, st, a[0]).ty == 'arr' else
                          new_arr(I, st, mk('app', 'array', I.freeze(st, a[0]), NONE, ty='arr')), name, a[1:], kw)
    if name in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        x = arr_val(I, st, a[0])
        sh, d = shape_of(x), dtype_of(x)
        dv = kw.get('dtype')
        if dv is not None and dv is not NONE:
            d = dtype(I, st, dv)
        if sh is not None and d is not None:
            v = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': app('uninit', ty='int')}.get(name)
            v = a[1] if v is None else v
            return new_arr(I, st, full(d, sh, np_wrap(d, v)))
    x = [I.freeze(st, q) for q in a]
    for k in sorted(kw):
        x += [C(k + '='), I.freeze(st, kw[k])]
    ty = 'arr' if name in ('where', 'repeat', 'concatenate', 'stack', 'vstack', 'hstack', 'power', 'ceil', 'linspace', 'diff',
                           'flatnonzero', 'nonzero', 'unpackbits', 'add.reduceat', 'column_stack') else None
    if name in ('ceil', 'floor', 'sqrt', 'power', 'log10') and all(q.ty != 'arr' for q in x):
        ty = 'float'
        if name in ('ceil', 'floor') and len(x) == 1 and is_c(x[0]) and isinstance(cv(x[0]), (int, float)) and math.isfinite(cv(x[0])):
            return C(float(getattr(math, name)(cv(x[0]))))
    if name == 'where' and len(x) == 1:
        return tup(mk('app', 'np:nonzero', *x, ty='arr'))
    return app('np:' + name, *x, ty=ty or 'obj')


def frombuffer(I, st, b, d, count, off):
    b = I.simp(st, b)
    if b.k == 'ite':
        return I.split(st, b, lambda s, x: frombuffer(I, s, x, d, count, off))
    n = blen(I, st, b)
    sz = itemsize(d)
    if is_c(count) and cv(count) < 0:
        rest = sub(n, off)
        cnt = pdiv_exact(rest, sz)
        if cnt is None:
            cnt = floordiv(rest, sz)
            if not I.happy:
                I.throw(st, I.exc('ValueError', C('buffer size')), not_(eq(mul(cnt, sz), rest)))
    else:
        cnt = TM._num(count)
        if not I.happy:
            I.throw(st, I.exc('ValueError', C('buffer is smaller')), lt(n, add(off, mul(cnt, sz))))
    return arr(d, b, off, (cnt,))


def pdiv_exact(a, b):
    if b is ONE:
        return a
    if is_c(a) and is_c(b):
        q, r = divmod(cv(a), cv(b))
        return C(q) if r == 0 else None
    if is_c(b):
        p = TM._poly(a)
        if all(c % cv(b) == 0 for c in p.values()):
            return TM.from_poly({m: c // cv(b) for m, c in p.items()})
    return None


def squeeze(I, st, a, axis):
    def f(s, a):
        sh = shape_of(a)
        if sh is None or axis is None or not is_c(axis):
            return app('np:squeeze', I.freeze(s, a), ty='arr')
        k = int(cv(axis))
        k = k + len(sh) if k < 0 else k
        if not 0 <= k < len(sh):
            I.throw(s, I.exc('ValueError', C('axis')))
        I.throw(s, I.exc('ValueError', C('squeeze')), not_(eq(sh[k], ONE)))
        rest = sh[:k] + sh[k + 1:]
        if a.k == 'arr':
            return arr(a.a[0], a.a[1], a.a[2], rest, a.a[4][:k] + a.a[4][k + 1:])
        if a.k == 'full':
            return full(a.a[0], rest, a.a[2])
        return mk('app', 'squeeze', a, tup(*rest), ty='arr')
    return I.split(st, a, f)


# --------------------------------------------------------------------------- streams
class Pause(Exception):
    """nothing is known about the file from here on"""


LIMIT = {}      # buffer -> position at which the analysis pauses


def bio_read(I, st, o, n):
    c = I.cell(st, o)
    buf, pos = c.s['buf'], c.s['pos']
    if LIMIT and is_c(pos) and cv(pos) >= LIMIT.get(buf, math.inf):
        raise Pause(st, list(I.frames), I.sites + [I.node])
    size = c.meta.get('size')
    if n is None or n is NONE or is_c(n) and cv(n) < 0:
        total = size if size is not None else blen(I, st, buf)
        ln = sub(total, pos)
        if not I.happy:
            ln = clamp0(ln)
    else:
        ln = TM._num(n)
        if not I.happy:
            total = size if size is not None else blen(I, st, buf)
            avail = clamp0(sub(total, pos))
            ln = ite(lt(ln, ZERO), avail, imin(ln, avail))
    I.put(st, o, 'pos', add(pos, ln))
    return bs(buf, pos, ln) if buf.k != 'bs' else bs(buf.a[0], add(buf.a[1], pos), ln)


def bio_method(I, st, o, c, name, args, kw):
    if name in ('read', 'read1'):
        n = args[0] if args else kw.get('size')
        if n is not None and n.k == 'ite' and not is_int(n):
            return I.split(st, n, lambda s, x: bio_read(I, s, o, x))
        return bio_read(I, st, o, n)
    if name == 'tell':
        return c.s['pos']
    if name == 'seek':
        off = TM._num(args[0])
        wh = args[1] if len(args) > 1 else kw.get('whence', ZERO)

        def f(s, w):
            if not is_c(w):
                raise Undecidable('seek mode')
            k = int(cv(w))
            cc = I.cell(s, o)
            size = cc.meta.get('size')
            total = size if size is not None else blen(I, s, cc.s['buf'])
            p = off if k == 0 else add(cc.s['pos'], off) if k == 1 else add(total, off)
            if not I.happy:
                I.throw(s, I.exc('ValueError', C('negative seek')), lt(p, ZERO))
                if cc.meta.get('clamp'):
                    # decompressing streams cannot go beyond their end
                    p = imin(p, total)
            I.put(s, o, 'pos', p)
            return p
        return I.split(st, wh, f)
    if name in ('getbuffer', 'getvalue'):
        b = c.s['buf']
        size = c.meta.get('size')
        if size is not None and b.k != 'bs':
            return bs(b, ZERO, size)
        return b
    if name == 'close':
        effect(I, st, 'close', [c.meta['id']] if 'id' in c.meta else [])
        return NONE
    if name == '__enter__':
        return o
    if name == '__exit__':
        effect(I, st, 'close', [c.meta['id']] if 'id' in c.meta else [])
        return NONE
    if name == 'fileno':
        return mk('app', 'fileno', c.meta.get('id', NONE), c.meta.get('size') or NONE, ty='obj')
    if name in ('seekable', 'readable'):
        return TRUE
    if name == 'closed':
        return FALSE
    raise Undecidable('stream method ' + name)


# --------------------------------------------------------------------------- builtins
def py_len(I, st, v):
    def f(s, x):
        if x.k == 'ref':
            c = I.cell(s, x)
            if c.kind == 'list':
                return tlen(c.s['items'])
            if c.kind == 'ba':
                return blen(I, s, c.s['c'])
            if c.kind == 'dict':
                ks = dict_keys(c)
                if c.s.get('dyn', EMPTY) is EMPTY and all(IN.is_undef(c.s[('k', k)]) is FALSE for k in ks):
                    return C(len(ks))
                return app('len', I.freeze(s, x), ty='int', rng=(0, math.inf))
            if c.kind == 'set':
                v = c.s['v']
                return C(len(v.a)) if v.k == 'cset' else app('len', v, ty='int', rng=(0, math.inf))
            if c.kind == 'arr':
                sh = shape_of(c.s['c'])
                return sh[0] if sh else app('len', I.freeze(s, x), ty='int', rng=(0, math.inf))
            if c.kind == 'inst':
                return I.call_method(s, x, '__len__', [])
        if x.ty == 'bytes':
            return blen(I, s, x)
        if x.k == 'memv':
            return py_len(I, s, x.a[0])
        if x.k == 'sdt':
            return C(len(x.a[0]))
        if x.k == 'aview':
            return shape_of(I.freeze(s, x))[0]
        if x.k == 'c' and isinstance(cv(x), str):
            return C(len(cv(x)))
        if x.ty == 'arr':
            sh = shape_of(x)
            if sh:
                return sh[0]
        if x.k == 'nt':
            return C(len(x.a[1].a))
        t = list_term(I, s, x)
        if t is not None:
            return tlen(t)
        if x.k in ('rng', 'zip', 'view', 'cset', 'enum', 'rev'):
            n = iterspec(I, s, x).n
            return n if n is not None else app('len', x, ty='int', rng=(0, math.inf))
        if x is NONE or is_num(x):
            I.throw(s, I.exc('TypeError', C('len')))
        if x in OBJCLS and OBJCLS[x] in CLASSES and I.class_attr(s, OBJCLS[x], '__len__') is not None:
            return I.call_method(s, x, '__len__', [])
        return app('len', I.freeze(s, x), ty='int', rng=(0, math.inf))
    return I.split(st, v, f)


BASES = {'int': {'int', 'bool'}, 'float': {'float'}, 'str': {'str'}, 'bytes': {'bytes'}, 'bool': {'bool'}, 'tuple': {'tuple'},
         'list': {'list'}, 'dict': {'dict'}, 'set': {'set'}}


def py_isinstance(I, st, o, c):
    if c.k == 'tup':
        r = FALSE
        for x in c.a:
            r = or_(r, truth(I, st, py_isinstance(I, st, o, x)))
        return r

    def f(s, x):
        if c.k == 'ext':
            nm = c.a[0].split('.')[-1]
            if nm in BASES:
                if x.k == 'ref':
                    return C(I.cell(s, x).kind == nm)
                if x.k == 'c':
                    return C(isinstance(cv(x), getattr(builtins, nm)))
                if x.ty in ('int', 'bool', 'float', 'str', 'bytes', 'tuple', 'list', 'dict', 'none', 'class', 'func', 'exc', 'arr'):
                    return C(x.ty in BASES[nm])
            if nm == 'ndarray' and x.ty == 'arr':
                return TRUE
            if nm in ('BytesIO',) and x.k == 'ref':
                return C(I.cell(s, x).kind == 'bio')
            if x.k == 'exc' or x.ty == 'exc':
                return I.exc_match(s, x, c)
        cls = I.cls_of(s, x)
        if cls is not None and c.k == 'cls' and x.k == 'ref':
            return C(IN.sup_class(cls, c))
        if cls is not None and c.k == 'cls' and IN.sup_class(cls, c):
            return TRUE
        if c.k == 'cls' and (x.k in ('list', 'tup', 'dict') or x.k == 'ref' and I.cell(s, x).kind in ('list', 'dict', 'set', 'ba')):
            return FALSE
        if x.k in ('c',) or is_num(x) or x.ty in ('bytes', 'str'):
            return FALSE
        if x.k == 'exc':
            return I.exc_match(s, x, c)
        return opaque_atom('isinst', I.freeze(s, x), c)
    return I.split(st, o, f)


def py_iter_next(I, st, o, default):
    """next(iterator)"""
    if o.k == 'ref':
        c = I.cell(st, o)
        if c.kind == 'inst':
            n0 = len(I.raises[-1])
            if default is None:
                return I.call_method(st, o, '__next__', [])
            I.raises.append([])
            s = st
            v, dead = None, False
            try:
                v = I.call_method(s, o, '__next__', [])
            except Dead:
                dead = True
            caught = I.raises.pop()
            states = [] if dead else [(s.snap(), v)]
            for q, e in caught:
                m = I.exc_match(q, e, ext('StopIteration'))
                if m is TRUE:
                    states.append((q, default))
                else:
                    I.raises[-1].append((q, e))
            if not states:
                raise Dead
            r, v = states[-1]
            for q, w in reversed(states[:-1]):
                cnd = I.relative(q.pc, r.pc)
                v = ite(cnd, w, v)
                r = IN.merge(cnd, q, r)
            st.become(r)
            return v
        if c.kind == 'iter':
            k = c.s['pos']
            seq = c.meta['seq']
            I.put(st, o, 'pos', add(k, ONE))
            if seq.n is not None:
                bad = not_(lt(k, seq.n))
                if default is None:
                    I.throw(st, I.exc('StopIteration'), bad)
                    return seq.item(I, st, k)
                return I.branch(st, bad, lambda s: default, lambda s: seq.item(I, s, k))
            return seq.item(I, st, k)
    if o.k == 'app' and o.a[0] == 'gen':
        t = list_term(I, st, o)
        if t is not None:
            bad = eq(tlen(t), ZERO)
            if default is None:
                I.throw(st, I.exc('StopIteration'), bad)
                return titem(t, ZERO)
            return I.branch(st, bad, lambda s: default, lambda s: titem(t, ZERO))
    h = NEXT_HOOKS.get('obj')
    if h is not None:
        return h(I, st, o, default)
    a = [o] + ([default] if default is not None else [])
    return I.opaque_call(st, 'next', a, {})


NEXT_HOOKS = {}


def py_int(I, st, args, kw):
    if not args:
        return ZERO

    def f(s, x):
        if is_int(x):
            return TM._num(x)
        if x.k == 'c':
            v = cv(x)
            try:
                b = args[1:] or ([kw['base']] if 'base' in kw else [])
                return C(int(v, cv(b[0])) if b else int(v))
            except (ValueError, TypeError) as e:
                I.throw(s, I.exc(type(e).__name__))
        if x is NONE:
            I.throw(s, I.exc('TypeError'))
        return app('int', I.freeze(s, x), *[I.freeze(s, q) for q in args[1:]], ty='int')
    return I.split(st, args[0], f)


def minmax(I, st, name, args, kw):
    if len(args) == 1 and not kw:
        t = I.simp(st, seq_term(I, st, args[0]))
        if t.k in ('list', 'tup') and t.a and all(is_int(x) for x in t.a):
            args = list(t.a)
        else:
            return app(name, I.freeze(st, t), ty='int' if list_ty(t) == 'int' else 'obj')
    if not kw and all(is_int(x) for x in args):
        r = TM._num(args[0])
        for x in args[1:]:
            r = (imin if name == 'min' else imax)(r, TM._num(x))
        return r
    if not kw and all(is_c(x) for x in args):
        return C(getattr(builtins, name)(*[cv(x) for x in args]))
    return app(name, *[I.freeze(st, x) for x in args], *[I.freeze(st, kw[k]) for k in sorted(kw)], ty='obj')


def py_sum(I, st, v, start=ZERO):
    t = I.freeze(st, seq_term(I, st, v))

    def f(t):
        if t.k in ('list', 'tup'):
            r, rest = start, []
            for x in t.a:
                if x.k == 'app' and x.a[0] == 'spl':
                    rest.append(x)
                elif is_int(x):
                    r = add(r, x)
                else:
                    return app('sum', t, start, ty='obj')
            if rest:
                return add(r, app('sum', lst(*rest), ty='int'))
            return r
        return app('sum', t, start, ty='int' if list_ty(t) == 'int' else 'obj')
    return lift_local('sum', f, t)


def any_all(I, st, name, v):
    t = seq_term(I, st, v)

    def f(s, t):
        if t.k in ('list', 'tup') and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a):
            r = FALSE if name == 'any' else TRUE
            for x in t.a:
                c = truth(I, s, x)
                r = or_(r, c) if name == 'any' else and_(r, c)
            return r
        return opaque_atom(name, I.freeze(s, t))
    return I.split(st, t, f)


def make_namedtuple(I, st, c, fields, args, kwargs):
    vals = list(args)
    defaults = getattr(IN.CLASSES[c], 'nt_defaults', ())
    for k, n in enumerate(fields):
        if k < len(vals):
            continue
        if n in kwargs:
            vals.append(kwargs[n])
        else:
            d = k - (len(fields) - len(defaults))
            if d >= 0:
                vals.append(defaults[d])
            else:
                I.throw(st, I.exc('TypeError', C('missing argument ' + n)))
    if len(vals) > len(fields) or any(k not in fields for k in kwargs):
        I.throw(st, I.exc('TypeError', C('arguments')))
    return mk('nt', c, tup(*vals), ty='nt')


def effect(I, st, name, args):
    I.effects = getattr(I, 'effects', [])
    I.effects.append((name, I.node, st.pc, tuple(I.freeze(st, a) for a in args), I.frames[-1][1].qual if I.frames else ''))


def call_ext(I, st, d, args, kw):
    h = I.summaries.get('ext:' + d)
    if h is not None:
        r = h(I, st, args, kw)
        if r is not NotImplemented:
            return r
    for p in ('builtins.',):
        if d.startswith(p):
            d = d[len(p):]
    f = EXT.get(d)
    if f is not None:
        r = f(I, st, args, kw)
        if r is not NotImplemented:
            return r
    if d.startswith('c:numpy.'):
        return cnp_call(I, st, d[8:], args, kw)
    if d.startswith('numpy.'):
        return np_call(I, st, d[6:], args, kw)
    if d.startswith('c:'):
        r = EXT.get(d[2:])
        if r is not None:
            return r(I, st, args, kw)
    if d.split('.')[-1] in IN.BUILTIN_EXC:
        return mk('exc', ext(d.split('.')[-1]), tuple(I.freeze(st, a) for a in args), ty='exc')
    effect(I, st, d, args)
    return I.opaque_call(st, d, args, kw)


EXT = {}


def model(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@model('len')
def _(I, st, a, kw):
    return py_len(I, st, a[0])


@model('sys.exit', 'exit', 'quit')
def _(I, st, a, kw):
    I.throw(st, mk('exc', ext('SystemExit'), tuple(I.freeze(st, x) for x in a), ty='exc'))


@model('range')
def _(I, st, a, kw):
    a = [x if is_int(x) else as_int(I, st, x) for x in a]
    lo, hi, s = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
    return mk('rng', TM._num(lo), TM._num(hi), TM._num(s), ty='rng')


@model('zip')
def _(I, st, a, kw):
    return mk('zip', *a, ty='iter')


@model('enumerate')
def _(I, st, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)
    return mk('enum', a[0], TM._num(start), ty='iter')


@model('reversed')
def _(I, st, a, kw):
    return mk('rev', a[0], ty='iter')


@model('map')
def _(I, st, a, kw):
    return mk('map', *a, ty='iter')


@model('filter')
def _(I, st, a, kw):
    out = I.new_list(st)
    seq = iterspec(I, st, I.simp(st, a[1]))
    if seq.n is not None and is_c(seq.n):
        for k in range(int(cv(seq.n))):
            x = seq.item(I, st, C(k))
            c = truth(I, st, I.call(st, a[0], [x], {})) if a[0] is not NONE else truth(I, st, x)

            def y(s):
                list_append(I, s, out, x)
                return NONE
            I.branch(st, c, y, lambda s: NONE)
        return mk('app', 'gen', out, ty='gen')
    return I.opaque_call(st, 'filter', a, kw)


@model('min')
def _(I, st, a, kw):
    return minmax(I, st, 'min', a, kw)


@model('max')
def _(I, st, a, kw):
    return minmax(I, st, 'max', a, kw)


def _rounded(name):
    def f(I, st, a, kw):
        def g(s, x):
            if is_c(x) and isinstance(cv(x), (int, float)) and math.isfinite(cv(x)):
                return C(getattr(math, name)(cv(x)))
            if is_int(x):
                return TM._num(x)
            return app('int', app('np:' + name, I.freeze(s, x), ty='float'), ty='int')
        return I.split(st, a[0], g)
    return f


EXT['math.ceil'] = _rounded('ceil')
EXT['math.floor'] = _rounded('floor')


@model('sum', 'math.fsum')
def _(I, st, a, kw):
    if arr_val(I, st, a[0]).ty == 'arr':
        return call_bound(I, st, a[0], 'sum', [], {})
    return py_sum(I, st, a[0], *a[1:])


@model('any')
def _(I, st, a, kw):
    return any_all(I, st, 'any', a[0])


@model('all')
def _(I, st, a, kw):
    return any_all(I, st, 'all', a[0])


@model('abs')
def _(I, st, a, kw):
    if is_int(a[0]):
        return ite(lt(a[0], ZERO), neg(TM._num(a[0])), TM._num(a[0]))
    return app('abs', I.freeze(st, a[0]), ty='float')


@model('divmod')
def _(I, st, a, kw):
    return tup(binop(I, st, 'FloorDiv', a[0], a[1]), binop(I, st, 'Mod', a[0], a[1]))


@model('pow')
def _(I, st, a, kw):
    return binop(I, st, 'Pow', a[0], a[1])


@model('set', 'frozenset')
def _(I, st, a, kw):
    if not a:
        return make_set(I, st, [])

    def f(s, x):
        if x is NONE:
            I.throw(s, I.exc('TypeError'))
        sv = set_val(I, s, x) if (x.k == 'ref' and I.cell(s, x).kind in ('set',)) or x.k == 'cset' else None
        if sv is not None:
            return I.alloc(s, 'set', {'v': sv})
        try:
            t = seq_term(I, s, x)
        except Undecidable:
            t = None
        if t is not None and t.k in ('list', 'tup') and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a):
            return make_set(I, s, t.a)
        return I.alloc(s, 'set', {'v': app('setof', I.freeze(s, t if t is not None else x), ty='set')})
    return I.split(st, a[0], f)


@model('list')
def _(I, st, a, kw):
    if not a:
        return I.new_list(st)
    return I.split(st, a[0], lambda s, x: I.alloc(s, 'list', {'items': as_list(seq_term(I, s, x))}))


def as_list(t):
    if t.k == 'tup':
        return lst(*t.a)
    return lift('aslist', lambda x: lst(*x.a) if x.k == 'tup' else x, t)


@model('tuple')
def _(I, st, a, kw):
    if not a:
        return tup()

    def f(s, x):
        t = seq_term(I, s, x)
        if t.k in ('list', 'tup') and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a):
            return tup(*t.a)
        return app('tuple', I.freeze(s, t), ty='tuple')
    return I.split(st, a[0], f)


@model('dict')
def _(I, st, a, kw):
    if a and a[0].k == 'ref' and I.cell(st, a[0]).kind == 'dict':
        r = copy_dict(I, st, a[0])
        I.cell(st, r).meta.pop('factory', None)
    else:
        r = I.new_dict(st)
        if a:
            dict_update(I, st, r, a[0])
    for k, v in kw.items():
        I.setitem(st, r, C(k), v)
    return r


@model('collections.OrderedDict')
def _(I, st, a, kw):
    return EXT['dict'](I, st, a, kw)


@model('collections.defaultdict')
def _(I, st, a, kw):
    return I.new_dict(st, (), {'factory': a[0] if a else None})


@model('bool')
def _(I, st, a, kw):
    return truth(I, st, a[0]) if a else FALSE


@model('int', 'long')
def _(I, st, a, kw):
    return py_int(I, st, a, kw)


@model('float')
def _(I, st, a, kw):
    if not a:
        return C(0.0)
    def f(s, x):
        if is_c(x) and isinstance(cv(x), (str, bytes)):
            try:
                return C(float(cv(x)))
            except ValueError:
                I.throw(s, I.exc('ValueError'))
        return to_float(x, 'f8') if is_num(x) else app('float', I.freeze(s, x), ty='float')
    return I.split(st, a[0], f)


@model('str')
def _(I, st, a, kw):
    return fmt(I, st, a[0]) if a else C('')


@model('repr', 'ascii')
def _(I, st, a, kw):
    return fmt(I, st, a[0], '', 'r')


@model('format')
def _(I, st, a, kw):
    return fmt(I, st, a[0], cv(a[1]) if len(a) > 1 and is_c(a[1]) else '')


@model('bytes', 'bytearray')
def _(I, st, a, kw):
    return NotImplemented


def _bytes(mutable):
    def f(I, st, a, kw):
        def g(s, x):
            if x.k == 'ref' and I.cell(s, x).kind == 'inst' and I.class_attr(s, I.cls_of(s, x), '__bytes__') is not None:
                v = I.call_method(s, x, '__bytes__', [])
            elif is_int(x):
                v = C(b'\0' * cv(x)) if is_c(x) and cv(x) < 4096 else app('zeros', x, ty='bytes')
            else:
                v = bytes_of(I, s, x)
                if v.ty != 'bytes':
                    t = list_term(I, s, x)
                    if t is not None and t.k in ('list', 'tup') and all(is_c(q) for q in t.a):
                        v = C(bytes(cv(q) for q in t.a))
                    else:
                        v = app('bytes', I.freeze(s, x), ty='bytes')
            return I.alloc(s, 'ba', {'c': v}) if mutable else v
        if not a:
            return I.alloc(st, 'ba', {'c': C(b'')}) if mutable else C(b'')
        return I.split(st, a[0], g)
    return f


EXT['bytes'] = _bytes(False)
EXT['bytearray'] = _bytes(True)


@model('memoryview')
def _(I, st, a, kw):
    return mk('memv', a[0], ty='memv') if a[0].k == 'ref' else a[0]


@model('isinstance')
def _(I, st, a, kw):
    return py_isinstance(I, st, a[0], a[1])


@model('issubclass')
def _(I, st, a, kw):
    if a[0].k == 'cls' and a[1].k == 'cls':
        return C(IN.sup_class(a[0], a[1]))
    if a[0].k == 'ext' and IN.exc_sub(a[0].a[0].split('.')[-1], 'BaseException') or a[0].k == 'cls':
        if a[1].k in ('ext', 'cls', 'tup'):
            return I.exc_match(st, mk('exc', a[0], (), ty='exc'), a[1])
    return opaque_atom('issub', a[0], a[1])


@model('type')
def _(I, st, a, kw):
    if len(a) == 1:
        def f(s, x):
            c = I.cls_of(s, x)
            return c if c is not None else app('class_of', I.freeze(s, x), ty='class')
        return I.split(st, a[0], f)
    return NotImplemented


@model('id')
def _(I, st, a, kw):
    return app('id', a[0], ty='int')


@model('callable')
def _(I, st, a, kw):
    return C(a[0].ty in ('func', 'class', 'ext'))


@model('hash')
def _(I, st, a, kw):
    return app('hash', I.freeze(st, a[0]), ty='int')


@model('getattr')
def _(I, st, a, kw):
    if not is_c(a[1]):
        raise Undecidable('getattr')
    if len(a) > 2:
        def f(s, o):
            I.raises.append([])
            dead, v = False, None
            try:
                v = I.getattr1(s, o, cv(a[1]))
            except Dead:
                dead = True
            caught = I.raises.pop()
            out = [] if dead else [(s.snap(), v)]
            for q, e in caught:
                if I.exc_match(q, e, ext('AttributeError')) is TRUE:
                    out.append((q, a[2]))
                else:
                    I.raises[-1].append((q, e))
            if not out:
                raise Dead
            r, v = out[-1]
            for q, w in reversed(out[:-1]):
                c = I.relative(q.pc, r.pc)
                v = ite(c, w, v)
                r = IN.merge(c, q, r)
            s.become(r)
            return v
        return I.split(st, a[0], f)
    return I.getattr(st, a[0], cv(a[1]))


@model('setattr')
def _(I, st, a, kw):
    I.setattr(st, a[0], cv(a[1]), a[2])
    return NONE


@model('hasattr')
def _(I, st, a, kw):
    def f(s, o):
        I.raises.append([])
        try:
            I.getattr1(s.snap(), o, cv(a[1]))
            r = TRUE
        except Dead:
            r = FALSE
        I.raises.pop()
        if o.ty == 'obj' and o.k != 'ref':
            return opaque_atom('hasattr', o, a[1])
        return r
    return I.split(st, a[0], f)


@model('iter')
def _(I, st, a, kw):
    def f(s, o):
        if o.k == 'ref' and I.cell(s, o).kind == 'inst' or o in OBJCLS:
            return I.call_method(s, o, '__iter__', [])
        if o.k == 'app' and o.a[0] == 'gen':
            return o
        if o.k == 'ref' and I.cell(s, o).kind == 'iter':
            return o
        return I.alloc(s, 'iter', {'pos': ZERO}, {'seq': iterspec(I, s, o)})
    return I.split(st, a[0], f)


@model('next')
def _(I, st, a, kw):
    return I.split(st, a[0], lambda s, o: py_iter_next(I, s, o, a[1] if len(a) > 1 else None))


def constant(k):
    """(value,) of a constant, also if it is a tuple"""
    if is_c(k):
        return (cv(k),)
    if k.k == 'nt':
        return constant(k.a[1])
    if k.k in ('tup', 'list'):
        items = [constant(x) for x in k.a]
        return None if None in items else ((tuple if k.k == 'tup' else list)(x for x, in items),)
    return None


@model('sorted')
def _(I, st, a, kw):
    u = seq_term(I, st, a[0])
    t = I.freeze(st, u)
    if set(kw) <= {'key', 'reverse'} and kw.get('reverse', FALSE) in (TRUE, FALSE):
        u = I.simp(st, u)
        if u.k in ('list', 'tup'):
            keys = u.a if kw.get('key', NONE) is NONE else [I.call(st, kw['key'], [x], {}) for x in u.a]
            keys = [constant(I.freeze(st, k)) for k in keys]
            if None not in keys:
                try:
                    r = sorted(range(len(keys)), key=lambda j: keys[j][0], reverse=kw.get('reverse', FALSE) is TRUE)
                    return I.new_list(st, [u.a[j] for j in r])
                except TypeError:
                    pass
    return I.alloc(st, 'list', {'items': app('sorted', t, *[I.freeze(st, kw[k]) for k in sorted(kw)], ty='list')})


@model('warnings.warn')
def _(I, st, a, kw):
    effect(I, st, 'warn', a)
    return NONE


@model('print', 'warnings.simplefilter', 'warnings.filterwarnings')
def _(I, st, a, kw):
    effect(I, st, 'print', a)
    return NONE


@model('logging.getLogger')
def _(I, st, a, kw):
    return ext('logging.LOGGER')


def _log(I, st, a, kw):
    return NONE


for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'setLevel', 'addHandler', 'log'):
    EXT['logging.LOGGER.' + _n] = _log
    EXT['logging.' + _n] = _log
EXT['logging.basicConfig'] = _log


@model('super')
def _(I, st, a, kw):
    if len(a) == 2:
        return mk('super', a[0], a[1], ty='super')
    return NotImplemented


@model('property', 'staticmethod', 'classmethod')
def _(I, st, a, kw):
    return NotImplemented


@model('bin', 'hex', 'oct', 'chr', 'ord', 'round', 'input')
def _(I, st, a, kw):
    return NotImplemented


def _conv(name):
    def f(I, st, a, kw):
        if is_c(a[0]):
            return C(getattr(builtins, name)(cv(a[0])))
        ty = 'int' if name in ('ord', 'round') else 'str'
        if name == 'ord' and a[0].ty == 'bytes':
            return dec('u1', a[0], ZERO)
        return app(name, *[I.freeze(st, x) for x in a], ty=ty)
    return f


for _n in ('bin', 'hex', 'oct', 'chr', 'ord', 'round'):
    EXT[_n] = _conv(_n)


@model('object')
def _(I, st, a, kw):
    return I.alloc(st, 'inst', {}, {'cls': ext('object')})


@model('functools.lru_cache', 'functools.cache', 'functools.wraps', 'functools.cached_property')
def _(I, st, a, kw):
    if a and a[0].ty == 'func':
        return a[0]
    return native('identity', lambda I, st, a, kw: a[0])


@model('functools.partial')
def _(I, st, a, kw):
    fn, pre, pk = a[0], a[1:], dict(kw)
    return native('partial%d' % fresh(), lambda I, st, b, k2: I.call(st, fn, list(pre) + list(b), dict(pk, **k2)))


@model('copy.copy')
def _(I, st, a, kw):
    def f(s, x):
        if x.k == 'ref':
            c = I.cell(s, x)
            return I.alloc(s, c.kind, dict(c.s), {k: v for k, v in c.meta.items() if k != 'home'})
        return x
    return I.split(st, a[0], f)


@model('copy.deepcopy')
def _(I, st, a, kw):
    return a[0] if not contains_ref(a[0]) else I.freeze(st, a[0])


@model('collections.namedtuple')
def _(I, st, a, kw):
    names = a[1]
    if names.k == 'c':
        fields = cv(names).replace(',', ' ').split()
    else:
        fields = [cv(x) for x in seq_all(I, st, names)]
    mod = I.frames[-1][1].mod
    c = Class(cv(a[0]), mod + '.nt:' + cv(a[0]), [], mod)
    c.fields = fields
    d = kw.get('defaults')
    c.nt_defaults = tuple(seq_all(I, st, d)) if d is not None and d is not NONE else ()
    t = cls_t(c)
    st.heap[('cls', t)] = Cell('env', {'__name__': a[0], '_fields': tup(*[C(x) for x in fields])}, {'cls': c})
    return t


@model('struct.unpack')
def _(I, st, a, kw):
    return unpack(I, st, a[0], a[1], ZERO, True)


@model('struct.unpack_from')
def _(I, st, a, kw):
    off = a[2] if len(a) > 2 else kw.get('offset', ZERO)
    return unpack(I, st, a[0], a[1], TM._num(off), False)


@model('struct.calcsize')
def _(I, st, a, kw):
    f = I.simp(st, a[0])
    if is_c(f):
        lay, size = struct_layout(cv(f))
        if lay is not None:
            return C(size)
    d = dyn_format(f)
    if d is not None:
        return mul(C(d[1]), d[2])
    return app('calcsize', I.freeze(st, f), ty='int')


@model('struct.Struct')
def _(I, st, a, kw):
    return mk('structobj', a[0], ty='structobj')


@model('struct.iter_unpack')
def _(I, st, a, kw):
    b = bytes_of(I, st, a[1])
    if is_c(a[0]):
        lay, size = struct_layout(cv(a[0]))
        if lay is not None and all(k != 's' for k, _, _ in lay):
            n = pdiv_exact(blen(I, st, b), C(size)) or floordiv(blen(I, st, b), C(size))
            f = fresh()
            base = mul(C(size), ixvar(f))
            return app('list', tab(f, n, tup(*[dec(k, b, add(base, C(o))) for k, o, _ in lay])), ty='list')
    return NotImplemented


@model('int.from_bytes')
def _(I, st, a, kw):
    b = bytes_of(I, st, a[0])
    order = a[1] if len(a) > 1 else kw.get('byteorder', C('big'))
    signed = kw.get('signed', FALSE)
    n = blen(I, st, b)
    if is_c(n) and is_c(order) and is_c(signed) and 0 < cv(n) <= 8:
        n, r = int(cv(n)), ZERO
        if n in (1, 2, 4, 8):
            d = ('>' if cv(order) == 'big' and n > 1 else '') + ('i' if cv(signed) else 'u') + str(n)
            return dec(d, b, ZERO)
        for k in range(n):
            p = k if cv(order) == 'little' else n - 1 - k
            r = bor(r, shl(dec('u1', b, C(k)), C(8 * p)))
        return r
    return NotImplemented


@model('io.BytesIO')
def _(I, st, a, kw):
    b = bytes_of(I, st, a[0]) if a else C(b'')
    return I.alloc(st, 'bio', {'buf': b, 'pos': ZERO}, {'size': blen(I, st, b) if b.k != 'ite' else None})


@model('numpy.rec.fromarrays')
def _(I, st, a, kw):
    return np_call(I, st, 'rec.fromarrays', a, kw)


def ptr_of(ct, v):
    return mk('ptr', v.a[0], v.a[1], ct, ty='ptr')


@model('__cast__')
def _(I, st, a, kw):
    ct = cv(a[0])
    v = a[1]
    if ct.startswith('ptr:'):
        base = ct[4:]

        def f(s, x):
            if x.k == 'addr':
                return mk('ptr', x.a[0], x.a[1], base, ty='ptr')
            if x.k == 'ptr':
                return mk('ptr', x.a[0], x.a[1], base, ty='ptr')
            raise Undecidable('pointer cast')
        return I.split(st, v, f)
    return I.split(st, v, lambda s, x: I.ctype(s, ct, x))


@model('__addr__')
def _(I, st, a, kw):
    o = a[0]
    if o.k == 'ref':
        c = I.cell(st, o)
        if c.kind == 'ba':
            o = c.s['c']
        elif c.kind == 'arr':
            o = I.freeze(st, o)
    if o.ty == 'arr':
        if o.k == 'arr' and len(a) > 1:
            sz = itemsize(o.a[0])
            return mk('addr', o.a[1], add(o.a[2], mul(sz, TM._num(a[1]))), ty='addr')
        raise Undecidable('address of array element')
    if o.ty != 'bytes':
        raise Undecidable('address')
    off = TM._num(a[1]) if len(a) > 1 else ZERO
    if len(a) > 1 and not I.happy and not I.frames[-1][1].node._cdir.get('boundscheck', True) is False:
        n = blen(I, st, o)
        I.checked(st, or_(lt(off, ZERO), not_(lt(off, n))))
    return mk('addr', o, off, ty='addr')


def cnp_call(I, st, name, args, kw):
    if name in ('PyArray_SimpleNew', 'PyArray_ZEROS', 'PyArray_EMPTY'):
        nd = int(cv(args[0]))
        sh = tuple(TM._num(x) for x in seq_all(I, st, args[1])[:nd])
        tn = args[2]
        d = NPY.get(tn.a[0].split('.')[-1]) if tn.k == 'ext' else None
        if d is None:
            raise Undecidable('numpy type')
        d = dtn(d)
        v = np_wrap(d, ZERO) if name == 'PyArray_ZEROS' else app('uninit', ty='int')
        if not I.happy:
            for x in sh:
                I.throw(st, I.exc('ValueError'), lt(x, ZERO))
        return new_arr(I, st, full(d, sh, v))
    if name == 'PyArray_FillWithScalar':
        a = arr_val(I, st, args[0])
        I.put(st, args[0], 'c', full(dtype_of(a), shape_of(a), np_wrap(dtype_of(a), args[1])))
        return ZERO
    if name == 'import_array':
        return NONE
    return I.opaque_call(st, 'c:numpy.' + name, args, kw)


@model('cpython.array.array', 'cpython.array.array.array', 'array.array')
def _(I, st, a, kw):
    r = I.new_list(st)
    c = I.cell(st, r)
    ct = {'h': 'int16_t', 'H': 'uint16_t', 'i': 'int32_t', 'I': 'uint32_t', 'q': 'int64_t', 'Q': 'uint64_t', 'b': 'int8_t',
          'B': 'uint8_t', 'l': 'int64_t', 'L': 'uint64_t'}.get(cv(a[0]) if is_c(a[0]) else None)
    if ct:
        c.meta['carr'] = ct
    if len(a) > 1:
        list_extend(I, st, r, a[1])
    return r


@model('itertools.chain')
def _(I, st, a, kw):
    return I.alloc(st, 'list', {'items': cat_list(*[seq_term(I, st, x) for x in a])})


@model('weakref.proxy', 'weakref.ref')
def _(I, st, a, kw):
    return a[0]


# --------------------------------------------------------------------------- attributes
def getattr_cell(I, st, o, c, name):
    if c.kind == 'arr':
        return arr_attr(I, st, o, c.s['c'], name)
    if c.kind == 'ba' and name == 'shape':
        return tup(py_len(I, st, o))
    if c.kind == 'bio' and name == 'closed':
        return FALSE
    return bb(o, name)


def arr_attr(I, st, o, a, name):
    sh = shape_of(a)
    if name == 'shape':
        return tup(*sh) if sh is not None else app('shape', a, ty='tuple')
    if name == 'dtype':
        d = dtype_of(a)
        return d if d is not None else app('dtype_of', a, ty='dtype')
    if name == 'size':
        return prod(sh) if sh is not None else app('size', a, ty='int', rng=(0, math.inf))
    if name == 'ndim' and sh is not None:
        return C(len(sh))
    if name == 'itemsize' and dtype_of(a) is not None:
        return itemsize(dtype_of(a))
    if name == 'T':
        return app('T', a, ty='arr')
    d = dtype_of(a)
    if d is not None and d.k == 'sdt' and name in [f[0] for f in d.a[0]]:
        return field(I, st, a, name)
    if a.k == 'app' and a.a[0] == 'recarrays' and C(name) in a.a[1].a:
        return field(I, st, a, name)
    return bb(o, name)


def getattr_value(I, st, o, name):
    if o.ty == 'arr':
        return arr_attr(I, st, o, o, name)
    if o.k == 'nt':
        c = o.a[0]
        f = I.nt_fields(c)
        if name in f:
            return o.a[1].a[f.index(name)]
        if name == '_fields':
            return tup(*[C(x) for x in f])
        if name == '__class__':
            return c
        v = I.class_attr(st, c, name)
        if v is not None:
            return I.bind(st, v, o, c)
        return bb(o, name)
    if o.ty == 'bytes' and name == 'shape':
        return tup(blen(I, st, o))
    if o.k == 'aview':
        return arr_attr(I, st, o, I.freeze(st, o), name)
    if o.k == 'memv' and name in ('shape', 'nbytes'):
        n = py_len(I, st, o)
        return tup(n) if name == 'shape' else n
    if o.ty == 'dtype':
        if name == 'names':
            return sdt_names(o) if o.k == 'sdt' else NONE
        if name == 'itemsize':
            return itemsize(o)
        if name == 'fields' and o.k == 'sdt':
            return mkdict([(C(n), tup(d, f)) for n, d, f, s in o.a[0]])
        return app('attr:' + name, o, ty='obj')
    if o.k == 'structobj':
        if name == 'size':
            return EXT['struct.calcsize'](I, st, [o.a[0]], {})
        if name == 'format':
            return o.a[0]
        return bb(o, name)
    if o.k == 'exc':
        if name == 'args':
            return tup(*o.a[1])
        return bb(o, name)
    if o.k == 'slice' and name in ('start', 'stop', 'step'):
        return o.a[('start', 'stop', 'step').index(name)]
    if o is NONE:
        I.throw(st, I.exc('AttributeError', C(name)))
    if o.k == 'func' and name == '__name__':
        return C(IN.FUNCS[o].name)
    if is_int(o) and name == 'real':
        return o
    if o.k in ('sym', 'app', 'at', 'mu') and o.ty in (None, 'obj', 'class'):
        return bb(o, name) if name in OPAQUE_METHODS else I.attr_term(o, name)
    if o.k == 'c' or o.ty in ('int', 'bool', 'float', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'gen', 'func', 'class',
                              'rng', 'iter', 'ptr', 'ext', 'nt', 'structobj', 'exc', 'super', 'memv'):
        return bb(o, name)
    return bb(o, name)


OPAQUE_METHODS = set()


# --------------------------------------------------------------------------- regular expressions
@model('re.compile')
def _(I, st, a, kw):
    if len(a) == 1 and is_c(a[0]) and not kw:
        return mk('regex', a[0], ty='regex')
    return NotImplemented


def regex(I, st, o, name, args, kw):
    import re
    if name in ('match', 'fullmatch', 'search') and len(args) == 1 and is_c(args[0]) and not kw:
        try:
            m = getattr(re.compile(cv(o.a[0])), name)(cv(args[0]))
        except Exception:
            return NotImplemented
        if m is None:
            return NONE
        g = [m.group()] + list(m.groups())
        return I.instantiate(st, I.lookup_qual('spec.runtime', 'Match'), [
            tup(*[C(x) for x in g]), tup(*[tup(C(m.start(k)), C(m.end(k))) for k in range(len(g))]),
            I.new_dict(st, [(C(k), C(v)) for k, v in m.re.groupindex.items()])], {})
    if name in ('sub', 'split', 'findall') and all(is_c(x) for x in args) and not kw:
        try:
            r = getattr(re.compile(cv(o.a[0])), name)(*[cv(x) for x in args])
        except Exception:
            return NotImplemented
        if isinstance(r, str):
            return C(r)
        if isinstance(r, list) and all(isinstance(x, str) for x in r):
            return I.new_list(st, [C(x) for x in r])
    return NotImplemented


def _re(name):
    @model('re.' + name)
    def _(I, st, a, kw):
        if a and is_c(a[0]):
            return regex(I, st, mk('regex', a[0], ty='regex'), name, a[1:], kw)
        return NotImplemented


for _n in ('sub', 'split', 'findall', 'match', 'fullmatch', 'search'):
    _re(_n)


# --------------------------------------------------------------------------- methods
def call_bound(I, st, o, name, args, kw):
    if o.k == 'regex':
        r = regex(I, st, o, name, args, kw)
        if r is not NotImplemented:
            return r
    if o.k == 'ite':
        return I.split(st, o, lambda s, x: call_bound(I, s, x, name, args, kw))
    if name.startswith('object.'):
        n = name[7:]
        if n in ('__init__', '__init_subclass__', '__setattr__', '__exit__', '__del__'):
            return NONE
        if n == '__new__':
            return I.alloc(st, 'inst', {}, {'cls': args[0], 'ctypes': I.class_ctypes(args[0])})
        cls = I.cls_of(st, o)
        if o.k == 'nt':
            return call_bound(I, st, o, n, args, kw)
        if cls is not None and o.k == 'ref' and I.is_exc_class(cls):
            return NONE
        return app('object.' + n, ty='str' if n in ('__str__', '__repr__', '__format__') else 'obj')
    if o.k == 'cls':
        return class_method(I, st, o, name, args, kw)
    if o.k == 'ref':
        c = I.cell(st, o)
        f = globals().get('m_' + c.kind)
        if f is not None:
            r = f(I, st, o, c, name, args, kw)
            if r is not NotImplemented:
                return r
        if c.kind == 'arr':
            return arr_method(I, st, o, c.s['c'], name, args, kw)
        return I.opaque_call(st, 'm:' + name, [o] + args, kw)
    if o.ty == 'arr':
        return arr_method(I, st, o, o, name, args, kw)
    if o.ty == 'bytes':
        r = bytes_method(I, st, o, name, args, kw)
        if r is not NotImplemented:
            return r
    if o.ty == 'str':
        r = str_method(I, st, o, name, args, kw)
        if r is not NotImplemented:
            return r
    if o.k == 'structobj':
        if name == 'unpack':
            return unpack(I, st, o.a[0], args[0], ZERO, True)
        if name == 'unpack_from':
            off = args[1] if len(args) > 1 else kw.get('offset', ZERO)
            return unpack(I, st, o.a[0], args[0], TM._num(off), False)
        if name == 'iter_unpack':
            return EXT['struct.iter_unpack'](I, st, [o.a[0]] + args, kw)
    if o.k == 'nt':
        f = I.nt_fields(o.a[0])
        if name == '_asdict':
            return I.new_dict(st, [(C(n), v) for n, v in zip(f, o.a[1].a)])
        if name == '_replace':
            return mk('nt', o.a[0], tup(*[kw.get(n, v) for n, v in zip(f, o.a[1].a)]), ty='nt')
        if name == '__iter__':
            return o
    if o.k == 'dict':
        r = copy_dict(I, st, o)
        return m_dict(I, st, r, I.cell(st, r), name, args, kw)
    if o.k == 'tup' or o.ty == 'list' or o.ty == 'tuple':
        if name == 'index' and o.k == 'tup' and all(is_c(x) for x in o.a) and args and is_c(args[0]):
            vals = [cv(x) for x in o.a]
            if cv(args[0]) in vals:
                return C(vals.index(cv(args[0])))
        if name in ('append', 'extend'):
            raise Undecidable('mutation of frozen list')
    if o.k == 'cset' and name in ('union', 'intersection', 'difference'):
        return set_op(I, st, {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub'}[name], o, args[0])
    if is_int(o):
        if name == 'bit_count':
            return app('popcount', TM._num(o), ty='int', rng=(0, 64))
        if name == 'bit_length':
            return app('bit_length', TM._num(o), ty='int', rng=(0, math.inf))
        if name == 'item':
            return o
        if name == 'to_bytes':
            return app('to_bytes', TM._num(o), *[I.freeze(st, x) for x in args], ty='bytes')
    if o.ty == 'float' and name == 'item':
        return o
    if o.k == 'ext' or o.ty == 'ext':
        return call_ext(I, st, o.a[0] + '.' + name, args, kw)
    if o.k == 'exc' and name == '__str__':
        return app('str', o, ty='str')
    effect(I, st, 'm:' + name, [o] + args)
    return I.opaque_call(st, 'm:' + name, [o] + args, kw)


def class_method(I, st, c, name, args, kw):
    if name == '__subclasses__':
        return I.new_list(st, IN.CLASSES[c].subs)
    if name == '__new__':
        return I.alloc(st, 'inst', {}, {'cls': args[0], 'ctypes': I.class_ctypes(args[0])})
    if name == '__init__':
        return NONE
    if name in ('_make',):
        return I.call(st, c, seq_all(I, st, args[0]), {})
    if name == 'mro':
        return I.new_list(st, I.mro(c))
    return I.opaque_call(st, 'm:' + name, [c] + args, kw)


def m_list(I, st, o, c, name, args, kw):
    if name == 'append':
        list_append(I, st, o, args[0])
        return NONE
    if name in ('extend', 'fromlist'):
        list_extend(I, st, o, args[0])
        return NONE
    t = c.s['items']
    const = t.k == 'list' and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a)
    if name == 'copy':
        return I.alloc(st, 'list', {'items': t})
    if name == 'clear':
        I.put(st, o, 'items', lst())
        return NONE
    if name == 'pop' and const and t.a:
        k = int(cv(args[0])) if args and is_c(args[0]) else -1 if not args else None
        if k is not None:
            items = list(t.a)
            v = items.pop(k)
            I.put(st, o, 'items', lst(*items))
            return v
    if name == 'pop' and const and not t.a:
        I.throw(st, I.exc('IndexError'))
    if name == 'insert' and const and is_c(args[0]):
        items = list(t.a)
        items.insert(int(cv(args[0])), args[1])
        I.put(st, o, 'items', lst(*items))
        return NONE
    if name == 'reverse' and const:
        I.put(st, o, 'items', lst(*reversed(t.a)))
        return NONE
    if name in ('pop', 'insert', 'remove', 'sort', 'reverse'):
        v = app('l:' + name, I.freeze(st, t), *[I.freeze(st, x) for x in args], ty='list')
        I.put(st, o, 'items', v)
        return app('lret:' + name, I.freeze(st, t), *[I.freeze(st, x) for x in args], ty='obj')
    if name == 'index' and const and args:
        for k, x in enumerate(t.a):
            if x is args[0]:
                return C(k)
    if name == 'count' and const and args:
        r = ZERO
        for x in t.a:
            r = add(r, TM._num(eq(x, args[0])))
        return r
    if name == 'tolist':
        return I.alloc(st, 'list', {'items': t})
    return app('m:' + name, I.freeze(st, t), *[I.freeze(st, x) for x in args], ty='obj')


def m_dict(I, st, o, c, name, args, kw):
    if name in ('items', 'keys', 'values'):
        return mk('view', o, name, ty='iter')
    if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        return getitem_dict(I, st, o, args[0], default=d)
    if name == 'setdefault':
        d = args[1] if len(args) > 1 else NONE
        has = dict_has(I, st, c, args[0])

        def new(s):
            I.setitem(s, o, args[0], d)
            return d
        return I.branch(st, has, lambda s: getitem_dict(I, s, o, args[0]), new)
    if name == 'update':
        for a in args:
            dict_update(I, st, o, a)
        for k, v in kw.items():
            I.setitem(st, o, C(k), v)
        return NONE
    if name == 'copy':
        return copy_dict(I, st, o)
    if name == 'clear':
        I.put(st, o, 'dyn', EMPTY)
        for k in dict_keys(I.cell(st, o)):
            I.put(st, o, ('k', k), UNDEF)
        return NONE
    if name == 'pop':
        has = dict_has(I, st, c, args[0])
        if len(args) > 1:
            def hit(s):
                v = getitem_dict(I, s, o, args[0])
                I.split(s, I.freeze(s, args[0]), lambda q, k: delitem(I, q, o, k))
                return v
            return I.branch(st, has, hit, lambda s: args[1])
        v = getitem_dict(I, st, o, args[0])
        I.split(st, I.freeze(st, args[0]), lambda q, k: delitem(I, q, o, k))
        return v
    if name == '__contains__':
        return dict_has(I, st, c, args[0])
    if name == '__getitem__':
        return getitem_dict(I, st, o, args[0])
    return NotImplemented


def m_set(I, st, o, c, name, args, kw):
    ops = {'union': 'BitOr', 'intersection': 'BitAnd', 'difference': 'Sub', 'symmetric_difference': 'BitXor'}
    if name in ops and len(args) == 1:
        other = args[0]
        if not (other.k == 'ref' and I.cell(st, other).kind == 'set'):
            other = EXT['set'](I, st, [other], {})
        return set_op(I, st, ops[name], o, other)
    if name in ('add', 'update', 'discard', 'remove', 'difference_update', 'intersection_update'):
        v = c.s['v']
        x = I.freeze(st, args[0])
        if name == 'add' and v.k == 'cset' and x.k in ('c', 'cls'):
            nv = mk('cset', *sorted(set(v.a) | {x}, key=lambda t: t.id), ty='set')
        elif name == 'discard' and v.k == 'cset' and x.k in ('c', 'cls'):
            nv = mk('cset', *sorted(set(v.a) - {x}, key=lambda t: t.id), ty='set')
        elif name in ('difference_update', 'intersection_update'):
            t = EXT['set'](I, st, [args[0]], {})
            nv = I.cell(st, set_op(I, st, 'Sub' if name[0] == 'd' else 'BitAnd', o, t)).s['v']
        elif name == 'update':
            t = EXT['set'](I, st, [args[0]], {})
            r = set_op(I, st, 'BitOr', o, t)
            nv = I.cell(st, r).s['v']
        else:
            nv = app('s:' + name, v, x, ty='set')
        I.put(st, o, 'v', nv)
        return NONE
    if name == 'copy':
        return I.alloc(st, 'set', {'v': c.s['v']})
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        other = args[0]
        if not L.is_set(I, st, other):
            other = EXT['set'](I, st, [other], {})
        if name == 'isdisjoint':
            return not_(L.truth(I, st, set_op(I, st, 'BitAnd', o, other)))
        return L.set_compare(I, st, 'LtE' if name == 'issubset' else 'GtE', o, other)
    if name == '__contains__':
        return set_has(c.s['v'], args[0])
    return NotImplemented


def m_ba(I, st, o, c, name, args, kw):
    if name == 'extend':
        I.put(st, o, 'c', cat(c.s['c'], bytes_of(I, st, args[0])))
        return NONE
    if name == 'append':
        list_append(I, st, o, args[0])
        return NONE
    return bytes_method(I, st, c.s['c'], name, args, kw)


def m_bio(I, st, o, c, name, args, kw):
    return bio_method(I, st, o, c, name, args, kw)


def m_inst(I, st, o, c, name, args, kw):
    return NotImplemented


def m_iter(I, st, o, c, name, args, kw):
    if name == '__next__':
        return py_iter_next(I, st, o, None)
    if name == '__iter__':
        return o
    return NotImplemented


def bytes_method(I, st, o, name, args, kw):
    if is_c(o) and all(is_c(a) for a in args) and not kw:
        try:
            r = getattr(cv(o), name)(*[cv(a) for a in args])
            if isinstance(r, (bytes, str, int, bool)):
                return C(r)
        except Exception:
            pass
    if name == 'decode':
        enc = args[0] if args else kw.get('encoding', C('utf-8'))
        enc = C(cv(enc).lower().replace('_', '-').replace('utf8', 'utf-8')) if is_c(enc) else enc
        err = args[1] if len(args) > 1 else kw.get('errors', C('strict'))
        if is_c(o) and is_c(enc) and is_c(err):
            try:
                return C(cv(o).decode(cv(enc), cv(err)))
            except UnicodeDecodeError:
                I.throw(st, I.exc('UnicodeDecodeError'))
            except LookupError:
                I.throw(st, I.exc('LookupError'))
        return app('decode', o, enc, err, ty='str')
    if name in ('startswith', 'endswith'):
        return opaque_atom('b:' + name, o, *[I.freeze(st, a) for a in args])
    if name in ('strip', 'rstrip', 'lstrip', 'replace', 'split', 'join', 'find', 'count', 'partition', 'rstrip', 'hex'):
        ty = {'find': 'int', 'count': 'int', 'hex': 'str', 'split': 'obj', 'partition': 'obj'}.get(name, 'bytes')
        return app('b:' + name, o, *[I.freeze(st, a) for a in args], ty=ty)
    if name == 'tobytes':
        return o
    return NotImplemented


def str_method(I, st, o, name, args, kw):
    if name == 'format' and is_c(o):
        return str_format(I, st, cv(o), args, kw)
    if name == 'join' and is_c(o):
        t = I.simp(st, seq_term(I, st, args[0]))
        if t.k in ('list', 'tup') and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a):
            parts = []
            for k, x in enumerate(t.a):
                if k:
                    parts.append(o)
                parts.append(x)
            return str_concat(parts)
        return app('s:join', o, I.freeze(st, t), ty='str')
    if is_c(o) and all(is_c(a) for a in args) and not kw:
        try:
            r = getattr(cv(o), name)(*[cv(a) for a in args])
            if isinstance(r, (bytes, str, int, bool)):
                return C(r)
            if isinstance(r, list):
                return I.new_list(st, [C(x) for x in r])
        except Exception:
            pass
    if name in ('startswith', 'endswith', 'isdigit'):
        return opaque_atom('s:' + name, o, *[I.freeze(st, a) for a in args])
    ty = {'split': 'obj', 'splitlines': 'obj', 'encode': 'bytes', 'find': 'int', 'count': 'int'}.get(name, 'str')
    return app('s:' + name, o, *[I.freeze(st, a) for a in args], ty=ty)


def arr_method(I, st, o, a, name, args, kw):
    af = I.freeze(st, a)
    if name == 'reshape':
        if len(args) == 1 and list_term(I, st, args[0]) is not None:
            sh = seq_all(I, st, args[0])
        else:
            sh = args
        r = reshape(I, st, af, sh)
        return new_arr(I, st, r) if o.k == 'ref' else r
    if name in ('ravel', 'flatten'):
        return new_arr(I, st, reshape(I, st, af, [C(-1)]))
    if name == 'astype':
        d = dtype(I, st, args[0] if args else kw['dtype'])
        return new_arr(I, st, astype(d, af))
    if name == 'copy':
        return new_arr(I, st, af)
    if name == 'view':
        if not args:
            return o
        if ext_name(args[0]) in ('numpy.recarray', 'numpy.ndarray'):
            return o
        d = dtype(I, st, args[0])
        if af.k == 'arr' and contiguous(af) and len(af.a[3]) == 1:
            n = mul(af.a[3][0], itemsize(af.a[0]))
            q = pdiv_exact(n, itemsize(d)) or floordiv(n, itemsize(d))
            return arr(d, af.a[1], af.a[2], (q,))
        return mk('app', 'view', d, af, ty='arr')
    if name == 'item':
        sh = shape_of(af)
        if not args and sh is not None and all(is_c(x) and cv(x) == 1 for x in sh):
            return element(af, tuple(ZERO for _ in sh))
    if name == 'squeeze':
        return squeeze(I, st, af, args[0] if args else kw.get('axis'))
    if name == 'tolist':
        sh = shape_of(af)
        if sh is not None and len(sh) == 1:
            f = fresh()
            return I.alloc(st, 'list', {'items': lst(spl(tab(f, sh[0], element(af, (ixvar(f),)))))
                                        if not is_c(sh[0]) or cv(sh[0]) > 16 else tab(f, sh[0], element(af, (ixvar(f),)))})
    if name == 'tobytes' and af.k == 'arr' and contiguous(af):
        return bs(af.a[1], af.a[2], mul(itemsize(af.a[0]), prod(af.a[3])))
    if name == 'fill':
        I.put(st, o, 'c', full(dtype_of(af), shape_of(af), np_wrap(dtype_of(af), args[0])))
        return NONE
    if name == 'item' and args:
        return getitem(I, st, o, args[0] if len(args) == 1 else tup(*args))
    x = [I.freeze(st, q) for q in args]
    for k in sorted(kw):
        x += [C(k + '='), I.freeze(st, kw[k])]
    if name == 'clip':
        return new_arr(I, st, app('clip', af, *x, ty='arr'))
    if name == '__getitem__':
        return getitem(I, st, o, args[0])
    d = dtype_of(af)
    ty = None
    if name in ('sum', 'max', 'min', 'prod') and not x:
        if name == 'sum' and af.k == 'full' and is_int(af.a[2]):
            return mul(prod(af.a[1]), TM._num(af.a[2]))
        ty = 'int' if d is None or d.k == 'dt' and d.a[0].lstrip('>')[0] in 'iub' else 'float'
    if name in ('any', 'all') and not x:
        return opaque_atom('np:' + name, af)
    if name in ('cumsum', 'sum', 'any', 'all', 'nonzero', 'repeat', 'transpose', 'round', 'max', 'min'):
        ty = ty or 'arr'
    if name == 'count_nonzero':
        ty = 'int'
    if name == 'sort':
        I.put(st, o, 'c', app('np:sort', af, ty='arr'))
        return NONE
    return app('np:' + name, af, *x, ty=ty or 'obj')
