"""Models of the library the analysed code is written against.

python builtins, struct, io, numpy, the numpy and array C API.  Every model maps value
terms to value terms.  What has no model becomes an uninterpreted function of its
arguments (`call:name`), which is compared by congruence only.
"""
import math
import struct as _struct

from .terms import *
from . import terms as TM
from . import interp as IN
from .interp import (Dead, State, Cell, UNDEF, EMPTY, dstore, lst, mkdict, ext, native, bm, bb, ref, FUNCS, CLASSES,
                     OBJCLS, contains_ref)
from .loops import tab, subst_ix, clamp0

BUILTINS = {'__cast__', '__addr__'}
TM.NONNULL |= {'arr', 'gen', 'dict', 'list', 'bytes', 'buf', 'ext', 'exc', 'super', 'ellipsis', 'slice', 'obj'}
TM.NONNULL -= {'obj'}


# --------------------------------------------------------------------------- helpers
def imin(a, b):
    return ite(lt(b, a), b, a)


def imax(a, b):
    return ite(lt(a, b), b, a)


def fnum(name, *args):
    if name == 'Mult' and len(args) == 2:
        for x, y in (args, args[::-1]):
            if is_c(y) and isinstance(cv(y), (int, float)) and not is_c(x):
                if cv(y) == -1:
                    return fnum('USub', x)
                if cv(y) == 1 and x.ty == 'float':
                    return x
    if name == 'USub' and args[0].k == 'app' and args[0].a[0] == 'f:USub':
        return args[0].a[1]
    return app('f:' + name, *args, ty='float')


def is_num(t):
    return is_int(t) or t.ty == 'float'


def as_int(I, st, v):
    """integer value or None"""
    if v.k == 'ite':
        return lift('as_int', lambda x: x if is_int(x) else _as_int(x), v)
    return _as_int(v)


def _as_int(v):
    if v.ty == 'bool':
        return TM._num(v)
    if v.ty == 'int':
        return v
    if v is UNDEF or v.ty == 'undef':
        return v
    if v.k == 'c' and isinstance(cv(v), float):
        return C(int(cv(v)))
    return app('int', v, ty='int')


def to_float(v, kind):
    def f(x):
        if x.k == 'c' and isinstance(cv(x), (int, float)):
            return C(float(cv(x)))
        if x.ty == 'float':
            return x
        return app('float', x, ty='float')
    return lift('to_float', f, v)


DTN = {'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8', 'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4',
       'uint64': 'u8', 'float16': 'f2', 'float32': 'f4', 'float64': 'f8', 'bool': 'b1', 'bool_': 'b1', 'int': 'i8',
       'float': 'f8', 'B': 'u1', 'b': 'i1', 'h': 'i2', 'H': 'u2', 'i': 'i4', 'I': 'u4', 'q': 'i8', 'Q': 'u8',
       'l': 'i8', 'L': 'u8', 'f': 'f4', 'd': 'f8', 'e': 'f2', '?': 'b1', 'uint': 'u8', 'float_': 'f8', 'double': 'f8',
       'single': 'f4', 'short': 'i2', 'ushort': 'u2', 'intc': 'i4', 'uintc': 'u4', 'ubyte': 'u1', 'byte': 'i1',
       'longlong': 'i8', 'ulonglong': 'u8', 'half': 'f2', 'intp': 'i8', 'uintp': 'u8', 'bool8': 'b1'}
for _k in 'i1 i2 i4 i8 u1 u2 u4 u8 f2 f4 f8 b1'.split():
    DTN[_k] = _k
SIZES = {k: int(k[1]) for k in 'i1 i2 i4 i8 u1 u2 u4 u8 f2 f4 f8 b1'.split()}
CNAME = {'i1': 'int8_t', 'i2': 'int16_t', 'i4': 'int32_t', 'i8': 'int64_t',
         'u1': 'uint8_t', 'u2': 'uint16_t', 'u4': 'uint32_t', 'u8': 'uint64_t'}
NPY = {'NPY_INT8': 'i1', 'NPY_INT16': 'i2', 'NPY_INT32': 'i4', 'NPY_INT64': 'i8', 'NPY_UINT8': 'u1',
       'NPY_UINT16': 'u2', 'NPY_UINT32': 'u4', 'NPY_UINT64': 'u8', 'NPY_FLOAT32': 'f4', 'NPY_FLOAT64': 'f8',
       'NPY_FLOAT': 'f4', 'NPY_DOUBLE': 'f8', 'NPY_INT': 'i4', 'NPY_UINT': 'u4', 'NPY_LONG': 'i8', 'NPY_BOOL': 'b1',
       'NPY_SHORT': 'i2', 'NPY_USHORT': 'u2', 'NPY_UBYTE': 'u1', 'NPY_ULONG': 'u8', 'NPY_LONGLONG': 'i8'}
CTYPE_DT = {'float': 'f4', 'double': 'f8', 'uint8_t': 'u1', 'uint16_t': 'u2', 'uint32_t': 'u4', 'uint64_t': 'u8',
            'int8_t': 'i1', 'int16_t': 'i2', 'int32_t': 'i4', 'int64_t': 'i8', 'char': 'i1', 'unsigned char': 'u1',
            'short': 'i2', 'unsigned short': 'u2', 'int': 'i4', 'unsigned int': 'u4', 'long': 'i8',
            'unsigned long': 'u8', 'size_t': 'u8', 'Py_ssize_t': 'i8', 'long long': 'i8', 'bint': 'i4'}


def dt_name(s):
    """canonical dtype name of a numpy dtype string or None"""
    big = s[:1] == '>'
    if s[:1] in '<>=|':
        s = s[1:]
    r = DTN.get(s)
    if r is None:
        return None
    if big and SIZES[r] > 1:
        return '>' + r
    return r


def dtn(s):
    return mk('dt', s, ty='dtype')


def sdt(fields, size):
    """structured dtype: fields ((name, dt, offset, shape), ...)"""
    return mk('sdt', tuple(fields), size, ty='dtype')


TM.REBUILD['dt'] = lambda t, new: t
TM.REBUILD['sdt'] = lambda t, new: sdt(new[0], new[1])


def itemsize(dt):
    if dt.k == 'dt':
        return C(SIZES[dt.a[0].lstrip('>')])
    if dt.k == 'sdt':
        return dt.a[1]
    return app('itemsize', dt, ty='int', rng=(0, math.inf))


def prod(shape):
    r = ONE
    for x in shape:
        r = mul(r, x)
    return r


# --------------------------------------------------------------------------- bytes
def bs(buf, off, n):
    if is_c(n) and cv(n) == 0:
        return C(b'')
    if buf.k == 'c':
        if is_c(off) and is_c(n):
            return C(cv(buf)[cv(off):cv(off) + cv(n)])
    return lift('bs', lambda b, o, l: mk('bs', b, o, l, ty='bytes'), buf, off, n)


def _rb_bs(t, new):
    if new[0].k == 'bs':
        return bs(new[0].a[0], add(new[0].a[1], new[1]), new[2])
    return bs(*new)


TM.REBUILD['bs'] = _rb_bs
SIGNED = {'i1': ('int8_t', 'u1'), 'i2': ('int16_t', 'u2'), 'i4': ('int32_t', 'u4'), 'i8': ('int64_t', 'u8')}


class Facts(dict):
    """what is assumed about contents; terms built under other assumptions are forgotten"""

    def __setitem__(self, k, v):
        if k not in self or self[k] != v:
            forget()
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        forget()
        dict.__delitem__(self, k)

    def clear(self):
        if self:
            forget()
        dict.clear(self)

    def pop(self, k, *d):
        if k in self:
            forget()
        return dict.pop(self, k, *d)


def forget():
    TM._lift_memo.clear()
    TM._restrict_memo.clear()


# bytes at the start of a buffer that are known
PREFIX = Facts()
# bytes anywhere in a buffer that are known: offset -> byte
KNOWN = Facts()


def dec(d, buf, off):
    """value of type d at offset off of a buffer"""
    if buf.k == 'bs':
        return dec(d, buf.a[0], add(buf.a[1], off))
    if buf.k == 'ite' or off.k == 'ite':
        return lift('dec' + d, lambda b, o: dec(d, b, o), buf, off)
    big = d.startswith('>')
    dd = d.lstrip('>')
    if is_c(off) and (buf.k == 'c' or buf in PREFIX or buf in KNOWN):
        if buf in KNOWN:
            mem = KNOWN[buf]
            raw = bytes(mem[k] for k in range(cv(off), cv(off) + SIZES[dd]) if k in mem)
        else:
            raw = (cv(buf) if buf.k == 'c' else PREFIX[buf])[cv(off):cv(off) + SIZES[dd]]
        if len(raw) == SIZES[dd]:
            ch = {'i1': 'b', 'i2': 'h', 'i4': 'i', 'i8': 'q', 'u1': 'B', 'u2': 'H', 'u4': 'I', 'u8': 'Q', 'f4': 'f', 'f8': 'd',
                  'f2': 'e', 'b1': '?'}[dd]
            return C(_struct.unpack(('>' if big else '<') + ch, raw)[0])
    p = '>' if big else ''
    if dd in SIGNED:
        ct, u = SIGNED[dd]
        return wrap(ct, dec(p + u, buf, off))
    if dd == 'b1':
        return not_(eq(dec('u1', buf, off), ZERO))
    if dd[0] == 'u':
        return mk('dec', d, buf, off, ty='int', rng=(0, (1 << 8 * SIZES[dd]) - 1))
    return mk('dec', d, buf, off, ty='float')


TM.DEC = dec


TM.REBUILD['dec'] = lambda t, new: dec(new[0], new[1], new[2])


def vu(buf, off):
    """unsigned variable length integer at offset"""
    if buf.k == 'bs':
        return vu(buf.a[0], add(buf.a[1], off))
    return lift('vu', lambda b, o: mk('vu', b, o, ty='int', rng=(0, (1 << 64) - 1)), buf, off)


def vl(buf, off):
    """its length in bytes"""
    if buf.k == 'bs':
        return vl(buf.a[0], add(buf.a[1], off))
    return lift('vl', lambda b, o: mk('vl', b, o, ty='int', rng=(1, 9)), buf, off)


def vn(buf, off, n):
    """length of n consecutive variable length integers"""
    if buf.k == 'bs':
        return vn(buf.a[0], add(buf.a[1], off), n)

    def f(b, o, k):
        if is_c(k) and 0 <= cv(k) <= 4:
            r = ZERO
            for _ in range(cv(k)):
                r = add(r, vl(b, add(o, r)))
            return r
        return mk('vn', b, o, k, ty='int', rng=(0, math.inf))
    return lift('vn', f, buf, off, n)


TM.REBUILD['vu'] = lambda t, new: vu(*new)
TM.REBUILD['vl'] = lambda t, new: vl(*new)
TM.REBUILD['vn'] = lambda t, new: vn(*new)


def zigzag(u):
    odd = eq(bits_of(u, 0, 1), ONE)
    h = bits_of(u, 1, None)
    return ite(odd, sub(neg(h), ONE), h)


def blen(I, st, v):
    """length of a bytes-like term"""
    if v.k == 'bs':
        return v.a[2]
    if v.k == 'c':
        return C(len(cv(v)))
    if v.k == 'app' and v.a[0] == 'cat':
        return add_n(*[blen(I, st, x) for x in v.a[1:]])
    return app('len', v, ty='int', rng=(0, math.inf))


def cat(*xs):
    out = []
    for x in xs:
        parts = x.a[1:] if x.k == 'app' and x.a[0] == 'cat' else (x,)
        for y in parts:
            if y.k == 'c' and cv(y) == b'':
                continue
            if out and out[-1].k == 'c' and y.k == 'c':
                out[-1] = C(cv(out[-1]) + cv(y))
                continue
            if out and out[-1].k == 'bs' and y.k == 'bs' and out[-1].a[0] is y.a[0] and add(
                    out[-1].a[1], out[-1].a[2]) is y.a[1]:
                out[-1] = bs(y.a[0], out[-1].a[1], add(out[-1].a[2], y.a[2]))
                continue
            out.append(y)
    if not out:
        return C(b'')
    if len(out) == 1:
        return out[0]
    return raw('cat', *out, ty='bytes')


TM.REBUILD['app:cat'] = lambda t, new: cat(*new[1:])


def bytes_of(I, st, v):
    """immutable content of a bytes-like value"""
    if v.k == 'ref':
        c = I.cell(st, v)
        if c.kind == 'ba':
            return c.s['c']
        if c.kind == 'arr':
            return app('tobytes', I.freeze(st, v), ty='bytes')
    if v.k == 'memv':
        return bytes_of(I, st, v.a[0])
    return v


# --------------------------------------------------------------------------- arrays
def strides_of(dt, shape):
    s, out = itemsize(dt), []
    for x in reversed(shape):
        out.append(s)
        s = mul(s, x)
    return tuple(reversed(out))


def arr(dt, buf, off, shape, strides=None):
    """array over a buffer"""
    if strides is None:
        strides = strides_of(dt, shape)
    if buf.k == 'bs':
        return arr(dt, buf.a[0], add(buf.a[1], off), shape, strides)
    if buf.k == 'ite' or off.k == 'ite':
        return lift('arr%d' % mk('k', dt, tuple(shape), tuple(strides)).id,
                    lambda b, o: arr(dt, b, o, shape, strides), buf, off)
    for x in shape:
        if x.k == 'ite':
            sh = tup(*shape)
            return lift('arrs%d' % mk('k', dt, buf, off, tuple(strides)).id,
                        lambda *s: arr(dt, buf, off, s, strides), *shape)
    return mk('arr', dt, buf, off, tuple(shape), tuple(strides), ty='arr')


TM.REBUILD['arr'] = lambda t, new: arr(*new)


def full(dt, shape, v):
    for x in shape:
        if x.k == 'ite':
            return lift('full%d' % mk('k', dt).id, lambda w, *s: full(dt, s, w), v, *shape)
    return mk('full', dt, tuple(shape), v, ty='arr')


TM.REBUILD['full'] = lambda t, new: full(*new)


def atab(dt, n, item, d):
    """one dimensional array of computed items (ix#d bound)"""
    t = tab(d, n, item)
    return _atab(dt, t)


def _atab(dt, t):
    if t.k == 'tab':
        d, n, item = t.a
        ixv = mk('sym', 'ix#%d' % d, ty='int', rng=(0, math.inf))
        x = item
        if dt.k == 'dt' and dt.a[0] in SIGNED and x.k == 'wrap' and x.a[0] == SIGNED[dt.a[0]][0]:
            x = x.a[1]
            want = SIGNED[dt.a[0]][1]
        else:
            want = dt.a[0] if dt.k == 'dt' else None
        if x.k == 'dec' and x.a[0] == want:
            o0 = subst_ix(x.a[2], d, ZERO)
            if add(o0, mul(itemsize(dt), ixv)) is x.a[2]:
                return arr(dt, x.a[1], o0, (n,))
        if not any(q is ixv for q in free_of(item)):
            return full(dt, (n,), item)
    return mk('atab', dt, t, ty='arr')


def free_of(t):
    from .loops import free
    return free(t)


TM.REBUILD['atab'] = lambda t, new: _atab(new[0], new[1])


def dtype_of(a):
    if a.k in ('ite', 'app', 'at'):
        r = _memo_dtype_of.get(a, _memo_dtype_of)
        if r is _memo_dtype_of:
            r = _memo_dtype_of[a] = _dtype_of(a)
        return r
    return _dtype_of(a)


_memo_dtype_of = {}


def _dtype_of(a):
    if a.k in ('arr', 'full'):
        return a.a[0]
    if a.k == 'atab':
        return a.a[0]
    if a.k == 'ite':
        d1, d2 = dtype_of(a.a[1]), dtype_of(a.a[2])
        return d1 if d1 is d2 else None
    if a.k == 'app':
        op = a.a[0]
        if op in ('astype', 'view'):
            return a.a[1]
        if op in ('store', 'fstore', 'reshape', 'mask', 'ewi', 'sub', 'squeeze', 'clip', 'setall'):
            return dtype_of(a.a[1])
        if op == 'dvar':
            return dtn('u4')
        if op == 'recarrays':
            d = dtype_of(a.a[2])
            if d is None or d.k != 'dt' or not all(is_c(n) for n in a.a[1].a):
                return None
            size = int(cv(itemsize(d)))
            return sdt([(cv(n), d, C(k * size), ()) for k, n in enumerate(a.a[1].a)], C(size * len(a.a[1].a)))
        if op == 'np:cumsum' and len(a.a) == 2:
            d = dtype_of(a.a[1])
            if d is not None and d.k == 'dt' and d.a[0][0] in 'iu':
                return dtn(d.a[0][0] + '8')
            return d
        if op.startswith('ew:'):
            if op[3:] in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE', 'Not', 'truth'):
                return dtn('b1')
            ds = [dtype_of(x) for x in a.a[1:] if x.ty == 'arr']
            if ds and all(d is ds[0] for d in ds):
                if op[3:] == 'Div' and ds[0] is not None and ds[0].k == 'dt' and ds[0].a[0][0] in 'iu':
                    return dtn('f8')
                return ds[0]
            return None
        if op == 'field':
            d = dtype_of(a.a[1])
            if d is not None and d.k == 'sdt':
                for n, fd, o, s in d.a[0]:
                    if C(n) is a.a[2]:
                        return fd
    if a.k == 'at':
        return dtype_of(a.a[2])
    if a.k == 'mu':
        return a.a[3][0] if a.ty == 'arr' and a.a[3] is not None else None
    return None


def shape_of(a):
    if a.k in ('ite', 'app', 'at'):
        r = _memo_shape_of.get(a, _memo_shape_of)
        if r is _memo_shape_of:
            r = _memo_shape_of[a] = _shape_of(a)
        return r
    return _shape_of(a)


_memo_shape_of = {}


def _shape_of(a):
    """tuple of dimensions or None"""
    if a.k == 'arr':
        return a.a[3]
    if a.k == 'full':
        return a.a[1]
    if a.k == 'atab':
        t = a.a[1]
        return (t.a[1],) if t.k == 'tab' else None
    if a.k == 'ite':
        s1, s2 = shape_of(a.a[1]), shape_of(a.a[2])
        if s1 is None or s2 is None or len(s1) != len(s2):
            return None
        return tuple(ite(TM.atom_b(a.a[0]), x, y) for x, y in zip(s1, s2))
    if a.k == 'app':
        op = a.a[0]
        if op == 'astype' or op == 'view':
            return shape_of(a.a[2])
        if op in ('store', 'fstore', 'clip', 'setall'):
            return shape_of(a.a[1])
        if op == 'np:cumsum' and len(a.a) == 2:
            s = shape_of(a.a[1])
            return s if s is not None and len(s) == 1 else None
        if op in ('reshape', 'squeeze', 'sub'):
            return a.a[2].a
        if op == 'dvar':
            return (a.a[3], a.a[4])
        if op.startswith('ew:'):
            best = None
            for x in a.a[1:]:
                if x.ty == 'arr':
                    s = shape_of(x)
                    if s is None:
                        return None
                    if best is None or len(s) > len(best):
                        best = s
            return best
        if op == 'recarrays':
            s = shape_of(a.a[2])
            return tuple(s[1:]) if s else None
        if op == 'field':
            s = shape_of(a.a[1])
            d = dtype_of(a.a[1])
            if s is None or d is None or d.k != 'sdt':
                return None
            for n, fd, o, fs in d.a[0]:
                if C(n) is a.a[2]:
                    return tuple(s) + tuple(fs)
        if op == 'mask':
            return (app('nz', a.a[2], ty='int', rng=(0, math.inf)),)
    if a.k == 'at':
        return shape_of(a.a[2])
    if a.k == 'mu':
        return a.a[3][1] if a.ty == 'arr' and a.a[3] is not None else None
    return None


def np_wrap(dt, v):
    """conversion of a scalar stored into an array"""
    if dt is None or dt.k != 'dt':
        return v
    n = dt.a[0].lstrip('>')
    if n in CNAME and is_int(v):
        return wrap(CNAME[n], v)
    if n in CNAME and v.ty == 'float':
        return app('int', v, ty='int')
    if n[0] == 'f':
        return lift('np_f', lambda x: x if x.ty == 'float' else C(float(cv(x))) if x.k == 'c' and isinstance(cv(x), int)
                    else app('float', x, ty='float') if is_int(x) else x, v)
    return v


def element(a, idx):
    """a[i, j, ..] with scalar indices (all dimensions)"""
    return lift('element%d' % len(idx), _element, a, *idx)


def _element(a, *idx):
    sh = shape_of(a)
    idx = tuple(add(sh[k], i) if sh is not None and is_c(i) and int(cv(i)) < 0 else TM._num(i)
                for k, i in enumerate(idx))
    if a.k == 'arr':
        off = a.a[2]
        for i, s in zip(idx, a.a[4]):
            off = add(off, mul(i, s))
        d = a.a[0]
        if d.k == 'dt':
            return dec(d.a[0], a.a[1], off)
        return mk('arr', d, a.a[1], off, (), (), ty='arr')
    if a.k == 'full':
        return a.a[2]
    if a.k == 'atab' and a.a[1].k == 'tab':
        return subst_ix(a.a[1].a[2], a.a[1].a[0], idx[0])
    if a.k == 'app':
        op = a.a[0]
        if op == 'recarrays' and len(idx) == 1 and a.a[2].k == 'arr' and len(a.a[2].a[3]) == 2:
            d, buf, off, shape, strides = a.a[2].a
            return mk('app', 'recarrays', a.a[1], arr(d, buf, add(off, mul(idx[0], strides[1])), shape[:1], strides[:1]), ty='arr')
        if op == 'store':
            c = TRUE
            want = a.a[2].a
            if len(want) == len(idx):
                for x, y in zip(want, idx):
                    c = and_(c, eq(x, y))
                if c is TRUE:
                    return a.a[3]
                if c is FALSE:
                    return element(a.a[1], idx)
        if op == 'astype':
            v = element(a.a[2], idx)
            d = a.a[1]
            if d.k == 'dt':
                return np_wrap(d, v)
        if op == 'reshape' or op == 'squeeze':
            r = unreshape(a, idx)
            if r is not None:
                return element(a.a[1], r)
        if op.startswith('ew:') and op[3:] in EWOPS:
            args = []
            for x in a.a[1:]:
                if x.ty == 'arr':
                    s = shape_of(x)
                    if s is None or sh is None or len(s) != len(sh) or any(p is not q for p, q in zip(s, sh)):
                        break
                    args.append(element(x, idx))
                else:
                    args.append(x)
            else:
                r = EWOPS[op[3:]](*args)
                if r is not None:
                    d = dtype_of(a)
                    return np_wrap(d, r) if d is not None else r
        if op == 'field':
            d = dtype_of(a.a[1])
    d = dtype_of(a)
    ty, r = 'obj', None
    if d is not None and d.k == 'dt':
        n = d.a[0].lstrip('>')
        if n in CNAME:
            ty, r = 'int', ct_rng(CNAME[n])
        elif n[0] == 'f':
            ty = 'float'
        elif n == 'b1':
            return opaque_atom('el', a, *idx)
    elif d is not None:
        ty = 'arr'
    return app('el', a, *idx, ty=ty, rng=r)


EWOPS = {
    'Add': lambda a, b: add(a, b) if is_int(a) and is_int(b) else None,
    'Sub': lambda a, b: sub(a, b) if is_int(a) and is_int(b) else None,
    'Mult': lambda a, b: mul(a, b) if is_int(a) and is_int(b) else None,
    'BitAnd': lambda a, b: band(a, b) if is_int(a) and is_int(b) else None,
    'BitOr': lambda a, b: bor(a, b) if is_int(a) and is_int(b) else None,
    'LShift': lambda a, b: shl(a, b) if is_int(a) and is_c(b) else None,
    'RShift': lambda a, b: shr(a, b) if is_int(a) and is_c(b) else None,
    'NotEq': lambda a, b: not_(eq(a, b)),
    'Eq': lambda a, b: eq(a, b),
    'Lt': lambda a, b: lt(a, b),
    'Gt': lambda a, b: lt(b, a),
    'LtE': lambda a, b: not_(lt(b, a)),
    'GtE': lambda a, b: not_(lt(a, b)),
    'truth': lambda a: truth(a),
}


def _rb_app_el(t, new):
    return element(new[1], new[2:])


TM.REBUILD['app:el'] = _rb_app_el


def unreshape(a, idx):
    """index into the base of a reshaped array"""
    s0 = shape_of(a.a[1])
    s1 = a.a[2].a
    if s0 is None:
        return None
    # same leading dimensions, trailing 1 added or removed
    if len(s0) == len(s1) + 1 and all(x is y for x, y in zip(s0, s1)):
        return tuple(idx) + (ZERO,)
    if len(s0) == 1:
        lin = ZERO
        for i, n in zip(idx, s1):
            lin = add(mul(lin, n), i)
        return (lin,)
    # leading dimension split: (a*b, c) -> (a, b, c)
    if len(s0) == len(s1) - 1 and s0[-1] is s1[-1] and len(s0) == 2:
        return (add(mul(idx[0], s1[1]), idx[1]), idx[2])
    return None


def subarray(a, idx):
    """a[i] with fewer indices than dimensions"""
    def f(a, *idx):
        sh = shape_of(a)
        if sh is None:
            return app('sub?', a, *idx, ty='arr')
        if len(idx) == len(sh):
            return element(a, idx)
        if a.k == 'arr':
            off = a.a[2]
            for k, (i, s) in enumerate(zip(idx, a.a[4])):
                if is_c(i) and int(cv(i)) < 0:
                    i = add(i, sh[k])
                off = add(off, mul(TM._num(i), s))
            return arr(a.a[0], a.a[1], off, sh[len(idx):], a.a[4][len(idx):])
        if a.k == 'full':
            return full(a.a[0], sh[len(idx):], a.a[2])
        if a.k == 'app' and a.a[0] == 'astype':
            return astype(a.a[1], subarray(a.a[2], idx))
        return mk('app', 'sub', a, tup(*sh[len(idx):]), tup(*idx), ty='arr')
    return lift('subarray%d' % len(idx), f, a, *idx)


def _rb_sub(t, new):
    return subarray(new[1], new[3].a)


TM.REBUILD['app:sub'] = _rb_sub


def astype(dt, a):
    def f(a):
        d = dtype_of(a)
        if d is dt:
            return a
        if a.k == 'full' and dt.k == 'dt':
            return full(dt, a.a[1], np_wrap(dt, a.a[2]))
        if a.k == 'atab' and a.a[1].k == 'tab' and dt.k == 'dt':
            t = a.a[1]
            return atab(dt, t.a[1], np_wrap(dt, t.a[2]), t.a[0])
        return mk('app', 'astype', dt, a, ty='arr')
    return lift('astype%d' % dt.id, f, a)


TM.REBUILD['app:astype'] = lambda t, new: astype(new[1], new[2])


def reshape(I, st, a, shape):
    shape = [TM._num(s) for s in shape]

    def f(a, *shape):
        sh = shape_of(a)
        shape = list(shape)
        size = prod(sh) if sh is not None else app('size', a, ty='int', rng=(0, math.inf))
        for k, s in enumerate(shape):
            if is_c(s) and int(cv(s)) == -1:
                rest = prod(shape[:k] + shape[k + 1:])
                shape[k] = floordiv(size, rest)
        if sh is not None and len(sh) == len(shape) and all(x is y for x, y in zip(sh, shape)):
            return a
        if a.k == 'arr' and contiguous(a):
            return arr(a.a[0], a.a[1], a.a[2], tuple(shape))
        if a.k == 'full':
            return full(a.a[0], tuple(shape), a.a[2])
        if a.k == 'app' and a.a[0] == 'reshape':
            return reshape_raw(a.a[1], shape)
        if a.k == 'app' and a.a[0] == 'astype':
            return astype(a.a[1], f(a.a[2], *shape))
        return reshape_raw(a, shape)
    return lift('reshape%d' % len(shape), f, a, *shape)


def reshape_raw(a, shape):
    sh = shape_of(a)
    if sh is not None and len(sh) == len(shape) and all(x is y for x, y in zip(sh, shape)):
        return a
    return mk('app', 'reshape', a, tup(*shape), ty='arr')


TM.REBUILD['app:reshape'] = lambda t, new: reshape(None, None, new[1], new[2].a)


def contiguous(a):
    return tuple(a.a[4]) == tuple(strides_of(a.a[0], a.a[3]))


def field(I, st, a, name):
    """named field of a structured array or record"""
    def f(a):
        d = dtype_of(a)
        if a.k == 'app' and a.a[0] == 'fstore':
            if a.a[2] is C(name):
                return a.a[3]
            return field(I, st, a.a[1], name)
        if a.k == 'app' and a.a[0] == 'astype' and d.k == 'sdt':
            for n, fd, o, s in d.a[0]:
                if n == name:
                    return astype(fd, field(I, st, a.a[2], name))
        if a.k == 'app' and a.a[0] == 'recarrays':
            names = a.a[1].a
            if C(name) in names:
                return subarray(a.a[2], (C(names.index(C(name))),))
        if d is not None and d.k == 'sdt':
            for n, fd, o, s in d.a[0]:
                if n == name:
                    if a.k == 'arr':
                        return arr_or_scalar(fd, a.a[1], add(a.a[2], o), tuple(a.a[3]) + tuple(s),
                                             tuple(a.a[4]) + strides_of(fd, s))
                    if a.k == 'full':
                        return full(fd, tuple(a.a[1]) + tuple(s), a.a[2])
                    return mk('app', 'field', a, C(name), ty='arr')
            if I is not None:
                I.throw(st, I.exc('ValueError', C('no field of name ' + name)))
        return mk('app', 'field', a, C(name), ty='arr')
    return lift('field' + name, f, a)


TM.REBUILD['app:field'] = lambda t, new: field(None, None, new[1], cv(new[2]))


def arr_or_scalar(dt, buf, off, shape, strides):
    if not shape and dt.k == 'dt':
        return dec(dt.a[0], buf, off)
    return arr(dt, buf, off, shape, strides)


def ew(op, *args):
    """elementwise operation"""
    def f(*args):
        if op in ('Mult', 'Add', 'BitAnd', 'BitOr', 'Eq', 'NotEq') and len(args) == 2:
            args = tuple(sorted(args, key=lambda t: t.id))
        arrs = [x for x in args if x.ty == 'arr']
        if len(arrs) == len(args) == 1 or (len(args) == 2 and len(arrs) >= 1):
            if all(x.k == 'full' for x in arrs) and op in EWOPS:
                vals = [x.a[2] if x.k == 'full' else x for x in args]
                r = EWOPS[op](*vals)
                if r is not None:
                    d = dtn('b1') if op in ('Eq', 'NotEq', 'Lt', 'Gt', 'LtE', 'GtE') else arrs[0].a[0]
                    return full(d, arrs[0].a[1], r)
        return mk('app', 'ew:' + op, *args, ty='arr')
    return lift('ew' + op, f, *args)


def _rb_ew(t, new):
    return ew(new[0][3:], *new[1:])


for _op in list(EWOPS) + ['Div', 'Mod', 'Pow', 'FloorDiv', 'BitXor', 'Invert', 'Not', 'USub', 'pow', 'clip', 'where']:
    TM.REBUILD['app:ew:' + _op] = _rb_ew


def store(a, idx, v):
    """array with one element replaced"""
    def f(a, v, idx):
        top = min((x.a[0] for x in (a,) + idx if x.k == 'ite'), key=lambda t: t.id, default=None)
        if top is not None:
            return TM.mk_ite(top, *[f(TM.cof(a, top, b), restrict(v, top, b), tuple(TM.cof(x, top, b) for x in idx))
                                    for b in (True, False)])
        if idx and a.k == 'app' and a.a[0] == 'store' and a.a[2].a == idx:
            a = a.a[1]
        return mk('app', 'store', a, tup(*idx), v, ty='arr')
    return f(a, v, tuple(TM._num(i) for i in idx))


TM.REBUILD['app:store'] = lambda t, new: store(new[1], new[2].a, new[3])


# --------------------------------------------------------------------------- conditions on counts
def _zero_count(atom, hi, lo):
    """reading zero elements is the same as not reading: (q == 0 ? f(0) : f(q)) = f(q)"""
    if atom.a[0] != 'eq' or atom.a[2] != 0:
        return None
    q = atom.a[1]
    if TM.is_int(hi) and TM.is_int(lo) and hi.k != 'ite' and lo.k != 'ite' and hi.ty == 'int' and lo.ty == 'int':
        d = sub(lo, hi)
        if d is not ZERO and not is_c(d):
            if q.k == 'poly' and len(q.a[0]) > 1:
                return None
            e = pdiv(d, q)
            if e is not None:
                return lo
    if hi.k == 'full' and len(hi.a[1]) == 1 and hi.a[1][0] is ZERO and lo.ty == 'arr' and lo.k in ('arr', 'full', 'atab'):
        sh = shape_of(lo)
        if sh is not None and len(sh) == 1 and dtype_of(lo) is hi.a[0] and (
                sh[0] is q or pdiv(sh[0], q) is not None):
            return lo
    return None


TM.PATTERNS.append(_zero_count)


def _bit_count(atom, hi, lo):
    """counting of set bits: (m if bit == 0 else m + 1) is m + bit"""
    if atom.a[0] == 'eq' and atom.a[2] == 0 and atom.a[1].k == 'bits' and atom.a[1].a[2] == 1:
        if hi is ZERO and lo is ONE:
            return atom.a[1]
        if hi.ty == lo.ty == 'int' and hi.k in ('poly', 'bits') and lo.k == 'poly' and rng(hi)[1] < 64 and (
                hi.k == 'bits' and hi.a[2] == 1 or hi.k == 'poly' and all(
                    len(m) == 1 and m[0].k == 'bits' and m[0].a[2] == 1 for m, _ in hi.a[0])) and sub(lo, hi) is ONE:
            return add(hi, atom.a[1])
    return None


TM.PATTERNS.append(_bit_count)


def _cond_store(atom, hi, lo):
    """conditional assignment of one element"""
    for a, b, flip in ((hi, lo, False), (lo, hi, True)):
        if a.k == 'app' and a.a[0] == 'store':
            base, k = a.a[1], 0
            while base is not b and base.k == 'app' and base.a[0] == 'store' and k < 8:
                base, k = base.a[1], k + 1
            if base is not b:
                continue
            idx = a.a[2].a
            sh = shape_of(b)
            if sh is not None and len(sh) == len(idx):
                v, w = a.a[3], element(b, idx)
                c = TM.atom_b(atom)
                inner = ite(c, b, a.a[1]) if flip else ite(c, a.a[1], b)
                if inner.k == 'ite':
                    return None
                return store(inner, idx, ite(c, w, v) if flip else ite(c, v, w))
            return None
    if hi.k == lo.k == 'app' and hi.a[0] == lo.a[0] == 'store' and hi.a[1:3] == lo.a[1:3]:
        return store(hi.a[1], hi.a[2].a, ite(TM.atom_b(atom), hi.a[3], lo.a[3]))
    return None


TM.PATTERNS.append(_cond_store)


# --------------------------------------------------------------------------- sequences
class Seq:
    proto = False       # item calls __next__, StopIteration ends the sequence

    def __init__(self, n, item):
        self.n, self._item = n, item

    def item(self, I, st, ix):
        return self._item(I, st, ix)


def list_term(I, st, v):
    """list/tuple term of a sequence value or None"""
    if v.k == 'ref':
        c = I.cell(st, v)
        if c.kind == 'list':
            return c.s['items']
        return None
    if v.k == 'app' and v.a[0] == 'gen' and len(v.a) > 1 and isinstance(v.a[1], T):
        return list_term(I, st, v.a[1])
    if v.k in ('list', 'tup'):
        return v
    if v.ty == 'list':
        return v
    if v.k == 'app' and v.a[0] in ('tuple', 'list') and len(v.a) == 2:
        return v.a[1]
    return None


def tlen(t):
    """length of a list term"""
    if t.k == 'ite':
        return lift('tlen', tlen, t)
    if t.k in ('list', 'tup'):
        r = ZERO
        for x in t.a:
            if x.k == 'app' and x.a[0] == 'spl':
                r = add(r, tlen(x.a[1]))
            else:
                r = add(r, ONE)
        return r
    if t.k == 'tab':
        return t.a[1]
    return app('len', t, ty='int', rng=(0, math.inf))


def titem(t, ix):
    """element of a list term"""
    return lift('titem', _titem, t, ix)


def _titem(t, ix):
    if t.k == 'tab':
        return subst_ix(t.a[2], t.a[0], ix)
    if t.k in ('list', 'tup'):
        if is_c(ix):
            k = int(cv(ix))
            if k < 0 and not any(x.k == 'app' and x.a[0] == 'spl' for x in t.a[k:]) and -k <= len(t.a):
                return t.a[k]
            for x in t.a:
                if x.k == 'app' and x.a[0] == 'spl':
                    break
                if k == 0:
                    return x
                k -= 1
        if len(t.a) == 1 and t.a[0].k == 'app' and t.a[0].a[0] == 'spl':
            return titem(t.a[0].a[1], ix)
        if len(t.a) == 1 and not (t.a[0].k == 'app' and t.a[0].a[0] == 'spl'):
            return t.a[0] if t.a[0].ty == 'int' else app('el', t, ix, ty=t.a[0].ty)
    tys = list_ty(t)
    if tys == 'bool':
        return opaque_atom('el', t, ix)
    return app('el', t, ix, ty=tys)


def list_ty(t):
    """type of the elements of a list term"""
    if t.k in ('list', 'tup') and t.a:
        out = set()
        for x in t.a:
            if x.k == 'app' and x.a[0] == 'spl':
                out.add(list_ty(x.a[1]))
            else:
                out.add(x.ty)
        out.discard(None)
        if len(out) == 1:
            return out.pop()
        return 'obj'
    if t.k == 'tab':
        return t.a[2].ty
    if t.k == 'at':
        return None
    return None


def spl(t):
    return mk('app', 'spl', t, ty='obj')


def cat_list(*ts):
    out = []
    for t in ts:
        if t.k == 'list' or t.k == 'tup':
            out += t.a
        else:
            out.append(spl(t))
    return lst(*out)


def _rb_list(t, new):
    out = []
    for x in new:
        if x.k == 'app' and x.a[0] == 'spl':
            y = x.a[1]
            if y.k in ('list', 'tup'):
                out += y.a
                continue
            if y.k == 'tab' and y.a[1] is ZERO:
                continue
            if y.k == 'tab' and is_c(y.a[1]) and 0 < cv(y.a[1]) <= 16:
                out += [subst_ix(y.a[2], y.a[0], C(q)) for q in range(cv(y.a[1]))]
                continue
            if y.k == 'ite':
                # gate around the list
                rest = list(new)
                k = rest.index(x)
                return ite(TM.atom_b(y.a[0]), _rb_list(t, rest[:k] + [spl(y.a[1])] + rest[k + 1:]),
                           _rb_list(t, rest[:k] + [spl(y.a[2])] + rest[k + 1:]))
        out.append(x)
    return lst(*out)


TM.REBUILD['list'] = _rb_list
TM.REBUILD['app:spl'] = lambda t, new: spl(new[1])


def list_append(I, st, r, v):
    def f(s, x):
        c = I.cell(s, x)
        if c.kind == 'ba':
            I.put(s, x, 'c', cat(c.s['c'], app('byte', v, ty='bytes')))
            return NONE
        items = c.s['items']
        w = v
        if c.meta.get('carr'):
            w = I.ctype(s, c.meta['carr'], v)
        I.put(s, x, 'items', lift('append%d' % w.id, lambda t: cat_list(t, lst(w)), items))
        return NONE
    return I.split(st, r, f)


def seq_term(I, st, v):
    """list term of any finite iterable"""
    v = ungate(I, st, v)
    if v.k == 'ite':
        return ite(TM.atom_b(v.a[0]), seq_term(I, st, v.a[1]), seq_term(I, st, v.a[2]))
    t = list_term(I, st, v)
    if t is not None:
        return t
    s = iterspec(I, st, v)
    if s.proto:
        return I.cell(st, materialise(I, st, v)).s['items']
    if s.n is None:
        raise Undecidable('sequence of unknown length')
    n = I.simp(st, s.n)
    if is_c(n):
        return lst(*[s.item(I, st, C(k)) for k in range(int(cv(n)))])
    from .loops import fresh
    d = fresh()
    ixv = mk('sym', 'ix#%d' % d, ty='int', rng=(0, math.inf))
    return lst(spl(tab(d, n, s.item(I, st, ixv))))


def list_extend(I, st, r, v):
    def g(s, vv):
        t = seq_term(I, s, vv)

        def f(s, x):
            c = I.cell(s, x)
            I.put(s, x, 'items', lift('extend', cat_list, c.s['items'], t))
            return NONE
        return I.split(s, r, f)
    return I.split(st, v, g)


def seq_items(I, st, x, n):
    """exactly n items (unpacking)"""
    t = list_term(I, st, x)
    if t is not None and t.k in ('list', 'tup') and not any(y.k == 'app' and y.a[0] == 'spl' for y in t.a):
        if len(t.a) != n:
            I.throw(st, I.exc('ValueError', C('unpack')))
        return list(t.a)
    if t is not None:
        t = I.simp(st, t)
        ln = tlen(t)
        if not I.happy or is_c(ln):
            I.throw(st, I.exc('ValueError', C('unpack')), not_(eq(ln, C(n))))
        return [titem(t, C(k)) for k in range(n)]
    if x.k == 'nt':
        return list(x.a[1].a)
    s = iterspec(I, st, x)
    if s.n is not None and is_c(s.n) and int(cv(s.n)) != n:
        I.throw(st, I.exc('ValueError', C('unpack')))
    return [s.item(I, st, C(k)) for k in range(n)]


def seq_all(I, st, v):
    t = I.simp(st, seq_term(I, st, I.simp(st, v)))
    if t.k == 'ite':
        n = I.simp(st, tlen(t))
        if is_c(n):
            return [titem(t, C(k)) for k in range(int(cv(n)))]
    if t.k in ('list', 'tup') and not any(y.k == 'app' and y.a[0] == 'spl' for y in t.a):
        return list(t.a)
    raise Undecidable('unpacking of a sequence of unknown length: %s' % show(t))


def ungate(I, st, it):
    """conditions inside of an iterable moved to the outside"""
    it = I.simp(st, it)
    if it.k == 'ite':
        return lift_local('ungate', lambda x: ungate(I, st, x), it)
    if it.k in ('zip', 'enum', 'rev', 'map'):
        parts = [ungate(I, st, x) if not is_int(x) else x for x in it.a]
        if any(x.k == 'ite' and not is_int(x) for x in parts):
            return lift_local('zip', lambda *xs: mk(it.k, *xs, ty='iter'), *parts)
    if it.k == 'ref':
        c = I.cell(st, it)
        if c is not None and c.kind == 'list':
            t = I.simp(st, c.s['items'])
            if t.k == 'ite':
                return t
    return it


def iterspec(I, st, it):
    if it.k == 'ref':
        c = I.cell(st, it)
        if c.kind == 'list':
            return term_seq(c.s['items'])
        if c.kind == 'dict':
            return dict_seq(I, st, c, 'keys')
        if c.kind == 'set':
            return term_seq(c.s['v'])
        if c.kind == 'arr':
            return arr_seq(c.s['c'])
        if c.kind == 'ba':
            b = c.s['c']
            return Seq(blen(I, st, b), lambda I, s, ix: dec('u1', b, ix))
        if c.kind == 'inst':
            r = I.call_method(st, it, '__iter__', [])
            if r is it or I.simp(st, r) is it:
                h = c.meta.get('iter')
                if h is not None:
                    return h(I, st, it)
                return next_seq(I, st, it)
            return iterspec(I, st, I.simp(st, r))
        if c.kind == 'iter':
            return c.meta['seq']
    if it.k == 'ite':
        raise Undecidable('iteration over gated value')
    if it.k == 'rng':
        a, b, s = it.a
        if s is ONE:
            return Seq(clamp0(sub(b, a)), lambda I, st, ix: add(a, ix))
        if is_c(s) and cv(s) > 0:
            return Seq(clamp0(floordiv(add(sub(b, a), C(cv(s) - 1)), s)), lambda I, st, ix: add(a, mul(s, ix)))
        if is_c(s) and cv(s) < 0:
            k = -cv(s)
            return Seq(clamp0(floordiv(add(sub(a, b), C(k - 1)), C(k))), lambda I, st, ix: add(a, mul(s, ix)))
        raise Undecidable('range step')
    if it.k == 'zip':
        seqs = [iterspec(I, st, I.simp(st, x)) for x in it.a]
        n = None
        for s in seqs:
            if s.n is not None:
                n = s.n if n is None or s.n is n else (s.n if _same_len(s.n, n) else imin(n, s.n))
        return wrapped(Seq(n, lambda I, st, ix: tup(*[s.item(I, st, ix) for s in seqs])), seqs)
    if it.k == 'enum':
        s = iterspec(I, st, I.simp(st, it.a[0]))
        return wrapped(Seq(s.n, lambda I, st, ix: tup(add(it.a[1], ix), s.item(I, st, ix))), [s])
    if it.k == 'rev':
        s = iterspec(I, st, I.simp(st, it.a[0]))
        return Seq(s.n, lambda I, st, ix: s.item(I, st, sub(sub(s.n, ONE), ix)))
    if it.k == 'map':
        seqs = [iterspec(I, st, I.simp(st, x)) for x in it.a[1:]]
        return wrapped(Seq(seqs[0].n, lambda I, st, ix: I.call(st, it.a[0], [s.item(I, st, ix) for s in seqs], {})), seqs)
    if it.k == 'view':
        return dict_seq(I, st, I.cell(st, it.a[0]), it.a[1]) if it.a[0].k == 'ref' else fdict_seq(it.a[0], it.a[1])
    t = list_term(I, st, it)
    if t is not None:
        return term_seq(t)
    if it.ty == 'arr':
        return arr_seq(it)
    if it.k == 'cset':
        return Seq(C(len(it.a)), lambda I, s, ix: it.a[int(cv(ix))])
    if it.k == 'nt':
        return term_seq(it.a[1])
    if it.k == 'c' and isinstance(cv(it), str):
        s = cv(it)
        return Seq(C(len(s)), lambda I, st, ix: C(s[int(cv(ix))]))
    if it.ty == 'bytes':
        n = blen(I, st, it)
        return Seq(n, lambda I, s, ix: dec('u1', it, ix))
    if it.k == 'dict':
        return fdict_seq(it, 'keys')
    if it.k == 'fitem':
        return it.seq
    h = SEQ_HOOKS.get(it)
    if h is not None:
        return h(I, st, it)
    if it in OBJCLS and OBJCLS[it] in CLASSES:
        r = I.call_method(st, it, '__iter__', [])
        if r is not it:
            return iterspec(I, st, r)
        h = SEQ_HOOKS.get('obj')
        if h is not None:
            return h(I, st, it)
        return next_seq(I, st, it)
    if it is NONE:
        I.throw(st, I.exc('TypeError', C('not iterable')))
    # unknown sequence
    return Seq(app('len', it, ty='int', rng=(0, math.inf)), lambda I, st, ix: app('item', it, ix, ty='obj'))


SEQ_HOOKS = {}


def next_seq(I, st, it):
    s = Seq(None, lambda I, st, ix: I.call_method(st, it, '__next__', []))
    s.proto = True
    return s


def wrapped(s, seqs):
    s.proto = any(q.proto for q in seqs)
    return s


def materialise(I, st, it):
    """list of the elements of an iterator"""
    seq = iterspec(I, st, it)
    out = I.new_list(st)
    I.run_loop(st, seq, lambda s, ix: list_append(I, s, out, seq.item(I, s, ix)), lambda s: None, [], None, None)
    return out


def _same_len(a, b):
    return False


def term_seq(t):
    if t.k == 'ite':
        return Seq(tlen(t), lambda I, s, ix: titem(t, ix))
    return Seq(tlen(t), lambda I, s, ix: titem(t, ix))


def arr_seq(a):
    if a.k == 'arr' and not a.a[3] and a.a[0].k == 'sdt':
        names = [f[0] for f in a.a[0].a[0]]
        return Seq(C(len(names)), lambda I, s, ix: field(I, s, a, names[int(cv(ix))]))
    sh = shape_of(a)
    n = sh[0] if sh else app('len', a, ty='int', rng=(0, math.inf))
    return Seq(n, lambda I, s, ix: subarray(a, (ix,)))


def dict_keys(c):
    return [k[1] for k, v in c.s.items() if isinstance(k, tuple) and k[0] == 'k' and v is not UNDEF]


def dict_seq(I, st, c, what):
    if 'dyn' in c.s and c.s['dyn'] is not EMPTY:
        f = I.freeze_cell(st, c)
        return fdict_seq(f, what)
    keys = dict_keys(c)
    gated = [k for k in keys if IN.is_undef(c.s[('k', k)]) is not FALSE]
    if gated:
        return fdict_seq(I.freeze_cell(st, c), what)

    def item(I, s, ix):
        k = keys[int(cv(ix))]
        v = c.s[('k', k)]
        return k if what == 'keys' else v if what == 'values' else tup(k, v)
    return Seq(C(len(keys)), item)


def fdict_seq(f, what):
    if f.k == 'dict' and f.a[1] is None and not any(IN.is_undef(v) is not FALSE for _, v in f.a[0]):
        items = f.a[0]
        return Seq(C(len(items)), lambda I, s, ix: items[int(cv(ix))][0] if what == 'keys' else
                   items[int(cv(ix))][1] if what == 'values' else tup(*items[int(cv(ix))]))
    n = app('len', f, ty='int', rng=(0, math.inf))

    def item(I, s, ix):
        k = app('dkey', f, ix, ty='obj')
        v = app('dval', f, ix, ty='obj')
        return k if what == 'keys' else v if what == 'values' else tup(k, v)
    return Seq(n, item)


# --------------------------------------------------------------------------- truth, comparison
def truth(I, st, v=None):
    if v is None:           # used with one argument from EWOPS
        return TM.truth(I)
    return I.split(st, v, lambda s, x: _truth1(I, s, x)) if contains_ref(v) else TM.lift(
        'ltruth', lambda x: _truth1(I, st, x), v)


def _truth1(I, st, x):
    if x.k == 'ref':
        c = I.cell(st, x)
        if c.kind == 'list':
            return not_(eq(tlen(c.s['items']), ZERO))
        if c.kind == 'dict':
            ks = dict_keys(c)
            if 'dyn' not in c.s:
                r = FALSE
                for k in ks:
                    r = or_(r, not_(IN.is_undef(c.s[('k', k)])))
                return r
            return opaque_atom('truth', I.freeze_cell(st, c))
        if c.kind == 'set':
            if c.s['v'].k == 'cset':
                return C(len(c.s['v'].a) > 0)
            return opaque_atom('truth', c.s['v'])
        if c.kind == 'inst':
            cls = c.meta.get('cls')
            if cls is not None:
                for n in ('__bool__', '__len__'):
                    if I.class_attr(st, cls, n) is not None:
                        return truth(I, st, I.call_method(st, x, n, []))
            return TRUE
        if c.kind == 'ba':
            return not_(eq(blen(I, st, c.s['c']), ZERO))
        if c.kind == 'arr':
            return opaque_atom('truth', c.s['c'])
        return TRUE
    if x.k == 'list':
        return not_(eq(tlen(x), ZERO))
    if x.k == 'dict':
        if x.a[1] is None:
            return C(bool(x.a[0]))
        return opaque_atom('truth', x)
    if x.ty == 'bytes' and x.k != 'c':
        return not_(eq(blen(I, st, x), ZERO))
    if x in OBJCLS and OBJCLS[x] in CLASSES:
        for n in ('__bool__', '__len__'):
            if I.class_attr(st, OBJCLS[x], n) is not None:
                return truth(I, st, I.call_method(st, x, n, []))
        return TRUE
    if x.k == 'nt':
        return C(len(x.a[1].a) > 0)
    if x.ty in ('func', 'gen', 'class', 'ext', 'exc'):
        return TRUE
    return TM.truth(x)


def is_same(I, st, a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if a is NONE or b is NONE:
            x = b if a is NONE else a
            if x.k in ('ref', 'nt', 'list', 'dict', 'tup') or x.ty in TM.NONNULL or x in OBJCLS:
                return FALSE
            if x.k == 'c':
                return FALSE
            return opaque_atom('eqv', x, NONE) if x.k != 'ite' else eq(x, NONE)
        if a.k == 'ref' or b.k == 'ref':
            return FALSE
        if is_c(a) and is_c(b):
            return C(a is b)
        if a.ty == 'bool' and b.ty == 'bool':
            return eq(a, b)
        if is_int(a) and is_int(b):
            return eq(a, b)
        if a.ty in ('class', 'func') and b.ty in ('class', 'func') and a.k in ('cls', 'func') and b.k in ('cls', 'func'):
            return FALSE
        return eq(a, b)
    return lift('is', f, a, b)


def compare(I, st, op, a, b):
    if op in ('Is', 'IsNot'):
        r = is_same(I, st, a, b)
        return r if op == 'Is' else not_(r)
    if op in ('In', 'NotIn'):
        r = I.split(st, b, lambda s, y: contains(I, s, a, y))
        return r if op == 'In' else not_(r)
    if contains_ref(a) or contains_ref(b) or a.k == 'ite' or b.k == 'ite':
        return I.split(st, a, lambda s, x: I.split(s, b, lambda q, y: compare1(I, q, op, x, y)))
    return compare1(I, st, op, a, b)


def arr_val(I, st, x):
    if x.k == 'ref':
        c = I.cell(st, x)
        if c.kind == 'arr':
            return c.s['c']
    return x


def compare1(I, st, op, a, b):
    a, b = arr_val(I, st, a), arr_val(I, st, b)
    if op in ('Lt', 'LtE', 'Gt', 'GtE') and is_set(I, st, a) and is_set(I, st, b):
        return set_compare(I, st, op, a, b)
    if (a.ty == 'arr' and not _scalar_rec(a)) or (b.ty == 'arr' and not _scalar_rec(b)):
        if a.ty == 'arr' or b.ty == 'arr':
            if op == 'Gt':
                return ew('Lt', b, a)
            if op == 'GtE':
                return ew('LtE', b, a)
            return ew(op, I.freeze(st, a), I.freeze(st, b))
    if op in ('Eq', 'NotEq'):
        if a.k == 'ref' and b.k == 'ref' and a is b:
            r = TRUE
        else:
            r = None
            for x, y in ((a, b), (b, a)):
                o = x
                cls = I.cls_of(st, o) if o.k == 'ref' or o in OBJCLS else None
                if cls in CLASSES:
                    f = I.class_attr(st, cls, '__eq__')
                    if f is not None:
                        r = truth(I, st, I.call_method(st, o, '__eq__', [y]))
                        break
            if r is None:
                r = eq(I.freeze(st, bytes_of(I, st, a)), I.freeze(st, bytes_of(I, st, b)))
        return r if op == 'Eq' else not_(r)
    a, b = I.freeze(st, a), I.freeze(st, b)
    if op == 'Lt':
        return lt(a, b)
    if op == 'Gt':
        return lt(b, a)
    # a <= b  <=>  not b < a: exact for integers; for floats nan breaks it, so keep it apart
    if op == 'LtE':
        if is_int(a) and is_int(b) or a.k == 'c' and b.k == 'c' or a.ty == 'tuple':
            return not_(lt(b, a))
        return opaque_atom('lev', a, b)
    if op == 'GtE':
        if is_int(a) and is_int(b) or a.k == 'c' and b.k == 'c' or a.ty == 'tuple':
            return not_(lt(a, b))
        return opaque_atom('lev', b, a)
    raise Undecidable('comparison ' + op)


def _scalar_rec(a):
    return False


def contains(I, st, a, y):
    if y.k == 'ref':
        c = I.cell(st, y)
        if c.kind == 'dict':
            return dict_has(I, st, c, a)
        if c.kind == 'set':
            return set_has(c.s['v'], a)
        if c.kind == 'list':
            return seq_has(I, st, c.s['items'], a)
        if c.kind == 'arr':
            return opaque_atom('contains', c.s['c'], I.freeze(st, a))
        if c.kind == 'inst':
            cls = c.meta.get('cls')
            if cls is not None and I.class_attr(st, cls, '__contains__') is not None:
                return truth(I, st, I.call_method(st, y, '__contains__', [a]))
    if y.k == 'cset':
        return set_has(y, a)
    if y.k in ('tup', 'list'):
        return seq_has(I, st, y, a)
    if y.k == 'c' and isinstance(cv(y), str):
        if is_c(a):
            return C(cv(a) in cv(y))
        # single characters
        return lift('instr%d' % y.id, lambda x: C(cv(x) in cv(y)) if is_c(x) else opaque_atom('instr', x, y), a)
    if y.k == 'rng' and is_int(a) and y.a[2] is ONE:
        return and_(not_(lt(a, y.a[0])), lt(a, y.a[1]))
    if y.k == 'dict':
        r = FALSE
        for k, v in y.a[0]:
            r = or_(r, and_(eq(a, k), not_(IN.is_undef(v))))
        if y.a[1] is not None:
            r = or_(r, opaque_atom('contains', y.a[1], a))
        return r
    if y is NONE:
        I.throw(st, I.exc('TypeError', C('not iterable')))
    if y in OBJCLS or y.ty == 'obj':
        cls = OBJCLS.get(y)
        if cls in CLASSES and I.class_attr(st, cls, '__contains__') is not None:
            return truth(I, st, I.call_method(st, y, '__contains__', [a]))
    return opaque_atom('contains', I.freeze(st, y), I.freeze(st, a))


def set_has(v, a):
    if v.k == 'ite':
        return ite(TM.atom_b(v.a[0]), set_has(v.a[1], a), set_has(v.a[2], a))
    if v.k == 'cset':
        r = FALSE
        for x in v.a:
            r = or_(r, eq(a, x))
        return r
    return opaque_atom('contains', v, a)


def seq_has(I, st, t, a):
    if t.k == 'ite':
        return ite(TM.atom_b(t.a[0]), seq_has(I, st, t.a[1], a), seq_has(I, st, t.a[2], a))
    if t.k in ('tup', 'list') and not any(x.k == 'app' and x.a[0] == 'spl' for x in t.a):
        r = FALSE
        for x in t.a:
            if x.k == 'ref' or a.k == 'ref':
                if x is a:
                    return TRUE
                continue
            r = or_(r, eq(a, x))
        return r
    return opaque_atom('contains', I.freeze(st, t), I.freeze(st, a))


def dict_has(I, st, c, a):
    a = I.freeze(st, a)

    def f(a):
        if ('k', a) in c.s and a.k in ('c', 'cls', 'func', 'tup', 'ext', 'nt'):
            return not_(IN.is_undef(c.s[('k', a)]))
        r = FALSE
        ac = is_c(a)
        for k in dict_keys(c):
            if ac and is_c(k) and cv(k) != cv(a):
                continue
            e = eq(a, k)
            if e is not FALSE:
                r = or_(r, and_(e, not_(IN.is_undef(c.s[('k', k)]))))
        d = c.s.get('dyn')
        if d is not None and d is not EMPTY:
            r = or_(r, dyn_has(I.freeze(st, d), a))
        return r
    return lift_local('dict_has', f, a)


def dyn_has(d, a):
    if d.k == 'ite':
        return ite(TM.atom_b(d.a[0]), dyn_has(d.a[1], a), dyn_has(d.a[2], a))
    if d is EMPTY:
        return FALSE
    if d.k == 'app' and d.a[0] == 'dstore':
        return or_(eq(d.a[2], a), dyn_has(d.a[1], a))
    return opaque_atom('contains', d, a)


def lift_local(name, f, *args):
    """lift without memo (f closes over a state)"""
    for k, a in enumerate(args):
        if a.k == 'ite':
            at = a.a[0]
            for b in args:
                if b.k == 'ite' and b.a[0].id < at.id:
                    at = b.a[0]
            return mk_ite(at, lift_local(name, f, *[cof(x, at, True) for x in args]),
                          lift_local(name, f, *[cof(x, at, False) for x in args]))
    return f(*args)


# --------------------------------------------------------------------------- operators
def unary(I, st, op, v):
    def f(s, x):
        x = arr_val(I, s, x)
        if x.ty == 'arr':
            return ew(op, x)
        if is_int(x):
            if op == 'USub':
                return neg(TM._num(x))
            if op == 'Invert':
                return sub(neg(TM._num(x)), ONE)
            if op == 'UAdd':
                return TM._num(x)
        if x.k == 'c' and isinstance(cv(x), float):
            return C(-cv(x)) if op == 'USub' else x
        if x.ty == 'float':
            return fnum(op, x) if op == 'USub' else x
        if x.ty == 'ext' and op == 'USub':
            return fnum('USub', x)
        return app('u:' + op, I.freeze(s, x), ty=x.ty or 'obj')
    return I.split(st, v, f)


INTOPS = {'Add': add, 'Sub': sub, 'Mult': mul, 'BitAnd': band, 'BitOr': bor, 'BitXor': bxor, 'LShift': shl, 'RShift': shr}


def binop(I, st, op, a, b, inplace=False):
    if is_int(a) and is_int(b) and a.k != 'ref' and b.k != 'ref':
        return int_op(I, st, op, a, b)
    if contains_ref(a) or contains_ref(b) or a.k == 'ite' or b.k == 'ite':
        return I.split(st, a, lambda s, x: I.split(s, b, lambda q, y: binop1(I, q, op, x, y, inplace)))
    return binop1(I, st, op, a, b, inplace)


def int_op(I, st, op, a, b):
    if a.ty == 'bool' and b.ty == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
        return {'BitAnd': and_, 'BitOr': or_, 'BitXor': lambda x, y: ite(x, not_(y), y)}[op](a, b)
    if op in INTOPS:
        return INTOPS[op](TM._num(a), TM._num(b))
    if op == 'FloorDiv':
        zero_div(I, st, b)
        return floordiv(a, b)
    if op == 'Mod':
        zero_div(I, st, b)
        return mod(a, b)
    if op == 'Div':
        zero_div(I, st, b)
        return lift('truediv', _truediv, TM._num(a), TM._num(b))
    if op == 'Pow':
        if is_c(a) and is_c(b):
            return C(cv(a) ** cv(b))
        if is_c(b) and 0 <= cv(b) <= 4:
            r = ONE
            for _ in range(cv(b)):
                r = mul(r, a)
            return r
        return app('pow', a, b, ty='int')
    raise Undecidable('operator ' + op)


def zero_div(I, st, b):
    if not I.happy:
        I.throw(st, I.exc('ZeroDivisionError'), eq(b, ZERO))


def _truediv(a, b):
    if is_c(a) and is_c(b) and cv(b):
        return C(cv(a) / cv(b))
    return fnum('Div', a, b)


def binop1(I, st, op, a, b, inplace):
    if is_int(a) and is_int(b) and 'ref' not in (a.k, b.k):
        return int_op(I, st, op, a, b)
    ca = I.cell(st, a) if a.k == 'ref' else None
    cb = I.cell(st, b) if b.k == 'ref' else None
    # arrays
    av = ca.s['c'] if ca is not None and ca.kind == 'arr' else a
    bv = cb.s['c'] if cb is not None and cb.kind == 'arr' else b
    if av.ty == 'arr' or bv.ty == 'arr':
        x, y = I.freeze(st, av), I.freeze(st, bv)
        r = ew(op, x, y)
        if not inplace and r.ty == 'arr' and r.k != 'ite':
            return I.alloc(st, 'arr', {'c': r})
        if inplace and av.ty == 'arr':
            d = dtype_of(av)
            dr = dtype_of(r)
            if d is not None and dr is not None and dr is not d:
                r = astype(d, r)
            elif d is not None and dr is None:
                r = mk('app', 'astype', d, r, ty='arr')
            if ca is not None:
                I.put(st, a, 'c', r)
                return a
            return r
        return r
    # lists
    la, lb = list_term(I, st, a), list_term(I, st, b)
    if op == 'Add' and la is not None and (lb is not None or inplace):
        if inplace and ca is not None:
            list_extend(I, st, a, b)
            return a
        r = lift('extend', cat_list, la, lb)
        if a.k == 'tup' and b.k == 'tup':
            return tup(*(a.a + b.a))
        n = I.alloc(st, 'list', {'items': r})
        return n
    if op == 'Mult' and (la is not None or lb is not None):
        t, k = (la, b) if la is not None else (lb, a)
        if is_c(k) and t.k in ('list', 'tup'):
            items = t.a * int(cv(k))
            return tup(*items) if (a.k == 'tup' or b.k == 'tup') else I.new_list(st, items)
        return I.alloc(st, 'list', {'items': app('lrep', t, k, ty='list')})
    # bytes / bytearray
    if op == 'Add':
        xa, xb = bytes_of(I, st, a), bytes_of(I, st, b)
        if xa.ty == 'bytes' and xb.ty == 'bytes':
            if ca is not None and ca.kind == 'ba':
                r = cat(xa, xb)
                if inplace:
                    I.put(st, a, 'c', r)
                    return a
                return I.alloc(st, 'ba', {'c': r})
            return cat(xa, xb)
        if a.ty == 'str' and b.ty == 'str':
            return str_concat([a, b])
    if op == 'Mult' and bytes_of(I, st, a).ty == 'bytes' and is_c(b):
        x = bytes_of(I, st, a)
        if is_c(x):
            return C(cv(x) * int(cv(b)))
    if op == 'Mult' and (is_c(a) and isinstance(cv(a), str) and is_int(b) or is_c(b) and isinstance(cv(b), str) and is_int(a)):
        x, n = (a, b) if a.k == 'c' and isinstance(cv(a), str) else (b, a)
        if is_c(n) and cv(n) <= 1000:
            return C(cv(x) * int(cv(n)))
        return app('srep', x, TM._num(n), ty='str')
    if op == 'Mod' and a.ty == 'str':
        r = percent(I, st, a, b)
        return app('strmod', a, I.freeze(st, b), ty='str') if r is None else r
    # sets and dicts
    if ca is not None and ca.kind == 'set' or cb is not None and cb.kind == 'set' or a.ty == 'set' or b.ty == 'set':
        return set_op(I, st, op, a, b)
    if op == 'BitOr' and ca is not None and ca.kind == 'dict':
        n = a if inplace else copy_dict(I, st, a)
        dict_update(I, st, n, b)
        return n
    for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
        cls = I.cls_of(st, x) if x.k == 'ref' or x in OBJCLS else None
        meth = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or', 'BitAnd': 'and', 'Mod': 'mod',
                'LShift': 'lshift', 'RShift': 'rshift', 'BitXor': 'xor', 'FloorDiv': 'floordiv', 'Div': 'truediv',
                'Pow': 'pow'}.get(op)
        if cls in CLASSES and meth and I.class_attr(st, cls, nm % meth) is not None:
            return I.call_method(st, x, nm % meth, [y])
    if is_c(a) and is_c(b) and isinstance(cv(a), (int, float)) and isinstance(cv(b), (int, float)):
        x, y = cv(a), cv(b)
        try:
            return C({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y,
                      'FloorDiv': lambda: x // y, 'Mod': lambda: x % y, 'Pow': lambda: x ** y}[op]())
        except Exception:
            pass
    if is_num(a) or is_num(b) or a.ty == 'ext' or b.ty == 'ext':
        if a.ty in ('str', 'bytes') or b.ty in ('str', 'bytes') or a is NONE or b is NONE:
            I.throw(st, I.exc('TypeError'))
        x, y = I.freeze(st, a), I.freeze(st, b)
        x, y = [C(float(cv(q))) if q.k == 'c' and isinstance(cv(q), int) else q for q in (x, y)]
        if op in ('Add', 'Mult') and x.id > y.id:
            x, y = y, x
        return fnum(op, x, y)
    return app('op:' + op, I.freeze(st, a), I.freeze(st, b), ty='obj')


def set_val(I, st, v):
    if v.k == 'ref':
        c = I.cell(st, v)
        if c.kind == 'set':
            return c.s['v']
        if c.kind == 'dict':
            return mk('cset', *sorted(dict_keys(c), key=lambda t: t.id), ty='set')
    if v.k == 'cset':
        return v
    if v.k == 'view':
        return set_val(I, st, v.a[0])
    return I.freeze(st, v)


def is_set(I, st, x):
    return x.k == 'cset' or x.ty == 'set' or x.k == 'ref' and I.cell(st, x).kind == 'set' or x.k == 'view' and \
        x.a[1] in ('keys', 'items')


def subset(I, st, a, b):
    return not_(truth(I, st, set_op(I, st, 'Sub', a, b)))


def set_compare(I, st, op, a, b):
    if op in ('Gt', 'GtE'):
        a, b, op = b, a, 'Lt' + op[2:]
    r = subset(I, st, a, b)
    return r if op == 'LtE' else and_(r, not_(subset(I, st, b, a)))


def set_op(I, st, op, a, b):
    x, y = set_val(I, st, a), set_val(I, st, b)

    def f(x, y):
        if x.k == 'cset' and y.k == 'cset':
            p, q = set(x.a), set(y.a)
            r = {'BitAnd': p & q, 'BitOr': p | q, 'Sub': p - q, 'BitXor': p ^ q}[op]
            return mk('cset', *sorted(r, key=lambda t: t.id), ty='set')
        if op in ('BitAnd', 'BitOr') and x.id > y.id:
            x, y = y, x
        return app('set' + op, x, y, ty='set')
    return I.alloc(st, 'set', {'v': lift('setop' + op, f, x, y)})


def make_set(I, st, items):
    items = [I.freeze(st, x) for x in items]
    if all(x.k in ('c', 'cls', 'ext') for x in items):
        v = mk('cset', *sorted(set(items), key=lambda t: t.id), ty='set')
    else:
        v = app('setof', lst(*items), ty='set')
    return I.alloc(st, 'set', {'v': v})


def percent(I, st, a, b):
    """the format operator with simple fields"""
    if not is_c(a) or not isinstance(cv(a), str):
        return None
    import re
    parts = re.split('(%.)', cv(a))
    n = sum(1 for p in parts[1::2] if p != '%%')
    b = I.simp(st, b)
    if b.k == 'c' and isinstance(cv(b), tuple):
        values = [C(x) for x in cv(b)]
    elif b.k == 'tup':
        values = list(b.a)
    elif b.k != 'ref' and (b.k == 'ite' or b.ty in ('tup', None)):
        return None
    else:
        values = [b]
    if len(values) != n:
        return None
    out = []
    for k, p in enumerate(parts):
        if k % 2 == 0:
            out.append(C(p))
        elif p == '%%':
            out.append(C('%'))
        elif p in ('%s', '%r') or p == '%d' and is_int(values[0]):
            x = values.pop(0)
            out.append(fmt(I, st, x, 'd' if p == '%d' else '', None if p == '%d' else p[1]))
        else:
            return None
    return str_concat(out)


def str_concat(parts):
    out = []
    for p in parts:
        ps = p.a[1:] if p.k == 'app' and p.a[0] == 'scat' else (p,)
        for q in ps:
            if q.k == 'c' and cv(q) == '':
                continue
            if out and out[-1].k == 'c' and q.k == 'c':
                out[-1] = C(cv(out[-1]) + cv(q))
            else:
                out.append(q)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    if any(x.k == 'ite' for x in out):
        return lift('scat', lambda *x: str_concat(x), *out)
    return mk('app', 'scat', *out, ty='str')


TM.REBUILD['app:scat'] = lambda t, new: str_concat(new[1:])


# --------------------------------------------------------------------------- dicts
def dict_const_items(I, st, m):
    if m.k == 'ref':
        c = I.cell(st, m)
        if c.kind == 'inst':
            # modelled subclasses of dict keep their contents there
            d = I.getattr_or_none(st, m, '__contents__')
            if d is not None:
                return dict_const_items(I, st, d)
        if c.kind == 'dict' and c.s.get('dyn', EMPTY) is EMPTY:
            return [(k, c.s[('k', k)]) for k in dict_keys(c)]
    if m.k == 'dict' and m.a[1] is None:
        return list(m.a[0])
    raise Undecidable('dictionary with unknown keys')


def copy_dict(I, st, d):
    if d.k == 'ref':
        c = I.cell(st, d)
        return I.alloc(st, 'dict', dict(c.s), {k: v for k, v in c.meta.items() if k != 'home'})
    if d.k == 'dict':
        r = I.new_dict(st, d.a[0])
        if d.a[1] is not None:
            I.put(st, r, 'dyn', d.a[1])
        return r
    r = I.new_dict(st)
    I.put(st, r, 'dyn', d)
    return r


def dict_update(I, st, r, m):
    def f(s, x):
        if x.k == 'ref':
            c = I.cell(s, x)
            if c.kind == 'inst':
                d = I.getattr_or_none(s, x, '__contents__')
                if d is not None:
                    return f(s, d)
            if c.kind == 'dict':
                for k in dict_keys(c):
                    v = c.s[('k', k)]
                    u = IN.is_undef(v)
                    if u is FALSE:
                        I.setitem(s, r, k, v)
                    else:
                        old = I.cell(s, r).s.get(('k', k), UNDEF)
                        I.put(s, r, ('k', k), ite(u, old, v))
                if c.s.get('dyn', EMPTY) is not EMPTY:
                    d = I.cell(s, r).s.get('dyn', EMPTY)
                    I.put(s, r, 'dyn', c.s['dyn'] if d is EMPTY and not dict_keys(I.cell(s, r)) else app(
                        'dmerge', d, c.s['dyn'], ty='dict'))
                return NONE
        if x.k == 'dict' and x.a[1] is None:
            for k, v in x.a[0]:
                I.setitem(s, r, k, v)
            return NONE
        t = list_term(I, s, x)
        if t is None and (x.k in ('zip', 'map', 'enum', 'view')):
            t = seq_term(I, s, x)
        if t is not None and t.k in ('list', 'tup') and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a):
            for q in t.a:
                k, v = seq_items(I, s, q, 2)
                I.setitem(s, r, k, v)
            return NONE
        d = I.cell(s, r).s.get('dyn', EMPTY)
        I.put(s, r, 'dyn', app('dmerge', d, I.freeze(s, x), ty='dict'))
        return NONE
    I.split(st, ungate(I, st, m), f)


def dyn_get(d, k):
    """value of key k in a store chain, UNDEF if missing"""
    if d is EMPTY:
        return UNDEF
    if d.k == 'ite':
        return ite(TM.atom_b(d.a[0]), dyn_get(d.a[1], k), dyn_get(d.a[2], k))
    if d.k == 'app' and d.a[0] == 'dstore':
        c = eq(d.a[2], k)
        return ite(c, d.a[3], dyn_get(d.a[1], k)) if c is not TRUE else d.a[3]
    if d.k == 'dict':
        for kk, v in d.a[0]:
            if kk is k:
                return v
        if d.a[1] is None:
            if is_c(k) and all(is_c(kk) for kk, _ in d.a[0]):
                return UNDEF
    return app('dget', d, k, ty='obj')


def getitem_dict(I, st, r, k, default=None):
    k = I.freeze(st, k)

    def f(s, k):
        c = I.cell(s, r)
        v = c.s.get(('k', k))
        if v is None:
            v = UNDEF
            kc = is_c(k)
            for kk in dict_keys(c):
                if kc and is_c(kk) and cv(kk) != cv(k):
                    continue
                e = eq(k, kk)
                if e is not FALSE:
                    v = ite(e, c.s[('k', kk)], v)
            d = c.s.get('dyn')
            if d is not None and d is not EMPTY:
                v2 = dyn_get(I.freeze(s, d), k)
                v = ite(IN.is_undef(v), v2, v)
        u = IN.is_undef(v)
        if u is FALSE:
            return v
        if default is not None:
            return ite(u, default, v) if default is not UNDEF else v
        fac = c.meta.get('factory')
        if fac is not None:
            def make(q):
                n = I.call(q, fac, [], {})
                setitem(I, q, r, k, n)
                return n
            return I.branch(s, u, make, lambda q: restrict_to(v, not_(u)))
        if u is TRUE or not I.happy or is_c(k):
            I.throw(s, I.exc('KeyError', k), u)
        else:
            I.assume(s, not_(u))
        return I.simp(s, restrict_to(v, not_(u)))
    return I.split(st, k, f)


def restrict_to(v, c):
    """v under assumption c where c decides which leaves are undefined"""
    if v.k != 'ite':
        return v
    for a in sorted(TM.support(c), key=lambda x: x.id):
        ab = TM.atom_b(a)
        if and_(c, ab) is FALSE:
            v = restrict(v, a, False)
        elif and_(c, not_(ab)) is FALSE:
            v = restrict(v, a, True)
    return v


def delitem(I, st, o, i):
    if o.k == 'ref':
        c = I.cell(st, o)
        i = I.freeze(st, i)
        if c.kind == 'dict':
            if ('k', i) in c.s:
                I.put(st, o, ('k', i), UNDEF)
                return NONE
            I.put(st, o, 'dyn', app('ddel', I.freeze_cell(st, c), i, ty='dict'))
            return NONE
        if c.kind == 'list':
            I.put(st, o, 'items', app('ldel', c.s['items'], i, ty='list'))
            return NONE
    raise Undecidable('del')


# --------------------------------------------------------------------------- subscripts
def slice_bounds(I, st, sl, n):
    """start, length of a slice with step 1 of a sequence of length n"""
    lo, hi, step = sl.a
    if step is not NONE and not (is_c(step) and cv(step) == 1):
        return None

    def norm(x, default):
        if x is NONE:
            return default
        x = TM._num(x)
        if is_c(x) and int(cv(x)) < 0:
            y = add(n, x)
            return y if I.happy else imax(y, ZERO)
        if not I.happy:
            return imin(x, n)
        return x
    a = norm(lo, ZERO)
    b = norm(hi, n)
    ln = sub(b, a)
    if not I.happy:
        ln = clamp0(ln)
    elif is_c(n) and is_c(a) and is_c(b):
        p, q = min(cv(a), cv(n)), min(cv(b), cv(n))
        return C(p), C(max(q - p, 0))
    return a, ln


def getitem(I, st, o, i):
    if o.k == 'ref':
        c = I.cell(st, o)
        if c.kind == 'dict':
            return getitem_dict(I, st, o, i)
        if c.kind == 'list':
            return I.split(st, i, lambda s, x: list_item(I, s, o, c.s['items'], x))
        if c.kind == 'arr':
            return arr_item(I, st, c.s['c'], i, o)
        if c.kind == 'ba':
            return bytes_item(I, st, c.s['c'], i)
        if c.kind == 'inst':
            return I.call_method(st, o, '__getitem__', [i])
        raise Undecidable('subscript of ' + c.kind)
    if o.k == 'memv':
        return getitem(I, st, o.a[0], i)
    if o.k == 'aview':
        if not is_int(i) and not (i.k == 'tup' and all(is_int(x) for x in i.a)):
            return getitem(I, st, I.freeze(st, o), i)
        return getitem(I, st, o.a[0], tup(*(o.a[1].a + (i.a if i.k == 'tup' else (i,)))))
    if o.ty == 'arr':
        return arr_item(I, st, o, i, None)
    if o.ty == 'bytes':
        return bytes_item(I, st, o, i)
    if o.k in ('tup', 'list') or o.ty == 'list':
        return I.split(st, i, lambda s, x: list_item(I, s, None, o, x))
    if o.k == 'nt':
        return I.split(st, i, lambda s, x: list_item(I, s, None, o.a[1], x))
    if o.k == 'dict':
        i = I.freeze(st, i)
        v = dyn_get(o, i)
        u = IN.is_undef(v)
        I.throw(st, I.exc('KeyError', i), u)
        return I.simp(st, v)
    if o.k == 'ptr':
        base, off, ct = o.a
        i = I.freeze(st, i)
        d = CTYPE_DT[ct]
        x = add(off, mul(C(SIZES[d]), TM._num(i)))
        load_obligation(I, st, base, x, C(SIZES[d]))
        return dec(d, base, x)
    if o.k == 'app' and o.a[0] in ('tuple', 'list') and len(o.a) == 2:
        return I.split(st, i, lambda s, x: list_item(I, s, None, o.a[1], x))
    if o.k == 'c' and isinstance(cv(o), str):
        if i.k == 'slice' and all(is_c(x) for x in i.a):
            return C(cv(o)[slice(*[cv(x) for x in i.a])])
        if is_c(i):
            return C(cv(o)[cv(i)])
    if o is NONE:
        I.throw(st, I.exc('TypeError', C('not subscriptable')))
    if o in OBJCLS and OBJCLS[o] in CLASSES:
        return I.call_method(st, o, '__getitem__', [i])
    if o.k == 'ext':       # typing
        return o
    if is_int(o) or o.ty == 'float':
        I.throw(st, I.exc('TypeError', C('not subscriptable')))
    i = I.freeze(st, i)
    return app('getitem', o, i, ty='obj')


def row_view(I, st, o, i):
    """memoryview[i]: a view of the row, writes go to the array"""
    base, idx = (o.a[0], o.a[1].a) if o.k == 'aview' else (o, ())
    if base.k != 'ref' or I.cell(st, base).kind != 'arr':
        return None
    a = I.cell(st, base).s['c']
    sh = shape_of(a)
    i = i.a if i.k == 'tup' else (i,)
    if sh is None or not all(is_int(x) for x in i) or len(idx) + len(i) >= len(sh):
        return None
    idx = tuple(idx) + tuple(i)
    bounds(I, st, a, idx)
    return mk('aview', base, tup(*idx), ty='memv')


def list_item(I, st, r, t, i):
    if i.k == 'slice':
        lo, hi, step = i.a
        n = tlen(t)
        if t.k in ('list', 'tup') and all(x is NONE or is_c(x) for x in i.a) and not any(
                q.k == 'app' and q.a[0] == 'spl' for q in t.a):
            items = t.a[slice(*[None if x is NONE else cv(x) for x in i.a])]
            return tup(*items) if t.k == 'tup' else I.new_list(st, items)
        return I.alloc(st, 'list', {'items': app('lslice', t, *[I.freeze(st, x) for x in i.a], ty='list')})
    n = tlen(t)
    if r is not None and I.cell(st, r).meta.get('raw'):
        load_obligation(I, st, None, TM._num(i), ONE, n)
    if is_c(n) and is_c(i) and not -cv(n) <= cv(i) < cv(n):
        I.throw(st, I.exc('IndexError'))
    if not I.happy and not (is_c(n) and is_c(i)):
        bad = or_(not_(lt(i, n)), lt(add(i, n), ZERO)) if is_int(i) else FALSE
        I.throw(st, I.exc('IndexError'), bad)
    if is_int(i):
        if t.k in ('list', 'tup') and not is_c(i) and rng(i)[1] < math.inf and is_c(n) and cv(n) <= 20:
            # symbolic index into a short list
            v = UNDEF
            for k in range(cv(n)):
                v = ite(eq(i, C(k)), t.a[k], v)
            return v
        v = titem(t, TM._num(i))
        if I.record_obl and r is not None and I.cell(st, r).meta.get('raw'):
            I.outside(st, IN.is_undef(v))       # a C array has no initial values
        return v
    return app('getitem', I.freeze(st, t), I.freeze(st, i), ty='obj')


def bytes_item(I, st, b, i):
    n = blen(I, st, b)
    if i.k == 'slice':
        if is_c(b) and all(x is NONE or is_c(x) for x in i.a):
            return C(cv(b)[slice(*[None if x is NONE else cv(x) for x in i.a])])
        ab = slice_bounds(I, st, i, n)
        if ab is None:
            return app('bslice', b, *[I.freeze(st, x) for x in i.a], ty='bytes')
        a, ln = ab
        if b.k == 'bs':
            return bs(b.a[0], add(b.a[1], a), ln)
        return bs(b, a, ln)
    if is_c(i) and int(cv(i)) < 0:
        i = add(n, i)
    i = TM._num(I.freeze(st, i))
    if I.raw:
        load_obligation(I, st, b, i, ONE)
    elif not I.happy:
        I.checked(st, or_(not_(lt(i, n)), lt(i, ZERO)))
    return dec('u1', b, i)


def load_obligation(I, st, buf, off, n, total=None):
    """n bytes at off of the buffer are accessed without any check"""
    if not I.record_obl:
        return
    if total is None:
        while buf.k == 'bs':
            off, buf = add(off, buf.a[1]), buf.a[0]
        total = I.buffers.get(buf)
        if total is None:
            total = blen(I, st, buf)
    I.outside(st, or_(lt(off, ZERO), lt(total, add(off, n))))


def arr_item(I, st, a, i, r):
    def f(s, i):
        if i.k == 'c' and isinstance(cv(i), str):
            v = field(I, s, a, cv(i))
            return v
        if i.k == 'slice':
            return arr_slice(I, s, a, (i,))
        if i.k == 'tup':
            if any(x.k == 'slice' for x in i.a):
                return arr_slice(I, s, a, i.a)
            if all(is_int(x) for x in i.a):
                bounds(I, s, a, i.a)
                return subarray(a, i.a)
            return app('fancy', a, I.freeze(s, i), ty='arr')
        iv = arr_val(I, s, i)
        if iv.ty == 'arr':
            d = dtype_of(iv)
            if d is dtn('b1'):
                return mk('app', 'mask', a, iv, ty='arr')
            return app('fancy', a, iv, ty='arr')
        if is_int(i):
            bounds(I, s, a, (i,))
            return subarray(a, (i,))
        return app('fancy', a, I.freeze(s, i), ty='arr')
    return I.split(st, i, f)


def bounds(I, st, a, idx):
    sh = shape_of(a)
    if sh is None or len(sh) < len(idx):
        return
    for i, n in zip(idx, sh):
        if is_c(i) and is_c(n) and not -cv(n) <= cv(i) < cv(n):
            I.throw(st, I.exc('IndexError'))
        bad = or_(not_(lt(i, n)), lt(add(i, n), ZERO))
        if I.raw:
            I.outside(st, bad)
        elif not I.happy:
            I.checked(st, bad)


def arr_slice(I, st, a, idx):
    """basic slicing"""
    sh = shape_of(a)
    if all(x.k == 'slice' and all(q is NONE for q in x.a) for x in idx):
        return a
    if a.k == 'ite':
        return lift_local('arr_slice', lambda x: arr_slice(I, st, x, idx), a)
    if a.k == 'arr' and sh is not None:
        off = a.a[2]
        ns, ss = [], []
        for k, x in enumerate(idx):
            if x.k == 'slice':
                ab = slice_bounds(I, st, x, sh[k])
                if ab is None:
                    break
                off = add(off, mul(ab[0], a.a[4][k]))
                ns.append(ab[1])
                ss.append(a.a[4][k])
            elif is_int(x):
                if is_c(x) and int(cv(x)) < 0:
                    x = add(sh[k], x)
                off = add(off, mul(TM._num(x), a.a[4][k]))
            else:
                break
        else:
            ns += sh[len(idx):]
            ss += a.a[4][len(idx):]
            return arr(a.a[0], a.a[1], off, tuple(ns), tuple(ss))
    return app('slice', a, *[I.freeze(st, x) for x in idx], ty='arr')


def known_key(k):
    return k.k in ('c', 'cls', 'func', 'ext') or k.k == 'tup' and all(map(is_c, k.a)) or k.k == 'nt' and known_key(k.a[1])


def setitem(I, st, o, i, v):
    if o.k == 'ref':
        c = I.cell(st, o)
        if c.kind == 'dict':
            i = I.freeze(st, i)

            def f(s, k):
                c = I.cell(s, o)
                if known_key(k):
                    I.put(s, o, ('k', k), v)
                else:
                    fv = I.freeze(s, v)
                    d = c.s.get('dyn', EMPTY)
                    I.put(s, o, 'dyn', dstore(d, k, fv) if not contains_ref(d) else UNDEF)
                    if v.k == 'ref':
                        # further changes of the value are written through
                        vc = s.heap[I.hkey(v)]
                        s.heap[I.hkey(v)] = Cell(vc.kind, vc.s, dict(vc.meta, home=(o, k)))
                return NONE
            I.split(st, i, f)
            return
        if c.kind == 'list':
            def g(s, k):
                c = I.cell(s, o)
                w = I.ctype(s, c.meta['carr'], v) if c.meta.get('carr') else v
                t = c.s['items']
                n = tlen(t)
                if c.meta.get('raw') and is_int(k):
                    load_obligation(I, s, None, TM._num(k), ONE, n)
                if k.k == 'slice':
                    if all(x is NONE for x in k.a):
                        I.put(s, o, 'items', lst(*seq_all(I, s, v)))
                        return NONE
                    raise Undecidable('slice assignment')
                if t.k == 'list' and is_c(k) and not any(q.k == 'app' and q.a[0] == 'spl' for q in t.a):
                    if not -len(t.a) <= int(cv(k)) < len(t.a):
                        I.throw(s, I.exc('IndexError'))
                    items = list(t.a)
                    items[int(cv(k))] = w
                    I.put(s, o, 'items', lst(*items))
                elif t.k == 'list' and c.meta.get('carr') and is_c(n):
                    I.put(s, o, 'items', lst(*[ite(eq(k, C(q)), w, x) for q, x in enumerate(t.a)]))
                else:
                    I.put(s, o, 'items', app('lset', t, I.freeze(s, k), I.freeze(s, w), ty='list'))
                return NONE
            I.split(st, i, g)
            return
        if c.kind == 'arr':
            fv = I.freeze(st, v)
            i = I.freeze(st, i)

            def h(s, k):
                a = I.cell(s, o).s['c']
                I.put(s, o, 'c', arr_store(I, s, a, k, fv))
                return NONE
            I.split(st, i, h)
            return
        if c.kind == 'ba':
            b = c.s['c']
            I.put(st, o, 'c', app('bset', b, I.freeze(st, i), I.freeze(st, bytes_of(I, st, v)), ty='bytes')
                  if not ba_slice_set(I, st, o, b, i, v) else I.cell(st, o).s['c'])
            return
        if c.kind == 'inst':
            I.call_method(st, o, '__setitem__', [i, v])
            return
    if o.k == 'memv':
        setitem(I, st, o.a[0], i, v)
        return
    if o.k == 'aview':
        base, idx = o.a
        ii = i.a if i.k == 'tup' else (i,)
        setitem(I, st, base, tup(*(tuple(idx.a) + tuple(ii))), v)
        return
    if o in OBJCLS and OBJCLS[o] in CLASSES:
        I.call_method(st, o, '__setitem__', [i, v])
        return
    raise Undecidable('item assignment on %s' % show(o))


def ba_slice_set(I, st, o, b, i, v):
    """bytearray[a:b] = value with known positions"""
    if i.k != 'slice' or i.a[2] is not NONE:
        return False
    n = blen(I, st, b)
    ab = slice_bounds(I, st, i, n)
    if ab is None:
        return False
    lo, ln = ab
    left = bytes_item(I, st, b, mk('slice', ZERO, lo, NONE, ty='slice')) if lo is not ZERO else C(b'')
    right = bytes_item(I, st, b, mk('slice', add(lo, ln), NONE, NONE, ty='slice'))
    I.put(st, o, 'c', cat(left, bytes_of(I, st, v), right))
    return True


def arr_store(I, st, a, i, v):
    if i.k == 'c' and isinstance(cv(i), str):
        d = dtype_of(a)
        fd = None
        if d is not None and d.k == 'sdt':
            fd = next((f[1] for f in d.a[0] if f[0] == cv(i)), None)
        if fd is not None:
            v = astype(fd, v) if v.ty == 'arr' and (dtype_of(v) is not None) else (
                mk('app', 'astype', fd, v, ty='arr') if v.ty == 'arr' else np_wrap(fd, v))
        return lift('fstore' + cv(i), lambda a, v: fstore(a, i, v), a, v)
    d = dtype_of(a)
    if i.k == 'tup' and all(is_int(x) for x in i.a) or is_int(i):
        idx = i.a if i.k == 'tup' else (i,)
        sh = shape_of(a)
        idx = tuple(add(sh[k], x) if sh is not None and is_c(x) and int(cv(x)) < 0 else TM._num(x)
                    for k, x in enumerate(idx))
        bounds(I, st, a, idx)
        if sh is not None and len(idx) == len(sh):
            v = np_wrap(d, v)
        return store(a, idx, v)
    if i.k == 'slice' and all(x is NONE for x in i.a):
        if v.ty != 'arr':
            sh = shape_of(a)
            if sh is not None and d is not None:
                return full(d, sh, np_wrap(d, v))
        return app('setall', a, v, ty='arr')
    if i.k == 'tup' and len(i.a) >= 2 and i.a[-1].k == 'slice' and all(x is NONE for x in i.a[-1].a) and all(
            is_int(x) for x in i.a[:-1]):
        return store(a, i.a[:-1], v)
    return app('storex', a, i, v, ty='arr')


def fstore(a, name, v):
    if a.k == 'app' and a.a[0] == 'fstore':
        if a.a[2] is name:
            return fstore(a.a[1], name, v)
        if a.a[2].id > name.id:
            return mk('app', 'fstore', fstore(a.a[1], name, v), a.a[2], a.a[3], ty='arr')
    return mk('app', 'fstore', a, name, v, ty='arr')


TM.REBUILD['app:fstore'] = lambda t, new: fstore(*new[1:])


from .libcalls import *  # noqa
