"""Abstract eventio objects: a payload in a file, a header with any version and id.

The file content is the byte sequence F, the payload starts at `address` and has `size`
bytes; the position of the shared file handle is arbitrary.  `read`/`seek`/`tell` of an
object address its own payload (that they do is property C04, decided on their code).
"""
from .terms import *
from . import terms as TM
from . import lib as L
from .lib import *      # noqa
from .interp import *   # noqa
from . import front

F = sym('F', 'bytes')
ADDR = sym('address', rng=(16, 1 << 40))
SIZE = sym('size', rng=(0, 1 << 30))
VERSION = sym('version', rng=(0, 4095))
IDENT = sym('id', rng=(-(1 << 31), (1 << 31) - 1))
TYPE = sym('type', rng=(0, 65535))
FPOS = sym('filepos', rng=(0, 1 << 40))


def stream(I, st, buf=F, pos=FPOS, size=None):
    return I.alloc(st, 'bio', {'buf': buf, 'pos': pos}, {'size': size if size is not None else sym('filesize', rng=(0, 1 << 41))})


def header(I, st, typ, version=VERSION, ident=IDENT, addr=ADDR, size=SIZE, only_sub=FALSE):
    c = I.lookup_qual('eventio.header', 'ObjectHeader')
    hs = sym('header_size', rng=(12, 16))
    s = {'id': ident, 'type': typ, 'version': version, 'user': FALSE, 'extended': FALSE, 'only_subobjects': only_sub,
         'header_size': hs, 'content_address': addr, 'content_size': size}
    return I.alloc(st, 'inst', s, {'cls': c, 'ctypes': {}})


def buf_of(I, st, fh):
    """(buffer, absolute offset of position 0)"""
    c = I.cell(st, fh)
    if c.kind == 'bio':
        return c.s['buf']
    raise Undecidable('file handle of kind ' + c.kind)


def obj_read(I, st, args, kw):
    o = args[0]
    n = args[1] if len(args) > 1 else kw.get('size', C(-1))
    c = I.cell(st, o)
    if c is None or c.kind != 'inst' or '_filehandle' not in c.s:
        return NotImplemented
    fh = c.s['_filehandle']
    if fh.k != 'ref' or I.cell(st, fh).kind != 'bio':
        return NotImplemented

    def f(s, n):
        c = I.cell(s, o)
        buf, pos, addr, size = buf_of(I, s, fh), c.s['_pos'], c.s['address'], c.s['size']
        if is_c(n) and (cv(n) is None or cv(n) < 0):
            n = sub(size, pos)
        n = TM._num(n)
        I.put(s, o, '_pos', add(pos, n))
        return bs(buf, add(addr, pos), n)
    if n.k == 'ite' and any(is_c(x) and (cv(x) is None or cv(x) < 0) for x in leaves(n)):
        return I.split(st, n, f)
    return f(st, n)


def leaves(t):
    return leaves(t.a[1]) | leaves(t.a[2]) if t.k == 'ite' else {t}


def obj_seek(I, st, args, kw):
    o = args[0]
    off = args[1] if len(args) > 1 else kw['offset']
    wh = args[2] if len(args) > 2 else kw.get('whence', ZERO)
    c = I.cell(st, o)
    if c is None or c.kind != 'inst' or '_pos' not in c.s:
        return NotImplemented
    if not is_c(wh) or not isinstance(cv(wh), int):
        raise Undecidable('seek mode')
    k = cv(wh)
    p = TM._num(off)
    p = p if k == 0 else add(c.s['_pos'], p) if k == 1 else add(c.s['size'], p)
    I.put(st, o, '_pos', p)
    return p


def obj_tell(I, st, args, kw):
    c = I.cell(st, args[0])
    if c is None or c.kind != 'inst' or '_pos' not in c.s:
        return NotImplemented
    return c.s['_pos']


def v_data(I, st, v):
    return bytes_of(I, st, v)


def kwargs_of(names):
    def deco(f):
        def g(I, st, args, kw):
            a = list(args)
            for n in names[len(a):]:
                if n not in kw:
                    break
                a.append(kw[n])
            return f(I, st, *a)
        return g
    return deco


def split_data(I, st, data, f):
    return I.split(st, bytes_of(I, st, data), lambda s, b: f(s, b))


@kwargs_of(['data', 'offset'])
def s_unsigned_varint(I, st, data, offset=ZERO):
    o = TM._num(offset)
    return split_data(I, st, data, lambda s, b: tup(vu(b, o), vl(b, o)))


@kwargs_of(['data', 'offset'])
def s_varint(I, st, data, offset=ZERO):
    o = TM._num(offset)
    return split_data(I, st, data, lambda s, b: tup(zigzag(vu(b, o)), vl(b, o)))


def _varray(dt, conv):
    @kwargs_of(['data', 'n_elements', 'offset'])
    def h(I, st, data, n, offset=ZERO):
        def f(s, b):
            o, d = TM._num(offset), fresh()
            item = conv(vu(b, add(o, vn(b, o, ixvar(d)))))
            return tup(I.alloc(s, 'arr', {'c': atab(dtn(dt), TM._num(n), item, d)}), vn(b, o, TM._num(n)))
        return split_data(I, st, data, f)
    return h


@kwargs_of(['data', 'n_arrays', 'n_elements', 'offset'])
def s_dvar(I, st, data, n, m, offset=ZERO):
    def f(s, b):
        o = TM._num(offset)
        if b.k == 'bs':
            b, o = b.a[0], add(b.a[1], o)
        nn, mm = TM._num(n), TM._num(m)
        return tup(I.alloc(s, 'arr', {'c': app('dvar', b, o, nn, mm, ty='arr')}),
                   app('dvlen', b, o, nn, mm, ty='int', rng=(0, math.inf)))
    return split_data(I, st, data, f)


def s_read_uvarint(I, st, args, kw):
    """tools.read_unsigned_varint(f) for a modelled stream or object"""
    f = args[0]
    c = I.cell(st, f) if f.k == 'ref' else None
    if c is None:
        return NotImplemented
    if c.kind == 'bio':
        buf, off, slot = c.s['buf'], c.s['pos'], 'pos'
    elif c.kind == 'inst' and '_filehandle' in c.s:
        fh = c.s['_filehandle']
        if fh.k != 'ref' or I.cell(st, fh).kind != 'bio':
            return NotImplemented
        buf, off, slot = buf_of(I, st, fh), add(c.s['address'], c.s['_pos']), '_pos'
    else:
        return NotImplemented
    I.put(st, f, slot, add(c.s[slot], vl(buf, off)))
    return vu(buf, off)


from .loops import fresh, ixvar     # noqa

VARINT = {
    'eventio.var_int.unsigned_varint': s_unsigned_varint,
    'eventio.var_int.varint': s_varint,
    'eventio.var_int.unsigned_varint_array': _varray('u8', lambda u: u),
    'eventio.var_int.varint_array': _varray('i8', zigzag),
    'eventio.var_int.unsigned_varint_arrays_differential': s_dvar,
    'eventio.tools.read_unsigned_varint': s_read_uvarint,
}
OBJECT = {
    'eventio.base.EventIOObject.read': obj_read,
    'eventio.base.EventIOObject.seek': obj_seek,
    'eventio.base.EventIOObject.tell': obj_tell,
}


def interp(happy=True, varint=True, obj=True, extra=None):
    s = {}
    if varint:
        s.update(VARINT)
    if obj:
        s.update(OBJECT)
    s.update(extra or {})
    I = Interp(happy=happy, summaries=s)
    I.module('eventio')
    return I


def new_object(I, st, cls, **kw):
    """an instance of an object class over the file, built by its own constructor"""
    t = I.class_attr(st, cls, 'eventio_type')
    fh = kw.pop('fh', None) or stream(I, st)
    h = header(I, st, t if t is not None and is_c(t) and cv(t) is not None else TYPE, **kw)
    o = I.instantiate(st, cls, [h, fh], {})
    return o


def base_class(I):
    return I.lookup_qual('eventio.base', 'EventIOObject')


def object_classes(I):
    """all subclasses of EventIOObject"""
    out, todo = [], [base_class(I)]
    while todo:
        c = todo.pop()
        for s in CLASSES[c].subs:
            if s not in out:
                out.append(s)
                todo.append(s)
    return out


def run_method(I, cls, name, args=(), **kw):
    """Outcome of calling a method on a fresh object; also the object and initial state"""
    st = State(dict(I.heap0))
    I.raises.append([])
    I.rets.append([])
    try:
        o = new_object(I, st, cls, **kw)
    finally:
        I.rets.pop()
        rs = I.raises.pop()
    if rs:
        I.init_raises = rs
    m = I.class_attr(st, cls, name)
    if m is None:
        return None, o
    return I.run(bm(o, m), list(args), {}, st), o
