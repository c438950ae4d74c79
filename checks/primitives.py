"""Numbers, strings and arrays: the functions everything else is built from (C05, C06, C07)."""
from sa.terms import *
from sa import lib as L
from sa import equiv, model, interp as IN, front
from .core import Anchor
from .layout import analysis
from .fileio import run, spec_call

N = sym('datasize', rng=(0, 1 << 41))
OFF = sym('offset', rng=(0, 1 << 41))
CNT = sym('count', rng=(0, 1 << 31))
BYTE = sym('byte', rng=(0, 255))
CNT2 = sym('count2', rng=(0, 1 << 31))
DATA = L.bs(model.F, ZERO, N)


def values(args):
    """the units are sent to other processes: names of symbols instead of terms"""
    return [globals()[x[1:]] if isinstance(x, str) and x.startswith('$') else C(x) for x in args]


def function(I, name):
    f = I.lookup_qual(name.rsplit('.', 1)[0], name.rsplit('.', 1)[1])
    if f is None:
        raise Anchor(name)
    return f


def where_of(f):
    return front.loc(IN.FUNCS[f].node) if f in IN.FUNCS else ''


def data_fixed(s):
    n = (s * 7) % 23
    return {'datasize': n if s % 3 else 60, 'offset': (0, 1, 3, n, n + 1, n - 1 if n else 0)[s % 6] if s % 3 else s % 5,
            'count': (s // 3) % 4, 'count2': (s // 5) % 4}


def compare(r, I, rule, name, where, imp, ref, parts, tries, want, seed, fixed=data_fixed):
    """all exceptions are one class: that reading fails is specified, not with which exception"""
    a = IN.UNDEF if imp.ret is FALSE else I.freeze(imp.state, imp.value)
    b = IN.UNDEF if ref.ret is FALSE else I.freeze(ref.state, ref.value)
    res, spec = {}, {}
    for k, p in enumerate(parts):
        sel = (lambda v: v) if len(parts) == 1 else (lambda v: L.titem(v, C(k)) if v is not IN.UNDEF else v)
        res[p], spec[p] = sel(a), sel(b)
    x, y = equiv.Side(I, imp, res), equiv.Side(I, ref, spec)
    equiv.union(x)
    equiv.union(y)
    r.verdict(equiv.compare(x, y, want=want, tries=tries, seed=seed, fixed=fixed, eofs=()), rule, name, where)


def var_unit(r, name, args, spec, parts, tries, want, seed):
    I = analysis(happy=False, varint=False, obj=False)
    args = values(args)
    f = function(I, 'eventio.var_int.' + name)
    I.module('spec.varint')
    I.visited.clear()
    imp = spec_call(I, 'eventio.var_int', name, args)
    r.info['functions'] = sorted(q for q in I.visited)
    ref = spec_call(I, 'spec.varint', spec, args)
    compare(r, I, 'variable length integer', name, where_of(f), imp, ref, parts, tries, want, seed)


def varint_units(pid, tier, seed):
    t, w = (3000, 400) if tier == 'quick' else (40000, 6000)
    return [(var_unit, n, (n, a, s, p, t, w, seed)) for n, a, s, p in (
        ('get_length_of_varint', ['$BYTE'], 'length', ['bytes']),
        ('parse_varint', ['$DATA'], 'parse_varint', ['value']),
        ('unsigned_varint', ['$DATA', '$OFF'], 'unsigned_varint', ['value', 'bytes']),
        ('varint', ['$DATA', '$OFF'], 'varint', ['value', 'bytes']),
        ('unsigned_varint_array', ['$DATA', '$CNT', '$OFF'], 'unsigned_varint_array', ['values', 'bytes']),
        ('varint_array', ['$DATA', '$CNT', '$OFF'], 'varint_array', ['values', 'bytes']),
    )]


def differential_units(pid, tier, seed):
    t, w = (3000, 400) if tier == 'quick' else (40000, 6000)
    n = 'unsigned_varint_arrays_differential'
    return [(var_unit, n, (n, ['$DATA', '$CNT', '$CNT2', '$OFF'], n, ['values', 'bytes'], t, w, seed))]


# --------------------------------------------------------------------------- streams
FS = sym('filesize', rng=(0, 1 << 41))
POS = sym('position', rng=(0, 1 << 41))


def read_unit(r, name, args, spec, sargs, tries, want, seed):
    I = analysis(happy=False, varint=False, obj=False)
    args, sargs = values(args), values(sargs)
    f = function(I, 'eventio.tools.' + name)
    I.module('spec.primitives')
    I.visited.clear()

    def drive(I, st):
        fh = model.stream(I, st, size=FS)
        I.put(st, fh, 'pos', POS)
        v = I.freeze(st, I.call(st, f, [fh] + list(args), {}))
        return tup(v, I.freeze(st, I.cell(st, fh).s['pos']))
    imp = run(I, drive)
    r.info['functions'] = sorted(q for q in I.visited)
    ref = spec_call(I, 'spec.primitives', spec, [L.bs(model.F, ZERO, FS), POS] + list(sargs))

    def fixed(s):
        n = (s * 7) % 23
        return {'filesize': n if s % 3 else 200, 'position': (0, 1, 3, n, n + 1, max(n - 4, 0))[s % 6] if s % 3 else s % 5,
                'count': (s // 3) % 5}
    compare(r, I, 'primitive value', name + ''.join(' ' + str(cv(a)) for a in args if is_c(a)), where_of(f), imp, ref,
            ['value', 'position after it'], tries, want, seed, fixed)


def read_units(pid, tier, seed):
    t, w = (2000, 300) if tier == 'quick' else (40000, 6000)
    N = '$CNT'
    out = [('read_short', [], 'short', []), ('read_unsigned_short', [], 'unsigned_short', []),
           ('read_int', [], 'integer', []), ('read_unsigned_int', [], 'unsigned_integer', []),
           ('read_float', [], 'float4', []), ('read_double', [], 'float8', []),
           ('read_string', [], 'string', []), ('read_var_string', [], 'var_string', []),
           ('read_time', [], 'time', []), ('read_ints', [N], 'ints', [N]),
           ('read_from', ['<2i'], 'time', []), ('read_from', ['<i4s'], 'four', []),
           ('read_varint', [], 'varint', []), ('read_unsigned_varint', [], 'unsigned_varint', [])]
    for d, n in (('<i2', 2), ('<u2', 2), ('<i4', 4), ('<u4', 4), ('<i8', 8), ('<u8', 8), ('<f4', 4), ('<f8', 8), ('u1', 1), ('i1', 1)):
        out.append(('read_array', [d, N], 'array_of', [d, n, N]))
    return [(read_unit, ' '.join([n] + [x for x in a if x[0] != '$']), (n, a, s, sa, t, w, seed)) for n, a, s, sa in out]
