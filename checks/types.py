"""Which class is delivered for which type (C11), telescope numbers in types and ids (C12)."""
import struct
from sa.terms import *
from sa import lib as L
from sa import equiv, model, interp as IN, front
from spec import types as T
from .core import Anchor
from .layout import analysis, CL, where_method, find_class, has_spec, construct
from . import fileio
from .fileio import run, PLAIN, PATH

SYNC = struct.pack('<I', 0xd41f8a37)


def word(typ, ident=0, sub=False, version=0):
    return struct.pack('<Iii', typ | version << 20, ident, 0x30 | (1 << 30 if sub else 0))


def expected(typ):
    """qualified name of the class made for a type"""
    for tab, mod in ((T.IACT, 'eventio.iact'), (T.SIMTEL, 'eventio.simtel'), (T.HISTOGRAMS, 'eventio.histograms')):
        if typ in tab:
            return mod, tab[typ]
    if T.telescope_of(2100, typ) is not None:
        return 'eventio.simtel', 'TrackingPosition'
    if T.telescope_of(2200, typ) is not None:
        return 'eventio.simtel', 'TelescopeEvent'
    return None


def ident_of(typ):
    """an id that belongs to the type"""
    t = T.telescope_of(2100, typ)
    return (t & 0xff) | (t >> 8 & 0x3f) << 24 if t is not None else 0


def delivered(I, typ, how):
    """class of the object delivered for a header of that type; None: no object is delivered"""
    def drive(I, st):
        fileio.begin(I, st, 'plain')
        w = word(typ, ident_of(typ))
        if how == 'file':
            L.PREFIX[PLAIN] = SYNC + w
            o = fileio.open_file(I, st, 'plain')
            return I.call_method(st, o, '__next__', [])
        L.PREFIX[PLAIN] = SYNC + word(2010, 0, True) + w
        fh = model.stream(I, st, buf=PLAIN, size=fileio.FS)
        h = model.header(I, st, C(9999), addr=C(16), size=C(0x30), only_sub=TRUE)
        o = I.instantiate(st, model.base_class(I), [h, fh], {})
        return I.call_method(st, o, '__next__', [])
    out = run(I, drive)
    if out.ret is FALSE:
        return None, out
    v = out.value
    return (I.cell(out.state, v).meta.get('cls') if v.k == 'ref' else None), out


def chosen(tier, seed):
    """all types with a meaning, their neighbourhood, and a sample of the others"""
    known = set(T.IACT) | set(T.SIMTEL) | set(T.HISTOGRAMS)
    for t in range(1000):
        known.add(T.telescope_type(2100, t))
        known.add(T.telescope_type(2200, t))
    other = set(range(0, 110)) | set(range(1190, 1230)) | set(range(1990, 2310)) | {65535, 32768, 32767}
    for b in (2100, 2200):
        for k in range(0, 12):
            other |= {b + 1000 * k - 1, b + 1000 * k + 100, b + 1000 * k + 199, b + 1000 * k}
    step = 211 if tier == 'quick' else 7
    other |= set(range(seed % step, 65536, step))
    return sorted(known | other)


def delivery_unit(r, types, how):
    I = analysis(obj=False, extra=fileio.environment('plain'))
    base = model.base_class(I)
    where = where_method(I, base, '__next__') if how != 'file' else where_method(
        I, I.lookup_qual('eventio.base', 'EventIOFile'), '__next__')
    for t in types:
        cls, out = delivered(I, t, how)
        e = expected(t)
        what = 'type %d' % t
        if cls is None:
            if out.ret is FALSE:
                r.bad('delivery', what, where, 'nothing is delivered for objects of type %d, but %s' % (
                    t, sorted({equiv.exc_name(x) for _, x in out.raises})))
            else:
                r.open('delivery', what, where, 'class not determined')
            continue
        c = CL(cls)
        if e is None:
            own = I.class_attr(out.state, cls, 'eventio_type')
            good = cls is base or own is not None and is_c(own) and cv(own) == t
            r.decide('delivery', what, where, good, 'objects of the unknown type %d are delivered as %s' % (t, c.qual))
        else:
            good = c.name == e[1] and c.qual.startswith(e[0]) or cls is named(I, e)
            r.decide('delivery', what, where, good, 'objects of type %d are delivered as %s instead of %s of %s' % (t, c.qual, e[1], e[0]))
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def named(I, e):
    """the class that the package offers under that name"""
    try:
        I.module(e[0])
        return I.lookup_qual(e[0], e[1])
    except Exception:
        return None


def refusal_unit(r, seed):
    """the constructor of a class refuses headers of other types"""
    I = analysis()
    for cls in sorted(model.object_classes(I), key=lambda c: CL(c).qual):
        st = IN.State(dict(I.heap0))
        t = I.class_attr(st, cls, 'eventio_type')
        if t is None or not is_c(t) or cv(t) is None:
            continue
        where = where_method(I, cls, '__init__')
        name = CL(cls).qual

        def drive(I, st):
            return I.instantiate(st, cls, [model.header(I, st, model.TYPE), model.stream(I, st)], {})
        out = run(I, drive)
        side = equiv.Side(I, out, {})
        other = not_(eq(model.TYPE, t))
        a, b = Only(side.raises.get('WrongType', FALSE)), Only(other)
        V = equiv.compare(a, b, tries=400, seed=seed, want=60, eofs=(), fixed=lambda s: dict(
            equiv.default_fixed(s), type=cv(t) + (0, 1, 0, -1, 1000, 7)[s % 6]))
        r.verdict(V, 'refusal', name, where)
        # and nothing comes back
        k = and_(other, side.ret)
        if k is FALSE:
            r.ok('refusal', name + ' returns nothing', where)
    r.info['functions'] = sorted(I.visited)


class Only:
    def __init__(self, c):
        self.ret, self.results, self.raises = TRUE, {}, {'WrongType': c}


def class_units(pid, tier, seed):
    ts = chosen(tier, seed)
    n = 4
    out = []
    for how in ('file', 'sub-object'):
        for k in range(n):
            out.append((delivery_unit, '%s, part %d' % (how, k + 1), (ts[k::n], how)))
    out.append((refusal_unit, 'headers of other types', (seed,)))
    return out


# --------------------------------------------------------------------------- telescope numbers
ENCODED = (('eventio.simtel', 'TrackingPosition', 2100), ('eventio.simtel', 'TelescopeEvent', 2200))


def call_static(I, cls, name, args):
    f = I.class_attr(IN.State(dict(I.heap0)), cls, name)
    if f is None:
        raise Anchor('%s.%s' % (CL(cls).qual, name))
    return run(I, lambda I, st: I.call(st, I.getattr(st, cls, name), args, {}))


def number_unit(r, mod, name, base, seed):
    """type of a telescope, telescope of a type: one by one for the telescopes up to 1000"""
    I = analysis(happy=False)
    cls = find_class(I, name, None, mod)
    where = where_method(I, cls, 'telid_to_type') + ' ' + where_method(I, cls, 'type_to_telid')
    seen = {}
    for t in range(1000):
        a = call_static(I, cls, 'telid_to_type', [C(t)])
        if a.ret is FALSE or not is_c(a.value):
            r.open('type of a telescope', '%s %d' % (name, t), where, 'not a number: %s' % show(a.value)[:80])
            continue
        typ = cv(a.value)
        r.decide('type of a telescope', '%s %d' % (name, t), where, typ == T.telescope_type(base, t),
                 'telescope %d gets type %r, the format has %d' % (t, typ, T.telescope_type(base, t)))
        r.decide('different telescopes', '%s %d' % (name, t), where, typ not in seen,
                 'telescopes %d and %s both get type %r' % (t, seen.get(typ), typ))
        seen[typ] = t
        b = call_static(I, cls, 'type_to_telid', [C(typ)])
        if b.ret is FALSE or not is_c(b.value):
            r.open('back', '%s %d' % (name, t), where, 'not a number')
            continue
        r.decide('back', '%s %d' % (name, t), where, cv(b.value) == t,
                 'type %r of telescope %d decodes to %r' % (typ, t, cv(b.value)))
    # any type and number at all
    n = sym('telescope', rng=(0, 65535))
    I.module('spec.telescopes')
    for f, g in (('telid_to_type', 'type_of'), ('type_to_telid', 'telescope_of')):
        a = call_static(I, cls, f, [n])
        s = fileio.spec_call(I, 'spec.telescopes', g, [C(base), n])
        V = equiv.compare(equiv.Side(I, a, {'result': a.value}), equiv.Side(I, s, {'result': s.value}), tries=600, seed=seed,
                          fixed=lambda s: {'telescope': (s * 37) % 12000 if s % 2 else (s * 7) % 300})
        r.verdict(V, 'any number', '%s.%s' % (name, f), where)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def id_unit(r, name, typ, mod, fields, tries, want, seed):
    """attributes that identify the telescope"""
    I = analysis()
    cls = find_class(I, name, typ, mod)
    I.module('spec.telescopes')
    I.visited.clear()
    where = where_method(I, cls, '__init__')
    c = construct(I, cls)
    from .layout import L_bs
    st = IN.State(dict(I.heap0))
    I.module('spec.dsl')
    R = I.lookup_qual('spec.dsl', 'Reader')
    h = model.header(I, st, I.class_attr(st, cls, 'eventio_type') if typ else model.TYPE)
    rd = I.instantiate(st, R, [L_bs(model.F, model.ADDR, model.SIZE)], {})
    f = I.lookup_qual('spec.telescopes', fields)
    s = I.run(f, [rd, h], {}, st)
    d = I.freeze(s.state, s.value)
    res = {'.' + cv(k): v for k, v in d.a[0]}
    got = {}
    if c.ret is not FALSE:
        for k in res:
            v = I.getattr_or_none(c.state, c.value, k[1:])
            got[k] = I.freeze(c.state, v) if v is not None else IN.UNDEF
    V = equiv.compare(equiv.Side(I, c, got), equiv.Side(I, s, res), tries=tries, want=want, seed=seed)
    r.verdict(V, 'announced telescope', name, where)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def parsed_unit(r, name, typ, mod, fields, tries, want, seed):
    """the telescope in the result of parse"""
    from .layout import method, L_bs
    I = analysis()
    cls = find_class(I, name, typ, mod)
    I.module('spec.telescopes')
    I.module('spec.dsl')
    I.visited.clear()
    where = where_method(I, cls, 'parse')
    o, ob = method(I, cls, 'parse')
    if o is None or o.ret is FALSE:
        r.bad('telescope of a result', name, where, 'parse never returns')
        return

    def drive(I, st):
        R = I.lookup_qual('spec.dsl', 'Reader')
        h = model.header(I, st, I.class_attr(st, cls, 'eventio_type') if typ else model.TYPE)
        rd = I.instantiate(st, R, [L_bs(model.F, model.ADDR, model.SIZE)], {})
        d = I.call(st, I.lookup_qual('spec.telescopes', fields), [rd, h], {})
        return I.getitem(st, d, C('telescope_id'))
    s = run(I, drive)
    v = I.split(o.state, o.value, lambda st, x: I.getitem(st, x, C('telescope_id')))
    V = equiv.compare(equiv.Side(I, o, {'telescope_id': v}), equiv.Side(I, s, {'telescope_id': s.value}), tries=tries, want=want,
                      seed=seed, raises=False)
    r.verdict(V, 'telescope of a result', name, where)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


BY_ID = ('CameraSettings', 'CameraOrganization', 'PixelSettings', 'DisabledPixels', 'CameraSoftwareSettings', 'PointingCorrection',
         'DriveSettings', 'PixelTriggerTimes', 'PixelMonitoring', 'LaserCalibration')
RESULTS = (('CameraSettings', 2002, 'header_id'), ('CameraOrganization', 2003, 'header_id'), ('PixelSettings', 2004, 'header_id'),
           ('DisabledPixels', 2005, 'header_id'), ('CameraSoftwareSettings', 2006, 'header_id'), ('PointingCorrection', 2007, 'header_id'),
           ('TrackingPosition', None, 'tracking'), ('TelescopeEventHeader', 2011, 'header_id'),
           ('ImageParameters', 2014, 'split_id'), ('CameraMonitoring', 2022, 'split_id'), ('LaserCalibration', 2023, 'header_id'),
           ('PixelList', 2027, 'pixel_list'))


def telescope_units(pid, tier, seed):
    t, w = (1500, 300) if tier == 'quick' else (20000, 5000)
    out = [(number_unit, n, (m, n, b, seed)) for m, n, b in ENCODED]
    for n in BY_ID:
        typ = {v: k for k, v in T.SIMTEL.items()}[n]
        out.append((id_unit, n, (n, typ, 'simtel', 'header_id', t, w, seed)))
    for n, typ, mod, f in (('TelescopeEvent', None, 'simtel', 'event'), ('TrackingPosition', None, 'simtel', 'tracking'),
                           ('ADCSums', 2012, 'simtel', 'sums'), ('ADCSamples', 2013, 'simtel', 'samples'),
                           ('ImageParameters', 2014, 'simtel', 'split_id'), ('CameraMonitoring', 2022, 'simtel', 'split_id'),
                           ('PixelList', 2027, 'simtel', 'pixel_list'), ('Photons', 1205, 'iact', 'array_id'),
                           ('PhotoElectrons', 1208, 'iact', 'array_id')):
        out.append((id_unit, n, (n, typ, mod, f, t, w, seed)))
    for n, typ, f in RESULTS:
        out.append((parsed_unit, n + ' result', (n, typ, 'simtel', f, t, w, seed)))
    return out
