"""Payload decoding: every object class against the reference description of its contents."""
import ast
from sa.terms import *
from sa import front, equiv, model, interp as IN
from .core import Anchor, CURRENT

GROUPS = {
    'C13': ('simtel', {
        'HistoryCommandLine': 71, 'HistoryConfig': 72, 'HistoryMeta': 75, 'RunHeader': 2000, 'MCRunHeader': 2001,
        'CameraSettings': 2002, 'CameraOrganization': 2003, 'PixelSettings': 2004, 'DisabledPixels': 2005,
        'CameraSoftwareSettings': 2006, 'PointingCorrection': 2007, 'DriveSettings': 2008}),
    'C14': ('simtel', {
        'TriggerInformation': 2009, 'TrackingPosition': None, 'TelescopeEvent': None, 'ArrayEvent': 2010,
        'TelescopeEventHeader': 2011, 'ADCSums': 2012, 'ADCSamples': 2013, 'ImageParameters': 2014,
        'StereoReconstruction': 2015, 'PixelTiming': 2016, 'PixelList': 2027, 'AuxiliaryDigitalTraces': 2029,
        'AuxiliaryAnalogTraces': 2030, 'PixelTriggerTimes': 2032}),
    'C15': ('simtel', {
        'MCShower': 2020, 'MCExtraParams': 1215, 'MCEvent': 2021, 'CameraMonitoring': 2022, 'LaserCalibration': 2023,
        'MCPhotoelectronSum': 2026, 'CalibrationEvent': 2028, 'PixelMonitoring': 2033}),
    'C16': ('iact', {
        'RunHeader': 1200, 'TelescopeDefinition': 1201, 'EventHeader': 1202, 'ArrayOffsets': 1203, 'TelescopeData': 1204,
        'Photons': 1205, 'CameraLayout': 1206, 'TriggerTime': 1207, 'PhotoElectrons': 1208, 'EventEnd': 1209,
        'RunEnd': 1210, 'Longitudinal': 1211, 'InputCard': 1212, 'AtmosphericProfile': 1216}),
    'C17': ('histograms', {'Histograms': 100}),
}


def analysis(happy=True, **kw):
    I = model.interp(happy=happy, **kw)
    CURRENT[0] = I
    return I


def find_class(I, name, typ, mod):
    cs = model.object_classes(I)
    c = [c for c in cs if CL(c).name == name and CL(c).qual.startswith('eventio.' + mod)] or \
        [c for c in cs if CL(c).name == name]
    if not c and typ is not None:
        st = IN.State(dict(I.heap0))
        for k in cs:
            t = I.class_attr(st, k, 'eventio_type')
            if t is not None and is_c(t) and cv(t) == typ:
                c.append(k)
    if not c:
        raise Anchor('no class %s (type %s) below EventIOObject' % (name, typ))
    return c[0]


def CL(c):
    return IN.CLASSES[c]


def spec_run(I, mod, name, typ=model.TYPE):
    st = IN.State(dict(I.heap0))
    R = I.lookup_qual('spec.dsl', 'Reader')
    h = model.header(I, st, typ)
    r = I.instantiate(st, R, [L_bs(model.F, model.ADDR, model.SIZE)], {})
    f = I.lookup_qual('spec.' + mod, name)
    return I.run(f, [r, h], {}, st)


def L_bs(*a):
    from sa import lib
    return lib.bs(*a)


def has_spec(I, mod, name):
    try:
        return I.lookup_qual('spec.' + mod, name) is not None
    except Exception:
        return False


def construct(I, cls, **kw):
    """(Outcome of the constructor, object)"""
    st = IN.State(dict(I.heap0))
    I.raises.append([])
    I.rets.append([])
    out = IN.Outcome()
    o = None
    try:
        o = model.new_object(I, st, cls, **kw)
        out.ret = st.pc
    except IN.Dead:
        out.ret = FALSE
    finally:
        I.rets.pop()
        out.raises = I.raises.pop()
    out.state, out.value = st, o
    return out


def method(I, cls, name, args=(), setup=None, **kw):
    """Outcome of construction followed by a method call"""
    c = construct(I, cls, **kw)
    if c.ret is FALSE:
        return c, c.value
    if setup:
        setup(c.state, c.value)
    m = I.class_attr(c.state, cls, name)
    if m is None:
        return None, c.value
    o = I.run(IN.bm(c.value, m), list(args), {}, c.state)
    o.raises = list(c.raises) + list(o.raises)
    return o, c.value


def where_method(I, cls, name):
    st = IN.State(dict(I.heap0))
    m = I.class_attr(st, cls, name)
    f = IN.FUNCS.get(m)
    return front.loc(f.node) if f is not None else ''


def key_site(I, cls, result):
    """the line where the named field is set, in the functions that were analysed"""
    import re
    k = re.findall(r"\['([^']+)'\]|\.(\w+)", result)
    k = [a or b for a, b in k]
    if not k:
        return None
    for f in list(IN.FUNCS.values()):
        if f.qual not in I.visited or f.qual.startswith('spec'):
            continue
        for n in ast.walk(f.node):
            for key in reversed(k):
                if isinstance(n, ast.Constant) and n.value == key:
                    return front.loc(n) + ' (in %s)' % f.qual
                if isinstance(n, ast.Attribute) and n.attr == key and isinstance(n.ctx, ast.Store):
                    return front.loc(n) + ' (in %s)' % f.qual
    return None


def layout_unit(r, mod, name, typ, tries, want, seed):
    I = analysis()
    cls = find_class(I, name, typ, mod)
    I.module('spec.' + mod)
    I.visited.clear()
    if has_spec(I, mod, name):
        o, ob = method(I, cls, 'parse')
        where = where_method(I, cls, 'parse')
        if o is None:
            r.bad('layout', 'parse', where, 'there is no parse method')
        else:
            s = spec_run(I, mod, name)
            imp = equiv.Side(I, o, {'result': I.freeze(o.state, o.value) if o.ret is not FALSE else IN.UNDEF})
            ref = equiv.Side(I, s, {'result': I.freeze(s.state, s.value)})
            V = equiv.compare(imp, ref, want=want, tries=tries, seed=seed)
            relocate(I, cls, V)
            r.verdict(V, 'layout', name + '.parse', where)
    if has_spec(I, mod, name + '_attrs'):
        c = construct(I, cls)
        where = where_method(I, cls, '__init__')
        s = spec_run(I, mod, name + '_attrs')
        d = I.freeze(s.state, s.value)
        res = {'.' + cv(k): v for k, v in d.a[0]}
        got = {}
        if c.ret is not FALSE:
            for k in res:
                v = I.getattr_or_none(c.state, c.value, k[1:])
                got[k] = I.freeze(c.state, v) if v is not None else IN.UNDEF
        V = equiv.compare(equiv.Side(I, c, got), equiv.Side(I, s, res), want=want, tries=tries, seed=seed)
        relocate(I, cls, V)
        r.verdict(V, 'attributes', name, where)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def chunk_unit(r, counts, sizes, versions, tries, want, seed):
    """photon bunches delivered in portions"""
    from sa import lib
    base = C(96)
    for n in counts:
        for k in sizes:
            for ver in versions:
                I = analysis()
                I.concrete = True
                cls = find_class(I, 'Photons', 1205, 'iact')
                I.module('spec.iact')
                lib.KNOWN[model.F] = {104 + i: b for i, b in enumerate(n.to_bytes(4, 'little'))}
                try:
                    kw = dict(addr=base, ident=C(5), version=C(ver))
                    o, ob = method(I, cls, 'parse', [C(k)], **kw)
                    if o is None or o.ret is FALSE:
                        r.bad('chunks', '%d bunches in chunks of %d' % (n, k), where_method(I, cls, 'parse'), 'nothing is delivered')
                        continue
                    L = I.run(IN.ext('list'), [o.value], {}, o.state)
                    L.raises = list(o.raises) + list(L.raises)
                    st = IN.State(dict(I.heap0))
                    h = model.header(I, st, C(1205), **kw)
                    R = I.instantiate(st, I.lookup_qual('spec.dsl', 'Reader'), [L_bs(model.F, base, model.SIZE)], {})
                    s = I.run(I.lookup_qual('spec.iact', 'Photons_chunks'), [R, h, C(k)], {}, st)
                    imp = equiv.Side(I, L, {'chunks': I.freeze(L.state, L.value) if L.ret is not FALSE else IN.UNDEF})
                    ref = equiv.Side(I, s, {'chunks': I.freeze(s.state, s.value)})
                    V = equiv.compare(imp, ref, want=want, tries=tries, seed=seed)
                    r.verdict(V, 'chunks', '%d bunches of version %d in chunks of %d' % (n, ver, k), where_method(I, cls, 'parse'))
                finally:
                    lib.KNOWN.pop(model.F, None)
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def relocate(I, cls, V):
    V.violations = [(n, ((key_site(I, cls, d) or '') + ' ' + d).strip(), w) for n, d, w in V.violations]


def units(pid, tier, seed):
    mod, cl = GROUPS[pid]
    tries, want = (6000, 400) if tier == 'quick' else (60000, 5000)
    out = [(layout_unit, n, (mod, n, t, tries, want, seed)) for n, t in cl.items()]
    if pid == 'C16':
        sizes = (1, 2, 3, 4, 7) if tier == 'quick' else range(1, 10)
        tries, want = (600, 40) if tier == 'quick' else (6000, 400)
        for n in (0, 1, 2, 4, 6) if tier == 'quick' else range(9):
            out.append((chunk_unit, 'chunks of %d bunches' % n, ([n], list(sizes), [0, 1000], tries, want, seed)))
    return out
