"""Parsing twice, in any state of the object and the file, and with other objects in between (C09)."""
from sa.terms import *
from sa import lib as L
from sa import equiv, model, interp as IN, front
from sa.interp import State
from .core import Anchor
from .layout import analysis, construct, where_method, CL
from .fileio import run


def classes(I):
    base = model.base_class(I)
    out = []
    st = IN.State(dict(I.heap0))
    b = I.class_attr(st, base, 'parse')
    for c in model.object_classes(I):
        m = I.class_attr(st, c, 'parse')
        if m is not None and m is not b:
            out.append(c)
    return sorted(out, key=lambda c: CL(c).qual)


def havoc(I, st, o, k):
    """any position of the object and of the file"""
    c = I.cell(st, o)
    for a in sorted(positions(I) & set(c.s)):
        I.put(st, o, a, sym('any%s%d' % (a, k), rng=(0, 1 << 41)))
    fh = c.s.get('_filehandle')
    if fh is not None and fh.k == 'ref' and I.cell(st, fh).kind == 'bio':
        I.put(st, fh, 'pos', sym('anywhere%d' % k, rng=(0, 1 << 41)))


def announced(I, st, o):
    out = {}
    for a, v in I.cell(st, o).s.items():
        if isinstance(a, str) and not a.startswith('_') and v is not IN.UNDEF:
            if a == 'header' and v.k == 'ref':
                for q, w in I.cell(st, v).s.items():
                    out['header.' + str(q)] = I.freeze(st, w)
            elif v.k != 'func':
                out[a] = I.freeze(st, v)
    return out


def other_object(I, st, cls, fh):
    t = I.class_attr(st, cls, 'eventio_type')
    h = model.header(I, st, t if t is not None and is_c(t) and cv(t) is not None else model.TYPE,
                     version=sym('version2', rng=(0, 4095)), ident=sym('id2', rng=(-(1 << 31), (1 << 31) - 1)),
                     addr=sym('address2', rng=(16, 1 << 40)), size=sym('size2', rng=(0, 1 << 40)))
    return I.instantiate(st, cls, [h, fh], {})


def parse(I, st, o):
    return I.call_method(st, o, 'parse', [])


def once(I, cls):
    """first parse of a fresh object"""
    def drive(I, st):
        o = model.new_object(I, st, cls)
        return I.freeze(st, parse(I, st, o))
    return run(I, drive)


def positions(I):
    """the attributes of an object that hold its positions"""
    z = State(dict(I.heap0))
    plain = I.cell(z, model.new_object(I, z, model.base_class(I))).s
    return {a for a, v in plain.items() if isinstance(a, str) and a.startswith('_') and v.ty == 'int'}


def written(I, before, after, o):
    """slots of things that existed before and were assigned something else"""
    pos = positions(I)
    own = I.hkey(o)
    fh = I.cell(after, o).s.get('_filehandle')
    fh = I.hkey(fh) if fh is not None and fh.k == 'ref' else None
    out = []
    for k, a in before.heap.items():
        b = after.heap.get(k)
        if b is None or b is a or isinstance(k, tuple) and k[0] == 'frame':
            continue
        for x in set(a.s) | set(b.s):
            if a.s.get(x) is b.s.get(x) or k == own and x in pos or k == fh and x == 'pos':
                continue
            out.append((k, x))
    return out


def repeat_unit(r, name, tries, want, seed):
    I = analysis()
    cls = next((c for c in classes(I) if CL(c).qual == name), None)
    if cls is None:
        raise Anchor(name)
    where = where_method(I, cls, 'parse')
    I.visited.clear()
    a = once(I, cls)
    if a.ret is FALSE:
        r.ok('nothing is parsed', name, where)
        return
    W = []

    def first(I, st):
        o = model.new_object(I, st, cls)
        havoc(I, st, o, 0)
        before = st.snap()
        v = I.freeze(st, parse(I, st, o))
        W.extend(written(I, before, st, o))
        return v
    b = run(I, first)
    r.info['functions'] = sorted(I.visited)
    what = 'result in any position of object and file'
    V = equiv.compare(equiv.Side(I, b, {what: b.value}), equiv.Side(I, a, {what: a.value}), want=want, tries=tries, seed=seed)
    r.verdict(V, 'independent of the position', name, where)
    if not W:
        # nothing but the positions is different after a call: the next one starts in one of these states
        r.ok('parse assigns nothing that existed before except positions', name, where)
        return
    again_unit(r, I, cls, name, where, a, W, tries, want, seed)


def again_unit(r, I, cls, name, where, a, W, tries, want, seed):
    """parse leaves something behind: does it influence the next call, or another object?"""
    def again(I, st):
        o = model.new_object(I, st, cls)
        before = announced(I, st, o)
        parse(I, st, o)
        havoc(I, st, o, 1)
        v = I.freeze(st, parse(I, st, o))
        after = announced(I, st, o)
        keys = sorted(before)
        return tup(v, tup(*[before[k] for k in keys]), tup(*[after.get(k, IN.UNDEF) for k in keys]), C('|'.join(keys)))
    b = run(I, again)
    res, ref = {}, {}
    if b.ret is not FALSE:
        v, x, y, keys = b.value.a if b.value.k == 'tup' else (L.titem(b.value, C(k)) for k in range(4))
        res['result of the second parse'], ref['result of the second parse'] = v, a.value
        if x.k == 'tup' and y.k == 'tup' and is_c(keys):
            for k, p, q in zip(cv(keys).split('|'), x.a, y.a):
                res['attribute %s after parse' % k], ref['attribute %s after parse' % k] = q, p
    V = equiv.compare(equiv.Side(I, b, res), equiv.Side(I, a, ref), want=want, tries=tries, seed=seed)
    r.verdict(V, 'second parse', name, where)

    def between(I, st):
        o = model.new_object(I, st, cls)
        p = other_object(I, st, cls, I.cell(st, o).s['_filehandle'])
        I.raises.append([])
        try:
            parse(I, st, p)
        finally:
            I.raises.pop()
        return I.freeze(st, parse(I, st, o))
    c = run(I, between)
    what = 'result after another object was parsed'
    V = equiv.compare(equiv.Side(I, c, {what: c.value}), equiv.Side(I, a, {what: a.value}), want=want, tries=tries, seed=seed, raises=False)
    V.proved = min(V.proved, 1)
    r.verdict(V, 'other objects', name, where)


def repeat_units(pid, tier, seed):
    t, w = (4000, 200) if tier == 'quick' else (40000, 4000)
    I = analysis()
    return [(repeat_unit, CL(c).qual, (CL(c).qual, t, w, seed)) for c in classes(I)]
