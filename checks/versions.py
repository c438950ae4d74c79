"""Which versions parse refuses (C10)."""
from sa.terms import *
from sa import equiv, model, interp as IN
from .layout import GROUPS, CL, analysis, find_class, has_spec, method, where_method, spec_run
from . import repeat

NIE = 'NotImplementedError'
LAST = 4095


class Only:
    """a side of which only the refusal of the version matters"""

    def __init__(self, side, raises):
        self.ret, self.results, self.raises = TRUE, {}, raises


def refusal(side, keep):
    return {n: c for n, c in side.raises.items() if n in keep}


def version_unit(r, mod, name, typ, seed, tries):
    I = analysis()
    cls = find_class(I, name, typ, mod)
    I.module('spec.' + mod)
    I.visited.clear()
    where = where_method(I, cls, 'parse')
    o, ob = method(I, cls, 'parse')
    if o is None or o.value is None:
        r.bad('version', name, where, 'there is no parse method')
        return
    s = spec_run(I, mod, name)
    imp, ref = equiv.Side(I, o, {}), equiv.Side(I, s, {})
    eofs = equiv.EOFS
    a = Only(imp, refusal(imp, eofs + (NIE,)))
    b = Only(ref, refusal(ref, eofs + (NIE, 'Unspecified')))
    table = supported(I, b.raises.get(NIE, FALSE))
    # versions one by one: whatever the code does not refuse is returned or fails for another reason
    vs = list(range(0, 13)) + [None]
    for v in vs:
        at = eq(model.VERSION, C(v)) if v is not None else not_(lt(model.VERSION, C(13)))
        x, y = and_(at, a.raises.get(NIE, FALSE)), and_(at, b.raises.get(NIE, FALSE))
        what = 'version %s' % ('%d' % v if v is not None else '13 to 4095')
        if y is at:
            # refused in every case: nothing is returned
            k = and_(at, imp.ret)
            if x is at and k is FALSE:
                r.ok('refused', '%s %s' % (name, what), where)
                continue
        one = Only(imp, dict(a.raises))
        two = Only(ref, dict(b.raises))
        one.raises[NIE], two.raises[NIE] = x, y
        only = not_(at)
        two.raises['Unspecified'] = or_(two.raises.get('Unspecified', FALSE), only)
        V = equiv.compare(one, two, tries=tries, seed=seed, want=40,
                          fixed=lambda s, v=v: dict(equiv.default_fixed(s), version=v if v is not None else (13, 16, 4095, 1024, 256, 100)[s % 6]))
        r.verdict(V, 'version', '%s %s' % (name, what), where)
    r.info['supported'] = table
    r.info['functions'] = sorted(q for q in I.visited if not q.startswith('spec'))


def supported(I, cond):
    return [v for v in range(0, 13) if and_(eq(model.VERSION, C(v)), cond) is not eq(model.VERSION, C(v))]


def unknown_unit(r, seed):
    """classes without layout, and the generic class, refuse to be parsed"""
    I = analysis(happy=False)
    base = model.base_class(I)
    st = IN.State(dict(I.heap0))
    m = I.class_attr(st, base, 'parse')
    for only, what in ((TRUE, 'sub-objects only'), (FALSE, 'with data')):
        for c in [base] + sorted(model.object_classes(I), key=lambda c: CL(c).qual):
            if I.class_attr(st, c, 'parse') is not m:
                continue
            o, ob = method(I, c, 'parse', only_sub=only)
            where = where_method(I, c, 'parse')
            n = CL(c).qual
            if o.ret is FALSE:
                r.ok('no layout', '%s, %s' % (n, what), where)
            else:
                d = equiv.Side(I, o, {})
                one, two = Only(d, {}), Only(d, {})
                one.raises = {'returns': o.ret}
                V = equiv.compare(one, two, tries=300, seed=seed)
                r.verdict(V, 'no layout', '%s, %s' % (n, what), where)
            names = {equiv.exc_name(e) for _, e in o.raises}
            if what == 'with data' and CL(c).qual == CL(base).qual:
                if names <= {NIE}:
                    r.ok('no layout', 'generic objects say that they are not implemented', where)
                elif names:
                    r.bad('no layout', 'generic objects say that they are not implemented', where, 'raises %s' % sorted(names))
    r.info['functions'] = sorted(I.visited)


def units(pid, tier, seed):
    tries = 1500 if tier == 'quick' else 20000
    out = [(unknown_unit, 'objects without layout', (seed,))]
    I = analysis()
    for mod, cl in GROUPS.values():
        I.module('spec.' + mod)
        for n, t in cl.items():
            if has_spec(I, mod, n):
                out.append((version_unit, n, (mod, n, t, seed, tries)))
    return out
