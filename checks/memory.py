"""Accesses of compiled code to its buffers (C08).

Every index expression of a compiled function is either checked at run time (the default of
Cython) or must be proved to be inside of its buffer: loads through pointers, C arrays and
functions compiled without bounds checks.  An access that may be outside is an additional way
to leave the function, so loops and paths need no special treatment.
"""
import ast
from sa.terms import *
from sa import terms as TM
from sa import lib as L
from sa import equiv, model, interp as IN, front
from .core import Anchor, PROVED
from .layout import analysis

BUFS = {'uint8_t': 'u1', 'int32_t': 'i4', 'uint32_t': 'u4', 'int16_t': 'i2', 'uint16_t': 'u2', 'int64_t': 'i8', 'uint64_t': 'u8',
        'float': 'f4', 'double': 'f8', 'int': 'i4'}


def compiled_modules():
    return [m for m in front.all_modules() if (front.module_path(m) or '').endswith('.pyx')]


def public_functions(I, mod):
    """def and cpdef functions"""
    src = front.load(mod)
    out = []
    for n in src.tree.body:
        if isinstance(n, ast.FunctionDef) and getattr(n, '_cpublic', False):
            out.append(n.name)
    return out


def eof(summary, k):
    """the summary of a decoder which is analysed in a unit of its own"""
    def h(I, st, args, kw):
        b = args[0] if args else kw['data']
        off = args[k] if len(args) > k else kw.get('offset', ZERO)
        r = summary(I, st, args, kw)

        def g(s, x):
            I.throw(s, I.exc('EOFError'), TM.lt(L.blen(I, s, b), add(TM._num(off), x.a[1])))
            return NONE
        I.split(st, r, g)
        return r
    return h


# decoders which other functions call; they are units of their own
CALLED = {q: eof(f, 3 if 'arrays' in q else 2 if 'array' in q else 1) for q, f in model.VARINT.items() if q.startswith('eventio.var_int.')}


def argument(I, name, ct, k):
    """any value of a C type"""
    p = ct.split(':')
    if p[0] in ('memview', 'ndarray') and p[1] in BUFS:
        nd = int(p[2])
        size = sym('size_' + name, rng=(0, 1 << 41))
        buf = sym('BUF_' + name, 'bytes')
        I.buffers[buf] = size
        if p[1] == 'uint8_t' and nd == 1:
            return L.bs(buf, ZERO, size)
        sh = tuple(sym('shape%d_%s' % (d, name), rng=(0, 1 << 31)) for d in range(nd))
        I.buffers.pop(buf)
        return L.arr(L.dtn(BUFS[p[1]]), buf, ZERO, sh)
    if ct in CT:
        lo, hi = TM.ct_rng(ct)
        if CT[ct][1] == 64:
            lo, hi = max(lo, -(1 << 41)), 1 << 41
        return sym(name, rng=(lo, hi))
    if ct == 'bint':
        return opaque_atom('flag_' + name, C(k))
    if ct in ('float', 'double'):
        return sym(name, 'float')
    return sym('obj_' + name, 'obj')


def fixed_for(names):
    def fixed(s):
        out = {}
        for k, n in enumerate(names):
            if n.startswith('size_'):
                out[n] = (s * 7 + s // 5) % (24 if s % 3 else 70)
            elif n.startswith('shape'):
                out[n] = (s // (2 + k)) % 4
            elif n in ('offset', 'pos'):
                out[n] = (0, 1, s % 23, s % 70)[s % 4]
            elif s % 4:
                out[n] = (s // (3 + k)) % 6
        return out
    return fixed


def memory_unit(r, mod, name, tries, want, seed):
    I = analysis(happy=False, varint=False, obj=False, extra={} if '%s.%s' % (mod, name) in CALLED else CALLED)
    I.record_obl = True
    f = I.lookup_qual(mod, name)
    if f is None:
        raise Anchor(mod + '.' + name)
    fn = IN.FUNCS[f]
    I.visited.clear()
    args, names = [], []
    for k, a in enumerate(fn.node.args.args):
        v = argument(I, a.arg, fn.ctypes.get(a.arg, 'object'), k)
        args.append(v)
        for x in TM.walk(v):
            if x.k == 'sym':
                names.append(str(x.a[0]))
    out = I.run(f, args, {})
    r.info['functions'] = sorted(q for q in I.visited)
    conds = {}
    for st, e in out.raises:
        if e.k == 'exc' and str(e.a[0].a[0]).endswith('OutOfBounds'):
            w = str(cv(e.a[1][0]))
            conds[w] = or_(conds.get(w, FALSE), st.pc)
    for where, kind in sorted(I.accesses.items()):
        if where not in conds:
            r.ok('index checked at run time' if kind != 'unchecked' else 'unchecked access inside of its buffer', name, where)
    for where, c in sorted(conds.items()):
        x, y = object.__new__(equiv.Side), object.__new__(equiv.Side)
        x.ret = y.ret = TRUE
        x.results, y.results = {}, {}
        x.raises, y.raises = {'an access outside of the buffer': c}, {}
        V = equiv.compare(x, y, want=want, tries=tries, seed=seed, fixed=fixed_for(names), eofs=())
        V.proved = 0
        r.verdict(V, 'unchecked access inside of its buffer', name, where)


def memory_units(pid, tier, seed):
    t, w = (3000, 1000) if tier == 'quick' else (40000, 10000)
    I = analysis(happy=False, varint=False, obj=False)
    out = []
    for m in compiled_modules():
        for f in public_functions(I, m):
            out.append((memory_unit, '%s.%s' % (m, f), (m, f, t, w, seed)))
    return out
