"""Deciding whether two analysed functions compute the same.

Identical canonical terms are equal.  Terms that differ are interpreted in random models
(rand.py); a model in which they differ is the witness of a violation, terms that agree
everywhere are not reported.
"""
import time
from .terms import *
from . import terms as TM
from . import rand
from .interp import State, UNDEF


class Side:
    """a function: return condition, raise conditions by class, named results"""

    def __init__(self, I, out, results):
        self.ret = out.ret
        self.raises = {}
        self.where = {}
        for st, e in out.raises:
            n = exc_name(e)
            self.raises[n] = or_(self.raises.get(n, FALSE), st.pc)
        self.results = results


def exc_name(e):
    if e.k == 'exc':
        c = e.a[0]
        if c.k in ('ext', 'cls'):
            return str(c.a[0]).split('.')[-1]
    return show(e)[:40]


EOFS = ('EOFError', 'error', 'struct.error')


def union(side, keep=('Unspecified',)):
    """all exceptions are one class"""
    c = FALSE
    for n in [n for n in side.raises if n not in keep]:
        c = or_(c, side.raises.pop(n))
    side.raises['an exception'] = c


class Verdict:
    def __init__(self):
        self.proved = 0
        self.agree = []          # different terms, equal in all models
        self.undecided = []
        self.violations = []     # (name, text, model)
        self.models = 0
        self.sides = (0, 0)      # sides of decisions seen in models, sides in the terms


def models(n, pool, fixed=None, seed=0):
    for s in range(n):
        sizes = {}
        f = {'filepos': 5 + s % 7}
        k = s % 5
        if fixed:
            f.update(fixed(s) if callable(fixed) else fixed)
        yield rand.Model(seed * 100000 + s, pool, small=(0.75, 0.9, 0.6)[s % 3], fixed=f)


def default_fixed(s):
    out = {'address': 16 + 16 * (s % 13)}
    # payloads that are long enough
    if s % 4:
        out['version'] = s // 8 % 8
        out['size'] = (400, 20, 16, 36, 52, 100, 8, 4 + 273 * 4)[s % 8]
    return out


SECONDS = [20]
DEBUG = False


def compare(impl, spec, want=60, tries=1500, fixed=default_fixed, ignore_raises=(), seed=0, unspec='Unspecified',
            raises=True, min_models=5, eofs=EOFS):
    """Verdict over all results that the specification names"""
    V = Verdict()
    us = spec.raises.get(unspec, FALSE)
    dom = not_(us)
    bad = FALSE
    for n in eofs:
        bad = or_(bad, or_(impl.raises.get(n, FALSE), spec.raises.get(n, FALSE)))
    dom = and_(dom, not_(bad))
    G = and_(dom, and_(impl.ret, spec.ret))
    open_ = []
    checks = []
    # 1. outcomes
    if raises:
        names = (set(impl.raises) | set(spec.raises)) - set(eofs) - {unspec}
        for n in sorted(names):
            a, b = impl.raises.get(n, FALSE), spec.raises.get(n, FALSE)
            checks.append(('raises ' + n, a, b, dom, 'cond'))
        checks.append(('returns', impl.ret, spec.ret, dom, 'cond'))
    else:
        checks.append(('returns', TRUE, TRUE, dom, 'cond'))
    for n, b in spec.results.items():
        checks.append((n, impl.results.get(n, UNDEF), b, G, 'value'))
    for c in checks:
        n, a, b, g, kind = c
        if a is b or (and_(g, a) is and_(g, b) if kind == 'cond' else same_under(a, b, g)):
            V.proved += 1
        else:
            open_.append(c)
    if not open_:
        return V
    seen = set()
    terms = [x for c in open_ for x in (c[1], c[2])] + [G]
    pool = rand.pool_of(terms)
    known_unk = None
    hits = {c[0]: 0 for c in open_}
    dead = set()
    cov, fresh, t0 = set(), 0, time.time()
    for m in models(tries, pool, fixed, seed):
        if all(h >= want or n in dead for n, h in hits.items()) and (
                fresh > 4 * want or time.time() - t0 > SECONDS[0] or len(dead) == len(open_)):
            break
        m.cov = set()
        used = False
        for n, a, b, g, kind in open_:
            if n in dead:
                continue
            try:
                if not m.ev(g):
                    continue
                try:
                    x = m.ev(a)
                except rand.Fails as e:
                    x = rand.Unknown('raise', str(e))
                m2 = m.ev(b)
            except rand.Discard:
                continue
            except (RecursionError, MemoryError):
                continue
            hits[n] += 1
            used = True
            V.models += 1
            if not rand.same(x, m2):
                if has_new_unknown(a, b):
                    V.undecided.append((n, 'uses operations outside of the vocabulary: %s' % ', '.join(sorted(has_new_unknown(a, b)))))
                else:
                    V.violations.append((n, describe(n, x, m2, a, b), witness(m)))
                dead.add(n)
        # go on as long as the models take decisions in new ways
        if used:
            if m.cov <= cov:
                fresh += 1
            else:
                cov |= m.cov
                fresh = 0
    if DEBUG:
        for t in terms:
            for x in TM.walk(t):
                if x.k == 'ite':
                    for b in (True, False):
                        if (x.a[0], b) not in cov:
                            cov.add((x.a[0], b))
                            print('unseen', b, show(x.a[0])[:250])
        return V
    V.sides = (len(cov), 2 * len({x.a[0] for t in terms for x in TM.walk(t, seen) if x.k == 'ite'}))
    for n, h in hits.items():
        if n in dead:
            continue
        if h >= min_models:
            V.agree.append(n)
        else:
            V.undecided.append((n, 'terms differ and only %d models were usable' % h))
    return V


def same_under(a, b, g):
    if g is FALSE:
        return True
    try:
        d = ite(g, a, UNDEF)
        return d is ite(g, b, UNDEF)
    except Undecidable:
        return False


KNOWN = {'el', 'sub', 'sub?', 'astype', 'view', 'reshape', 'squeeze', 'field', 'store', 'fstore', 'setall', 'storex', 'slice', 'fancy',
         'mask', 'nz', 'dvar', 'dvlen', 'recarrays', 'float', 'int', 'array', 'T', 'clip', 'shape', 'size', 'len', 'popcount',
         'bit_length', 'shl', 'pow', 'shr_', 'cat', 'byte', 'scat', 'sum', 'list', 'tuple', 'sorted', 'dstore', 'dget', 'dmerge',
         'getitem', 'tobytes', 'decode', 'lrep', 'lslice', 'lset', 'abs', 'spl', 'fmt', 'inst', 'stream', 'uninit'}


def vocabulary(op):
    if op in KNOWN or op.startswith('?'):
        return True
    if op.startswith('ew:') and op[3:] in rand.EW or op.startswith('f:') and op[2:] in rand.BIN:
        return True
    return op.startswith('np:') and op[3:] in rand.NPOK


def has_new_unknown(a, b):
    return {op for op in rand.ops([a]) - rand.ops([b]) if not vocabulary(op)}


def describe(n, x, y, a, b):
    p = diff(x, y)
    return '%s: the code yields %s, the specification %s' % (n + p[0], short(p[1]), short(p[2]))


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:117] + '...'


def diff(x, y):
    """innermost difference"""
    if isinstance(x, rand.Rec) and isinstance(y, rand.Rec):
        for k in y.d:
            if k not in x.d:
                return ('[%r]' % (k,), 'nothing', y.d[k])
        for k in x.d:
            if k not in y.d:
                return ('[%r]' % (k,), x.d[k], 'nothing')
            if not rand.same(x.d[k], y.d[k]):
                p = diff(x.d[k], y.d[k])
                return ('[%r]' % (k,) + p[0],) + p[1:]
    if isinstance(x, (list, tuple)) and type(x) is type(y) and len(x) == len(y):
        for k, (p, q) in enumerate(zip(x, y)):
            if not rand.same(p, q):
                r = diff(p, q)
                return ('[%d]' % k + r[0],) + r[1:]
    return ('', x, y)


def witness(m):
    mem = {}
    for (b, i), v in m.mem.items():
        mem.setdefault(str(b), []).append((i, v))
    return {'symbols': {k: v if isinstance(v, (int, float, str)) else repr(v) for k, v in m.syms.items()},
            'bytes': {b: sorted(v)[:200] for b, v in mem.items()}}
