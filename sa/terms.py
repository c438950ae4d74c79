"""Hash-consed value terms with canonical forms.

The abstract interpreter (interp.py) computes, for every observable of a function, one
of these terms.  Two pieces of code compute the same observable when the terms are the
same object.  The forms that make this robust against rewriting of the code:

* integers are polynomials over atoms, masks and shifts are normalised to bit slices
* conditions are decision diagrams over atomic predicates (`ite` nodes, ordered by atom)
* bytes decoded from a buffer are identified by (type, buffer, offset), not by how the
  code got there
"""
import math
from functools import reduce


class Undecidable(Exception):
    """The construct is outside of what the analysis can decide."""


class T:
    __slots__ = ('k', 'a', 'id', 'ty', 'rng', '_sup', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(k, *a, ty=None, rng=None):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.ty, t.rng, t._sup = k, a, ty, rng, None
        t.id = _n[0] = _n[0] + 1
        if k == 'atom' and LOOPS[0] and a[0] == 'eq' and a[1].k == 'bits' and a[1].a[2] == 1:
            t.id += 1 << 40     # single bits tested in loops below all other conditions
        if _n[0] > 3_000_000:
            raise Undecidable('term budget exceeded')
        _tab[key] = t
    return t


LOOPS = [0]     # number of loops being analysed


_OPEN = (-math.inf, math.inf)


class _F:
    """wrap floats so that 1.0 and 1 and nan are told apart in the intern table"""
    __slots__ = ('r',)

    def __init__(self, v):
        self.r = repr(v)

    def __eq__(self, o):
        return isinstance(o, _F) and o.r == self.r

    def __hash__(self):
        return hash(('F', self.r))


_cval = {}


def C(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        t = mk('c', 'b', v, ty='bool')
    elif isinstance(v, int):
        t = mk('c', 'i', v, ty='int', rng=(v, v))
    elif isinstance(v, float):
        t = mk('c', 'f', _F(v), ty='float')
    elif isinstance(v, str):
        t = mk('c', 's', v, ty='str')
    elif isinstance(v, bytes):
        t = mk('c', 'B', v, ty='bytes')
    elif v is None:
        t = mk('c', 'n', None, ty='none')
    elif v is Ellipsis:
        t = mk('c', '...', None, ty='ellipsis')
    elif isinstance(v, tuple):
        return tup(*[C(x) for x in v])
    elif isinstance(v, (set, frozenset)):
        return mk('cset', *sorted((C(x) for x in v), key=lambda t: t.id), ty='set')
    else:
        raise TypeError(v)
    _cval[t] = v
    return t


def is_c(t):
    return t.k == 'c'


def cv(t):
    return _cval[t]


TRUE = C(True)
FALSE = C(False)
NONE = C(None)
ZERO = C(0)
ONE = C(1)
UNDEF = mk('undef', ty='undef')


def tup(*items):
    return mk('tup', *items, ty='tuple')


def sym(name, ty='int', rng=None):
    t = mk('sym', name, ty=ty, rng=rng if rng else (_OPEN if ty == 'int' else None))
    return t


def is_int(t):
    return t.ty == 'int' or t.ty == 'bool'


def rng(t):
    if t.ty == 'bool':
        if t is TRUE:
            return (1, 1)
        if t is FALSE:
            return (0, 0)
        return (0, 1)
    if t.rng is not None:
        return t.rng
    if t.k == 'ite':
        a, b = rng(t.a[1]), rng(t.a[2])
        t.rng = (min(a[0], b[0]), max(a[1], b[1]))
        return t.rng
    return _OPEN


# --------------------------------------------------------------------------- polynomials
def _num(t):
    """bool used as number"""
    if t.ty == 'bool':
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        if t.k == 'ite':
            return lift('num', _num_leaf, t)
    return t


def _num_leaf(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def _poly(t):
    """dict monomial -> coefficient"""
    if t.k == 'c':
        v = int(cv(t))
        return {(): v} if v else {}
    if t.k == 'poly':
        return dict(t.a[0])
    return {(t,): 1}


def _imul(a, b):
    c = []
    for x in a:
        for y in b:
            if (x == 0 or y == 0):
                c.append(0)
            else:
                c.append(x * y)
    return (min(c), max(c))


def _merge_bits(p):
    """canonical cuts of the bit slices of one source:
    overlapping slices are cut into disjoint ones, adjacent ones are merged
    2^a*x[lo:w] + 2^(a+w)*x[lo+w:w2] -> 2^a*x[lo:w+w2]"""
    groups = {}
    for m, c in p.items():
        if len(m) == 1:
            if m[0].k == 'bits':
                src, lo, w = m[0].a
                groups.setdefault(src, []).append((lo, w, c, m))
    for src, sl in groups.items():
        n = _width(src)
        if n is not None and (src,) in p:
            sl.append((0, n, p[(src,)], (src,)))
        if len(sl) < 2:
            continue
        cuts = sorted({q for lo, w, _, _ in sl for q in (lo, lo + w)})
        coef = []
        for lo, hi in zip(cuts, cuts[1:]):
            c = sum(cc << (lo - l) for l, w, cc, _ in sl if l <= lo and hi <= l + w)
            if c == 0:
                continue
            if coef and coef[-1][1] == lo and coef[-1][2] << (lo - coef[-1][0]) == c:
                coef[-1] = (coef[-1][0], hi, coef[-1][2])
            else:
                coef.append((lo, hi, c))
        for _, _, _, m in sl:
            del p[m]
        for lo, hi, c in coef:
            for m, cc in _poly(_bits_of(src, lo, hi - lo)).items():
                p[m] = p.get(m, 0) + cc * c
                if p[m] == 0:
                    del p[m]
    return p


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    p = _merge_bits(p)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]])))
    t = mk('poly', items, ty='int')
    if t.rng is None:
        lo = hi = 0
        for m, c in items:
            r = (c, c)
            for x in m:
                r = _imul(r, rng(x))
            lo += r[0]
            hi += r[1]
        if lo != lo or hi != hi:
            lo, hi = _OPEN
        t.rng = (lo, hi)
    return t


def _add(a, b):
    p = _poly(a)
    for m, c in _poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def _mul(a, b):
    p = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def add(a, b):
    return lift('add', _add, _num(a), _num(b))


def mul(a, b):
    return lift('mul', _mul, _num(a), _num(b))


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    return add(a, neg(b))


def add_n(*xs):
    return reduce(add, [C(x) for x in xs], ZERO)


def pdiv(a, b):
    """exact quotient of polynomials or None (b: constant or monomial)"""
    pb = _poly(b)
    if len(pb) != 1:
        if a is b:
            return ONE
        return None
    (mb, cb), = pb.items()
    out = {}
    for m, c in _poly(a).items():
        if c % cb:
            return None
        m = list(m)
        for x in mb:
            if x not in m:
                return None
            m.remove(x)
        out[tuple(m)] = c // cb
    return from_poly(out)


# --------------------------------------------------------------------------- bit slices
def _width(t):
    """number of bits of a value known to be >= 0, or None"""
    lo, hi = rng(t)
    if lo < 0 or hi == math.inf:
        return None
    return int(hi).bit_length()


def bits_of(x, lo, w):
    """(x >> lo) & (2**w - 1); w None: no upper limit"""
    return lift('bits%d_%s' % (lo, w), lambda t: _bits_of(t, lo, w), _num(x))


def _bits_of(x, lo, w):
    if x.k == 'c':
        v = int(cv(x)) >> lo
        return C(v if w is None else v & ((1 << w) - 1))
    n = _width(x)
    if n is not None:
        if lo >= n:
            return ZERO
        if w is None or w > n - lo:
            w = n - lo
        if lo == 0 and w == n:
            return x
    if x.k == 'wrap' and w is not None:
        # wrap(ctype, y): same low bits
        _, cw = CT[x.a[0]]
        if lo + w <= cw:
            return bits_of(x.a[1], lo, w)
    if x.k == 'bits':
        src, l0, w0 = x.a
        return bits_of(src, l0 + lo, w)
    if x.k == 'poly':
        segs = segments(x)
        if segs is not None:
            out = ZERO
            for a, ww, s in segs:
                # keep bits [lo, lo+w) of the segment [a, a+ww)
                s0 = max(a, lo)
                s1 = a + ww if w is None else min(a + ww, lo + w)
                if s1 > s0:
                    out = add(out, mul(C(1 << (s0 - lo)), bits_of(s, s0 - a, s1 - s0)))
            return out
        # low zero bits: (2^k * y) and everything above
        pol = _poly(x)
        c0 = pol.pop((), 0)
        if lo == 0 and w is not None:
            # modulo 2^w
            red = {m: c % (1 << w) for m, c in _poly(x).items()}
            y = from_poly(red)
            if y is not x:
                return bits_of(y, 0, w)
        g = 0
        for c in pol.values():
            g = math.gcd(g, c)
        tz = (g & -g).bit_length() - 1 if g else 0
        if tz and lo and lo >= tz and c0 % (1 << tz) == 0:
            y = from_poly({m: c >> tz for m, c in _poly(x).items()})
            return bits_of(y, lo - tz, w)
    if w is None:
        if lo == 0:
            return x
        r = rng(x)
        return mk('shr', x, lo, ty='int', rng=(
            r[0] if r[0] == -math.inf else int(r[0]) >> lo,
            r[1] if r[1] == math.inf else int(r[1]) >> lo))
    if x.k == 'shr':
        return bits_of(x.a[0], x.a[1] + lo, w)
    return mk('bits', x, lo, w, ty='int', rng=(0, (1 << w) - 1))


def segments(x):
    """disjoint bit segments [(pos, width, value)] of a non negative value or None"""
    if x.k == 'c':
        v = int(cv(x))
        if v < 0:
            return None
        out = []
        pos = 0
        while v:
            tz = (v & -v).bit_length() - 1
            pos += tz
            v >>= tz
            run = (~v & (v + 1)).bit_length() - 1
            out.append((pos, run, C((1 << run) - 1)))
            v >>= run
            pos += run
        return out
    if x.k == 'poly':
        out = []
        for m, c in x.a[0]:
            if m == ():
                s = segments(C(c)) if c > 0 else None
                if s is None:
                    return None
                out += s
                continue
            if len(m) != 1 or c <= 0:
                return None
            n = _width(m[0])
            if n is None or bin(c).count('1') > 8:
                return None
            for k in range(c.bit_length()):
                if c >> k & 1:
                    out.append((k, n, m[0]))
        out.sort(key=lambda s: s[0])
        for (a, w, _), (b, _, _) in zip(out, out[1:]):
            if a + w > b:
                return None
        return out
    n = _width(x)
    if n is None:
        return None
    return [(0, n, x)]


def shl(x, k):
    if is_c(k):
        return mul(x, C(1 << int(cv(k))))
    return app('shl', x, k, ty='int')


def shr(x, k):
    if is_c(k):
        return bits_of(x, int(cv(k)), None)
    return app('shr_', x, k, ty='int')


def _and_const(x, m):
    if m < 0:
        return sub(x, _and_const(x, ~m))
    out = ZERO
    for pos, w, _ in segments(C(m)):
        out = add(out, mul(C(1 << pos), bits_of(x, pos, w)))
    return out


def band(a, b):
    return lift('band', _band, _num(a), _num(b))


def _band(a, b):
    if a.k == 'c':
        a, b = b, a
    if b.k == 'c':
        if a.k == 'c':
            return C(int(cv(a)) & int(cv(b)))
        return lift('and%d' % cv(b), lambda t: _and_const(t, int(cv(b))), a)
    return _bitop('and', a, b)


def _bitop(op, a, b):
    if a is b:
        return ZERO if op == 'xor' else a
    sa, sb = segments(a), segments(b)
    if sa is None or sb is None:
        if a.id > b.id:
            a, b = b, a
        return mk('bitop', op, a, b, ty='int', rng=(0, math.inf) if rng(a)[0] >= 0 and rng(b)[0] >= 0 else _OPEN)
    cuts = sorted({p for s in (sa, sb) for (q, w, _) in s for p in (q, q + w)})
    out = ZERO
    for lo, hi in zip(cuts, cuts[1:]):
        def part(segs):
            for q, w, v in segs:
                if q <= lo and hi <= q + w:
                    return bits_of(v, lo - q, hi - lo)
            return ZERO
        x, y = part(sa), part(sb)
        if x is ZERO and y is ZERO:
            continue
        full = (1 << (hi - lo)) - 1
        if op == 'and':
            if x is ZERO or y is ZERO:
                continue
            if is_c(x) and cv(x) == full:
                v = y
            elif is_c(y) and cv(y) == full:
                v = x
            else:
                v = None
        elif op == 'or':
            if x is ZERO:
                v = y
            elif y is ZERO:
                v = x
            elif x is y:
                v = x
            elif (is_c(x) and cv(x) == full) or (is_c(y) and cv(y) == full):
                v = C(full)
            else:
                v = None
        else:
            v = y if x is ZERO else x if y is ZERO else (ZERO if x is y else None)
        if v is None:
            if is_c(x) and is_c(y):
                i, j = int(cv(x)), int(cv(y))
                v = C({'and': i & j, 'or': i | j, 'xor': i ^ j}[op])
            else:
                if x.id > y.id:
                    x, y = y, x
                v = mk('bitop', op, x, y, ty='int', rng=(0, full))
        out = add(out, mul(C(1 << lo), v))
    return out


def bor(a, b):
    return lift('bor', _bor, _num(a), _num(b))


def _bor(a, b):
    if is_c(a) and is_c(b):
        return C(int(cv(a)) | int(cv(b)))
    if is_c(a) and cv(a) == 0:
        return b
    if is_c(b) and cv(b) == 0:
        return a
    return _bitop('or', a, b)


def bxor(a, b):
    def f(a, b):
        if is_c(a) and is_c(b):
            return C(int(cv(a)) ^ int(cv(b)))
        return _bitop('xor', a, b)
    return lift('bxor', f, _num(a), _num(b))


def floordiv(a, b):
    return lift('fdiv', _floordiv, _num(a), _num(b))


def _floordiv(a, b):
    if is_c(a) and is_c(b) and cv(b):
        return C(int(cv(a)) // int(cv(b)))
    if is_c(b):
        k = int(cv(b))
        if k == 1:
            return a
        if k > 0 and k & (k - 1) == 0:
            return bits_of(a, k.bit_length() - 1, None)
        q = pdiv(a, b)
        if q is not None:
            return q
        lo, hi = rng(a)
        if k > 0 and lo > -math.inf and hi < math.inf and int(lo) // k == int(hi) // k:
            return C(int(lo) // k)
        # split multiples: (k*x + r) // k = x + r // k
        if k > 0:
            whole, rest = {}, {}
            for m, c in _poly(a).items():
                (whole if c % k == 0 else rest)[m] = c
            if whole:
                return add(from_poly({m: c // k for m, c in whole.items()}),
                           floordiv(from_poly(rest), b))
            r = rng(a)
            return mk('div', a, k, ty='int', rng=(
                r[0] if r[0] == -math.inf else int(r[0]) // k,
                r[1] if r[1] == math.inf else int(r[1]) // k))
    q = pdiv(a, b)
    if q is not None:
        return q
    return mk('divt', a, b, ty='int', rng=_OPEN)


def mod(a, b):
    return lift('mod', _mod, _num(a), _num(b))


def _mod(a, b):
    if is_c(a) and is_c(b) and cv(b):
        return C(int(cv(a)) % int(cv(b)))
    if is_c(b) and cv(b) > 0:
        k = int(cv(b))
        if k & (k - 1) == 0:
            return bits_of(a, 0, k.bit_length() - 1)
        return sub(a, mul(C(k), floordiv(a, b)))
    return sub(a, mul(b, mk('divt', a, b, ty='int', rng=_OPEN))) if False else mk('modt', a, b, ty='int', rng=_OPEN)


# --------------------------------------------------------------------------- C integers
CT = {  # ctype -> (signed, bits)
    'uint8_t': (False, 8), 'uint16_t': (False, 16), 'uint32_t': (False, 32), 'uint64_t': (False, 64),
    'int8_t': (True, 8), 'int16_t': (True, 16), 'int32_t': (True, 32), 'int64_t': (True, 64),
    'int': (True, 32), 'long': (True, 64), 'size_t': (False, 64), 'Py_ssize_t': (True, 64),
    'npy_intp': (True, 64), 'char': (True, 8), 'short': (True, 16), 'unsigned int': (False, 32),
    'unsigned char': (False, 8), 'unsigned long': (False, 64), 'unsigned short': (False, 16), 'long long': (True, 64),
}


def ct_rng(ct):
    s, n = CT[ct]
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)


def wrap(ct, x):
    return lift('wrap' + ct, lambda t: _wrap(ct, t), _num(x))


def _wrap(ct, x):
    if x.ty != 'int':
        return app('cast:' + ct, x, ty='int')
    lo, hi = ct_rng(ct)
    r = rng(x)
    if lo <= r[0] and r[1] <= hi:
        return x
    s, n = CT[ct]
    if x.k == 'c':
        v = int(cv(x)) & ((1 << n) - 1)
        if s and v >> (n - 1):
            v -= 1 << n
        return C(v)
    # everything modulo 2^n
    red = {}
    for m, c in _poly(x).items():
        if len(m) == 1 and m[0].k == 'wrap' and CT[m[0].a[0]][1] >= n:
            for mm, cc in _poly(m[0].a[1]).items():
                red[mm] = (red.get(mm, 0) + c * cc) % (1 << n)
            continue
        if len(m) == 1:
            w = _width(m[0])
            cc = c % (1 << n)
            tz = (cc & -cc).bit_length() - 1 if cc else n
            if w is not None and cc and tz + w > n:
                y = bits_of(m[0], 0, n - tz)
                for mm, c3 in _poly(y).items():
                    red[mm] = (red.get(mm, 0) + cc * c3) % (1 << n)
                continue
        red[m] = (red.get(m, 0) + c) % (1 << n)
    if s or True:
        # symmetric residues read better and are canonical
        red = {m: (c - (1 << n) if c >= 1 << (n - 1) else c) for m, c in red.items()}
    y = from_poly(red)
    r = rng(y)
    if lo <= r[0] and r[1] <= hi:
        return y
    if not s:
        # bits of the value: canonical for unsigned
        z = from_poly({m: c % (1 << n) for m, c in red.items()})
        segs = segments(z)
        if segs is not None:
            return bits_of(z, 0, n)
    return mk('wrap', ct, y, ty='int', rng=(lo, hi))


# --------------------------------------------------------------------------- conditions
def related(atom):
    """key of the family of atoms that can imply each other"""
    op = atom.a[0]
    if op in ('lt', 'eq'):
        return ('n', atom.a[1])
    if op == 'eqv':
        return ('v', atom.a[1])
    if op == 'cls':
        return ('k', atom.a[1])
    return ('o', atom)


_sup_cache = {}


def support(t):
    """atoms of a decision diagram (not looking inside of leaves)"""
    if t.k != 'ite':
        return frozenset()
    s = t._sup
    if s is None:
        s = frozenset({t.a[0]}) | support(t.a[1]) | support(t.a[2])
        t._sup = s
    return s


CLS_REL = {'sub': lambda a, b: a is b, 'disjoint': lambda a, b: False}


def implied(atom, val, other):
    """truth of `other` given `atom` is `val`, or None"""
    if atom is other:
        return val
    ka, kb = related(atom), related(other)
    if ka != kb:
        # equal polynomials of the family are the same object, everything else is independent
        return None
    if ka[0] == 'n':
        op, _, k = atom.a
        op2, _, k2 = other.a
        lo, hi = -math.inf, math.inf
        excl = None
        if op == 'lt':
            if val:
                hi = k - 1
            else:
                lo = k
        else:
            if val:
                lo = hi = k
            else:
                excl = k
        r = rng(ka[1])
        lo, hi = max(lo, r[0]), min(hi, r[1])
        if excl is not None:
            if lo == excl:
                lo += 1
            if hi == excl:
                hi -= 1
        if op2 == 'lt':
            if hi < k2:
                return True
            if lo >= k2:
                return False
        else:
            if lo == hi == k2:
                return True
            if k2 < lo or k2 > hi or excl == k2:
                return False
        return None
    if ka[0] == 'v':
        if val and atom.a[2] is not other.a[2] and is_c(atom.a[2]) and is_c(other.a[2]):
            return False
        return None
    if ka[0] == 'k':
        c1, c2 = atom.a[2], other.a[2]
        if val:
            if CLS_REL['sub'](c1, c2):
                return True
            if CLS_REL['disjoint'](c1, c2):
                return False
        else:
            if CLS_REL['sub'](c2, c1):
                return False
        return None
    return None


_restrict_memo = {}


def restrict(t, atom, val):
    """t under the assumption atom == val (decision diagram level)"""
    if t.k != 'ite':
        return t
    fam = related(atom)
    if not any(a is atom or related(a) == fam for a in support(t)):
        return t
    key = (t, atom, val)
    r = _restrict_memo.get(key)
    if r is None:
        a, hi, lo = t.a
        v = implied(atom, val, a)
        if v is True:
            r = restrict(hi, atom, val)
        elif v is False:
            r = restrict(lo, atom, val)
        else:
            r = mk_ite(a, restrict(hi, atom, val), restrict(lo, atom, val))
        _restrict_memo[key] = r
    return r


PATTERNS = []


def mk_ite(atom, hi, lo):
    if hi is lo:
        return hi
    if hi.k == 'ite':
        hi = restrict(hi, atom, True)
    if lo.k == 'ite':
        lo = restrict(lo, atom, False)
    if hi is lo:
        return hi
    for p in PATTERNS:
        r = p(atom, hi, lo)
        if r is not None:
            return r
    if hi.k == 'tup' and lo.k == 'tup' and len(hi.a) == len(lo.a):
        return tup(*[ite(atom_b(atom), x, y) for x, y in zip(hi.a, lo.a)])
    if hi.k == 'list' and lo.k == 'list' and len(hi.a) == len(lo.a) and all(
            x is y or not (_spl(x) or _spl(y)) for x, y in zip(hi.a, lo.a)):
        return mk('list', *[ite(atom_b(atom), x, y) for x, y in zip(hi.a, lo.a)], ty='list')
    return _raw_ite(atom, hi, lo)


def _spl(x):
    return x.k == 'app' and x.a[0] == 'spl'


def _raw_ite(atom, hi, lo):
    ty = hi.ty if hi.ty == lo.ty else ('int' if is_int(hi) and is_int(lo) else None)
    return mk('ite', atom, hi, lo, ty=ty)


def atom_b(atom):
    return _raw_ite(atom, TRUE, FALSE)


_lift_memo = {}
LIFT_LIMIT = 60000
_lift_count = [0]


def lift(name, fn, *args):
    tops = None
    for a in args:
        if a.k == 'ite':
            x = a.a[0]
            if tops is None or x.id < tops.id:
                tops = x
    if tops is None:
        return fn(*args)
    key = (name,) + args
    r = _lift_memo.get(key)
    if r is None:
        _lift_count[0] += 1
        if _lift_count[0] > 2_000_000:
            raise Undecidable('decision diagram budget exceeded')
        hi = lift(name, fn, *[cof(a, tops, True) for a in args])
        lo = lift(name, fn, *[cof(a, tops, False) for a in args])
        r = mk_ite(tops, hi, lo)
        _lift_memo[key] = r
    return r


def cof(t, atom, val):
    if t.k != 'ite':
        return t
    if t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return restrict(t, atom, val)


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.k != 'ite':
        raise Undecidable('condition is no decision diagram: %s' % show(c))
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is None:
        at = c.a[0]
        for x in (a, b):
            if x.k == 'ite' and x.a[0].id < at.id:
                at = x.a[0]
        r = mk_ite(at,
                   ite(cof(c, at, True), cof(a, at, True), cof(b, at, True)),
                   ite(cof(c, at, False), cof(a, at, False), cof(b, at, False)))
        _ite_memo[key] = r
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def _lt0(d):
    """d < 0"""
    if is_c(d):
        return C(int(cv(d)) < 0)
    r = rng(d)
    if r[1] < 0:
        return TRUE
    if r[0] >= 0:
        return FALSE
    p = _poly(d)
    c = p.pop((), 0)
    g = reduce(math.gcd, (abs(x) for x in p.values()))
    lead = min(p.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))[1]
    if lead < 0:
        # -q + c < 0  <=>  not q < c + 1
        q = from_poly({m: -x // g for m, x in p.items()})
        # g*q > c  <=> q > floor(c/g) <=> not q < floor(c/g)+1
        return not_(_lt_atom(q, c // g + 1))
    q = from_poly({m: x // g for m, x in p.items()})
    # g*q < -c  <=> q < ceil(-c/g)
    return _lt_atom(q, -(c // g))


def _lt_atom(q, k):
    lo, hi = rng(q)
    if hi < k:
        return TRUE
    if lo >= k:
        return FALSE
    if hi == k and hi != math.inf:       # q < max  <=> q != max
        return not_(_eq_atom(q, k))
    if lo == k - 1 and lo != -math.inf:  # q < min+1 <=> q == min
        return _eq_atom(q, k - 1)
    return atom_b(mk('atom', 'lt', q, k))


def _eq_atom(q, k):
    lo, hi = rng(q)
    if k < lo or k > hi:
        return FALSE
    if lo == hi == k:
        return TRUE
    if lo == k - 1 and hi == k:       # two values: always talk about the lower one
        return not_(atom_b(mk('atom', 'eq', q, k - 1)))
    return atom_b(mk('atom', 'eq', q, k))


def _eq0(d):
    if is_c(d):
        return C(int(cv(d)) == 0)
    p = _poly(d)
    c = p.pop((), 0)
    g = reduce(math.gcd, (abs(x) for x in p.values()))
    if c % g:
        return FALSE
    lead = min(p.items(), key=lambda mc: (len(mc[0]), [x.id for x in mc[0]]))[1]
    if lead < 0:
        g = -g
    q = from_poly({m: x // g for m, x in p.items()})
    segs = segments(q)
    if segs is not None and len(segs) > 1 and -c // g == 0:
        # all parts are zero
        r = TRUE
        for _, _, s in segs:
            r = and_(r, _eq_atom(s, 0)) if not is_c(s) else FALSE
        return r
    return _eq_atom(q, -c // g)


def lt(a, b):
    if is_int(a) and is_int(b):
        return lift('lt0', _lt0, sub(a, b))
    return lift('ltv', _ltv, a, b)


def _ltv(a, b):
    if is_c(a) and is_c(b):
        try:
            return C(cv(a) < cv(b))
        except TypeError:
            pass
    if is_int(a) and is_int(b):
        return _lt0(sub(a, b))
    if a is b:
        return FALSE
    return atom_b(mk('atom', 'ltv', a, b))


NONNULL = {'int', 'float', 'str', 'bytes', 'bool', 'tuple', 'ref', 'arr', 'func', 'class', 'module', 'set', 'dtype',
           'list', 'dict', 'obj'}


def eq(a, b):
    if is_int(a) and is_int(b):
        return lift('eq0', _eq0, sub(a, b))
    return lift('eqv', _eqv, a, b)


DEC = None      # set by lib


def _eqv(a, b):
    if a is b:
        return TRUE
    if is_int(a) and is_int(b):
        return lift('eq0', _eq0, sub(a, b))
    if is_c(a) and is_c(b):
        return C(cv(a) == cv(b))
    if a.k == 'tup' and b.k == 'tup':
        if len(a.a) != len(b.a):
            return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = and_(r, eq(x, y))
        return r
    if a.k == 'nt' and b.k == 'nt':
        return eq(a.a[1], b.a[1])
    if (a is NONE and b.ty in NONNULL) or (b is NONE and a.ty in NONNULL):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.k == 'bs' and is_c(y) and isinstance(cv(y), bytes):
            d = cv(y)
            r = eq(x.a[2], C(len(d)))
            if len(d) in (1, 2, 4, 8):
                return and_(r, eq(DEC('u%d' % len(d), x.a[0], x.a[1]), C(int.from_bytes(d, 'little'))))
            for k, q in enumerate(d):
                r = and_(r, eq(DEC('u1', x.a[0], add(x.a[1], C(k))), C(q)))
            return r
    if a.ty in ('class', 'func') and b.ty in ('class', 'func'):
        return FALSE
    if is_c(a) or (not is_c(b) and a.id > b.id):
        a, b = b, a
    return atom_b(mk('atom', 'eqv', a, b))


def truth(t):
    return lift('truth', _truth, t)


def _truth(t):
    if t.ty == 'bool' and t.k in ('c', 'ite'):
        return t
    if t.k == 'c':
        return C(bool(cv(t)))
    if t.k == 'tup':
        return C(len(t.a) > 0)
    if t.k == 'cset':
        return C(len(t.a) > 0)
    if is_int(t) and t.k != 'atom':
        return not_(_eq0(t))
    if t.ty in ('func', 'class', 'module'):
        return TRUE
    if t.k == 'bs':
        return not_(eq(t.a[2], ZERO))
    return atom_b(mk('atom', 'truth', t))


def opaque_atom(name, *args):
    return lift('oa' + name, lambda *x: atom_b(mk('atom', name, *x)), *args)


# --------------------------------------------------------------------------- applications
def app(op, *args, ty=None, rng=None):
    """uninterpreted application, lifted over conditions"""
    if any(a.k == 'ite' for a in args):
        return lift('app:%s:%s' % (op, ty), lambda *x: mk('app', op, *x, ty=ty, rng=rng or (_OPEN if ty == 'int' else None)), *args)
    return mk('app', op, *args, ty=ty, rng=rng or (_OPEN if ty == 'int' else None))


def raw(op, *args, ty=None, rng=None):
    """constructor, conditions stay inside of the arguments"""
    return mk('app', op, *args, ty=ty, rng=rng or (_OPEN if ty == 'int' else None))


# --------------------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """replace terms, rebuilding canonical forms; m: dict T -> T"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


REBUILD = {}
BINDER = None


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.k in ('c', 'sym', 'undef', 'cset', 'mu', 'ext', 'ref', 'cls', 'func'):
        r = t
    elif t.k in ('at', 'first', 'tab'):
        r = BINDER(t, m, memo)
    elif t.k == 'poly':
        r = ZERO
        ch = False
        parts = []
        for mono, c in t.a[0]:
            new = [_subst(x, m, memo) for x in mono]
            ch = ch or any(x is not y for x, y in zip(new, mono))
            parts.append((new, c))
        if not ch:
            r = t
        else:
            for new, c in parts:
                x = C(c)
                for y in new:
                    x = mul(x, y)
                r = add(r, x)
    elif t.k == 'ite':
        a = _subst_atom(t.a[0], m, memo)
        r = ite(a, _subst(t.a[1], m, memo), _subst(t.a[2], m, memo))
    else:
        new = tuple(_subst_arg(x, m, memo) for x in t.a)
        if all(x is y or x == y for x, y in zip(new, t.a)):
            r = t
        else:
            r = rebuild(t, new)
    memo[t] = r
    return r


def _subst_arg(x, m, memo):
    if isinstance(x, T):
        return _subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, m, memo) for y in x)
    return x


def _subst_atom(a, m, memo):
    op = a.a[0]
    new = tuple(_subst_arg(x, m, memo) for x in a.a[1:])
    if all(x is y or x == y for x, y in zip(new, a.a[1:])):
        return atom_b(a)
    if op == 'lt':
        return lt(new[0], C(new[1]))
    if op == 'eq':
        return eq(new[0], C(new[1]))
    if op == 'eqv':
        return eq(*new)
    if op == 'ltv':
        return lt(*new)
    if op == 'truth':
        return truth(new[0])
    return opaque_atom(op, *new)


def rebuild(t, new):
    if t.k == 'bits':
        return bits_of(*new)
    if t.k == 'shr':
        return bits_of(new[0], new[1], None)
    if t.k == 'div':
        return floordiv(new[0], C(new[1]))
    if t.k == 'divt':
        return floordiv(*new)
    if t.k == 'modt':
        return mod(*new)
    if t.k == 'wrap':
        return wrap(*new)
    if t.k == 'bitop':
        return {'and': band, 'or': bor, 'xor': bxor}[new[0]](new[1], new[2])
    f = REBUILD.get(t.k)
    if f is not None:
        return f(t, new)
    if t.k == 'app':
        f = REBUILD.get('app:' + t.a[0]) if isinstance(t.a[0], str) else None
        if f is not None:
            return f(t, new)
        if any(isinstance(x, T) and x.k == 'ite' for x in new[1:]) and not any(
                isinstance(x, T) and x.k == 'ite' for x in t.a[1:]):
            return app(*new, ty=t.ty, rng=t.rng)
    return mk(t.k, *new, ty=t.ty, rng=t.rng)


def walk(t, seen=None):
    """all subterms, including those inside of atoms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.k == 'poly':
            for mono, _ in x.a[0]:
                stack.extend(mono)
        elif x.k != 'c':
            stack.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# --------------------------------------------------------------------------- display
def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth > 12:
        return '…'
    d = depth + 1

    def s(x):
        return show(x, d) if isinstance(x, T) else (
            '(' + ', '.join(s(y) for y in x) + ')' if isinstance(x, tuple) else str(x))
    if t.k == 'c':
        return repr(cv(t))
    if t.k == 'sym':
        return str(t.a[0])
    if t.k == 'poly':
        out = []
        for m, c in t.a[0]:
            f = '*'.join(s(x) for x in m)
            out.append((str(c) if not m else f if c == 1 else '%d*%s' % (c, f)))
        return '(' + ' + '.join(out) + ')'
    if t.k == 'ite':
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return s(t.a[0])
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return 'not ' + s(t.a[0])
        return '(%s if %s else %s)' % (s(t.a[1]), s(t.a[0]), s(t.a[2]))
    if t.k == 'atom':
        op = t.a[0]
        if op == 'lt':
            return '%s < %s' % (s(t.a[1]), t.a[2])
        if op in ('eq', 'eqv'):
            return '%s == %s' % (s(t.a[1]), s(t.a[2]))
        return '%s(%s)' % (op, ', '.join(s(x) for x in t.a[1:]))
    if t.k == 'bits':
        return '%s[bit %d:+%d]' % (s(t.a[0]), t.a[1], t.a[2])
    if t.k == 'shr':
        return '(%s >> %d)' % (s(t.a[0]), t.a[1])
    if t.k == 'div':
        return '(%s // %s)' % (s(t.a[0]), t.a[1])
    if t.k == 'tup':
        return '(' + ', '.join(s(x) for x in t.a) + ')'
    if t.k == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(s(x) for x in t.a[1:]))
    return '%s(%s)' % (t.k, ', '.join(s(x) for x in t.a))
