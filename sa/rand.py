"""Random interpretation of value graphs (after Gulwani and Necula).

Two terms that are not the same canonical term may still denote the same value.  They are
told apart by interpreting both in random models: the content of the buffers, the symbols
and the unknown functions are chosen at random, constants of the terms are preferred.
Terms that agree in all models are not reported.  Nothing of the analysed code runs here,
the input are the terms the abstract interpreter derived from the source.
"""
import math
import operator
import random
import struct
import zlib
import warnings

import numpy as np

from .terms import *
from . import terms as TM
from .loops import free
from . import lib as L

warnings.simplefilter('ignore')


class Discard(Exception):
    """the model is not usable"""


class Fails(Discard):
    """the evaluated operation raises an exception"""


class Unknown:
    """value of an unknown function"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __repr__(self):
        return 'U' + repr(self.t)[:60]


class Rec:
    """mapping"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return 'D' + repr(self.d)


FMT = {'u1': 'B', 'u2': 'H', 'u4': 'I', 'u8': 'Q', 'i1': 'b', 'i2': 'h', 'i4': 'i', 'i8': 'q', 'f4': 'f', 'f8': 'd', 'f2': 'e'}
SZ = {'1': 1, '2': 2, '4': 4, '8': 8}
MAXN = 80


def key(v):
    """hashable fingerprint"""
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return ('A', v.shape, tuple(key(np.ascontiguousarray(v[n])) for n in v.dtype.names))
        if v.dtype.kind == 'f':
            return ('A', v.shape, tuple('%.4g' % x for x in v.ravel()))
        return ('A', v.shape, tuple(v.ravel().tolist()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(key(x) for x in v)
    if isinstance(v, Rec):
        return ('D', tuple(sorted((repr(k), key(x)) for k, x in v.d.items())))
    if isinstance(v, Unknown):
        return ('U',) + tuple(key(x) for x in v.t)
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return '%.4g' % v
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, frozenset):
        return ('S', tuple(sorted(map(repr, map(key, v)))))
    return v


def same(a, b, tol=2e-5):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            if isinstance(a, np.ndarray) and a.shape == () or isinstance(b, np.ndarray) and b.shape == ():
                a, b = np.asarray(a), np.asarray(b)
                if a.dtype == object or b.dtype == object:
                    return False
                return same(a.item(), b.item())
            return False
        if a.shape != b.shape:
            return False
        if (a.dtype.names is None) != (b.dtype.names is None):
            return False
        if a.dtype.names is not None:
            return a.dtype.names == b.dtype.names and all(same(a[n], b[n]) for n in a.dtype.names)
        if a.dtype != b.dtype:
            return False
        if a.dtype.kind == 'f':
            return np.allclose(a, b, rtol=1e-3 if a.dtype.itemsize == 2 else tol, atol=1e-30, equal_nan=True)
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Rec):
        if not isinstance(b, Rec) or len(a.d) != len(b.d):
            return False
        return all(k in b.d and same(v, b.d[k]) for k, v in a.d.items())
    if isinstance(a, Unknown):
        return isinstance(b, Unknown) and len(a.t) == len(b.t) and all(same(x, y) for x, y in zip(a.t, b.t))
    num = (int, float, bool, np.number, np.bool_)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, (float, np.floating)) != isinstance(b, (float, np.floating)):
            return False
        if isinstance(a, (float, np.floating)):
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) < 1e-30
        return int(a) == int(b)
    return type(a) is type(b) and a == b


def pool_of(terms):
    """constants the terms compare with: term -> set of interesting values"""
    pool = {}
    seen = set()

    def note(x, c):
        for _ in range(6):
            if x.k == 'wrap':
                x = x.a[1]
            elif x.k == 'bits':
                c = c << x.a[1]
                x = x.a[0]
            elif x.k == 'poly' and sum(1 for m, _ in x.a[0] if m) == 1:
                k = 0
                for m, q in x.a[0]:
                    if m:
                        mm, cc = m, q
                    else:
                        k = q
                if len(mm) != 1 or (c - k) % cc:
                    return
                x, c = mm[0], (c - k) // cc
            elif x.k == 'div':
                c = c * x.a[1]
                x = x.a[0]
            else:
                break
        pool.setdefault(x, set()).add(c)
    fields = pool['fields'] = {}
    pool['values'] = value_words(terms)
    floats = set()
    for t in terms:
        for x in TM.walk(t, seen):
            if x.k == 'bits':
                b = x.a[0]
                while b.k == 'wrap':
                    b = b.a[1]
                fields.setdefault(b, set()).add((x.a[1], x.a[2] if x.a[2] is not None else 4))
            if x.k == 'atom' and x.a[0] in ('eq', 'lt') and isinstance(x.a[2], int):
                note(x.a[1], x.a[2])
                if x.a[0] == 'lt':
                    note(x.a[1], x.a[2] - 1)
            if x.k == 'app' and x.a[0].rpartition(':')[2].lower() in COMPARES:
                for y in x.a[1:]:
                    if isinstance(y, T) and is_c(y) and isinstance(cv(y), (int, float)) and abs(cv(y)) < 1e30:
                        floats.add(float(cv(y)))
    pool['floats'] = sorted(floats)
    return pool


COMPARES = {'eq', 'noteq', 'lt', 'lte', 'gt', 'gte', 'ne', 'le', 'ge', 'isclose', 'equal', 'not_equal', 'less', 'greater'}


INHERIT0 = {'reshape', 'squeeze', 'field', 'slice', 'el', 'T', 'array', 'float', 'int', 'np:squeeze', 'mask', 'sub', 'tobytes', 'decode',
            'clip', 'list', 'tuple', 'spl', 'np:transpose', 'np:repeat', 'fancy', 'getitem'}


def value_words(terms):
    """decoded words that are delivered, but neither addresses, counts nor conditions depend on them"""
    val, ctl, seen = set(), set(), set()
    stack = [(t, False) for t in terms]
    while stack:
        t, c = stack.pop()
        if isinstance(t, tuple):
            stack.extend((x, c) for x in t)
            continue
        if not isinstance(t, T) or (t, c) in seen or (c is False and (t, True) in seen) or t.k == 'c':
            continue
        seen.add((t, c))
        k, a = t.k, t.a
        if k in ('dec', 'vu', 'arr'):
            (ctl if c else val).add(t)
            stack.extend((x, True) for x in a)
        elif k == 'ite':
            stack += [(a[0], True), (a[1], c), (a[2], c)]
        elif k == 'poly':
            stack.extend((x, c) for m, _ in a[0] for x in m)
        elif k in ('tup', 'list', 'wrap', 'bits', 'div', 'shr'):
            stack.extend((x, c) for x in a)
        elif k == 'dict':
            for kk, v in a[0]:
                stack += [(kk, True), (v, c)]
            stack.append((a[1], c))
        elif k == 'tab':
            stack += [(a[1], True), (a[2], c)]
        elif k == 'atab':
            stack += [(a[1], c)]
        elif k == 'at':
            stack += [(a[1], True), (a[3], True), (a[2], c)]
        elif k == 'app' and a[0] in INHERIT0:
            stack.append((a[1], c))
            stack.extend((x, True) for x in a[2:])
        elif k == 'app' and a[0] in ('astype', 'view'):
            stack.append((a[2], c))
        elif k == 'app' and (a[0][:2] == 'f:' or a[0][:3] == 'ew:' or a[0] in ('recarrays', 'dstore', 'dmerge', 'dget', 'store')):
            stack.extend((x, c) for x in a[1:])
        else:
            stack.extend((x, True) for x in a)
    return val - ctl


ANY = object()


class Model:
    def __init__(self, seed, pool=None, small=0.75, fixed=None, sizes=None):
        self.r = random.Random(seed)
        self.seed = seed
        self.pool = pool or {}
        self.fields = self.pool.get('fields', {})
        self.small = small
        self.mem = {}
        from . import lib
        for b, raw in lib.PREFIX.items():
            for k, q in enumerate(raw):
                self.mem[b.a[0], k] = q
        self.syms = dict(fixed or {})
        self.memo = {}
        self.values = self.pool.get('values', ())
        self.floats = self.pool.get('floats', ())
        self.cov = None
        self.unknown = set()
        self.work = 0
        self.short = None

    # ------------------------------------------------------------------ choices
    def choose(self, t, lo, hi):
        r = self.r
        if (t is ANY or t in self.values) and r.random() < 0.7:
            # any value of the type
            n = max(hi, -lo).bit_length()
            b = r.choice((n, n, n, n // 2 + 1, 8, 1))
            v = r.getrandbits(max(min(b, n), 1)) if r.random() < 0.8 else r.choice((0, 1, hi, hi >> 1, (hi >> 1) + 1))
            return min(max(v, lo), hi)
        if t is ANY:
            t = None
        p = self.pool.get(t)
        x = r.random()
        f = self.fields.get(t)
        if f and r.random() < 0.5:
            # a word with several fields
            v = r.choice(sorted(p)) if p and r.random() < 0.5 else 0
            dense = r.choice((0.4, 0.4, 0.8, 1.0))
            for a, w in sorted(f):
                if r.random() < dense:
                    c = r.getrandbits(w) if w <= 4 or r.random() < 0.1 else r.getrandbits(4)
                    v = v & ~(((1 << w) - 1) << a) | c << a
            if lo <= v <= hi:
                return v
        if p and x < 0.5:
            c = [v for v in p if lo <= v <= hi]
            if c:
                return r.choice(sorted(c))
        if x < self.small + (1 - self.small) * 0.5:
            v = r.choice((0, 1, 1, 2, 2, 3, 3, 4, 5))
            return min(max(v, lo), hi)
        if hi - lo < 1 << 12 or x < 0.97:
            a = max(lo, -20)
            return r.randint(a, max(a, min(hi, 200)))
        return r.randint(max(lo, -(1 << 64)), min(hi, 1 << 64))

    def bit(self, *k):
        return zlib.crc32(repr((self.seed, tuple(key(x) for x in k))).encode()) >> 7 & 1

    # ------------------------------------------------------------------ buffers
    def byte(self, buf, i):
        m = self.mem.get((buf, i))
        if m is None:
            x = self.r.random()
            m = self.r.randint(0, 5) if x < 0.4 else self.r.choice(b'$SD ab\x00') if x < 0.5 else self.r.randint(0, 255)
            self.mem[buf, i] = m
        return m

    def limit(self, buf, off, n):
        if n < 0:
            raise Discard('negative length')
        if off < 0:
            raise Discard('negative offset')
        if n > 20000:
            raise Discard('long')
        self.work += n
        if self.work > 400000:
            raise Discard('work')

    def raw(self, buf, off, n):
        if isinstance(buf, (bytes, bytearray)):
            if off < 0 or off + n > len(buf) or n < 0:
                raise Discard('beyond the end')
            return bytes(buf[off:off + n])
        self.limit(buf, off, n)
        return bytes(self.byte(buf, off + k) for k in range(n))

    def scalar(self, d, buf, off, t=None):
        """typed read; chooses a value when nothing of it is known yet"""
        big = d.startswith('>')
        d = d.lstrip('>')
        n = SZ[d[1:]]
        if not isinstance(buf, bytes):
            self.limit(buf, off, n)
            if not any((buf, off + k) in self.mem for k in range(n)):
                e = '>' if big else '<'
                if d[0] == 'f':
                    if self.floats and self.r.random() < .3:
                        v = self.r.choice(self.floats)
                    else:
                        v = self.r.choice((0.0, 1.0, -1.0)) if self.r.random() < .2 else round(self.r.uniform(-50, 50), 2)
                    raw = struct.pack(e + FMT[d], v)
                else:
                    hi = (1 << 8 * n) - 1
                    v = self.choose(t, -5 if d[0] == 'i' else 0, hi)
                    if d[0] == 'i' and v > hi >> 1:
                        v -= hi + 1
                    if self.r.random() < 0.02:
                        v = -1 if d[0] == 'i' else hi
                    raw = struct.pack(e + FMT[d], v) if d[0] == 'i' else struct.pack(e + FMT[d], v & hi)
                for k, b in enumerate(raw):
                    self.mem[buf, off + k] = b
        raw = self.raw(buf, off, n)
        return struct.unpack(('>' if big else '<') + FMT[d], raw)[0]

    def varint(self, buf, off, t=None):
        if not isinstance(buf, bytes) and (buf, off) not in self.mem and t is not None:
            self.limit(buf, off, 9)
            v = self.choose(t, 0, (1 << 64) - 1)
            n = 1
            while n < 9 and v >= 1 << 7 * n:
                n += 1
            if self.r.random() < 0.1:
                n = min(9, n + 1)
            raw = b'\xff' + v.to_bytes(8, 'big') if n == 9 else (v | ((0xff << (9 - n)) & 0xff if n > 1 else 0) << 8 * (n - 1)
                                                              ).to_bytes(n, 'big')
            if not any((buf, off + k) in self.mem for k in range(n)):
                for k, b in enumerate(raw):
                    self.mem[buf, off + k] = b
        f = self.raw(buf, off, 1)[0]
        n = 0
        while n < 8 and f & (0x80 >> n):
            n += 1
        raw = self.raw(buf, off, n + 1)
        v = int.from_bytes(raw, 'big')
        if n == 8:
            v &= (1 << 64) - 1
        else:
            v &= (1 << (7 * (n + 1))) - 1
        return v, n + 1

    def array(self, d, buf, off, shape, strides, w=None):
        n = 1
        for s in shape:
            if s < 0:
                raise Discard('negative dimension')
            n *= s
        if n > 4000:
            raise Discard('large array')
        if d.k == 'sdt':
            out = np.zeros(shape, dtype=self.dtype(d))
            for name, fd, o, fs in d.a[0]:
                fsh = tuple(self.ev(x) for x in fs)
                st = []
                s = SZ[fd.a[0][-1]] if fd.k == 'dt' else self.dtype(fd).itemsize
                for x in reversed(fsh):
                    st.append(s)
                    s *= x
                o = self.ev(o) if isinstance(o, T) else o
                out[name] = self.array(fd, buf, off + o, tuple(shape) + fsh, tuple(strides) + tuple(reversed(st)), w)
            return out
        n = 1
        for x in shape:
            n *= x
        if n > 20000 or any(x > 1 << 24 for x in shape):
            raise Discard('large')
        out = np.zeros(shape, dtype=self.dtype(d))
        nm = d.a[0]
        if nm == 'b1':
            nm = 'u1'
        for ix in np.ndindex(*shape):
            out[ix] = self.scalar(nm, buf, off + sum(i * s for i, s in zip(ix, strides)), w)
        return out

    def dtype(self, d):
        if d.k == 'dt':
            n = d.a[0]
            return np.dtype(n if n.startswith('>') else '<' + n if n != 'b1' else '?')
        if d.k == 'sdt':
            f = [(n, self.dtype(fd), tuple(self.ev(x) for x in fs)) for n, fd, o, fs in d.a[0]]
            return np.dtype(f)
        v = self.ev(d)
        raise Discard('dtype')

    # ------------------------------------------------------------------ evaluation
    def ev(self, t, env=()):
        """env: chain of (bindings, memo)"""
        k = t.k
        if k == 'c':
            return cv(t)
        fv = free(t)
        memo = self.memo
        if fv:
            for b, m in reversed(env):
                if any(x in b for x in fv):
                    memo = m
                    break
        r = memo.get(t, memo)
        if r is memo:
            self.work += 1
            if self.work > 400000:
                raise Discard('work')
            r = self._ev(t, env)
            memo[t] = r
        return r

    def arg(self, x, env):
        if isinstance(x, T):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if isinstance(v, Unknown):
            return zlib.crc32(repr((self.seed, key(v))).encode()) & 0xffff
        if v is None:
            raise Discard('none as number')
        return v

    def n(self, t, env):
        v = self.num(t, env)
        if v < 0:
            raise Discard('negative count')
        if v > MAXN:
            raise Discard('large count')
        return int(v)

    def buf(self, t, env):
        if t.k == 'sym':
            return t.a[0]
        v = self.ev(t, env)
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        return ('B', key(v))

    def _ev(self, t, env):
        k, a = t.k, t.a
        if k == 'sym':
            if a[0].startswith('ix#'):
                return self.bound(t, env)
            v = self.syms.get(a[0])
            if v is None:
                if t.ty == 'int':
                    lo, hi = rng(t)
                    v = self.choose(t, max(lo, -(1 << 40)), min(hi, 1 << 40))
                elif t.ty == 'bool':
                    v = bool(self.r.getrandbits(1))
                elif t.ty == 'float':
                    v = round(self.r.uniform(-50, 50), 2)
                else:
                    v = Unknown('sym', a[0])
                self.syms[a[0]] = v
            return v
        if k == 'mu':
            return self.bound(t, env)
        if k == 'poly':
            s = 0
            for m, c in a[0]:
                p = c
                for x in m:
                    p = p * self.num(x, env)
                s = s + p
            return s
        if k == 'ite':
            s = self.atom(a[0], env)
            if self.cov is not None:
                self.cov.add((a[0], s))
            return self.ev(a[1] if s else a[2], env)
        if k == 'tup':
            return tuple(self.ev(x, env) for x in a)
        if k == 'list':
            out = []
            for x in a:
                if x.k == 'app' and x.a[0] == 'spl':
                    out += self.seq(x.a[1], env)
                else:
                    out.append(self.ev(x, env))
            return out
        if k == 'bits':
            x = self.num(a[0], env)
            x = int(x) >> a[1]
            return x if a[2] is None else x & ((1 << a[2]) - 1)
        if k == 'shr':
            return int(self.num(a[0], env)) >> a[1]
        if k == 'div':
            return self.num(a[0], env) // a[1]
        if k == 'divt' or k == 'modt':
            x, y = self.num(a[0], env), self.num(a[1], env)
            if y == 0:
                raise Discard('division by zero')
            return x // y if k == 'divt' else x % y
        if k == 'wrap':
            v = self.num(a[1], env)
            if not isinstance(v, (int, np.integer)):
                raise Discard('wrap')
            s, n = TM.CT[a[0]]
            v = int(v) & ((1 << n) - 1)
            return v - (1 << n) if s and v >> (n - 1) else v
        if k == 'bitop':
            x, y = self.num(a[1], env), self.num(a[2], env)
            return {'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}[a[0]](int(x), int(y))
        if k == 'dec':
            return self.scalar(a[0], self.buf(a[1], env), self.num(a[2], env), t)
        if k == 'vu':
            return self.varint(self.buf(a[0], env), self.num(a[1], env), t)[0]
        if k == 'vl':
            b, o = self.buf(a[0], env), self.num(a[1], env)
            return self.varint(b, o, TM.mk('vu', *a, ty='int', rng=(0, (1 << 64) - 1)))[1]
        if k == 'vn':
            b, o, n = self.buf(a[0], env), self.num(a[1], env), self.n(a[2], env)
            p = 0
            for _ in range(n):
                p += self.varint(b, o + p, False)[1]
            return p
        if k == 'bs':
            return self.raw(self.buf(a[0], env), self.num(a[1], env), self.num(a[2], env))
        if k == 'arr':
            sh = tuple(self.num(x, env) for x in a[3])
            if any(s < 0 for s in sh):
                raise Discard('negative dimension')
            return self.array(a[0], self.buf(a[1], env), self.num(a[2], env), sh, tuple(self.num(x, env) for x in a[4]),
                              ANY if t in self.values else None)
        if k == 'full':
            sh = tuple(self.n(x, env) for x in a[1])
            v = self.ev(a[2], env)
            if isinstance(v, Unknown):
                v = 0
            d = self.dtype(a[0])
            if math.prod(sh) > 20000:
                raise Discard('large array')
            return np.full(sh, v, dtype=d) if v != 0 else np.zeros(sh, dtype=d)
        if k == 'tab':
            n = self.n(a[1], env)
            ix = TM.mk('sym', 'ix#%d' % a[0], ty='int', rng=(0, math.inf))
            return [self.ev(a[2], env + (({ix: q}, {}),)) for q in range(n)]
        if k == 'atab':
            items = self.seq(a[1], env)
            d = self.dtype(a[0])
            return self.toarray(items, d)
        if k == 'at':
            n = self.n(a[3], env)
            e = self.iterate(a[0], a[1], n, env)
            return self.ev(a[2], e)
        if k == 'first':
            lim = None if a[3] is NONE or a[3] is None else self.n(a[3], env)
            q = 0
            ix = TM.mk('sym', 'ix#%d' % a[0], ty='int', rng=(0, math.inf))
            b = {m: self.ev(i, env) for m, i, _ in a[1]}
            while True:
                b[ix] = q
                e = env + ((b, {}),)
                if lim is not None and q >= lim:
                    return q
                if self.ev(a[2], e):
                    return q
                nb = {m: self.ev(s, e) for m, _, s in a[1]}
                b = nb
                q += 1
                if q > MAXN:
                    raise Discard('long loop')
        if k == 'cset':
            return frozenset(self.ev(x, env) for x in a)
        if k == 'dict':
            d = dict(self.ev(a[1], env).d) if a[1] is not None else {}
            for kk, v in a[0]:
                if v.k == 'undef':
                    continue
                x = self.ev(v, env)
                if isinstance(x, Unknown) and x.t == ('undef',):
                    continue
                d[key(self.ev(kk, env))] = x
            return Rec(d)
        if k == 'app':
            return self.app(t, env)
        if k == 'atom':
            return self.atom(t, env)
        if k == 'undef':
            return Unknown('undef')
        if k in ('dt', 'sdt'):
            return Unknown('dtype', str(self.dtype(t)))
        if k == 'exc':
            return Unknown('exc', show(a[0]))
        return Unknown(k, *[self.arg(x, env) for x in a])

    def bound(self, t, env):
        for b, _ in reversed(env):
            if t in b:
                return b[t]
        raise Discard('unbound loop variable')

    def iterate(self, d, sys, n, env):
        ix = TM.mk('sym', 'ix#%d' % d, ty='int', rng=(0, math.inf))
        b = {m: self.ev(i, env) for m, i, _ in sys}
        for q in range(n):
            b[ix] = q
            e = env + ((b, {}),)
            b = {m: self.ev(s, e) for m, _, s in sys}
        b[ix] = n
        return env + ((b, {}),)

    def toarray(self, items, d):
        out = np.zeros(len(items), dtype=d)
        for q, v in enumerate(items):
            if isinstance(v, Unknown):
                v = zlib.crc32(repr(key(v)).encode()) & 0x7f
            if d.kind in 'iu':
                if isinstance(v, (float, np.floating)):
                    v = int(v) if math.isfinite(v) else 0
                v = int(v) & ((1 << 8 * d.itemsize) - 1)
                out[q] = np.array([v], dtype='u%d' % d.itemsize).astype(d)[0]
            else:
                out[q] = v
        return out

    def seq(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, Unknown):
            return [Unknown('items', v)]
        raise Discard('sequence')

    # ------------------------------------------------------------------ conditions
    def atom(self, t, env):
        op = t.a[0]
        if op == 'lt':
            return bool(self.num(t.a[1], env) < t.a[2])
        if op == 'eq':
            return bool(self.num(t.a[1], env) == t.a[2])
        if op in ('eqv', 'ltv'):
            x, y = self.ev(t.a[1], env), self.ev(t.a[2], env)
            if op == 'eqv':
                if isinstance(x, Unknown) != isinstance(y, Unknown):
                    return bool(self.bit(op, *sorted((x, y), key=lambda q: repr(key(q)))))
                return same(x, y, 0)
            try:
                return bool(x < y)
            except TypeError:
                return bool(self.bit(op, x, y))
        if op in ('holds', 'mub', 'el') or op == 'truth':
            if op == 'el':
                v = self.elem(self.ev(t.a[1], env), [self.ev(x, env) for x in t.a[2:]])
            else:
                v = self.ev(t.a[1], env)
            if isinstance(v, Unknown):
                return bool(self.bit(op, v))
            if isinstance(v, Rec):
                return bool(v.d)
            if isinstance(v, np.ndarray) and v.size != 1:
                return bool(self.bit(op, v))
            return bool(v)
        x = [self.arg(q, env) for q in t.a[1:]]
        if op == 'instr' and isinstance(x[0], str) and isinstance(x[1], str):
            return x[0] in x[1]
        if op in ('np:any', 'np:all') and isinstance(x[0], np.ndarray):
            return bool(x[0].any() if op == 'np:any' else x[0].all())
        if op == 'contains':
            c, y = x[0], x[1]
            try:
                if isinstance(c, Rec):
                    return key(y) in c.d
                if isinstance(c, (list, tuple, frozenset)) and not any(isinstance(q, Unknown) for q in c):
                    return any(same(q, y) for q in c)
            except TypeError:
                pass
        return bool(self.bit(op, *x))

    # ------------------------------------------------------------------ functions
    def elem(self, v, ix):
        if isinstance(v, Rec) or isinstance(v, Unknown):
            return Unknown('el', v, *ix)
        try:
            if isinstance(v, np.ndarray):
                r = v[tuple(int(i) for i in ix)]
                return pyscalar(r)
            for i in ix:
                v = v[int(i)]
            return v
        except (IndexError, ValueError, TypeError):
            raise Discard('index')

    def app(self, t, env):
        op = t.a[0]
        x = t.a[1:]
        E = lambda q: self.ev(q, env)
        try:
            return self.app1(op, x, E, env, t)
        except (ValueError, TypeError, IndexError, OverflowError, ZeroDivisionError, MemoryError, struct.error,
                AttributeError) as e:
            raise Discard('%s: %s' % (op, e))

    def app1(self, op, x, E, env, t):
        if op == 'el':
            return self.elem(E(x[0]), [self.num(q, env) for q in x[1:]])
        if op in ('sub', 'sub?'):
            v = E(x[0])
            ix = E(x[2]) if op == 'sub' else [E(q) for q in x[1:]]
            if isinstance(v, np.ndarray):
                return pyscalar(v[tuple(int(i) for i in ix)])
            return Unknown(op, v, *ix)
        if op == 'astype' or op == 'view':
            v = E(x[1])
            if isinstance(v, np.ndarray):
                d = self.dtype(x[0])
                if op == 'view':
                    return np.ascontiguousarray(v).view(d)
                return v.astype(d)
            return Unknown(op, str(self.dtype(x[0])), v)
        if op in ('reshape', 'squeeze'):
            v = E(x[0])
            sh = tuple(self.num(q, env) for q in x[1].a)
            if isinstance(v, np.ndarray):
                if any(s < 0 for s in sh):
                    raise Discard('negative dimension')
                if math.prod(sh) != v.size:
                    raise Fails('reshape of %r to %r' % (v.shape, sh))
                return v.reshape(sh)
            return Unknown(op, v, sh)
        if op == 'np:squeeze':
            v = E(x[0])
            return np.squeeze(v) if isinstance(v, np.ndarray) else Unknown(op, v)
        if op == 'field':
            v = E(x[0])
            if isinstance(v, np.ndarray):
                return pyscalar(v[E(x[1])])
            return Unknown(op, v, E(x[1]))
        if op == 'store':
            v = E(x[0])
            ix = tuple(int(self.num(q, env)) for q in x[1].a)
            y = E(x[2])
            if isinstance(v, np.ndarray):
                v = v.copy()
                if any(i < 0 for i in ix):
                    raise Discard('negative index')
                if v.dtype.kind in 'iu' and isinstance(y, int):
                    y = self.toarray([y], v.dtype)[0]
                if isinstance(y, Unknown):
                    y = zlib.crc32(repr(key(y)).encode()) & 0x7f
                v[ix] = y
                return v
            return Unknown(op, v, ix, y)
        if op == 'fstore':
            v, n, y = E(x[0]), E(x[1]), E(x[2])
            if isinstance(v, np.ndarray):
                v = v.copy()
                v[n] = y
                return v
            return Unknown(op, v, n, y)
        if op == 'setall':
            v, y = E(x[0]), E(x[1])
            v = v.copy()
            v[...] = y
            return v
        if op == 'storex':
            v, i, y = E(x[0]), self.index(x[1], env), E(x[2])
            if isinstance(v, np.ndarray):
                v = v.copy()
                v[i] = y
                return v
            return Unknown(op, v, repr(i), y)
        if op == 'slice' or op == 'fancy':
            v = E(x[0])
            i = tuple(self.index(q, env) for q in x[1:])
            if isinstance(v, np.ndarray):
                return pyscalar(v[i if len(i) != 1 else i[0]])
            return Unknown(op, v, repr(i))
        if op == 'mask':
            v, m = E(x[0]), E(x[1])
            if isinstance(v, np.ndarray) and isinstance(m, np.ndarray):
                return v[m]
            return Unknown(op, v, m)
        if op == 'nz':
            return int(np.count_nonzero(E(x[0])))
        if op == 'dvar':
            b, o, n, m = self.buf(x[0], env), self.num(x[1], env), self.n(x[2], env), self.n(x[3], env)
            return self.dvar(b, o, n, m)[0]
        if op == 'dvlen':
            b, o, n, m = self.buf(x[0], env), self.num(x[1], env), self.n(x[2], env), self.n(x[3], env)
            return self.dvar(b, o, n, m)[1]
        if op == 'recarrays':
            names, v = E(x[0]), E(x[1])
            return np.core.records.fromarrays(v, names=list(names)) if False else recarrays(v, names)
        if op.startswith('ew:'):
            return self.ewop(op[3:], [E(q) for q in x])
        if op.startswith('f:'):
            v = [E(q) for q in x]
            if any(isinstance(q, Unknown) for q in v):
                return Unknown(op, *v)
            return float(BIN[op[2:]](*[float(q) for q in v])) if op[2:] in BIN else Unknown(op, *v)
        if op in ('float', 'int'):
            v = E(x[0])
            if isinstance(v, Unknown):
                return Unknown(op, v)
            if op == 'float':
                return float(v)
            if isinstance(v, float) and not math.isfinite(v):
                raise Discard('int of nan')
            return int(v)
        if op == 'array':
            v = E(x[0])
            d = self.dtype(x[1]) if x[1] is not NONE else None
            if d is not None and isinstance(v, (list, tuple)):
                if all(isinstance(q, (int, float, bool)) for q in v):
                    return self.toarray(v, d)
            return np.array(v, dtype=d)
        if op.startswith('np:') and op[3:] in NPOK:
            return self.npcall(op[3:], x, E)
        if op == 'T':
            return E(x[0]).T
        if op == 'clip':
            v = E(x[0])
            args, kw = npargs(x[1:], E)
            kw.pop('out', None)
            return np.clip(v, *args, **kw)
        if op == 'shape':
            v = E(x[0])
            return tuple(v.shape)
        if op == 'size':
            return int(E(x[0]).size)
        if op == 'len':
            v = E(x[0])
            return len(v.d if isinstance(v, Rec) else v) if not isinstance(v, Unknown) else Unknown(op, v)
        if op == 'popcount':
            return bin(int(self.num(x[0], env)) & ((1 << 64) - 1)).count('1')
        if op == 'bit_length':
            return int(self.num(x[0], env)).bit_length()
        if op == 'shl':
            k = self.num(x[1], env)
            if not 0 <= k < 4096:
                raise Discard('shift')
            return int(self.num(x[0], env)) << int(k)
        if op == 'pow':
            return int(self.num(x[0], env)) ** int(self.num(x[1], env))
        if op == 'shr_':
            return int(self.num(x[0], env)) >> int(self.num(x[1], env))
        if op == 'cat':
            return b''.join(self.bts(E(q)) for q in x)
        if op == 'byte':
            return bytes([self.num(x[0], env) & 255])
        if op == 'scat':
            return ''.join(q if isinstance(q, str) else repr(key(q)) for q in map(E, x))
        if op == 'sum':
            v = self.seq(x[0], env)
            s = E(x[1]) if len(x) > 1 else 0
            for q in v:
                s = s + q
            return s
        if op in ('list', 'tuple'):
            return (list if op == 'list' else tuple)(self.seq(x[0], env))
        if op == 'sorted' and len(x) == 1:
            v = self.seq(x[0], env)
            return sorted(v)
        if op == 'dstore':
            d = E(x[0])
            k, v = E(x[1]), E(x[2])
            if not isinstance(d, Rec):
                return Unknown(op, d, k, v)
            out = dict(d.d)
            out[key(k)] = v
            return Rec(out)
        if op == 'dget':
            d, k = E(x[0]), E(x[1])
            if isinstance(d, Rec):
                return d.d[key(k)] if key(k) in d.d else Unknown('undef')
            return Unknown(op, d, k)
        if op == 'dmerge':
            d, e = E(x[0]), E(x[1])
            if isinstance(d, Rec) and isinstance(e, Rec):
                return Rec({**d.d, **e.d})
        if op == 'getitem':
            v, i = E(x[0]), E(x[1])
            if isinstance(v, (list, tuple, str, bytes)) and isinstance(i, int):
                return v[i]
            return Unknown(op, v, i)
        if op == 'tobytes':
            return E(x[0]).tobytes()
        if op == 'decode':
            v = E(x[0])
            if isinstance(v, bytes):
                try:
                    return v.decode(*[E(q) for q in x[1:]])
                except UnicodeDecodeError:
                    raise Discard('undecodable')
        if op == 'lrep':
            return E(x[0]) * self.n(x[1], env)
        if op == 'lslice':
            v = E(x[0])
            return v[slice(*[E(q) for q in x[1:]])]
        if op == 'lset':
            v, k = list(E(x[0])), E(x[1])
            if not isinstance(k, int) or not -len(v) <= k < len(v):
                raise Fails('index')
            v[k] = E(x[2])
            return v
        if op == 'abs':
            return abs(E(x[0]))
        self.unknown.add(op)
        return Unknown(op, *[self.arg(q, env) for q in x])

    def bts(self, v):
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        raise Discard('bytes')

    def index(self, t, env):
        if t.k == 'slice':
            return slice(*[None if q is NONE else int(self.num(q, env)) for q in t.a])
        v = self.ev(t, env)
        if isinstance(v, Unknown):
            raise Discard('index')
        return v

    def dvar(self, b, o, n, m):
        out = np.zeros((n, m), dtype='u4')
        p = 0
        for i in range(n):
            v = 0
            for j in range(m):
                u, l = self.varint(b, o + p, False)
                p += l
                v += -(u >> 1) - 1 if u & 1 else u >> 1
                out[i, j] = v & 0xffffffff
        return out, p

    def ewop(self, op, v):
        if any(isinstance(q, (Unknown, Rec)) or q is None for q in v):
            return Unknown('ew:' + op, *v)
        f = EW.get(op)
        if f is None:
            return Unknown('ew:' + op, *v)
        arrs = [q for q in v if isinstance(q, np.ndarray) and q.dtype.kind in 'iu']
        if arrs:
            # typed integer scalars are plain integers in the terms
            d = max((q.dtype for q in arrs), key=lambda d: d.itemsize)
            v = [self.toarray([q], d)[0] if isinstance(q, int) and not isinstance(q, bool) and not (
                np.iinfo(d).min <= q <= np.iinfo(d).max) else q for q in v]
        return f(*v)

    def npcall(self, name, x, E):
        args, kw = npargs(x, E)
        for q in list(args) + list(kw.values()):
            if isinstance(q, (Unknown, Rec)):
                if isinstance(q, Unknown) and q.t and q.t[0] == 'dtype':
                    continue
                return Unknown('np:' + name, *args, *kw.items())
        args = [np.dtype(q.t[1]) if isinstance(q, Unknown) else q for q in args]
        kw = {k: np.dtype(q.t[1]) if isinstance(q, Unknown) else q for k, q in kw.items()}
        r = NPOK[name](*args, **kw)
        if isinstance(r, np.ndarray) and r.size > 20000:
            raise Discard('large array')
        return pyscalar(r)


def npargs(x, E):
    args, kw = [], {}
    it = iter(x)
    for q in it:
        if q.k == 'c' and isinstance(cv(q), str) and cv(q).endswith('='):
            kw[cv(q)[:-1]] = E(next(it))
        else:
            args.append(E(q))
    return args, kw


def recarrays(v, names):
    v = list(v)
    d = np.dtype([(n, q.dtype) for n, q in zip(names, v)])
    out = np.zeros(v[0].shape, dtype=d)
    for n, q in zip(names, v):
        out[n] = q
    return out


def pyscalar(r):
    if isinstance(r, np.ndarray) and r.shape == () and r.dtype.names is None:
        return r.item()
    if isinstance(r, np.void):
        return np.array(r)
    if isinstance(r, np.generic):
        return r.item()
    return r


BIN = {'Mult': operator.mul, 'Add': operator.add, 'Sub': operator.sub, 'Div': operator.truediv, 'Pow': operator.pow,
       'pow': operator.pow, 'USub': operator.neg, 'FloorDiv': operator.floordiv, 'Mod': operator.mod}
EW = dict(BIN)
EW.update({'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor, 'LShift': operator.lshift,
           'RShift': operator.rshift, 'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'Gt': operator.gt,
           'LtE': operator.le, 'GtE': operator.ge, 'Invert': operator.invert, 'Not': np.logical_not,
           'truth': lambda a: a.astype(bool), 'where': np.where, 'UAdd': operator.pos})
NPOK = {n: getattr(np, n) for n in (
    'where', 'repeat', 'concatenate', 'stack', 'vstack', 'hstack', 'flatnonzero', 'cumsum', 'sum', 'any', 'all',
    'count_nonzero', 'ceil', 'floor', 'sqrt', 'power', 'min', 'max', 'diff', 'linspace', 'arange', 'transpose', 'log10',
    'unpackbits', 'column_stack', 'prod', 'mean', 'sort', 'minimum', 'maximum', 'nonzero', 'abs', 'append', 'round')}
NPOK['nonzero'] = lambda a: np.nonzero(a)[0]
NPOK['sort'] = np.sort


def ops(terms):
    """functions and kinds the interpretation does not know"""
    out = set()
    seen = set()
    for t in terms:
        for x in TM.walk(t, seen):
            if x.k == 'app' and isinstance(x.a[0], str):
                out.add(x.a[0])
            elif x.k == 'atom':
                out.add('?' + x.a[0])
    return out
