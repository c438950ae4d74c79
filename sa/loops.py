"""Loops as systems of recurrences.

A loop body is interpreted once with every slot it changes replaced by a `mu` variable
(found by repeating the pass until no new changed slot shows up).  Affine slots get a
closed form, the rest stays in a system of recurrences

    at(depth, ((mu, init, step), ...), value, n)

= `value` with the mu variables at the head of iteration n.  The systems are minimised by
partition refinement so that equal recurrences are the same term, no matter how the
variables are called and how many redundant ones there are.
"""
from .terms import *
from . import terms as TM
from .interp import Dead, State, Cell, merge, UNDEF, lst, ext
import math


def ixvar(d, hi=math.inf):
    return mk('sym', 'ix#%d' % d, ty='int', rng=(0, math.inf))


def muvar(d, k, ty, r=None):
    if ty == 'arr':
        return mk('mu', d, k, ty, r, ty=ty)
    r = r if ty == 'int' else None
    if ty == 'int' and r is None:
        r = TM._OPEN
    return mk('mu', d, k, ty, r, ty=ty, rng=r)


_fv = {}


def free(t):
    """free loop variables of a term"""
    if isinstance(t, tuple):
        s = frozenset()
        for x in t:
            s |= free(x)
        return s
    if not isinstance(t, T) or t.k == 'c':
        return frozenset()
    r = _fv.get(t)
    if r is not None:
        return r
    if t.k == 'mu':
        r = frozenset({t})
    elif t.k == 'sym':
        r = frozenset({t}) if isinstance(t.a[0], str) and t.a[0].startswith('ix#') else frozenset()
    elif t.k == 'poly':
        r = frozenset()
        for m, _ in t.a[0]:
            for x in m:
                r |= free(x)
    elif t.k == 'tab':
        r = frozenset(x for x in free(t.a[2]) if not bound_by(x, t.a[0])) | free(t.a[1])
    elif t.k in ('at', 'first'):
        d = t.a[0]
        inner = free(t.a[2]) | free(tuple(s for _, _, s in t.a[1]))
        r = frozenset(x for x in inner if not bound_by(x, d))
        r |= free(tuple(i for _, i, _ in t.a[1])) | free(t.a[3])
    else:
        r = frozenset()
        for x in t.a:
            r |= free(x)
    _fv[t] = r
    return r


def bound_by(x, d):
    if x.k == 'mu':
        return x.a[0] == d
    return x.k == 'sym' and x.a[0] == 'ix#%d' % d


_ht = {}
FRESH = [10000]


def fresh():
    FRESH[0] += 1
    return FRESH[0]


def height(t):
    """largest binder number in a term (free variables do not count)"""
    if isinstance(t, tuple):
        return max([height(x) for x in t] or [0])
    if not isinstance(t, T) or t.k in ('c', 'sym', 'mu', 'undef'):
        return 0
    r = _ht.get(t)
    if r is None:
        r = height(tuple(t.a))
        if t.k in ('at', 'first', 'tab'):
            r = max(r, t.a[0])
        _ht[t] = r
    return r


def canonical(d, bodies):
    """(number, renaming) of a binder over the bodies"""
    h = 1 + max([height(b) for b in bodies] or [0])
    if h == d:
        return d, None
    m = {}
    for b in bodies:
        for x in free(b):
            if bound_by(x, d):
                m[x] = ixvar(h) if x.k == 'sym' else mk('mu', h, *x.a[1:], ty=x.ty, rng=x.rng)
    return h, m


def tab(d, n, item):
    """list [item for ix#d in range(n)]"""
    if n.k == 'ite':
        return lift('tab%d_%d' % (d, item.id), lambda q: tab(d, q, item), n)
    if n is ZERO:
        return lst()
    if item.k == 'ite':
        a = TM.atom_b(item.a[0])
        if not has_loopvar(a, d):
            return ite(a, tab(d, n, item.a[1]), tab(d, n, item.a[2]))
    h, m = canonical(d, [item])
    if m:
        item = subst(item, m)
    if is_c(n) and cv(n) <= 16:
        return lst(*[subst_ix(item, h, C(k)) for k in range(cv(n))])
    return mk('tab', h, n, item, ty='list')


def subst_ix(item, d, value):
    return subst(item, {ixvar(d): value})


def has_loopvar(t, d):
    return any(bound_by(x, d) for x in free(t))


# ------------------------------------------------------------------ canonical systems
def minimise(d, sys, roots):
    """sys: list of (mu, init, step); returns (sys', roots') over canonical variables"""
    table = {m: (i, s) for m, i, s in sys}
    need, stack = [], [x for r in roots for x in free(r)]
    while stack:
        x = stack.pop()
        if x.k == 'mu' and x.a[0] == d and x in table and x not in need:
            need.append(x)
            stack.extend(free(table[x][1]))
    need.sort(key=lambda x: x.id)
    if not need:
        return (), roots
    color = {m: (m.ty, table[m][0]) for m in need}
    ncls = len(set(color.values()))
    for _ in range(len(need) + 2):
        sub = {m: mk('mu', d, ('c',) + _ckey(color[m]), m.ty, m.a[3] if m.ty == 'arr' else None, ty=m.ty, rng=m.rng)
               for m in need}
        new = {m: (m.ty, table[m][0], subst(table[m][1], sub)) for m in need}
        k = len(set(new.values()))
        color = new
        if k == ncls:
            break
        ncls = k
    classes = {}
    for m in need:
        classes.setdefault(color[m], []).append(m)
    order = sorted(classes, key=lambda c: tuple(x.id if isinstance(x, T) else 0 for x in c))
    canon = {}
    for k, c in enumerate(order):
        ms = classes[c]
        r = ms[0].rng
        if r is not None:
            for m in ms[1:]:
                r = (max(r[0], m.rng[0]), min(r[1], m.rng[1]))
        v = mk('mu', d, k, ms[0].ty, r if ms[0].ty != 'arr' else ms[0].a[3], ty=ms[0].ty, rng=r)
        for m in ms:
            canon[m] = v
    out = []
    for c in order:
        m = classes[c][0]
        out.append((canon[m], table[m][0], subst(table[m][1], canon)))
    return tuple(out), [subst(r, canon) for r in roots]


def _ckey(c):
    return tuple(x.id if isinstance(x, T) else x for x in c)


def at(d, sys, value, n):
    """value at the head of iteration n"""
    if value is UNDEF:
        return value
    ix = ixvar(d)
    if value.k == 'ite':
        # keep the gates of loop invariant conditions outside
        a = TM.atom_b(value.a[0])
        if not has_loopvar(a, d):
            return ite(a, at(d, sys, value.a[1], n), at(d, sys, value.a[2], n))
    if value.k == 'tup':
        return tup(*[at(d, sys, x, n) for x in value.a])
    fv = [x for x in free(value) if bound_by(x, d)]
    if not fv:
        return value
    if all(x is ix for x in fv):
        return subst(value, {ix: n})
    d, s, v = close(d, sys, value)
    if is_c(n) and cv(n) == 0:
        return subst(v, dict([(m, i) for m, i, _ in s] + [(ix, ZERO)]))
    if n.k == 'ite':
        return lift('at%d_%d' % (d, mk('atkey', s, v).id), lambda q: _at(d, s, v, q), n)
    return _at(d, s, v, n)


def close(d, sys, value):
    table = {m: (i, s) for m, i, s in sys}
    need, stack = {}, list(free(value))
    while stack:
        x = stack.pop()
        if x in table and x not in need:
            need[x] = table[x]
            stack.extend(free(table[x][1]))
    h, m = canonical(d, [value] + [s for _, s in need.values()] + [i for i, _ in need.values()])
    if m:
        for x in need:
            if x not in m:
                m[x] = mk('mu', h, *x.a[1:], ty=x.ty, rng=x.rng)
        value = subst(value, m)
        sys = [(m[x], i, subst(s, m)) for x, (i, s) in need.items()]
    else:
        sys = [(x, i, s) for x, (i, s) in need.items()]
    s, (v,) = minimise(h, sys, [value])
    return h, s, v


def _at(d, s, v, n):
    ix = ixvar(d)
    if is_c(n) and cv(n) == 0:
        return subst(v, dict([(m, i) for m, i, _ in s] + [(ix, ZERO)]))
    if v.k == 'mu' and v.ty == 'arr':
        r = store_loop(d, s, v, n)
        if r is not None:
            return r
    if v.ty == 'bool':
        return opaque_atom('holds', mk('at', d, s, v, n))
    return mk('at', d, s, v, n, ty=v.ty, rng=v.rng if v.ty == 'int' else None)


def store_loop(d, s, v, n):
    """every element of an array assigned in order"""
    from . import lib
    for mu, init, step in s:
        if mu is v:
            break
    else:
        return None
    if step.k == 'app' and step.a[0] == 'store' and step.a[1] is mu and step.a[2].a == (ixvar(d),):
        item = step.a[3]
        deps = {m: t for m, _, t in s}
        seen, stack = set(), list(free(item))
        while stack:
            x = stack.pop()
            if x in deps and x not in seen:
                seen.add(x)
                stack.extend(free(deps[x]))
        sh = lib.shape_of(init)
        if v not in seen and sh is not None and len(sh) == 1 and sh[0] is n and lib.dtype_of(init) is not None:
            f = fresh()
            return lib.atab(lib.dtype_of(init), n, at(d, s, item, ixvar(f)), f)
    return None


def first(d, sys, guard, limit):
    """first iteration (at most limit) at whose head the guard holds"""
    d, s, g = close(d, sys, guard)
    return mk('first', d, s, g, limit if limit is not None else NONE, ty='int', rng=(0, math.inf))


def _rebuild_binder(t, m, memo):
    d = t.a[0]
    if t.k == 'tab':
        m2 = {k: v for k, v in m.items() if not bound_by(k, d)}
        n = TM._subst(t.a[1], m, memo)
        it = TM._subst(t.a[2], m2, memo if len(m2) == len(m) else {}) if m2 else t.a[2]
        return t if n is t.a[1] and it is t.a[2] else tab(d, n, it)
    m2 = {k: v for k, v in m.items() if not bound_by(k, d)}
    if len(m2) == len(m):
        mm = memo
    else:
        mm = {}
    inits = [TM._subst(i, m, memo) for _, i, _ in t.a[1]]
    n = TM._subst(t.a[3], m, memo)
    if m2:
        steps = [TM._subst(s, m2, mm) for _, _, s in t.a[1]]
        v = TM._subst(t.a[2], m2, mm)
    else:
        steps = [s for _, _, s in t.a[1]]
        v = t.a[2]
    if n is t.a[3] and v is t.a[2] and all(
            a is b for a, (_, b, _) in zip(inits, t.a[1])) and all(a is b for a, (_, _, b) in zip(steps, t.a[1])):
        return t
    sys = [(mu, i, s) for (mu, _, _), i, s in zip(t.a[1], inits, steps)]
    if t.k == 'at':
        return at(d, sys, v, n)
    return first(d, sys, v, None if n is NONE else n)


TM.BINDER = _rebuild_binder


# ------------------------------------------------------------------ execution
def run_loop(I, st, seq, assign, body, orelse, test, node):
    if seq is not None and seq.n is not None:
        n = I.simp(st, seq.n)
        if n.k == 'ite':
            # different constants on different paths
            if all(is_c(x) for x in leaves(n)):
                def f(s, leaf):
                    unrolled(I, s, int(cv(leaf)), assign, body, orelse)
                    return NONE
                I.split(st, n, f)
                return
        elif is_c(n) and cv(n) <= I.unroll:
            unrolled(I, st, int(cv(n)), assign, body, orelse)
            return
        if n.k != 'c' and n.ty == 'int' and and_(st.pc, TM.lt(C(SMALL), n)) is FALSE:
            bounded(I, st, n, assign, body, orelse)
            return
        symbolic(I, st, seq, n, assign, body, orelse, None, node)
        return
    if seq is not None and seq.proto:
        protocol(I, st, assign, body, orelse)
        return
    if test is not None and const_while(I, st, body, orelse, test):
        return
    symbolic(I, st, seq, None, assign, body, orelse, test, node)


def leaves(t):
    if t.k == 'ite':
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


def one(I, cur, go):
    """one execution of the body: (alive, break states)"""
    I.brks.append([])
    I.conts.append([])
    dead = False
    try:
        go(cur)
    except Dead:
        dead = True
    brk, cont = I.brks.pop(), I.conts.pop()
    states = ([] if dead else [cur.snap()]) + [s for s, _ in cont]
    if states:
        I.join(cur, states)
    return bool(states), [s for s, _ in brk]


def finish(I, st, cur, alive, after, orelse):
    states = list(after)
    if alive:
        s = cur
        try:
            if orelse:
                I.block(orelse, s)
            states.append(s.snap())
        except Dead:
            pass
    I.join(st, states)


def unrolled(I, st, n, assign, body, orelse):
    after = []
    cur = st.snap()
    alive = True
    for k in range(n):
        def go(s):
            assign(s, C(k))
            body(s)
        alive, brk = one(I, cur, go)
        after += brk
        if not alive:
            break
    finish(I, st, cur, alive, after, orelse)


PROTOCOL = 400


def protocol(I, st, assign, body, orelse):
    """iteration over an object by __next__, ended by StopIteration"""
    after = []
    cur = st.snap()
    for k in range(PROTOCOL):
        I.raises.append([])
        dead = False
        try:
            assign(cur, C(k))
        except Dead:
            dead = True
        caught = I.raises.pop()
        for s, e in caught:
            m = I.cond(s, I.exc_match(s, e, ext('StopIteration')))
            if m is not FALSE:
                q = s.fork(m)
                try:
                    if orelse:
                        I.block(orelse, q)
                    after.append(q)
                except Dead:
                    pass
            if m is not TRUE:
                I.raises[-1].append((s.fork(not_(m)), e))
        if dead:
            break
        alive, brk = one(I, cur, body)
        after += brk
        if not alive:
            break
    else:
        raise Undecidable('iteration does not end')
    I.join(st, after)


SMALL = 9


def bounded(I, st, n, assign, body, orelse):
    """at most SMALL iterations on every path"""
    after = []
    cur = st.snap()
    alive = True
    for k in range(SMALL + 1):
        more = TM.lt(C(k), n)
        if and_(cur.pc, more) is FALSE:
            break
        stop = and_(cur.pc, not_(more))
        if stop is not FALSE:
            s = cur.snap()
            s.pc = stop
            try:
                if orelse:
                    I.block(orelse, s)
                after.append(s)
            except Dead:
                pass
            cur.pc = and_(cur.pc, more)

        def go(s):
            assign(s, C(k))
            body(s)
        alive, brk = one(I, cur, go)
        after += brk
        if not alive:
            break
    finish(I, st, cur, alive, after, orelse)


def const_while(I, st, body, orelse, test):
    import ast
    if isinstance(test, ast.Constant) and not I.concrete:
        return False
    cur = st.snap()
    marks = [len(I.rets[-1]), len(I.raises[-1]), I.nref]
    after = []
    alive = True
    for _ in range(3000 if I.concrete else 300):
        c = I.truth(cur, I.ev(test, cur))
        if c is FALSE:
            finish(I, st, cur, True, after, orelse)
            return True
        if c is not TRUE:
            break
        alive, brk = one(I, cur, body)
        after += brk
        if not alive:
            finish(I, st, cur, False, after, orelse)
            return True
    del I.rets[-1][marks[0]:]
    del I.raises[-1][marks[1]:]
    return False


def changed(a, b):
    """slots of cells of state a that differ in state b"""
    out = []
    for k, ca in a.heap.items():
        cb = b.heap.get(k)
        if cb is None or cb is ca:
            continue
        for n in list(ca.s) + [x for x in cb.s if x not in ca.s]:
            if ca.s.get(n, UNDEF) is not cb.s.get(n, UNDEF):
                out.append((k, n))
    return out


def slot_type(I, st, key, slot, init, step):
    """type and range of the mu variable of a slot"""
    cell = st.heap[key]
    if cell.kind == 'list':
        return 'list', None
    if cell.kind == 'dict' and slot == 'dyn':
        return 'dict', None
    if cell.kind == 'arr':
        return 'arr', None
    if cell.kind in ('bio', 'cnt') and slot == 'pos':
        return 'int', (0, math.inf)
    if cell.kind == 'ba':
        return 'bytes', None
    tys = {x.ty for v in (init, step) for x in leaves(v) if x is not UNDEF and x.k != 'mu'}
    r = None
    if cell.kind == 'env':
        for kk, f in I.frames:
            if kk == key:
                ct = f.ctypes.get(slot)
                if ct in CT:
                    r = ct_rng(ct) if CT[ct][1] < 64 else ((0, math.inf) if not CT[ct][0] else None)
                if ct == 'bint':
                    return 'bool', None
    if cell.kind == 'inst':
        r = I.ATTR_RNG.get(slot)
        if r:
            r = (r[0], math.inf)
    if tys and tys <= {'int', 'bool'}:
        if tys == {'bool'}:
            return 'int', (0, 1)
        return 'int', r
    if len(tys) == 1:
        t = tys.pop()
        if t in ('ref', 'none', 'func', 'class', 'tuple', 'undef', 'ite'):
            return 'obj', None
        return t, None
    return 'obj', None


def arr_info(init, step):
    """dtype and shape of an array slot, if they are loop invariant"""
    from . import lib
    if init.ty != 'arr' or step.ty != 'arr':
        return None
    a = (lib.dtype_of(init), lib.shape_of(init))
    b = (lib.dtype_of(step), lib.shape_of(step))
    if a == b and a[0] is not None and a[1] is not None and not any(free(x) for x in a[1]) and not free(a[0]):
        return a
    return None


def rel(pc, base):
    """pc given that base holds"""
    if pc is base:
        return TRUE
    if base is TRUE:
        return pc
    c = pc
    for a in list(TM.support(base)):
        ab = TM.atom_b(a)
        if and_(base, ab) is FALSE:
            c = restrict(c, a, False)
        elif and_(base, not_(ab)) is FALSE:
            c = restrict(c, a, True)
    if and_(base, c) is base:
        return TRUE
    return c


def symbolic(I, st, seq, N, assign, body, orelse, test, node):
    d = fresh()
    ix = ixvar(d)
    H = {}
    old_heap_keys = list(st.heap)
    base_pc = st.pc
    for _pass in range(40):
        s = State(dict(st.heap), base_pc)
        for (key, slot), mu in H.items():
            c = s.heap[key]
            v = mu
            if mu.ty == 'bool':
                v = opaque_atom('mub', mu)
            s.heap[key] = c.with_(slot, v)
        start = s.snap()
        I.depth += 1
        TM.LOOPS[0] += 1
        I.brks.append([])
        I.conts.append([])
        I.rets.append([])
        I.raises.append([])
        done = None
        dead = False
        try:
            if test is not None:
                c = I.truth(s, I.ev(test, s))
                if c is not TRUE:
                    done = s.fork(not_(c))
                I.assume(s, c)
            if assign is not None:
                assign(s, ix)
            body(s)
        except Dead:
            dead = True
        finally:
            I.depth -= 1
            TM.LOOPS[0] -= 1
            brk, cont, ret, rai = I.brks.pop(), I.conts.pop(), I.rets.pop(), I.raises.pop()
        states = ([] if dead else [s.snap()]) + [x for x, _ in cont]
        end = None
        if states:
            end = State({}, FALSE)
            I.join(end, states)
        exits = []
        if done is not None:
            exits.append(('done', done, None))
        exits += [('break', x, None) for x, _ in brk]
        exits += [('return', x, v) for x, v in ret]
        if not I.happy:
            exits += [('raise', x, e) for x, e in rai]
        elif rai:
            I.notes.append(('loop-raise', node, len(rai)))
        new = []
        for e in ([end] if end is not None else []) + [x for _, x, _ in exits]:
            for ks in changed(start, e):
                if ks not in H and ks not in new:
                    new.append(ks)
        if not new:
            break
        for ks in new:
            key, slot = ks
            init = st.heap[key].s.get(slot, UNDEF)
            vals = [e.heap[key].s.get(slot, UNDEF) for e in ([end] if end is not None else []) + [x for _, x, _ in exits]
                    if key in e.heap]
            v = next((x for x in vals if x is not start.heap[key].s.get(slot, UNDEF)), UNDEF)
            ty, r = slot_type(I, st, key, slot, init, v)
            if ty == 'arr':
                r = arr_info(init, v)
            H[ks] = muvar(d, ('s', len(H)), ty, r)
    else:
        raise Undecidable('loop does not stabilise')

    fz = lambda state, v: I.freeze(state, v)
    sys = []
    pos = {}
    for (key, slot), mu in H.items():
        init = fz(st, st.heap[key].s.get(slot, UNDEF))
        step = fz(end, end.heap[key].s.get(slot, UNDEF)) if end is not None else mu
        if mu.ty == 'arr' and mu.a[3] is not None and arr_info(init, step) != mu.a[3]:
            raise Undecidable('array changes its shape in a loop')
        sys.append((mu, init, step))
        pos[(key, slot)] = mu
    ex = []
    for kind, x, v in exits:
        g = rel(x.pc, base_pc)
        vals = {}
        for (key, slot) in H:
            vals[(key, slot)] = fz(x, x.heap[key].s.get(slot, UNDEF)) if key in x.heap else UNDEF
        ex.append([kind, g, vals, fz(x, v) if v is not None else None])

    # closed forms
    closed = {}
    progress = True
    while progress:
        progress = False
        for k, (mu, init, step) in enumerate(sys):
            cl = None
            if step is mu:
                cl = init
            elif mu.ty == 'int' and TM.is_int(step) and init is not UNDEF and TM.is_int(init) and init.k != 'ite' or (
                    mu.ty == 'int' and TM.is_int(step) and init.k == 'ite' and UNDEF not in leaves(init)):
                dd = sub(step, mu)
                if not has_loopvar(dd, d):
                    cl = add(init, mul(dd, ix))
                elif dd.k == 'vl' and not has_loopvar(sub(dd.a[1], mu), d) and not has_loopvar(dd.a[0], d):
                    from . import lib
                    cl = add(init, lib.vn(dd.a[0], add(init, sub(dd.a[1], mu)), ix))
            elif mu.ty == 'list' and step.k == 'list' and len(step.a) == 2 and is_spl(step.a[0]) and step.a[
                    0].a[1] is mu and not is_spl(step.a[1]) and init is not UNDEF and init.ty == 'list':
                rest = [x for x in sys if x[0] is not mu]
                item = step.a[1]
                table = {a: c for a, _, c in sys}
                seen, stack = set(), list(free(item))
                while stack:
                    x = stack.pop()
                    if x in table and x not in seen:
                        seen.add(x)
                        stack.extend(free(table[x]))
                ready = not seen or not any(affine_todo(a, i, c, d) for a, i, c in rest)
                if mu not in seen and ready:
                    from . import lib
                    f = fresh()
                    cl = lib.cat_list(init, tab(f, ix, at(d, rest, item, ixvar(f))))
            if cl is not None:
                m = {mu: cl}
                closed[mu] = cl
                del sys[k]
                sys = [(a, i, subst(b, m)) for a, i, b in sys]
                closed = {a: subst(b, m) for a, b in closed.items()}
                for e in ex:
                    e[1] = subst(e[1], m)
                    e[2] = {q: subst(v, m) for q, v in e[2].items()}
                    if e[3] is not None:
                        e[3] = subst(e[3], m)
                progress = True
                break
    # exit conditions
    ex = [e for e in ex if e[1] is not FALSE]
    total = FALSE
    for e in ex:
        total = or_(total, e[1])
    if N is None and seq is not None:
        N = seq.n
    if not ex:
        if N is None:
            raise Dead      # endless loop without exit
        n_exit = N
    else:
        n_exit = None
        if N is None:
            n_exit = closed_count(total, ix, d)
        if n_exit is None:
            n_exit = first(d, sys, total, N)

    def state_at(vals, cond):
        z = State(dict(st.heap), and_(base_pc, cond))
        for (key, slot), mu in H.items():
            v = vals.get((key, slot)) if vals is not None else closed.get(mu, mu)
            w = at(d, sys, v, n_exit)
            z.heap[key] = z.heap[key].with_(slot, w)
        return z

    def lastvals():
        """slots at exhaustion; temporaries take the value of the last iteration"""
        return None

    after = []
    conds = []
    for kind, g, vals, v in ex:
        if len(ex) == 1 and N is None:
            c = TRUE
        else:
            t = at(d, sys, g, n_exit)
            if N is None:
                c = t
            else:
                c = and_(lt(n_exit, N), t)
        conds.append(c)
        z = state_at(vals, c)
        if kind in ('done', 'break'):
            after.append((kind, z))
        elif kind == 'return':
            I.rets[-1].append((z, at(d, sys, v, n_exit)))
        elif kind == 'raise':
            I.raises[-1].append((z, at(d, sys, v, n_exit)))
    if N is not None:
        c = TRUE
        if ex:
            c = not_(lt(n_exit, N))
        z = state_at(None, c)
        after.append(('done', z))
    states = []
    for kind, z in after:
        if kind == 'done' and orelse:
            try:
                I.block(orelse, z)
            except Dead:
                continue
        states.append(z)
    I.join(st, states)


def is_spl(x):
    return x.k == 'app' and x.a[0] == 'spl'


def affine_todo(mu, init, step, d):
    """a closed form for this slot is still to come"""
    if step is mu:
        return True
    if mu.ty == 'int' and TM.is_int(step) and init is not UNDEF and TM.is_int(init):
        dd = sub(step, mu)
        return not has_loopvar(dd, d) or dd.k == 'vl' and not has_loopvar(sub(dd.a[1], mu), d)
    return False


def closed_count(g, ix, d):
    """number of iterations of `while not g` for affine conditions, or None"""
    if g.k != 'ite' or g.a[1].k == 'ite' or g.a[2].k == 'ite':
        return None
    atom = g.a[0]
    if atom.a[0] != 'lt':
        return None
    q, k = atom.a[1], C(atom.a[2])
    cont_when_lt = g.a[1] is FALSE
    p = TM._poly(q)
    c = p.pop((ix,), 0)
    r = TM.from_poly(p)
    if c == 0 or has_loopvar(r, d):
        return None
    if cont_when_lt and c > 0:
        need = sub(k, r)                      # c*ix < need
        n = floordiv(add(need, C(c - 1)), C(c))
    elif not cont_when_lt and c < 0:
        need = add(sub(r, k), ONE)            # -c*ix < need
        n = floordiv(add(need, C(-c - 1)), C(-c))
    else:
        return None
    return clamp0(n)


def clamp0(n):
    return ite(lt(n, ZERO), ZERO, n)
