"""Interned terms: the abstract values of the analyser, their smart
constructors (local normalisation) and capture-avoiding substitution.

A term is an immutable, hash-consed tree.  Equal terms are identical objects,
so comparison is `is`.  Binder terms carry an index variable `ix`."""


class T(object):
    __slots__ = ('op', 'args', 'n', '_fv', '__weakref__')
    table = {}
    counter = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + args
    try:
        t = T.table.get(key)
    except TypeError:
        raise TypeError('unhashable term %r' % (key,))
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        t.n = T.counter
        t._fv = None
        T.counter += 1
        T.table[key] = t
    return t


def K(v):
    return mk('k', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ELLIPSIS = mk('k', 'ellipsis', '...')


def isk(t):
    return t.op == 'k'


def kval(t):
    return t.args[1]


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return '...'
    if t.op == 'k':
        return repr(t.args[1])
    if t.op == 'ix':
        return 'i%s_%s' % (t.args[1], show(t.args[0], depth + 1) if t.args[0].op == 'ax' else t.args[0].op)
    if t.op == 'ax':
        return str(t.args[0])
    return '%s(%s)' % (t.op, ', '.join(show(a, depth + 1) if isinstance(a, T) else str(a)
                                      for a in t.args))


# binders: op -> (position of ix, positions of subterms in its scope)
BINDERS = {
    'map': (1, (2,)),            # map(axis, ix, body)
    'filt': (1, (2,)),           # filt(axis, ix, cond)
    'scomp': (1, (2, 3)),        # scomp(axis, ix, cond, body)
    'dmap': (1, (2, 3)),         # dmap(axis, ix, key, val)
    'forall': (1, (2,)),         # forall(axis, ix, cond)
    'exists': (1, (2,)),
    'fold': (2, (3,)),           # fold(op, axis, ix, body, init)
    'vec': (1, (2,)),            # vec(axis, ix, body)
    'count': (1, (2,)),          # number of ix in axis with cond
    'skey': (0, (1,)),           # skey(ix, key)
    'bigunion': (1, (2, 3)),     # bigunion(axis, ix, cond, set)
    'biginter': (1, (2, 3)),
    'survive': (1, (2, 3)),      # survive(axis, ix, cond, position, base, index)
    'sfold': (1, (2,)),          # sfold(axis, ix, next content, first content, variable)
    'rep': (1, (2,)),            # rep(axis, ix, segments)
}


def ix(axis, n=0):
    return mk('ix', axis, n)


_EMPTY = frozenset()


def free(t):
    """Free index variables of a term."""
    f = t._fv
    if f is not None:
        return f
    if t.op == 'ix':
        f = frozenset([t]) | free(t.args[0])
    elif t.op == 'k':
        f = _EMPTY
    elif t.op in BINDERS:
        p, scope = BINDERS[t.op]
        b = t.args[p]
        f = _EMPTY
        for i, a in enumerate(t.args):
            if i == p or not isinstance(a, T):
                continue
            fa = free(a)
            if i in scope:
                fa = fa - {b}
            f |= fa
    elif t.op == 'tab':          # tab(rax, rix, cax, cix, body)
        f = free(t.args[0]) | (free(t.args[2]) - {t.args[1]}) | \
            (free(t.args[4]) - {t.args[1], t.args[3]})
    else:
        f = _EMPTY
        for a in t.args:
            if isinstance(a, T):
                f |= free(a)
    t._fv = f
    return f


REBUILD = {}          # op -> smart constructor used when rebuilding


def rebuild(op, args):
    c = REBUILD.get(op)
    if c is not None:
        return c(*args)
    return mk(op, *args)


def subst(t, m):
    """Simultaneous substitution m: {T: T} (usually ix -> term)."""
    if not m:
        return t
    return _subst(t, m, {}, {})


def _rel(t, m):
    f = free(t)
    for k in m:
        if k.op != 'ix' or k in f:
            return True
    return False


def _subst(t, m, memo, memos):
    if t in m:
        return m[t]
    if t.op == 'k' or not t.args:
        return t
    if not _rel(t, m):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS or t.op == 'tab':
        if t.op == 'tab':
            pos = (1, 3)
            scope = {4: (1, 3), 2: (1,)}
        else:
            p, sc = BINDERS[t.op]
            pos = (p,)
            scope = {s: (p,) for s in sc}
        # rename binders that would capture
        args = list(t.args)
        fvs = _EMPTY
        for v in m.values():
            fvs |= free(v)
        ren = {}
        for p in pos:
            b = args[p]
            na = _subst(b.args[0], m, memo, memos)
            nb = mk('ix', na, b.args[1])
            while nb in fvs or (nb is not b and nb in free(t)):
                nb = mk('ix', na, nb.args[1] + 1)
            if nb is not b:
                ren[p] = (b, nb)
        new = []
        for i, a in enumerate(args):
            if not isinstance(a, T):
                new.append(a)
            elif i in pos:
                new.append(ren[i][1] if i in ren else a)
            elif i in scope:
                mm = dict(m)
                for p in scope[i]:
                    b = args[p]
                    if p in ren:
                        mm[b] = ren[p][1]
                    else:
                        mm.pop(b, None)
                new.append(_scoped(a, mm, memos))
            else:
                new.append(_subst(a, m, memo, memos))
        r = rebuild(t.op, new)
    else:
        r = rebuild(t.op, [_subst(a, m, memo, memos) if isinstance(a, T) else a
                           for a in t.args])
    memo[t] = r
    return r


def _scoped(a, mm, memos):
    """substitution under a binder, sharing work between equal mappings"""
    f = free(a)
    mm = {k: v for k, v in mm.items() if k.op != 'ix' or k in f}
    if not mm:
        return a
    k = frozenset(mm.items())
    memo = memos.get(k)
    if memo is None:
        memo = memos[k] = {}
    return _subst(a, mm, memo, memos)


def walk(t, seen=None):
    """All subterms."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ---------------------------------------------------------------- unions
def U(vals):
    out = []
    for v in vals:
        if v.op == 'U':
            for w in v.args:
                if w not in out:
                    out.append(w)
        elif v not in out:
            out.append(v)
    if not out:
        return mk('bot')
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.n)
    return mk('U', *out)


def members(v):
    return v.args if v.op == 'U' else (v,)


# ---------------------------------------------------------------- booleans
def b_not(a):
    if a.op == 'k':
        return K(not kval(a))
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return b_or(*[b_not(x) for x in a.args])
    if a.op == 'or':
        return b_and(*[b_not(x) for x in a.args])
    if a.op == 'forall':
        return mk('exists', a.args[0], a.args[1], b_not(a.args[2]))
    if a.op == 'exists':
        return mk('forall', a.args[0], a.args[1], b_not(a.args[2]))
    if a.op == 'lt' and is_num(a.args[0]) and is_num(a.args[1]):
        return n_le(a.args[1], a.args[0])
    if a.op == 'le' and is_num(a.args[0]) and is_num(a.args[1]):
        return n_lt(a.args[1], a.args[0])
    return mk('not', a)


def b_and(*xs):
    out = []
    for x in xs:
        if x.op == 'k':
            if not kval(x):
                return FALSE
            continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if b_not(y) in out:
            return FALSE
    out = _absorb(out, 'forall', 'and')
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.n)
    return mk('and', *out)


def _absorb(out, q, conn):
    """P(first) and (forall x in rest: P(x))  ->  forall x: P(x)"""
    for f in out:
        if f.op == q and f.args[0].op == 'rest':
            a = f.args[0].args[0]
            inst = subst(f.args[2], {f.args[1]: mk('first', a)})
            parts = inst.args if inst.op == conn else (inst,)
            if all(p in out for p in parts):
                i = fresh_ix(a, f.args[1].args[1], f.args[2])
                new = mk(q, a, i, subst(f.args[2], {f.args[1]: i}))
                return [x for x in out if x is not f and x not in parts and x is not new] + [new]
    return out


def b_or(*xs):
    out = []
    for x in xs:
        if x.op == 'k':
            if kval(x):
                return TRUE
            continue
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    for y in out:
        if b_not(y) in out:
            return TRUE
    out = _absorb(out, 'exists', 'or')
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.n)
    return mk('or', *out)


def fresh_ix(axis, depth, *ts):
    """an index over `axis` free in none of the terms"""
    j = mk('ix', axis, depth)
    while any(j in free(t) for t in ts):
        j = mk('ix', axis, j.args[1] + 1)
    return j


def within(a, axis):
    """every index of axis `a` is an index of `axis`"""
    while True:
        if a is axis:
            return True
        if a.op in ('filt', 'revax', 'sortax', 'setorder', 'permax', 'rest', 'slc', 'before'):
            a = a.args[0]
        else:
            return False


def base_axis(a):
    """the axis of which `a` keeps some elements"""
    while a.op == 'filt':
        a = a.args[0]
    return a


def b_forall(axis, i, c):
    if c.op == 'k':
        if kval(c):
            return TRUE
        return n_eq(n_len(axis), K(0))
    if axis.op == 'filt':
        j = fresh_ix(axis.args[0], i.args[1], c, axis)
        c2 = subst(axis.args[2], {axis.args[1]: j})
        return b_forall(axis.args[0], j, b_or(b_not(c2), subst(c, {i: j})))
    if axis.op in ('revax', 'sortax', 'setorder'):
        j = fresh_ix(axis.args[0], i.args[1], c)
        return b_forall(axis.args[0], j, subst(c, {i: j}))
    if i not in free(c):
        return b_or(n_eq(n_len(axis), K(0)), c)
    if c.op == 'and':
        return b_and(*[b_forall(axis, i, x) for x in c.args])
    if c.op == 'or' and any(i not in free(x) for x in c.args):
        fx = [x for x in c.args if i not in free(x)]
        return b_or(*(fx + [b_forall(axis, i, b_or(*[x for x in c.args if x not in fx]))]))
    # one-point rule: the index ranges over an axis the other one runs inside
    if c.op == 'or' or c.op == 'not':
        parts = c.args if c.op == 'or' else (c,)
        for x in parts:
            if x.op == 'not' and x.args[0].op == 'eq':
                a, b = x.args[0].args
                for u, t in ((a, b), (b, a)):
                    if u is i and t.op == 'ix' and within(t.args[0], axis):
                        return b_or(*[subst(y, {i: t}) for y in parts if y is not x])
    # no x in S sits at position m   <->   the name at position m is not in S
    if axis.op == 'setax' and c.op == 'not' and c.args[0].op == 'eq':
        a, b = c.args[0].args
        for x, y in ((a, b), (b, a)):
            if y.op == 'idx' and y.args[1].op == 'sel' and y.args[1].args[1] is i and \
                    y.args[1].args[0] is axis.args[0] and i not in free(x) and is_num(x):
                return b_not(s_mem(el(y.args[0], x), axis.args[0]))
            if y.op == 'sel' and y.args[1] is i and y.args[0] is axis.args[0] and \
                    i not in free(x):
                return b_not(s_mem(x, axis.args[0]))
    if axis.op == 'ax' and c.op == 'not' and c.args[0].op == 'eq':
        a, b = c.args[0].args
        for x, y in ((a, b), (b, a)):
            if y.op == 'el' and y.args[1] is i and i not in free(x):
                return b_not(s_mem(x, s_comp(axis, i, TRUE, y)))
    return mk('forall', axis, i, c)


def b_exists(axis, i, c):
    return b_not(b_forall(axis, i, b_not(c)))


BOOLOPS = {'not', 'and', 'or', 'forall', 'exists', 'eq', 'lt', 'le', 'sub', 'mem',
           'I', 'isin', 'is', 'truthy', 'isinst', 'psub', 'Q', 'bsym', 'survive', 'disj', 'is_'}


def is_bool(t):
    if t.op == 'k':
        return t.args[0] == 'bool'
    return t.op in BOOLOPS


# ---------------------------------------------------------------- numbers
NUMOPS = {'b2n', 'len', '+', '-', '*', 'idx', 'ix', 'nsym', 'count', 'setlen', 'first', 'last', 'wrap', 'ixf'}


NUMLV = set()        # loop variables that hold numbers in every iteration


def is_num(t):
    if t.op == 'k':
        return t.args[0] in ('int', 'float', 'bool')
    return t.op in NUMOPS or t.op == 'fold' and t.args[0] == '+' or t in NUMLV


OWN = ('ax', 'range', 'setax', 'oax', 'kax', 'flatax', 'nzax', 'zipax')


def own_pos(axis):
    """is the index of the axis its position (as opposed to an index of a base
    axis the axis was derived from)?"""
    return axis.op in OWN


def n_len(axis):
    """Number of indices of an axis."""
    if axis.op == 'range':
        return axis.args[0]
    if axis.op in ('revax', 'sortax', 'permax', 'setorder'):
        return n_len(axis.args[0])
    if axis.op == 'kax':
        return K(axis.args[0])
    if axis.op == 'filt':
        return mk('count', axis.args[0], axis.args[1], axis.args[2])
    return mk('len', axis)


def _lin(t):
    """linear form: (const, {atom: coeff})"""
    if t.op == 'k' and t.args[0] in ('int', 'bool', 'float'):
        return kval(t), {}
    if t.op == '+':
        c, d = 0, {}
        for a in t.args:
            c1, d1 = _lin(a)
            c += c1
            for k, v in d1.items():
                d[k] = d.get(k, 0) + v
        return c, d
    if t.op == '*' and len(t.args) == 2 and t.args[0].op == 'k':
        c1, d1 = _lin(t.args[1])
        f = kval(t.args[0])
        return c1 * f, {k: v * f for k, v in d1.items()}
    return 0, {t: 1}


def _unlin(c, d):
    parts = []
    for k in sorted(d, key=lambda x: x.n):
        v = d[k]
        if v == 0:
            continue
        parts.append(k if v == 1 else mk('*', K(v), k))
    if c != 0 or not parts:
        parts.append(K(c))
    if len(parts) == 1:
        return parts[0]
    return mk('+', *parts)


def n_add(*ts):
    c, d = 0, {}
    for t in ts:
        c1, d1 = _lin(t)
        c += c1
        for k, v in d1.items():
            d[k] = d.get(k, 0) + v
    return _unlin(c, d)


def n_neg(t):
    c, d = _lin(t)
    return _unlin(-c, {k: -v for k, v in d.items()})


def n_sub(a, b):
    return n_add(a, n_neg(b))


def n_mul(a, b):
    if isk(a) and isk(b):
        return K(kval(a) * kval(b))
    if isk(b):
        a, b = b, a
    if isk(a):
        c, d = _lin(b)
        f = kval(a)
        return _unlin(c * f, {k: v * f for k, v in d.items()})
    if a.n > b.n:
        a, b = b, a
    return mk('*', a, b)


def _nonneg_atom(t):
    return t.op in ('len', 'ix', 'idx', 'count', 'setlen', 'first', 'last', 'b2n', 'pos')


def b2n(c):
    """1 when the condition holds, else 0"""
    if c.op == 'k':
        return K(1 if kval(c) else 0)
    return mk('b2n', c)


def b2n_cases(d, test):
    """a comparison whose difference is const + k*b2n(c), decided by cases"""
    c, dd = _lin(d)
    dd = {k: v for k, v in dd.items() if v}
    if len(dd) == 1:
        (k, v), = dd.items()
        if k.op == 'b2n':
            r0, r1 = test(c), test(c + v)
            if r0 == r1:
                return K(r0)
            return k.args[0] if r1 else b_not(k.args[0])
    return None


def n_sign(t):
    """'0', '+', '-', '>=0', '<=0' or None"""
    c, d = _lin(t)
    d = {k: v for k, v in d.items() if v}
    if not d:
        return '0' if c == 0 else ('+' if c > 0 else '-')
    if all(_nonneg_atom(k) for k in d):
        if all(v > 0 for v in d.values()):
            if c > 0:
                return '+'
            if c == 0:
                return '>=0'
        if all(v < 0 for v in d.values()):
            if c < 0:
                return '-'
            if c == 0:
                return '<=0'
    # ix(A) - len(A) < 0
    pos = [k for k, v in d.items() if v == 1 and k.op in ('ix', 'idx', 'first', 'last')]
    neg = [k for k, v in d.items() if v == -1 and k.op == 'len']
    if len(d) == 2 and len(pos) == 1 and len(neg) == 1 and pos[0].op == 'ix' and \
            pos[0].args[0] is neg[0].args[0] and own_pos(pos[0].args[0]) and c <= 0:
        return '-'
    if len(d) == 2 and c >= 0:
        pos = [k for k, v in d.items() if v == -1 and k.op == 'ix']
        neg = [k for k, v in d.items() if v == 1 and k.op == 'len']
        if len(pos) == 1 and len(neg) == 1 and pos[0].args[0] is neg[0].args[0] and \
                own_pos(pos[0].args[0]):
            return '+'
    return None


def n_eq(a, b):
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return K(kval(a) == kval(b))
    if is_num(a) and is_num(b):
        d = n_sub(a, b)
        s = n_sign(d)
        if s == '0':
            return TRUE
        if s in ('+', '-'):
            return FALSE
        r = b2n_cases(d, lambda z: z == 0)
        if r is not None:
            return r
        c, dd = _lin(d)
        if len(dd) == 1:
            (k, v), = dd.items()
            if v in (1, -1):
                a, b = k, K(-c * v)
                if k.op == 'len' and -c * v < 0:
                    return FALSE
        if a.n > b.n and not isk(b) or isk(a):
            a, b = b, a
        return mk('eq', a, b)
    if isk(a) and not isk(b) or (not isk(b) and a.n > b.n):
        a, b = b, a
    return mk('eq', a, b)


def n_lt(a, b):
    if isk(a) and isk(b):
        try:
            return K(kval(a) < kval(b))
        except TypeError:
            return mk('lt', a, b)
    if is_num(a) and is_num(b):
        s = n_sign(n_sub(a, b))
        if s == '-':
            return TRUE
        if s in ('0', '+', '>=0'):
            return FALSE
        r = b2n_cases(n_sub(a, b), lambda z: z < 0)
        if r is not None:
            return r
        # 0 < len(x)  ->  not (len(x) == 0)
        if isk(a) and kval(a) == 0 and _nonneg_atom(b):
            return mk('not', n_eq(b, K(0)))
        if isk(b) and kval(b) == 1 and _nonneg_atom(a):
            return n_eq(a, K(0))
    return mk('lt', a, b)


def n_le(a, b):
    if isk(a) and isk(b):
        try:
            return K(kval(a) <= kval(b))
        except TypeError:
            return mk('le', a, b)
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        s = n_sign(n_sub(a, b))
        if s in ('-', '0', '<=0'):
            return TRUE
        if s == '+':
            return FALSE
        r = b2n_cases(n_sub(a, b), lambda z: z <= 0)
        if r is not None:
            return r
        if isk(a) and kval(a) == 1 and _nonneg_atom(b):
            return mk('not', n_eq(b, K(0)))
        if isk(b) and kval(b) == 0 and _nonneg_atom(a):
            return n_eq(a, K(0))
    return mk('le', a, b)


# ------------------------------------------------------------ base elements
def el(lst, i):
    """name at position i of the base list `lst`"""
    if i.op == 'idx' and i.args[0] == lst:
        return i.args[1]
    return mk('el', lst, i)


def idx(lst, x):
    """position of name x in base list `lst`"""
    if x.op == 'el' and x.args[0] == lst:
        return x.args[1]
    return mk('idx', lst, x)


# ---------------------------------------------------------------- set terms
S0 = mk('s0')


def s_comp(axis, i, cond, body):
    if cond is FALSE:
        return S0
    if axis.op == 'filt':
        j = fresh_ix(axis.args[0], i.args[1], cond, body, axis)
        c2 = subst(axis.args[2], {axis.args[1]: j})
        return s_comp(axis.args[0], j, b_and(c2, subst(cond, {i: j})), subst(body, {i: j}))
    if axis.op in ('revax', 'sortax', 'permax', 'setorder'):
        j = fresh_ix(axis.args[0], i.args[1], cond, body)
        return s_comp(axis.args[0], j, subst(cond, {i: j}), subst(body, {i: j}))
    # {x_i | i in axis-of-set A} = A
    if axis.op == 'setax' and body.op == 'sel' and body.args[0] is axis.args[0] and \
            body.args[1] is i:
        if cond is TRUE:
            return axis.args[0]
        if cond.op == 'mem' and cond.args[0] is body and i not in free(cond.args[1]):
            return s_inter(axis.args[0], cond.args[1])
        if cond.op == 'not' and cond.args[0].op == 'mem' and cond.args[0].args[0] is body \
                and i not in free(cond.args[0].args[1]):
            return s_diff(axis.args[0], cond.args[0].args[1])
    if axis.op == 'kax' and axis.args[0] == 1 and cond is TRUE and i not in free(body):
        return mk('sone', body)
    return mk('scomp', axis, i, cond, body)


def _align(a, b):
    """b's comprehension re-expressed over a's index, or None"""
    if a.op == 'scomp' and b.op == 'scomp' and a.args[0] is b.args[0]:
        i, j = a.args[1], b.args[1]
        if subst(b.args[3], {j: i}) is a.args[3] and injective(a.args[3], i):
            c = b.args[2]
            if i is not j:
                if i in free(c):
                    return None
                c = subst(c, {j: i})
            return c
    return None


def injective(body, i):
    """body(ix) determines ix (names of base lists are distinct)"""
    return body.op == 'el' and body.args[1] is i or body is i or \
        (body.op == 'tup' and any(injective(x, i) for x in body.args)) or \
        (body.op == 'sel' and body.args[1] is i)


def s_union(a, b):
    if a is b or b is S0:
        return a
    if a is S0:
        return b
    c = _align(a, b)
    if c is not None:
        return s_comp(a.args[0], a.args[1], b_or(a.args[2], c), a.args[3])
    if a.n > b.n:
        a, b = b, a
    return mk('union', a, b)


def s_inter(a, b):
    if a is b:
        return a
    if a is S0 or b is S0:
        return S0
    c = _align(a, b)
    if c is not None:
        return s_comp(a.args[0], a.args[1], b_and(a.args[2], c), a.args[3])
    if a.n > b.n:
        a, b = b, a
    return mk('inter', a, b)


def s_diff(a, b):
    if a is b or a is S0:
        return S0
    if b is S0:
        return a
    c = _align(a, b)
    if c is not None:
        return s_comp(a.args[0], a.args[1], b_and(a.args[2], b_not(c)), a.args[3])
    return mk('diff', a, b)


def in_axis(x, axis):
    """the index x is met on the axis (an index of the list the axis runs over)"""
    while True:
        if x.op == 'ix' and within(x.args[0], axis):
            return TRUE
        if axis.op in ('revax', 'sortax', 'setorder', 'permax'):
            axis = axis.args[0]
        elif axis.op == 'filt':
            return b_and(in_axis(x, axis.args[0]), subst(axis.args[2], {axis.args[1]: x}))
        elif axis.op in ('slc', 'range', 'rest', 'before'):
            j = fresh_ix(axis, 0, x, axis)
            return b_exists(axis, j, n_eq(j, x))
        else:
            return TRUE


def s_mem(x, a):
    if a is S0:
        return FALSE
    if a.op == 'sone':
        return n_eq(x, a.args[0])
    if a.op == 'scomp':
        axis, i, cond, body = a.args
        # x = body(i) solvable
        if axis.op == 'kax' and axis.args[0] == 1 and i not in free(body) and i not in free(cond):
            return b_and(cond, n_eq(x, body))
        if body is i and x.op == 'ix' and x.args[0] is axis:
            return subst(cond, {i: x})
        if body.op == 'el' and body.args[1] is i:
            if x.op == 'el' and x.args[0] == body.args[0]:
                return b_and(in_axis(x.args[1], axis), subst(cond, {i: x.args[1]}))
            if x.op in ('sel', 'nsy', 'sym', 'el') and axis.op == 'ax':
                inn = mk('mem', x, mk('names', body.args[0]))
                return b_and(inn, subst(cond, {i: idx(body.args[0], x)}))
    if a.op == 'union':
        return b_or(s_mem(x, a.args[0]), s_mem(x, a.args[1]))
    if a.op == 'inter':
        return b_and(s_mem(x, a.args[0]), s_mem(x, a.args[1]))
    if a.op == 'diff':
        return b_and(s_mem(x, a.args[0]), b_not(s_mem(x, a.args[1])))
    if x.op == 'sel' and x.args[0] is a:
        return TRUE
    return mk('mem', x, a)


def s_guard(c, a):
    """the set if the condition holds, else the empty set"""
    if c is TRUE or a is S0:
        return a
    if c is FALSE:
        return S0
    if a.op == 'union':
        return s_union(s_guard(c, a.args[0]), s_guard(c, a.args[1]))
    if a.op in ('diff', 'inter'):
        f = s_diff if a.op == 'diff' else s_inter
        return f(s_guard(c, a.args[0]), a.args[1])
    if a.op == 'scomp':
        axis, i, cond, body = a.args
        j = fresh_ix(axis, i.args[1], cond, body, c, axis)
        return s_comp(axis, j, b_and(c, subst(cond, {i: j})), subst(body, {i: j}))
    if a.op == 'sone':
        ax_ = mk('kax', 1)
        return mk('scomp', ax_, fresh_ix(ax_, 0, c, a), c, a.args[0])
    ax_ = mk('setax', a)
    j = fresh_ix(ax_, 0, c, a)
    return mk('scomp', ax_, j, c, mk('sel', a, j))


def all_in(a, pred, avoid=_EMPTY):
    """pred(x) holds for every element x of the set term"""
    if a.op not in ('s0', 'sone'):
        avoid = avoid | free(pred(mk('nsy', '?')))
    if a is S0:
        return TRUE
    if a.op == 'sone':
        return pred(a.args[0])
    if a.op == 'scomp':
        axis, i, cond, body = a.args
        k = i
        if k in avoid:
            n = i.args[1]
            while k in avoid or k in free(cond) or k in free(body):
                n += 1
                k = mk('ix', axis, n)
            cond, body = subst(cond, {i: k}), subst(body, {i: k})
        return b_forall(axis, k, b_or(b_not(cond), pred(body)))
    if a.op == 'union':
        return b_and(all_in(a.args[0], pred, avoid), all_in(a.args[1], pred, avoid))
    if a.op == 'inter':
        x, y = a.args
        if y.op == 'scomp' and x.op != 'scomp':
            pass
        return all_in(x, lambda e: b_or(b_not(s_mem(e, y)), pred(e)), avoid | free(y))
    if a.op == 'diff':
        x, y = a.args
        return all_in(x, lambda e: b_or(s_mem(e, y), pred(e)), avoid | free(y))
    ax_ = mk('setax', a)
    n = 0
    k = mk('ix', ax_, n)
    while k in avoid:
        n += 1
        k = mk('ix', ax_, n)
    return b_forall(ax_, k, pred(mk('sel', a, k)))


def s_empty(a):
    return all_in(a, lambda e: FALSE)


def s_sub(a, b):
    if a is b or a is S0:
        return TRUE
    return all_in(a, lambda e: s_mem(e, b), free(b))


def s_eq(a, b):
    if a is b:
        return TRUE
    return b_and(s_sub(a, b), s_sub(b, a))


def v_ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if is_bool(a) and is_bool(b):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    return mk('ite', c, a, b)


def s_len(a):
    if a is S0:
        return K(0)
    if a.op == 'sone':
        return K(1)
    if a.op == 'scomp' and injective(a.args[3], a.args[1]):
        if a.args[2] is TRUE:
            return n_len(a.args[0])
        return mk('count', a.args[0], a.args[1], a.args[2])
    if a.op == 'union':
        for x, y in (a.args, a.args[::-1]):
            if y.op == 'sone':
                return n_add(s_len(x), b2n(b_not(s_mem(y.args[0], x))))
    if a.op == 'nset' or a.op == 'names':
        return n_len(mk('setax', a))
    return mk('setlen', a)


def s_big(axis, i, cond, x):
    """union of the sets x_i with cond_i"""
    if cond is FALSE or x is S0:
        return S0
    if x.op == 'sone':
        return s_comp(axis, i, cond, x.args[0])
    if x.op == 'union':
        return s_union(s_big(axis, i, cond, x.args[0]), s_big(axis, i, cond, x.args[1]))
    if x.op == 'scomp' and x.args[0].op == 'kax' and x.args[0].args[0] == 1 and \
            x.args[1] not in free(x.args[3]) and x.args[1] not in free(x.args[2]):
        return s_comp(axis, i, b_and(cond, x.args[2]), x.args[3])
    if x.op == 'scomp':
        a, j, c, e = x.args
        if j is i or j in free(cond) or j in free(axis):
            k = fresh_ix(a, j.args[1], c, e, cond, axis, i)
            c, e, j = subst(c, {j: k}), subst(e, {j: k}), k
        if j not in free(e):
            return s_comp(axis, i, b_and(cond, b_exists(a, j, c)), e)
        if i not in free(e) and i not in free(a):
            return s_comp(a, j, b_exists(axis, i, b_and(cond, c)), e)
        return mk('bigunion', axis, i, cond, s_comp(a, j, c, e))
    return mk('bigunion', axis, i, cond, x)


REBUILD.update({
    'bigunion': s_big,
    'not': b_not, 'and': b_and, 'or': b_or, 'forall': b_forall, 'exists': b_exists,
    'eq': n_eq, 'lt': n_lt, 'le': n_le, 'el': el, 'idx': idx, 'union': s_union,
    'inter': s_inter, 'diff': s_diff, 'mem': s_mem, 'sub': s_sub, 'seteq': s_eq,
    'scomp': s_comp, '+': n_add, '*': n_mul, 'len': n_len,
    'U': lambda *a: U(a), 'ite': v_ite, 'setlen': s_len, 'b2n': b2n,
})
BOOLOPS.add('truthy')
