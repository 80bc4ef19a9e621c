"""Models of the builtins, containers, numpy arrays, strings and files the
repository uses, over the abstract values of the engine."""
import ast
import builtins

from . import terms as t_
from .terms import (T, mk, K, NONE, TRUE, FALSE, isk, kval, U, members, subst, free, walk,
                    b_not, b_and, b_or, b_forall, b_exists, n_eq, n_lt, n_le, n_len, n_add,
                    n_sub, n_mul, n_neg, is_num, is_bool, s_comp, s_union, s_inter, s_diff,
                    s_mem, s_sub, s_eq, s_empty, s_len, v_ite, own_pos, S0)

SEQ0 = mk('seq')


# =================================================================== helpers
def one(v):
    return mk('one', v)


def seq(*segs):
    return mk('seq', *segs)


def cat(a, b):
    return mk('seq', *(a.args + b.args))


def pos(axis, i):
    return i if own_pos(axis) else mk('pos', axis, i)


def at(axis, p):
    """base element of the axis at numeric position p"""
    if isk(p):
        if kval(p) == 0:
            return mk('first', axis)
        if kval(p) == -1:
            return mk('last', axis)
        return mk('at', axis, p)
    if own_pos(axis):
        return p
    if p.op == 'pos' and p.args[0] is axis:
        return p.args[1]
    return mk('at', axis, p)


t_.NUMOPS.update(('pos', 'at', 'float', 'int', 'nsum', 'ite_n', 'div'))


def kind(E, st, v):
    """the kind of a value: 'list', 'dict', 'str', 'int', ... or None (unknown)"""
    if v.op == 'R':
        o = E.obj(st, v)
        if o is None:
            return None
        k = o.kind
        return k[3:] if k.startswith('old') else k
    if v.op == 'k':
        n = v.args[0]
        return {'NoneType': 'none'}.get(n, n)
    if v.op in ('tup', 'tseq'):
        return 'tuple'
    if v.op == 'iseq':
        return 'gen'
    if v.op in ('str', 'strcat', 'fmt', 'join', 'cell', 'strm', 'ssy'):
        return 'str'
    if v.op in ('bytes', 'bytm'):
        return 'bytes'
    if is_bool(v):
        return 'bool'
    if v.op in t_.NUMOPS:
        return 'num'
    if v.op in ('fn', 'bm', 'cl', 'bmeth'):
        return 'callable'
    return None


def content(E, st, v):
    return E.content(st, v)


def new_list(E, st, node, q, origin='fresh'):
    return E.alloc(st, 'list', node, content=q)


def new_set(E, st, node, c, frozen=False):
    return E.alloc(st, 'set', node, content=c, dtype='frozen' if frozen else None)


def new_arr(E, st, node, q, dtype=None, base=None):
    return E.alloc(st, 'ndarray', node, content=q, dtype=dtype, base=base)


def opaque_seq(st, key, elems):
    t = mk('oseg', key)
    es = frozenset(elems)
    if es:
        st.cands[t] = st.cands.get(t, frozenset()) | es
    return t


def ext(name, *args):
    return mk('ext', name, *[a for a in args if isinstance(a, T)])


def set_segs(E, st, c):
    """a set content as iteration segments (order unspecified)"""
    if c is S0:
        return []
    if c.op == 'sone':
        return [one(c.args[0])]
    if c.op == 'scomp':
        axis, i, cond, body = c.args
        if own_pos(axis) and (body.op == 'ixf' or body.op == 'el' and body.args[1].op == 'ixf'):
            # each value once
            j = t_.fresh_ix(axis, i.args[1] + 1, cond, body)
            cond = b_and(cond, b_forall(axis, j, t_.b_or(
                b_not(subst(cond, {i: j})), b_not(n_eq(body if body.op == 'ixf' else body.args[1],
                                                       subst(body if body.op == 'ixf' else body.args[1], {i: j}))),
                n_le(i, j))))
        if cond is not TRUE:
            axis2 = mk('filt', axis, i, cond)
        else:
            axis2 = axis
        if axis2.op != 'setax':
            axis2 = mk('setorder', axis2)
        j = mk('ix', axis2, 0)
        return [mk('map', axis2, j, subst(body, {i: j}))]
    if c.op == 'union':
        a, b = c.args
        return set_segs(E, st, a) + set_segs(E, st, b)
    if c.op in ('inter', 'diff'):
        a, b = c.args
        out = []
        for g in set_segs(E, st, a):
            if g.op == 'map':
                axis, i, body = g.args
                m = s_mem(body, b)
                f = mk('filt', axis, i, m if c.op == 'inter' else b_not(m))
                j = mk('ix', f, 0)
                out.append(mk('map', f, j, subst(body, {i: j})))
            elif g.op == 'one':
                m = s_mem(g.args[0], b)
                if c.op == 'diff':
                    m = b_not(m)
                if m is TRUE:
                    out.append(g)
                elif m is not FALSE:
                    out.append(opaque_seq(st, mk('okey', 'maybe', g, m), [g.args[0]]))
            else:
                out.append(g)
        return out
    if c.op == 'sopq':
        cs = st.cands.get(c, frozenset())
        if any(any(x.op == 'R' for x in walk(y)) for y in cs):
            return [opaque_seq(st, mk('okey', 'set', c), cs)]
    ax = mk('setax', c)
    j = mk('ix', ax, 0)
    return [mk('map', ax, j, mk('sel', c, j))]


def segs_set(segs):
    """the set of the elements of a sequence"""
    c = S0
    for g in segs:
        if g.op == 'one':
            c = s_union(c, mk('sone', g.args[0]))
        elif g.op == 'map':
            c = s_union(c, s_comp(g.args[0], g.args[1], TRUE, g.args[2]))
        else:
            c = s_union(c, mk('sopq', mk('okey', 'setof', g)))
    return c


def set_from(E, st, segs):
    c = segs_set(segs)
    for g in segs:
        if g.op not in ('one', 'map') and g in st.cands:
            k = mk('sopq', mk('okey', 'setof', g))
            st.cands[k] = st.cands.get(k, frozenset()) | st.cands[g]
    return c


def seq_len(segs):
    n = K(0)
    for g in segs:
        if g.op == 'one':
            n = n_add(n, K(1))
        elif g.op == 'map':
            n = n_add(n, n_len(g.args[0]))
        else:
            n = n_add(n, n_len(mk('oax', g)))
    return n


def seq_at(segs, i):
    """element at numeric position i, or None when it cannot be told"""
    if isk(i) and isinstance(kval(i), int):
        k = kval(i)
        if k >= 0:
            for n, g in enumerate(segs):
                if g.op == 'one':
                    if k == 0:
                        return g.args[0]
                    k -= 1
                elif g.op == 'map' and len(segs) == n + 1:
                    return subst(g.args[2], {g.args[1]: at(g.args[0], K(k))})
                else:
                    return None
            return None
        k = -k - 1
        for n, g in enumerate(reversed(segs)):
            if g.op == 'one':
                if k == 0:
                    return g.args[0]
                k -= 1
            elif g.op == 'map' and len(segs) == n + 1 and k == 0:
                return subst(g.args[2], {g.args[1]: at(g.args[0], K(-1))})
            else:
                return None
        return None
    if len(segs) == 1 and segs[0].op == 'map':
        axis, ix, body = segs[0].args
        return subst(body, {ix: at(axis, i)})
    off = K(0)
    for g in segs:
        d = n_sub(i, off)
        if g.op == 'one':
            if d is K(0):
                return g.args[0]
            off = n_add(off, K(1))
        elif g.op == 'map':
            axis, ix, body = g.args
            if d.op == 'pos' and d.args[0] is axis:
                d = d.args[1]
            if within(d, axis):
                return subst(body, {ix: d})
            off = n_add(off, n_len(axis))
        else:
            return None
    return None


def within(d, axis):
    """d is a position of the axis by its construction"""
    if d.op == 'ix':
        a = d.args[0]
        while a is not axis and a.op in ('filt', 'permax', 'setorder', 'revax', 'rest', 'slc', 'sortax'):
            a = a.args[0]
        return a is axis
    if d.op in ('first', 'last'):
        a = d.args[0]
        while a is not axis and a.op in ('filt', 'permax', 'setorder', 'revax', 'rest', 'slc', 'sortax'):
            a = a.args[0]
        return a is axis
    return d.op == 'idx' and LISTAX.get(d.args[0]) is axis


LISTAX = {}         # names of input lists -> their axis


def split_at(E, st, segs, i):
    """states in which the element at constant end position i is told:
    [(state, segments)] with empty leading (trailing) maps dropped"""
    if not (isk(i) and kval(i) in (0, -1) and len(segs) > 1):
        return [(st, segs)]
    g = segs[0] if kval(i) == 0 else segs[-1]
    if g.op != 'map':
        return [(st, segs)]
    rest = tuple(segs[1:]) if kval(i) == 0 else tuple(segs[:-1])
    emp = n_eq(n_len(g.args[0]), K(0))
    f = E.isfact(st, emp)
    if f is False or emp is FALSE:
        return [(st, (g,))]
    if f is True or emp is TRUE:
        return split_at(E, st, rest, i)
    out = []
    s2 = st.copy()
    if E.assume(s2, emp):
        out += split_at(E, s2, rest, i)
    if E.assume(st, b_not(emp)):
        out.append((st, (g,)))
    return out


def tbool(v):
    """truth of a scalar as a term"""
    if is_bool(v):
        return v
    if isk(v):
        return K(bool(kval(v)))
    if v.op == 'ite':
        return v_ite(v.args[0], tbool(v.args[1]), tbool(v.args[2]))
    return mk('truthy', v)


def alpha(seg, axis_ix):
    """body of a map segment over the given index"""
    return subst(seg.args[2], {seg.args[1]: axis_ix})


def key_of(node, E, *more):
    return mk('okey', getattr(node, 'mod', '?'), getattr(node, 'lineno', 0),
              getattr(node, 'col_offset', 0), E.curctx(), *more)


# ============================================================= iteration
def iter_segments(E, st, v, node):
    """-> [(state, [segments])]"""
    if v.op == 'U' or v.op == 'lv' or v.op == 'oelt':
        out = []
        vs = E.vals(st, v)
        if not (len(vs) == 1 and vs[0] is v):
            for s, w in E.alts(st, v):
                out += iter_segments(E, s, w, node)
            return out
    if v.op == 'tup' or v.op == 'nztup' and len(v.args) > 1:
        return [(st, [one(x) for x in v.args])]
    if v.op in ('tseq', 'iseq'):
        return [(st, list(v.args[0].args))]
    if v.op == 'k':
        if isinstance(kval(v), (str, bytes)):
            return [(st, [one(K(x)) for x in kval(v)][:200])]
        if v is not t_.ELLIPSIS:
            E.report('typeerr', node, 'iteration over %r' % (kval(v),), 'iter')
            return [(E.raise_(st, 'TypeError', node), None)]
    if v.op == 'R':
        o = E.obj(st, v)
        if o is None:
            return [(st, [opaque_seq(st, mk('okey', 'iter', v), ())])]
        k = kind(E, st, v)
        c = content(E, st, v)
        if k in ('list', 'deque', 'iter'):
            return [(st, list(c.args) if c is not None else [])]
        if k == 'set':
            return [(st, set_segs(E, st, c))]
        if k == 'dict':
            return [(st, dict_segs(E, st, c, 'k'))]
        if k == 'ndarray':
            return [(st, arr_segs(E, st, v, c, node))]
        if k == 'file':
            E_file_read(E, st, v, node)
            b = E.getf(st, v, 'binary')
            src, at = E.getf(st, v, 'path'), E.getf(st, v, 'pos')
            ax = mk('oax', mk('okey', 'lines', src, at))
            j = mk('ix', ax, 0)
            body = mk('bytes' if b is TRUE else 'ssy', mk('line', src, t_.n_add(at, j)))
            E.setf(st, v, 'pos', t_.n_add(at, n_len(ax)), node, quiet=True)
            return [(st, [mk('map', ax, j, body)])]
        if k == 'inst':
            return iter_inst(E, st, v, node)
    if v.op in ('str', 'strcat', 'fmt', 'join', 'ssy', 'strm', 'cell', 'bytes', 'bytm'):
        ax = mk('oax', mk('okey', 'chars', v))
        j = mk('ix', ax, 0)
        return [(st, [mk('map', ax, j, mk('ssy', mk('char', v, j)))])]
    if v.op in ('fn', 'bm') or is_bool(v) and v.op != 'opq' or v.op in ('len', '+'):
        E.report('typeerr', node, 'iteration over a value that is not iterable', 'iter')
        return [(E.raise_(st, 'TypeError', node), None)]
    sg = mk('oseg', mk('okey', 'iter', v))
    return [(st, [sg])]


def iter_inst(E, st, v, node):
    out = []
    for s, m in E.getattr_(st, v, '__iter__', node, quiet=True):
        if m is not None and s.sig is None:
            for s2, r in E.call(s, m, [], {}, node):
                if s2.sig is not None:
                    out.append((s2, None))
                else:
                    out += iter_segments(E, s2, r, node)
            continue
        if s.sig is not None:
            out.append((s, None))
            continue
        for s1, ln in E.getattr_(s, v, '__len__', node, quiet=True):
            for s2, g in E.getattr_(s1, v, '__getitem__', node, quiet=True):
                if g is None:
                    o = E.obj(s2, v)
                    c = E.repo.classes.get(o.cls)
                    if c is not None and E.full_known(c):
                        E.report('typeerr', node, "'%s' object is not iterable" % c.name, 'iter')
                        out.append((E.raise_(s2, 'TypeError', node), None))
                    else:
                        out.append((s2, [mk('oseg', mk('okey', 'iter', v))]))
                    continue
                ns = E.call(s2, ln, [], {}, node) if ln is not None else [(s2, mk('opq', 'n', v))]
                for s3, n in ns:
                    if s3.sig is not None:
                        out.append((s3, None))
                        continue
                    if n.op == 'len':
                        ax = n.args[0]
                    elif n.op == 'count' and n.args[0].op == 'ax':
                        ax = mk('filt', *n.args)
                    else:
                        ax = mk('range', n)
                    j = E.fresh_ix(ax)
                    E.ixs.append(j)
                    try:
                        rs = E.call(s3, g, [pos(ax, j)], {}, node)
                    finally:
                        E.ixs.pop()
                    ok = [(a, b) for a, b in rs if a.sig is None]
                    if len(ok) == 1:
                        out.append((ok[0][0], [mk('map', ax, j, ok[0][1])]))
                    else:
                        sg = opaque_seq(s3, mk('okey', 'getitems', v), [b for _, b in ok])
                        if ok:
                            for a, b in ok:
                                a.cands[sg] = frozenset(x for _, x in ok)
                            out.append((ok[0][0], [sg]))
                        else:
                            out.append((s3, [sg]))
    return out


def dict_segs(E, st, c, what):
    out = []

    def pick(k, v):
        return k if what == 'k' else v if what == 'v' else mk('tup', k, v)
    for x in c.args:
        if x.op == 'de':
            out.append(one(pick(*x.args)))
        elif x.op == 'dmap':
            out.append(mk('map', x.args[0], x.args[1], pick(x.args[2], x.args[3])))
        else:
            cs = [pick(*y.args) for y in st.cands.get(x, ()) if y.op == 'de']
            out.append(opaque_seq(st, mk('okey', 'dict' + what, x), cs))
    return out


def arr_segs(E, st, v, c, node):
    """rows (views) of a 2-D array, elements of a 1-D one"""
    if c is None or c.op != 'seq':
        return [opaque_seq(st, mk('okey', 'rows', v), ())]
    out = []
    for g in c.args:
        if g.op == 'one':
            b = g.args[0]
            if b.op == 'row':
                r = new_arr(E, st, node, b.args[0], base=v)
                out.append(one(r))
            else:
                out.append(g)
        elif g.op == 'map':
            ax, i, b = g.args
            if b.op == 'row':
                j = E.fresh_ix(ax)
                E.ixs.append(j)
                try:
                    r = new_arr(E, st, node, subst(b.args[0], {i: j}), base=v)
                finally:
                    E.ixs.pop()
                out.append(mk('map', ax, j, r))
            else:
                out.append(g)
        else:
            out.append(g)
    return out


def unpack_items(E, st, v, n, node, star):
    if star:
        out = []
        for s, segs in iter_segments(E, st, v, node):
            if s.sig is not None:
                out.append((s, None))
                continue
            k = star[0]
            if all(g.op == 'one' for g in segs) and len(segs) >= n - 1:
                tail = n - k - 1
                items = [g.args[0] for g in segs[:k]]
                mid = segs[k:len(segs) - tail]
                items.append(new_list(E, s, node, seq(*mid)))
                items += [g.args[0] for g in segs[len(segs) - tail:]]
            else:
                items = [elem_any(E, s, segs, K(i), node) for i in range(n)]
                items[k] = new_list(E, s, node, seq(mk('oseg', key_of(node, E, v))))
            out.append((s, items))
        return out
    if v.op == 'tup':
        if len(v.args) != n:
            E.report('unpack', node, 'unpacks %d values into %d names' % (len(v.args), n))
            return [(E.raise_(st, 'ValueError', node), None)]
        return [(st, list(v.args))]
    if v.op in ('firstof', 'second', 'sel', 'ext', 'opq', 'attr', 'oelt', 'lv', 'sym', 'nsy'):
        return [(st, [mk('item', v, K(i)) for i in range(n)])]
    out = []
    for s, segs in iter_segments(E, st, v, node):
        if s.sig is not None:
            out.append((s, None))
            continue
        if all(g.op == 'one' for g in segs) and len(segs) != n:
            E.report('unpack', node, 'unpacks %d values into %d names' % (len(segs), n))
            out.append((E.raise_(s, 'ValueError', node), None))
            continue
        out.append((s, [elem_any(E, s, segs, K(i), node) for i in range(n)]))
    return out


def elem_any(E, st, segs, i, node):
    v = seq_at(segs, i)
    if v is not None:
        return v
    cs = []
    for g in segs:
        cs += E.elem_values(st, seq(g))
    t = mk('oelt', mk('okey', 'at', *segs), i)
    if cs:
        st.cands[t] = st.cands.get(t, frozenset()) | frozenset(cs)
    return t


# ============================================================== subscripts
def norm_key(E, st, k):
    """tuples of scalars etc. are usable as dict keys as they are"""
    return k


def dict_get(E, st, d, k):
    """-> (list of (condition, value)), complete?) lookups in a dict content"""
    res = []
    rest = TRUE
    for x in reversed(d.args):
        if x.op == 'de':
            c = val_eq(E, st, x.args[0], k)
            f = E.isfact(st, c)
            if f is not None:
                c = K(bool(f))
            if c is TRUE:
                res.append((rest, x.args[1]))
                return res, FALSE, True
            if c is FALSE:
                continue
            res.append((b_and(rest, c), x.args[1]))
            rest = b_and(rest, b_not(c))
        elif x.op == 'dmap':
            ax, i, kk, vv = x.args
            sol = None
            if kk is i or kk.op == 'pos' and kk.args[1] is i:
                sol, inn = at(ax, k) if kk.op == 'pos' or own_pos(ax) else k, None
                if k.op == 'ix' and k.args[0] is ax:
                    inn = TRUE
            elif kk.op == 'el' and kk.args[1] is i:
                sol = t_.idx(kk.args[0], k)
                if k.op == 'el' and k.args[0] == kk.args[0]:
                    inn = TRUE if ax.op == 'ax' else None
                else:
                    inn = s_mem(k, s_comp(ax, i, TRUE, kk))
            elif kk.op == 'sel' and kk.args[1] is i and k.op == 'sel' and k.args[0] is kk.args[0]:
                sol, inn = k.args[1], TRUE
            else:
                inn = None
            if sol is None and k is not None and kk.op in ('R', 'tup'):
                # a key of the same shape over another index
                m = match(kk, k, i)
                if m is not None:
                    sol, inn = m, TRUE
                else:
                    m = match(kk, k, i, True)
                    if m is not None:
                        sol, inn = m, t_.in_axis(m, ax)
            if sol is None:
                return res + [(rest, None)], rest, False
            if inn is None:
                inn = s_mem(k, s_comp(ax, i, TRUE, kk))
            f = E.isfact(st, inn)
            if f is not None:
                inn = K(bool(f))
            val = subst(vv, {i: sol})
            if inn is TRUE:
                res.append((rest, val))
                return res, FALSE, True
            if inn is FALSE:
                continue
            res.append((b_and(rest, inn), val))
            rest = b_and(rest, b_not(inn))
        else:
            return res + [(rest, None)], rest, False
    return res, rest, True


def match(pat, t, i, other=False):
    """index j with pat[i->j] == t, or None (other: of whatever axis)"""
    if i not in free(pat):
        return None
    cands = [x for x in free(t) if x.op == 'ix' and x.args[0] is i.args[0]]
    if other:
        cands = [x for x in t.args if x.op in ('ix', 'isy')] if t.op == 'R' else []
    for j in cands:
        if subst(pat, {i: j}) is t:
            return j
    return None


def get_item(E, st, v, i, node):
    if v.op in ('U', 'lv', 'oelt'):
        vs = E.vals(st, v)
        if not (len(vs) == 1 and vs[0] is v):
            out = []
            for s, w in E.alts(st, v):
                out += get_item(E, s, w, i, node)
            return out
    if v.op in ('tup', 'tseq', 'iseq'):
        segs = [one(x) for x in v.args] if v.op == 'tup' else list(v.args[0].args)
        if i.op == 'slice':
            r = slice_segs(E, st, segs, i, node)
            if all(g.op == 'one' for g in r):
                return [(st, mk('tup', *[g.args[0] for g in r]))]
            return [(st, mk('tseq', seq(*r)))]
        return index_segs(E, st, segs, i, node, v)
    if v.op == 'bi' and v.args[0] in ('numpy.c_', 'numpy.r_'):
        from .calls import np_stack
        return np_stack(E, st, [i if i.op == 'tup' else mk('tup', i)], {}, node,
                        'cols' if v.args[0] == 'numpy.c_' else 'rows1')
    if v.op == 'nztup':
        if i is K(0):
            return [(st, v.args[0])]
        if len(v.args) > 1 and i is K(1):
            return [(st, v.args[1])]
        return [(st, ext('item', v, i))]
    if v.op == 'R':
        o = E.obj(st, v)
        k = kind(E, st, v)
        c = content(E, st, v)
        if k in ('list', 'deque', 'iter'):
            if i.op == 'slice':
                return [(st, new_list(E, st, node, seq(*slice_segs(E, st, list(c.args), i, node))))]
            if isk(i) and not isinstance(kval(i), int) or i.op in ('/', 'float') or \
                    kind(E, st, i) in ('str', 'list', 'set', 'none'):
                E.report('typeerr', node, 'list indices must be integers', 'index')
                return [(E.raise_(st, 'TypeError', node), None)]
            return index_segs(E, st, list(c.args), i, node, v)
        if k == 'dict':
            return dict_item(E, st, v, o, c, i, node)
        if k == 'ndarray':
            return arr_item(E, st, v, o, c, i, node)
        if k == 'set':
            E.report('typeerr', node, 'a set is indexed', 'index')
            return [(E.raise_(st, 'TypeError', node), None)]
        if k == 'inst':
            for s, m in E.getattr_(st, v, '__getitem__', node, quiet=True):
                if m is not None:
                    return E.call(s, m, [i], {}, node)
    if v.op == 'k':
        if isinstance(kval(v), (str, bytes)):
            if isk(i) and isinstance(kval(i), int):
                try:
                    return [(st, K(kval(v)[kval(i)]))]
                except IndexError:
                    return [(E.raise_(st, 'IndexError', node), None)]
            return [(st, mk('strm', K('item'), v, i))]
        if v is NONE:
            E.report('typeerr', node, "'NoneType' object is not subscriptable", 'index')
            return [(E.raise_(st, 'TypeError', node), None)]
    if kind(E, st, v) in ('str',):
        if i.op == 'slice':
            return [(st, mk('strm', K('slice'), v, i))]
        return [(st, mk('strm', K('item'), v, i))]
    if kind(E, st, v) == 'bytes':
        return [(st, mk('bytm', K('item'), v, i))]
    out = []
    if E.catching('IndexError') and i.op != 'slice':
        out.append((E.raise_(st, 'IndexError', node), None))
    if E.catching('KeyError') and i.op != 'slice':
        out.append((E.raise_(st, 'KeyError', node), None))
    return out + [(st, mk('item', v, i))]


def index_segs(E, st, segs, i, node, v):
    out = []
    n = seq_len(segs)
    if isk(i) and isinstance(kval(i), int):
        k = kval(i)
        need = k + 1 if k >= 0 else -k
        if isk(n) and kval(n) < need:
            return [(E.raise_(st, 'IndexError', node), None)]
        short = n_lt(n, K(need))
        f = E.isfact(st, short)
        if f is True:
            return [(E.raise_(st, 'IndexError', node), None)]
        if f is None and short is not FALSE and (need > 1 or E.catching('IndexError')):
            s2 = st.copy()
            if E.assume(s2, short):
                out.append((E.raise_(s2, 'IndexError', node), None))
            if not E.assume(st, b_not(short)):
                return out
    elif E.catching('IndexError') and not safe_index(segs, i):
        out.append((E.raise_(st, 'IndexError', node), None))
    if not segs:
        if E.catching('IndexError'):
            return [(E.raise_(st, 'IndexError', node), None)]
        return [(st, mk('oelt', mk('okey', 'empty', v), i))]
    for s, gs in split_at(E, st, segs, i):
        out.append((s, elem_any(E, s, gs, i, node)))
    return out


def safe_index(segs, i):
    if len(segs) == 1 and segs[0].op == 'map':
        ax = segs[0].args[0]
        return i.op == 'ix' and i.args[0] is ax or i.op == 'pos' and i.args[0] is ax or \
            i.op == 'idx' and ax.op == 'ax'
    return False


def slice_segs(E, st, segs, sl, node):
    a, b, c = sl.args
    if a is NONE and b is NONE and c is NONE:
        return list(segs)
    if all(g.op == 'one' for g in segs) and all(x is NONE or isk(x) for x in (a, b, c)):
        return list(segs[slice(kval(a), kval(b), kval(c))])
    if c is NONE or c is K(1):
        if b is NONE and isk(a) and kval(a) == 0:
            return list(segs)
        if b is NONE and a is K(1):
            if segs and segs[0].op == 'one':
                return list(segs[1:])
            if len(segs) == 1 and segs[0].op == 'map':
                ax, i, body = segs[0].args
                r = mk('rest', ax)
                j = mk('ix', r, 0)
                return [mk('map', r, j, subst(body, {i: j}))]
        if (a is NONE or a is K(0)) and b is K(-1):
            if segs and segs[-1].op == 'one':
                return list(segs[:-1])
        if a is K(0):
            a = NONE
        if len(segs) == 1 and segs[0].op == 'map':
            ax, i, body = segs[0].args
            if b is not NONE and b is n_len(ax):
                b = NONE
                if a is NONE:
                    return list(segs)
            r = mk('slc', ax, a, b)
            j = mk('ix', r, 0)
            return [mk('map', r, j, subst(body, {i: j}))]
    if c is K(-1) and a is NONE and b is NONE:
        return rev_segs(E, st, segs)
    if not segs:
        return []
    cs = []
    for g in segs:
        cs += E.elem_values(st, seq(g))
    return [opaque_seq(st, mk('okey', 'slice', sl, *segs), cs)]


def rev_segs(E, st, segs):
    out = []
    for g in reversed(segs):
        if g.op == 'map':
            ax, i, body = g.args
            r = ax.args[0] if ax.op == 'revax' else mk('revax', ax)
            j = mk('ix', r, 0)
            out.append(mk('map', r, j, subst(body, {i: j})))
        elif g.op == 'one':
            out.append(g)
        else:
            out.append(opaque_seq(st, mk('okey', 'rev', g), st.cands.get(g, ())))
    return out


def unhashable(E, st, x):
    k = kind(E, st, x)
    if k in ('list', 'dict', 'ndarray', 'deque') or k == 'set' and x.op == 'R' and \
            E.obj(st, x).dtype != 'frozen':
        return True
    if x.op == 'tup':
        return any(unhashable(E, st, y) for y in x.args)
    if k == 'inst' and x.op == 'R':
        c = E.repo.classes.get(E.obj(st, x).cls)
        eq = E.class_lookup(c, '__eq__') if c is not None else None
        if eq is not None:
            ha = E.class_lookup(eq[0], '__hash__')
            return ha is None or '__hash__' not in eq[0].ns and ha[0] is not c and \
                '__hash__' not in c.ns
    return False


def dict_item(E, st, v, o, c, i, node):
    """d[i]: value, or KeyError where the key is not proven present"""
    if unhashable(E, st, i):
        E.report('typeerr', node, 'unhashable key', 'hash')
        return [(E.raise_(st, 'TypeError', node), None)]
    alts, missing, known = dict_get(E, st, c, i)
    out = []
    if not known:
        vals = []
        cs = []
        for x in c.args:
            if x.op == 'de':
                cs.append(x.args[1])
            elif x.op == 'dmap':
                cs.append(x.args[3])
            else:
                cs += [y.args[1] for y in st.cands.get(x, ()) if y.op == 'de']
        if o.dtype == 'defaultdict':
            dflt = E.getf(st, v, '<factory>')
            if dflt is not None:
                for s, w in E.call(st, dflt, [], {}, node):
                    cs.append(w)
        if o.dtype != 'defaultdict' and E.catching('KeyError'):
            out.append((E.raise_(st, 'KeyError', node), None))
        t = mk('oelt', mk('okey', 'ditem', c), i)
        if cs:
            st.cands[t] = st.cands.get(t, frozenset()) | frozenset(cs)
        return out + [(st, t)]
    for n, (cond, val) in enumerate(alts):
        s = st.copy()
        if E.assume(s, cond):
            out.append((s, val))
    if missing is not FALSE:
        s = st.copy()
        if E.assume(s, missing):
            if o.dtype == 'defaultdict':
                dflt = E.getf(s, v, '<factory>')
                rs = E.call(s, dflt, [], {}, node) if dflt is not None else [(s, mk('opq', 'dd', v))]
                for s2, w in rs:
                    if s2.sig is None:
                        E.setcontent(s2, v, mk('dct', *(content(E, s2, v).args + (mk('de', i, w),))),
                                     node, None)
                    out.append((s2, w))
            else:
                out.append((E.raise_(s, 'KeyError', node), None))
    return out


# ------------------------------------------------------------------- arrays
def is2d(c):
    return c is not None and c.op == 'seq' and c.args and all(
        g.op in ('one', 'map') and g.args[-1].op == 'row' for g in c.args)


def arr_item(E, st, v, o, c, i, node):
    two = is2d(c)
    full = mk('slice', NONE, NONE, NONE)
    if i.op == 'tup' and len(i.args) == 2 and (two or c is None or c.op != 'seq'):
        a, b = i.args
        if b is full:
            return arr_item(E, st, v, o, c, a, node)
        if a is full:
            if two and b.op != 'slice' and kind(E, st, b) in (None, 'num', 'int'):
                out = []
                col = []
                for g in c.args:
                    row = g.args[-1].args[0]
                    if b is K(0) or b is K(-1):
                        n = seq_len(row.args)
                        f = E.isfact(st, n_eq(n, K(0)))
                        if f is not False and E.catching('IndexError'):
                            s2 = st.copy()
                            if E.assume(s2, n_eq(n, K(0))):
                                out.append((E.raise_(s2, 'IndexError', node), None))
                            E.assume(st, b_not(n_eq(n, K(0))))
                    x = seq_at(row.args, b)
                    if x is None:
                        x = mk('item', g.args[-1], b)
                    if g.op == 'one':
                        col.append(one(x))
                    else:
                        col.append(mk('map', g.args[0], g.args[1], x))
                if b.op not in ('k', 'ix', 'idx', 'pos') and E.catching('IndexError'):
                    out.append((E.raise_(st, 'IndexError', node), None))
                return out + [(st, new_arr(E, st, node, seq(*col), o.dtype, base=v))]
            return [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'col', c or NONE, b)), o.dtype, base=v))]
        if two and a.op != 'slice' and b.op != 'slice':
            r = seq_at(c.args, a)
            if r is not None and r.op == 'row':
                x = seq_at(r.args[0].args, b)
                if x is not None:
                    return [(st, x)]
        return [(st, mk('item', v, i))]
    if i.op == 'slice':
        if c is not None and c.op == 'seq':
            return [(st, new_arr(E, st, node, seq(*slice_segs(E, st, list(c.args), i, node)),
                                 o.dtype, base=v))]
        return [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'slice', c or NONE, i)), o.dtype, base=v))]
    if kind(E, st, i) in ('list', 'ndarray'):
        ic = content(E, st, i)
        if c is not None and c.op == 'seq' and ic is not None and ic.op == 'seq' and \
                all(g.op in ('one', 'map') for g in ic.args):
            out = []
            for g in ic.args:
                x = seq_at(c.args, g.args[-1])
                if x is None:
                    out = None
                    break
                out.append(one(x) if g.op == 'one' else mk('map', g.args[0], g.args[1], x))
            if out is not None:
                return [(st, new_arr(E, st, node, seq(*out), o.dtype))]
        return [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'fancy', c or NONE, i, ic or NONE)), o.dtype))]
    if kind(E, st, i) == 'str':
        return [(E.raise_(st, 'IndexError', node), None)]
    if c is not None and c.op == 'seq':
        out = []
        n = seq_len(c.args)
        if isk(i) and E.catching('IndexError'):
            sh = n_eq(n, K(0))
            f = E.isfact(st, sh)
            if f is True:
                return [(E.raise_(st, 'IndexError', node), None)]
            if f is None and sh is not FALSE:
                s2 = st.copy()
                if E.assume(s2, sh):
                    out.append((E.raise_(s2, 'IndexError', node), None))
                E.assume(st, b_not(sh))
        elif E.catching('IndexError') and not safe_index(c.args, i):
            out.append((E.raise_(st, 'IndexError', node), None))
        if len(c.args) > 1:
            sp = split_at(E, st, c.args, i)
            if len(sp) > 1 or sp[0][1] is not c.args:
                for s, gs in sp:
                    x = seq_at(gs, i)
                    if x is None:
                        x = mk('item', v, i)
                    elif x.op == 'row':
                        x = new_arr(E, s, node, x.args[0], o.dtype, base=v)
                    out.append((s, x))
                return out
        x = seq_at(c.args, i)
        if x is not None:
            if x.op == 'row':
                return out + [(st, new_arr(E, st, node, x.args[0], o.dtype, base=v))]
            return out + [(st, x)]
        if two:
            return out + [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'row', c, i)), o.dtype, base=v))]
        return out + [(st, mk('item', v, i))]
    return [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'item', c or NONE, i)), o.dtype, base=v))]


def val_segs(E, st, v):
    """sequence content of a list / tuple / 1-D array value, or None"""
    if v.op == 'tup':
        return [one(x) for x in v.args]
    if v.op == 'nztup' and len(v.args) > 1:
        return [one(x) for x in v.args]
    if v.op in ('tseq', 'iseq'):
        return list(v.args[0].args)
    if v.op == 'R':
        k = kind(E, st, v)
        c = content(E, st, v)
        if k in ('list', 'deque') and c is not None:
            return list(c.args)
        if k == 'ndarray' and c is not None and c.op == 'seq':
            return list(c.args)
    return None


def set_item(E, st, w, i, v, node):
    if w.op == 'R':
        o = E.obj(st, w)
        if o is None:
            return [st]
        k = kind(E, st, w)
        c = content(E, st, w)
        if k == 'list':
            if i.op == 'slice':
                if i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
                    out = []
                    for s, segs in iter_segments(E, st, v, node):
                        if s.sig is None:
                            E.setcontent(s, w, seq(*segs), node, 'setslice')
                        out.append(s)
                    return out
                E.setcontent(st, w, E.opaque_content(st, o, w, why=mk('okey', i, v)), node, 'setslice')
                return [st]
            E.setcontent(st, w, seq_put(E, st, c, i, v), node, 'setitem')
            return [st]
        if k == 'dict':
            if unhashable(E, st, i):
                E.report('typeerr', node, 'unhashable key', 'hash')
                return [E.raise_(st, 'TypeError', node)]
            ents = list(c.args)
            for n, x in enumerate(ents):
                if x.op == 'de' and x.args[0] is i:
                    ents[n] = mk('de', i, v)
                    break
            else:
                ents.append(mk('de', i, v))
            if len(ents) > 12:
                E.setcontent(st, w, E.opaque_content(st, o, w, extra=mk('dct', mk('de', i, v))),
                             node, 'setitem')
            else:
                E.setcontent(st, w, mk('dct', *ents), node, 'setitem')
            return [st]
        if k == 'ndarray':
            E.setcontent(st, w, arr_put(E, st, c, i, v), node, 'setitem')
            return [st]
    return [st]


def seq_put(E, st, c, i, v):
    if c is None or c.op != 'seq':
        return seq(mk('oseg', mk('okey', 'put', c or NONE, i, v)))
    segs = list(c.args)
    if isk(i) and all(g.op == 'one' for g in segs) and -len(segs) <= kval(i) < len(segs):
        segs[kval(i)] = one(v)
        return seq(*segs)
    if len(segs) == 1 and segs[0].op == 'map':
        ax, j, body = segs[0].args
        tgt = at(ax, i)
        cond = n_eq(j, tgt) if not (isk(i) and kval(i) in (0, -1)) else mk('eq', j, tgt)
        if j in free(tgt):
            k = mk('ix', ax, j.args[1] + 7)
            body = subst(body, {j: k})
            j = k
            cond = n_eq(j, tgt)
        return seq(mk('map', ax, j, v_ite(cond, v, body)))
    if len(segs) == 1 and segs[0].op == 'oseg':
        g = mk('updseg', segs[0], i, v)
        st.cands[g] = st.cands.get(segs[0], frozenset()) | frozenset([v])
        return seq(g)
    cs = []
    for g in segs:
        cs += E.elem_values(st, seq(g))
    return seq(opaque_seq(st, mk('okey', 'put', c, i, v), cs + [v]))


def arr_put(E, st, c, i, v):
    full = mk('slice', NONE, NONE, NONE)
    bad = mk('oarr', mk('okey', 'put', c or NONE, i, v))
    if c is None or c.op != 'seq':
        if c is not None and c.op in ('oarr', 'arrput'):
            return mk('arrput', c, i, v)
        return bad
    if not is2d(c):
        if i.op == 'slice':
            return bad
        x = seq_put(E, st, c, i, tbool(v) if arr_bool(c) else v)
        return x if x.args and x.args[0].op in ('map', 'one') else bad
    if len(c.args) != 1 or c.args[0].op != 'map':
        return bad
    rax, rix, row = c.args[0].args
    rowseq = row.args[0]
    if i.op == 'tup' and len(i.args) == 2:
        a, b = i.args
        if b is full:
            return arr_put(E, st, c, a, v)
        if len(rowseq.args) != 1 or rowseq.args[0].op != 'map':
            return bad
        cax, cix, body = rowseq.args[0].args
        if a is full:
            segs = val_segs(E, st, v)
            if segs is None or len(segs) != 1 or segs[0].op != 'map' or segs[0].args[0] is not rax:
                return bad
            new = alpha(segs[0], rix)
            tb = at(cax, b)
            if cix in free(tb) or cix in free(new):
                return bad
            nb = v_ite(n_eq(cix, tb), tbool(new) if is_bool(body) else new, body)
        elif a.op != 'slice' and b.op != 'slice':
            ta, tb = at(rax, a), at(cax, b)
            if free(ta) & {rix, cix} or free(tb) & {rix, cix}:
                return bad
            nb = v_ite(b_and(n_eq(rix, ta), n_eq(cix, tb)), tbool(v) if is_bool(body) else v, body)
        else:
            return bad
        return seq(mk('map', rax, rix, mk('row', seq(mk('map', cax, cix, nb)))))
    if i.op == 'slice':
        return bad
    segs = val_segs(E, st, v)
    if segs is None or len(segs) != 1 or segs[0].op != 'map' or len(rowseq.args) != 1 or \
            rowseq.args[0].op != 'map':
        return bad
    cax, cix, body = rowseq.args[0].args
    if segs[0].args[0] is not cax:
        return bad
    new = alpha(segs[0], cix)
    ta = at(rax, i)
    if free(ta) & {rix, cix} or rix in free(new):
        return bad
    nb = v_ite(n_eq(rix, ta), tbool(new) if is_bool(body) else new, body)
    return seq(mk('map', rax, rix, mk('row', seq(mk('map', cax, cix, nb)))))


def arr_bool(c):
    return all(g.op in ('one', 'map') and is_bool(g.args[-1]) for g in c.args)


def drop_at(E, st, segs, i):
    if isk(i) and all(g.op == 'one' for g in segs) and -len(segs) <= kval(i) < len(segs):
        segs = list(segs)
        del segs[kval(i)]
        return segs
    if isk(i) and kval(i) == -1 and segs and segs[-1].op == 'one':
        return list(segs[:-1])
    if len(segs) == 1 and segs[0].op == 'map':
        ax, j, body = segs[0].args
        tgt = at(ax, i)
        k = j
        while k in free(tgt):
            k = mk('ix', ax, k.args[1] + 1)
        if k is not j:
            body = subst(body, {j: k})
        f = mk('filt', ax, k, b_not(n_eq(k, tgt)))
        jj = mk('ix', f, 0)
        return [mk('map', f, jj, subst(body, {k: jj}))]
    if len(segs) == 1 and segs[0].op in ('oseg', 'delseg'):
        g = mk('delseg', segs[0], i)
        st.cands[g] = st.cands.get(segs[0], frozenset())
        return [g]
    cs = []
    for g in segs:
        cs += E.elem_values(st, seq(g))
    return [opaque_seq(st, mk('okey', 'del', i, *segs), cs)]


def del_item(E, st, v, i, node):
    out = []
    for s, w in E.alts(st, v):
        if w.op == 'R':
            o = E.obj(s, w)
            k = kind(E, s, w)
            c = content(E, s, w)
            if k == 'list':
                if i.op == 'slice':
                    if i.args[0] is NONE and i.args[1] is NONE:
                        E.setcontent(s, w, SEQ0, node, 'del')
                    else:
                        E.setcontent(s, w, E.opaque_content(s, o, w, why=i), node, 'del')
                else:
                    E.setcontent(s, w, seq(*drop_at(E, s, list(c.args), i)), node, 'del')
            elif k == 'dict':
                ents = [x for x in c.args if not (x.op == 'de' and x.args[0] is i)]
                if len(ents) != len(c.args) and all(
                        x.op == 'de' and val_eq(E, s, x.args[0], i) is FALSE for x in ents):
                    E.setcontent(s, w, mk('dct', *ents), node, 'del')
                else:
                    if E.catching('KeyError'):
                        out.append(E.raise_(s, 'KeyError', node))
                    E.setcontent(s, w, E.opaque_content(s, o, w, why=mk('okey', 'del', i)), node, 'del')
            elif k == 'inst':
                for s2, m in E.getattr_(s, w, '__delitem__', node, quiet=True):
                    if m is not None:
                        out += [x for x, _ in E.call(s2, m, [i], {}, node)]
                        s = None
                if s is None:
                    continue
        out.append(s)
    return out


from .ops import (val_eq, to_str, str_cat, invert, binop, compare, truth)      # noqa: E402
from .calls import (E_file_read, close_file, fold_array, getattr_obj, getattr_val,   # noqa: E402
                    call, file_risk)
