"""Attributes and calls of builtin, library and unknown objects."""
import builtins
import codecs as _codecs

from . import terms as t_
from . import models as m_
from .ops import *
from .ops import arr_map1, arr_map2, arr_binop, frozen_view, terr, axis_of_len, scalar_op, arith
from .terms import (T, mk, K, NONE, TRUE, FALSE, isk, kval, U, members, subst, free, walk,
                    b_not, b_and, b_or, b_forall, b_exists, n_eq, n_lt, n_le, n_len, n_add,
                    n_sub, n_mul, n_neg, is_num, is_bool, s_comp, s_union, s_inter, s_diff,
                    s_mem, s_sub, s_eq, s_empty, s_len, v_ite, own_pos, S0)
from .models import (kind, content, new_list, new_set, new_arr, seq, one, seq_len, seq_at,
                     set_segs, segs_set, set_from, tbool, alpha, is2d, opaque_seq, ext,
                     val_segs, iter_segments, pos, at, SEQ0, key_of, seq_put, drop_at, set_item,
                     del_item, rev_segs, slice_segs, dict_segs, dict_get, elem_any)

PYT = {'list': list, 'set': set, 'dict': dict, 'str': str, 'bytes': bytes, 'tuple': tuple,
       'int': int, 'float': float, 'bool': bool, 'none': type(None), 'gen': type(x for x in ())}


def missing(E, st, v, name, node, k):
    E.report('noattr', node, "'%s' object has no attribute '%s'" % (k, name), (k, name))
    return [(E.raise_(st, 'AttributeError', node), None)]


def getattr_obj(E, st, v, name, node):
    o = E.obj(st, v)
    k = kind(E, st, v)
    if o is None:
        return [(st, mk('attr', v, name))]
    f = E.getf(st, v, name)
    if f is not None:
        return [(st, f)]
    if k == 'ndarray':
        return arr_attr(E, st, v, o, name, node)
    if k in PYT:
        if o.dtype == 'frozen' and k == 'set' and not hasattr(frozenset, name):
            return missing(E, st, v, name, node, 'frozenset')
        if o.dtype == 'defaultdict' and name in ('default_factory',):
            return [(st, mk('attr', v, name))]
        if o.dtype == 'counter' and name in ('most_common', 'elements', 'subtract'):
            return [(st, mk('bmeth', v, name))]
        if not hasattr(PYT[k], name):
            return missing(E, st, v, name, node, k)
    return [(st, mk('bmeth', v, name))]


def getattr_val(E, st, v, name, node):
    k = kind(E, st, v)
    if k == 'none':
        if not hasattr(None, name):
            return missing(E, st, v, name, node, 'NoneType')
    elif k in PYT and v.op != 'ext':
        if not hasattr(PYT[k], name):
            return missing(E, st, v, name, node, k)
        return [(st, mk('bmeth', v, name))]
    elif k == 'num' and name in ('real', 'imag', 'numerator'):
        return [(st, v)]
    if v.op in ('bmeth', 'ext', 'opq', 'attr', 'sym', 'nsy', 'sel', 'item', 'oelt', 'lv', 'el'):
        return [(st, mk('attr', v, name))]
    return [(st, mk('attr', v, name))]


def shape(E, st, v, c):
    if c is None or c.op != 'seq':
        return None
    if is2d(c):
        return [seq_len(c.args), seq_len(c.args[0].args[-1].args[0].args)]
    if not c.args:
        return [K(0)]
    return [seq_len(c.args)]


def arr_attr(E, st, v, o, name, node):
    c = content(E, st, v)
    if name == 'shape':
        sh = shape(E, st, v, c)
        if sh is None:
            return [(st, ext('shape', v))]
        return [(st, mk('tup', *sh))]
    if name == 'T':
        r = transpose(c)
        return [(st, new_arr(E, st, node, r if r is not None else
                             mk('oarr', mk('okey', 'T', c or NONE)), o.dtype, base=v))]
    if name == 'size':
        sh = shape(E, st, v, c)
        if sh is not None:
            return [(st, sh[0] if len(sh) == 1 else n_mul(sh[0], sh[1]))]
        return [(st, mk('nsum', K('size'), v))]
    if name == 'ndim':
        if c is not None and c.op == 'seq':
            return [(st, K(2 if is2d(c) else 1))]
        return [(st, ext('ndim', v))]
    if name == 'dtype':
        return [(st, mk('opq', 'dtype', v))]
    if name == 'flat':
        return [(st, mk('ext', 'flat', v))]
    return [(st, mk('bmeth', v, name))]


def transpose(c):
    """rows <-> columns of a rectangular table"""
    if not is2d(c) or len(c.args) != 1 or c.args[0].op != 'map':
        return None
    rax, rix, row = c.args[0].args
    q = row.args[0]
    if len(q.args) != 1 or q.args[0].op != 'map':
        return None
    cax, cix, body = q.args[0].args
    if rix in free(cax):
        return None
    return seq(mk('map', cax, cix, mk('row', seq(mk('map', rax, rix, body)))))


# ============================================================ list/set/dict
def cand_add(E, st, c, elems):
    return c


def need_hash(E, st, x, node):
    if m_.unhashable(E, st, x):
        E.report('typeerr', node, 'unhashable type: %s' % kind(E, st, x), 'hash')
        return [(E.raise_(st, 'TypeError', node), None)]
    return None


def set_elem(E, st, x):
    if kind(E, st, x) == 'set':
        return mk('val', content(E, st, x))
    return x


def as_set(E, st, v, node):
    """-> [(state, set content)] of any iterable"""
    if kind(E, st, v) == 'set':
        return [(st, content(E, st, v))]
    out = []
    for s, segs in iter_segments(E, st, v, node):
        if s.sig is not None:
            out.append((s, None))
        else:
            out.append((s, set_from(E, s, segs)))
    return out


def list_meth(E, st, v, name, args, kw, node):
    c = content(E, st, v)
    segs = list(c.args) if c is not None else []
    if name == 'append' and len(args) == 1:
        E.setcontent(st, v, seq(*(segs + [one(args[0])])), node, 'append')
        return [(st, NONE)]
    if name == 'extend' and len(args) == 1:
        out = []
        for s, sg in iter_segments(E, st, args[0], node):
            if s.sig is None:
                E.setcontent(s, v, seq(*(list(content(E, s, v).args) + sg)), node, 'extend')
                out.append((s, NONE))
            else:
                out.append((s, None))
        return out
    if name == 'insert' and len(args) == 2:
        if args[0] is K(0):
            E.setcontent(st, v, seq(*([one(args[1])] + segs)), node, 'insert')
        else:
            E.setcontent(st, v, E.opaque_content(st, E.obj(st, v), v,
                                                 extra=seq(one(args[1])), why=args[0]), node, 'insert')
        return [(st, NONE)]
    if name == 'pop':
        i = args[0] if args else K(-1)
        rs = m_.index_segs(E, st, segs, i, node, v)
        out = []
        for s, x in rs:
            if s.sig is None:
                E.setcontent(s, v, seq(*drop_at(E, s, list(content(E, s, v).args), i)), node, 'pop')
            out.append((s, x))
        return out
    if name == 'remove' and len(args) == 1:
        return list_remove(E, st, v, segs, args[0], node)
    if name == 'clear':
        E.setcontent(st, v, SEQ0, node, 'clear')
        return [(st, NONE)]
    if name == 'index' and len(args) == 1:
        return list_index(E, st, v, segs, args[0], node)
    if name == 'count' and len(args) == 1:
        n = K(0)
        for g in segs:
            if g.op == 'one':
                n = n_add(n, t_.b2n(val_eq(E, st, g.args[0], args[0])))
            elif g.op == 'map' and not any(x.op == 'R' for x in walk(g)):
                n = n_add(n, mk('count', g.args[0], g.args[1],
                                val_eq(E, st, g.args[2], args[0])))
            else:
                n = n_add(n, mk('nsum', K('count'), g, frozen_view(E, st, args[0])))
        return [(st, n)]
    if name == 'copy':
        return [(st, new_list(E, st, node, seq(*segs)))]
    if name == 'reverse':
        E.setcontent(st, v, seq(*rev_segs(E, st, segs)), node, 'reverse')
        return [(st, NONE)]
    if name == 'sort':
        out = []
        for s, q in sort_segs(E, st, segs, kw.get('key', NONE), node, kw.get('reverse')):
            if s.sig is None:
                E.setcontent(s, v, q, node, 'sort')
            out.append((s, NONE if s.sig is None else None))
        return out
    if name in ('popleft', 'appendleft'):
        if name == 'popleft':
            out = []
            for s, x in m_.index_segs(E, st, segs, K(0), node, v):
                if s.sig is None:
                    E.setcontent(s, v, seq(*drop_at(E, s, segs, K(0))), node, 'pop')
                out.append((s, x))
            return out
        E.setcontent(st, v, seq(*([one(args[0])] + segs)), node, 'append')
        return [(st, NONE)]
    return None


def list_index(E, st, v, segs, x, node):
    """position of the first equal element; ValueError when there is none"""
    out = []
    if len(segs) == 1 and segs[0].op == 'map':
        ax, i, body = segs[0].args
        there = m_.norm_key(E, st, None) or segs_mem(E, st, x, segs)
        p = None
        if body.op == 'R' or x.op == 'R':
            k = i
            while k in free(x):
                k = mk('ix', ax, k.args[1] + 1)
            p = pos(ax, mk('first', mk('filt', ax, k, val_eq(E, st, subst(body, {i: k}), x))))
        elif t_.injective(body, i):
            if body.op == 'el' and own_pos(ax):
                p = t_.idx(body.args[0], x)
            elif body is i and own_pos(ax):
                p = x
        if p is None:
            m = m_.match(body, x, i)
            if m is not None:
                p = pos(ax, m)
        if p is None:
            p = mk('idx', mk('seqof', segs[0]), x)
    else:
        there = segs_mem(E, st, x, segs)
        p = mk('idx', mk('seqof', seq(*segs)), x)
        n = K(0)
        for g in segs:                       # first segment that surely holds x
            if g.op == 'one' and val_eq(E, st, g.args[0], x) is TRUE and n is K(0):
                p = n
            break
        if len(segs) > 1 and all(g.op == 'one' for g in segs):
            for k, g in enumerate(segs):
                e = val_eq(E, st, g.args[0], x)
                if e is TRUE:
                    p = K(k)
                    break
                if e is not FALSE:
                    break
    f = E.isfact(st, there)
    if f is False:
        return [(E.raise_(st, 'ValueError', node), None)]
    if f is None and there is not TRUE:
        s2 = st.copy()
        if E.assume(s2, b_not(there)):
            out.append((E.raise_(s2, 'ValueError', node), None))
        if not E.assume(st, there):
            return out
    out.append((st, p))
    return out


def list_remove(E, st, v, segs, x, node):
    out = []
    there = segs_mem(E, st, x, segs)
    f = E.isfact(st, there)
    if f is False:
        return [(E.raise_(st, 'ValueError', node), None)]
    if f is None and there is not TRUE:
        s2 = st.copy()
        if E.assume(s2, b_not(there)):
            out.append((E.raise_(s2, 'ValueError', node), None))
        if not E.assume(st, there):
            return out
    q = None
    if len(segs) == 1 and segs[0].op == 'map':
        ax, i, body = segs[0].args
        p = None
        if body.op == 'el' and body.args[1] is i and ax.op == 'ax':
            p = t_.idx(body.args[0], x)
        else:
            p = m_.match(body, x, i)
        if p is not None:
            k = i
            while k in free(p):
                k = mk('ix', ax, k.args[1] + 1)
            f_ = mk('filt', ax, k, b_not(n_eq(k, p)))
            j = mk('ix', f_, 0)
            q = [mk('map', f_, j, subst(body, {i: j}))]
        elif t_.injective(body, i):
            f_ = mk('filt', ax, i, b_not(val_eq(E, st, body, x)))
            j = mk('ix', f_, 0)
            q = [mk('map', f_, j, subst(body, {i: j}))]
        else:
            # all but the first element equal to x
            k = i
            while k in free(x):
                k = mk('ix', ax, k.args[1] + 1)
            e = val_eq(E, st, subst(body, {i: k}), x)
            b = mk('before', ax, k)
            b0 = mk('ix', b, 0)
            f_ = mk('filt', ax, k, t_.b_or(b_not(e), t_.b_exists(b, b0, subst(e, {k: b0}))))
            j = mk('ix', f_, 0)
            q = [mk('map', f_, j, subst(body, {i: j}))]
    if q is None:
        for k, g in enumerate(segs):
            if g.op != 'one':
                break
            e = val_eq(E, st, g.args[0], x)
            if e is TRUE:
                q = segs[:k] + segs[k + 1:]
                break
            if e is not FALSE:
                break
    if q is None:
        # drops an element equal to x: record the element and keep the rest
        q = [opaque_seq(st, mk('okey', 'remove', x, *segs), E.elem_values(st, seq(*segs)))]
    E.setcontent(st, v, seq(*q), node, 'remove')
    out.append((st, NONE))
    return out


def set_meth(E, st, v, name, args, kw, node):
    c = content(E, st, v)
    fz = E.obj(st, v).dtype == 'frozen'
    if name == 'add' and len(args) == 1:
        bad = need_hash(E, st, args[0], node)
        if bad:
            return bad
        E.setcontent(st, v, s_union(c, mk('sone', set_elem(E, st, args[0]))), node, 'add')
        return [(st, NONE)]
    if name in ('remove', 'discard') and len(args) == 1:
        x = set_elem(E, st, args[0])
        out = []
        if name == 'remove':
            there = set_mem(E, st, x, c)
            f = E.isfact(st, there)
            if f is False:
                return [(E.raise_(st, 'KeyError', node), None)]
            if f is None and there is not TRUE and E.catching('KeyError'):
                s2 = st.copy()
                if E.assume(s2, b_not(there)):
                    out.append((E.raise_(s2, 'KeyError', node), None))
                if not E.assume(st, there):
                    return out
        E.setcontent(st, v, s_diff(c, mk('sone', x)), node, 'discard')
        return out + [(st, NONE)]
    if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'update',
                'intersection_update', 'difference_update', 'symmetric_difference_update'):
        cur = [(st, c)]
        for a in args:
            nxt = []
            for s, acc in cur:
                for s2, d in (as_set(E, s, a, node) if s.sig is None else [(s, None)]):
                    if s2.sig is not None:
                        nxt.append((s2, None))
                        continue
                    if name in ('union', 'update'):
                        r = s_union(acc, d)
                    elif name.startswith('inter'):
                        r = s_inter(acc, d)
                    elif name.startswith('diff'):
                        r = s_diff(acc, d)
                    else:
                        r = s_union(s_diff(acc, d), s_diff(d, acc))
                    nxt.append((s2, r))
            cur = nxt
        out = []
        for s, r in cur:
            if s.sig is not None:
                out.append((s, None))
            elif name.endswith('update'):
                E.setcontent(s, v, r, node, name)
                out.append((s, NONE))
            else:
                out.append((s, new_set(E, s, node, r, fz)))
        return out
    if name in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1:
        out = []
        for s, d in as_set(E, st, args[0], node):
            if s.sig is not None:
                out.append((s, None))
            elif name == 'issubset':
                out.append((s, s_sub(c, d)))
            elif name == 'issuperset':
                out.append((s, s_sub(d, c)))
            else:
                out.append((s, s_empty(s_inter(c, d))))
        return out
    if name == 'copy':
        return [(st, new_set(E, st, node, c, fz))]
    if name == 'clear':
        E.setcontent(st, v, S0, node, 'clear')
        return [(st, NONE)]
    if name == 'pop':
        x = mk('oelt', mk('okey', 'setpop', c), K(0))
        cs = E.elem_values(st, c)
        if cs:
            st.cands[x] = frozenset(cs)
        if c.op == 'sone':
            x = c.args[0]
        out = []
        z = s_empty(c)
        if E.isfact(st, z) is None and z is not FALSE and E.catching('KeyError'):
            s2 = st.copy()
            if E.assume(s2, z):
                out.append((E.raise_(s2, 'KeyError', node), None))
        E.setcontent(st, v, s_diff(c, mk('sone', x)), node, 'pop')
        return out + [(st, x)]
    return None


def dict_meth(E, st, v, name, args, kw, node):
    o = E.obj(st, v)
    c = content(E, st, v)
    if name in ('keys', 'values', 'items'):
        return [(st, mk('iseq', seq(*dict_segs(E, st, c, {'keys': 'k', 'values': 'v',
                                                           'items': 'i'}[name]))))]
    if name in ('get', 'setdefault', 'pop') and args:
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        alts, miss, known = dict_get(E, st, c, k)
        out = []
        if not known:
            cs = [y.args[1] for y in E.dict_values(st, c)] + [d]
            t = mk('oelt', mk('okey', 'dget', c), k)
            st.cands[t] = st.cands.get(t, frozenset()) | frozenset(cs)
            out.append((st, t))
            if name == 'pop' and len(args) == 1 and E.catching('KeyError'):
                out.insert(0, (E.raise_(st, 'KeyError', node), None))
        else:
            for cond, val in alts:
                s = st.copy()
                if E.assume(s, cond):
                    out.append((s, val))
            if miss is not FALSE:
                s = st.copy()
                if E.assume(s, miss):
                    if name == 'pop' and len(args) == 1:
                        out.append((E.raise_(s, 'KeyError', node), None))
                    else:
                        if name == 'setdefault':
                            set_item(E, s, v, k, d, node)
                        out.append((s, d))
        if name == 'pop':
            for s, x in out:
                if s.sig is None:
                    ents = [x_ for x_ in content(E, s, v).args if not (x_.op == 'de' and x_.args[0] is k)]
                    if len(ents) < len(c.args):
                        E.setcontent(s, v, mk('dct', *ents), node, 'pop')
                        continue
                    ents = list(c.args)
                    if len(ents) == 1 and ents[0].op == 'dmap' and content(E, s, v) is c:
                        ax, i, kk, vv = ents[0].args
                        p = m_.match(kk, k, i) or m_.match(kk, k, i, True)
                        if p is not None and i not in free(p) and kk.op == 'R':
                            f_ = mk('filt', ax, i, b_not(n_eq(i, p)))
                            j = mk('ix', f_, 0)
                            q = {i: j}
                            E.setcontent(s, v, mk('dct', mk('dmap', f_, j, subst(kk, q), subst(vv, q))),
                                         node, 'pop')
                            continue
                    E.setcontent(s, v, E.opaque_content(s, E.obj(s, v), v, why=k), node, 'pop')
        return out
    if name == 'update':
        ents = list(c.args)
        for a in args:
            if kind(E, st, a) == 'dict':
                ents += list(content(E, st, a).args)
            else:
                ents.append(mk('dopq', mk('okey', 'upd', frozen_view(E, st, a))))
        for k, x in kw.items():
            ents.append(mk('de', K(k), x))
        E.setcontent(st, v, mk('dct', *ents), node, 'update')
        return [(st, NONE)]
    if name == 'copy':
        r = E.alloc(st, 'dict', node, content=c, dtype=o.dtype, fields=o.fields)
        return [(st, r)]
    if name == 'clear':
        E.setcontent(st, v, mk('dct'), node, 'clear')
        return [(st, NONE)]
    if name == 'most_common':
        return [(st, new_list(E, st, node, seq(*dict_segs(E, st, c, 'i'))))]
    return None


def sort_segs(E, st, segs, key, node, reverse=None):
    """-> [(state, seq)] sorted content"""
    st.ev('sort', seq(*segs), key, E.where(node), reverse or NONE)
    if len(segs) == 1 and segs[0].op == 'map':
        ax, i, body = segs[0].args
        keyv = body
        out = []
        rs = [(st, body)]
        if key is not NONE:
            E.ixs.append(i)
            try:
                rs = E.call(st, key, [body], {}, node)
            finally:
                E.ixs.pop()
        for n, (s, kv) in enumerate(rs):
            if s.sig is not None:
                out.append((s, None))
                continue
            s.ev('sortkey', kv if kv is not None else NONE, E.where(node))
            kv = frozen_view(E, s, kv)
            base = ax
            while base.op in ('setorder', 'permax'):
                base = base.args[0]
            nx = mk('sortax', base, subst(mk('skey', i, kv), {}), reverse or FALSE)
            j = mk('ix', nx, 0)
            out.append((s, seq(mk('map', nx, j, subst(body, {i: j})))))
            if n == 0 and len(rs) > 1 and False:
                break
        return out
    for g in segs[:2]:
        for x in E.elem_values(st, seq(g))[:2]:
            if key is not NONE:
                for s, kv in E.call(st.copy(), key, [x], {}, node)[:2]:
                    if s.sig is None:
                        st.ev('sortkey', kv, E.where(node))
            else:
                st.ev('sortkey', x, E.where(node))
    if len(segs) <= 1 and all(g.op == 'one' for g in segs):
        return [(st, seq(*segs))]
    return [(st, seq(opaque_seq(st, mk('okey', 'sorted', key, *segs), E.elem_values(st, seq(*segs)))))]


# ==================================================================== arrays
def row_fold(c, f):
    """fold of the scalars of a 1-D content with quantifier f ('any'/'all')"""
    out = []
    for g in c.args:
        if g.op == 'one':
            out.append(tbool(g.args[0]))
        elif g.op == 'map':
            q = b_exists if f == 'any' else b_forall
            out.append(q(g.args[0], g.args[1], tbool(g.args[2])))
        else:
            out.append(mk('truthy', mk('okey', f, g)))
    return b_or(*out) if f == 'any' else b_and(*out)


def count_of(c):
    n = K(0)
    for g in c.args:
        if g.op == 'one':
            x = g.args[0]
            n = n_add(n, t_.b2n(tbool(x)) if is_bool(x) else x)
        elif g.op == 'map' and is_bool(g.args[2]):
            n = n_add(n, mk('count', g.args[0], g.args[1], g.args[2]))
        elif g.op == 'map':
            n = n_add(n, mk('fold', '+', g.args[0], g.args[1], g.args[2], K(0)))
        else:
            return mk('nsum', c)
    return n


def arr_meth(E, st, v, name, args, kw, node):
    o = E.obj(st, v)
    c = content(E, st, v)
    known = c is not None and c.op == 'seq'
    if name in ('any', 'all'):
        axis = kw.get('axis', args[0] if args else NONE)
        if not known:
            if axis is NONE:
                return [(st, mk('truthy', mk('okey', name, c or v)))]
            return [(st, new_arr(E, st, node, mk('oarr', mk('okey', name, c or v, axis)), 'bool'))]
        if is2d(c):
            if axis is NONE:
                q = b_exists if name == 'any' else b_forall
                out = []
                for g in c.args:
                    r = row_fold(g.args[-1].args[0], name)
                    out.append(r if g.op == 'one' else q(g.args[0], g.args[1], r))
                return [(st, b_or(*out) if name == 'any' else b_and(*out))]
            if axis is K(1):
                out = []
                for g in c.args:
                    r = row_fold(g.args[-1].args[0], name)
                    out.append(one(r) if g.op == 'one' else mk('map', g.args[0], g.args[1], r))
                return [(st, new_arr(E, st, node, seq(*out), 'bool'))]
            tc = transpose(c)
            if axis is K(0) and tc is not None:
                g = tc.args[0]
                return [(st, new_arr(E, st, node, seq(
                    mk('map', g.args[0], g.args[1], row_fold(g.args[2].args[0], name))), 'bool'))]
            return [(st, new_arr(E, st, node, mk('oarr', mk('okey', name, c, axis)), 'bool'))]
        return [(st, row_fold(c, name))]
    if name == 'sum':
        if known and not is2d(c) and not args and not kw:
            return [(st, count_of(c))]
        if known and is2d(c) and not args and not kw:
            return [(st, mk('nsum', c))]
        axis = kw.get('axis', args[0] if args else NONE)
        if known and is2d(c) and axis in (K(0), K(1)):
            cc = c if axis is K(1) else transpose(c)
            if cc is not None:
                out = []
                for g in cc.args:
                    r = count_of(g.args[-1].args[0])
                    out.append(one(r) if g.op == 'one' else mk('map', g.args[0], g.args[1], r))
                return [(st, new_arr(E, st, node, seq(*out)))]
        return [(st, ext('arrsum', c or v, axis))]
    if name in ('tolist', '__array__'):
        if not known:
            return [(st, new_list(E, st, node, seq(mk('oseg', mk('okey', 'tolist', c or v)))))]
        return [(st, to_list(E, st, c, node))]
    if name in ('copy', 'astype', 'ravel', 'flatten', 'view'):
        if name in ('ravel', 'flatten') and known and is2d(c):
            c2 = flat_seq(c)
            return [(st, new_arr(E, st, node, c2, o.dtype, base=v if name == 'ravel' else None))]
        r = c
        if name == 'astype' and args and args[0] is mk('bi', 'builtins.bool') and known:
            r = arr_map1(c, tbool, 'bool')
        return [(st, new_arr(E, st, node, r if r is not None else mk('oarr', mk('okey', name, v)),
                             o.dtype, base=v if name in ('ravel', 'view') else None))]
    if name == 'nonzero':
        return nonzero(E, st, v, c, node)
    if name == 'transpose':
        return arr_attr(E, st, v, o, 'T', node)
    if name == 'reshape':
        return arr_reshape(E, st, v, o, c, args, node)
    if name in ('fill', 'sort', 'resize', 'put', 'itemset', 'partition', 'setfield', 'byteswap'):
        E.setcontent(st, v, mk('oarr', mk('okey', name, c or v, *args)), node, name)
        return [(st, NONE)]
    if name in ('item',):
        return [(st, mk('item', v, args[0] if args else K(0)))]
    return [(st, ext('arr.' + name, frozen_view(E, st, v), *args))]


def arr_reshape(E, st, v, o, c, args, node):
    """a 2-d array given its own shape is unchanged"""
    if len(args) == 1 and args[0].op == 'tup':
        args = list(args[0].args)
    if len(args) == 2 and c is not None and c.op == 'seq':
        if not c.args:
            cond = b_or(n_eq(args[0], K(0)), n_eq(args[1], K(0)))
            same = c if args[0] is K(0) or n_eq(args[0], K(0)) is TRUE else None
            if same is not None:
                return [(st, new_arr(E, st, node, same, o.dtype, base=v))]
        elif is2d(c):
            ws = []
            for g in c.args:
                w = n_eq(seq_len(g.args[-1].args[0].args), args[1])
                ws.append(w if g.op == 'one' else b_forall(g.args[0], g.args[1], w))
            # with no rows at all any width is the own shape
            cond = b_and(n_eq(seq_len(c.args), args[0]), *ws)
            out = []
            for s, q in E.branch(st, cond):
                if q:
                    out.append((s, new_arr(E, s, node, c, o.dtype, base=v)))
                else:
                    out.append((s, new_arr(E, s, node, mk('oarr', mk('okey', 'reshape', c, *args)),
                                           o.dtype)))
            return out
    return [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'reshape', c or v, *args)), o.dtype))]


def flat_seq(c):
    g = c.args[0]
    if len(c.args) == 1 and g.op == 'map':
        q = g.args[2].args[0]
        if len(q.args) == 1 and q.args[0].op == 'map':
            ca, ci, body = q.args[0].args
            fa = mk('flatax', mk('map', g.args[0], g.args[1], ca))
            j = mk('ix', fa, 0)
            return seq(mk('map', fa, j, subst(body, {ci: mk('second', j), g.args[1]: mk('firstof', j)})))
    return mk('oarr', mk('okey', 'flat', c))


def to_list(E, st, c, node):
    out = []
    for g in c.args:
        x = g.args[-1]
        if x.op == 'row':
            if g.op == 'map':
                j = E.fresh_ix(g.args[0])
                E.ixs.append(j)
                try:
                    r = to_list(E, st, subst(x.args[0], {g.args[1]: j}), node)
                finally:
                    E.ixs.pop()
                out.append(mk('map', g.args[0], j, r))
            else:
                out.append(one(to_list(E, st, x.args[0], node)))
        else:
            out.append(g)
    return new_list(E, st, node, seq(*out))


def nonzero(E, st, v, c, node):
    if c is not None and c.op == 'seq' and len(c.args) == 1 and c.args[0].op == 'map':
        ax, i, body = c.args[0].args
        if body.op == 'row':
            q = body.args[0]
            if len(q.args) == 1 and q.args[0].op == 'map':
                ca, ci, b = q.args[0].args
                f = mk('filt', ca, ci, tbool(b))
                fa = mk('flatax', mk('map', ax, i, f))
                j = mk('ix', fa, 0)
                r0 = new_arr(E, st, node, seq(mk('map', fa, j, pos(ax, mk('firstof', j)))))
                r1 = new_arr(E, st, node, seq(mk('map', fa, j, pos(ca, mk('second', j)))))
                return [(st, mk('nztup', r0, r1))]
        else:
            f = mk('filt', ax, i, tbool(body))
            j = mk('ix', f, 0)
            r = new_arr(E, st, node, seq(mk('map', f, j, pos(ax, j))))
            return [(st, mk('tup', r))]
    if c is not None and c.op == 'seq' and len(c.args) > 1 and all(
            g.op in ('one', 'map') and g.args[-1].op == 'row' and len(g.args[-1].args[0].args) == 1 and
            g.args[-1].args[0].args[0].op == 'map' for g in c.args):
        s0, s1, off = [], [], K(0)
        for g in c.args:
            ca, ci, b = g.args[-1].args[0].args[0].args
            f = mk('filt', ca, ci, tbool(b))
            if g.op == 'one':
                j = mk('ix', f, 0)
                s0.append(mk('map', f, j, off))
                s1.append(mk('map', f, j, pos(ca, j)))
                off = n_add(off, K(1))
            else:
                fa = mk('flatax', mk('map', g.args[0], g.args[1], f))
                j = mk('ix', fa, 0)
                s0.append(mk('map', fa, j, n_add(off, pos(g.args[0], mk('firstof', j)))))
                s1.append(mk('map', fa, j, pos(ca, mk('second', j))))
                off = n_add(off, n_len(g.args[0]))
        return [(st, mk('nztup', new_arr(E, st, node, seq(*s0)), new_arr(E, st, node, seq(*s1))))]
    if c is not None and c.op == 'seq' and all(g.op in ('one', 'map') and g.args[-1].op != 'row'
                                               for g in c.args):
        segs, off = [], K(0)
        for g in c.args:
            if g.op == 'one':
                ka = mk('kax', 1)
                f = mk('filt', ka, mk('ix', ka, 0), tbool(g.args[0]))
                segs.append(mk('map', f, mk('ix', f, 0), off))
                off = n_add(off, K(1))
            else:
                f = mk('filt', g.args[0], g.args[1], tbool(g.args[2]))
                j = mk('ix', f, 0)
                segs.append(mk('map', f, j, n_add(off, pos(g.args[0], j))))
                off = n_add(off, n_len(g.args[0]))
        return [(st, mk('tup', new_arr(E, st, node, seq(*segs))))]
    r = new_arr(E, st, node, mk('oarr', mk('okey', 'nz', c or v)))
    return [(st, mk('nztup', r, new_arr(E, st, node, mk('oarr', mk('okey', 'nz1', c or v)))))]


def to_arr_content(E, st, v, node, conv=None):
    """content of np.array(v): rows for nested sequences"""
    k = kind(E, st, v)
    if k == 'ndarray':
        c = content(E, st, v)
        return arr_map1(c, conv, 'conv') if conv is not None and c is not None and c.op == 'seq' else c
    segs = val_segs(E, st, v)
    if segs is None:
        return mk('oarr', mk('okey', 'array', frozen_view(E, st, v)))
    out = []
    for g in segs:
        x = g.args[-1] if g.op in ('one', 'map') else None
        if x is None:
            return mk('oarr', mk('okey', 'array', *segs))
        kx = kind(E, st, x)
        if x.op in ('U', 'lv', 'oelt', 'ite') and kx is None:
            vs = E.vals(st, x)
            if len(vs) == 1:
                x = vs[0]
                kx = kind(E, st, x)
            elif any(kind(E, st, w) in ('list', 'tuple', 'ndarray') for w in vs):
                return mk('oarr', mk('okey', 'array', *segs))
        if kx in ('list', 'tuple', 'ndarray', 'gen'):
            r = to_arr_content(E, st, x, node, conv)
            if r is None or r.op != 'seq':
                return mk('oarr', mk('okey', 'array', *segs))
            y = mk('row', r)
        else:
            y = conv(x) if conv is not None else x
        out.append(one(y) if g.op == 'one' else mk('map', g.args[0], g.args[1], y))
    return seq(*out)


def np_array(E, st, args, kw, node):
    if not args:
        return terr(E, st, node, 'array() without data')
    dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
    conv = tbool if dt in (mk('bi', 'builtins.bool'), mk('bi', 'numpy.bool_'), K('bool')) else None
    dts = dt.args[0].split('.')[-1] if dt.op == 'bi' else kval(dt) if isk(dt) and isinstance(kval(dt), str) else None
    if dt is NONE and kind(E, st, args[0]) == 'ndarray':
        dts = E.obj(st, args[0]).dtype
    c = to_arr_content(E, st, args[0], node, conv)
    return [(st, new_arr(E, st, node, c if c is not None else mk('oarr', mk('okey', 'array', args[0])), dts))]


def np_matrix(E, st, args, kw, node):
    out = np_array(E, st, args, kw, node)
    for s, v in out:
        if v is not None and v.op == 'R':
            o = E.obj(s, v)
            d = o.dtype
            if isinstance(d, T) and isk(d):
                d = kval(d)
            s.heap[E.oid(v)] = o._replace(
                dtype='bmatrix' if d in ('bool', 'bool_') else 'matrix:%s' % d if d else 'matrix')
    return out


def np_delete(E, st, args, kw, node):
    a, i = args[0], args[1]
    axis = kw.get('axis', args[2] if len(args) > 2 else NONE)
    c = content(E, st, a) if kind(E, st, a) == 'ndarray' else None
    o = E.obj(st, a) if a.op == 'R' else None
    dt = o.dtype if o is not None else None
    bad = mk('oarr', mk('okey', 'delete', c or a, frozen_view(E, st, i), axis))
    if c is None or c.op != 'seq':
        return [(st, new_arr(E, st, node, bad, dt))]
    il = val_segs(E, st, i) if kind(E, st, i) in ('list', 'tuple', 'ndarray') else None

    def dropped(ax):
        """axis without the given positions, or None"""
        if il is not None:
            if len(il) == 1 and il[0].op == 'map':
                dax, dix, db = il[0].args
                k = mk('ix', ax, 0)
                d2 = dix
                if own_pos(ax):
                    cond = b_forall(dax, d2, b_not(n_eq(k, db)))
                else:
                    cond = b_forall(dax, d2, b_not(n_eq(mk('pos', ax, k), db)))
                return mk('filt', ax, k, cond)
            if il and all(g.op == 'map' for g in il) and own_pos(ax) and not any(
                    mk('ix', ax, 0) in free(g) for g in il):
                k = mk('ix', ax, 0)
                return mk('filt', ax, k, b_and(*[b_forall(g.args[0], g.args[1], b_not(n_eq(k, g.args[2])))
                                                 for g in il]))
            if all(g.op == 'one' for g in il):
                k = mk('ix', ax, 0)
                return mk('filt', ax, k, b_and(*[b_not(n_eq(k, at(ax, g.args[0]))) for g in il]))
            return None
        t = at(ax, i)
        k = mk('ix', ax, 0)
        while k in free(t):
            k = mk('ix', ax, k.args[1] + 1)
        return mk('filt', ax, k, b_not(n_eq(k, t)))
    if is2d(c) and len(c.args) == 1 and c.args[0].op == 'map':
        rax, rix, row = c.args[0].args
        if axis is K(0):
            d = dropped(rax)
            if d is not None:
                j = mk('ix', d, 0)
                return [(st, new_arr(E, st, node, seq(mk('map', d, j, subst(row, {rix: j}))), dt))]
        elif axis is K(1):
            q = row.args[0]
            if len(q.args) == 1 and q.args[0].op == 'map':
                ca, ci, body = q.args[0].args
                d = dropped(ca)
                if d is not None:
                    j = mk('ix', d, 0)
                    return [(st, new_arr(E, st, node, seq(mk('map', rax, rix, mk('row', seq(
                        mk('map', d, j, subst(body, {ci: j})))))), dt))]
    elif not is2d(c) and len(c.args) == 1 and c.args[0].op == 'map' and axis in (NONE, K(0)):
        ax, i_, body = c.args[0].args
        d = dropped(ax)
        if d is not None:
            j = mk('ix', d, 0)
            return [(st, new_arr(E, st, node, seq(mk('map', d, j, subst(body, {i_: j}))), dt))]
    return [(st, new_arr(E, st, node, bad, dt))]


def np_stack(E, st, args, kw, node, how):
    """vstack / row_stack / c_ / hstack / column_stack / append / concatenate"""
    xs = []
    if args and args[0].op == 'tup':
        xs = list(args[0].args)
    elif args and kind(E, st, args[0]) == 'list':
        sg = val_segs(E, st, args[0])
        if sg is not None and all(g.op == 'one' for g in sg):
            xs = [g.args[0] for g in sg]
    cs = [to_arr_content(E, st, x, node) for x in xs]
    bad = mk('oarr', mk('okey', how, *[c if c is not None else x for c, x in zip(cs, xs)]))
    if not xs or any(c is None or c.op != 'seq' for c in cs):
        return [(st, new_arr(E, st, node, bad))]
    bads = []
    ls = [stack_len(c, how) for c in cs]
    if is2d(cs[0]) and all(l is not None for l in ls) and kind(E, st, xs[0]) == 'ndarray':
        for l in ls[1:]:
            e = n_eq(ls[0], l)
            if e is TRUE or E.isfact(st, e) is True:
                continue
            s2 = st.copy()
            if E.isfact(st, e) is None and E.assume(s2, b_not(e)):
                bads.append((E.raise_(s2, 'ValueError', node), None))
            if not E.assume(st, e):
                return [(E.raise_(st, 'ValueError', node), None)]
    return bads + np_stack2(E, st, xs, cs, bad, node, how)


def stack_len(c, how):
    """the length that must agree: of rows when stacking rows, else of columns"""
    if how == 'rows':
        if not is2d(c):
            return seq_len(c.args)
        out = None
        for g in c.args:
            b = g.args[0] if g.op == 'one' else g.args[2]
            if b.op != 'row' or b.args[0].op != 'seq':
                return None
            n = seq_len(b.args[0].args)
            if g.op == 'map' and g.args[1] in t_.free(n):
                return None
            if out is None:
                out = n
            elif out is not n:
                return None
        return out
    return seq_len(c.args)


def np_stack2(E, st, xs, cs, bad, node, how):
    if how == 'rows':
        out = []
        for c in cs:
            if is2d(c):
                out += list(c.args)
            else:
                out.append(one(mk('row', c)))
        return [(st, new_arr(E, st, node, seq(*out), 'bool' if all(
            b.op == 'R' and E.obj(st, b).dtype == 'bool' for b in xs) else None))]
    # columns: first must be 2-D over one row axis, others 2-D (same axis) or 1-D
    c0 = cs[0]
    if is2d(c0) and len(c0.args) == 1 and c0.args[0].op == 'map':
        rax, rix, row = c0.args[0].args
        segs = list(row.args[0].args)
        for c in cs[1:]:
            if len(c.args) != 1 or c.args[0].op != 'map' or c.args[0].args[0] is not rax:
                return [(st, new_arr(E, st, node, bad))]
            x = alpha(c.args[0], rix)
            if x.op == 'row':
                segs += list(x.args[0].args)
            else:
                segs.append(one(x))
        return [(st, new_arr(E, st, node, seq(mk('map', rax, rix, mk('row', seq(*segs)))), 'bool'))]
    return [(st, new_arr(E, st, node, bad))]


def fold_array(E, sym, init, outs, key, axis, j):
    """element-wise accumulation over a loop: and / or of whole rows"""
    if len(outs) != 1 or outs[0][0] is not TRUE:
        plan = [(c, v) for c, v in outs if v is not sym]
        if len(plan) != 1:
            return None
        cond, v = plan[0]
    else:
        cond, v = outs[0]
    if v is sym:
        return init
    if v.op == 'arrop' and v.args[1] is sym and init.op == 'seq':
        op = kval(v.args[0])
        x = v.args[2]
        if op not in ('BitAnd', 'BitOr') or len(x.args) != len(init.args):
            return None
        out = []
        for g0, g in zip(init.args, x.args):
            if g.op != g0.op or g.op not in ('one', 'map') or g0.args[-1].op == 'row':
                return None
            if g.op == 'map' and g.args[0] is not g0.args[0]:
                return None
            b = alpha(g, g0.args[1]) if g.op == 'map' else g.args[0]
            if E.has_loopvars(b, key):
                return None
            b0 = tbool(g0.args[-1])
            if op == 'BitAnd':
                r = b_and(b0, b_forall(axis, j, b_or(b_not(cond), tbool(b))))
            else:
                r = b_or(b0, b_exists(axis, j, b_and(cond, tbool(b))))
            out.append(mk('map', g0.args[0], g0.args[1], r) if g.op == 'map' else one(r))
        return seq(*out)
    return None


# =================================================================== strings
STRBOOL = ('startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower',
           'isalnum', 'isnumeric', 'isidentifier')


def str_meth(E, st, v, name, args, kw, node, isb=False):
    if isk(v) and all(isk(a) for a in args) and not kw and name not in ('join',):
        try:
            r = getattr(kval(v), name)(*[kval(a) for a in args])
        except Exception as e:
            return [(E.raise_(st, type(e).__name__, node), None)]
        if isinstance(r, (str, int, bool, bytes, float)):
            return [(st, K(r))]
        if isinstance(r, list):
            return [(st, new_list(E, st, node, seq(*[one(K(x)) for x in r])))]
        if isinstance(r, tuple):
            return [(st, mk('tup', *[K(x) for x in r]))]
    if name == 'join' and len(args) == 1:
        out = []
        for s, segs in iter_segments(E, st, args[0], node):
            if s.sig is not None:
                out.append((s, None))
                continue
            bad = None
            for g in segs:
                x = g.args[-1] if g.op in ('one', 'map') else None
                k = kind(E, s, x) if x is not None else None
                if k in ('int', 'num', 'none', 'set', 'list', 'dict', 'tuple', 'bool', 'float') or \
                        k == ('str' if isb else 'bytes') or k == 'inst':
                    bad = k
            if bad:
                out += terr(E, s, node, 'sequence item: expected %s, %s found' % (
                    'bytes' if isb else 'str', bad), 'join')
                continue
            s.ev('join', seq(*segs), E.where(node))
            if all(g.op == 'one' for g in segs) and segs:
                r = segs[0].args[0]
                for g in segs[1:]:
                    r = str_cat(str_cat(r, v), g.args[0])
                out.append((s, r))
            elif not segs:
                out.append((s, K('')))
            else:
                out.append((s, mk('join', v, seq(*segs))))
        return out
    if name in ('split', 'rsplit', 'splitlines', 'partition'):
        ax = mk('oax', mk('okey', name, v, *args))
        j = mk('ix', ax, 0)
        piece = mk('bytm' if isb else 'ssy', mk('piece', v, j, *args))
        return [(st, new_list(E, st, node, seq(mk('map', ax, j, piece))))]
    if name == 'encode':
        return [(st, mk('bytm', K('encode'), v))]
    if name == 'decode':
        return [(st, mk('ssy', mk('decode', v)))]
    if name in STRBOOL:
        return [(st, mk('bsym', K(name), v, *args))]
    if name in ('find', 'rfind', 'index', 'rindex', 'count'):
        if name in ('index', 'rindex') and E.catching('ValueError'):
            return [(E.raise_(st, 'ValueError', node), None),
                    (st, mk('nsum', K(name), v, *args))]
        return [(st, mk('nsum', K(name), v, *args))]
    if name == 'format':
        xs = []
        cur = [(st, [])]
        for a in list(args) + [kw[k] for k in sorted(kw)]:
            nxt = []
            for s, acc in cur:
                if s.sig is not None:
                    nxt.append((s, acc))
                    continue
                if a.op == 'star':
                    nxt.append((s, acc + [a]))
                    continue
                for s2, r in to_str(E, s, a, node):
                    nxt.append((s2, acc + [r]))
            cur = nxt
        return [(s, mk('fmt', v, *acc) if s.sig is None else None) for s, acc in cur]
    return [(st, mk('bytm' if isb else 'strm', K(name), v, *args))]


# ===================================================================== files
def E_file_read(E, st, v, node):
    st.ev('fread', v, E.where(node))


def open_file(E, st, args, kw, node, codec=False):
    path = args[0] if args else kw.get('file', kw.get('filename', NONE))
    mode = kw.get('mode', args[1] if len(args) > 1 else K('r'))
    at = 2 if codec else 3
    enc = kw.get('encoding', args[at] if len(args) > at else NONE)
    b = FALSE
    if isk(mode) and isinstance(kval(mode), str):
        b = K('b' in kval(mode) and not codec)
        if codec and enc is NONE:
            b = K('b' in kval(mode))
    else:
        b = mk('bsym', K('binary'), mode)
    text = E.alloc(st, 'text', node, content=SEQ0)
    f = E.alloc(st, 'file', node, fields=(('binary', b), ('closed', FALSE), ('encoding', enc), ('mode', mode),
                                          ('path', path), ('pos', K(0)), ('text', text), ('wrap', FALSE)))
    st.ev('open', f, path, mode, E.where(node))
    return [(st, f)]


def close_file(E, st, ref, node):
    st.ev('close', ref, E.where(node))
    E.setf(st, ref, 'closed', TRUE, node, quiet=True)


def written(E, st, f, segs, node):
    """what has been written to a file, in order"""
    t = E.getf(st, f, 'text')
    for r in (members(t) if t is not None else ()):
        if r.op == 'R':
            E.setcontent(st, r, seq(*(list(content(E, st, r).args) + segs)), node, 'write')


def file_meth(E, st, v, name, args, kw, node):
    b = E.getf(st, v, 'binary')
    if name == 'close':
        close_file(E, st, v, node)
        return [(st, NONE)]
    if name in ('write', 'writelines'):
        x = args[0] if args else NONE
        k = kind(E, st, x)
        st.ev('fwrite', v, x, E.where(node), mk('lp', *E.ixs))
        if name == 'write':
            if b is TRUE and k == 'str' or b is FALSE and k == 'bytes' or \
                    k in ('int', 'num', 'none', 'list', 'set', 'dict', 'tuple', 'bool'):
                return terr(E, st, node, 'write() of %s to a %s file' % (
                    k, 'binary' if b is TRUE else 'text'), 'file')
            written(E, st, v, [one(x)], node)
        else:
            sg = val_segs(E, st, x)
            written(E, st, v, sg if sg is not None else [mk('oseg', mk('okey', 'lines', x))], node)
        return [(st, mk('nsum', K('written'), x))]
    if name in ('read', 'readline', 'readlines'):
        st.ev('fread', v, E.where(node))
        src, at = E.getf(st, v, 'path'), E.getf(st, v, 'pos')
        if name == 'readlines':
            ax = mk('oax', mk('okey', 'lines', src, at))
            j = mk('ix', ax, 0)
            body = mk('bytes' if b is TRUE else 'ssy', mk('line', src, n_add(at, j)))
            E.setf(st, v, 'pos', n_add(at, n_len(ax)), node, quiet=True)
            return [(st, new_list(E, st, node, seq(mk('map', ax, j, body))))]
        if name == 'readline' and not args:
            key = mk('line', src, at)
            E.setf(st, v, 'pos', n_add(at, K(1)), node, quiet=True)
        else:
            n = len(st.events)
            key = mk('part_', src, mk('rd', K(n), *E.ixs))
            E.setf(st, v, 'pos', mk('nsum', K('at'), K(n)), node, quiet=True)
        if b is TRUE:
            return [(st, mk('bytes', key))]
        if b is FALSE:
            return [(st, mk('ssy', key))]
        return [(st, mk('ext', 'read', key))]
    if name in ('__enter__',):
        return [(st, v)]
    if name in ('seek', 'tell', 'flush', 'fileno', 'readable', 'writable', 'truncate', 'isatty'):
        return [(st, mk('nsum', K(name), v))]
    return [(st, mk('ext', 'file.' + name, v, *args))]


def literal_eval(E, st, args, kw, node):
    out = []
    for s, yes in E.branch(st, mk('bsym', K('literal'), args[0])):
        if yes:
            out.append((s, mk('ext', 'ast.literal_eval', args[0])))
            continue
        for s2, bad in E.branch(s, mk('bsym', K('unparsable'), args[0])):
            out.append((E.raise_(s2, 'SyntaxError' if bad else 'ValueError', node), None))
    return out


def csv_reader(E, st, args, kw, node):
    src = args[0]
    k = kind(E, st, src)
    if k == 'file':
        b = E.getf(st, src, 'binary')
        if b is TRUE:
            E.report('typeerr', node, 'csv.reader over a file opened in binary mode', 'csv')
            return [(E.raise_(st, 'csv.Error', node), None)]
        E_file_read(E, st, src, node)
        delim = kw.get('delimiter', K(','))
        at = E.getf(st, src, 'pos')
        if set(kw) <= {'delimiter'} and len(args) == 1 and at is not None:
            src = mk('csv', E.getf(st, src, 'path'), at, delim)
    elif k in ('gen', 'list', 'tuple'):
        sg = val_segs(E, st, src) or []
        if sg and all(g.op in ('one', 'map') and kind(E, st, g.args[-1]) == 'bytes' for g in sg):
            E.report('typeerr', node, 'csv.reader over bytes', 'csv')
            return [(E.raise_(st, 'csv.Error', node), None)]
    ax = mk('oax', mk('okey', 'csvrows', src))
    j = E.fresh_ix(ax)
    E.ixs.append(j)
    try:
        ca = mk('oax', mk('okey', 'csvcells', src, j))
        c = mk('ix', ca, 0)
        row = new_list(E, st, node, seq(mk('map', ca, c, mk('cell', src, j, c))))
    finally:
        E.ixs.pop()
    return [(st, E.alloc(st, 'iter', node, content=seq(mk('map', ax, j, row))))]


def file_risk(E, st, f, args, node):
    """an exceptional outcome of any call that may fail while a file is open"""
    open_ = False
    for k, o in st.heap.items():
        if o.kind == 'file' and dict(o.fields).get('closed') is FALSE:
            open_ = True
            break
    if not open_:
        return None
    if f.op == 'bi' and f.args[0] in ('builtins.len', 'builtins.range', 'builtins.isinstance',
                                      'builtins.list', 'builtins.set', 'builtins.zip',
                                      'builtins.enumerate', 'builtins.open', 'codecs.open'):
        return None
    if f.op == 'bmeth' and f.args[1] in ('append', 'strip', 'add', 'close', 'replace', 'join',
                                         'format', '__enter__', 'keys', 'values', 'items',
                                         'extend', 'split'):
        return None
    if f.op in ('fn', 'bm', 'cl'):
        return None                 # explored inside
    return E.raise_(st, 'Exception', node, kind='any')


# ==================================================================== copies
def shallow(E, st, v, node):
    """copy.copy"""
    if v.op != 'R':
        return [(st, v)]
    o = E.obj(st, v)
    k = kind(E, st, v)
    if k == 'inst':
        for s, f in E.getattr_(st, v, '__copy__', node, quiet=True):
            if f is not None and s.sig is None:
                return E.call(s, f, [], {}, node)
        fs = tuple((n, E.getf(st, v, n)) for n, _ in o.fields)
        return [(st, E.alloc(st, 'inst', node, cls=o.cls, fields=fs))]
    if k in ('list', 'set', 'dict', 'deque', 'ndarray'):
        fs = tuple((n, E.getf(st, v, n)) for n, _ in o.fields)
        return [(st, E.alloc(st, k, node, content=content(E, st, v), dtype=o.dtype, fields=fs))]
    return [(st, ext('copy', v))]


def deep(E, st, v, node, memo=None, depth=0):
    """copy.deepcopy -> [(state, value)]"""
    if memo is None:
        memo = {}
    if not any(x.op == 'R' or x.op in ('oseg', 'lv', 'oelt', 'sopq', 'dopq') for x in walk(v)):
        return [(st, v)]
    if v in memo:
        return [(st, memo[v])]
    if depth > 8:
        return [(st, ext('deepcopy', v))]
    if v.op in ('U', 'lv', 'oelt', 'ite', 'sel'):
        vs = E.vals(st, v)
        if not (len(vs) == 1 and vs[0] is v):
            out = []
            for s, w in E.alts(st, v):
                out += deep(E, s, w, node, dict(memo), depth + 1)
            return out
        return [(st, ext('deepcopy', v))]
    if v.op == 'tup':
        cur = [(st, [])]
        for x in v.args:
            cur = [(s2, acc + [y]) for s, acc in cur
                   for s2, y in (deep(E, s, x, node, memo, depth + 1) if s.sig is None else [(s, None)])]
        return [(s, mk('tup', *acc) if s.sig is None else None) for s, acc in cur]
    if v.op != 'R':
        return [(st, ext('deepcopy', v))]
    o = E.obj(st, v)
    k = kind(E, st, v)
    if k == 'inst':
        for s, f in E.getattr_(st, v, '__deepcopy__', node, quiet=True):
            if f is not None and s.sig is None:
                m = E.alloc(s, 'dict', node, content=mk('dct'))
                return E.call(s, f, [m], {}, node)
        r = E.alloc(st, 'inst', node, cls=o.cls)
        memo[v] = r
        cur = [st]
        for n, _ in o.fields:
            nxt = []
            for s in cur:
                for s2, x in (deep(E, s, E.getf(s, v, n), node, memo, depth + 1)
                              if s.sig is None else [(s, None)]):
                    if s2.sig is None:
                        E.setf(s2, r, n, x, node, quiet=True)
                    nxt.append(s2)
            cur = nxt
        return [(s, r if s.sig is None else None) for s in cur]
    if k in ('list', 'deque', 'iter'):
        return [(s, E.alloc(s, k, node, content=q) if s.sig is None else None)
                for s, q in deep_seq(E, st, content(E, st, v), node, memo, depth)]
    if k == 'set':
        c = content(E, st, v)
        if not any(x.op == 'R' for e in E.elem_values(st, c) for x in walk(e)):
            return [(st, new_set(E, st, node, c, o.dtype == 'frozen'))]
        return [(s, new_set(E, s, node, segs_set(q.args), o.dtype == 'frozen') if s.sig is None else None)
                for s, q in deep_seq(E, st, seq(*set_segs(E, st, c)), node, memo, depth)]
    if k == 'dict':
        cur = [(st, [])]
        for e in content(E, st, v).args:
            nxt = []
            for s, acc in cur:
                if s.sig is not None:
                    nxt.append((s, acc))
                elif e.op == 'de':
                    for s1, kk in deep(E, s, e.args[0], node, memo, depth + 1):
                        for s2, vv in deep(E, s1, e.args[1], node, memo, depth + 1):
                            nxt.append((s2, acc + [mk('de', kk, vv)]))
                elif e.op == 'dmap':
                    E.ixs.append(e.args[1])
                    try:
                        for s2, vv in deep(E, s, e.args[3], node, memo, depth + 1)[:1]:
                            nxt.append((s2, acc + [mk('dmap', e.args[0], e.args[1], e.args[2], vv)]))
                    finally:
                        E.ixs.pop()
                else:
                    nxt.append((s, acc + [mk('dopq', mk('okey', 'deep', e))]))
            cur = nxt
        return [(s, E.alloc(s, 'dict', node, content=mk('dct', *acc), dtype=o.dtype, fields=o.fields))
                for s, acc in cur]
    if k == 'ndarray':
        return [(st, new_arr(E, st, node, content(E, st, v) or mk('oarr', mk('okey', 'deep', v)), o.dtype))]
    return [(st, ext('deepcopy', v))]


def deep_seq(E, st, c, node, memo, depth):
    cur = [(st, [])]
    for g in (c.args if c is not None else ()):
        nxt = []
        for s, acc in cur:
            if s.sig is not None:
                nxt.append((s, acc))
            elif g.op == 'one':
                for s2, x in deep(E, s, g.args[0], node, memo, depth + 1):
                    nxt.append((s2, acc + [one(x)] if s2.sig is None else acc))
            elif g.op == 'map':
                E.ixs.append(g.args[1])
                try:
                    rs = deep(E, s, g.args[2], node, memo, depth + 1)
                finally:
                    E.ixs.pop()
                s2, x = rs[0]
                if s2.sig is None:
                    if len(rs) > 1:
                        x = U([y for q, y in rs if q.sig is None])
                    nxt.append((s2, acc + [mk('map', g.args[0], g.args[1], x)]))
                else:
                    nxt.append((s2, acc))
            else:
                cs = []
                s2 = s
                for y in sorted(s.cands.get(g, ()), key=lambda z: z.n)[:6]:
                    rs = deep(E, s2, y, node, memo, depth + 1)
                    s2, x = rs[0]
                    if x is not None:
                        cs.append(x)
                nxt.append((s2, acc + [opaque_seq(s2, mk('okey', 'deep', g), cs)]))
        cur = nxt
    return [(s, seq(*acc)) for s, acc in cur]


# ================================================================== builtins
EXEC = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__',
        'pickle.load', 'pickle.loads', 'cPickle.load', 'cPickle.loads', 'marshal.load',
        'marshal.loads', 'os.system', 'os.popen', 'subprocess.call', 'subprocess.run',
        'subprocess.Popen', 'subprocess.check_output', 'importlib.import_module',
        'yaml.load', 'shelve.open', 'execfile', 'runpy.run_path', 'numpy.load',
        'joblib.load', 'dill.loads', 'dill.load', 'ctypes.CDLL', 'timeit.timeit'}


def multi(E, st, v, f):
    """apply f(state, alternative) for every concrete alternative of v"""
    out = []
    for s, w in E.alts(st, v):
        out += f(s, w)
    return out


def collect(E, st, segs, fn, node):
    """list of fn(element): [(state, list ref)]"""
    r = new_list(E, st, node, SEQ0)
    frame = ('tmp', node.lineno if hasattr(node, 'lineno') else 0,
             getattr(node, 'col_offset', 0), E.curctx())

    def bind(y, val):
        y.vars[(frame, 'e')] = val
        return [y]

    def body(y):
        out = []
        for s, x in fn(y, y.vars[(frame, 'e')]):
            if s.sig is None and x is not None:
                o = E.obj(s, r)
                s.heap[E.oid(r)] = o._replace(content=seq(*(o.content.args + (one(x),))))
            out.append(s)
        return out
    out = []
    for s in E.loop_segs(st, segs, bind, body, node):
        if s.sig == 'exhaust':
            s.sig = None
        s.vars.pop((frame, 'e'), None)
        out.append((s, r if s.sig is None else None))
    return out


def reduce_(E, st, f, segs, init, node):
    frame = ('tmp', 'r', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), E.curctx())
    if init is None:
        if segs and segs[0].op == 'one':
            init = segs[0].args[0]
            segs = segs[1:]
        elif len(segs) == 1 and segs[0].op == 'map':
            init = seq_at(segs, K(0))
            segs = slice_segs(E, st, segs, mk('slice', K(1), NONE, NONE), node)
        else:
            return [(st, ext('reduce', f, *segs))]
    st.vars[(frame, 'acc')] = init

    def bind(y, val):
        y.vars[(frame, 'e')] = val
        return [y]

    def body(y):
        out = []
        for s, x in E.call(y, f, [y.vars[(frame, 'acc')], y.vars[(frame, 'e')]], {}, node):
            if s.sig is None:
                s.vars[(frame, 'acc')] = x
            out.append(s)
        return out
    out = []
    for s in E.loop_segs(st, segs, bind, body, node):
        if s.sig == 'exhaust':
            s.sig = None
        r = s.vars.pop((frame, 'acc'), None)
        s.vars.pop((frame, 'e'), None)
        out.append((s, r if s.sig is None else None))
    return out


def zip_segs(E, st, lists):
    if not lists:
        return []
    if all(len(l) == 1 and l[0].op == 'map' for l in lists) and \
            len(set(l[0].args[0] for l in lists)) == 1:
        ax, i, b = lists[0][0].args
        return [mk('map', ax, i, mk('tup', b, *[alpha(l[0], i) for l in lists[1:]]))]
    if all(all(g.op == 'one' for g in l) for l in lists):
        return [one(mk('tup', *[g.args[0] for g in col])) for col in zip(*lists)]
    # same segment structure
    if len(set(len(l) for l in lists)) == 1:
        out = []
        for col in zip(*lists):
            if all(g.op == 'one' for g in col):
                out.append(one(mk('tup', *[g.args[0] for g in col])))
            elif all(g.op == 'map' for g in col) and len(set(g.args[0] for g in col)) == 1:
                ax, i, b = col[0].args
                out.append(mk('map', ax, i, mk('tup', b, *[alpha(g, i) for g in col[1:]])))
            else:
                out = None
                break
        if out is not None:
            return out
    es = []
    cols = [[e for g in l for e in E.elem_values(st, seq(g))][:2] for l in lists]
    if all(cols):
        es = [mk('tup', *c) for c in zip(*cols)]
    return [opaque_seq(st, mk('okey', 'zip', *[seq(*l) for l in lists]), es)]


def many_segs(E, st, vs, node):
    """iteration segments of several values: [(state, [segs...])]"""
    cur = [(st, [])]
    for v in vs:
        nxt = []
        for s, acc in cur:
            if s.sig is not None:
                nxt.append((s, acc))
                continue
            for s2, segs in iter_segments(E, s, v, node):
                nxt.append((s2, acc + [segs]))
        cur = nxt
    return cur


def length(E, st, v, node):
    k = kind(E, st, v)
    if isk(v) and isinstance(kval(v), (str, bytes)):
        return [(st, K(len(kval(v))))]
    if k == 'set':
        return [(st, s_len(content(E, st, v)))]
    if k in ('list', 'tuple', 'deque', 'gen'):
        if v.op == 'iseq' and False:
            return terr(E, st, node, 'len() of a generator')
        segs = val_segs(E, st, v)
        if segs is not None:
            return [(st, seq_len(segs))]
    if k == 'dict':
        c = content(E, st, v)
        if all(x.op == 'de' and isk(x.args[0]) for x in c.args):
            return [(st, K(len(c.args)))]
        if all(x.op == 'dmap' and t_.injective(x.args[2], x.args[1]) for x in c.args) and len(c.args) == 1:
            return [(st, n_len(c.args[0].args[0]))]
        return [(st, n_len(mk('oax', mk('okey', 'dict', c))))]
    if k == 'ndarray':
        sh = shape(E, st, v, content(E, st, v))
        return [(st, sh[0] if sh else n_len(mk('oax', mk('okey', 'arr', content(E, st, v) or v))))]
    if k == 'inst':
        for s, f in E.getattr_(st, v, '__len__', node, quiet=True):
            if f is not None and s.sig is None:
                return E.call(s, f, [], {}, node)
        o = E.obj(st, v)
        c = E.repo.classes.get(o.cls)
        if c is not None and E.full_known(c):
            return terr(E, st, node, "object of type '%s' has no len()" % c.name)
    if k in ('none', 'int', 'bool', 'num', 'float', 'callable'):
        return terr(E, st, node, 'len() of %s' % k)
    if k == 'str':
        return [(st, n_len(mk('oax', mk('okey', 'chars', v))))]
    return [(st, n_len(mk('oax', mk('okey', 'any', v))))]


TYPES = {'int': 'int', 'num': 'int', 'bool': 'bool', 'list': 'list', 'set': 'set', 'dict': 'dict',
         'str': 'str', 'tuple': 'tuple', 'float': 'float', 'bytes': 'bytes'}


def is_instance(E, st, x, c):
    if c.op == 'tup':
        return b_or(*[is_instance(E, st, x, y) for y in c.args])
    k = kind(E, st, x)
    if k == 'inst':
        o = E.obj(st, x)
        if c.op == 'cl':
            cl = E.repo.classes.get(o.cls)
            if c.args[0] in E.mro_names(o.cls):
                return TRUE
            if cl is not None and E.full_known(cl):
                return FALSE
        if c.op == 'bi' and c.args[0] in ('builtins.list', 'builtins.set', 'builtins.str',
                                          'builtins.int', 'builtins.dict', 'builtins.tuple'):
            return FALSE
        return mk('isinst', x, c)
    if k in TYPES and c.op == 'bi':
        t = c.args[0].split('.')[-1]
        if t in ('object',):
            return TRUE
        if t == 'frozenset' and k == 'set':
            return K(E.obj(st, x).dtype == 'frozen')
        if t in TYPES.values() or t in ('set', 'frozenset', 'float', 'complex'):
            if k == 'set' and t == 'set':
                return K(E.obj(st, x).dtype != 'frozen')
            if k == 'num':
                return TRUE if t == 'int' else FALSE
            return K(TYPES[k] == t or k == 'bool' and t == 'int')
        return mk('isinst', x, c)
    if k is not None and c.op == 'cl':
        return FALSE
    if k == 'none':
        return FALSE
    if k == 'ndarray' and c.op == 'bi':
        return K(c.args[0] in ('numpy.ndarray', 'builtins.object'))
    return mk('isinst', x, c)


def type_of(E, st, v):
    k = kind(E, st, v)
    if k == 'inst':
        return mk('cl', E.obj(st, v).cls)
    if k == 'set':
        return mk('bi', 'builtins.frozenset' if E.obj(st, v).dtype == 'frozen' else 'builtins.set')
    if k in TYPES:
        return mk('bi', 'builtins.' + TYPES[k])
    if k == 'ndarray':
        return mk('bi', 'numpy.ndarray')
    return mk('ext', 'type', v)


def bi_len(E, st, args, kw, node):
    return multi(E, st, args[0], lambda s, w: length(E, s, w, node))


def bi_seqs(name):
    def go(E, st, args, kw, node):
        if not args:
            if name == 'list':
                return [(st, new_list(E, st, node, SEQ0))]
            if name == 'tuple':
                return [(st, mk('tup'))]
            return [(st, new_set(E, st, node, S0, name == 'frozenset'))]
        out = []

        def f(s, w):
            if kind(E, s, w) == 'set' and name in ('set', 'frozenset'):
                return [(s, new_set(E, s, node, content(E, s, w), name == 'frozenset'))]
            res = []
            for s2, segs in iter_segments(E, s, w, node):
                if s2.sig is not None:
                    res.append((s2, None))
                elif name == 'list':
                    res.append((s2, new_list(E, s2, node, seq(*segs))))
                elif name == 'tuple':
                    if all(g.op == 'one' for g in segs):
                        res.append((s2, mk('tup', *[g.args[0] for g in segs])))
                    else:
                        res.append((s2, mk('tseq', seq(*segs))))
                else:
                    bad = None
                    for e in E.elem_values(s2, seq(*segs)):
                        bad = bad or need_hash(E, s2, e, node)
                    if bad:
                        res += bad
                    else:
                        res.append((s2, new_set(E, s2, node, set_from(E, s2, segs), name == 'frozenset')))
            return res
        return multi(E, st, args[0], f)
    return go


def bi_dict(E, st, args, kw, node, dtype=None):
    ents = []
    out = [(st, [])]
    if args:
        out = []

        def f(s, a):
            if kind(E, s, a) == 'dict':
                return [(s, list(content(E, s, a).args))]
            res = []
            for s2, segs in iter_segments(E, s, a, node):
                if s2.sig is not None:
                    res.append((s2, None))
                    continue
                ents = []
                for g in segs:
                    x = g.args[-1] if g.op in ('one', 'map') else None
                    if x is not None and x.op == 'tup' and len(x.args) == 2:
                        ents.append(mk('de', *x.args) if g.op == 'one' else
                                    mk('dmap', g.args[0], g.args[1], x.args[0], x.args[1]))
                    else:
                        d = mk('dopq', mk('okey', 'dict', g))
                        s2.cands[d] = frozenset(
                            mk('de', mk('item', e, K(0)), mk('item', e, K(1))) if e.op != 'tup' else
                            mk('de', *e.args) for e in E.elem_values(s2, seq(g))
                            if e.op != 'tup' or len(e.args) == 2)
                        ents.append(d)
                res.append((s2, ents))
            return res
        out = multi(E, st, args[0], f)
    res = []
    for s, ents in out:
        if s.sig is not None:
            res.append((s, None))
            continue
        ents = ents + [mk('de', K(k), kw[k]) for k in kw if k != '**']
        res.append((s, E.alloc(s, 'dict', node, content=mk('dct', *ents), dtype=dtype)))
    return res


def bi_range(E, st, args, kw, node):
    for a in args:
        k = kind(E, st, a)
        if k in ('none', 'str', 'list', 'set', 'float', 'tuple', 'dict') or a.op == '/':
            return terr(E, st, node, 'range() over %s' % k)
    if len(args) == 1:
        a, b, c = K(0), args[0], K(1)
    else:
        a, b = args[0], args[1]
        c = args[2] if len(args) > 2 else K(1)
    if all(isk(x) for x in (a, b, c)) and kval(c) and \
            len(range(kval(a), kval(b), kval(c))) <= 6:
        return [(st, mk('tseq', seq(*[one(K(x)) for x in range(kval(a), kval(b), kval(c))])))]
    if c is K(1) and a is K(0) and b.op == '+' and len(b.args) == 2 and b.args[0].op == 'len' and \
            own_pos(b.args[0].args[0]) and isk(b.args[1]) and type(kval(b.args[1])) is int and \
            0 < kval(b.args[1]) <= 2:
        # the positions of a list and of what was appended to it
        ax = b.args[0].args[0]
        j = mk('ix', ax, 0)
        if E.isfact(st, n_eq(b.args[0], K(0))) is True:
            return [(st, mk('tseq', seq(*[one(K(k)) for k in range(kval(b.args[1]))])))]
        return [(st, mk('tseq', seq(mk('map', ax, j, j), *[
            one(n_add(b.args[0], K(k)) if k else b.args[0]) for k in range(kval(b.args[1]))])))]
    if c is K(1) and a is K(0) and b.op == 'count' and b.args[0].op == 'ax':
        # the positions of a list of which elements were left out
        ax = mk('filt', *b.args)
        j = mk('ix', ax, 0)
        return [(st, mk('tseq', seq(mk('map', ax, j, mk('pos', ax, j)))))]
    if c is K(1) and a is K(0):
        ax = axis_of_len(b)
        j = mk('ix', ax, 0)
        return [(st, mk('tseq', seq(mk('map', ax, j, j))))]
    if c is K(1):
        base = axis_of_len(b)
        if a is K(1) and base.op != 'range':
            ax = mk('rest', base)
            j = mk('ix', ax, 0)
            return [(st, mk('tseq', seq(mk('map', ax, j, pos(base, j) if own_pos(base) else mk('pos', base, j)))))]
        ax = mk('range', n_sub(b, a))
        j = mk('ix', ax, 0)
        return [(st, mk('tseq', seq(mk('map', ax, j, n_add(a, j)))))]
    if c is K(-1):
        n = n_sub(a, b)
        ax = axis_of_len(n)
        if b is K(-1):
            r = mk('revax', ax)
            j = mk('ix', r, 0)
            return [(st, mk('tseq', seq(mk('map', r, j, j))))]
        j = mk('ix', ax, 0)
        return [(st, mk('tseq', seq(mk('map', ax, j, n_sub(a, j)))))]
    ax = mk('oax', mk('okey', 'range', a, b, c))
    j = mk('ix', ax, 0)
    return [(st, mk('tseq', seq(mk('map', ax, j, mk('+', a, mk('*', c, j)) if False else n_add(a, n_mul(c, j))))))]


def bi_sorted(E, st, args, kw, node):
    if len(args) > 1:
        return terr(E, st, node, 'sorted() takes 1 positional argument', 'arity')
    out = []

    def f(s, w):
        res = []
        for s2, segs in iter_segments(E, s, w, node):
            if s2.sig is not None:
                res.append((s2, None))
                continue
            for s3, q in sort_segs(E, s2, segs, kw.get('key', NONE), node, kw.get('reverse')):
                res.append((s3, new_list(E, s3, node, q) if s3.sig is None else None))
        return res
    return multi(E, st, args[0], f)


def with_segs(fn):
    def go(E, st, args, kw, node):
        def f(s, w):
            res = []
            for s2, segs in iter_segments(E, s, w, node):
                if s2.sig is not None:
                    res.append((s2, None))
                else:
                    res += fn(E, s2, segs, args, kw, node)
            return res
        return multi(E, st, args[0], f)
    return go


def enum_segs(E, st, segs, args, kw, node):
    start = args[1] if len(args) > 1 else kw.get('start', K(0))
    out = []
    n = start
    for g in segs:
        if g.op == 'one':
            out.append(one(mk('tup', n, g.args[0])))
            n = n_add(n, K(1))
        elif g.op == 'map':
            ax, i, b = g.args
            out.append(mk('map', ax, i, mk('tup', n_add(n, pos(ax, i)), b)))
            n = n_add(n, n_len(ax))
        else:
            ax = mk('oax', g)
            j = mk('ix', ax, 0)
            e = mk('oelt', g, j)
            if g in st.cands:
                st.cands[e] = st.cands[g]
            out.append(mk('map', ax, j, mk('tup', n_add(n, j), e)))
            n = n_add(n, n_len(ax))
    return [(st, mk('iseq', seq(*out)))]


def quant(which):
    def fn(E, st, segs, args, kw, node):
        cur = [(st, [])]
        for g in segs:
            nxt = []
            for s, acc in cur:
                if s.sig is not None:
                    nxt.append((s, acc))
                    continue
                if g.op == 'one':
                    for s2, t in E.truth(s, g.args[0], node):
                        nxt.append((s2, acc + [t]))
                elif g.op == 'map':
                    b = g.args[2]
                    rs = E.truth(s, b, node)
                    if len(rs) == 1 and rs[0][0].sig is None:
                        q = b_exists if which == 'any' else b_forall
                        nxt.append((rs[0][0], acc + [q(g.args[0], g.args[1], rs[0][1])]))
                    else:
                        nxt.append((s, acc + [mk('truthy', mk('okey', which, g))]))
                else:
                    nxt.append((s, acc + [mk('truthy', mk('okey', which, g))]))
            cur = nxt
        return [(s, None if s.sig is not None else
                 (b_or(*acc) if which == 'any' else b_and(*acc))) for s, acc in cur]
    return with_segs(fn)


def bi_sum(E, st, args, kw, node):
    def fn(E, s, segs, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get('start', K(0))
        if any(x.op == 'R' and kind(E, s, x) in ('list', 'ndarray', 'inst')
               for x in E.elem_values(s, seq(*segs))):
            return reduce_(E, s, mk('bi', 'operator.add'), segs, start, node)
        n = count_of(seq(*segs)) if all(g.op in ('one', 'map') for g in segs) else mk('nsum', *segs)
        return [(s, n_add(start, n) if is_num(start) or isk(start) else ext('sum', start, n))]
    return with_segs(fn)(E, st, args, kw, node)


def extremum(which):
    def go(E, st, args, kw, node):
        key = kw.get('key', NONE)
        if len(args) > 1:
            if all(isk(a) for a in args):
                return [(st, K((max if which == 'max' else min)(kval(a) for a in args)))]
            c = (n_lt(args[0], args[1]) if which == 'max' else n_lt(args[1], args[0]))
            if key is NONE and len(args) == 2:
                return [(st, v_ite(c, args[1], args[0]))]
            return [(st, ext(which, *args))]

        def fn(E, s, segs, args, kw, node):
            s.ev('pick', seq(*segs), key, E.where(node), K(which))
            es = E.elem_values(s, seq(*segs))
            if len(segs) == 1 and segs[0].op == 'one':
                return [(s, segs[0].args[0])]
            out = []
            z = n_eq(seq_len(segs), K(0))
            if z is TRUE:
                return [(E.raise_(s, 'ValueError', node), None)]
            if z is not FALSE and 'default' not in kw and E.catching('ValueError') and \
                    E.isfact(s, z) is None:
                s2 = s.copy()
                if E.assume(s2, z):
                    out.append((E.raise_(s2, 'ValueError', node), None))
            if key is not NONE:
                for e in es[:2]:
                    for s2, kv in E.call(s.copy(), key, [e], {}, node)[:2]:
                        if s2.sig is None:
                            s.ev('sortkey', kv, E.where(node))
            t = mk('oelt', mk('okey', which, frozen_view(E, s, key) if key.op == 'R' else key, *segs), K(0))
            if es:
                s.cands[t] = frozenset(es)
            if es and all(is_num(e) for e in es):
                t = mk('nsum', K(which), *segs)
            return out + [(s, t)]
        return with_segs(fn)(E, st, args, kw, node)
    return go


def bi_map(E, st, args, kw, node):
    fn = args[0]
    out = []
    for s, lists in many_segs(E, st, args[1:], node):
        if s.sig is not None:
            out.append((s, None))
            continue
        segs = lists[0] if len(lists) == 1 else zip_segs(E, s, lists)

        def f(y, e, n=len(lists)):
            if n == 1:
                a = [e]
            elif e.op == 'tup':
                a = list(e.args)
            else:
                a = [mk('item', e, K(i)) for i in range(n)]
            return E.call(y, fn, a, {}, node)
        for s2, r in collect(E, s, segs, f, node):
            out.append((s2, mk('iseq', content(E, s2, r)) if s2.sig is None else None))
    return out


def bi_filter(E, st, args, kw, node):
    fn = args[0]
    out = []
    for s, segs in iter_segments(E, st, args[1], node):
        if s.sig is not None:
            out.append((s, None))
            continue

        def f(y, e):
            res = []
            rs = E.call(y, fn, [e], {}, node) if fn is not NONE else [(y, e)]
            for s1, v in rs:
                if s1.sig is not None:
                    res.append((s1, None))
                    continue
                for s2, t in E.truth(s1, v, node):
                    if s2.sig is not None:
                        res.append((s2, None))
                        continue
                    for s3, b in E.branch(s2, t):
                        res.append((s3, e if b else None))
            return res
        for s2, r in collect(E, s, segs, f, node):
            out.append((s2, mk('iseq', content(E, s2, r)) if s2.sig is None else None))
    return out


def bi_zip(E, st, args, kw, node):
    if len(args) == 1 and args[0].op == 'star':
        q = args[0].args[0]
        segs = list(q.args)
        if segs and all(g.op == 'one' for g in segs):
            return bi_zip(E, st, [g.args[0] for g in segs], kw, node)
        c = []
        for g in segs:
            x = g.args[-1] if g.op in ('one', 'map') else None
            sg = val_segs(E, st, x) if x is not None else None
            if sg is None:
                c = None
                break
            y = mk('row', seq(*sg))
            c.append(one(y) if g.op == 'one' else mk('map', g.args[0], g.args[1], y))
        t = transpose(seq(*c)) if c else None
        if t is not None:
            g = t.args[0]
            return [(st, mk('iseq', seq(mk('map', g.args[0], g.args[1], mk('tseq', g.args[2].args[0])))))]
        return [(st, mk('iseq', seq(mk('oseg', mk('okey', 'zipstar', *segs)))))]
    return [(s, mk('iseq', seq(*zip_segs(E, s, lists))) if s.sig is None else None)
            for s, lists in many_segs(E, st, args, node)]


def product(E, st, args, kw, node):
    out = []
    if 'repeat' in kw and isk(kw['repeat']) and kval(kw['repeat']) <= 3:
        args = args * kval(kw['repeat'])
    for s, lists in many_segs(E, st, args, node):
        if s.sig is not None:
            out.append((s, None))
            continue
        if len(lists) == 2 and all(len(l) == 1 and l[0].op == 'map' for l in lists):
            (a, i, x), (b, j, y) = lists[0][0].args, lists[1][0].args
            fa = mk('flatax', mk('map', a, i, b))
            k = mk('ix', fa, 0)
            out.append((s, mk('iseq', seq(mk('map', fa, k, mk(
                'tup', subst(x, {i: mk('firstof', k)}), subst(y, {j: mk('second', k)})))))))
            continue
        if all(all(g.op == 'one' for g in l) for l in lists):
            import itertools
            combos = list(itertools.product(*[[g.args[0] for g in l] for l in lists]))
            if len(combos) <= 16:
                out.append((s, mk('iseq', seq(*[one(mk('tup', *c)) for c in combos]))))
                continue
        cols = [[e for g in l for e in E.elem_values(s, seq(g))][:1] for l in lists]
        es = [mk('tup', *[c[0] for c in cols])] if all(cols) else []
        out.append((s, mk('iseq', seq(opaque_seq(s, mk('okey', 'product', *[seq(*l) for l in lists]), es)))))
    return out


def combos(name):
    def fn(E, st, segs, args, kw, node):
        es = E.elem_values(st, seq(*segs))[:1]
        n = args[1] if len(args) > 1 else NONE
        cs = [mk('tup', *(es * kval(n)))] if es and isk(n) and isinstance(kval(n), int) and kval(n) < 5 else []
        return [(st, mk('iseq', seq(opaque_seq(st, mk('okey', name, n, *segs), cs))))]
    return with_segs(fn)


def chain(E, st, args, kw, node):
    return [(s, mk('iseq', seq(*[g for l in lists for g in l])) if s.sig is None else None)
            for s, lists in many_segs(E, st, args, node)]


def bi_next(E, st, args, kw, node):
    v = args[0]

    def f(s, w):
        k = kind(E, s, w)
        if k in ('iter', 'list') or w.op == 'iseq':
            segs = list(content(E, s, w).args) if k in ('iter', 'list') and w.op == 'R' else list(w.args[0].args)
            out = []
            if len(args) > 1:
                z = n_eq(seq_len(segs), K(0))
                out2 = []
                for s2, b in E.branch(s, z):
                    if b:
                        out2.append((s2, args[1]))
                    else:
                        out2.append((s2, elem_any(E, s2, segs, K(0), node)))
                        if w.op == 'R':
                            E.setcontent(s2, w, seq(*drop_first(E, s2, segs)), node, None)
                return out2
            if E.catching('StopIteration'):
                z = n_eq(seq_len(segs), K(0))
                if E.isfact(s, z) is not False and z is not FALSE:
                    s2 = s.copy()
                    if E.assume(s2, z):
                        out.append((E.raise_(s2, 'StopIteration', node), None))
            if not segs:
                return out or [(E.raise_(s, 'StopIteration', node), None)]
            x = elem_any(E, s, segs, K(0), node)
            if w.op == 'R':
                E.setcontent(s, w, seq(*drop_first(E, s, segs)), node, None)
            return out + [(s, x)]
        if k == 'file':
            return file_meth(E, s, w, 'readline', [], {}, node)
        if k == 'inst':
            for s2, m in E.getattr_(s, w, '__next__', node, quiet=True):
                if m is not None and s2.sig is None:
                    return E.call(s2, m, [], {}, node)
        return [(s, ext('next', w))]
    return multi(E, st, v, f)


def drop_first(E, st, segs):
    if segs[0].op == 'one':
        return segs[1:]
    r = slice_segs(E, st, segs, mk('slice', K(1), NONE, NONE), None) if len(segs) == 1 and \
        segs[0].op == 'map' else None
    if r is None:
        r = [opaque_seq(st, mk('okey', 'drop', *segs), E.elem_values(st, seq(*segs)))]
    return r


def bi_iter(E, st, args, kw, node):
    def f(s, w):
        out = []
        for s2, segs in iter_segments(E, s, w, node):
            out.append((s2, E.alloc(s2, 'iter', node, content=seq(*segs)) if s2.sig is None else None))
        return out
    return multi(E, st, args[0], f)


def bi_hash(E, st, args, kw, node):
    v = args[0]
    if kind(E, st, v) == 'inst':
        for s, f in E.getattr_(st, v, '__hash__', node, quiet=True):
            if f is not None and s.sig is None and f.op != 'bmeth':
                return E.call(s, f, [], {}, node)
    bad = need_hash(E, st, v, node)
    if bad:
        return bad
    return [(st, mk('nsum', K('hash'), frozen_view(E, st, v)))]


def bi_getattr(E, st, args, kw, node):
    if isk(args[1]) and isinstance(kval(args[1]), str):
        if len(args) > 2:
            out = []
            for s, x in E.getattr_(st, args[0], kval(args[1]), node, quiet=True):
                out.append((s, x if x is not None or s.sig is not None else args[2]))
            return out
        return E.getattr_(st, args[0], kval(args[1]), node)
    return [(st, ext('getattr', *args))]


def bi_hasattr(E, st, args, kw, node):
    if isk(args[1]) and isinstance(kval(args[1]), str):
        n = kval(args[1])
        out = []
        for w in E.vals(st, args[0]):
            k = kind(E, st, w)
            if k == 'inst':
                c = E.repo.classes.get(E.obj(st, w).cls)
                if E.hasf(st, w, n) or c is not None and E.class_lookup(c, n) is not None:
                    out.append(TRUE)
                elif c is not None and E.full_known(c):
                    out.append(FALSE)
                else:
                    out.append(mk('Q', K('hasattr'), w, K(n)))
            elif k in PYT:
                out.append(K(hasattr(PYT[k], n)))
            else:
                out.append(mk('Q', K('hasattr'), w, K(n)))
        if len(set(out)) == 1:
            return [(st, out[0])]
        return [(st, mk('Q', K('hasattr'), args[0], K(n)))]
    return [(st, mk('Q', K('hasattr'), *args))]


def bi_int(E, st, args, kw, node):
    if not args:
        return [(st, K(0))]
    v = args[0]
    k = kind(E, st, v)
    if isk(v):
        try:
            return [(st, K(int(kval(v))))]
        except (TypeError, ValueError) as e:
            return [(E.raise_(st, type(e).__name__, node), None)]
    if k in ('num', 'bool', 'int'):
        if is_bool(v):
            return [(st, t_.b2n(v))]
        return [(st, v)]
    if k in ('list', 'set', 'dict', 'tuple', 'none'):
        return terr(E, st, node, 'int() argument must not be %s' % k)
    r = mk('int', v)
    if E.catching('ValueError') and k in ('str', None):
        return [(E.raise_(st, 'ValueError', node), None), (st, r)]
    return [(st, r)]


def bi_float(E, st, args, kw, node):
    v = args[0] if args else K(0)
    if isk(v):
        try:
            return [(st, K(float(kval(v))))]
        except (TypeError, ValueError) as e:
            return [(E.raise_(st, type(e).__name__, node), None)]
    if kind(E, st, v) in ('num', 'int', 'bool'):
        return [(st, v if not is_bool(v) else t_.b2n(v))]
    return [(st, mk('float', v))]


def bi_str(E, st, args, kw, node):
    if not args:
        return [(st, K(''))]
    if len(args) > 1 or kw:
        k = kind(E, st, args[0])
        if k == 'str':
            return terr(E, st, node, 'decoding str is not supported')
        return [(st, mk('ssy', mk('decode', args[0])))]
    return to_str(E, st, args[0], node)


def bi_print(E, st, args, kw, node):
    cur = [(st, [])]
    for a in args:
        nxt = []
        for s, acc in cur:
            if s.sig is not None:
                nxt.append((s, acc))
            elif a.op == 'star':
                nxt.append((s, acc + [None]))
            else:
                nxt += [(s2, acc + [r]) for s2, r in to_str(E, s, a, node)]
        cur = nxt
    f = kw.get('file')
    if f is not None and f.op == 'R' and kind(E, st, f) == 'file':
        sep, end = kw.get('sep', K(' ')), kw.get('end', K('\n'))
        for s, acc in cur:
            if s.sig is not None:
                continue
            t = [mk('oseg', mk('okey', 'print'))]
            if None not in acc:
                t = []
                for i, x in enumerate(acc):
                    t += ([one(sep)] if i else []) + [one(x)]
                t.append(one(end))
            s.ev('fwrite', f, mk('str', mk('okey', 'print')), E.where(node), mk('lp', *E.ixs))
            written(E, s, f, t, node)
    return [(s, NONE if s.sig is None else None) for s, _ in cur]


def bi_bool(E, st, args, kw, node):
    if not args:
        return [(st, FALSE)]
    return E.truth(st, args[0], node)


def bi_setattr(E, st, args, kw, node):
    if isk(args[1]):
        return [(s, NONE) for s in E.set_attr(st, args[0], kval(args[1]), args[2], node)]
    return [(st, NONE)]


def counter(E, st, args, kw, node):
    if not args:
        return [(st, E.alloc(st, 'dict', node, content=mk('dct'), dtype='counter'))]

    def fn(E, s, segs, args, kw, node):
        ents = []
        for g in segs:
            if g.op == 'map':
                ents.append(mk('dopq', mk('okey', 'counter', g)))
                s.cands[ents[-1]] = frozenset([mk('de', g.args[2], mk('nsum', K('cnt'), g))])
            else:
                ents.append(mk('dopq', mk('okey', 'counter', g)))
                s.cands[ents[-1]] = frozenset(mk('de', e, mk('nsum', K('cnt'), g))
                                              for e in E.elem_values(s, seq(g)))
        return [(s, E.alloc(s, 'dict', node, content=mk('dct', *ents), dtype='counter'))]
    return with_segs(fn)(E, st, args, kw, node)


def np_zeros(val):
    def go(E, st, args, kw, node):
        sh = args[0]
        dt = kw.get('dtype', args[1] if len(args) > 1 else NONE)
        isb = dt in (mk('bi', 'builtins.bool'), mk('bi', 'numpy.bool_'), K('bool'))
        x = K(bool(val)) if isb else K(val)
        ds = list(sh.args) if sh.op == 'tup' else [g.args[0] for g in val_segs(E, st, sh)] \
            if kind(E, st, sh) == 'list' and all(g.op == 'one' for g in val_segs(E, st, sh)) else [sh]
        axs = [axis_of_len(d) for d in ds]
        dts = 'bool' if isb else None
        if len(axs) == 1:
            return [(st, new_arr(E, st, node, seq(mk('map', axs[0], mk('ix', axs[0], 0), x)), dts))]
        if len(axs) == 2:
            i, j = mk('ix', axs[0], 0), mk('ix', axs[1], 0)
            if axs[0] is axs[1]:
                j = mk('ix', axs[1], 1)
            return [(st, new_arr(E, st, node, seq(mk('map', axs[0], i, mk('row', seq(
                mk('map', axs[1], j, x))))), dts))]
        return [(st, new_arr(E, st, node, mk('oarr', mk('okey', 'zeros', sh)), dts))]
    return go


def np_anyall(which):
    def go(E, st, args, kw, node):
        v = args[0]
        if kind(E, st, v) != 'ndarray':
            c = to_arr_content(E, st, v, node)
            v = new_arr(E, st, node, c)
        return arr_meth(E, st, v, which, args[1:], kw, node)
    return go


def np_logical(op):
    def go(E, st, args, kw, node):
        if op == 'not':
            return invert(E, st, args[0], node)
        return E.binop(st, op, args[0], args[1], node)
    return go


def bi_type(E, st, args, kw, node):
    return multi(E, st, args[0], lambda s, w: [(s, type_of(E, s, w))])


def b_eval(E, st, args, kw, node):
    st.ev('eval', args[0] if args else NONE, E.where(node))
    return [(st, ext('eval', *args))]


BI = {
    'builtins.len': bi_len, 'builtins.list': bi_seqs('list'), 'builtins.tuple': bi_seqs('tuple'),
    'builtins.set': bi_seqs('set'), 'builtins.frozenset': bi_seqs('frozenset'),
    'builtins.dict': bi_dict, 'builtins.range': bi_range, 'builtins.sorted': bi_sorted,
    'builtins.enumerate': with_segs(enum_segs), 'builtins.any': quant('any'),
    'builtins.all': quant('all'), 'builtins.sum': bi_sum, 'builtins.max': extremum('max'),
    'builtins.min': extremum('min'), 'builtins.map': bi_map, 'builtins.filter': bi_filter,
    'builtins.zip': bi_zip, 'builtins.next': bi_next, 'builtins.iter': bi_iter,
    'builtins.hash': bi_hash, 'builtins.getattr': bi_getattr, 'builtins.hasattr': bi_hasattr,
    'builtins.setattr': bi_setattr, 'builtins.int': bi_int, 'builtins.float': bi_float,
    'builtins.str': bi_str, 'builtins.print': bi_print, 'builtins.bool': bi_bool,
    'builtins.type': bi_type,
    'builtins.repr': lambda E, st, a, kw, n: to_str(E, st, a[0], n, '__repr__'),
    'builtins.reversed': with_segs(lambda E, s, sg, a, kw, n: [(s, mk('iseq', seq(*rev_segs(E, s, sg))))]),
    'builtins.isinstance': lambda E, st, a, kw, n: [(st, is_instance(E, st, a[0], a[1]))],
    'builtins.input': lambda E, st, a, kw, n: [(st, mk('ssy', mk('input', key_of(n, E, *E.ixs))))],
    'builtins.abs': lambda E, st, a, kw, n: [(st, mk('nsum', K('abs'), a[0]))],
    'builtins.open': lambda E, st, a, kw, n: open_file(E, st, a, kw, n),
    'io.open': lambda E, st, a, kw, n: open_file(E, st, a, kw, n),
    'codecs.open': lambda E, st, a, kw, n: open_file(E, st, a, kw, n, True),
    'csv.reader': csv_reader,
    'copy.copy': lambda E, st, a, kw, n: multi(E, st, a[0], lambda s, w: shallow(E, s, w, n)),
    'copy.deepcopy': lambda E, st, a, kw, n: deep(E, st, a[0], n),
    'functools.reduce': lambda E, st, a, kw, n: [
        x for s, sg in iter_segments(E, st, a[1], n)
        for x in (reduce_(E, s, a[0], sg, a[2] if len(a) > 2 else None, n)
                  if s.sig is None else [(s, None)])],
    'itertools.product': product, 'itertools.combinations': combos('comb'),
    'itertools.permutations': combos('perm'), 'itertools.chain': chain,
    'collections.Counter': counter, 'collections.OrderedDict': bi_dict,
    'collections.deque': bi_seqs('list'),
    'numpy.array': np_array, 'numpy.asarray': np_array, 'numpy.matrix': np_matrix, 'numpy.mat': np_matrix,
    'numpy.delete': np_delete,
    'numpy.vstack': lambda E, st, a, kw, n: np_stack(E, st, a, kw, n, 'rows'),
    'numpy.row_stack': lambda E, st, a, kw, n: np_stack(E, st, a, kw, n, 'rows'),
    'numpy.column_stack': lambda E, st, a, kw, n: np_stack(E, st, a, kw, n, 'cols'),
    'numpy.hstack': lambda E, st, a, kw, n: np_stack(E, st, a, kw, n, 'cols'),
    'numpy.zeros': np_zeros(0), 'numpy.ones': np_zeros(1),
    'numpy.any': np_anyall('any'), 'numpy.all': np_anyall('all'),
    'numpy.logical_and': np_logical('BitAnd'), 'numpy.logical_or': np_logical('BitOr'),
    'numpy.logical_not': np_logical('not'), 'numpy.sum': np_anyall('sum'),
    'numpy.copy': lambda E, st, a, kw, n: np_array(E, st, a[:1], {}, n),
    'numpy.transpose': lambda E, st, a, kw, n: E.getattr_(st, a[0], 'T', n),
    'numpy.nonzero': lambda E, st, a, kw, n: nonzero(E, st, a[0], content(E, st, a[0]) if a[0].op == 'R' else None, n),
    'numpy.where': lambda E, st, a, kw, n: nonzero(E, st, a[0], content(E, st, a[0]) if a[0].op == 'R' else None, n)
    if len(a) == 1 else [(st, ext('where', *a))],
    'operator.add': lambda E, st, a, kw, n: E.binop(st, 'Add', a[0], a[1], n),
    'operator.and_': lambda E, st, a, kw, n: E.binop(st, 'BitAnd', a[0], a[1], n),
    'operator.or_': lambda E, st, a, kw, n: E.binop(st, 'BitOr', a[0], a[1], n),
    'ast.literal_eval': literal_eval,
    'builtins.callable': lambda E, st, a, kw, n: [(st, TRUE if kind(E, st, a[0]) == 'callable' else mk('Q', K('callable'), a[0]))],
    'builtins.id': lambda E, st, a, kw, n: [(st, mk('nsum', K('id'), a[0]))],
}
UNARY = {'builtins.len', 'builtins.any', 'builtins.all', 'builtins.iter', 'builtins.reversed',
         'builtins.hash', 'builtins.abs', 'builtins.repr'}


def defaultdict(E, st, args, kw, node):
    fac = args[0] if args else NONE
    return [(st, E.alloc(st, 'dict', node, content=mk('dct'), dtype='defaultdict',
                         fields=(('<factory>', fac),) if fac is not NONE else ()))]


BI['collections.defaultdict'] = defaultdict


READS = ('csv.reader', 'builtins.print', 'builtins.iter', 'builtins.next', 'builtins.isinstance',
         'builtins.enumerate', 'builtins.list', 'builtins.zip', 'builtins.map', 'builtins.type', 'builtins.id')


def call(E, st, f, args, kw, node):
    if not (f.op == 'bi' and f.args[0] in READS):
        for a in list(args) + list(kw.values()):
            if a.op == 'R' and kind(E, st, a) == 'file':
                # may write anything to it
                written(E, st, a, [mk('oseg', mk('okey', 'by', f))], node)
    if f.op == 'bi':
        n = f.args[0]
        if n in EXEC:
            return b_eval_named(E, st, n, args, node)
        if n in UNARY and len(args) != 1 and not any(a.op == 'star' for a in args):
            return terr(E, st, node, '%s() takes exactly one argument (%d given)' % (
                n.split('.')[-1], len(args)), 'arity')
        if any(a.op == 'star' for a in args) and n not in ('builtins.zip', 'builtins.print'):
            return [(st, ext(n, *args))]
        g = BI.get(n)
        if g is not None:
            try:
                return g(E, st, args, kw, node)
            except IndexError:
                return [(st, ext(n, *args))]
        if n.startswith('builtins.'):
            b = getattr(builtins, n[9:], None)
            if isinstance(b, type) and issubclass(b, BaseException):
                r = E.alloc(st, 'inst', node, cls=n[9:])
                E.setf(st, r, 'args', mk('tup', *args), node, quiet=True)
                return [(st, r)]
        st.ev('xcall', n, E.where(node), *args)
        if n.startswith('random.') or n.startswith('numpy.random'):
            return [(st, mk('float', ext(n, key_of(node, E, *E.ixs))))]
        if n.startswith('math.') or n in ('numpy.exp', 'numpy.log'):
            return [(st, mk('nsum', K(n), *args))]
        return [(st, ext(n, *args))]
    if f.op == 'bmeth':
        v, name = f.args
        k = kind(E, st, v)
        r = None
        if any(a.op == 'star' for a in args) and k != 'str':
            args = [mk('opq', a) if a.op == 'star' else a for a in args]
        if v.op == 'R':
            if k in ('list', 'deque', 'iter'):
                r = list_meth(E, st, v, name, args, kw, node)
            elif k == 'set':
                r = set_meth(E, st, v, name, args, kw, node)
            elif k == 'dict':
                r = dict_meth(E, st, v, name, args, kw, node)
            elif k == 'ndarray':
                r = arr_meth(E, st, v, name, args, kw, node)
            elif k == 'file':
                r = file_meth(E, st, v, name, args, kw, node)
            elif k == 'inst':
                r = inst_meth(E, st, v, name, args, kw, node)
        elif k == 'str':
            r = str_meth(E, st, v, name, args, kw, node)
        elif k == 'bytes':
            r = str_meth(E, st, v, name, args, kw, node, True)
        elif k == 'tuple' and name in ('index', 'count'):
            r = list_meth(E, st, v, name, args, kw, node) if v.op == 'R' else None
            sg = val_segs(E, st, v)
            if sg is not None and name == 'index':
                r = list_index(E, st, v, sg, args[0], node)
        if r is None:
            r = [(st, ext('meth.' + name, v, *args))]
        return r
    if f.op == 'cl' or f.op == 'md':
        return [(st, ext('call', f, *args))]
    if f.op == 'k' or f.op in ('tup', 'str', 'strcat') or is_bool(f):
        return terr(E, st, node, 'object is not callable', 'call')
    if f.op == 'R' and kind(E, st, f) in ('list', 'set', 'dict', 'ndarray', 'file'):
        return terr(E, st, node, "'%s' object is not callable" % kind(E, st, f), 'call')
    st.ev('xcall', f, E.where(node), *args)
    if f.op == 'attr' and f.args[0].op == 'bi':
        return [(st, ext(f.args[0].args[0] + '.' + f.args[1], *args))]
    return [(st, mk('ext', 'call', f, *args, *[kw[k] for k in sorted(kw)]))]


def b_eval_named(E, st, n, args, node):
    st.ev('eval', K(n), E.where(node), *args)
    return [(st, ext(n, *args))]


def inst_meth(E, st, v, name, args, kw, node):
    """methods of object"""
    if name == '__init__':
        return [(st, NONE)]
    if name in ('__repr__', '__str__', '__format__'):
        return [(st, mk('fmt', K('object'), v))]
    if name == '__hash__':
        return [(st, mk('nsum', K('id'), v))]
    if name in ('__eq__', '__ne__'):
        r = is_same(E, st, v, args[0])
        return [(st, r if name == '__eq__' else b_not(r))]
    if name == '__setattr__' and len(args) == 2 and isk(args[0]):
        E.setf(st, v, kval(args[0]), args[1], node)
        return [(st, NONE)]
    return [(st, ext('meth.' + name, v, *args))]
