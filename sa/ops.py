"""Operators: equality, ordering, membership, arithmetic, truth and string
conversion over abstract values."""
from . import terms as t_
from . import models as m_
from .terms import (T, mk, K, NONE, TRUE, FALSE, isk, kval, U, members, subst, free, walk,
                    b_not, b_and, b_or, b_forall, b_exists, n_eq, n_lt, n_le, n_len, n_add,
                    n_sub, n_mul, n_neg, is_num, is_bool, s_comp, s_union, s_inter, s_diff,
                    s_mem, s_sub, s_eq, s_empty, s_len, v_ite, own_pos, S0)
from .models import (kind, content, new_list, new_set, new_arr, seq, one, seq_len, seq_at,
                     set_segs, segs_set, set_from, tbool, alpha, is2d, opaque_seq, ext,
                     val_segs, iter_segments, pos, at, SEQ0, key_of)

SCALAR = ('int', 'float', 'bool', 'num')


def val_eq(E, st, a, b):
    """a == b as a boolean term (no user-defined comparison)"""
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return K(kval(a) == kval(b))
    if a.op in ('bi', 'cl') and b.op in ('bi', 'cl') and not free(a) and not free(b):
        return FALSE
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        return b_and(*[val_eq(E, st, x, y) for x, y in zip(a.args, b.args)])
    ka, kb = kind(E, st, a), kind(E, st, b)
    if ka == 'set' and kb == 'set':
        return s_eq(content(E, st, a), content(E, st, b))
    if ka is not None and kb is not None and ka != kb:
        num = SCALAR
        if not (ka in num and kb in num) and 'inst' not in (ka, kb) and \
                'ndarray' not in (ka, kb) and not ({ka, kb} <= {'list', 'deque'}):
            return FALSE
        if 'none' in (ka, kb):
            return FALSE
    if ka == kb and ka in ('list', 'tuple', 'ndarray'):
        r = seq_eq(E, st, val_segs(E, st, a), val_segs(E, st, b))
        if r is not None:
            return r
    if is_bool(a) and is_bool(b):
        return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
    if a is TRUE or a is FALSE:
        a, b = b, a
    if (b is TRUE or b is FALSE) and a.op in ('ite',):
        return tbool(a) if b is TRUE else b_not(tbool(a))
    if is_bool(a) and isk(b) and kval(b) in (0, 1) and b.args[0] in ('int', 'bool'):
        return a if kval(b) else b_not(a)
    if is_bool(b) and isk(a) and kval(a) in (0, 1) and a.args[0] in ('int', 'bool'):
        return b if kval(a) else b_not(b)
    if a.op == 'ite' and not any(x.op == 'R' for x in walk(a)):
        return v_ite(a.args[0], val_eq(E, st, a.args[1], b), val_eq(E, st, a.args[2], b))
    if b.op == 'ite' and not any(x.op == 'R' for x in walk(b)):
        return v_ite(b.args[0], val_eq(E, st, a, b.args[1]), val_eq(E, st, a, b.args[2]))
    if a.op == 'R' and b.op == 'R' and ka == kb == 'inst':
        return mk('eq', a, b) if a.n < b.n else mk('eq', b, a)
    ca = frozen_view(E, st, a)
    cb = frozen_view(E, st, b)
    return n_eq(ca, cb)


def frozen_view(E, st, v):
    """the current contents of a mutable container as a value (so that the
    term does not change meaning when the container does)"""
    if v.op == 'R':
        k = kind(E, st, v)
        c = content(E, st, v)
        if c is not None and k in ('set', 'list', 'ndarray', 'dict', 'deque'):
            return mk('val', c)
    return v


def seq_eq(E, st, sa, sb):
    if sa is None or sb is None:
        return None
    if not sa or not sb:
        return n_eq(seq_len(sa or sb), K(0)) if (sa or sb) else TRUE
    if len(sa) == len(sb) and all(g.op == 'one' for g in sa) and all(g.op == 'one' for g in sb):
        return b_and(*[val_eq(E, st, x.args[0], y.args[0]) for x, y in zip(sa, sb)])
    if len(sa) == len(sb) == 1 and sa[0].op == sb[0].op == 'map' and \
            sa[0].args[0] is sb[0].args[0]:
        ax, i, x = sa[0].args
        y = alpha(sb[0], i)
        if x.op == 'row' and y.op == 'row':
            r = seq_eq(E, st, list(x.args[0].args), list(y.args[0].args))
            return None if r is None else b_forall(ax, i, r)
        return b_forall(ax, i, val_eq(E, st, x, y))
    if tuple(sa) == tuple(sb):
        return TRUE
    return None


# ===================================================================== strings
def str_cat(a, b):
    xs = []
    for v in (a, b):
        xs += list(v.args) if v.op == 'strcat' else [v]
    out = []
    for x in xs:
        if isk(x) and isinstance(kval(x), str):
            if kval(x) == '':
                continue
            if out and isk(out[-1]) and isinstance(kval(out[-1]), str):
                out[-1] = K(kval(out[-1]) + kval(x))
                continue
        out.append(x)
    if not out:
        return K('')
    return out[0] if len(out) == 1 else mk('strcat', *out)


def to_str(E, st, v, node, meth='__str__'):
    """-> [(state, str value)]"""
    if isk(v):
        if v is t_.ELLIPSIS:
            return [(st, K('Ellipsis'))]
        return [(st, K(str(kval(v)) if meth == '__str__' else repr(kval(v))))]
    k = kind(E, st, v)
    if k == 'str' and meth == '__str__':
        return [(st, v)]
    if v.op in ('U', 'lv', 'oelt'):
        vs = E.vals(st, v)
        if not (len(vs) == 1 and vs[0] is v):
            out = []
            for s, w in E.alts(st, v):
                out += to_str(E, s, w, node, meth)
            return out
    if k == 'inst':
        o = E.obj(st, v)
        c = E.repo.classes.get(o.cls)
        for nm in ((meth, '__repr__') if meth == '__str__' else (meth,)):
            hit = E.class_lookup(c, nm) if c is not None else None
            if hit is not None:
                out = []
                for s, f in E.getattr_(st, v, nm, node):
                    out += E.call(s, f, [], {}, node) if s.sig is None else [(s, None)]
                return out
        return [(st, mk('fmt', K('object'), v))]
    if v.op == 'tup':
        cur = [(st, [])]
        for x in v.args:
            nxt = []
            for s, acc in cur:
                for s2, r in to_str(E, s, x, node, '__repr__'):
                    nxt.append((s2, acc + [r]))
            cur = nxt
        return [(s, mk('fmt', K('tuple'), *[x for x in acc if x is not None])
                 if s.sig is None else None) for s, acc in cur]
    if k in ('set', 'dict', 'list', 'ndarray'):
        c = content(E, st, v)
        return [(st, mk('fmt', K('repr ' + k), c if c is not None else v))]
    return [(st, mk('fmt', K(meth), v))]


# ================================================================== operators
BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%',
       'Pow': '**', 'LShift': '<<', 'RShift': '>>', 'BitOr': '|', 'BitXor': '^',
       'BitAnd': '&', 'MatMult': '@'}
DUN = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or', 'BitAnd': 'and',
       'BitXor': 'xor', 'Mod': 'mod', 'Div': 'truediv', 'FloorDiv': 'floordiv'}


def invert(E, st, v, node):
    out = []
    for s, w in E.alts(st, v):
        k = kind(E, s, w)
        if k == 'ndarray':
            c = content(E, s, w)
            out.append((s, new_arr(E, s, node, arr_map1(c, lambda x: b_not(tbool(x)), 'not'),
                                   E.obj(s, w).dtype)))
        elif k == 'inst':
            done = False
            for s2, f in E.getattr_(s, w, '__invert__', node, quiet=True):
                if f is not None and s2.sig is None:
                    out += E.call(s2, f, [], {}, node)
                    done = True
            if not done:
                out.append((s, ext('invert', w)))
        elif isk(w) and isinstance(kval(w), int):
            out.append((s, K(~int(kval(w)))))
        else:
            out.append((s, mk('bitop', K('~'), w)))
    return out


def arr_map1(c, f, name):
    if c is None or c.op != 'seq':
        return mk('oarr', mk('okey', name, c or NONE))
    out = []
    for g in c.args:
        if g.op == 'one':
            x = g.args[0]
            out.append(one(mk('row', arr_map1(x.args[0], f, name)) if x.op == 'row' else f(x)))
        elif g.op == 'map':
            x = g.args[2]
            out.append(mk('map', g.args[0], g.args[1],
                          mk('row', arr_map1(x.args[0], f, name)) if x.op == 'row' else f(x)))
        else:
            return mk('oarr', mk('okey', name, c))
    return seq(*out)


def arr_map2(E, st, ca, cb, f, name, node=None):
    """element-wise operation; None when the shapes cannot be matched"""
    if ca is None or cb is None or ca.op != 'seq' or cb.op != 'seq':
        return None
    if len(ca.args) != len(cb.args):
        return None
    out = []
    for ga, gb in zip(ca.args, cb.args):
        if ga.op != gb.op or ga.op not in ('one', 'map'):
            return None
        if ga.op == 'map' and ga.args[0] is not gb.args[0]:
            return None
        x = ga.args[-1]
        y = alpha(gb, ga.args[1]) if ga.op == 'map' else gb.args[0]
        if x.op == 'row' and y.op == 'row':
            r = arr_map2(E, st, x.args[0], y.args[0], f, name)
            if r is None:
                return None
            r = mk('row', r)
        elif x.op == 'row' or y.op == 'row':
            return None
        else:
            r = f(x, y)
        out.append(one(r) if ga.op == 'one' else mk('map', ga.args[0], ga.args[1], r))
    return seq(*out)


def scalar_op(op):
    if op == 'BitAnd':
        return lambda x, y: b_and(tbool(x), tbool(y))
    if op == 'BitOr':
        return lambda x, y: b_or(tbool(x), tbool(y))
    if op == 'BitXor':
        return lambda x, y: b_or(b_and(tbool(x), b_not(tbool(y))), b_and(b_not(tbool(x)), tbool(y)))
    if op == 'Eq':
        return lambda x, y: b_or(b_and(x, y), b_and(b_not(x), b_not(y))) \
            if is_bool(x) and is_bool(y) else n_eq(x, y)
    if op == 'NotEq':
        return lambda x, y: b_not(scalar_op('Eq')(x, y))
    if op == 'LtE':
        return lambda x, y: b_or(b_not(x), y) if is_bool(x) and is_bool(y) else n_le(x, y)
    if op == 'Lt':
        return lambda x, y: b_and(b_not(x), y) if is_bool(x) and is_bool(y) else n_lt(x, y)
    if op == 'GtE':
        return lambda x, y: scalar_op('LtE')(y, x)
    if op == 'Gt':
        return lambda x, y: scalar_op('Lt')(y, x)
    if op == 'Add':
        return lambda x, y: b_or(x, y) if is_bool(x) and is_bool(y) else arith('Add', x, y)
    if op == 'Mult':
        return lambda x, y: b_and(x, y) if is_bool(x) and is_bool(y) else arith('Mult', x, y)
    return lambda x, y: arith(op, x, y)


def arith(op, a, b):
    if isk(a) and isk(b):
        try:
            x, y = kval(a), kval(b)
            r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y,
                 'Div': lambda: x / y, 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y,
                 'Pow': lambda: x ** y, 'LShift': lambda: x << y if y < 4096 else None,
                 'RShift': lambda: x >> y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                 'BitAnd': lambda: x & y}[op]()
            if r is not None and (not isinstance(r, (int, str)) or len(str(r)) < 4000):
                return K(r)
        except Exception:
            return None
    num = (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b))
    if op == 'Add' and num:
        return n_add(a, b)
    if op == 'Sub' and num:
        return n_sub(a, b)
    if op == 'Mult' and num:
        return n_mul(a, b)
    if op in ('BitOr', 'BitAnd', 'BitXor', 'LShift', 'RShift', 'Mod', 'Pow'):
        return mk('bitop', K(BIN[op]), a, b)
    if op == 'Div':
        return mk('/', a, b)
    if op == 'FloorDiv':
        return mk('div', a, b)
    return mk('nop', K(BIN.get(op, op)), a, b)


def set_binop(op, x, y):
    if op == 'BitOr':
        return s_union(x, y)
    if op == 'BitAnd':
        return s_inter(x, y)
    if op == 'Sub':
        return s_diff(x, y)
    return s_union(s_diff(x, y), s_diff(y, x))


def terr(E, st, node, text, kd='op'):
    E.report('typeerr', node, text, kd)
    return [(E.raise_(st, 'TypeError', node), None)]


def binop(E, st, op, a, b, node, inplace=False):
    ka, kb = kind(E, st, a), kind(E, st, b)
    # user-defined operators
    if ka == 'inst' or kb == 'inst':
        nm = DUN.get(op)
        if ka == 'inst' and nm:
            for m in (['__i%s__' % nm] if inplace else []) + ['__%s__' % nm]:
                for s, f in E.getattr_(st, a, m, node, quiet=True):
                    if f is not None and s.sig is None:
                        return E.call(s, f, [b], {}, node)
        return [(st, ext('binop', K(op), a, b))]
    if ka == 'set' and kb == 'set':
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            c = set_binop(op, content(E, st, a), content(E, st, b))
            merge_cands(E, st, c, a, b)
            if inplace and E.obj(st, a).dtype != 'frozen':
                E.setcontent(st, a, c, node, 'set' + BIN[op])
                return [(st, a)]
            return [(st, new_set(E, st, node, c, E.obj(st, a).dtype == 'frozen'))]
        return terr(E, st, node, 'unsupported operand types for %s: set and set' % BIN[op])
    if ka == 'set' and kb in ('list', 'tuple', 'none', 'str', 'int', 'dict', 'num', 'bool') or \
            kb == 'set' and ka in ('list', 'tuple', 'none', 'str', 'int', 'dict', 'num', 'bool'):
        return terr(E, st, node, 'unsupported operand types for %s: %s and %s' % (BIN[op], ka, kb))
    if ka == 'set' or kb == 'set':
        if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
            ca = content(E, st, a) if ka == 'set' else mk('setval', a)
            cb = content(E, st, b) if kb == 'set' else mk('setval', b)
            c = set_binop(op, ca, cb)
            if inplace and ka == 'set':
                E.setcontent(st, a, c, node, 'set' + BIN[op])
                return [(st, a)]
            return [(st, new_set(E, st, node, c))]
    if ka == 'ndarray' or kb == 'ndarray':
        return arr_binop(E, st, op, a, b, ka, kb, node, inplace)
    if op == 'Add' and ka in ('list', 'deque'):
        if kb in ('none', 'int', 'num', 'set', 'dict', 'bool', 'str') and not (inplace and kb in ('set', 'dict', 'str')) or \
                kb == 'tuple' and not inplace:
            return terr(E, st, node, 'can only concatenate list (not %s) to list' % kb)
        segs = val_segs(E, st, b)
        if segs is None:
            if inplace and kb is not None:
                out = []
                for s, sg in iter_segments(E, st, b, node):
                    if s.sig is None:
                        E.setcontent(s, a, seq(*(list(content(E, s, a).args) + sg)), node, 'extend')
                        out.append((s, a))
                    else:
                        out.append((s, None))
                return out
            segs = [mk('oseg', mk('okey', 'iter', b))]
        c = seq(*(list(content(E, st, a).args) + segs))
        if inplace:
            E.setcontent(st, a, c, node, 'extend')
            return [(st, a)]
        return [(st, new_list(E, st, node, c))]
    if op == 'Add' and kb == 'list':
        if ka in ('none', 'int', 'num', 'str', 'tuple', 'dict'):
            return terr(E, st, node, 'unsupported operand types for +: %s and list' % ka)
        sa = [mk('oseg', mk('okey', 'iter', a))]
        return [(st, new_list(E, st, node, seq(*(sa + val_segs(E, st, b)))))]
    if op == 'Add' and ka == 'tuple' and kb == 'tuple':
        sa, sb = val_segs(E, st, a), val_segs(E, st, b)
        if sa is not None and sb is not None:
            if all(g.op == 'one' for g in sa + sb):
                return [(st, mk('tup', *[g.args[0] for g in sa + sb]))]
            return [(st, mk('tseq', seq(*(sa + sb))))]
    if op == 'Mult' and (ka in ('list', 'tuple') or kb in ('list', 'tuple')):
        l, n = (a, b) if ka in ('list', 'tuple') else (b, a)
        segs = val_segs(E, st, l)
        if segs is not None:
            if isk(n) and isinstance(kval(n), int) and kval(n) * len(segs) <= 20:
                r = list(segs) * kval(n)
            elif len(segs) == 1 and segs[0].op == 'one':
                ax = axis_of_len(n)
                r = [mk('map', ax, mk('ix', ax, 0), segs[0].args[0])]
            else:
                r = [opaque_seq(st, mk('okey', 'mul', n, *segs), E.elem_values(st, seq(*segs)))]
            if kind(E, st, l) == 'tuple':
                return [(st, mk('tup', *[g.args[0] for g in r]) if all(g.op == 'one' for g in r)
                         else mk('tseq', seq(*r)))]
            return [(st, new_list(E, st, node, seq(*r)))]
    if op == 'Mod' and ka == 'str':
        xs = list(b.args) if b.op == 'tup' else [b]
        return [(st, mk('fmt', a, *xs))]
    if ka == 'str' or kb == 'str':
        if op == 'Add':
            if ka == 'str' and kb == 'str':
                return [(st, str_cat(a, b))]
            o = kb if ka == 'str' else ka
            if o in ('none', 'int', 'num', 'bool', 'list', 'set', 'dict', 'tuple', 'bytes', 'float'):
                return terr(E, st, node, 'concatenation of str and %s' % o)
            return [(st, str_cat(a, b))]
        if op == 'Mult':
            if isk(a) and isk(b):
                r = arith(op, a, b)
                if r is not None:
                    return [(st, r)]
            return [(st, mk('strm', K('repeat'), a, b))]
    if ka == 'bytes' or kb == 'bytes':
        return [(st, mk('bytm', K(op), a, b))]
    if ka == 'none' or kb == 'none':
        if (ka or kb) and ka is not None and kb is not None or kb == 'none' and ka is not None \
                or ka == 'none' and kb is not None:
            return terr(E, st, node, 'unsupported operand types for %s: %s and %s' % (BIN[op], ka, kb))
    if ka == 'dict' and kb == 'dict' and op == 'BitOr':
        return [(st, E.alloc(st, 'dict', node, content=mk('dct', *(content(E, st, a).args + content(E, st, b).args))))]
    if op in ('BitAnd', 'BitOr', 'BitXor') and is_bool(a) and is_bool(b):
        return [(st, scalar_op(op)(a, b))]
    if op in ('Div', 'FloorDiv', 'Mod') and (ka in SCALAR or ka is None) and \
            (kb in SCALAR or kb is None):
        return div(E, st, op, a, b, node)
    if isk(a) and isk(b):
        r = arith(op, a, b)
        if r is None:
            return terr(E, st, node, 'unsupported operands for %s' % BIN[op])
        return [(st, r)]
    if op == 'Pow' and a is K(2):
        return [(st, mk('bitop', K('<<'), K(1), b))]
    return [(st, arith(op, a, b))]


def div(E, st, op, a, b, node):
    out = []
    if isk(b) and not kval(b):
        return [(E.raise_(st, 'ZeroDivisionError', node), None)]
    if not isk(b):
        z = n_eq(b, K(0))
        f = E.isfact(st, z)
        if f is True:
            return [(E.raise_(st, 'ZeroDivisionError', node), None)]
        if f is None and z is not FALSE and E.catching('ZeroDivisionError'):
            s2 = st.copy()
            if E.assume(s2, z):
                out.append((E.raise_(s2, 'ZeroDivisionError', node), None))
            if not E.assume(st, b_not(z)):
                return out
        elif f is None and z is not FALSE:
            st.ev('div0', z, E.where(node))
    r = arith(op, a, b)
    out.append((st, r if r is not None else mk('nop', K(BIN[op]), a, b)))
    return out


def merge_cands(E, st, c, *vs):
    return


def axis_of_len(n):
    """an axis with n positions"""
    if n.op == 'len' and own_pos(n.args[0]):
        return n.args[0]
    if n.op == 'count':
        return mk('range', n)
    return mk('range', n)


WIDTH = {'int8': 8, 'uint8': 8, 'int16': 16, 'uint16': 16, 'int': 64, 'int64': 64, 'int32': 32, 'int_': 64,
         'uint32': 32, 'uint64': 64, 'i1': 8, 'u1': 8, 'B': 8, 'b': 8}


def width(da, db):
    """bits of the integer product of two arrays (0: not integers)"""
    ws = []
    for d in (da, db):
        d = str(d).rpartition(':')[2]
        if d in ('bmatrix', 'bool', 'bool_'):
            ws.append(1)
        elif d in WIDTH:
            ws.append(WIDTH[d])
        else:
            return 0
    return max(ws)


def is_bool(t):
    return t.op in t_.BOOLOPS or isk(t) and isinstance(kval(t), bool)


def bool_product(ca, cb, bits=1):
    """boolean matrix product: exists k. a[i, k] and b[k, j]; for integers of
    the given width: how many, modulo that width"""
    def dims(c):
        if c is None or not is2d(c) or len(c.args) != 1 or c.args[0].op != 'map':
            return None
        rax, rix, row = c.args[0].args
        q = row.args[0]
        if len(q.args) != 1 or q.args[0].op != 'map':
            return None
        return (rax, rix) + tuple(q.args[0].args)
    x, y = dims(ca), dims(cb)
    if x is None or y is None or x[2] is not y[0]:
        return None
    rax, rix, kax, kix, p = x
    _, k2, cax, cix, q = y
    if rix in t_.free(cax):
        return None
    r = t_.fresh_ix(rax, 0, ca, cb)
    j = t_.fresh_ix(cax, r.args[1] + 1 if cax is rax else 0, ca, cb, r)
    k = t_.fresh_ix(kax, 0, ca, cb, r, j)
    both = t_.b_and(tbool(t_.subst(p, {rix: r, kix: k})), tbool(t_.subst(q, {k2: k, cix: j})))
    if bits == 1:
        body = t_.b_exists(kax, k, both)
    elif is_bool(p) and is_bool(q):
        body = mk('count', kax, k, both)
        if bits < 64:
            body = mk('wrap', K(1 << bits), body)
    else:
        return None
    return seq(mk('map', rax, r, mk('row', seq(mk('map', cax, j, body)))))


def arr_binop(E, st, op, a, b, ka, kb, node, inplace):
    ca = content(E, st, a) if ka == 'ndarray' else None
    cb = content(E, st, b) if kb == 'ndarray' else None
    f = scalar_op(op)
    r = None
    da = E.obj(st, a).dtype if ka == 'ndarray' else None
    db = E.obj(st, b).dtype if kb == 'ndarray' else None
    if not inplace and (op == 'MatMult' or op == 'Mult' and (
            'matrix' in str(da) or 'matrix' in str(db))):
        w = width(da, db)
        r = bool_product(ca, cb, w) if w else None
        if r is None:
            r = mk('oarr', mk('okey', 'matmul', ca or a, cb or b))
        return [(st, new_arr(E, st, node, r, da))]
    if ka == 'ndarray' and kb in ('ndarray', 'list', 'tuple'):
        if cb is None:
            sg = val_segs(E, st, b)
            cb = seq(*sg) if sg is not None else None
        if cb is not None and ca is not None:
            r = arr_map2(E, st, ca, cb, f, op)
            if r is None and ca.op in ('oarr', 'arrop', 'arrput') and cb.op == 'seq':
                r = mk('arrop', K(op), ca, cb)
    elif kb == 'ndarray' and ka in ('list', 'tuple'):
        sg = val_segs(E, st, a)
        if sg is not None and cb is not None:
            r = arr_map2(E, st, seq(*sg), cb, f, op)
    elif ka == 'ndarray':
        r = arr_map1(ca, lambda x: f(x, b), K(op)) if ca is not None and ca.op == 'seq' else None
    else:
        r = arr_map1(cb, lambda x: f(a, x), K(op)) if cb is not None and cb.op == 'seq' else None
    if r is None:
        r = mk('oarr', mk('okey', 'binop', K(op), ca or a, cb or b))
    dt = 'bool' if op in ('BitAnd', 'BitOr', 'BitXor') else None
    if inplace and ka == 'ndarray':
        E.setcontent(st, a, r, node, 'arr' + BIN[op])
        return [(st, a)]
    return [(st, new_arr(E, st, node, r, dt))]


# ================================================================= comparison
def compare(E, st, op, a, b, node):
    """-> [(state, boolean term)]"""
    if op in ('Is', 'IsNot'):
        r = is_same(E, st, a, b)
        return [(st, r if op == 'Is' else b_not(r))]
    if op in ('In', 'NotIn'):
        return [(s, None if s.sig is not None else (r if op == 'In' else b_not(r)))
                for s, r in contains(E, st, a, b, node)]
    ka, kb = kind(E, st, a), kind(E, st, b)
    if op in ('Eq', 'NotEq'):
        out = []
        if ka == 'inst' or kb == 'inst':
            x, y = (a, b) if ka == 'inst' else (b, a)
            o = E.obj(st, x)
            c = E.repo.classes.get(o.cls)
            if op == 'NotEq' and c is not None and E.class_lookup(c, '__ne__') is not None:
                for s, f in E.getattr_(st, x, '__ne__', node):
                    for s2, r in E.call(s, f, [y], {}, node) if s.sig is None else [(s, None)]:
                        out += truth(E, s2, r, node) if s2.sig is None else [(s2, None)]
                return out
            if c is not None and E.class_lookup(c, '__eq__') is not None:
                for s, f in E.getattr_(st, x, '__eq__', node):
                    for s2, r in E.call(s, f, [y], {}, node) if s.sig is None else [(s, None)]:
                        for s3, t in truth(E, s2, r, node) if s2.sig is None else [(s2, None)]:
                            out.append((s3, t if t is None or op == 'Eq' else b_not(t)))
                return out
            if ka != kb and ka is not None and kb is not None:
                return [(st, K(op == 'NotEq'))]
            r = val_eq(E, st, a, b)
            return [(st, r if op == 'Eq' else b_not(r))]
        if ka == 'ndarray' or kb == 'ndarray':
            return arr_binop(E, st, op, a, b, ka, kb, node, False)
        r = val_eq(E, st, a, b)
        return [(st, r if op == 'Eq' else b_not(r))]
    if ka == 'inst' or kb == 'inst':
        nm = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
        rev = {'Lt': '__gt__', 'LtE': '__ge__', 'Gt': '__lt__', 'GtE': '__le__'}
        for x, y, m in ((a, b, nm[op]), (b, a, rev[op])):
            if kind(E, st, x) == 'inst':
                for s, f in E.getattr_(st, x, m, node, quiet=True):
                    if f is not None and s.sig is None:
                        out = []
                        for s2, r in E.call(s, f, [y], {}, node):
                            out += truth(E, s2, r, node) if s2.sig is None else [(s2, None)]
                        return out
        c = [E.repo.classes.get(E.obj(st, x).cls) for x in (a, b) if kind(E, st, x) == 'inst']
        if ka == kb == 'inst' and all(k is not None and E.full_known(k) for k in c):
            return terr(E, st, node, "'%s' not supported between instances of %s" % (
                op, ' and '.join(k.name for k in c)))
        return [(st, mk('opq', 'cmp', K(op), a, b))]
    if ka == 'ndarray' or kb == 'ndarray':
        return arr_binop(E, st, op, a, b, ka, kb, node, False)
    if ka == 'set' or kb == 'set':
        if ka == 'set' and kb == 'set':
            ca, cb = content(E, st, a), content(E, st, b)
        else:
            k = kb if ka == 'set' else ka
            if k in ('list', 'tuple', 'int', 'str', 'dict', 'none', 'num', 'bool', 'float'):
                return terr(E, st, node, 'ordering comparison of set and %s' % k)
            ca = content(E, st, a) if ka == 'set' else mk('setval', a)
            cb = content(E, st, b) if kb == 'set' else mk('setval', b)
        if op in ('Gt', 'GtE'):
            ca, cb = cb, ca
        r = s_sub(ca, cb)
        if op in ('Lt', 'Gt'):
            r = b_and(r, b_not(s_sub(cb, ca)))
        return [(st, r)]
    if 'none' in (ka, kb) and ka is not None and kb is not None:
        return terr(E, st, node, 'ordering comparison with None')
    if ka is not None and kb is not None and ka != kb and \
            not (ka in SCALAR and kb in SCALAR) and \
            {ka, kb} <= {'list', 'tuple', 'str', 'int', 'num', 'dict', 'bytes', 'float'}:
        return terr(E, st, node, 'ordering comparison of %s and %s' % (ka, kb))
    if ka == kb and ka in ('list', 'tuple', 'dict'):
        if ka == 'dict':
            return terr(E, st, node, 'ordering comparison of dicts')
        a, b = frozen_view(E, st, a), frozen_view(E, st, b)
    f = {'Lt': n_lt, 'LtE': n_le, 'Gt': lambda x, y: n_lt(y, x), 'GtE': lambda x, y: n_le(y, x)}[op]
    return [(st, f(a, b))]


def is_same(E, st, a, b):
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return K(kval(a) is kval(b))
    if a is NONE or b is NONE:
        x = b if a is NONE else a
        if kind(E, st, x) is not None:
            return FALSE
        return mk('is', x, NONE)
    if a.op == 'R' and b.op == 'R' and not free(a) and not free(b):
        return FALSE
    if a.op == 'R' and b.op in ('k', 'tup') or b.op == 'R' and a.op in ('k', 'tup'):
        return FALSE
    if a.op in ('cl', 'bi', 'fn') and b.op in ('cl', 'bi', 'fn'):
        return FALSE
    if is_bool(a) and (b is TRUE or b is FALSE):
        return a if b is TRUE else b_not(a)
    if is_bool(b) and (a is TRUE or a is FALSE):
        return b if a is TRUE else b_not(b)
    if a.n > b.n:
        a, b = b, a
    return mk('is', a, b)


def contains(E, st, x, c, node):
    """x in c"""
    if c.op in ('U', 'lv', 'oelt'):
        vs = E.vals(st, c)
        if not (len(vs) == 1 and vs[0] is c):
            out = []
            for s, w in E.alts(st, c):
                out += contains(E, s, x, w, node)
            return out
    k = kind(E, st, c)
    if k == 'set':
        if m_.unhashable(E, st, x):
            if kind(E, st, x) != 'set':
                return terr(E, st, node, 'unhashable type', 'hash')
        return [(st, set_mem(E, st, x, content(E, st, c)))]
    if k == 'dict':
        alts, missing, known = m_.dict_get(E, st, content(E, st, c), x)
        if known:
            return [(st, b_not(missing))]
        return [(st, mk('mem', x, mk('keys', content(E, st, c))))]
    if k in ('list', 'tuple', 'deque', 'gen') or k == 'ndarray' and not is2d(content(E, st, c)):
        segs = val_segs(E, st, c)
        if segs is not None:
            return [(st, segs_mem(E, st, x, segs))]
        return [(st, mk('mem', frozen_view(E, st, x), frozen_view(E, st, c)))]
    if k == 'str':
        if isk(c) and isk(x) and isinstance(kval(x), str):
            return [(st, K(kval(x) in kval(c)))]
        return [(st, mk('mem', x, c))]
    if k in ('int', 'none', 'bool', 'num', 'float'):
        return terr(E, st, node, 'argument of type %s is not iterable' % k)
    if k == 'inst':
        for s, f in E.getattr_(st, c, '__contains__', node, quiet=True):
            if f is not None and s.sig is None:
                out = []
                for s2, r in E.call(s, f, [x], {}, node):
                    out += truth(E, s2, r, node) if s2.sig is None else [(s2, None)]
                return out
        out = []
        for s, segs in iter_segments(E, st, c, node):
            if s.sig is not None:
                out.append((s, None))
            else:
                out.append((s, segs_mem(E, s, x, segs)))
        return out
    return [(st, mk('mem', frozen_view(E, st, x), frozen_view(E, st, c)))]


def set_mem(E, st, x, c):
    if x.op == 'R' and kind(E, st, x) == 'inst':
        cs = set_segs(E, st, c)
        if all(g.op == 'one' for g in cs):
            return b_or(*[val_eq(E, st, x, g.args[0]) for g in cs])
    if x.op == 'R' and kind(E, st, x) == 'set':
        x = mk('val', content(E, st, x))
    return s_mem(x, c)


def segs_mem(E, st, x, segs):
    out = []
    for g in segs:
        if g.op == 'one':
            out.append(val_eq(E, st, x, g.args[0]))
        elif g.op == 'map':
            ax, i, body = g.args
            if body.op == 'R' or x.op == 'R':
                j = i
                n = i.args[1]
                while j in free(x):
                    n += 1
                    j = mk('ix', ax, n)
                out.append(b_exists(ax, j, val_eq(E, st, x, subst(body, {i: j}))))
            else:
                out.append(s_mem(x, s_comp(ax, i, TRUE, body)))
        else:
            out.append(mk('mem', frozen_view(E, st, x), mk('elems', g)))
    return b_or(*out)


# ====================================================================== truth
def truth(E, st, v, node):
    """-> [(state, boolean term)]"""
    if is_bool(v):
        return [(st, v)]
    if isk(v):
        if v is t_.ELLIPSIS:
            return [(st, TRUE)]
        return [(st, K(bool(kval(v))))]
    k = kind(E, st, v)
    if k in ('set',):
        return [(st, b_not(s_empty(content(E, st, v))))]
    if k in ('list', 'tuple', 'deque'):
        segs = val_segs(E, st, v)
        if segs is not None:
            return [(st, b_not(n_eq(seq_len(segs), K(0))))]
        return [(st, mk('truthy', frozen_view(E, st, v)))]
    if k == 'dict':
        c = content(E, st, v)
        if not c.args:
            return [(st, FALSE)]
        if any(x.op == 'de' for x in c.args):
            return [(st, TRUE)]
        if all(x.op == 'dmap' for x in c.args):
            return [(st, b_not(b_and(*[n_eq(n_len(x.args[0]), K(0)) for x in c.args])))]
        return [(st, mk('truthy', mk('val', c)))]
    if k == 'inst':
        for nm in ('__bool__', '__len__'):
            for s, f in E.getattr_(st, v, nm, node, quiet=True):
                if f is not None and s.sig is None:
                    out = []
                    for s2, r in E.call(s, f, [], {}, node):
                        out += truth(E, s2, r, node) if s2.sig is None else [(s2, None)]
                    return out
        return [(st, TRUE)]
    if k == 'ndarray':
        c = content(E, st, v)
        if c is not None and c.op == 'seq' and not is2d(c) and len(c.args) == 1 and \
                c.args[0].op == 'one':
            return [(st, tbool(c.args[0].args[0]))]
        return [(st, mk('truthy', mk('val', c) if c is not None else v))]
    if k == 'callable' or v.op in ('cl', 'bi', 'md'):
        return [(st, TRUE)]
    if k == 'num':
        return [(st, b_not(n_eq(v, K(0))))]
    if v.op == 'ite':
        return [(st, tbool(v))]
    if v.op == 'strcat' and any(isk(x) and kval(x) for x in v.args):
        return [(st, TRUE)]
    return [(st, mk('truthy', v))]
