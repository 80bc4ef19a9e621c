"""Equality, hashing and order of concepts and implications (C11, C26)."""
from .cases import Case, O, A, tab
from .terms import mk, K
from . import terms as t_
from .api import N0, ax
from .decide import Unknown
from .spec_imp import P, Q, SZ, truth, dense, nms


def same_often(m):
    """the second operand is, in half of the interpretations, the first or
    differs from it in one place"""
    k = m.h('same') % 6
    for r, side in (('P', 'M'), ('Q', 'M'), ('X', 'G'), ('Y', 'M')):
        for j in range(m.size(side)):
            if k < 4:
                m.fixed[(r, 'w', j)] = m.rel(r, 'u', j)
    if 0 < k < 4 and m.size('M'):
        j = m.h('j') % m.size('M')
        r = (('P', 'Q') if k < 3 else ('Q', 'P'))[m.h('r') % 2]
        m.fixed[(r, 'w', j)] = not m.fixed[(r, 'w', j)]
        r = ('X', 'Y')[m.h('r2') % 2]
        if r == 'Y' or m.size('G'):
            j = m.h('j2') % m.size('M' if r == 'Y' else 'G')
            m.fixed[(r, 'w', j)] = not m.fixed[(r, 'w', j)]
    m.order = 'each'
    return True


def two(cls, op):
    """op(u, w) for two arbitrary objects of the class"""
    def build(h):
        mkr = h.concept if cls == 'Concept' else lambda t: h.implication(t, cls)
        u, w = mkr('u'), mkr('w')
        if cls == 'Concept':
            # what is noted about a concept is not part of it
            d = h.E_new_dict()
            h.st = h.E.set_item(h.st, d, K('Index'), K(1), N0)[0]
            h.setf(w, 'meta', d)
        h.settle()
        if op == 'hash':
            outs = []
            for s, v in h.call(u, '__hash__'):
                if s.sig is not None:
                    outs.append((s, None))
                    continue
                for s2, f in h.E.getattr_(s, w, '__hash__', N0):
                    for s3, v2 in h.E.call(s2, f, [], {}, N0):
                        outs.append((s3, mk('tup', v, v2)))
            return outs, {}
        return h.call(u, op, [w]), {}
    return build


def equal(cls, m):
    if cls == 'Concept':
        f = lambda r, t, s: frozenset(j for j in range(m.size(s)) if m.rel(r, t, j))
        return f('X', 'u', 'G') == f('X', 'w', 'G') and f('Y', 'u', 'M') == f('Y', 'w', 'M')
    return P(m, 'u') == P(m, 'w') and Q(m, 'u') - P(m, 'u') == Q(m, 'w') - P(m, 'w')


def agree(ev, st, r, aux):
    v = ev.ev(r, {}, st)
    return v[0] == v[1]


def shuffled_context(h, name):
    """context over the same objects and attributes, in another order"""
    from .api import names_list
    from . import models as m_, terms as t_
    E, st = h.E, h.st

    def axis(a, tag):
        i = mk('ix', ax(a), 0)
        return mk('sortax', ax(a), mk('skey', i, mk('ordk', K(tag), i)), t_.FALSE)
    g, m = axis('G', 'o'), axis('M', 'a')
    i, j = mk('ix', g, 0), mk('ix', m, 0)
    E.ixs.append(i)
    row = m_.new_list(E, st, N0, m_.seq(mk('map', m, j, mk('I', name, i, j))))
    E.ixs.pop()
    t = m_.new_list(E, st, N0, m_.seq(mk('map', g, i, row)))
    o = m_.new_list(E, st, N0, m_.seq(mk('map', g, i, t_.el('objs', i))))
    a = m_.new_list(E, st, N0, m_.seq(mk('map', m, j, t_.el('atts', j))))
    return h.new('fca.context', 'Context', [t, o, a])


def cxt_eq(op, how):
    def build(h):
        c = h.context()
        if how == 'shuffled':
            d = shuffled_context(h, 'd')
        elif how == 'same names':
            d = h.context('d', gname='objs', mname='atts')
        else:
            d = h.context('d', g=ax('H') if 'o' in how else None, m=ax('N') if 'a' in how else None,
                          gname='objsd' if 'o' in how else 'objs', mname='attsd' if 'a' in how else 'atts')
        h.settle()
        return h.call(c, op, [d]), {}
    return build


def close(m):
    """d's incidence is c's, or differs in one place"""
    k = m.h('close') % 5
    m.sametext = m.h('text') % 2 == 0
    g, n = m.size('G'), m.size('M')
    if k == 4 and g and n:
        # one cross elsewhere
        i, j, p, q = m.h('i') % g, m.h('j') % n, m.h('p') % g, m.h('q') % n
        for a in range(g):
            for b in range(n):
                m.fixed[('I', 'd', a, b)] = m.rel('I', 'c', a, b)
        m.fixed[('I', 'd', i, j)] = m.rel('I', 'c', p, q)
        m.fixed[('I', 'd', p, q)] = m.rel('I', 'c', i, j)
    if k < 3:
        for i in range(g):
            for j in range(n):
                m.fixed[('I', 'd', i, j)] = m.rel('I', 'c', i, j)
        if 0 < k and g and n:
            i, j = m.h('i') % g, m.h('j') % n
            m.fixed[('I', 'd', i, j)] = not m.fixed[('I', 'd', i, j)]
    return True


def equality():
    out = []
    for how in ('same names', 'shuffled', 'o', 'a', 'oa'):
        s = {'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3)}
        s.update({x: (0, 1, 2) for x, k in (('H', 'o'), ('N', 'a')) if k in how and len(how) < 3})

        def spec(m, how=how):
            if len(how) < 3 and any(m.size(x) or m.size(y) for x, y, k in (('G', 'H', 'o'), ('M', 'N', 'a'))
                                    if k in how):
                return ('value', False)
            if len(how) < 3 and len(how) != 2 and (m.size('G') or 'o' in how) and (m.size('M') or 'a' in how):
                pass
            g = m.size('G') if 'o' not in how or len(how) > 2 else 0
            n = m.size('M') if 'a' not in how or len(how) > 2 else 0
            return ('value', all(m.rel('I', 'c', i, j) == m.rel('I', 'd', i, j)
                                 for i in range(g) for j in range(n)))
        out.append(Case('Context.__eq__[%s]' % how, cxt_eq('__eq__', how), spec, truth, sizes=s,
                        prep=close, n=12))
    s = {'M': (0, 1, 2, 3), 'G': (0, 1, 2)}
    for cls in ('Concept', 'Implication', 'NegativeImplication'):
        sz = s if cls == 'Concept' else SZ
        out.append(Case('%s.__eq__' % cls, two(cls, '__eq__'),
                        lambda m, cls=cls: ('value', equal(cls, m)), truth, sizes=sz, prep=same_often, n=40))
        out.append(Case('%s.__hash__' % cls, two(cls, 'hash'),
                        lambda m, cls=cls: ('value', True) if equal(cls, m) else None, agree,
                        sizes=sz, prep=same_often, n=40))
    return out + copies()


def copies():
    """a deep copy is of the class of its original and equals it"""
    from .decide import Obj, context_view, spec_context, field

    def build(make):
        def f(h):
            x = make(h)
            d = h.E_new_dict()
            h.settle()
            return h.call(x, '__deepcopy__', [d]), {'self': x}
        return f

    def view(ev, st, r, aux):
        o = Obj(r, st)
        c = ev.E.obj(st, r).cls.split('.')[-1]
        if c == 'Context':
            return c, context_view(ev, st, r)
        return c, frozenset(field(ev, o, '_premise')), frozenset(field(ev, o, '_conclusion'))
    out = [Case('Context.__deepcopy__', build(lambda h: h.context()), lambda m: (
        'value', ('Context', spec_context(O(m), A(m), tab(m)))), view)]
    for cls in ('Implication', 'NegativeImplication'):
        out.append(Case('%s.__deepcopy__' % cls, build(lambda h, cls=cls: h.implication('u', cls)),
                        lambda m, cls=cls: ('value', (cls, nms(P(m, 'u')), nms(Q(m, 'u')))), view, sizes=SZ))
    return out


# ------------------------------------------------------------ order (C26)
def cs_call(make, op, arg=True):
    def build(h):
        s = getattr(h, make)()
        if make == 'lattice':
            h.setf(s, '_concepts', h.concepts())
        l = h.E.obj(h.st, h.E.getf(h.st, s, '_concepts')).content
        mp = l.args[0]
        w = h.concept('w') if arg in ('equal', 'any') else None
        h.settle()
        if arg in ('equal', 'any'):
            outs = h.call(s, op, [w])
        elif arg:
            h.nonempty('C')
            x = t_.subst(mp.args[2], {mp.args[1]: mk('isy', 'k')})
            outs = h.call(s, op, [x])
        else:
            outs = h.call(s, op, [])
        return outs, {'self': s}
    return build


def intents(m):
    return [frozenset(j for j in range(m.size('M')) if m.rel('Y', 'C', k, j)) for k in range(m.size('C'))]


def concepts_prep(m):
    """intents are pairwise distinct, extents too (as in a concept system)"""
    n = m.size('C')
    if not n:
        return False
    m.sets['k'] = m.h('k') % n
    seen = []
    for k in range(n):
        m.dn[('Y', 'C')] = (300, 500, 700)[m.h('d') % 3]
    a = intents(m)
    if len(set(a)) < n:
        return False
    m.dn[('X', 'C')] = 500
    return True


def which(ev, st, r, aux):
    from .decide import field, Obj
    v = ev.ev(r, {}, st)
    out = []
    for o in v:
        out.append(frozenset(x[2] for x in field(ev, o, 'intent')))
    return out


def plain(ev, st, r, aux):
    return ev.ev(r, {}, st)


def order():
    out = []
    s = {'M': (0, 1, 2, 3), 'C': (1, 2, 3, 4), 'G': (1, 2)}
    for cls, mkr in (('ConceptSystem', 'system'), ('ConceptLattice', 'lattice')):
        out.append(Case('%s.filter' % cls, cs_call(mkr, 'filter'),
                        lambda m: ('value', [i for i in intents(m) if i < intents(m)[m.sets['k']]]),
                        which, sizes=s, prep=concepts_prep, n=20))
        out.append(Case('%s.ideal' % cls, cs_call(mkr, 'ideal'),
                        lambda m: ('value', [i for i in intents(m) if i > intents(m)[m.sets['k']]]),
                        which, sizes=s, prep=concepts_prep, n=20))

    # asked with a concept of its own: equal to a member, or any
    def the(m):
        return (frozenset(g for g in range(m.size('G')) if m.rel('X', 'w', g)),
                frozenset(a for a in range(m.size('M')) if m.rel('Y', 'w', a)))

    def extents(m):
        return [frozenset(g for g in range(m.size('G')) if m.rel('X', 'C', k, g)) for k in range(m.size('C'))]

    def prep(kind):
        def f(m):
            if concepts_prep(m) is False:
                return False
            if kind == 'equal' or m.h('as') % 2:
                k = m.sets['k']
                for r, a in (('X', 'G'), ('Y', 'M')):
                    if kind == 'any' and r == 'X' and m.h('x') % 2:
                        continue            # the same intent, another extent perhaps
                    for j in range(m.size(a)):
                        m.fixed[(r, 'w', j)] = m.rel(r, 'C', k, j)
            return True
        return f

    def inside(m):
        return the(m) in list(zip(extents(m), intents(m)))

    def place(m):
        ws = list(zip(extents(m), intents(m)))
        return ('value', ws.index(the(m))) if inside(m) else ('raise', 'ValueError')
    for cls, mkr in (('ConceptSystem', 'system'), ('ConceptLattice', 'lattice')):
        for kind in ('equal', 'any'):
            for op, f, v in (
                    ('filter', lambda m: ('value', [i for i in intents(m) if i < the(m)[1]]), which),
                    ('ideal', lambda m: ('value', [i for i in intents(m) if i > the(m)[1]]), which),
                    ('__contains__', lambda m: ('value', inside(m)), plain),
                    ('index', place, plain)):
                out.append(Case('%s.%s[%s concept]' % (cls, op, 'an equal' if kind == 'equal' else 'any'),
                                cs_call(mkr, op, kind), f, v, sizes=s, prep=prep(kind), n=20))
        out.append(Case('%s.__len__' % cls, cs_call(mkr, '__len__', False),
                        lambda m: ('value', m.size('C')), plain, sizes=s, prep=concepts_prep, n=20))

    def extreme(up):
        def f(m):
            a = intents(m)
            e = [i for i in a if not any((j < i) if up else (j > i) for j in a)]
            return ('value', e[0])
        return f
    def built(f):
        def build(h):
            l = h.concepts()
            h.E.stubs['fca.algorithms.norris.norris'] = \
                lambda E, st, fn, args, kw, node: [(st, mk('tup', l, mk('ext', 'parents')))]
            c = h.context()
            h.settle()
            cl = h.A.cls('fca.concept_lattice', 'ConceptLattice')
            outs = []
            for s, v in h.E.instantiate(h.st, mk('cl', cl.cid), [c], {}, N0):
                if s.sig is not None:
                    outs.append((s, None))
                    continue
                for s2, m in h.E.getattr_(s, v, f, N0):
                    outs += [(s2, None)] if s2.sig is not None else h.E.call(s2, m, [], {}, N0)
            return outs, {}
        return build
    for f, d in (('get_top_concept', True), ('get_bottom_concept', False)):
        out.append(Case('ConceptLattice.%s' % f, built(f), extreme(d), intent_of, sizes=s,
                        prep=concepts_prep, n=20))
    cs = 'ConceptSystem'
    out.append(Case('%s.get_top_concept' % cs, cs_call('system', 'get_top_concept', False), extreme(True),
                    intent_of, sizes=s, prep=concepts_prep, n=20))
    out.append(Case('%s.get_bottom_concept' % cs, cs_call('system', 'get_bottom_concept', False),
                    extreme(False), intent_of, sizes=s, prep=concepts_prep, n=20))

    return out


def intent_of(ev, st, r, aux):
    from .decide import field
    return frozenset(x[2] for x in field(ev, ev.ev(r, {}, st), 'intent'))

