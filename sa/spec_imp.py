"""Implications: satisfaction (C07), equality and hashing (C11)."""
from .cases import Case
from .decide import Obj, field, Unknown
from .harness import subset
from .api import ax
from .terms import mk, K
from . import models as m_

SZ = {'M': (0, 1, 2, 3)}


def dense(*tags):
    def f(m):
        for t in tags:
            m.dn[('P', t)] = (0, 200, 500)[m.h('dP', t) % 3]
            m.dn[('Q', t)] = (0, 300, 600)[m.h('dQ', t) % 3]
        return True
    return f


def P(m, t='u', *k):
    return frozenset(j for j in range(m.size('M')) if m.rel('P', t, *(k + (j,))))


def Q(m, t='u', *k):
    return frozenset(j for j in range(m.size('M')) if m.rel('Q', t, *(k + (j,))))


def B(m, t='b'):
    return frozenset(j for j in range(m.size('M')) if m.rel('B', t, j))


def truth(ev, st, r, aux):
    return bool(ev.ev(r, {}, st))


def nms(s):
    return frozenset(('n', 'atts', j) for j in s)


def satisfied(kind, p, q, c, poss):
    """c: attributes an object certainly has, poss: may have"""
    if kind == 'NegativeImplication':
        return not (p <= c and (q - p) & poss)
    return not (p <= c and not (q - p) <= poss)


def pairs(h):
    """certain attributes are possible"""
    c, p = h.sub('M', 'B', 'atts', 'b'), h.sub('M', 'B', 'atts', 'd')
    return mk('tup', c, p)


def on_imp(cls, op, args):
    def build(h):
        i = h.implication('u', cls)
        a = args(h)
        h.settle()
        return h.call(i, op, a), {'self': i}
    return build


def unit(op, args):
    def build(h):
        j = mk('ix', ax('M'), 0)
        i = h.new('fca.implication', 'UnitImplication', [h.sub('M', 'P', 'atts', 'u'), mk('nsy', 'x')])
        a = args(h)
        h.settle()
        return h.call(i, op, a), {'self': i}
    return build


def satisfaction():
    out = []
    b = lambda h: h.sub('M', 'B', 'atts', 'b')
    for cls in ('Implication', 'NegativeImplication'):
        out.append(Case('%s.is_respected[set]' % cls, on_imp(cls, 'is_respected', lambda h: [b(h)]),
                        lambda m, cls=cls: ('value', satisfied(cls, P(m), Q(m), B(m), B(m))), truth,
                        sizes=SZ, prep=dense('u'), n=40))
        out.append(Case('%s.is_respected[partial]' % cls,
                        on_imp(cls, 'is_respected', lambda h: [pairs(h)]),
                        lambda m, cls=cls: ('value', satisfied(cls, P(m), Q(m), B(m), B(m, 'd'))), truth,
                        sizes=SZ, prep=dense('u'), n=40))
        out.append(Case('%s.get_premise' % cls, on_imp(cls, 'get_premise', lambda h: []),
                        lambda m: ('value', nms(P(m))), val, sizes=SZ, n=10))
        out.append(Case('%s.get_conclusion' % cls, on_imp(cls, 'get_conclusion', lambda h: []),
                        lambda m: ('value', nms(Q(m))), val, sizes=SZ, n=10))
        out.append(Case('%s.get_reduced_conclusion' % cls,
                        on_imp(cls, 'get_reduced_conclusion', lambda h: []),
                        lambda m: ('value', nms(Q(m) - P(m))), val, sizes=SZ, n=10))

    def unit_prep(m):
        if not m.size('M'):
            return False
        m.bind = {'objs': 'G', 'atts': 'M'}
        k = m.h('x') % m.size('M')
        m.sets['x'] = ('n', 'atts', k)
        return dense('u')(m) and k not in P(m)
    ux = lambda m: frozenset([m.sets['x'][2]])
    out.append(Case('UnitImplication.is_respected[set]', unit('is_respected', lambda h: [b(h)]),
                    lambda m: ('value', satisfied('', P(m), ux(m), B(m), B(m))), truth,
                    sizes=SZ, prep=unit_prep, n=40))
    out.append(Case('UnitImplication.is_respected[partial]', unit('is_respected', lambda h: [pairs(h)]),
                    lambda m: ('value', satisfied('', P(m), ux(m), B(m), B(m, 'd'))), truth,
                    sizes=SZ, prep=unit_prep, n=40))
    # conjunctions of implications
    e2 = 'fca.algorithms.exploration2.exploration'

    def basis(h):
        s = h.session()
        x = h.E.getf(h.st, s, '_basis')
        a = b(h)
        h.settle()
        return h.call(x, 'respect_background_knowledge', [a]), {}

    def allok(tag, side):
        def f(m):
            r = range(m.size(side))
            s = frozenset(j for j in r if m.rel('B', 'b', j))
            return ('value', all(satisfied('', frozenset(j for j in r if m.rel('P', tag, k, j)),
                                           frozenset(j for j in r if m.rel('Q', tag, k, j)), s, s)
                                 for k in range(m.size(tag))))
        return f
    out.append(Case('Basis.respect_background_knowledge', basis, allok('CA', 'M'), truth,
                    sizes={'M': (0, 1, 2, 3), 'CA': (0, 1, 2)}, prep=dense('CA'), n=20))

    def chk(op, arg):
        def f(h):
            x = h.basic_exploration()
            a = arg(h)
            h.settle()
            return h.call(x, op, [a]), {}
        return f
    out.append(Case('BasicExploration.check_intent_for_conflicts', chk('check_intent_for_conflicts', b),
                    allok('CA', 'M'), truth, sizes={'M': (0, 1, 2, 3), 'CA': (0, 1, 2)},
                    prep=dense('CA'), n=20))
    out.append(Case('BasicExploration.check_extent_for_conflicts',
                    chk('check_extent_for_conflicts', lambda h: h.sub('G', 'B', 'objs', 'b')),
                    allok('CO', 'G'), truth, sizes={'G': (0, 1, 2, 3), 'CO': (0, 1, 2)},
                    prep=dense('CO'), n=20))
    return out


def val(ev, st, r, aux):
    v = ev.ev(r, {}, st)
    return frozenset(v) if isinstance(v, (set, frozenset, list, tuple)) else v
