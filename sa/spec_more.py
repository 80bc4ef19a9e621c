"""Measures, labels and selections of concepts, tables and partial contexts (C22)."""
from fractions import Fraction

from .cases import Case, O, tab
from .api import N0, table_list, ax
from .terms import mk, K
from . import spec_lattice as sl
from .spec_ctx import val_view
from .spec_lattice import NORRIS, sets_of, members, some_system, listed, concepts_of, rows, view_list

F = 'fca.algorithms.filtering.'


def of_context(mod, fn, args=lambda h: []):
    """a function of the lattice of a context"""
    def build(h):
        cs, c = h.concepts(), h.context()
        listed(h.E, cs)
        h.settle()
        cl = h.A.cls('fca.concept_lattice', 'ConceptLattice')
        s, v = h.A.ok(h.E.instantiate(h.st, mk('cl', cl.cid), [c], {}, N0), 'ConceptLattice')[0]
        for k in s.__slots__:
            setattr(h.st, k, getattr(s, k))
        h.st.sig = None
        h.settle()
        return h.fn(mod, fn, [v] + args(h)), {}
    return build


def by_size(mode, opt):
    """selection of the concepts of a lattice by the size of their extents"""
    return of_context(F + 'filter', 'filter_concepts', lambda h: [
        h.A.fn(F + 'extentsize', 'compute_extent_size'), K(mode), K(opt)])


def noted(names):
    """measures noted about the concepts of a lattice, one after the other"""
    def build(h):
        cs, c = h.concepts(), h.context()
        listed(h.E, cs)
        h.settle()
        cl = h.A.cls('fca.concept_lattice', 'ConceptLattice')
        states = [h.A.ok(h.E.instantiate(h.st, mk('cl', cl.cid), [c], {}, N0), 'ConceptLattice')[0]]
        v = states[0][1]
        done, states = [], [states[0][0]]
        for k, name in enumerate(names):
            nxt = []
            for s in states:
                for q in s.__slots__:
                    setattr(h.st, q, getattr(s, q))
                h.st.sig = None
                h.settle()
                mod, fn = (('extentsize', 'compute_extent_size'), ('intentsize', 'compute_intent_size'))[k]
                for s2, r in h.fn(F + 'filter', 'compute_index', [v, h.A.fn(F + mod, fn), K(name)]):
                    if s2.sig is not None:
                        done.append((s2, r))
                    else:
                        nxt.append(s2.copy())
            states = nxt
        return done + [(s, h.E.getf(s, v, '_concepts')) for s in states], {}
    return build


def view_notes(ev, st, r, aux):
    from .decide import field
    return {sets_of(ev, o): {k: number(x) for k, x in field(ev, o, 'meta').items()} for o in ev.ev(r, {}, st)}


def notes(names):
    def spec(m):
        out = {}
        for e, i in members(m):
            d = out[e, i] = {}
            for k, n in enumerate(names):
                d[n] = number(Fraction(len((e, i)[k]), m.size('GM'[k])))
        return ('value', out)
    return spec


def view_system(ev, st, r, aux):
    return sorted((sets_of(ev, o) for o in ev.ev(ev.E.getf(st, r, '_concepts'), {}, st)),
                  key=lambda c: (sorted(c[0]), sorted(c[1])))


def view_sizes(ev, st, r, aux):
    cs = view_system(ev, st, r, aux)
    return sorted(len(e) for e, _ in cs), len(set(cs))


def at_least(t):
    return lambda m: ('value', sorted((c for c in members(m) if number(len(c[0]) / m.size('G')) >= number(t)),
                                      key=lambda c: (sorted(c[0]), sorted(c[1]))))


def largest(n):
    def spec(m):
        s = sorted((len(c[0]) for c in members(m)), reverse=True)[:n]
        return ('value', (sorted(s), len(s)))
    return spec


def number(v):
    return Fraction(v).limit_denominator(10 ** 6)


def view_numbers(ev, st, r, aux):
    return {sets_of(ev, k): number(x) for k, x in ev.ev(r, {}, st).items()}


def view_names(ev, st, r, aux):
    return {sets_of(ev, k): frozenset(n[2] for n in x) for k, x in ev.ev(r, {}, st).items()}


def some_lattice(m):
    sl.full(m)
    return True


def measure(f):
    return lambda m: ('value', {c: number(f(m, c)) for c in members(m)})


def separation(m, c):
    e, i = c
    if not e or not i:
        return 1
    r = rows(m)
    crossed = sum(len(x) for k, x in enumerate(r) if k in e) + sum(
        1 for x in r for a in x if a in i) - len(e) * len(i)
    return Fraction(len(e) * len(i), crossed)


def own(k):
    def spec(m):
        cs = members(m)
        return ('value', {c: frozenset(x for x in c[k] if not any(d[k] < c[k] and x in d[k] for d in cs))
                          for c in cs})
    return spec


def labels(fn):
    def build(h):
        cs = h.concepts()
        h.settle()
        return h.fn('fca.readwrite.dot', fn, [cs]), {}
    return build


def tables(h):
    l = table_list(h.E, h.st, ax('G'), ax('M'), 'c')
    r = table_list(h.E, h.st, ax('G'), ax('M'), 'd')
    h.settle()
    return h.fn('fca.compare_context', 'subseteq_table', [l, r]), {}


def other_tables(h):
    l = table_list(h.E, h.st, ax('G'), ax('M'), 'c')
    r = table_list(h.E, h.st, ax('GQ'), ax('MQ'), 'd')
    h.settle()
    return h.fn('fca.compare_context', 'subseteq_table', [l, r]), {}


def unlike(m):
    """tables of other sizes are refused"""
    if m.size('G') != m.size('GQ') or m.size('G') and m.size('M') != m.size('MQ'):
        return ('raise', ('ValueError',))
    return ('value', inside(m))


def inside(m):
    return all(not x or y for p, q in zip(tab(m), tab(m, 'd')) for x, y in zip(p, q))


def more():
    lat = {'G': (1, 2, 3), 'M': (1, 2, 3)}
    sys_ = {'M': (0, 1, 2, 3), 'C': (1, 2, 3, 4), 'G': (0, 1, 2, 3)}
    out = [
        Case('extentsize.compute_extent_size', of_context(F + 'extentsize', 'compute_extent_size'),
             measure(lambda m, c: Fraction(len(c[0]), m.size('G'))), view_numbers, sizes=lat, prep=some_lattice),
        Case('intentsize.compute_intent_size', of_context(F + 'intentsize', 'compute_intent_size'),
             measure(lambda m, c: Fraction(len(c[1]), m.size('M'))), view_numbers, sizes=lat, prep=some_lattice),
        Case('separation.compute_separation_index', of_context(F + 'separation', 'compute_separation_index'),
             measure(separation), view_numbers, sizes=lat, prep=some_lattice),
    ] + [
        Case('filter.compute_index[%s]' % t, noted(ns), notes(ns), view_notes, sizes=lat, prep=some_lattice)
        for t, ns in (('once', ['n']), ('two measures', ['n', 'k']), ('again under the same name', ['n', 'n']))
    ] + [
        Case('dot.find_own_objects', labels('find_own_objects'), own(0), view_names, sizes=sys_,
             prep=some_system),
        Case('dot.find_own_attributes', labels('find_own_attributes'), own(1), view_names, sizes=sys_,
             prep=some_system),
        Case('compare_context.subseteq_table', tables, lambda m: ('value', inside(m)), val_view,
             sizes={'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3)}, n=16),
        Case('compare_context.subseteq_table[any sizes]', other_tables, lambda m: unlike(m), val_view,
             sizes={'G': (0, 1, 2), 'M': (0, 1, 2), 'GQ': (0, 1, 2), 'MQ': (0, 1, 2)}, n=10),
    ]
    for t in (0.5, 1, 0):
        out.append(Case('filter.filter_concepts[value]', by_size('value', t), at_least(t), view_system,
                        sizes=lat, prep=some_lattice))
    for n in (0, 1, 2, 3):
        out.append(Case('filter.filter_concepts[abs]', by_size('abs', n), largest(n), view_sizes,
                        sizes=lat, prep=some_lattice))
    return out
