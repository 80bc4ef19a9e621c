"""Partial contexts: what is known and what is possible (C23)."""
from .cases import Case, O, A
from .api import ax, names_list, N0
from .decide import Obj, context_view, spec_context, field
from .spec_ctx import NEW, setval_view, prep_names
from . import models as m_
from .terms import mk, b_or


def table(h, f):
    g, n = ax('G'), ax('M')
    i, j = mk('ix', g, 0), mk('ix', n, 0)
    h.E.ixs.append(i)
    row = h.list_(m_.seq(mk('map', n, j, f(i, j))))
    h.E.ixs.pop()
    return h.list_(m_.seq(mk('map', g, i, row)))


def sure(i, j):
    return mk('I', 'px', i, j)


def maybe(i, j):
    return b_or(mk('I', 'px', i, j), mk('I', 'pq', i, j))


def parts(h):
    return [table(h, sure), table(h, maybe), names_list(h.E, h.st, ax('G'), 'objs'),
            names_list(h.E, h.st, ax('M'), 'atts')]


def partial(h):
    return h.new('fca.partial_context', 'PartialContext', parts(h))


def x(m):
    return [[m.rel('I', 'px', i, j) for j in range(m.size('M'))] for i in range(m.size('G'))]


def q(m):
    return [[m.rel('I', 'px', i, j) or m.rel('I', 'pq', i, j) for j in range(m.size('M'))]
            for i in range(m.size('G'))]


def view(ev, st, r, aux):
    o = Obj(r, st)
    return {f: context_view(ev, st, field(ev, o, f + '_context')) for f in 'xq'}, \
        list(field(ev, o, 'objects')), list(field(ev, o, 'attributes'))


def own(ev, st, r, aux):
    return view(ev, st, aux['self'], aux)


def want(objs, atts, xt, qt):
    return ('value', ({'x': spec_context(objs, atts, xt), 'q': spec_context(objs, atts, qt)},
                      list(objs), list(atts)))


def on(op, args=lambda h: [], fresh=False):
    def build(h):
        p = partial(h)
        a = args(h)
        h.settle()
        if fresh:
            h.fresh_name(mk('nsy', 'x'), 'objs')
        return h.call(p, op, a), {'self': p}
    return build


def made(h):
    a = parts(h)
    h.settle()
    c = h.A.cls('fca.partial_context', 'PartialContext')
    return h.E.instantiate(h.st, mk('cl', c.cid), a, {}, N0), {}


def made_any(h):
    a = [table(h, sure), table(h, lambda i, j: mk('I', 'pq', i, j))] + parts(h)[2:]
    h.settle()
    c = h.A.cls('fca.partial_context', 'PartialContext')
    return h.E.instantiate(h.st, mk('cl', c.cid), a, {}, N0), {}


def any_tables(m):
    xt = x(m)
    qt = [[m.rel('I', 'pq', i, j) for j in range(m.size('M'))] for i in range(m.size('G'))]
    if any(a and not b for r, s in zip(xt, qt) for a, b in zip(r, s)):
        return ('raise', 'ValueError')
    return want(O(m), A(m), xt, qt)


def flip(t, n):
    return [[r[j] for r in t] for j in range(n)]


def rows(t):
    return [frozenset(('n', 'atts', j) for j, v in enumerate(r) if v) for r in t]


def pairs_view(ev, st, r, aux):
    return [tuple(frozenset(s) for s in t) for t in ev.ev(r, {}, st)]


def sub(m, tag):
    return [m.rel('B', tag, j) for j in range(m.size('M'))]


def closure(m):
    b = sub(m, 'b')
    objs = [i for i, r in enumerate(x(m)) if all(v or not w for v, w in zip(r, b))]
    return frozenset(('n', 'atts', j) for j in range(m.size('M')) if all(q(m)[i][j] for i in objs))


def added(m):
    b, d = sub(m, 'b'), sub(m, 'd')
    if any(v and not w for v, w in zip(b, d)):
        return ('raise', 'ValueError')
    return want(O(m) + [NEW], A(m), x(m) + [b], q(m) + [d])


def dense(m):
    m.dn[('I', 'px')] = (200, 350, 500)[m.h('dx') % 3]
    m.dn[('I', 'pq')] = (200, 350, 500)[m.h('dq') % 3]
    m.dn[('B', 'b')] = (150, 300, 500)[m.h('db') % 3]
    m.dn[('B', 'd')] = (500, 800, 950)[m.h('dd') % 3]
    return True


def fresh(m):
    return dense(m) and prep_names(None)(m)


def partials():
    out = [Case('PartialContext.__init__', made, lambda m: want(O(m), A(m), x(m), q(m)), view),
           Case('PartialContext.__init__[any tables]', made_any, any_tables, view),
           Case('PartialContext.transpose', on('transpose'),
                lambda m: want(A(m), O(m), flip(x(m), m.size('M')), flip(q(m), m.size('M'))), view),
           Case('PartialContext.__deepcopy__', on('__deepcopy__', lambda h: [h.E_new_dict()]),
                lambda m: want(O(m), A(m), x(m), q(m)), view),
           Case('PartialContext.intents', on('intents'),
                lambda m: ('value', list(zip(rows(x(m)), rows(q(m))))), pairs_view),
           Case('PartialContext.xq_aclosure', on('xq_aclosure', lambda h: [h.sub('M', 'B', 'atts', 'b')]),
                lambda m: ('value', closure(m)), setval_view),
           Case('PartialContext.add_object_with_intent', on(
               'add_object_with_intent', lambda h: [mk('tup', h.sub('M', 'B', 'atts', 'b'),
                                                       h.sub('M', 'B', 'atts', 'd')), h.name('x')], True),
                added, own, prep=fresh)]
    for c in out:
        c.n, c.prep = 24, c.prep or dense
    return out

