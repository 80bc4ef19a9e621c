"""Many-valued contexts and scaling (C19)."""
from .cases import Case, O
from .decide import field, Obj, Unknown
from .terms import mk, K, NONE
from . import terms as t_
from .api import N0, ax
from .spec_ctx import drop, prep_names, NEW

N = lambda t: mk('nsy', t)
SZ = {'G': (0, 1, 2, 3), 'V': (0, 1, 2, 3)}


def mvview(ev, st, ref, get):
    o = Obj(ref, st)
    d = {f: field(ev, o, f) for f in ('_objects', '_attributes', 'np_table', 'cross_table')}
    rows = [list(r) for r in d['cross_table']]
    if [list(r) for r in d['np_table']] != rows:
        return ('tables differ', d['np_table'], rows)
    return (list(d['_objects']), list(d['_attributes']), rows)


def own(ev, st, r, aux):
    return mvview(ev, st, aux['self'], None)


def ret(ev, st, r, aux):
    v = mvview(ev, st, r, None)
    return (st.heap[ev.E.oid(r)].cls.rsplit('.', 1)[-1],) + v


def val(ev, st, r, aux):
    return ev.ev(r, {}, st)


V = lambda i, j: ('v', i, j)


def table(m):
    return [[V(i, j) for j in range(m.size('V'))] for i in range(m.size('G'))]


def go(op, args, assume=()):
    def build(h):
        c = h.mv()
        a = args(h)
        h.settle()
        for kind, n, l in assume:
            getattr(h, kind)(N(n), l)
        return h.call(c, op, a), {'self': c, 'syms': {'val_': lambda ev, t, env, st: V(*[
            ev.flat(ev.ev(x, env, st)) for x in t.args])}}
    return build


def names(known=None):
    base = prep_names(known)

    def f(m):
        m.bind = {'objs': 'G', 'mvatts': 'V'}
        return base(m)
    return f


def many_valued():
    out = []
    add = lambda n, *a, **k: out.append(Case(n, *a, sizes=SZ, n=6, **k))
    x = lambda m: m.sets['x'][2]
    o, a = (lambda m: O(m, 'objs')), (lambda m: O(m, 'mvatts'))
    ko, ka = (('known_name', 'x', 'objs'), ('fresh_name', 'y', 'objs')), (
        ('known_name', 'x', 'mvatts'), ('fresh_name', 'y', 'mvatts'))
    cn = 'ManyValuedContext.'
    add(cn + '__deepcopy__', go('__deepcopy__', lambda h: [h.E_new_dict()]),
        lambda m: ('value', ('ManyValuedContext', o(m), a(m), table(m))), ret, prep=names())
    add(cn + 'rename_object', go('rename_object', lambda h: [N('x'), N('y')], ko),
        lambda m: ('value', ([m.sets['y'] if i == x(m) else e for i, e in enumerate(o(m))], a(m), table(m))),
        own, prep=names('objs'))
    add(cn + 'rename_attribute', go('rename_attribute', lambda h: [N('x'), N('y')], ka),
        lambda m: ('value', (o(m), [m.sets['y'] if i == x(m) else e for i, e in enumerate(a(m))], table(m))),
        own, prep=names('mvatts'))
    add(cn + 'delete_object', go('delete_object', lambda h: [N('x')], ko),
        lambda m: ('value', (drop(o(m), x(m)), a(m), drop(table(m), x(m)))), own, prep=names('objs'))
    add(cn + 'delete_attribute', go('delete_attribute', lambda h: [N('x')], ka),
        lambda m: ('value', (o(m), drop(a(m), x(m)), [drop(r, x(m)) for r in table(m)])), own,
        prep=names('mvatts'))

    def newrow(axis):
        def f(h):
            i = mk('ix', ax(axis), 0)
            from . import models as m_
            return h.list_(m_.seq(mk('map', ax(axis), i, mk('val_', K('new'), i))))
        return f
    fo, fa = (('fresh_name', 'x', 'objs'),), (('fresh_name', 'x', 'mvatts'),)
    add(cn + 'add_object', go('add_object', lambda h: [newrow('V')(h), N('x')], fo),
        lambda m: ('value', (o(m) + [NEW], a(m), table(m) + [[V('new', j) for j in range(m.size('V'))]])),
        own, prep=names())
    add(cn + 'add_attribute', go('add_attribute', lambda h: [newrow('G')(h), N('x')], fa),
        lambda m: ('value', (o(m), a(m) + [NEW], [r + [V('new', i)] for i, r in enumerate(table(m))])),
        own, prep=names())
    add(cn + 'extract_subcontext', go('extract_subcontext', lambda h: [h.sublist('V', 'B', 'mvatts', 'b')]),
        lambda m: ('value', ('ManyValuedContext', o(m), [a(m)[j] for j in range(m.size('V')) if m.rel('B', 'b', j)],
                             [[r[j] for j in range(m.size('V')) if m.rel('B', 'b', j)] for r in table(m)])),
        ret, prep=names())
    add(cn + 'get_table', go('get_table', lambda h: []), lambda m: ('value', table(m)),
        lambda ev, st, r, aux: [list(q) for q in ev.ev(r, {}, st)], prep=names())
    add(cn + '__len__', go('__len__', lambda h: []), lambda m: ('value', m.size('G')), val, prep=names())
    return out


def wanted(h):
    """attribute -> value dictionary over some attributes"""
    a = ax('V')
    i = mk('ix', a, 0)
    f = mk('filt', a, i, mk('B', K('b'), i))
    j = mk('ix', f, 0)
    return h.E.alloc(h.st, 'dict', N0, content=mk('dct', mk(
        'dmap', f, j, t_.el('mvatts', j), mk('val_', K('want'), j))))


def by_values():
    o, a = (lambda m: O(m, 'objs')), (lambda m: O(m, 'mvatts'))

    few = lambda m, i, j: m.h('val', i, j) % 2

    def spec(m):
        # few distinct values, so that some rows have the wanted ones
        V_, G_ = range(m.size('V')), range(m.size('G'))
        t = [[few(m, i, j) for j in V_] for i in G_]
        rows = [i for i in G_ if all(t[i][j] == few(m, 'want', j) for j in V_ if m.rel('B', 'b', j))]
        return ('value', ('ManyValuedContext', [o(m)[i] for i in rows], a(m), [t[i] for i in rows]))

    def build(h):
        outs, aux = go('extract_subcontext_by_attribute_values', lambda h: [wanted(h)])(h)
        aux['syms'] = {'val_': lambda ev, t, env, st: few(ev.m, *[ev.flat(ev.ev(x, env, st)) for x in t.args])}
        return outs, aux
    def keep(m):
        rows = [i for i in range(m.size('G')) if m.rel('B', 'cond', i)]
        return ('value', ('ManyValuedContext', [o(m)[i] for i in rows], a(m), [table(m)[i] for i in rows]))
    some = 'fca.algorithms.scaling.scale_mvcontext'

    def chosen(h):
        # any function of the position stands for the condition
        h.E.stubs[some] = lambda E, st, f, args, kw, node: [(st, mk('B', K('cond'), args[0]))]
        return go('extract_subcontext_by_condition', lambda h: [h.A.fn(*some.rsplit('.', 1))])(h)
    return [Case('ManyValuedContext.extract_subcontext_by_attribute_values', build, spec, ret, sizes=SZ, n=16,
                 prep=names()),
            Case('ManyValuedContext.extract_subcontext_by_condition', chosen, keep, ret, sizes=SZ, n=16,
                 prep=names())]


# ------------------------------------------------------------------ scales
def fields_only(E, st, f, args, kw, node):
    """Context.__init__ by its contract (C03): every view shows the arguments"""
    full = dict(zip(('self', 'cross_table', 'objects', 'attributes'), args))
    full.update(kw)
    for name, k in (('cross_table', 'cross_table'), ('np_table', 'cross_table'), ('_objects', 'objects'),
                    ('_attributes', 'attributes')):
        E.setf(st, full['self'], name, full[k], node, quiet=True)
    return [(st, NONE)]


def scale(cls, args):
    def build(h):
        c = h.A.cls('fca.scale', cls)
        h.settle()
        h.E.stubs['fca.context.Context.__init__'] = fields_only
        return h.E.instantiate(h.st, mk('cl', c.cid), args(h), {}, N0), {}
    return build


def bounds(m):
    m.sets['lo'] = m.h('lo') % 7 - 3
    m.sets['hi'] = m.sets['lo'] + m.size('G') - 1


def ordinal(mode):
    def spec(m):
        lo, hi = m.sets['lo'], m.sets['hi']
        v = range(lo, hi + 1)
        w, op = (v[1:], '>=') if mode == 'geq' else (v[:-1], '<=')
        return ('value', (['value == %d' % x for x in v], ['%s %d' % (op, x) for x in w],
                          [[x >= y if mode == 'geq' else x <= y for y in w] for x in v]))
    return spec


def scales():
    out = []
    I = lambda t: mk('isy', t)
    for l, mode, a in (('', 'leq', []), ('[leq]', 'leq', [K('leq')]), ('[geq]', 'geq', [K('geq')])):
        out.append(Case('OrdinalScale' + l, scale('OrdinalScale', lambda h, a=a: [I('lo'), I('hi')] + a),
                        ordinal(mode), lambda ev, st, r, aux: mvview(ev, st, r, None),
                        sizes={'G': (1, 2, 3, 4, 5)}, prep=bounds, anchor='OrdinalScale.__init__'))
    return out
