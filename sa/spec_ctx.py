"""Specifications of the context operations (C03, C05, C06, ...)."""
from .cases import Case, O, A, tab, models
from .decide import context_view, spec_context, Obj, field, Unknown
from .terms import mk, K
from .api import table_list, names_list, N0


def own_view(ev, st, r, aux):
    return context_view(ev, st, aux['self'])


def ret_view(ev, st, r, aux):
    if r is None or r.op != 'R':
        raise Unknown('not a context')
    return context_view(ev, st, r)


def val_view(ev, st, r, aux):
    v = ev.ev(r, {}, st)
    return v


def setval_view(ev, st, r, aux):
    v = ev.ev(r, {}, st)
    if isinstance(v, (list, tuple)):
        return frozenset(v)
    return v


NEW = ('n', 'new', 'x')


def prep_names(known=None):
    def f(m):
        if known is None:
            m.sets['x'] = NEW
            return True
        l = O(m, known)
        if not l:
            return False
        m.sets['x'] = l[m.h('pick') % len(l)]
        m.sets['y'] = ('n', 'new', 'y')
        return True
    return f


def mut(name, args, assume=()):
    """build: call a mutator on a symbolic context"""
    def build(h):
        c = h.context()
        a = args(h)
        h.settle()
        for kind, n, l in assume:
            getattr(h, kind)(mk('nsy', n), l)
        return h.call(c, name, a), {'self': c}
    return build


def drop(l, i):
    return l[:i] + l[i + 1:]


def rowB(m, rel, tag, n):
    return [m.rel(rel, tag, j) for j in range(m.size(n))]


def sp(f):
    return lambda m: ('value', f(m))


def ctor(*given):
    def build(h):
        args = {'cross_table': lambda: table_list(h.E, h.st, ax_('G'), ax_('M'), 'c'),
                'objects': lambda: names_list(h.E, h.st, ax_('G'), 'objs'),
                'attributes': lambda: names_list(h.E, h.st, ax_('M'), 'atts')}
        c = h.A.cls('fca.context', 'Context')
        kw = {k: args[k]() for k in given}
        h.settle()
        outs = h.E.instantiate(h.st, mk("cl", c.cid), [], kw, N0)
        return outs, {}
    return build


def mutators():
    out = [Case('Context.__init__', ctor('cross_table', 'objects', 'attributes'),
                sp(lambda m: spec_context(O(m), A(m), tab(m))), ret_view),
           Case('Context.__init__', ctor('attributes'),
                sp(lambda m: spec_context([], A(m), [])), ret_view),
           Case('Context.__init__', ctor(), sp(lambda m: spec_context([], [], [])), ret_view)]

    def add(name, args, assume, known, spec, **kw):
        out.append(Case('Context.' + name, mut(name, args, assume), sp(spec), own_view,
                        prep=prep_names(known), **kw))
    new_o = (('fresh_name', 'x', 'objs'),)
    new_a = (('fresh_name', 'x', 'atts'),)
    known_o = (('known_name', 'x', 'objs'), ('fresh_name', 'y', 'objs'))
    known_a = (('known_name', 'x', 'atts'), ('fresh_name', 'y', 'atts'))
    add('add_object', lambda h: [h.row('M', 'r'), h.name('x')], new_o, None,
        lambda m: spec_context(O(m) + [NEW], A(m), tab(m) + [rowB(m, 'rw', 'r', 'M')]))
    add('add_object_with_intent', lambda h: [h.sub('M', 'B', 'atts', 'b'), h.name('x')], new_o, None,
        lambda m: spec_context(O(m) + [NEW], A(m), tab(m) + [rowB(m, 'B', 'b', 'M')]))
    pos = {'G': (1, 2, 3), 'M': (0, 1, 2, 3)}
    add('add_attribute', lambda h: [h.row('G', 'r'), h.name('x')], new_a, None,
        lambda m: spec_context(O(m), A(m) + [NEW],
                               [r + [m.rel('rw', 'r', i)] for i, r in enumerate(tab(m))]))
    add('add_attribute_with_extent', lambda h: [h.sub('G', 'B', 'objs', 'b'), h.name('x')], new_a, None,
        lambda m: spec_context(O(m), A(m) + [NEW],
                               [r + [m.rel('B', 'b', i)] for i, r in enumerate(tab(m))]))

    def x(m):
        return m.sets['x'][2]
    add('set_object_intent', lambda h: [h.sub('M', 'B', 'atts', 'b'), h.name('x')], known_o, 'objs',
        lambda m: spec_context(O(m), A(m), [rowB(m, 'B', 'b', 'M') if i == x(m) else r
                                            for i, r in enumerate(tab(m))]))
    add('set_attribute_extent', lambda h: [h.sub('G', 'B', 'objs', 'b'), h.name('x')], known_a, 'atts',
        lambda m: spec_context(O(m), A(m), [[m.rel('B', 'b', i) if j == x(m) else v
                                             for j, v in enumerate(r)]
                                            for i, r in enumerate(tab(m))]))
    add('delete_object', lambda h: [h.name('x')], known_o, 'objs',
        lambda m: spec_context(drop(O(m), x(m)), A(m), drop(tab(m), x(m))))
    add('delete_attribute', lambda h: [h.name('x')], known_a, 'atts',
        lambda m: spec_context(O(m), drop(A(m), x(m)), [drop(r, x(m)) for r in tab(m)]))
    for form in ('sublist', 'shuffled', 'twice'):
        add('delete_attributes', lambda h, form=form: [getattr(h, form)('M', 'B', 'atts', 'b')], (), None,
            lambda m: spec_context(O(m), [a for a in A(m) if not m.rel('B', 'b', a[2])],
                               [[v for j, v in enumerate(r) if not m.rel('B', 'b', j)]
                                for r in tab(m)]))

    def chosen(m, tag='b'):
        return {m.h('ixf', tag, i) % m.size('M') for i in range(m.size('L'))} if m.size('M') else set()
    out.append(Case('Context.delete_attributes', mut('delete_attributes', lambda h: [
        h.repeated('M', 'atts', 'b')]), sp(lambda m: spec_context(
            O(m), [a for a in A(m) if a[2] not in chosen(m)],
            [[v for j, v in enumerate(r) if j not in chosen(m)] for r in tab(m)])), own_view,
        sizes={'G': (0, 1, 2), 'M': (1, 2, 3), 'L': (0, 1, 2, 3)}))
    add('rename_object', lambda h: [h.name('x'), h.name('y')], known_o, 'objs',
        lambda m: spec_context([m.sets['y'] if i == x(m) else o for i, o in enumerate(O(m))],
                               A(m), tab(m)))
    add('rename_attribute', lambda h: [h.name('x'), h.name('y')], known_a, 'atts',
        lambda m: spec_context(O(m), [m.sets['y'] if i == x(m) else o for i, o in enumerate(A(m))],
                               tab(m)))
    return out


# ------------------------------------------------------------- derived (C05)
def derived():
    out = []

    def add(name, args, spec, prep=None, assume=(), view=ret_view, **kw):
        out.append(Case('Context.' + name, mut(name, args, assume), sp(spec), view,
                        prep=prep, **kw))
    T = lambda t, n: [[r[j] for r in t] for j in range(n)]
    add('transpose', lambda h: [], lambda m: spec_context(A(m), O(m), T(tab(m), m.size('M'))),
        )
    add('extract_subcontext', lambda h: [h.sublist('M', 'B', 'atts', 'b')],
        lambda m: spec_context(O(m), [a for a in A(m) if m.rel('B', 'b', a[2])],
                               [[v for j, v in enumerate(r) if m.rel('B', 'b', j)] for r in tab(m)]))

    def flt(mode):
        q = all if mode == 'and' else any

        def f(m):
            bs = [j for j in range(m.size('M')) if m.rel('B', 'b', j)]
            keep = [i for i, r in enumerate(tab(m)) if q(r[j] for j in bs)]
            return spec_context([O(m)[i] for i in keep], A(m), [tab(m)[i] for i in keep])
        return f
    add('extract_subcontext_filtered_by_attributes',
        lambda h: [h.sublist('M', 'B', 'atts', 'b'), K('and')], flt('and'))
    add('extract_subcontext_filtered_by_attributes',
        lambda h: [h.sublist('M', 'B', 'atts', 'b'), K('or')], flt('or'))
    out[-2].name += '[and]'
    out[-1].name += '[or]'

    def comp(m):
        return [[not v for v in r] for r in tab(m)]

    def neg(m):
        return [('s', 'not ', a) for a in A(m)]

    def cv(ev, st, r, aux):
        v = context_view(ev, st, r, fields=('_objects', '_attributes', 'np_table', 'cross_table'))
        return v
    add('complementary', lambda h: [],
        lambda m: dict(objects=O(m), attributes=neg(m), table=comp(m), cross_table=comp(m)), view=cv)
    add('compound', lambda h: [],
        lambda m: dict(objects=O(m), attributes=A(m) + neg(m),
                       table=[r + s for r, s in zip(tab(m), comp(m))],
                       cross_table=[r + s for r, s in zip(tab(m), comp(m))]), view=cv)

    def noempty(m):
        k = [i for i, r in enumerate(tab(m)) if any(r)]
        return spec_context([O(m)[i] for i in k], A(m), [tab(m)[i] for i in k])
    add('remove_empty_objects', lambda h: [], noempty)

    def pairs(m):
        return [(O(m)[i], A(m)[j]) for i, r in enumerate(tab(m)) for j, v in enumerate(r) if v]
    add('get_object_attribute_pairs', lambda h: [], pairs, view=val_view)

    # clarification keeps each distinct row once
    def clar_view(ev, st, r, aux):
        v = context_view(ev, st, r)
        rows = sorted(map(tuple, v['table']))
        d = dict(zip(v['objects'], map(tuple, v['table'])))
        return (tuple(rows), all(d[o] == tuple(ev.m_tab[o[2]]) for o in d), tuple(v['attributes']))

    def mul_build(h):
        c = h.context()
        d = h.context('d', g=ax_('M'), m=ax_('N'), gname='atts', mname='attsd')
        h.settle()
        return h.call(c, '__mul__', [d]), {'self': c}
    def mulspec(m):
        t, u = tab(m), tab(m, 'd', 'M', 'N')
        return spec_context(O(m), O(m, 'attsd'),
                            [[any(t[i][k] and u[k][j] for k in range(m.size('M')))
                              for j in range(m.size('N'))] for i in range(m.size('G'))])
    out.append(Case('Context.__mul__', mul_build, sp(mulspec), ret_view,
                    sizes={'G': (1, 2), 'M': (1, 2), 'N': (1, 2)}))
    return out


def ax_(n):
    return mk('ax', n)


# ----------------------------------------------------- derivation (C06)
def derivations():
    out = []

    def add(name, args, spec, prep=None, assume=(), label=None, view=setval_view, **kw):
        out.append(Case('Context.' + (label or name), mut(name, args, assume), sp(spec), view,
                        prep=prep, **kw))

    def up(m, bs):
        return frozenset(A(m)[j] for j in range(m.size('M')) if all(tab(m)[i][j] for i in bs))

    def down(m, bs):
        return frozenset(O(m)[i] for i in range(m.size('G')) if all(tab(m)[i][j] for j in bs))

    def sel(m, axn):
        return [i for i in range(m.size(axn)) if m.rel('B', 'b', i)]
    ix = lambda s: frozenset(x[2] for x in s)
    iset = lambda s: [x[2] for x in s]
    fs = {
        'oprime': ('G', lambda m: up(m, sel(m, 'G'))),
        'aprime': ('M', lambda m: down(m, sel(m, 'M'))),
        'oclosure': ('G', lambda m: down(m, iset(up(m, sel(m, 'G'))))),
        'aclosure': ('M', lambda m: up(m, iset(down(m, sel(m, 'M'))))),
    }
    for n, (axn, f) in sorted(fs.items()):
        l = 'objs' if axn == 'G' else 'atts'
        for form in ('sub', 'sublist'):
            add(n, lambda h, form=form, axn=axn, l=l: [getattr(h, form)(axn, 'B', l, 'b')], f,
                label='%s[%s]' % (n, form))
        for form in ('set', 'list'):
            add(n + '_inds', lambda h, form=form, axn=axn: [h.indices(axn, 'B', 'b', form)],
                lambda m, f=f: ix(f(m)), label='%s_inds[%s]' % (n, form),
                sizes={'G': (1, 2, 3), 'M': (0, 1, 2, 3)})
    known_o = (('known_name', 'x', 'objs'),)
    known_a = (('known_name', 'x', 'atts'),)
    x = lambda m: m.sets['x'][2]
    add('get_object_intent', lambda h: [h.name('x')], lambda m: up(m, [x(m)]),
        prep_names('objs'), known_o)
    add('get_attribute_extent', lambda h: [h.name('x')], lambda m: down(m, [x(m)]),
        prep_names('atts'), known_a)

    def lists(ev, st, r, aux):
        v = ev.ev(r, {}, st)
        return [frozenset(t) for t in v]
    for n in ('examples', 'intents'):
        add(n, lambda h: [], lambda m: [up(m, [i]) for i in range(m.size('G'))], view=lists)

    # the operators of fca.algorithms.closure_operators
    def fbuild(n, axn, l):
        def b(h):
            c = h.context()
            s = h.sub(axn, 'B', l, 'b')
            h.settle()
            return h.fn('fca.algorithms.closure_operators', n, [s, c]), {'self': c}
        return b
    for n, (axn, f) in sorted(fs.items()):
        l = 'objs' if axn == 'G' else 'atts'
        out.append(Case('closure_operators.' + n, fbuild(n, axn, l), sp(f), setval_view,
                        sizes={'G': (1, 2, 3), 'M': (0, 1, 2, 3)}))
    return out
