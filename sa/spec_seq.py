"""Histories of operations: answers after an edit are those of the edited
context (C12)."""
from .cases import Case, O, A, tab
from .decide import Obj, field, Unknown
from .terms import mk, K
from .spec_ctx import drop, rowB, NEW, setval_view, val_view, ret_view, prep_names
from .spec_exp import ok_only
from .api import N0

N = lambda t: mk('nsy', t)


class C(object):
    """plain formal context: what the answers are specified over"""
    def __init__(self, objs, atts, table):
        self.o, self.a, self.t = list(objs), list(atts), [list(r) for r in table]

    def up(self, objs):
        ix = [self.o.index(g) for g in objs]
        return frozenset(a for j, a in enumerate(self.a) if all(self.t[i][j] for i in ix))

    def down(self, atts):
        ix = [self.a.index(a) for a in atts]
        return frozenset(o for i, o in enumerate(self.o) if all(self.t[i][j] for j in ix))


def lists(ev, st, r, aux):
    return [frozenset(t) for t in ev.ev(r, {}, st)]


def cview(full=False):
    def f(ev, st, r, aux):
        from .decide import context_view
        v = context_view(ev, st, r, fields=('_objects', '_attributes', 'np_table'))
        return (v['objects'], v['attributes'], v['table'])
    return f


def qsub(axis, l):
    return lambda h: h.sub(axis, 'B', l, 'q')


def setq(m, l):
    side = m.bind[l]
    return [('n', l, i) for i in range(m.size(side)) if m.rel('B', 'q', i)]


NOT = lambda a: ('s', 'not ', a)

# name -> (operation, arguments, specification over C, view)
QUERIES = [
    ('oprime', [qsub('G', 'objs')], lambda c, m: c.up(setq(m, 'objs')), setval_view),
    ('aprime', [qsub('M', 'atts')], lambda c, m: c.down(setq(m, 'atts')), setval_view),
    ('oclosure', [qsub('G', 'objs')], lambda c, m: c.down(c.up(setq(m, 'objs'))), setval_view),
    ('aclosure', [qsub('M', 'atts')], lambda c, m: c.up(c.down(setq(m, 'atts'))), setval_view),
    ('get_object_intent', [lambda h: N('w')], lambda c, m: c.up([m.sets['w']]), setval_view),
    ('get_attribute_extent', [lambda h: N('v')], lambda c, m: c.down([m.sets['v']]), setval_view),
    ('examples', [], lambda c, m: [c.up([o]) for o in c.o], lists),
    ('transpose', [], lambda c, m: (c.a, c.o, [[r[j] for r in c.t] for j in range(len(c.a))]), cview()),
    ('complementary', [], lambda c, m: (c.o, [NOT(a) for a in c.a], [[not v for v in r] for r in c.t]),
     cview()),
    ('get_object_attribute_pairs', [], lambda c, m: [(o, a) for o, r in zip(c.o, c.t)
                                                     for a, v in zip(c.a, r) if v], val_view),
    ('__len__', [], lambda c, m: len(c.o), val_view),
    ('get_table', [], lambda c, m: tuple(tuple(bool(v) for v in r) for r in c.t),
     lambda ev, st, r, aux: tuple(tuple(bool(v) for v in x) for x in ev.ev(r, {}, st))),
]


def x(m):
    return m.sets['x'][2]


def B(m, side):
    return [m.rel('B', 'b', i) for i in range(m.size(side))]


fo, fa = (('fresh_name', 'x', 'objs'),), (('fresh_name', 'x', 'atts'),)
ko = (('known_name', 'x', 'objs'), ('fresh_name', 'y', 'objs'))
ka = (('known_name', 'x', 'atts'), ('fresh_name', 'y', 'atts'))
so, sa = (lambda h: h.sub('G', 'B', 'objs', 'b')), (lambda h: h.sub('M', 'B', 'atts', 'b'))
EDITS = [
    ('add_object_with_intent', [sa, lambda h: N('x')], fo, None,
     lambda m: C(O(m) + [NEW], A(m), tab(m) + [B(m, 'M')])),
    ('add_attribute_with_extent', [so, lambda h: N('x')], fa, None,
     lambda m: C(O(m), A(m) + [NEW], [r + [b] for r, b in zip(tab(m), B(m, 'G'))])),
    ('set_object_intent', [sa, lambda h: N('x')], ko, 'objs',
     lambda m: C(O(m), A(m), [B(m, 'M') if i == x(m) else r for i, r in enumerate(tab(m))])),
    ('set_attribute_extent', [so, lambda h: N('x')], ka, 'atts',
     lambda m: C(O(m), A(m), [[m.rel('B', 'b', i) if j == x(m) else v for j, v in enumerate(r)]
                              for i, r in enumerate(tab(m))])),
    ('delete_object', [lambda h: N('x')], ko, 'objs',
     lambda m: C(drop(O(m), x(m)), A(m), drop(tab(m), x(m)))),
    ('delete_attribute', [lambda h: N('x')], ka, 'atts',
     lambda m: C(O(m), drop(A(m), x(m)), [drop(r, x(m)) for r in tab(m)])),
    ('rename_object', [lambda h: N('x'), lambda h: N('y')], ko, 'objs',
     lambda m: C([m.sets['y'] if i == x(m) else o for i, o in enumerate(O(m))], A(m), tab(m))),
    ('rename_attribute', [lambda h: N('x'), lambda h: N('y')], ka, 'atts',
     lambda m: C(O(m), [m.sets['y'] if i == x(m) else o for i, o in enumerate(A(m))], tab(m))),
]


def prep(known, gone):
    """x is the edited element, w and v the queried ones; queries do not
    mention an element that the edit removes"""
    base = prep_names(known)

    def f(m):
        m.bind = {'objs': 'G', 'atts': 'M'}
        if not m.size('G') or not m.size('M') or base(m) is False:
            return False
        m.sets['y'] = ('n', 'new', 'y')
        for n, l in (('w', 'objs'), ('v', 'atts')):
            pool = [e for e in O(m, l) if not (gone and e == m.sets['x'])]
            if not pool:
                return False
            m.sets[n] = pool[m.h('q', n) % len(pool)]
        if gone:
            m.fixed[('B', 'q', m.sets['x'][2])] = False
        return True
    return f


def after(q, e):
    """ask, edit, ask again: the second answer"""
    qn, qargs, qspec, qview = q
    en, eargs, assume, known, espec = e

    def build(h):
        c = h.context()
        steps = [(qn, [f(h) for f in qargs]), (en, [f(h) for f in eargs]), (qn, [f(h) for f in qargs])]
        h.settle()
        for kind, n, l in assume:
            getattr(h, kind)(N(n), l)
        h.known_name(N('w'), 'objs')
        h.known_name(N('v'), 'atts')
        outs = [(h.st, None)]
        for n, a in steps:
            nxt = []
            for s, v in outs:
                if s.sig is not None:
                    nxt.append((s, v))
                    continue
                h.st = s
                nxt += h.call(c, n, a)
            outs = nxt
        return outs, {'self': c}

    def spec(m):
        c = espec(m)
        gone = en.startswith(('delete', 'rename'))
        l = {'objs': 'G', 'atts': 'M'}.get(known)
        return ('value', qspec(c, m))
    gone = en.startswith(('delete', 'rename'))
    k = Case('Context.%s[%s; %s; %s]' % (en, qn, en, qn), build, spec, qview,
             sizes={'G': (1, 2, 3), 'M': (1, 2, 3)}, prep=prep(known, gone), n=5)
    return ok_only(k)


def context_histories():
    return [after(q, e) for e in EDITS for q in QUERIES]


# ------------------------------------------------- bases, then edits
def basis_then(op, q, e):
    """compute implications, ask, edit, ask: no memo of the basis computation survives"""
    case = after(q, e)
    b0 = case.build

    def build(h):
        h.stub_bases()
        c0 = h.context
        def ctx():
            c = c0()
            outs = [(s, v) for s, v in h.call(c, op) if s.sig is None]
            if len(outs) != 1:
                from .loader import AnalysisBroken
                raise AnalysisBroken('%d outcomes of %s' % (len(outs), op))
            h.st = outs[0][0]
            return c
        h.context = ctx
        try:
            return b0(h)
        finally:
            h.context = c0
    case.build = build
    case.name = case.name.replace('[', '[%s; ' % op, 1)
    return case


def memo_histories():
    qs = [q for q in QUERIES if q[0] in ('get_object_intent', 'get_attribute_extent', 'examples')]
    es = [e for e in EDITS if e[0] in ('set_object_intent', 'set_attribute_extent', 'rename_attribute',
                                       'delete_object')]
    return [basis_then(op, q, e) for op in ('get_attribute_implications', 'get_object_implications',
                                            'get_attribute_canonical_basis')
            for q in qs for e in es]


# ------------------------------------------- results kept in fields
RECV = {
    'Context': ('fca.context', lambda h: h.context(), ()),
    'ManyValuedContext': ('fca.mvcontext', lambda h: h.mv(), ()),
    'PartialContext': ('fca.partial_context', lambda h: h.partial(), ()),
    'ConceptSystem': ('fca.concept_system', lambda h: h.system(), ()),
}


def attr_stores(fn):
    """attributes of a parameter of the function that it stores or updates in place"""
    import ast
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x}
    params |= {x.arg for d in ast.walk(fn) if isinstance(d, ast.FunctionDef) and d is not fn
               for x in d.args.args + [d.args.vararg] if x}

    def owned(e):
        if isinstance(e, ast.Subscript):
            e = e.value
        return isinstance(e, ast.Name) and e.id in params
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and owned(n.value):
            out.add(n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
                isinstance(n.value, ast.Attribute) and owned(n.value.value):
            out.add(n.value.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and owned(n.args[0]):
            out.add(n.args[1].value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Attribute) and owned(n.func.value.value) and \
                n.func.attr in ('setdefault', 'update', 'append', 'add', 'extend', 'insert'):
            out.add(n.func.value.attr)
    return {f for f in out if not f.startswith('__')}


class Lazy(object):
    """a field that queries fill from the data is emptied by every edit"""
    def __init__(self, cls, entry):
        self.cls, self.e = cls, entry
        self.name = 'kept results:%s' % entry.name

    def decide(self, root, tier):
        import ast
        from . import run as r_
        from .engine import Budget
        from .loader import AnalysisBroken
        from .harness import H
        from .decide import Ev, pc_holds
        from .spec_eff import models, RELS
        try:
            h0 = H(root=root)
            edits = EDIT_NAMES[self.cls]
            info = h0.A.cls(RECV[self.cls][0], self.cls)
            members, lazy, sites = set(), {}, {}
            for mod, cls, node, rel in h0.E.repo.defs():
                if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                own = cls == self.cls or cls == 'Context' and self.cls == 'ManyValuedContext'
                if own:
                    members.add(node.name)
                elif cls is not None:
                    continue
                if node.name.startswith('__') or node.name in edits:
                    continue
                if not own and mod not in (RECV[self.cls][0], RECV[self.cls][0].replace('mvcontext', 'context')):
                    continue
                for f in attr_stores(node):
                    lazy.setdefault(f, set()).add('%s:%s %s' % (rel, node.lineno, node.name))
            recv = RECV[self.cls][1](h0)
            o = h0.E.obj(h0.st, recv)
            have = dict(o.fields)
            fields = []
            for f in sorted(lazy):
                v = have.get(f)
                if f in members:
                    continue
                if v is None or v.op == 'k' and v.args[-1] in (None, False):
                    if not self.own(h0, f):
                        continue
                    fields.append((f, 'value'))
                elif v.op == 'R':
                    c = h0.E.obj(h0.st, v)
                    if c.kind in ('dict', 'list', 'set') and c.content is not None and (
                            c.content.op in ('dct', 'seq') and not c.content.args):
                        fields.append((f, 'content'))
            fs, n, open_ = [], 0, 0
            mark = mk('ext', 'kept result')

            def pre(h):
                for f, how in fields:
                    if how == 'value':
                        h.setf(h.recv0, f, mark)
                        continue
                    v = h.E.getf(h.st, h.recv0, f)
                    if h.E.obj(h.st, v).kind == 'dict':
                        h.E.setcontent(h.st, v, mk('dct', mk('de', K('kept'), mark)), N0, None)
            h, outs = self.run(root, pre)
            for s, v in outs:
                if s.sig is not None:
                    continue
                n += 1
                for f, how in fields:
                    w = h.E.getf(s, h.recv0, f)
                    if how == 'content' and w is not None and w.op == 'R':
                        c = h.E.obj(s, w).content
                        stale = c is not None and c.op == 'dct' and any(
                            x.op == 'de' and x.args[1] is mark for x in c.args)
                    else:
                        stale = w is mark
                    known = self.reachable(h, s) if stale and self.changed(h, s) else False
                    if known is None:
                        open_ += 1
                    elif known:
                        fs.append(r_.finding(
                            '%s|%s' % (self.e.name, f), '; '.join(sorted(lazy[f])),
                            '%s returns with .%s still holding what a query (%s) stored before the edit' % (
                                self.e.name, f, ', '.join(sorted(lazy[f])))))
        except (Budget, AnalysisBroken) as e:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(e).__name__, e))
        return r_.result(self.name, 'violated' if fs else 'holds' if n and not open_ else 'undecided', fs,
                         outcomes=n, undecided_paths=open_, kept_fields=len(fields))

    def own(self, h, f):
        """the class (or a function of the package applied to it) reads the field"""
        import ast
        for mod, cls, node, rel in h.E.repo.defs():
            if isinstance(node, ast.FunctionDef):
                for n in ast.walk(node):
                    if isinstance(n, ast.Attribute) and n.attr == f and isinstance(n.ctx, ast.Load):
                        if cls in (None, self.cls) or cls == 'Context':
                            return True
        return False

    def run(self, root, pre):
        from .harness import H
        h = H(root=root)
        recv, args = self.e.build(h)
        h.recv0 = recv
        if pre:
            pre(h)
        h.settle()
        h.initial = h.st.copy()
        return h, h.call(recv, self.e.fn, args)

    def reachable(self, h, s):
        from .decide import Ev, pc_holds
        from .spec_eff import models
        from .harness import RELS
        got = [pc_holds(Ev(h.E, m, RELS), s) for m in models()]
        return True if True in got else None if None in got else False

    def changed(self, h, s):
        return any(e[0] in ('setf', 'mut', 'delf') for e in s.events)


EDIT_NAMES = {}


def kept():
    from .entries import catalogue
    es = [e for e in catalogue() if 'edit' in e.tags and e.cls in RECV]
    for c in RECV:
        EDIT_NAMES[c] = {e.fn for e in es if e.cls == c} | {'delete_attributes', 'remove_empty_objects',
                                                           '__init__'}
    return [Lazy(e.cls, e) for e in es if '[' not in e.name]


# ------------------------------------------ concept systems: answers after edits
def system_then(edit, op, asked):
    """ask for the covering relation, edit the system, ask again"""
    from . import spec_lattice as L

    def build(h):
        s = h.system()
        if asked:
            h.setf(s, '_parents', L.relation_of(h, s))
        lst = h.E.getf(h.st, s, '_concepts')
        mp = h.E.obj(h.st, lst).content.args[0]
        member = lambda n: L.t_.subst(mp.args[2], {mp.args[1]: mk('isy', n)})
        x = h.concept('new') if edit == 'append' else member('k')
        arg = {'__len__': [], '__contains__': [x], '__getitem__': [mk('isy', 'p')]}.get(
            op, [x if op.endswith('@') else member('l')])
        h.settle()
        outs = []
        for s1, v in h.call(s, edit, [x]):
            if s1.sig is not None:
                outs.append((s1, v))
                continue
            h.st = s1
            outs += h.call(s, op.rstrip('@'), arg)
        return outs, {}

    def added(m):
        return (frozenset(g for g in range(m.size('G')) if m.rel('X', 'new', g)),
                frozenset(a for a in range(m.size('M')) if m.rel('Y', 'new', a)))

    def after(m):
        cs = L.members(m)
        return cs + [added(m)] if edit == 'append' else [c for i, c in enumerate(cs) if i != m.sets['k']]

    def prep(m):
        if m.size('C') < (2 if edit == 'remove' else 1) or not L.some_system(m):
            return False
        k, n = m.sets['k'], m.size('C')
        m.sets['l'] = (k + 1 + m.h('l') % (n - 1)) % n if edit == 'remove' else m.h('l') % n
        m.sets['p'] = m.h('p') % len(after(m))
        return edit == 'remove' or added(m)[1] not in {c[1] for c in L.members(m)}

    def spec(m):
        left, c = after(m), L.members(m)[m.sets['l']]
        if op.endswith('@'):
            c = added(m)
        up = [d for d in left if d[1] < c[1]]
        down = [d for d in left if c[1] < d[1]]
        return ('value', {
            'parents': lambda: L.above(left, c), 'children': lambda: L.below(left, c),
            'filter': lambda: up, 'ideal': lambda: down, '__len__': lambda: len(left),
            '__contains__': lambda: edit == 'append', '__getitem__': lambda: left[m.sets['p']],
        }[op.rstrip('@')]())

    def listed(ev, st, r, aux):
        return [L.sets_of(ev, o) for o in ev.ev(r, {}, st)]

    def one(ev, st, r, aux):
        return L.sets_of(ev, ev.ev(r, {}, st))
    view = {'filter': listed, 'ideal': listed, '__len__': val_view, '__contains__': val_view,
            '__getitem__': one}.get(op.rstrip('@'), L.view_set)
    return ok_only(Case('ConceptSystem.%s[%s%s; %s]' % (edit, 'parents; ' if asked else '', edit, op), build, spec,
                        view, sizes={'M': (1, 2, 3), 'C': (2, 3, 4, 5), 'G': (1, 2)}, prep=prep, n=20))


def system_histories():
    out = []
    for e in ('remove', 'append'):
        ops = ['parents', 'children'] + ['parents@', 'children@'] * (e == 'append')
        out += [system_then(e, op, a) for op in ops for a in (False, True)]
        out += [system_then(e, op, False) for op in ('filter', 'ideal', '__len__', '__contains__', '__getitem__')]
    return out
