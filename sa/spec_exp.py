"""Exploration: accepted examples are consistent (C08), open implications are
recomputed after an accepted change (C09)."""
from .cases import Case, O, A, tab
from .decide import context_view, spec_context, Obj, field, Unknown, Undef, Ev
from .terms import mk, K
from .spec_ctx import prep_names, rowB, drop, NEW
from . import decide as d_

N, I = (lambda t: mk('nsy', t)), mk('isy', 'i_L')


def imp_of(m, tag, k, n):
    return (frozenset(j for j in range(n) if m.rel('P', tag, k, j)),
            frozenset(j for j in range(n) if m.rel('Q', tag, k, j)))


def imps(m, tag, side):
    return [imp_of(m, tag, k, m.size(side)) for k in range(m.size(tag))]


def sets(m, side):
    return frozenset(j for j in range(m.size(side)) if m.rel('B', 'b', j))


def conflict(cs, s):
    return any(p <= s and not q <= s for p, q in cs)


REJ = {'BasisConflict', 'NotCounterExamplePremise', 'NotCounterExampleConclusion',
       'WrongCounterExample', 'IllegalContextModification', 'NotUniqueObjectName',
       'NotUniqueAttributeName', 'NotCounterexample', 'FalseCounterexample', 'ExplorationException'}


class Rej(object):
    """set of acceptable exception classes, by last name part"""
    def __contains__(self, c):
        return str(c).rsplit('.', 1)[-1] in REJ


REJECT = ('raise', Rej())


def imp_view(ev, o):
    if not isinstance(o, Obj):
        raise Unknown('no implication')
    p, q = field(ev, o, '_premise'), field(ev, o, '_conclusion')
    return (frozenset(p), frozenset(q))


def lst(ev, o, name):
    v = field(ev, o, name)
    if not isinstance(v, (list, tuple)):
        raise Unknown('list ' + name)
    return [pq(ev, x) for x in v]


def pq(ev, o):
    """premise and full conclusion of an implication object"""
    st = o.st
    env = getattr(o, 'env', {})
    out = []
    for nm in ('get_premise', 'get_conclusion'):
        got = None
        for s, f in ev.E.getattr_(st.copy(), o.ref, nm, d_N0):
            if s.sig is None:
                for s2, v in ev.E.call(s, f, [], {}, d_N0):
                    if s2.sig is None:
                        got = frozenset(ev.ev(v, env, s2))
        if got is None:
            raise Unknown(nm)
        out.append(got)
    return out[0], out[1] | out[0]


from .api import N0 as d_N0      # noqa: E402


def names(l, s):
    return frozenset(('n', l, i) for i in s)


# --------------------------------------------------------- abstract receivers
def basic(op, args, assume=()):
    def build(h):
        x = h.basic_exploration()
        a = args(h)
        h.settle()
        for kind, n, l in assume:
            getattr(h, kind)(N(n), l)
        return h.call(x, op, a), {'self': x, 'h': h}
    return build


def other(make, op, args, assume=(), find=None):
    def build(h):
        x = getattr(h, make)()
        if find:
            x = h.E.getf(h.st, x, find)
        a = args(h)
        h.settle()
        for kind, n, l in assume:
            getattr(h, kind)(N(n), l)
        return h.call(x, op, a), {'self': x, 'h': h, 'cxt': h.cxt_}
    return build


def basic_cxt(ev, st, r, aux):
    return context_view(ev, st, ev.E.getf(st, aux['self'], 'context'))


def db_cxt(ev, st, r, aux):
    return context_view(ev, st, aux['cxt'])


SZ = {'G': (0, 1, 2), 'M': (0, 1, 2, 3)}


def szs(**kw):
    d = dict(SZ)
    d.update({k: (0, 1, 2) for k in kw.get('axes', '').split()})
    if kw.get('big'):
        d.update(G=(0, 1, 2, 3), M=(0, 1, 2, 3, 3))
    return d


def prep(known, idx=None, side='L'):
    base = prep_names(known)

    def f(m):
        if idx:
            if not m.size(side):
                return False
            m.sets['i_L'] = m.h('ix') % m.size(side)
        # consistent data often enough: relations of the premises are sparse
        for t in (idx or side, 'CA', 'CO'):
            m.dn[('P', t)] = (0, 150, 400)[m.h('dP', t) % 3]
            m.dn[('Q', t)] = (150, 400, 700)[m.h('dQ', t) % 3]
        m.dn[('B', 'b')] = (300, 500, 700)[m.h('dB') % 3]
        return base(m)
    return f


def cols(m):
    return [frozenset(i for i in range(m.size('G')) if m.rel('I', 'c', i, j)) for j in range(m.size('M'))]


def rows(m):
    return [frozenset(j for j in range(m.size('M')) if m.rel('I', 'c', i, j)) for i in range(m.size('G'))]


def consistent():
    out = []

    def add(n, build, spec, view, pr, axes, **kw):
        out.append(Case(n, build, spec, view, prep=pr, sizes=szs(axes=axes, big=True), n=36, **kw))
    new_o, new_a = (('fresh_name', 'x', 'objs'),), (('fresh_name', 'x', 'atts'),)
    B_o = lambda h: h.sub('M', 'B', 'atts', 'b')
    B_a = lambda h: h.sub('G', 'B', 'objs', 'b')
    plus_o = lambda m: spec_context(O(m) + [NEW], A(m), tab(m) + [rowB(m, 'B', 'b', 'M')])
    plus_a = lambda m: spec_context(O(m), A(m) + [NEW],
                                    [r + [m.rel('B', 'b', i)] for i, r in enumerate(tab(m))])

    def ce(tag, conf, side, plus):
        def spec(m):
            s = sets(m, side)
            p, q = imp_of(m, tag, m.sets['i_L'], m.size(side))
            if not p <= s or q <= s or conflict(imps(m, conf, side), s):
                return REJECT
            return ('value', plus(m))
        return spec
    add('BasicExploration.counter_example_for_attr_implication',
        basic('counter_example_for_attr_implication', lambda h: [N('x'), B_o(h), I], new_o),
        ce('L', 'CA', 'M', plus_o), basic_cxt, prep(None, 'L'), 'L CA')
    add('BasicExploration.counter_example_for_obj_implication',
        basic('counter_example_for_obj_implication', lambda h: [N('x'), B_a(h), I], new_a),
        ce('K', 'CO', 'G', plus_a), basic_cxt, prep(None, 'K', 'K'), 'K CO')

    def simple(conf, side, plus):
        return lambda m: REJECT if conflict(imps(m, conf, side), sets(m, side)) else ('value', plus(m))
    add('BasicExploration.add_object', basic('add_object', lambda h: [B_o(h), N('x')], new_o),
        simple('CA', 'M', plus_o), basic_cxt, prep(None), 'CA')
    add('BasicExploration.add_attribute', basic('add_attribute', lambda h: [B_a(h), N('x')], new_a),
        simple('CO', 'G', plus_a), basic_cxt, prep(None), 'CO')

    x = lambda m: m.sets['x'][2]

    def edited_o(m):
        return spec_context(O(m), A(m), [rowB(m, 'B', 'b', 'M') if i == x(m) else r
                                         for i, r in enumerate(tab(m))])

    def edited_a(m):
        return spec_context(O(m), A(m), [[m.rel('B', 'b', i) if j == x(m) else v
                                          for j, v in enumerate(r)] for i, r in enumerate(tab(m))])

    def ed(conf, side, edited, other, oside, line):
        # as far as the edited line itself goes; the crossing lines must agree too
        def spec(m):
            s = sets(m, side)
            if conflict(imps(m, conf, side), s):
                return REJECT
            for k, l in enumerate(line(m)):
                l = l - {x(m)} | ({x(m)} if k in s else frozenset())
                if other and conflict(imps(m, other, oside), l):
                    return REJECT
            return ('value', edited(m))
        return spec
    ko = (('known_name', 'x', 'objs'),)
    ka = (('known_name', 'x', 'atts'),)
    add('BasicExploration.edit_object', basic('edit_object', lambda h: [B_o(h), N('x')], ko),
        ed('CA', 'M', edited_o, 'CO', 'G', cols), basic_cxt, prep('objs'), 'CA CO')
    add('BasicExploration.edit_attribute', basic('edit_attribute', lambda h: [B_a(h), N('x')], ka),
        ed('CO', 'G', edited_a, 'CA', 'M', rows), basic_cxt, prep('atts'), 'CA CO')
    # ---- data base of the second exploration package
    add('ExplorationDB.add_example', other('db', 'add_example', lambda h: [N('x'), B_o(h)], new_o),
        simple('CA', 'M', plus_o), db_cxt, prep(None), 'CA')
    add('ExplorationDB.add_example[known name]',
        other('db', 'add_example', lambda h: [N('x'), B_o(h)], ko),
        lambda m: REJECT, db_cxt, prep('objs'), 'CA')
    add('ExplorationDB.edit_example',
        other('db', 'edit_example', lambda h: [N('y'), N('x'), B_o(h)],
              ko + (('fresh_name', 'y', 'objs'),)),
        lambda m: ('value', ren(edited_o(m), m)) if not conflict(imps(m, 'CA', 'M'), sets(m, 'M')) else
        REJECT if sets(m, 'M') != rows(m)[x(m)] else None, db_cxt, prep('objs'), 'CA')

    def ren(v, m, k='objects', ix='object_indices', l='objs'):
        old, new = ('n', l, x(m)), m.sets['y']
        v[k] = [new if o == old else o for o in v[k]]
        v[ix] = {o: i for i, o in enumerate(v[k])}
        return v
    add('ExplorationDB.edit_attribute',
        other('db', 'edit_attribute', lambda h: [N('y'), N('x'), B_a(h)],
              ka + (('fresh_name', 'y', 'atts'),)),
        lambda m: REJECT if any(conflict(imps(m, 'CA', 'M'), l - {x(m)} | (
            {x(m)} if k in sets(m, 'G') else frozenset())) for k, l in enumerate(rows(m))) else
        ('value', ren(edited_a(m), m, 'attributes', 'attribute_indices', 'atts')),
        db_cxt, prep('atts'), 'CA')
    add('ExplorationDB.add_attribute',
        other('db', 'add_attribute', lambda h: [N('x'), B_a(h)], new_a),
        lambda m: ('value', plus_a(m)), db_cxt, prep(None), 'CA')
    add('ExplorationDB.delete_example', other('db', 'delete_example', lambda h: [N('x')], ko),
        lambda m: ('value', spec_context(drop(O(m), x(m)), A(m), drop(tab(m), x(m)))),
        db_cxt, prep('objs'), 'CA')
    add('ExplorationDB.delete_attribute', other('db', 'delete_attribute', lambda h: [N('x')], ka),
        lambda m: ('value', spec_context(O(m), drop(A(m), x(m)), [drop(r, x(m)) for r in tab(m)])),
        db_cxt, prep('atts'), 'CA')
    # ---- sessions
    add('ExplorationContext.add_object',
        other('session', 'add_object', lambda h: [N('x'), B_o(h)], new_o, find='_cxt'),
        simple('CA', 'M', plus_o), db_cxt, prep(None), 'CA')

    def sess(m):
        s = sets(m, 'M')
        p, q = imp_of(m, 'u', None, m.size('M')) if False else (
            frozenset(j for j in range(m.size('M')) if m.rel('P', 'u', j)),
            frozenset(j for j in range(m.size('M')) if m.rel('Q', 'u', j)))
        if not (p <= s and not q <= s) or conflict(imps(m, 'CA', 'M'), s):
            return REJECT
        return ('value', plus_o(m))
    add('ExplorationSession.reject_implication',
        other('session', 'reject_implication', lambda h: [h.implication('u'), N('x'), B_o(h)], new_o),
        sess, db_cxt, prep(None, side='u'), 'CA')
    return out


# ----------------------------------------------------- open implications (C09)
def pqs(l):
    return sorted((tuple(sorted(p)), tuple(sorted(q))) for p, q in l)


def cview(ev, st, ref):
    """names and crosses of a context (plain, partial, or an interface to one)"""
    o = Obj(ref, st)
    fs = dict(st.heap[ev.E.oid(ref)].fields)
    if '_cxt' in fs:
        return cview(ev, st, fs['_cxt'])
    if 'x_context' in fs:
        return (cview(ev, st, fs['x_context']), cview(ev, st, fs['q_context']))
    v = context_view(ev, st, o, fields=('_objects', '_attributes', 'np_table'))
    return (v['objects'], v['attributes'], v['table'])


def flip(v):
    o, a, t = v
    return (a, o, [list(c) for c in zip(*t)] if t else [[] for _ in a])


def named(v):
    """set of crosses by name, with the names"""
    if len(v) == 2:
        return tuple(named(x) for x in v)
    o, a, t = v
    return (frozenset(o), frozenset(a),
            frozenset((o[i], a[j]) for i in range(len(o)) for j in range(len(a)) if t[i][j]))


def candidates(ev, st, h, view, conf=None, dual=False):
    """basis computations of this path made for the given context (and the
    given confirmed implications)"""
    out = []
    for e in st.events:
        if e[0] != 'basis':
            continue
        s0, c, cf = h.snaps[e[1]]
        try:
            w = cview(ev, s0, c)
            if named(flip(w) if dual else w) != named(view):
                continue
            if conf is not None:
                if not hasattr(cf, 'op'):
                    continue
                l = ev.ev(cf, {}, s0)
                if pqs(pq(ev, x) for x in l) != pqs(conf):
                    continue
        except Undef:
            continue
        out.append(e[1])
    return out


def basis_of(m, k, side):
    """implications returned by the k-th basis computation"""
    n = m.size('N')
    return [(frozenset(('n', side, j) for j in range(n) if m.rel('P', 'basis%d' % k, i, j)),
             frozenset(('n', side, j) for j in range(n) if m.rel('Q', 'basis%d' % k, i, j)) |
             frozenset(('n', side, j) for j in range(n) if m.rel('P', 'basis%d' % k, i, j)))
            for i in range(m.size('NB'))]


def fresh_basic(ev, st, r, aux):
    h, x, m = aux['h'], aux['self'], ev.m
    o = Obj(x, st)
    cx = cview(ev, st, ev.E.getf(st, x, 'context'))
    out = []
    for opn, conf, dual in (('attribute_implications', 'confirmed_attribute_implications', False),
                            ('object_implications', 'confirmed_object_implications', True)):
        got, cf = pqs(lst(ev, o, opn)), pqs(lst(ev, o, conf))
        ok = False
        for k in candidates(ev, st, h, cx, dual=dual):
            ok = ok or got == [p for p in pqs(basis_of(m, k, 'nbatts')) if p not in cf]
        out.append('recomputed for the new context' if ok else 'stale')
    return tuple(out)


def fresh_db(ev, st, r, aux):
    h, x, m = aux['h'], aux['self'], ev.m
    cx = cview(ev, st, aux['cxt'])
    cf = lst(ev, Obj(x, st), '_implications')
    got = pqs(pq(ev, i) for i in ev.ev(r, {}, st))
    for k in candidates(ev, st, h, cx, cf):
        if got == pqs(basis_of(m, k, 'nbatts')):
            return 'recomputed for the new context'
    return 'stale'


def then(make, ops, find=None):
    """run several operations one after the other on one receiver"""
    def build(h):
        x = h.x_ = getattr(h, make)()
        todo = [(n, a(h)) for n, a in ops]
        h.settle()
        outs = [(h.st, None)]
        for n, a in todo:
            nxt = []
            for s, v in outs:
                if s.sig is not None:
                    nxt.append((s, v))
                    continue
                o = x
                save, h.st = h.st, s
                try:
                    nxt += h.call(o, n, a)
                finally:
                    h.st = save
            outs = nxt
        return outs, {'self': x, 'h': h, 'cxt': getattr(h, 'cxt_', None)}
    return build


def ok_only(case):
    """outcomes that raise are no obligation of this property"""
    b0 = case.build

    def build(h):
        outs, aux = b0(h)
        return [(s, v) for s, v in outs if s.sig is None], aux
    case.build = build
    case.any_outcome = True
    return case


FRESH = 'recomputed for the new context'


def recomputed():
    out = []
    x, u = N('x'), lambda h: h.implication('u')
    B_o = lambda h: h.sub('M', 'B', 'atts', 'b')
    B_a = lambda h: h.sub('G', 'B', 'objs', 'b')
    new_o, new_a = (('fresh_name', 'x', 'objs'),), (('fresh_name', 'x', 'atts'),)
    ko, ka = (('known_name', 'x', 'objs'),), (('known_name', 'x', 'atts'),)

    def add(n, build, view, want, pr, axes):
        out.append(ok_only(Case(n, build, lambda m: ('value', want), view, prep=pr,
                                sizes=szs(axes=axes), n=12)))
    X = 'BasicExploration.'
    W = (FRESH, FRESH)
    for f, s, a, p in (('counter_example_for_attr_implication', B_o, new_o, prep(None, 'L')),
                       ('counter_example_for_obj_implication', B_a, new_a, prep(None, 'K', 'K'))):
        add(X + f, basic(f, lambda h, s=s: [x, s(h), I], a), fresh_basic, W, p, 'CA CO')
    for f, s, a, p in (('add_object', B_o, new_o, prep(None)), ('add_attribute', B_a, new_a, prep(None)),
                       ('edit_object', B_o, ko, prep('objs')), ('edit_attribute', B_a, ka, prep('atts'))):
        add(X + f, basic(f, lambda h, s=s: [s(h), x], a), fresh_basic, W, p, 'CA CO')
    X = 'ExplorationDB.'
    op = ('get_open_implications', lambda h: [])
    for f, a, n, p in (('add_example', lambda h: [x, B_o(h)], None, prep(None)),
                       ('delete_example', lambda h: [x], 'objs', prep('objs')),
                       ('edit_example', lambda h: [x, x, B_o(h)], 'objs', prep('objs')),
                       ('add_attribute', lambda h: [x, B_a(h)], None, prep(None)),
                       ('delete_attribute', lambda h: [x], 'atts', prep('atts')),
                       ('edit_attribute', lambda h: [x, x, B_a(h)], 'atts', prep('atts')),
                       ('confirm_implication', lambda h: [u(h)], None, prep(None)),
                       ('touch', lambda h: [], None, prep(None))):
        add(X + f, then('db', [(f, a), op]), fresh_db, FRESH, p, 'CA')
    add(X + 'confirm_implication[partial]', then('pdb', [('confirm_implication', lambda h: [u(h)]), op]),
        fresh_db, FRESH, prep(None), 'CA')

    # confirming takes the implication from the open ones to the confirmed ones
    def confirm(kind, tag, ctag, side):
        def view(ev, st, r, aux):
            o = Obj(aux['self'], st)
            return (pqs(lst(ev, o, kind)), pqs(lst(ev, o, 'confirmed_' + kind)))

        def nm(l):
            return pqs((frozenset(('n', side, j) for j in p), frozenset(('n', side, j) for j in q | p))
                       for p, q in l)

        def spec(m):
            l = {'objs': 'G', 'atts': 'M'}[side]
            op_, cf, i = imps(m, tag, l), imps(m, ctag, l), m.sets['i_L']
            # tag 'L'/'K' relations are indexed by (k, j)
            return ('value', (nm(op_[:i] + op_[i + 1:]), nm(cf + [op_[i]])))
        return view, spec
    for kind, tag, ct, side in (('attribute_implications', 'L', 'CA', 'atts'),
                                ('object_implications', 'K', 'CO', 'objs')):
        view, spec = confirm(kind, tag, ct, side)
        out.append(Case('BasicExploration.confirm_' + kind[:-1], basic(
            'confirm_' + kind[:-1], lambda h: [I]), spec, view, prep=prep(None, tag, tag),
            sizes=szs(axes='L K CA CO'), n=12))

    # sessions compute the candidates on demand, from the current state
    cand = ('get_candidates', lambda h: [])
    for n, ops in (('accept', [cand, ('accept_implication', lambda h: [u(h)]), cand]),
                   ('reject', [cand, ('reject_implication', lambda h: [u(h), x, B_o(h)]), cand])):
        add('ExplorationSession.get_candidates[after %s]' % n, then('session', ops), fresh_sess, FRESH,
            prep(None, side='u'), 'CA')
    return out


def fresh_sess(ev, st, r, aux):
    h, x, m = aux['h'], aux['self'], ev.m
    cx = cview(ev, st, aux['cxt'])
    cf = lst(ev, Obj(ev.E.getf(st, x, '_basis'), st), '_background_implications')
    got = pqs(pq(ev, i) for i in ev.ev(r, {}, st))
    for k in candidates(ev, st, h, cx, cf):
        if got == pqs(basis_of(m, k, 'nbatts')):
            return FRESH
    return 'stale'


DATA = ('_objects', '_attributes', 'np_table', 'cross_table', 'object_indices', 'attribute_indices',
        'objects', 'attributes', 'x_context', 'q_context')


def reach(E, st, ref, seen):
    """object identities that make up the data of a context"""
    i = E.oid(ref)
    o = st.heap.get(i)
    if o is None or i in seen:
        return seen
    seen.add(i)
    for f, v in o.fields:
        if f in DATA and v.op == 'R':
            reach(E, st, v, seen)
    if o.base is not None and getattr(o.base, 'op', None) == 'R':
        reach(E, st, o.base, seen)
    return seen


class Ordered(object):
    """typestate: a write to the context is followed by a recomputation of the
    open implications before the operation returns"""
    def __init__(self, name, make, op, args, find=None):
        self.name, self.make, self.op, self.args = name, make, op, args

    def decide(self, root, tier):
        from .harness import H
        from .engine import Budget
        from .loader import AnalysisBroken
        from . import run as r_
        try:
            h = H(root=root)
            x = getattr(h, self.make)()
            a = self.args(h)
            h.settle()
            st0 = h.st.copy()
            outs = []
            for s, v in h.call(x, self.op, a):
                if s.sig is not None:
                    outs.append((s, v))
                    continue
                h.st = s        # implications computed on demand count as well
                outs += h.call(x, 'get_open_implications')
        except (Budget, AnalysisBroken) as e:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(e).__name__, e))
        data = reach(h.E, st0, h.cxt_, set())
        conf = h.E.getf(st0, x, '_implications')
        if conf is not None:
            data.add(h.E.oid(conf))
        fs, n, w = [], 0, 0
        for s, v in outs:
            if s.sig is not None:
                continue
            n += 1
            last = None
            for e in s.events:
                if e[0] == 'setf' and e[2] in DATA and h.E.oid(e[1]) in data or \
                        e[0] == 'mut' and h.E.oid(e[1]) in data:
                    last = e
                elif e[0] == 'basis':
                    last, w = None, w + 1
            if last is not None:
                fs.append(r_.finding('%s|%s' % (self.name, last[2]), last[3],
                                     '%s: the context or the confirmed implications are written at %s (%s) and no recomputation of the open '
                                     'implications follows' % (self.name, last[3], last[2])))
        return r_.result(self.name, 'violated' if fs else 'holds' if n else 'undecided', fs,
                         outcomes=len(outs), paths=n, recomputations=w)


def ordered():
    x, u = N('x'), lambda h: h.implication('u')
    B_o = lambda h: h.sub('M', 'B', 'atts', 'b')
    B_a = lambda h: h.sub('G', 'B', 'objs', 'b')
    pair = lambda h: h.pair('b', 'd')
    X = 'write-then-recompute:'
    out = []
    for d, sfx in (('db', ''), ('pdb', '[partial]')):
        for f, a in (('add_example', lambda h, d=d: [x, B_o(h) if d == 'db' else pair(h)]),
                     ('complete', lambda h: [])) + (() if d == 'pdb' else (
                     ('confirm_implication', lambda h: [u(h)]), ('unconfirm_implication', lambda h: [u(h)]),
                     ('delete_example', lambda h: [x]), ('edit_example', lambda h: [N('y'), x, B_o(h)]),
                     ('add_attribute', lambda h: [x, B_a(h)]), ('delete_attribute', lambda h: [x]),
                     ('edit_attribute', lambda h: [N('y'), x, B_a(h)]))):
            out.append(Ordered(X + 'ExplorationDB.' + f + sfx, d, f, a))
    return out
