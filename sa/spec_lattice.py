"""The concept lattice: complete set of concepts, covering relation (C21)."""
from . import run as r_
from . import terms as t_
from .api import N0
from .cases import Case, models, short
from .decide import Ev, Obj, Unknown, Undef, field, pc_holds, judge
from .engine import Budget
from .harness import H, RELS
from .loader import AnalysisBroken
from .terms import mk, K, walk

NORRIS = 'fca.algorithms.norris'


def concepts_of(rows, n):
    """all (extent, intent) of the context with the given rows"""
    ints = {frozenset(range(n))}
    for r in rows:
        ints |= {i & r for i in ints}
    return sorted(((frozenset(k for k, r in enumerate(rows) if i <= r), i) for i in ints),
                  key=lambda c: (sorted(c[0]), sorted(c[1])))


def rows(m, k=None):
    g = m.size('G') if k is None else k
    return [frozenset(j for j in range(m.size('M')) if m.rel('I', 'c', i, j)) for i in range(g)]


def given(m, cs):
    """the family C is this list of concepts, in an arbitrary order"""
    cs = sorted(cs, key=lambda c: m.h('perm', sorted(c[0]), sorted(c[1])))
    m.sizes['C'] = len(cs)
    for k, (e, i) in enumerate(cs):
        for g in range(m.size('G')):
            m.fixed[('X', 'C', k, g)] = g in e
        for a in range(m.size('M')):
            m.fixed[('Y', 'C', k, a)] = a in i


def cont(E, st, v):
    """content of a list, set or iterator"""
    c = v.args[0] if v.op == 'iseq' else E.content(st, v)
    return mk('opq', 'content') if c is None else c


def full(m):
    given(m, concepts_of(rows(m), m.size('M')))
    return True


class Step(object):
    """one iteration over the objects: from the concepts of the first i objects
    to those of the first i + 1"""
    name = 'norris.iterative_norris'

    def __init__(self):
        self.base = self.done = None

    def lists(self, E, st, fr):
        out = {}
        for k, v in sorted(st.vars.items(), key=repr):
            if k[0] != fr or not isinstance(v, t_.T) or v.op != 'R':
                continue
            o = E.obj(st, v)
            if o is None or o.kind != 'list' or o.content is None or not o.content.args:
                continue
            es = E.elem_values(st, o.content)
            if es and all(x.op == 'R' and E.obj(st, x) is not None and E.obj(st, x).kind == 'inst'
                          and str(E.mro_names(E.obj(st, x).cls)[:1]).endswith(".Concept']") for x in es):
                out[k] = v
        return out

    # hook of the engine
    def enter(self, E, st, axis, j):
        if self.base is not None or j is None:
            return None
        ls = self.lists(E, st, E.stack[-1][1])
        if not ls:
            return None
        self.keys = sorted(ls, key=repr)
        s = st.copy()
        self.base = (st.copy(), [E.content(st, ls[k]) for k in self.keys])
        h = self.h
        save, h.st = h.st, s
        fam = h.E.content(s, h.concepts())
        h.st = save
        for k in self.keys:
            o = s.heap[E.oid(ls[k])]
            s.heap[E.oid(ls[k])] = o._replace(content=fam)
        for k, v in list(s.vars.items()):
            if k[0] == E.stack[-1][1] and isinstance(v, t_.T) and v.op == 'R' and \
                    E.obj(s, v) is not None and E.obj(s, v).kind == 'inst' and \
                    str(E.mro_names(E.obj(s, v).cls)[:1]).endswith(".Concept']"):
                s.vars[k] = mk('opq', 'first concept')
        self.start = s.copy()
        return s

    def leave(self, E, outs, axis, j):
        self.done = (axis, j, [(o, mk('tup', *[E.content(o, o.vars[k]) for k in self.keys])
                                if o.sig in (None, 'cont') else None) for o in outs])
        self.lost = {k[1] for o in outs for k, v in self.start.vars.items()
                     if k[0] == self.keys[0][0] and k not in self.keys and v.op == 'R'
                     and E.content(self.start, v) is not None
                     and (o.vars.get(k) != v or E.content(o, v) != E.content(self.start, v))}
        return [self.start.copy()]

    # ------------------------------------------------------------ obligation
    def run(self, root, repo=None, tier='quick'):
        self.base = self.done = None
        h = self.h = H(root=root, repo=repo)
        c = h.context()
        h.settle()
        h.E.inject = self
        outs = h.fn(NORRIS, 'iterative_norris', [c])
        self.end = []
        for st, v in outs:
            self.end.append((st, v if st.sig == 'exc' or v is None else mk('tup', cont(h.E, st, v))))
        return h

    def prep(self, m):
        g = m.size('G')
        if not g:
            return False
        m.at = m.h('i') % g
        given(m, concepts_of(rows(m, m.at), m.size('M')))
        return True

    @staticmethod
    def pairs(ev, st, content, env):
        seq = ev.contentval(content, env, st)
        objs = [x for x in seq]
        return objs, sorted(((frozenset(x[2] for x in field(ev, o, 'extent')),
                              frozenset(x[2] for x in field(ev, o, 'intent'))) for o in objs),
                            key=lambda c: (sorted(c[0]), sorted(c[1])))

    def decide(self, root, tier):
        try:
            h = self.run(root, None, tier)
        except (Budget, AnalysisBroken) as e:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(e).__name__, e))
        if self.base is None or self.done is None:
            return r_.result(self.name, 'undecided', why='no loop over a list of concepts')
        if self.lost:
            return r_.result(self.name, 'undecided', why='changed in the loop: %s' % sorted(self.lost))
        E = h.E
        ms = models(20 if tier == 'quick' else 120, {'G': (1, 2, 3, 4), 'M': (0, 1, 2, 3, 4)}, prep=self.prep)
        st, cs = self.base
        axis, j, outs = self.done
        n = len(self.keys)

        def view(env):
            def f(ev, s, r, m):
                e = env(m)
                out = []
                for c in r.args:
                    out.append(self.pairs(ev, s, c, e)[1])
                return out
            return f
        def where():
            for mod, cls, node, rel in E.repo.defs():
                if node.name == 'iterative_norris':
                    return '%s:%s norris.iterative_norris' % (rel, node.lineno)
            return 'iterative_norris'
        fs, counts, why = [], {}, ''
        # the objects passed through: from some object on, up to the last, in order
        for m in ms:
            g = m.size('G')
            try:
                at = list(Ev(E, m, RELS).items(axis, {}, st))
            except (Unknown, Undef) as e:
                why = 'objects passed through: %s' % e
                break
            m.lo = at[0] if at else g
            if at != list(range(m.lo, m.lo + len(at))):
                why = 'objects passed through: %s of %s' % (at, g)
                break
            if at and at[-1] != g - 1:
                fs.append(r_.finding('%s@objects' % self.name, where(), (
                    'the loop ends at object %s of %s' % (at[-1] + 1, g))))
                break
            if not at and g > 1:
                why = 'the loop passes through none of the %s objects' % g
                break
        if fs or why:
            return r_.result(self.name, 'violated' if fs else 'undecided', fs, why=why)
        ms = [m for m in ms if m.at >= m.lo]
        for part, os, env, spec in (
                ('first', [(st, mk('tup', *cs))], lambda m: {},
                 lambda m: concepts_of(rows(m, m.lo), m.size('M'))),
                ('step', outs, lambda m: {j: m.at},
                 lambda m: concepts_of(rows(m, m.at + 1), m.size('M'))),
                ('all', self.end, lambda m: {}, lambda m: concepts_of(rows(m), m.size('M')))):
            if part == 'all':
                ms = models(8, {'G': (1, 2, 3), 'M': (0, 1, 2, 3)}, prep=full)
            V = self.judge(E, os, ms, lambda m: ('value', [spec(m)] * (1 if part == 'all' else n)),
                           view(env), env)
            counts.update({part + '_interpretations': V.models, part + '_agreeing': V.agree,
                           part + '_unknown': V.unknown})
            if V.witness:
                m, want, res = V.witness
                fs.append(r_.finding('%s@%s' % (self.name, part), where(), (
                    'the concepts before the loop are not those of the objects before it'
                    if part == 'first' else
                    'not all concepts kept by the loop are delivered' if part == 'all' else
                    'an iteration does not lead from the concepts of the objects before to those '
                    'including the current one') + ' (|axes| = %s)' % (m.sizes,),
                    interpretation='seed %s' % (m.seed,)))
            elif V.status != 'holds':
                why = part + ': ' + str(V.why)
        return r_.result(self.name, 'violated' if fs else 'undecided' if why else 'holds', fs[:1],
                         why=why, outcomes=len(outs), **counts)

    def judge(self, E, outs, ms, spec, view, env):
        from . import decide as d_
        real = d_.pc_holds
        cur = []

        def holds(ev, st, e=None):
            return real(ev, st, env(ev.m))
        d_.pc_holds = holds
        try:
            outs2 = []
            for s, v in outs:
                if s.sig == 'cont':
                    s = s.copy()
                    s.sig = None
                outs2.append((s, v))
            return d_.judge(E, outs2, ms, spec, view, RELS, None)
        finally:
            d_.pc_holds = real


def lattice():
    return [Step()] + covering()


# ------------------------------------------------------------ covering relation
def sets_of(ev, o):
    return tuple(frozenset(x[2] for x in field(ev, o, f)) for f in ('extent', 'intent'))


def members(m):
    n = range(m.size('C'))
    return [(frozenset(g for g in range(m.size('G')) if m.rel('X', 'C', k, g)),
             frozenset(a for a in range(m.size('M')) if m.rel('Y', 'C', k, a))) for k in n]


def above(cs, c):
    """concepts covering c"""
    return frozenset(d for d in cs if d[1] < c[1] and not any(d[1] < e[1] < c[1] for e in cs))


def below(cs, c):
    return frozenset(d for d in cs if c in above(cs, d))


def table(m):
    cs = members(m)
    return {c: above(cs, c) for c in cs}


def as_table(ev, d):
    return {sets_of(ev, k): frozenset(sets_of(ev, p) for p in ps) for k, ps in d.items()}


def some_system(m):
    """distinct intents: a concept system"""
    if not m.size('C'):
        return False
    m.sets['k'] = m.h('k') % m.size('C')
    m.dn[('Y', 'C')] = (300, 500, 700)[m.h('d') % 3]
    m.dn[('X', 'C')] = 500
    return len({i for e, i in members(m)}) == m.size('C')


def some_lattice(m):
    """all concepts of the context"""
    full(m)
    m.sets['k'] = m.h('k') % m.size('C')
    return True


def at(h, lst):
    """an arbitrary member of a list of concepts"""
    mp = h.E.obj(h.st, lst).content.args[0]
    return t_.subst(mp.args[2], {mp.args[1]: mk('isy', 'k')})


def listed(E, lst):
    """iterative_norris delivers these concepts"""
    E.stubs[NORRIS + '.iterative_norris'] = lambda E, st, f, args, kw, node: [
        (st, mk('iseq', E.content(st, lst)))]


def relation(h):
    cs = h.concepts()
    h.settle()
    return h.fn(NORRIS, 'compute_covering_relation', [cs]), {}


def relation_of(h, s):
    """what compute_covering_relation answers"""
    h.settle()
    good = h.A.ok(h.call(s, 'compute_covering_relation'), 'compute_covering_relation')
    if len(good) != 1:
        raise AnalysisBroken('covering relation')
    for k in good[0][0].__slots__:
        setattr(h.st, k, getattr(good[0][0], k))
    h.st.sig = None
    return good[0][1]


def system(op, k, before=False):
    def build(h):
        s = h.system()
        if before:
            h.setf(s, '_parents', relation_of(h, s))
        x = [at(h, h.E.getf(h.st, s, '_concepts'))] if k else []
        h.settle()
        return h.call(s, op, x), {}
    return build


def built(kw):
    def build(h):
        cs, c = h.concepts(), h.context()
        listed(h.E, cs)
        h.settle()
        return h.fn(NORRIS, 'norris', [c], kw), {}
    return build


def of_lattice(op):
    def build(h):
        cs, c = h.concepts(), h.context()
        listed(h.E, cs)
        x = at(h, cs)
        h.settle()
        cl = h.A.cls('fca.concept_lattice', 'ConceptLattice')
        outs = []
        for s, v in h.E.instantiate(h.st, mk('cl', cl.cid), [c], {}, N0):
            if s.sig is not None:
                outs.append((s, None))
                continue
            if op == 'concepts':
                outs += [(s2, w) for s2, w in h.E.getattr_(s, v, op, N0)]
                continue
            for s2, m in h.E.getattr_(s, v, op, N0):
                outs += [(s2, None)] if s2.sig is not None else h.E.call(s2, m, [x], {}, N0)
        return outs, {}
    return build


def view_table(ev, st, r, aux):
    return as_table(ev, ev.ev(r, {}, st))


def view_set(ev, st, r, aux):
    return frozenset(sets_of(ev, o) for o in ev.ev(r, {}, st))


def view_list(ev, st, r, aux):
    return sorted((sets_of(ev, o) for o in ev.ev(r, {}, st)), key=lambda c: (sorted(c[0]), sorted(c[1])))


def view_both(ev, st, r, aux):
    return (view_list(ev, st, r.args[0], aux), view_table(ev, st, r.args[1], aux))


def everything(m):
    return concepts_of(rows(m), m.size('M'))


def covering():
    sys_ = {'M': (0, 1, 2, 3), 'C': (1, 2, 3, 4, 5), 'G': (1, 2)}
    lat = {'G': (0, 1, 2, 3, 4), 'M': (0, 1, 2, 3, 4)}
    kth = lambda f: (lambda m: ('value', f(members(m), members(m)[m.sets['k']])))
    out = [Case('norris.compute_covering_relation', relation, lambda m: ('value', table(m)), view_table,
                sizes=sys_, prep=some_system, n=150),
           Case('ConceptSystem.compute_covering_relation', system('compute_covering_relation', False),
                lambda m: ('value', table(m)), view_table, sizes=sys_, prep=some_system, n=150)]
    for op, f in (('parents', above), ('children', below)):
        out.append(Case('ConceptSystem.' + op, system(op, True), kth(f), view_set,
                        sizes=sys_, prep=some_system, n=150))
        out.append(Case('ConceptSystem.%s[asked before]' % op, system(op, True, True), kth(f), view_set,
                        sizes=sys_, prep=some_system, n=150))
    out.append(Case('norris.norris', built({}), lambda m: ('value', (everything(m), table(m))), view_both,
                    sizes=lat, prep=some_lattice, n=150))
    out.append(Case('norris.norris[without parents]', built({'with_parents': t_.FALSE}),
                    lambda m: ('value', everything(m)), view_list, sizes=lat, prep=some_lattice, n=150))
    out.append(Case('ConceptLattice.concepts', of_lattice('concepts'),
                    lambda m: ('value', everything(m)), view_list, sizes=lat, prep=some_lattice, n=150))
    for op, f in (('parents', above), ('children', below)):
        out.append(Case('ConceptLattice.' + op, of_lattice(op), kth(f), view_set,
                        sizes=lat, prep=some_lattice, n=150))
    return out
