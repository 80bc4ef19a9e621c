"""Storage: what an operation returns or stores is its own (C02)."""
import time

from .entries import catalogue, Entry
from .engine import Budget
from .loader import AnalysisBroken
from .spec_eff import Effect, MODULAR, fresh_set, label
from .api import ax
from .terms import mk, walk
from . import run as r_

MUTABLE = ('list', 'dict', 'set', 'arr', 'inst')


def refs_of(E, st, v):
    for x in walk(v):
        if x.op == 'R':
            yield E.oid(x)


HOLD = {'R', 'tup', 'seq', 'tseq', 'one', 'map', 'dct', 'de', 'dmap', 'U', 'ite', 'sone', 'scomp', 'union',
        'inter', 'diff', 'bmeth', 'part', 'flat', 'cat'}


def holds(v):
    """references a value consists of (not those it was computed from)"""
    todo = [v]
    while todo:
        t = todo.pop()
        if getattr(t, 'op', None) not in HOLD:
            continue
        if t.op == 'R':
            yield t
            continue
        if t.op == 'ite':
            todo += t.args[1:]
        elif t.op in ('inter', 'diff'):
            todo.append(t.args[0])
        else:
            todo += [a for a in t.args if getattr(a, 'op', None)]


def reach(E, st, v, stop=()):
    """object ids reachable from a value, with the way there"""
    out, todo = {}, [('', v)]
    while todo:
        way, t = todo.pop()
        for x in holds(t):
            k = E.oid(x)
            if k in out:
                continue
            o = st.heap.get(k)
            if o is None:
                continue
            out[k] = way
            if o.base is not None and getattr(o.base, 'op', None):
                todo.append((way + '.base', o.base))
            if o.kind == 'inst' and o.cls in stop:
                continue
            for f, w in o.fields:
                todo.append((way + '.' + f, w))
            if o.content is not None:
                todo.append((way + '[]', o.content))
    return out


class Alias(Effect):
    """objects reachable from the result and from the inputs"""
    def __init__(self, entry):
        Effect.__init__(self, entry, 'query')

    def decide(self, root, tier):
        for self.cap in (None, 4, 2):
            try:
                h, outs = self.run(root)
                break
            except (Budget, AnalysisBroken) as x:
                err = x
        else:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(err).__name__, err))
        fs, n = {}, 0
        for s, v in outs:
            if s.sig is not None or v is None:
                continue
            n += 1
            kept = {}
            for i, a in enumerate([h.recv_] if h.recv_ is not None else []):
                kept = reach(h.E, s, a)
            for k, way in reach(h.E, s, v).items():
                o = s.heap[k]
                if o.kind not in MUTABLE:
                    continue
                who = label(h, k) if o.origin == 'init' else 'kept in self' + kept[k] if k in kept else None
                if who is None:
                    continue
                fs.setdefault((way, who), (o, s))
        out = [r_.finding('%s|%s|%s' % (self.name, a, b), self.name,
                          '%s: the result%s is the very object %s of the caller' % (self.name, a, b))
               for a, b in sorted(fs)]
        return r_.result(self.name, 'violated' if out else 'holds' if n else 'undecided', out, outcomes=n)


class Store(Alias):
    """objects reachable from the receiver after an edit and from the arguments"""
    def decide(self, root, tier):
        self.cap = None
        try:
            h, outs = self.run(root)
        except (Budget, AnalysisBroken) as x:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(x).__name__, x))
        fs, n = {}, 0
        own = set(reach(h.E, h.initial, h.recv_)) if h.recv_ is not None else set()
        for s, v in outs:
            if s.sig is not None:
                continue
            n += 1
            root_ = h.recv_ if h.recv_ is not None else v
            args = {}
            for i, a in enumerate(h.args_):
                for k, way in reach(h.E, h.initial, a).items():
                    if self.e.cls == 'ConceptSystem' and '[]' in way:
                        continue            # it holds the concepts themselves
                    if h.initial.heap[k].kind in MUTABLE and k not in own:
                        args[k] = 'argument %d%s' % (i + 1, way)
            for k, way in reach(h.E, s, root_).items():
                if k in args:
                    fs.setdefault((way, args[k]), s)
        out = [r_.finding('%s|%s|%s' % (self.name, a, b), self.name,
                          '%s: keeps %s itself as %s' % (self.name, b, a)) for a, b in sorted(fs)]
        return r_.result(self.name, 'violated' if out else 'holds' if n else 'undecided', out, outcomes=n)


# operations that hand out (or keep) the live object by design
LIVE = {'get_objects', 'get_attributes', 'get_object_names', 'get_attribute_names', 'get_premise',
        'get_conclusion', 'get_context', 'get_base', 'get_open_implications', 'get_concept_lattice',
        'get_background_implications', 'get_accepted_implications', 'find_own_attributes',
        'find_own_objects', 'compute_covering_relation', 'confirm_implication', 'accept_implication'}


def wanted(e):
    return e.fn not in LIVE and e.cls not in ('ConceptLattice', 'ConceptSystem') and \
        not (e.cls == 'ManyValuedContext' and e.fn == 'get_table')


def ctors():
    S = lambda h: h.sub('M', 'P', 'atts', 'u')
    T = lambda h: h.sub('G', 'X', 'objs', 'u')
    c = [('fca.concept', 'Concept', lambda h: [T(h), S(h)]),
         ('fca.implication', 'Implication', lambda h: [S(h), h.sub('M', 'Q', 'atts', 'u')]),
         ('fca.implication', 'NegativeImplication', lambda h: [S(h), h.sub('M', 'Q', 'atts', 'u')]),
         ('fca.implication', 'UnitImplication', lambda h: [S(h), mk('nsy', 'x')]),
         ('fca.concept_system', 'ConceptSystem', lambda h: [h.list_(h.E.obj(h.st, h.concepts()).content)]),
         ('fca.mvcontext', 'ManyValuedContext', lambda h: [h.table('t'), names(h, 'G', 'objs'),
                                                           names(h, 'M', 'atts')]),
         ('fca.partial_context', 'PartialContext', lambda h: [h.table('t'), h.table('q'),
                                                              names(h, 'G', 'objs'), names(h, 'M', 'atts')])]

    def names(h, a, l):
        from .api import names_list
        return names_list(h.E, h.st, ax(a), l)
    return [Store(Entry('%s.__init__' % k, m, k, '__init__', lambda h, f=f: (None, f(h)), ['query']))
            for m, k, f in c]


def derived():
    es = [e for e in catalogue() if wanted(e)]
    return [Alias(e) for e in es if 'query' in e.tags and e.fn != '__init__'] + [
        Store(e) for e in es if {'edit', 'explore', 'update'} & e.tags or e.fn == '__init__'] + ctors()
