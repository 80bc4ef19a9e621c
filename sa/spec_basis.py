"""Implication bases: every implication delivered holds (C27).

The basis computations are interpreted with every loop at an arbitrary state
(each set a loop changes is an arbitrary set at its head); the contents of the
premise and conclusion of every Implication constructed, and the path condition
there, are compared with the closure of the premise in the context."""
from . import decide as d_
from . import run as r_
from . import terms as t_
from .cases import models, short
from .decide import Unknown, judge
from .engine import Budget
from .harness import H, RELS
from .loader import AnalysisBroken
from .terms import mk, K, NONE
from .models import new_set, tbool

CLOSE = ('fca.algorithms.closure_operators.simple_closure',
         'fca.algorithms.closure_operators.lin_closure')
INIT = 'fca.implication.Implication.__init__'


def closure(rows, s, n):
    """attributes common to all rows that contain s"""
    out = set(range(n))
    for r in rows:
        if s <= r:
            out &= r
    return out


class Basis(object):
    """one obligation: the implications constructed by an operation"""
    def __init__(self, name, build, side='atts', partial=False):
        self.name, self.build, self.side, self.partial = name, build, side, partial

    def run(self, root, repo=None, tier='quick'):
        h = H(root=root, repo=repo)
        E = h.E
        E.generic = True
        snaps = []
        seen = {}

        def closed(E, st, f, args, kw, node):
            """an arbitrary set of names"""
            n = seen.setdefault(E.site(node), len(seen))
            return [(st, new_set(E, st, node, mk('nset', mk('lv', K('close%d' % n), 'x'))))]

        def made(E, st, f, args, kw, node):
            """Implication(premise, conclusion)"""
            if not armed:
                return None
            p = args[1] if len(args) > 1 else kw.get('premise')
            c = args[2] if len(args) > 2 else kw.get('conclusion')
            if p is None or c is None or any(
                    x.op != 'R' or E.obj(st, x) is None or E.obj(st, x).kind != 'set' for x in (p, c)):
                snaps.append((E.where(node), None, None))
                return None
            s = st.copy()
            s.sig = None
            snaps.append((E.where(node), s, mk('tup', E.content(s, p), E.content(s, c))))
            return None
        def plain(E, st, f, args, kw, node):
            return [(st, args[0])] if len(args) == 1 and not kw else None
        armed = []
        op = self.build(h)
        h.settle()
        for q in CLOSE:
            E.stubs[q] = closed
        E.stubs[INIT] = made
        E.stubs['fca.context.memo'] = plain     # remembered answers: C12
        armed.append(1)
        outs = op()
        return h, outs, snaps

    def models(self, tier):
        def prep(m):
            m.generic = self.side
            if self.partial:
                g, n = m.size('G'), m.size('M')
                for i in range(g):
                    for j in range(n):
                        if m.rel('I', 'px', i, j):
                            m.fixed[('I', 'pq', i, j)] = True
            return True
        return models(10 if tier == 'quick' else 60, {'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3)}, prep=prep)

    def rows(self, m):
        g, n = m.size('G'), m.size('M')
        if self.partial:
            return ([{j for j in range(n) if m.rel('I', 'px', i, j)} for i in range(g)],
                    [{j for j in range(n) if m.rel('I', 'pq', i, j)} for i in range(g)])
        r = [{j for j in range(n) if m.rel('I', 'c', i, j)} for i in range(g)]
        if self.side == 'objs':
            r = [{i for i in range(g) if j in r[i]} for j in range(n)]
        return r, r

    def close(self, m, s):
        x, q = self.rows(m)
        out = set(range(m.size('G' if self.side == 'objs' else 'M')))
        for a, b in zip(x, q):
            if s <= a:
                out &= b
        return out

    def view(self, ev, st, r, m):
        p, c = ev.ev(r.args[0], {}, st), ev.ev(r.args[1], {}, st)
        want = frozenset(('n', self.side, j) for j in self.close(m, {x[2] for x in p}))
        return (c | p == want | p, not want <= p)

    @staticmethod
    def tokens(c):
        """arbitrary sets of loop states a content depends on"""
        return {x for x in t_.walk(c) if x.op == 'nset' and not str(x.args[0]).startswith("lv('close")}

    # ------------------------------------------------------------ obligation
    def decide(self, root, tier):
        try:
            h, outs, snaps = self.run(root, None, tier)
        except (Budget, AnalysisBroken) as e:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(e).__name__, e))
        ms = self.models(tier)
        fs, why, agree, n, unknown, tried = [], '', 0, 0, 0, 0
        if not any(s for w, s, c in snaps):
            why = 'no implication is constructed'
        for w, s, c in snaps:
            if s is None:
                why = 'sides not followed at %s' % w
                continue
            n += 1
            if self.tokens(c.args[1]) - self.tokens(c.args[0]):
                why = 'the conclusion at %s depends on sets the analysis lost' % w
                continue
            v = judge(h.E, [(s, c)], ms, lambda m: ('value', (True, True)), self.view, RELS, None, True)
            agree, unknown, tried = agree + v.agree, unknown + v.unknown, tried + v.models
            if v.witness:
                m, want, res = v.witness
                k, x = res[0][:2]
                what = ('the premise already contains the conclusion' if k == 'value' and x[0]
                        else 'the conclusion is not the closure of the premise')
                fs.append(r_.finding(
                    '%s@%s' % (self.name, w.split(' ')[0].split(':')[0]), w,
                    'an implication is constructed where %s (|axes| = %s)' % (what, m.sizes),
                    interpretation='seed %s' % (m.seed,)))
            elif v.status != 'holds':
                why = str(v.why)
        st = 'violated' if fs else 'holds' if n and not why else 'undecided'
        return r_.result(self.name, st, fs[:1], why=why, outcomes=len(outs), constructions=n,
                         interpretations=tried, agreeing=agree, unknown=unknown)


def fn(name, partial=False):
    def build(h):
        c = h.partial() if partial else h.context()
        return lambda: h.fn('fca.algorithms.dg_basis', name, [c])
    return build


def meth(name, how='context'):
    def build(h):
        c = getattr(h, how)()
        return lambda: h.call(c, name)
    return build


def valid():
    out = [Basis('dg_basis.' + n, fn(n)) for n in
           ('compute_dg_basis', 'compute_dg_basis_simple', 'dg_basis_iter_simple')]
    out.append(Basis('dg_basis.compute_partial_dg_basis', fn('compute_partial_dg_basis', True), partial=True))
    out.append(Basis('Context.get_attribute_implications', meth('get_attribute_implications')))
    out.append(Basis('Context.get_object_implications', meth('get_object_implications'), side='objs'))
    out.append(Basis('PartialContext.get_attribute_implications',
                     meth('get_attribute_implications', 'partial'), partial=True))
    return out
