"""Formula cases: an operation, its symbolic inputs, its specification."""
import itertools
import os

from . import terms as t_
from .terms import mk, K
from .harness import H, RELS
from .api import ax
from .engine import Budget
from .loader import AnalysisBroken
from . import decide as d_
from .decide import Model, judge, context_view, spec_context


def models(n, sizes, names=(), prep=None, consts=()):
    """interpretations: every combination of the listed sizes with several
    incidences each, and larger sizes (around the constants of the formulas)"""
    out = []
    ks = sorted(sizes)
    lo = {k: min(sizes[k]) for k in ks}
    combos = list(itertools.product(*[sizes[k] for k in ks]))
    todo = []
    for c in combos:
        big = sum(c)
        for s in range(1 if big == 0 else n if min(c) > 0 else max(2, n // 4)):
            todo.append((s, c))
    top = max([max(v) for v in sizes.values()] or [0])
    big = sorted({top + 1, top + 2} | {k + d for k in consts if top <= k <= 66 for d in (0, 1, 2, k)})
    base = Model(int(os.environ.get('VERIF_SEED', '1') or 1))
    for b in big:
        for s in range(n if b <= top + 2 else 3 * n):
            c = []
            for q, k in enumerate(ks):
                pick = base.h('size', b, s, k)
                if top + 2 < b:
                    # one axis at the constant, the others small
                    c.append(b if pick % 2 or len(ks) == 1 else max(lo[k], 1 + pick // 2 % 3))
                else:
                    c.append(max(lo[k], 1 + pick % b) if pick % 3 else b)
            todo.append((s + 1000, tuple(c)))
    if 256 in consts:
        # a full line of that many elements
        for q in range(len(ks)):
            todo.append((-1 - q, tuple(256 if p == q else max(1, lo[k]) for p, k in enumerate(ks))))
    for s, c in todo:
        m = Model((base.seed, s), dict(zip(ks, c)))
        if s < 0:
            m.full, m.limit = True, 6000000
        m.bind = {'objs': 'G', 'atts': 'M', 'objsd': 'H', 'attsd': 'N'}
        if prep is None or prep(m) is not False:
            out.append(m)
    return out


def O(m, l='objs'):
    return [('n', l, i) for i in range(m.size(m.bind[l]))]


def A(m, l='atts'):
    return O(m, l)


def tab(m, c='c', g='G', n='M'):
    return [[m.rel('I', c, i, j) for j in range(m.size(n))] for i in range(m.size(g))]


class Case(object):
    """one obligation: run `op` on inputs and compare with `spec`"""
    def __init__(self, name, build, spec, view, sizes=None, prep=None, n=24, anchor=''):
        self.name, self.build, self.spec, self.view = name, build, spec, view
        self.sizes = sizes or {'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3)}
        self.prep, self.n, self.anchor = prep, n, anchor

    def run(self, root, repo=None, tier='quick'):
        h = H(root=root, repo=repo)
        outs, aux = self.build(h)
        view = self.view
        if self.view is None:
            view = aux['view']
        ms = models(self.n if tier == 'quick' else self.n * 6, self.sizes, prep=self.prep,
                    consts=constants(h.E, outs, h.st))
        v = judge(h.E, outs, ms, self.spec, lambda ev, st, r, m: view(ev, st, r, aux), RELS,
                  aux.get('syms'), getattr(self, 'any_outcome', False))
        return h, outs, v

    # ------------------------------------------------------------ obligation
    def decide(self, root, tier):
        from . import run as r_
        try:
            h, outs, v = self.run(root, None, tier)
        except (Budget, AnalysisBroken) as e:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(e).__name__, e))
        c = dict(outcomes=len(outs), interpretations=v.models, agreeing=v.agree, unknown=v.unknown)
        fs = []
        if v.witness:
            m, want, res = v.witness
            fs.append(r_.finding(
                self.name, self.where(h),
                'the derived result formula differs from the specified one when |axes| = %s: '
                'specified %s, derived %s' % (m.sizes, short(want), ' or '.join(
                    short(x[:2]) for x in res)), interpretation='seed %s sizes %s' % (m.seed, m.sizes)))
        return r_.result(self.name, v.status, fs, why=str(v.why) if v.why else '', **c)

    def where(self, h):
        """definition the case is about: Class.method or module.function"""
        n = self.anchor or self.name.split('[')[0]
        a, _, b = n.rpartition('.')
        for mod, cls, node, rel in h.E.repo.defs():
            if node.name == b and (cls == a or (cls is None and mod.endswith(a))):
                return '%s:%s %s' % (rel, node.lineno, n)
        return n


def constants(E, outs, st0):
    """integer constants (> 1) in the path conditions and results"""
    out = set()
    for st, v in outs:
        ts = [l for cube in st.pc for l in cube]
        if isinstance(v, t_.T):
            ts.append(v)
        for k, o in st.heap.items():
            o0 = st0.heap.get(k)
            if o0 is not o and o.content is not None:
                ts.append(o.content)
        for t in ts:
            for x in t_.walk(t):
                if t_.isk(x) and isinstance(t_.kval(x), int) and (
                        1 < t_.kval(x) < 70 or t_.kval(x) == 256):
                    out.add(t_.kval(x))
    return sorted(out)[:4]


def short(x):
    s = str(x)
    return s if len(s) < 300 else s[:300] + '...'
