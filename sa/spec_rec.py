"""Loops that run until nothing is left to do (C18).

The body of a `while` loop is interpreted once, from a state in which every
location the loop changes is a symbol (sets of names, numbers, flags, lists of
implications).  That gives the transition of the loop as a formula: conditions
of going on and of leaving, and the next value of every location, for any state
and any input.  Together with the formulas of the state before the loop and of
the results after it this defines the answer of the operation as the end of a
recurrence; it is compared with the definition of the answer in small
interpretations."""
from . import decide as d_
from . import run as r_
from . import terms as t_
from .api import ax, N0
from .cases import models
from .decide import Ev, Obj, Unknown, Undef, field, pc_holds, judge
from .engine import Budget
from .harness import H, RELS
from .loader import AnalysisBroken
from .models import new_set
from .terms import mk, K, isk, kval

CO = 'fca.algorithms.closure_operators'
DG = 'fca.algorithms.dg_basis'
MAXSTEPS = 400
LISTS = {'M': 'atts', 'G': 'objs'}


class Lost(Exception):
    """the loop has a state the analysis has no symbols for"""


def implclosure(s, imps):
    s = set(s)
    more = True
    while more:
        more = False
        for p, q in imps:
            if p <= s and not q <= s:
                s |= q
                more = True
    return frozenset(s)


class Transition(object):
    """hook of the engine: the transition formula of the first while loop met in
    the functions `where`"""
    def __init__(self, h, where, side='M'):
        self.h, self.where, self.side = h, where, side
        self.base = None
        self.syms = {}          # location -> (kind, token)
        self.outs = None
        self.other = False

    def loops(self, E, st, axis, j):
        return j is None and any(str(getattr(E.stack[-1][0], 'qual', '')).startswith(w) for w in self.where)

    # ------------------------------------------------------------ symbols
    def kind(self, E, st, v):
        if v is None:
            return None
        if isk(v) and isinstance(kval(v), bool):
            return 'bool'
        if t_.is_num(v):
            return 'int'
        if t_.is_bool(v):
            return 'bool'
        ks = set()
        for x in t_.members(v):
            if x.op != 'R' or E.obj(st, x) is None:
                return None
            ks.add(E.obj(st, x).kind)
        if len(ks) != 1:
            return None
        k = ks.pop()
        return k if k in ('set', 'list') else None

    def elements(self, E, st, v):
        """class of the elements of a list"""
        out = set()
        for x in t_.members(v):
            c = E.content(st, x)
            if c is None:
                return {None}
            for e in E.elem_values(st, c):
                o = E.obj(st, e) if e.op == 'R' else None
                out.add(E.mro_names(o.cls)[0] if o is not None and o.kind == 'inst' else 'name')
        return out

    def sym(self, E, s, loc, kind, elem):
        n = self.syms.get(loc)
        if n is None:
            n = self.syms[loc] = (kind, 'rec%d' % len(self.syms), elem)
        tok = n[1]
        if kind == 'int':
            return mk('isy', tok)
        if kind == 'bool':
            return mk('mem', mk('nsy', 'rec!'), mk('nset', tok))
        if kind == 'set':
            return mk('nset', tok)
        h = self.h
        if elem == 'name':
            raise Lost('a list of names')
        save, h.st = h.st, s
        try:
            lst = h.implications(tok, side=self.side, tag=K(tok))
        finally:
            h.st = save
        return E.content(s, lst)

    def abstract(self, E, st, chv, cho):
        s = st.copy()
        s.pc = frozenset([frozenset()])
        s.facts = frozenset()
        for k, (kind, elem) in sorted(chv.items(), key=repr):
            t = self.sym(E, s, k, kind, elem)
            if kind in ('int', 'bool'):
                s.vars[k] = t
            else:
                oid = (('rec', repr(k)), 0)
                o = E.obj(st, t_.members(st.vars[k])[0])
                s.heap[oid] = o._replace(content=t, params=(), origin='fresh')
                s.vars[k] = mk('R', mk('oid', *oid))
        for oid, elem in sorted(cho.items(), key=repr):
            o = s.heap[oid]
            s.heap[oid] = o._replace(content=self.sym(E, s, oid, o.kind, elem))
        return s

    # ------------------------------------------------------------ hook
    def enter(self, E, st, axis, j):
        if not self.loops(E, st, axis, j):
            return None
        if self.base is not None:
            self.other = True
            return None
        self.base = st.copy()
        self.fr = E.stack[-1][1]
        return st.copy()

    def leave(self, E, outs, axis, j):
        raise AnalysisBroken('transition')

    def run(self, E, st, body):
        """iterate the set of changed locations to a fixpoint"""
        chv, cho = {}, {}
        pre = frozenset(st.heap)
        for _ in range(8):
            s = self.abstract(E, st, chv, cho)
            start = s.copy()
            outs = body(s)
            grew = False
            for o in outs:
                if o.imprecise and o.sig in (None, 'cont'):
                    pass
                if o.sig not in (None, 'cont'):
                    continue
                for k, v in o.vars.items():
                    old = start.vars.get(k)
                    if k not in st.vars or v is old:
                        continue
                    if k[0] != self.fr and not (isinstance(k[0], tuple) and k[0][0] == 'F'):
                        continue
                    if k not in chv:
                        kd = self.kind(E, st, st.vars[k])
                        if kd is None or kd != self.kind(E, o, v):
                            raise Lost('variable %s' % (k[1],))
                        chv[k] = (kd, None)
                        grew = True
                    kd, el = chv[k]
                    if kd != self.kind(E, o, v):
                        raise Lost('variable %s' % (k[1],))
                    if kd == 'list':
                        grew |= self.widen(chv, k, self.elements(E, st, st.vars[k]) |
                                           self.elements(E, o, v))
                for oid, ob in o.heap.items():
                    old = start.heap.get(oid)
                    if old is None or old is ob or oid not in pre:
                        continue
                    if old.fields != ob.fields:
                        raise Lost('fields of an object')
                    if old.content is ob.content:
                        continue
                    if ob.kind not in ('set', 'list') or ob.params:
                        raise Lost('a %s' % ob.kind)
                    r = mk('R', mk('oid', *oid))
                    if oid not in cho:
                        cho[oid] = None
                        grew = True
                    if ob.kind == 'list':
                        e = self.elements(E, o, r) | self.elements(E, st, r)
                        e.discard(None)
                        if len(e) > 1 or any(not x.endswith('Implication') for x in e):
                            raise Lost('a list of %s' % sorted(e))
                        if e and cho[oid] is None:
                            cho[oid] = e.pop()
                            grew = True
            if not grew:
                break
        else:
            raise Lost('no fixpoint')
        self.start, self.outs, self.chv, self.cho = start, [o.copy() for o in outs], chv, cho
        self.aliases(E, start, outs)
        return [o for o in outs if o.sig not in (None, 'cont')]

    @staticmethod
    def widen(chv, k, e):
        e.discard(None)
        if len(e) > 1 or any(not x.endswith('Implication') for x in e):
            raise Lost('a list of %s' % sorted(e))
        if e and chv[k][1] is None:
            chv[k] = ('list', e.pop())
            return True
        return False

    def aliases(self, E, start, outs):
        """the symbols stand for separate objects"""
        for o in outs:
            if o.sig not in (None, 'cont'):
                continue
            mine = {}
            for k, (kd, _) in self.chv.items():
                if kd in ('set', 'list'):
                    for x in t_.members(o.vars[k]):
                        if mine.setdefault(E.oid(x), k) != k:
                            raise Lost('two variables for one object')
            for oid in self.cho:
                if oid in mine:
                    raise Lost('two variables for one object')
            for k, v in o.vars.items():
                if k in mine.values() or k not in start.vars:
                    continue
                if any(x.op == 'R' and E.oid(x) in mine for x in t_.walk(v)):
                    raise Lost('two variables for one object')
            for oid, ob in o.heap.items():
                ts = [v for _, v in ob.fields] + ([ob.content] if ob.content is not None else [])
                if any(x.op == 'R' and E.oid(x) in mine for t in ts for x in t_.walk(t)):
                    raise Lost('an object of the state is held elsewhere')

    # ------------------------------------------------------------ meaning
    def read(self, ev, st, loc, kind):
        v = st.vars[loc] if loc in self.chv else None
        if kind == 'int':
            return ev.num(v, {}, st)
        if kind == 'bool':
            return ev.bool_(v, {}, st)
        c = ev.E.content(st, v) if v is not None else st.heap[loc].content
        if kind == 'set':
            x = ev.contentval(c, {}, st)
            if any(isinstance(e, Obj) for e in x):
                raise Unknown('set of objects')
            return frozenset(x)
        out = []
        for o in ev.contentval(c, {}, st):
            if not isinstance(o, Obj):
                raise Unknown('list of names')
            out.append((frozenset(field(ev, o, '_premise')), frozenset(field(ev, o, '_conclusion'))))
        return tuple(out)

    def write(self, m, state):
        m.sets['rec!'] = ('n', 'rec', 0)
        for k in [k for k in m.fixed if len(k) > 1 and str(k[1]).startswith('rec')]:
            del m.fixed[k]
        for loc, (kind, tok, elem) in self.syms.items():
            v = state[loc]
            if kind in ('int', 'set'):
                m.sets[tok] = v
            elif kind == 'bool':
                m.sets[tok] = frozenset([m.sets['rec!']] if v else [])
            else:
                m.sizes[tok] = len(v)
                for i, (p, q) in enumerate(v):
                    l = LISTS[self.side]
                    for a in range(m.size(self.side)):
                        m.fixed[('P', tok, i, a)] = ('n', l, a) in p
                        m.fixed[('Q', tok, i, a)] = ('n', l, a) in q

    def state(self, ev, st, need):
        out = {}
        for loc, (kind, tok, elem) in self.syms.items():
            try:
                out[loc] = self.read(ev, st, loc, kind)
            except (Unknown, Undef):
                if tok in need:
                    raise
                out[loc] = {'int': 0, 'bool': False, 'set': frozenset(), 'list': ()}[kind]
        return out

    def needed(self, finals):
        toks = {t: 1 for _, t, _ in self.syms.values()}
        out = set()
        for o in list(self.outs) + [s for s, _ in finals]:
            ts = [l for c in o.pc for l in c]
            ts += [ob.content for ob in o.heap.values() if ob.content is not None]
            ts += [v for v in o.vars.values() if isinstance(v, t_.T)]
            for t in ts:
                for x in t_.walk(t):
                    if x.op in ('nset', 'isy', 'ax') and x.args[0] in toks:
                        out.add(x.args[0])
        return out

    def finish(self, E, m, finals):
        """follow the recurrence to the state in which the loop is left"""
        ev = Ev(E, m, RELS)
        h = pc_holds(ev, self.base)
        need = self.needed(finals)
        s = self.state(Ev(E, m, RELS), self.base, need)
        self.write(m, s)
        if h is False:
            return 'not entered'
        if h is None:
            raise Unknown('entering the loop')
        seen = set()
        for n in range(MAXSTEPS):
            key = tuple(s[k] for k in sorted(s, key=repr))
            if key in seen:
                return 'endless'
            seen.add(key)
            nxt = None
            left = False
            for o in self.outs:
                ev = Ev(E, m, RELS)
                h = pc_holds(ev, o)
                if h is False:
                    continue
                if h is None:
                    raise Unknown('condition of an iteration')
                if o.sig in (None, 'cont'):
                    t = self.state(ev, o, need)
                    if nxt is not None and nxt != t:
                        raise Unknown('two next states')
                    nxt = t
                else:
                    left = True
            if left and nxt is not None:
                raise Unknown('goes on and leaves')
            if left:
                return 'left'
            if nxt is None:
                raise Unknown('no next state')
            s = nxt
            self.write(m, s)
        return 'endless'


class Rec(object):
    """one obligation: the answer of an operation whose loop is a recurrence"""
    def __init__(self, name, build, where, spec, view, sizes, prep=None, n=24, side='M'):
        self.side = side
        self.name, self.build, self.where = name, build, where
        self.spec, self.view, self.sizes, self.prep, self.n = spec, view, sizes, prep, n

    def run(self, root, repo=None, tier='quick'):
        h = H(root=root, repo=repo)
        op = self.build(h)
        h.settle()
        T = Transition(h, self.where, self.side)
        h.E.inject = T
        self.T = T
        return h, op()

    def decide(self, root, tier):
        try:
            h, outs = self.run(root, None, tier)
        except Lost as e:
            return r_.result(self.name, 'undecided', why='state of the loop: %s' % e)
        except (Budget, AnalysisBroken) as e:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(e).__name__, e))
        T = self.T
        if T.base is None or T.outs is None:
            return r_.result(self.name, 'undecided', why='no loop of this kind')
        if T.other:
            return r_.result(self.name, 'undecided', why='the loop is met twice')
        E = h.E
        end = []
        for s, v in outs:
            if s.sig is None and v is not None and v.op == 'R':
                v = E.content(s, v)
            elif s.sig is None and v is not None and v.op == 'iseq':
                v = v.args[0]
            end.append((s, v))
        ms = models(self.n if tier == 'quick' else self.n * 6, self.sizes, prep=self.prep)
        agree = unknown = 0
        why, fs = '', []

        def where():
            a, _, b = self.name.split('[')[0].rpartition('.')
            for mod, cls, node, rel in E.repo.defs():
                if node.name == b and (cls == a or (cls is None and mod.endswith(a))):
                    return '%s:%s %s' % (rel, node.lineno, self.name)
            return self.name
        for m in ms:
            try:
                how = T.finish(E, m, outs)
            except (Unknown, Undef) as e:
                unknown += 1
                why = '%s %s' % (type(e).__name__, e)
                continue
            want = self.spec(m)
            if how == 'endless':
                fs.append(r_.finding(self.name, where(), 'the loop comes back to a state it was in '
                                     '(|axes| = %s)' % ({k: v for k, v in m.sizes.items() if not k.startswith('rec')},),
                                     interpretation='seed %s' % (m.seed,)))
                break
            v = judge(E, end, [m], lambda m: ('value', want), self.view, RELS)
            agree, unknown = agree + v.agree, unknown + v.unknown
            if v.witness:
                m, want, res = v.witness
                fs.append(r_.finding(self.name, where(), (
                    'the recurrence of the loop ends with another answer than specified (|axes| = %s): '
                    'specified %s, derived %s' % (
                        {k: v for k, v in m.sizes.items() if not k.startswith('rec')}, str(want)[:300],
                        ' or '.join(str(x[:2])[:300] for x in res))),
                    interpretation='seed %s' % (m.seed,)))
                break
            if v.unknown:
                why = str(v.why)
        st = 'violated' if fs else 'holds' if agree and not unknown else 'undecided'
        return r_.result(self.name, st, fs, why=why, outcomes=len(outs), state=len(T.syms),
                         transitions=len(T.outs), interpretations=len(ms), agreeing=agree, unknown=unknown)


# ---------------------------------------------------------------- definitions
def names(m, r, tag, i):
    return frozenset(('n', 'atts', a) for a in range(m.size('M')) if m.rel(r, tag, i, a))


def given(m, axis='L'):
    return [(names(m, 'P', axis, i), names(m, 'Q', axis, i)) for i in range(m.size(axis))]


def derived(m, s, side='M'):
    l = LISTS[side]
    out = set((('n', l, a) for a in range(m.size(side))))
    for g in range(m.size('G' if side == 'M' else 'M')):
        row = set(('n', l, a) for a in range(m.size(side))
                  if (m.rel('I', 'c', g, a) if side == 'M' else m.rel('I', 'c', a, g)))
        if s <= row:
            out &= row
    return frozenset(out)


def canonical(m, close, background, side='M'):
    """pseudo-closed sets (relative to the background) and their closures"""
    n = m.size(side)
    sets = sorted((frozenset(('n', LISTS[side], a) for a in range(n) if k >> a & 1) for k in range(1 << n)),
                  key=len)
    base = []
    for s in sets:
        if close(s) != s and implclosure(s, background) == s and \
                all(q <= s for p, q in base if p < s):
            base.append((s, close(s)))
    return frozenset(base)


def as_pairs_list(ev, st, r):
    return [(frozenset(field(ev, o, '_premise')), frozenset(field(ev, o, '_conclusion')))
            for o in ev.contentval(r, {}, st)]


def as_pairs(ev, st, r, m):
    out = as_pairs_list(ev, st, r)
    if len(out) != len(set(out)):
        return 'repeated ' + repr(sorted(map(repr, out)))
    return frozenset(out)


def as_set(ev, st, r, m):
    return frozenset(ev.contentval(r, {}, st))


def stub_closures(h):
    def close(E, st, f, args, kw, node):
        if len(args) != 2 or kw or any(a.op != 'R' for a in args):
            return None
        s, l = E.content(st, args[0]), E.content(st, args[1])
        if s is None or l is None:
            return None
        return [(st, new_set(E, st, node, mk('impclo', s, l)))]
    for n in ('simple_closure', 'lin_closure'):
        h.E.stubs['%s.%s' % (CO, n)] = close


def basis(name, background):
    def build(h):
        c = h.context()
        kw = {'imp_basis': h.implications('L')} if background else {}
        stub_closures(h)
        return lambda: h.fn(DG, name, [c], kw)
    return build


def of_context(name, background=False):
    def build(h):
        c = h.context()
        kw = {'confirmed': h.implications('L')} if background else {}
        stub_closures(h)
        h.E.stubs['fca.context.memo'] = lambda E, st, f, args, kw, node: \
            [(st, args[0])] if len(args) == 1 and not kw else None      # remembered answers: C12
        return lambda: h.call(c, name, [], kw)
    return build


def spec_basis(background, side='M'):
    def spec(m):
        return canonical(m, lambda s: derived(m, s, side), given(m) if background else [], side)
    return spec


def valid_background(m):
    """the background implications hold in the context"""
    for i, (p, q) in enumerate(given(m)):
        c = derived(m, p)
        for a in range(m.size('M')):
            m.fixed[('Q', 'L', i, a)] = ('n', 'atts', a) in c and m.rel('Q', 'L', i, a)
    return True


def of_partial(name):
    def build(h):
        p = h.partial()
        stub_closures(h)
        return (lambda: h.fn(DG, name, [p])) if name.startswith('compute') else (lambda: h.call(p, name))
    return build


def possible(m):
    """what is certain is possible"""
    for i in range(m.size('G')):
        for j in range(m.size('M')):
            if m.rel('I', 'px', i, j):
                m.fixed[('I', 'pq', i, j)] = True
    return True


def common(m, s):
    """what the objects certainly having the set possibly have in common"""
    out = frozenset(range(m.size('M')))
    for i in range(m.size('G')):
        if all(m.rel('I', 'px', i, a) for a in s):
            out &= frozenset(j for j in range(m.size('M')) if m.rel('I', 'pq', i, j))
    return out


def subsets(n):
    return [frozenset(a for a in range(n) if k >> a & 1) for k in range(1 << n)]


def spec_partial(m):
    return (True, frozenset(s for s in subsets(m.size('M')) if common(m, s) == s))


def as_closed(ev, st, r, m):
    """conclusions are closures; the sets respecting all implications"""
    out = [(frozenset(x[2] for x in p), frozenset(x[2] for x in q))
           for p, q in (as_pairs_list(ev, st, r))]
    return (all(p | q == common(m, p) for p, q in out) and len(out) == len(set(out)),
            frozenset(s for s in subsets(m.size('M')) if all(q <= s for p, q in out if p <= s)))


def closing(name):
    def build(h):
        s, l = h.sub('M', 'B', 'atts', 's'), h.implications('L')
        return lambda: h.fn(CO, name, [s, l])
    return build


def spec_closing(m):
    return implclosure(frozenset(('n', 'atts', a) for a in range(m.size('M')) if m.rel('B', 's', a)), given(m))


def recurrences():
    small = {'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3, 4)}
    withl = {'G': (0, 1, 2), 'M': (0, 1, 2, 3), 'L': (0, 1, 2)}
    out = []
    for n in ('simple_closure', 'lin_closure'):
        out.append(Rec('closure_operators.' + n, closing(n), [CO], spec_closing, as_set,
                       {'M': (0, 1, 2, 3), 'L': (0, 1, 2, 3)}, n=20))
    for n in ('compute_dg_basis', 'compute_dg_basis_simple', 'dg_basis_iter_simple'):
        out.append(Rec('dg_basis.' + n, basis(n, False), [DG], spec_basis(False), as_pairs, small, n=12))
        out.append(Rec('dg_basis.%s[background]' % n, basis(n, True), [DG], spec_basis(True), as_pairs,
                       withl, prep=valid_background, n=12))
    out.append(Rec('Context.get_attribute_implications', of_context('get_attribute_implications'), [DG],
                   spec_basis(False), as_pairs, small, n=12))
    out.append(Rec('Context.get_attribute_implications[background]', of_context(
        'get_attribute_implications', True), [DG], spec_basis(True), as_pairs, withl,
        prep=valid_background, n=12))
    for n in ('dg_basis.compute_partial_dg_basis', 'PartialContext.get_attribute_implications'):
        out.append(Rec(n, of_partial(n.rpartition('.')[2]), [DG], spec_partial, as_closed,
                       {'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3)}, prep=possible, n=16))
    out.append(Rec('Context.get_object_implications', of_context('get_object_implications'), [DG],
                   spec_basis(False, 'G'), as_pairs, {'G': (0, 1, 2, 3, 4), 'M': (0, 1, 2, 3)}, n=12, side='G'))
    return out
