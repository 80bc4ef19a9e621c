"""Symbolic arguments for the repository's public functions, by parameter role."""
from . import terms as t_
from . import models as m_
from .terms import T, mk, K, NONE, TRUE, FALSE, U, S0, free
from .engine import St, Budget
from .loader import AnalysisBroken
from .api import Api, Pos, N0, ax, names_list, table_list

# uninterpreted relations used by the inputs (all boolean)
RELS = ('B', 'P', 'Q', 'X', 'Y', 'IQ', 'rw', 'T', 'OK')
for _r in RELS:
    t_.BOOLOPS.add(_r)


def subset(axis, rel, lname, *pre):
    """{ names[i] | rel(pre, i) }"""
    i = mk('ix', axis, 0)
    return t_.s_comp(axis, i, mk(rel, *(list(pre) + [i])), t_.el(lname, i))


class H(object):
    """builder of symbolic inputs in one state"""
    def __init__(self, root='/repo', repo=None, E=None):
        self.A = Api(root=root, repo=repo)
        self.E = self.A.E
        self.st = St()

    # ------------------------------------------------------------ primitives
    def set_(self, content):
        return m_.new_set(self.E, self.st, N0, content)

    def list_(self, content):
        return m_.new_list(self.E, self.st, N0, content)

    def names(self, tag):
        """an arbitrary set of names"""
        return self.set_(mk('nset', tag))

    def nameslist(self, tag):
        a = mk('setax', mk('nset', tag))
        i = mk('ix', a, 0)
        return self.list_(m_.seq(mk('map', a, i, mk('sel', mk('nset', tag), i))))

    def sub(self, axis, rel, lname, tag):
        return self.set_(subset(ax(axis), rel, lname, K(tag)))

    def sublist(self, axis, rel, lname, tag):
        """list of some names, in list order"""
        a = ax(axis)
        i = mk('ix', a, 0)
        f = mk('filt', a, i, mk(rel, K(tag), i))
        j = mk('ix', f, 0)
        return self.list_(m_.seq(mk('map', f, j, t_.el(lname, j))))

    def twice(self, axis, rel, lname, tag):
        """list that names every one of some names twice"""
        a = ax(axis)
        i = mk('ix', a, 0)
        f = mk('filt', a, i, mk(rel, K(tag), i))
        j = mk('ix', f, 0)
        g = mk('map', f, j, t_.el(lname, j))
        return self.list_(m_.seq(g, g))

    def repeated(self, axis, lname, tag, count='L'):
        """list of arbitrary names, possibly with repetitions"""
        i = mk('ix', ax(count), 0)
        return self.list_(m_.seq(mk('map', ax(count), i, t_.el(lname, mk('ixf', K(tag), ax(axis), i)))))

    def shuffled(self, axis, rel, lname, tag):
        """list of some names, in arbitrary order"""
        a = ax(axis)
        i = mk('ix', a, 0)
        f = mk('filt', a, i, mk(rel, K(tag), i))
        j = mk('ix', f, 0)
        s = mk('sortax', f, mk('skey', j, mk('ordk', K(tag), j)), FALSE)
        k = mk('ix', s, 0)
        return self.list_(m_.seq(mk('map', s, k, t_.el(lname, k))))

    def indices(self, axis, rel, tag, kind='list'):
        a = ax(axis)
        i = mk('ix', a, 0)
        if kind == 'set':
            return self.set_(t_.s_comp(a, i, mk(rel, K(tag), i), i))
        f = mk('filt', a, i, mk(rel, K(tag), i))
        j = mk('ix', f, 0)
        return self.list_(m_.seq(mk('map', f, j, j)))

    def row(self, axis, tag):
        a = ax(axis)
        i = mk('ix', a, 0)
        return self.list_(m_.seq(mk('map', a, i, mk('rw', K(tag), i))))

    def name(self, tag):
        return mk('nsy', tag)

    # --------------------------------------------------------------- objects
    def context(self, name='c', cls=None, **kw):
        return self.A.context(self.st, name, cls=cls, **kw)

    def new(self, mod, cls, args, kw=None):
        c = self.A.cls(mod, cls)
        outs = self.E.instantiate(self.st, mk('cl', c.cid), list(args), kw or {}, N0)
        good = self.A.ok(outs, 'constructor of %s.%s' % (mod, cls))
        # the inputs are not degenerate: prefer the path that says so
        s, v = max(good, key=lambda g: -sum(1 for cube in g[0].pc for l in cube
                                            if l.op == 'eq' and K(0) in l.args))
        if len(good) > 1:
            self.forks = getattr(self, 'forks', 0) + 1
        for k in St.__slots__:
            setattr(self.st, k, getattr(s, k))
        return v

    def implication(self, tag, cls='Implication'):
        return self.new('fca.implication', cls,
                        [self.sub('M', 'P', 'atts', tag), self.sub('M', 'Q', 'atts', tag)])

    def many(self, axis, make):
        """list with one object per index of the axis; make(ix) builds it"""
        a = ax(axis)
        i = mk('ix', a, 0)
        self.E.ixs.append(i)
        try:
            v = make(i)
        finally:
            self.E.ixs.pop()
        return self.list_(m_.seq(mk('map', a, i, v)))

    def implications(self, axis='L', cls='Implication', side='M', tag=None):
        l = {'M': 'atts', 'N': 'nbatts'}.get(side, 'objs')
        tag = tag or K(axis)
        return self.many(axis, lambda i: self.new('fca.implication', cls, [
            self.set_(subset(ax(side), 'P', l, tag, i)),
            self.set_(subset(ax(side), 'Q', l, tag, i))]))

    def concept(self, tag='x'):
        return self.new('fca.concept', 'Concept',
                        [self.sub('G', 'X', 'objs', tag), self.sub('M', 'Y', 'atts', tag)])

    def concepts(self, axis='C'):
        return self.many(axis, lambda i: self.new('fca.concept', 'Concept', [
            self.set_(subset(ax('G'), 'X', 'objs', K(axis), i)),
            self.set_(subset(ax('M'), 'Y', 'atts', K(axis), i))]))

    def partial(self, name='p'):
        x = table_list(self.E, self.st, ax('G'), ax('M'), name + 'x')
        q = table_list(self.E, self.st, ax('G'), ax('M'), name + 'q')
        o = names_list(self.E, self.st, ax('G'), 'objs')
        t = names_list(self.E, self.st, ax('M'), 'atts')
        return self.new('fca.partial_context', 'PartialContext', [x, q, o, t])

    def system(self):
        return self.new('fca.concept_system', 'ConceptSystem', [self.concepts()])

    def lattice(self, cxt=None):
        cxt = cxt if cxt is not None else self.context()
        q = None
        for f in []:
            if f.name == 'norris' and f.mod == 'fca.algorithms.norris':
                q = f.qual
        cs = self.concepts()
        lst = cs
        e = mk('ext', 'builder')
        return self.new('fca.concept_lattice', 'ConceptLattice', [cxt], {'builder': e})

    def mv(self):
        a, b = ax('G'), ax('V')
        i, j = mk('ix', a, 0), mk('ix', b, 0)
        self.E.ixs.append(i)
        r = self.list_(m_.seq(mk('map', b, j, mk('val_', i, j))))
        self.E.ixs.pop()
        t = self.list_(m_.seq(mk('map', a, i, r)))
        return self.new('fca.mvcontext', 'ManyValuedContext',
                        [t, names_list(self.E, self.st, a, 'objs'),
                         names_list(self.E, self.st, b, 'mvatts')])

    def E_new_dict(self):
        from . import calls as c_
        return self.E.alloc(self.st, "dict", N0, content=mk("seq"))

    def path(self):
        return mk("ssy", "path")

    def pair(self, a, b):
        return mk("tup", self.sub("M", "B", "atts", a), self.sub("M", "B", "atts", b))

    def table(self, name):
        return table_list(self.E, self.st, ax("G"), ax("M"), name)

    def scales(self):
        d = self.E_new_dict()
        return d

    # ------------------------------------------------------------------- run
    def settle(self):
        self.A.settle(self.st)
        self.E.reports[:] = []

    def call(self, recv, name, args=(), kw=None):
        return self.A.method(self.st, recv, name, list(args), kw)

    def fn(self, mod, name, args=(), kw=None):
        return self.A.run(self.st, self.A.fn(mod, name), list(args), kw)

    # ------------------------------------------------------------ assumptions
    def assume(self, *conds):
        for c in conds:
            if not self.E.assume(self.st, c):
                raise AnalysisBroken('contradictory assumption %s' % (c,))

    def fresh_name(self, n, lname):
        self.assume(t_.b_not(t_.s_mem(n, mk('names', lname))))

    def known_name(self, n, lname):
        self.assume(t_.s_mem(n, mk('names', lname)))

    def nonempty(self, axis):
        self.assume(t_.b_not(t_.n_eq(t_.n_len(ax(axis)), K(0))))

    # ----------------------------------------------------------- exploration
    BASES = ('fca.algorithms.aibasis.compute_canonical_basis',
             'fca.algorithms.dg_basis.compute_dg_basis',
             'fca.algorithms.dg_basis.compute_dg_basis_simple',
             'fca.algorithms.dg_basis.compute_partial_dg_basis',
             'fca.algorithms.dg_basis.generalized_compute_dg_basis')

    def stub_bases(self):
        """basis computations return arbitrary implications; what they were
        computed from is recorded"""
        self.snaps = []

        def stub(E, st, f, args, kw, node):
            if f.name == 'generalized_compute_dg_basis':
                return None
            n = len(self.snaps)
            conf = kw.get('imp_basis')
            self.snaps.append((st.copy(), args[0] if args else kw.get('cxt'), conf))
            a, save, self.st = ax('NB'), self.st, st
            try:
                v = self.implications('NB', side='N', tag=K('basis%d' % n))
            finally:
                self.st = save
            st.ev('basis', n, E.where(node))
            return [(st, v)]
        for q in self.BASES:
            self.E.stubs[q] = stub

    def setf(self, ref, name, v):
        self.E.setf(self.st, ref, name, v, N0, quiet=True)

    def basic_exploration(self):
        self.stub_bases()
        c = self.context()
        x = self.new('fca.algorithms.exploration', 'BasicExploration', [c])
        self.setf(x, 'context', c)
        self.setf(x, 'attribute_implications', self.implications('L'))
        self.setf(x, 'object_implications', self.implications('K', side='G'))
        self.setf(x, 'confirmed_attribute_implications', self.implications('CA'))
        self.setf(x, 'confirmed_object_implications', self.implications('CO', side='G'))
        return x

    def db(self, cxt=None):
        self.stub_bases()
        self.cxt_ = cxt if cxt is not None else self.context()
        return self.new('fca.algorithms.exploration_.exploration', 'ExplorationDB',
                        [self.cxt_, self.implications('CA')])

    def pdb(self):
        """data base over a partial context"""
        return self.db(self.partial())

    def session(self):
        self.stub_bases()
        m = 'fca.algorithms.exploration2.exploration'
        self.cxt_ = self.context()
        c = self.new(m, 'ExplorationContext', [self.cxt_])
        s = self.new(m, 'ExplorationSession', [c])
        b = self.E.getf(self.st, s, '_basis')
        self.setf(b, '_background_implications', self.implications('CA'))
        return s
