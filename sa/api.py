"""Symbolic inputs for the analysed functions and helpers to run them."""
import ast
import sys

from . import terms as t_
from . import models as m_
from .terms import (T, mk, K, NONE, TRUE, FALSE, isk, kval, U, subst, free, walk, b_not, b_and,
                    b_or, n_len, S0)
from .engine import Engine, St, Budget
from .loader import Repo, AnalysisBroken

sys.setrecursionlimit(20000)


class Pos(object):
    """stand-in source position for analyser-made values"""
    def __init__(self, name):
        self.mod = '<input>'
        self.lineno = 0
        self.col_offset = 0
        self.name = name


N0 = Pos('input')


def ax(name):
    return mk('ax', name)


def names_list(E, st, axis, lname):
    i = mk('ix', axis, 0)
    m_.LISTAX[lname] = axis
    return m_.new_list(E, st, N0, m_.seq(mk('map', axis, i, t_.el(lname, i))))


def table_list(E, st, g, m, name):
    """list of rows; incidence I(name, i, j)"""
    i, j = mk('ix', g, 0), mk('ix', m, 0 if m is not g else 1)
    E.ixs.append(i)
    row = m_.new_list(E, st, N0, m_.seq(mk('map', m, j, mk('I', name, i, j))))
    E.ixs.pop()
    return m_.new_list(E, st, N0, m_.seq(mk('map', g, i, row)))


class Api(object):
    def __init__(self, root='/repo', repo=None):
        self.E = Engine(repo=repo, root=root)
        self.repo = self.E.repo
        self.notes = []

    # ------------------------------------------------------------ look-ups
    def cls(self, mod, name):
        c = self.repo.find_class(mod, name)
        if c is None:
            raise AnalysisBroken('anchor vanished: class %s.%s' % (mod, name))
        return c

    def fn(self, mod, name):
        r = self.repo.resolve(mod, name)
        if r is None or r[0] not in ('def', 'assign'):
            raise AnalysisBroken('anchor vanished: function %s.%s' % (mod, name))
        return self.E.module_name(St(), mod, name)

    def ok(self, outs, what):
        """the single normal outcome"""
        good = [(s, v) for s, v in outs if s.sig is None]
        if not good:
            raise AnalysisBroken('%s has no normal outcome' % what)
        return good

    # ------------------------------------------------------------ contexts
    def context(self, st, name='c', g=None, m=None, cls=None, gname=None, mname=None):
        """a freshly constructed context over symbolic objects/attributes"""
        E = self.E
        g = g or ax('G')
        m = m or ax('M')
        gname = gname or ('objs' + ('' if name == 'c' else name))
        mname = mname or ('atts' + ('' if name == 'c' else name))
        c = cls or self.cls('fca.context', 'Context')
        tab = table_list(E, st, g, m, name)
        ob = names_list(E, st, g, gname)
        at = names_list(E, st, m, mname)
        outs = E.instantiate(st, mk('cl', c.cid), [tab, ob, at], {}, N0)
        good = self.ok(outs, 'constructor of %s' % c.cid)
        s, v = good[0]
        self.nctor = len(good)
        st.__init__()
        for k in St.__slots__:
            setattr(st, k, getattr(s, k))
        return v

    def settle(self, st):
        """everything reachable now belongs to the caller"""
        for k, o in list(st.heap.items()):
            st.heap[k] = o._replace(origin='init')
        st.events = ()
        st.facts = frozenset()
        st.pc = frozenset([frozenset()])

    def run(self, st, f, args, kw=None):
        return self.E.call(st, f, list(args), kw or {}, N0)

    def method(self, st, ref, name, args=(), kw=None):
        out = []
        for s, f in self.E.getattr_(st, ref, name, N0):
            if s.sig is not None:
                out.append((s, None))
            else:
                out += self.E.call(s, f, list(args), kw or {}, N0)
        return out
