"""Abstract interpreter for the Python subset the repository uses.

Interprocedural by context-sensitive inlining, trace-partitioned (a bounded
set of abstract states per program point, joined beyond the bound), loops
summarised by widening the changed locations and recognising the transfer of
one generic iteration."""
import ast
import builtins
import itertools
import time
from collections import namedtuple

from . import terms as t_
from .terms import (T, mk, K, NONE, TRUE, FALSE, isk, kval, U, members, subst, free, walk,
                    b_not, b_and, b_or, b_forall, b_exists, n_eq, n_lt, n_le, n_len, n_add,
                    n_sub, n_mul, is_num, is_bool, s_comp, s_union, s_inter, s_diff, s_mem,
                    s_sub, s_eq, s_guard, S0)
from .loader import PRELUDE, Repo, AnalysisBroken

Obj = namedtuple('Obj', 'kind cls content fields origin params dtype base site')

MAXSTATES = 24
MAXDEPTH = 34
MAXCUBES = 24
ALTS = ('U', 'lv', 'oelt', 'sel', 'ite')
MAXEVENTS = 600


class Budget(Exception):
    pass


Exc = namedtuple('Exc', 'cls val site kind')     # kind: explicit / implicit / any


class St(object):
    __slots__ = ('vars', 'heap', 'facts', 'pc', 'events', 'cands', 'sig', 'ret', 'exc', 'imprecise')

    def __init__(self):
        self.vars = {}
        self.heap = {}
        self.facts = frozenset()
        self.pc = frozenset([frozenset()])
        self.events = ()
        self.cands = {}
        self.sig = None
        self.ret = None
        self.exc = None
        self.imprecise = False

    def copy(self):
        s = object.__new__(St)
        s.vars = dict(self.vars)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.pc = self.pc
        s.events = self.events
        s.cands = dict(self.cands)
        s.sig, s.ret, s.exc = self.sig, self.ret, self.exc
        s.imprecise = self.imprecise
        return s

    def ev(self, *e):
        if len(self.events) < MAXEVENTS:
            self.events = self.events + (e,)


def pc_simplify(cubes):
    cubes = set(cubes)
    if frozenset() in cubes:
        return frozenset([frozenset()])
    changed = True
    while changed and len(cubes) > 1:
        changed = False
        lst = list(cubes)
        for a in range(len(lst)):
            for b in range(a + 1, len(lst)):
                x, y = lst[a], lst[b]
                if x <= y:
                    cubes.discard(y)
                    changed = True
                    break
                if y <= x:
                    cubes.discard(x)
                    changed = True
                    break
                if len(x) == len(y):
                    d1, d2 = x - y, y - x
                    if len(d1) == 1 and len(d2) == 1:
                        l1, = d1
                        l2, = d2
                        if b_not(l1) is l2 or b_not(l2) is l1:
                            cubes.discard(x)
                            cubes.discard(y)
                            cubes.add(x & y)
                            changed = True
                            break
            if changed:
                break
    return joined_alts(frozenset(cubes))


def joined_alts(cubes):
    """all alternatives of a value: no condition"""
    if not any(l.op == 'is_' for c in cubes for l in c):
        return cubes
    while True:
        groups = {}
        for c in cubes:
            for l in c:
                if l.op == 'is_':
                    groups.setdefault((c - {l}, l.args[0], l.args[2]), set()).add(l)
        for (rest, v, n), ls in groups.items():
            if len(ls) == kval(n):
                cubes = pc_simplify((cubes - {rest | {l} for l in ls}) | {rest})
                break
        else:
            return cubes


def pc_term(pc):
    return b_or(*[b_and(*c) if c else TRUE for c in pc])


class Engine(object):
    def __init__(self, repo=None, root='/repo'):
        self._ff = {}
        self._lk = {}
        self.repo = repo or Repo(root)
        self.stack = []          # (fid, callsite)
        self.ixs = []            # active generic loop indices
        self.ctx = ()
        self.ctxid = {}
        self.trys = []           # handler class-name sets
        self.stubs = {}          # qualified name -> python callable(engine, args, kw, st, node)
        self.steps = 0
        self.maxsteps = 400000
        self.cap = MAXSTATES     # states kept per program point
        self.deadline = None
        self.watch_files = False
        self.reports = []        # (kind, site, text): facts noted while interpreting
        self._rep = set()
        self.visited = set()
        self.unresolved = {}
        self.seen_calls = set()
        self.forkkeys = True
        self.inject = None       # run one iteration of a chosen loop from a given state
        self.nonown = set()      # families accessed at a member other than the loops' current ones
        self.genctx = []         # frames of the generic while loops being interpreted
        self.unroll = False      # while loops: exits from the state after an iteration
        self.on_yield = None
        self.generic = False     # loops: sets that change are arbitrary sets at the loop head
        self.flags = set()
        from . import models
        self.models = models

    # ----------------------------------------------------------------- misc
    def site(self, node):
        m = getattr(node, 'mod', None)
        rel = self.repo.mods[m].rel if m in self.repo.mods else '?'
        return '%s:%d' % (rel, getattr(node, 'lineno', 0))

    def where(self, node):
        fn = self.stack[-1][0].qual if self.stack else '?'
        return '%s (in %s)' % (self.site(node), fn)

    def report(self, kind, node, text, extra=None):
        key = (kind, self.site(node), text)
        if key not in self._rep:
            self._rep.add(key)
            self.reports.append((kind, self.where(node), text, extra,
                                 tuple(f.qual for f, _ in self.stack)))

    def unres(self, what, node):
        self.unresolved[what] = self.unresolved.get(what, 0) + 1

    def curctx(self):
        c = self.ctxid.get(self.ctx)
        if c is None:
            c = self.ctxid[self.ctx] = len(self.ctxid)
        return c

    def isfact(self, st, c):
        if c.op == 'k':
            return kval(c)
        if c in st.facts:
            return True
        n = b_not(c)
        if n in st.facts:
            return False
        if c.op == 'eq':
            for x, y in (c.args, c.args[::-1]):
                if x.op == 'el' and b_not(t_.s_mem(y, mk('names', x.args[0]))) in st.facts:
                    return False
        if c.op == 'and':
            r = [self.isfact(st, x) for x in c.args]
            if all(x is True for x in r):
                return True
            if any(x is False for x in r):
                return False
        if c.op == 'or':
            r = [self.isfact(st, x) for x in c.args]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
        if c.op not in ('and', 'or'):
            for i in t_.free(c):
                if i.op == 'ix' and i.args[0].op in ('filt', 'rest', 'slc', 'revax', 'sortax'):
                    f = self.filterfacts(i)
                    if c in f:
                        return True
                    if n in f:
                        return False
        return None

    def filterfacts(self, i):
        """conditions an index satisfies because of the filters of its axis"""
        f = self._ff.get(i)
        if f is None:
            f = set()
            a = i.args[0]
            while a.op in ('filt', 'rest', 'slc', 'revax', 'sortax', 'setorder', 'permax'):
                if a.op == 'filt':
                    c = subst(a.args[2], {a.args[1]: i})
                    f.update(c.args if c.op == 'and' else (c,))
                a = a.args[0]
            self._ff[i] = f
        return f

    def assume(self, st, c):
        """add condition c (term) to state; returns False when contradictory"""
        if c.op == 'k':
            return bool(kval(c))
        f = self.isfact(st, c)
        if f is False:
            return False
        if f is True:
            return True
        lits = c.args if c.op == 'and' else (c,)
        st.facts = st.facts | frozenset(lits)
        ls = frozenset(lits)
        new = []
        for cube in st.pc:
            if any(b_not(l) in cube for l in ls):
                continue
            new.append(cube | ls)
        if not new:
            return False
        st.pc = pc_simplify(new)
        return True

    def branch(self, st, c):
        """-> list of (state, bool) for a condition term"""
        f = self.isfact(st, c)
        if f is not None:
            return [(st, bool(f))]
        a = st.copy()
        b = st.copy()
        out = []
        if self.assume(a, c):
            out.append((a, True))
        if self.assume(b, b_not(c)):
            out.append((b, False))
        return out or [(st, True)]

    # ------------------------------------------------------------- the heap
    def alloc(self, st, kind, node, cls=None, content=None, fields=(), origin='fresh',
              dtype=None, base=None, key=None):
        if key is None:
            key = ('a', getattr(node, 'mod', '?'), getattr(node, 'lineno', 0),
                   getattr(node, 'col_offset', 0), kind, self.curctx())
        k = 0
        while (key, k) in st.heap:
            k += 1
        oid = mk('oid', key, k)
        o = Obj(kind, cls, content, tuple(fields), origin, tuple(self.ixs), dtype, base,
                self.site(node) if node is not None else '?')
        st.heap[(key, k)] = o
        return mk('R', oid, *o.params)

    def oid(self, ref):
        return ref.args[0].args

    def obj(self, st, ref):
        return st.heap.get(ref.args[0].args)

    def osub(self, o, ref):
        """substitution mapping the object's parameters to the reference's arguments"""
        a = ref.args[1:]
        if a == o.params:
            return None
        self.other_member(o, ref)
        return dict(zip(o.params, a))

    def other_member(self, o, ref):
        """inside a loop over a family, a member other than the current one"""
        if any(p in self.ixs for p in o.params):
            self.nonown.add(self.oid(ref))

    def content(self, st, ref):
        o = self.obj(st, ref)
        if o is None or o.content is None:
            return None
        m = self.osub(o, ref)
        return o.content if m is None else subst(o.content, m)

    def getf(self, st, ref, name):
        o = self.obj(st, ref)
        if o is None:
            return None
        for k, v in o.fields:
            if k == name:
                m = self.osub(o, ref)
                return v if m is None else subst(v, m)
        return None

    def hasf(self, st, ref, name):
        o = self.obj(st, ref)
        return any(k == name for k, _ in o.fields)

    def strong(self, o, ref):
        """the reference names one member of the family (the one of the current iteration)"""
        return ref.args[1:] == o.params and all(p in self.ixs for p in o.params if p.op == 'ix')

    def mark(self, st, ref, what, node):
        """note a mutation of the object behind ref (and of what it is a view of)"""
        seen = 0
        r = ref
        while r is not None and seen < 6:
            o = self.obj(st, r)
            if o is None:
                return
            st.ev('mut', r, what, self.where(node), o.origin)
            r = o.base
            seen += 1

    def setcontent(self, st, ref, content, node, what):
        o = self.obj(st, ref)
        if o is None:
            return
        if what:
            self.mark(st, ref, what, node)
        if not self.strong(o, ref) or o.kind.startswith('old'):
            self.other_member(o, ref)
            member = self.member_content(o, ref, content)
            content = member if member is not None else \
                self.opaque_content(st, o, ref, extra=content)
        st.heap[self.oid(ref)] = o._replace(content=content)
        # writes through a view change the owner
        b = o.base
        n = 0
        while b is not None and n < 5:
            bo = self.obj(st, b)
            if bo is None:
                break
            st.heap[self.oid(b)] = bo._replace(content=self.opaque_content(st, bo, b, why=content))
            b = bo.base
            n += 1

    def member_content(self, o, ref, content):
        """content of a family of sets after one member of it has changed"""
        if o.kind != 'set' or o.base is not None or len(o.params) != 1 or len(ref.args) != 2 or \
                o.content is None or content is None:
            return None
        p, a = o.params[0], ref.args[1]
        if p.op != 'ix' or a.op != 'ix' or p in free(content) or \
                not t_.own_pos(t_.base_axis(p.args[0])) or p.args[0] is not a.args[0]:
            return None
        return t_.v_ite(n_eq(p, a), subst(content, {a: p}), o.content)

    def opaque_content(self, st, o, ref, extra=None, why=None):
        key = mk('okey', ref.args[0], o.content or NONE, extra or NONE, why or NONE)
        if o.kind in ('list', 'deque', 'iter'):
            t = mk('oseg', key)
            st.cands[t] = frozenset(self.elem_values(st, o.content)) | \
                (frozenset(self.elem_values(st, extra)) if extra is not None else frozenset())
            return mk('seq', t)
        if o.kind == 'set':
            t = mk('sopq', key)
            st.cands[t] = frozenset(self.elem_values(st, o.content)) | \
                (frozenset(self.elem_values(st, extra)) if extra is not None else frozenset())
            return t
        if o.kind == 'dict':
            t = mk('dopq', key)
            ks = set()
            for c in (o.content, extra):
                if c is not None:
                    ks |= set(self.dict_values(st, c))
            st.cands[t] = frozenset(ks)
            return mk('dct', t)
        if o.kind == 'ndarray':
            return mk('oarr', key)
        return mk('opq', key)

    def elem_values(self, st, content):
        """possible element values of a list/set content (bodies, candidates)"""
        out = []
        if content is None:
            return out
        for x in ([content] if content.op != 'seq' else content.args):
            if x.op == 'one':
                out.append(x.args[0])
            elif x.op == 'map':
                out.append(x.args[2])
            elif x.op in ('oseg', 'sopq'):
                out.extend(st.cands.get(x, ()))
            elif x.op == 'sone':
                out.append(x.args[0])
            elif x.op == 'scomp':
                out.append(x.args[3])
            elif x.op in ('union', 'inter'):
                out.extend(self.elem_values(st, x.args[0]))
                out.extend(self.elem_values(st, x.args[1]))
            elif x.op == 'diff':
                out.extend(self.elem_values(st, x.args[0]))
        return out

    def dict_values(self, st, content):
        out = []
        if content is None:
            return out
        for x in content.args:
            if x.op == 'de':
                out.append(x)
            elif x.op == 'dmap':
                out.append(mk('de', x.args[2], x.args[3]))
            elif x.op == 'dopq':
                out.extend(st.cands.get(x, ()))
        return out

    def setf(self, st, ref, name, val, node, quiet=False):
        o = self.obj(st, ref)
        if o is None:
            return
        if not quiet:
            st.ev('setf', ref, name, self.where(node), o.origin,
                  self.getf(st, ref, name), val)
        if not self.strong(o, ref) or o.kind.startswith('old'):
            old = None
            for k, v in o.fields:
                if k == name:
                    old = v
            if old is not None:
                val = U([old, val])
        f = tuple(sorted([(k, v) for k, v in o.fields if k != name] + [(name, val)],
                         key=lambda kv: kv[0]))
        st.heap[self.oid(ref)] = o._replace(fields=f)

    # --------------------------------------------------------------- lookup
    def vals(self, st, v, depth=0, seen=None):
        """concrete alternatives of an abstract value"""
        if v is None:
            return []
        if depth == 0 and v.op in ALTS:
            for f in st.facts:
                if f.op == 'is_' and f.args[0] is v:
                    return [f.args[1]]
        seen = set() if seen is None else seen
        if v.op == 'U' or v.op == 'ite' and depth < 6 and any(x.op == 'R' for x in walk(v)):
            out = []
            for x in v.args[v.op == 'ite':]:
                for y in self.vals(st, x, depth + 1, seen):
                    if y not in out:
                        out.append(y)
            return out
        if v.op == 'sel' and depth < 6:
            c = [x for x in self.elem_values(st, v.args[0])]
            refs = []
            for x in c:
                if x is not v and any(y.op == 'R' for y in walk(x)):
                    for y in self.vals(st, x, depth + 1, seen):
                        if y not in refs:
                            refs.append(y)
            if refs:
                return refs[:8]
        if v.op in ('lv', 'oelt'):
            if v in seen:
                return []
            c = st.cands.get(v)
            if c and depth < 12:
                seen.add(v)
                refs = []
                for x in sorted(c, key=lambda z: z.n):
                    if x is v:
                        continue
                    for y in self.vals(st, x, depth + 1, seen):
                        if v.op == 'oelt' and y.op == 'R':
                            y = self.some_member(y, v)
                        if y not in refs:
                            refs.append(y)
                if any(x.op in ('R', 'fn', 'bm', 'cl') for x in refs):
                    return refs[:8]
        return [v]

    def some_member(self, r, v):
        """a reference to the member of a family that an unknown element is: not the one of
        the current iteration, nor the one that another unknown element is"""
        m = {a: mk('ix', a.args[0], 7000 + v.n) for a in r.args[1:] if a.op == 'ix' and a not in free(v)}
        return subst(r, m) if m else r

    def alts(self, st, v):
        """[(state, alternative)]: which alternative it is, is noted in the state"""
        vs = self.vals(st, v)
        if len(vs) == 1:
            return [(st, vs[0])]
        out = []
        for n, w in enumerate(vs):
            s = st if n == len(vs) - 1 else st.copy()
            if v.op in ALTS:
                self.assume(s, mk('is_', v, w, K(len(vs))))
            out.append((s, w))
        return out

    def refs_in(self, st, v, acc=None, depth=0):
        """all references contained in a value, including loop candidates"""
        if acc is None:
            acc = {}
        for x in walk(v):
            if x.op == 'R':
                acc[x] = 1
            elif x.op in ('lv', 'oseg', 'sopq', 'dopq', 'oelt') and depth < 8:
                if ('seen', x) in acc:
                    continue
                acc[('seen', x)] = 1
                for y in st.cands.get(x, ()):
                    self.refs_in(st, y, acc, depth + 1)
        return acc

    def reach(self, st, *vals):
        """oids reachable from values through the heap"""
        seen = {}
        work = list(vals)
        while work:
            v = work.pop()
            if v is None:
                continue
            for r in self.refs_in(st, v):
                if isinstance(r, tuple):
                    continue
                k = self.oid(r)
                if k in seen:
                    continue
                o = st.heap.get(k)
                if o is None:
                    continue
                seen[k] = r
                if o.content is not None:
                    work.append(o.content)
                for _, f in o.fields:
                    work.append(f)
        return seen

    # ----------------------------------------------------------- exceptions
    def raise_(self, st, cls, node, val=None, kind='implicit'):
        st = st.copy()
        st.sig = 'exc'
        st.exc = Exc(cls, val or NONE, self.where(node), kind)
        return st

    def catching(self, *names):
        """is there an enclosing handler (in any active frame) for the exception?"""
        for h in self.trys:
            for n in names:
                if self.handler_matches(h, n):
                    return True
        return False

    def handler_matches(self, handlers, cls):
        for h in handlers:
            if h in ('BaseException', 'Exception', '*'):
                return True
            if h == cls:
                return True
            a, b = getattr(builtins, h, None), getattr(builtins, cls, None)
            if isinstance(a, type) and isinstance(b, type) and issubclass(b, a):
                return True
            if cls in self.repo.classes or '.' in cls:
                for k in self.mro_names(cls):
                    if k == h:
                        return True
        return False

    def mro_names(self, cid):
        out = []
        c = self.repo.classes.get(cid)
        while c is not None:
            out.append(c.cid)
            nxt = None
            for b in c.node.bases:
                r = self.static_base(c, b)
                if r is None:
                    continue
                if isinstance(r, str):
                    out.append(r)
                    x = getattr(builtins, r, None)
                    if isinstance(x, type):
                        out.extend(k.__name__ for k in x.__mro__)
                else:
                    nxt = r
                break
            c = nxt
        return out

    def static_base(self, c, b):
        names = []
        n = b
        while isinstance(n, ast.Attribute):
            names.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name):
            return None
        names.append(n.id)
        names.reverse()
        r = self.repo.resolve(c.mod, names[0])
        if r is None and hasattr(builtins, names[0]):
            return names[0]
        for nm in names[1:]:
            if r is None:
                return None
            if r[0] == 'mod':
                r = self.repo.resolve(r[1], nm)
            else:
                return None
        if r is None:
            return None
        if r[0] == 'class':
            return self.repo.cls_of(r[1], r[2])
        if r[0] == 'ext':
            return r[1].split('.')[-1]
        return None

    def class_lookup(self, c, name):
        """-> (owner Cls, kind, node) following the (single) inheritance chain"""
        seen = 0
        while c is not None and seen < 20:
            seen += 1
            if name in c.ns:
                return (c, c.ns[name][0], c.ns[name][1])
            nxt = None
            for b in c.node.bases:
                r = self.static_base(c, b)
                if r is not None and not isinstance(r, str):
                    if nxt is None:
                        nxt = r
                    else:
                        x = self.class_lookup(nxt, name)
                        if x is not None:
                            return x
                        nxt = r
            c = nxt
        return None

    def base_class(self, c):
        for b in c.node.bases:
            r = self.static_base(c, b)
            if r is not None and not isinstance(r, str):
                return r
        return None

    def full_known(self, c):
        """every base of the class is a repo class or object"""
        n = 0
        while c is not None and n < 20:
            n += 1
            nxt = None
            for b in c.node.bases:
                r = self.static_base(c, b)
                if r == 'object':
                    continue
                if r is None or isinstance(r, str):
                    return False
                nxt = r
            c = nxt
        return True

    def is_subclass(self, cid, other):
        return other in self.mro_names(cid)

    # ------------------------------------------------------- module globals
    def module_name(self, st, modname, name, node=None):
        """value of a global name; None when not bound"""
        r = self.repo.resolve(modname, name)
        if r is None:
            m = self.repo.mods.get(modname)
            return self.gvar(st, modname, name)
        return self.static_value(st, r, name)

    def gvar(self, st, modname, name):
        return st.vars.get((('M', modname), name))

    def static_value(self, st, r, name):
        kind = r[0]
        if kind == 'mod':
            return mk('md', r[1])
        if kind == 'ext':
            return mk('bi', r[1])
        node, mod = r[1], r[2]
        if kind == 'class':
            c = self.repo.cls_of(node, mod)
            return mk('cl', c.cid)
        g = st.vars.get((('M', mod), name))
        if g is not None:
            return g
        if kind == 'def':
            f = self.repo.fn_of(node, mod)
            v = mk('fn', f.fid, None)
            if f.deco:
                v = self.decorate(st, f, v, ('M', mod), mod)
                st.vars[(('M', mod), name)] = v
            return v
        # assignment at module level
        v = self.eval_static(st, node, mod, name)
        st.vars[(('M', mod), name)] = v
        return v

    def eval_static(self, st, stmt, mod, name):
        """evaluate a module level assignment in isolation"""
        if getattr(self, '_static_depth', 0) > 6:
            return mk('opq', 'static', mod, name)
        self._static_depth = getattr(self, '_static_depth', 0) + 1
        saved = (self.stack, self.ctx, self.ixs, self.trys)
        self.stack, self.ctx, self.ixs, self.trys = [], ('static', mod, name), [], []
        try:
            if isinstance(stmt, (ast.AugAssign,)):
                return mk('opq', 'static', mod, name)
            f = _ModFrame(mod)
            self.stack = [(f, None)]
            s0 = st.copy()
            outs = [o for o in self.ev(stmt.value, s0) if o[0].sig is None]
            if not outs:
                return mk('opq', 'static', mod, name)
            s, v = outs[0]
            for k, o in s.heap.items():
                if k not in st.heap:
                    st.heap[k] = o._replace(origin='global:%s.%s' % (mod, name))
            st.cands.update(s.cands)
            for k, x in s.vars.items():
                if k not in st.vars and isinstance(k[0], tuple) and k[0][0] in ('M', 'C', 'D'):
                    st.vars[k] = x
            tg = stmt.targets if isinstance(stmt, ast.Assign) else [stmt.target]
            for t in tg:
                if isinstance(t, ast.Name) and t.id == name:
                    return v
                if isinstance(t, (ast.Tuple, ast.List)) and v.op == 'tup' and \
                        len(v.args) == len(t.elts):
                    for e, x in zip(t.elts, v.args):
                        if isinstance(e, ast.Name) and e.id == name:
                            return x
            return mk('opq', 'static', mod, name)
        finally:
            self.stack, self.ctx, self.ixs, self.trys = saved
            self._static_depth -= 1

    def decorate(self, st, f, v, frame, mod):
        for d in reversed(f.deco):
            if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                v = mk(d.id, v)
                continue
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                v = mk('propset', v)
                continue
            saved = (self.stack, self.ctx, self.ixs, self.trys)
            self.stack = [(_ModFrame(mod), None)]
            self.ctx = ('deco', f.fid)
            self.ixs = []
            self.trys = []
            try:
                s0 = st.copy()
                outs = []
                for s, dv in self.ev(d, s0):
                    if s.sig is None:
                        outs += self.call(s, dv, [v], {}, d)
                outs = [o for o in outs if o[0].sig is None]
                if not outs:
                    v = mk('opq', 'deco', f.fid)
                    continue
                s, v2 = outs[0]
                for k, o in s.heap.items():
                    if k not in st.heap:
                        st.heap[k] = o._replace(origin='global:' + f.qual)
                for k, x in s.vars.items():
                    if k not in st.vars:
                        st.vars[k] = x
                st.cands.update(s.cands)
                if v2.op in ('ext', 'opq'):
                    # an external decorator: assume it keeps the behaviour
                    if isinstance(d, ast.Call) or True:
                        dv2 = self.dotted(d.func if isinstance(d, ast.Call) else d)
                        if dv2.split('.')[-1] in ('contextmanager',):
                            v2 = mk('cmfn', v)
                        else:
                            st.vars[('deco-ext', f.fid)] = mk('bi', dv2)
                            v2 = v
                v = v2
            finally:
                self.stack, self.ctx, self.ixs, self.trys = saved
        return v

    def dotted(self, n):
        out = []
        while isinstance(n, ast.Attribute):
            out.append(n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            out.append(n.id)
        return '.'.join(reversed(out))

    # ----------------------------------------------------------- variables
    def frame(self):
        return self.stack[-1][1]

    def lookup(self, st, name, node):
        f, fr = self.stack[-1]
        return self.lookup_in(st, f, fr, name, node)

    def lookup_in(self, st, f, fr, name, node):
        if isinstance(f, _ModFrame):
            v = st.vars.get((fr, name)) if fr else None
            if v is None:
                v = st.vars.get((('comp', self.curctx()), name))
            if v is None:
                v = self.module_name(st, f.mod, name)
            if v is None:
                v = self.builtin(name)
            return v
        key = (fr, name)
        v = st.vars.get(key)
        if v is not None:
            return v
        if name in f.locals and name not in f.globals_:
            return None                        # unbound local
        if name not in f.globals_:
            pf = self.parent.get((f.fid, fr))
            if pf is not None and pf[1] is not None:
                v = self.lookup_in(st, pf[0], pf[1], name, node)
                if v is not None:
                    return v
        g = st.vars.get((('M', f.mod), name))
        if g is not None:
            return g
        v = self.module_name(st, f.mod, name)
        if v is None:
            v = self.builtin(name)
        return v

    parent = {}

    def builtin(self, name):
        if hasattr(builtins, name) or name in ('__name__', '__file__'):
            return mk('bi', 'builtins.' + name)
        return None

    def store_name(self, st, name, val):
        f, fr = self.stack[-1]
        if isinstance(f, _ModFrame):
            st.vars[(fr or ('comp', self.curctx()), name)] = val
            return
        if name in f.globals_:
            st.ev('gset', f.mod, name, f.qual)
            st.vars[(('M', f.mod), name)] = val
            return
        if name in f.nonlocals:
            p = self.parent.get((f.fid, fr))
            while p is not None:
                pf, pfr = p
                if isinstance(pf, _ModFrame):
                    break
                if name in pf.locals:
                    st.vars[(pfr, name)] = val
                    return
                p = self.parent.get((pf.fid, pfr))
        st.vars[(fr, name)] = val

    # ----------------------------------------------------------- statements
    def limit(self, outs, cap=None):
        """merge equal states; join beyond the bound"""
        cap = cap or self.cap
        if len(outs) <= 1:
            return outs
        groups = {}
        for s in outs:
            key = (s.sig, s.ret, s.exc, s.events)
            groups.setdefault(key, []).append(s)
        res = []
        for key, g in groups.items():
            acc = []
            for s in g:
                for a in acc:
                    if a.vars == s.vars and a.heap == s.heap:
                        a.facts = a.facts & s.facts
                        a.pc = self.pc_join(a.pc, s.pc)
                        for k, v in s.cands.items():
                            a.cands[k] = a.cands.get(k, frozenset()) | v
                        a.imprecise = a.imprecise or s.imprecise
                        break
                else:
                    acc.append(s)
            res.extend(acc)
        if len(res) > cap:
            res = self.force(res, cap)
        return res

    def pc_join(self, p, q):
        r = pc_simplify(p | q)
        if len(r) > MAXCUBES:
            inter = None
            for c in r:
                inter = c if inter is None else inter & c
            self.lostpc = getattr(self, 'lostpc', 0) + 1
            r = frozenset([inter | {mk('opq', 'conditions', K(self.lostpc))}])
        return r

    def force(self, outs, cap):
        """join states of equal signal kind"""
        groups = {}
        order = []
        for s in outs:
            key = (s.sig, s.exc.cls if s.exc else None, s.exc.site if s.exc else None)
            if key not in groups:
                order.append(key)
            groups.setdefault(key, []).append(s)
        res = []
        for key in order:
            g = groups[key]
            while len(g) > max(1 if self.cap < 8 else 2, cap // max(1, len(order)) // 2):
                a = g.pop()
                b = g.pop()
                g.insert(0, self.join(a, b))
            res.extend(g)
        return res

    def join(self, a, b):
        s = a.copy()
        s.imprecise = True
        for k, v in b.cands.items():
            s.cands[k] = s.cands.get(k, frozenset()) | v
        for k in set(a.vars) | set(b.vars):
            x, y = a.vars.get(k), b.vars.get(k)
            if x is y:
                continue
            if x is None or y is None:
                s.vars[k] = x or y
            else:
                s.vars[k] = self.widen(U([x, y]))
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or x == y:
                if x is not None:
                    s.heap[k] = x
                continue
            if x is None or y is None:
                s.heap[k] = x or y
                continue
            s.heap[k] = self.join_obj(s, k, x, y)
        if a.ret is not b.ret:
            s.ret = U([v for v in (a.ret, b.ret) if v is not None])
        if a.events != b.events:
            n = 0
            m = min(len(a.events), len(b.events))
            while n < m and a.events[n] == b.events[n]:
                n += 1
            tail = list(a.events[n:])
            for e in b.events[n:]:
                if e not in tail:
                    tail.append(e)
            s.events = a.events[:n] + tuple(tail[:MAXEVENTS])
        s.facts = a.facts & b.facts
        s.pc = self.pc_join(a.pc, b.pc)
        return s

    def widen(self, v):
        if v.op == 'U' and len(v.args) > 10:
            keep = [x for x in v.args if x.op in ('R', 'fn', 'bm', 'cl', 'lv')][:12]
            return U(keep + [mk('opq', 'wide')])
        return v

    def join_obj(self, s, k, x, y):
        c = x.content
        if x.content is not y.content:
            ref = mk('R', mk('oid', *k), *x.params)
            c = self.opaque_content(s, x, ref, extra=y.content)
        fx, fy = dict(x.fields), dict(y.fields)
        out = {}
        for n in set(fx) | set(fy):
            p, q = fx.get(n), fy.get(n)
            if p is q:
                out[n] = p
            elif p is None or q is None:
                out[n] = p or q
            else:
                out[n] = self.widen(U([p, q]))
        return x._replace(content=c, fields=tuple(sorted(out.items(), key=lambda kv: kv[0])))

    def block(self, body, st):
        cur = [st]
        done = []
        for s in body:
            nxt = []
            for x in cur:
                for o in self.stmt(s, x):
                    if o.sig is None:
                        nxt.append(o)
                    else:
                        done.append(o)
            cur = self.limit(nxt)
            if not cur:
                break
        return self.limit(done + cur, self.cap * 2)

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget')
        if self.deadline and self.steps % 50 == 0 and time.time() > self.deadline:
            raise Budget('time budget')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unres('stmt ' + type(s).__name__, s)
            return [st]
        return m(s, st)

    def s_Pass(self, s, st):
        return [st]

    def s_Global(self, s, st):
        return [st]

    s_Nonlocal = s_Global

    def s_Expr(self, s, st):
        return [x for x, _ in self.ev(s.value, st)]

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                v = mk('md', a.name) if a.name in self.repo.mods else mk('bi', a.name)
                self.store_name(st, a.asname, v)
            else:
                n = a.name.split('.')[0]
                v = mk('md', n) if n in self.repo.mods else mk('bi', n)
                self.store_name(st, n, v)
        return [st]

    def s_ImportFrom(self, s, st):
        f = self.stack[-1][0]
        m = self.repo.mods.get(f.mod)
        src = self.repo._absmod(m, s) if m else s.module
        for a in s.names:
            if a.name == '*':
                continue
            if src in self.repo.mods:
                v = self.module_name(st, src, a.name)
                if v is None:
                    self.report('noname', s, 'cannot import name %s from %s' % (a.name, src))
                    v = mk('opq', 'import', a.name)
            else:
                v = mk('bi', '%s.%s' % (src, a.name))
            self.store_name(st, a.asname or a.name, v)
        return [st]

    def s_FunctionDef(self, s, st):
        f, fr = self.stack[-1]
        g = self.repo.fn_of(s, f.mod, qual='%s.%s' % (f.qual, s.name))
        v = self.make_closure(st, g, s)
        if g.deco:
            v = self.decorate_local(st, g, v)
        self.store_name(st, s.name, v)
        return [st]

    def decorate_local(self, st, g, v):
        for d in reversed(g.deco):
            outs = []
            for s, dv in self.ev(d, st.copy()):
                if s.sig is None:
                    if dv.op == 'bi' or dv.op in ('opq', 'ext'):
                        outs.append((s, v))
                    else:
                        outs += self.call(s, dv, [v], {}, d)
            outs = [o for o in outs if o[0].sig is None]
            if outs:
                s2, v = outs[0]
                st.vars.update(s2.vars)
                st.heap.update(s2.heap)
        return v

    def make_closure(self, st, g, node):
        f, fr = self.stack[-1]
        v = mk('fn', g.fid, fr)
        self.parent[(g.fid, fr)] = (f, fr)
        a = node.args
        for i, d in enumerate(a.defaults):
            outs = [o for o in self.ev(d, st.copy()) if o[0].sig is None]
            if outs:
                st.vars[(('D', g.fid, fr), i)] = outs[0][1]
                for k, o in outs[0][0].heap.items():
                    if k not in st.heap:
                        st.heap[k] = o
        for i, d in enumerate(a.kw_defaults):
            if d is None:
                continue
            outs = [o for o in self.ev(d, st.copy()) if o[0].sig is None]
            if outs:
                st.vars[(('D', g.fid, fr), 'kw%d' % i)] = outs[0][1]
        return v

    def s_ClassDef(self, s, st):
        f, fr = self.stack[-1]
        c = self.repo.cls_of(s, f.mod)
        self.store_name(st, s.name, mk('cl', c.cid))
        return [st]

    def s_Return(self, s, st):
        if s.value is None:
            st.sig, st.ret = 'ret', NONE
            return [st]
        out = []
        for x, v in self.ev(s.value, st):
            if x.sig is None:
                x.sig, x.ret = 'ret', v
            out.append(x)
        return out

    def s_Break(self, s, st):
        st.sig = 'brk'
        return [st]

    def s_Continue(self, s, st):
        st.sig = 'cont'
        return [st]

    def s_Raise(self, s, st):
        if s.exc is None:
            st.sig = 'exc'
            cur = st.vars.get(('exc', 'current'))
            st.exc = self.curexc[-1] if self.curexc else Exc('Exception', NONE, self.where(s), 'explicit')
            return [st]
        out = []
        for x, v in self.ev(s.exc, st):
            if x.sig is not None:
                out.append(x)
                continue
            name = self.exc_class(x, v)
            if v.op == 'cl':
                rs = self.call(x, v, [], {}, s)
            else:
                rs = [(x, v)]
            for y, w in rs:
                if y.sig is None:
                    if name is None and (isk(w) or w.op in ('str', 'fmt', 'strcat')):
                        self.report('badraise', s, 'raise of a value that is not an exception')
                        name = 'TypeError'
                    y.sig = 'exc'
                    y.exc = Exc(name or 'Exception', w, self.where(s), 'explicit')
                out.append(y)
        return out

    curexc = []

    def exc_class(self, st, v):
        if v.op == 'cl':
            return v.args[0]
        if v.op == 'bi':
            return v.args[0].split('.')[-1]
        if v.op == 'R':
            o = self.obj(st, v)
            return o.cls if o and o.cls else None
        if v.op == 'ext':
            return v.args[0].split('.')[-1]
        return None

    def s_Assert(self, s, st):
        out = []
        for x, v in self.ev(s.test, st):
            if x.sig is not None:
                out.append(x)
                continue
            for y, c in self.truth(x, v, s):
                for z, b in self.branch(y, c):
                    if b:
                        out.append(z)
                    else:
                        z.sig = 'exc'
                        z.exc = Exc('AssertionError', NONE, self.where(s), 'explicit')
                        out.append(z)
        return out

    def s_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                nxt += self.delete(t, x)
            cur = nxt
        return cur

    def delete(self, t, st):
        if st.sig is not None:
            return [st]
        if isinstance(t, ast.Name):
            f, fr = self.stack[-1]
            st.vars.pop((fr, t.id), None)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [st]
            for e in t.elts:
                cur = [y for x in cur for y in self.delete(e, x)]
            return cur
        out = []
        if isinstance(t, ast.Attribute):
            for x, v in self.ev(t.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                for w in self.vals(x, v):
                    if w.op == 'R':
                        o = self.obj(x, w)
                        x.ev('delf', w, t.attr, self.where(t), o.origin)
                        x.heap[self.oid(w)] = o._replace(
                            fields=tuple(kv for kv in o.fields if kv[0] != t.attr))
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            for x, v in self.ev(t.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                for y, i in self.ev_index(t.slice, x):
                    if y.sig is not None:
                        out.append(y)
                        continue
                    out += self.models.del_item(self, y, v, i, t)
            return out
        return [st]

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            if x.sig is not None:
                out.append(x)
                continue
            cur = [x]
            for t in s.targets:
                nxt = []
                for y in cur:
                    nxt += self.assign(t, v, y, s)
                cur = nxt
            out += cur
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        out = []
        for x, v in self.ev(s.value, st):
            out += self.assign(s.target, v, x, s) if x.sig is None else [x]
        return out

    def assign(self, t, v, st, node):
        if st.sig is not None:
            return [st]
        if isinstance(t, ast.Name):
            self.store_name(st, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, node)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        out = []
        if isinstance(t, ast.Attribute):
            for x, o in self.ev(t.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                out += self.set_attr(x, o, t.attr, v, t)
            return out
        if isinstance(t, ast.Subscript):
            for x, o in self.ev(t.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                for y, i in self.ev_index(t.slice, x):
                    if y.sig is not None:
                        out.append(y)
                    else:
                        out += self.set_item(y, o, i, v, t)
            return out
        return [st]

    def set_item(self, st, o, i, v, node):
        out = []
        for s, w in self.alts(st, o):
            if w.op == 'R' and self.obj(s, w) is not None and self.obj(s, w).kind == 'inst':
                m = self.getattr_(s, w, '__setitem__', node, quiet=True)
                done = False
                for s2, f in m:
                    if f is not None and s2.sig is None:
                        out += [x for x, _ in self.call(s2, f, [i, v], {}, node)]
                        done = True
                if done:
                    continue
            out += self.models.set_item(self, s, w, i, v, node)
        return out

    def set_attr(self, st, o, name, v, node):
        out = []
        for s, w in self.alts(st, o):
            if w.op == 'R':
                ob = self.obj(s, w)
                if ob is not None and ob.cls in self.repo.classes:
                    hit = self.class_lookup(self.repo.classes[ob.cls], name)
                    if hit is not None and hit[1] in ('def', 'assign'):
                        d = self.class_value(s, hit[0], name, hit)
                        if d.op == 'property' and ob.kind == 'inst':
                            if len(d.args) > 1 and d.args[1] is not NONE:
                                out += [x for x, _ in self.call(
                                    s, mk('bm', d.args[1], w), [v], {}, node)]
                                continue
                            s2 = self.raise_(s, 'AttributeError', node)
                            out.append(s2)
                            continue
                self.setf(s, w, name, v, node)
            elif w.op == 'fn':
                s.vars[(('FA', w), name)] = v
            elif w.op == 'cl':
                s.ev('cset', w.args[0], name, self.where(node))
                s.vars[(('C', w.args[0]), name)] = v
            elif w.op == 'md':
                s.ev('gset', w.args[0], name, self.where(node))
                s.vars[(('M', w.args[0]), name)] = v
            elif w.op == 'bi':
                s.ev('xset', w.args[0], name, self.where(node))
            out.append(s)
        return out

    def unpack(self, t, v, st, node):
        elts = t.elts
        outs = []
        for s, w in self.alts(st, v):
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            for s2, items in self.models.unpack_items(self, s, w, len(elts), node, star):
                if s2.sig is not None:
                    outs.append(s2)
                    continue
                cur = [s2]
                for e, x in zip(elts, items):
                    nxt = []
                    for y in cur:
                        nxt += self.assign(e, x, y, node)
                    cur = nxt
                outs += cur
        return outs

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        out = []
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id, t)
            if cur is None:
                return [self.raise_(st, 'UnboundLocalError', s)]
            for x, v in self.ev(s.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                for y, r in self.binop(x, op, cur, v, s, inplace=True):
                    if y.sig is None:
                        self.store_name(y, t.id, r)
                    out.append(y)
            return out
        if isinstance(t, ast.Attribute):
            for x, o in self.ev(t.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                for y, cur in self.getattr_(x, o, t.attr, t):
                    if y.sig is not None:
                        out.append(y)
                        continue
                    for z, v in self.ev(s.value, y):
                        if z.sig is not None:
                            out.append(z)
                            continue
                        for w, r in self.binop(z, op, cur, v, s, inplace=True):
                            if w.sig is None:
                                out += self.set_attr(w, o, t.attr, r, t)
                            else:
                                out.append(w)
            return out
        if isinstance(t, ast.Subscript):
            for x, o in self.ev(t.value, st):
                if x.sig is not None:
                    out.append(x)
                    continue
                for y, i in self.ev_index(t.slice, x):
                    if y.sig is not None:
                        out.append(y)
                        continue
                    for y2, cur in self.models.get_item(self, y, o, i, t):
                        if y2.sig is not None:
                            out.append(y2)
                            continue
                        for z, v in self.ev(s.value, y2):
                            if z.sig is not None:
                                out.append(z)
                                continue
                            for w, r in self.binop(z, op, cur, v, s, inplace=True):
                                if w.sig is None:
                                    out += self.set_item(w, o, i, r, t)
                                else:
                                    out.append(w)
            return out
        return [st]

    def s_If(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            if x.sig is not None:
                out.append(x)
            elif b:
                out += self.block(s.body, x)
            else:
                out += self.block(s.orelse, x)
        return self.limit(out)

    def cond(self, e, st):
        """evaluate a condition; -> [(state, True/False)], exceptional states included"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for k, v in enumerate(e.values):
                nxt = []
                for x in cur:
                    for y, b in self.cond(v, x):
                        if y.sig is not None:
                            out.append((y, True))
                        elif b == isand:
                            nxt.append(y)
                        else:
                            out.append((y, b))
                cur = nxt
            out += [(x, isand) for x in cur]
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, (not b) if x.sig is None else b) for x, b in self.cond(e.operand, st)]
        out = []
        for x, v in self.ev(e, st):
            if x.sig is not None:
                out.append((x, True))
                continue
            for y, c in self.truth(x, v, e):
                if y.sig is not None:
                    out.append((y, True))
                else:
                    out += self.branch(y, c)
        return out

    def s_For(self, s, st):
        out = []
        for x, v in self.ev(s.iter, st):
            if x.sig is not None:
                out.append(x)
                continue
            self.note_iter(x, v, s)

            def bind(y, val, s=s):
                return self.assign(s.target, val, y, s)

            def body(y, s=s):
                return self.block(s.body, y)
            for y in self.loop_over(x, v, bind, body, s):
                if y.sig is None or y.sig == 'exhaust':
                    y.sig = None
                    if s.orelse:
                        out += self.block(s.orelse, y)
                    else:
                        out.append(y)
                elif y.sig == 'brk':
                    y.sig = None
                    out.append(y)
                else:
                    out.append(y)
        return self.limit(out)

    def note_iter(self, st, v, node):
        pass

    def s_While(self, s, st):
        def body(y):
            outs = []
            for z, b in self.cond(s.test, y):
                if z.sig is not None:
                    outs.append(z)
                elif b:
                    outs += self.block(s.body, z)
                else:
                    z.sig = 'exhaust'
                    outs.append(z)
            return outs
        out = []
        early = []
        if self.unroll:
            # the loop is left in its first iteration, or in one that follows another
            once = body
            early = [y for y in once(st.copy()) if y.sig not in (None, 'cont')]

            def body(y):
                outs = []
                for z in once(y):
                    if z.sig in (None, 'cont'):
                        outs.append(z)
                        w = z.copy()
                        w.sig = None
                        outs += [x for x in once(w) if x.sig not in (None, 'cont')]
                return outs
        self.genctx.append(self.curctx())
        cap = self.cap
        if self.generic:
            self.cap = 1
        try:
            res = early + self.fix(st, body, s, None)
        finally:
            self.genctx.pop()
            self.cap = cap
        for y in res:
            if y.sig == 'exhaust':
                y.sig = None
                if s.orelse:
                    out += self.block(s.orelse, y)
                else:
                    out.append(y)
            elif y.sig == 'brk':
                y.sig = None
                out.append(y)
            else:
                out.append(y)
        return self.limit(out)

    def s_With(self, s, st):
        return self.with_items(list(s.items), s, st)

    def with_items(self, items, s, st):
        if not items:
            return self.block(s.body, st)
        it = items[0]
        out = []
        for x, v in self.ev(it.context_expr, st):
            if x.sig is not None:
                out.append(x)
                continue
            target = v
            cm = v
            isfile = v.op == 'R' and self.obj(x, v) is not None and self.obj(x, v).kind == 'file'
            closing = None
            if v.op == 'closing':
                target = closing = v.args[0]
            pre = [x]
            if not isfile and closing is None and v.op == 'R' and self.obj(x, v).cls in self.repo.classes:
                pre = []
                for y, m in self.getattr_(x, v, '__enter__', s):
                    if y.sig is None:
                        for z, r in self.call(y, m, [], {}, s):
                            if z.sig is None:
                                target = r
                            pre.append(z)
                    else:
                        pre.append(y)
            elif not isfile and closing is None:
                target = mk('ext', 'enter', v)
            for y in pre:
                if y.sig is not None:
                    out.append(y)
                    continue
                ys = [y]
                if it.optional_vars is not None:
                    ys = self.assign(it.optional_vars, target, y, s)
                for z in ys:
                    if z.sig is not None:
                        out.append(z)
                        continue
                    prot = None
                    if isfile:
                        prot = self.oid(v)
                    res = self.with_items(items[1:], s, z)
                    for w in res:
                        if isfile:
                            self.models.close_file(self, w, v, s)
                        elif closing is not None:
                            sig = (w.sig, w.ret, w.exc)
                            w.sig = None
                            for q, m in self.getattr_(w, closing, 'close', s):
                                for q2, _ in self.call(q, m, [], {}, s):
                                    q2.sig, q2.ret, q2.exc = sig
                                    out.append(q2)
                            continue
                        elif v.op == 'R' and self.obj(w, v) is not None and \
                                self.obj(w, v).cls in self.repo.classes:
                            sig = (w.sig, w.ret, w.exc)
                            w.sig = None
                            for q, m in self.getattr_(w, v, '__exit__', s):
                                for q2, _ in self.call(q, m, [NONE, NONE, NONE], {}, s):
                                    if q2.sig is None:
                                        q2.sig, q2.ret, q2.exc = sig
                                    out.append(q2)
                            continue
                        out.append(w)
        return self.limit(out)

    def handler_names(self, h, st):
        if h.type is None:
            return ['*']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = []
        for t in ts:
            outs = self.ev(t, st.copy())
            for s, v in outs[:1]:
                if v is not None:
                    n = self.exc_class(s, v)
                    if n:
                        names.append(n)
                    elif v.op == 'tup':
                        for w in v.args:
                            n = self.exc_class(s, w)
                            if n:
                                names.append(n)
                    else:
                        names.append('?')
        return names

    def s_Try(self, s, st):
        hs = [(h, self.handler_names(h, st)) for h in s.handlers]
        if s.handlers:
            self.trys.append([n for _, ns in hs for n in ns])
        try:
            outs = self.block(s.body, st)
        finally:
            if s.handlers:
                self.trys.pop()
        res = []
        for o in outs:
            if o.sig == 'exc':
                matched = False
                for h, ns in hs:
                    may = o.exc.kind == 'any'
                    if may or self.handler_matches(ns, o.exc.cls) or '?' in ns:
                        y = o.copy() if (may and ns != ['*'] and 'Exception' not in ns) else o
                        e = y.exc
                        y.sig, y.exc = None, None
                        if h.name:
                            self.store_name(y, h.name, e.val if e.val is not NONE else
                                            mk('opq', 'exc', e.cls))
                        self.curexc = self.curexc + [e]
                        try:
                            res += self.block(h.body, y)
                        finally:
                            self.curexc = self.curexc[:-1]
                        if y is o:
                            matched = True
                            break
                if not matched:
                    res.append(o)
            elif o.sig is None and s.orelse:
                res += self.block(s.orelse, o)
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                sig = (o.sig, o.ret, o.exc)
                o.sig = None
                for y in self.block(s.finalbody, o):
                    if y.sig is None:
                        y.sig, y.ret, y.exc = sig
                    fin.append(y)
            res = fin
        return self.limit(res)

    # ---------------------------------------------------------------- loops
    def loop_over(self, st, v, bind, body, node):
        """iterate the value v; -> out states with sig 'exhaust' for normal end"""
        out = []
        for s, w in self.alts(st, v):
            for s2, segs in self.models.iter_segments(self, s, w, node):
                if s2.sig is not None:
                    out.append(s2)
                    continue
                out += self.loop_segs(s2, segs, bind, body, node)
        return out

    def loop_segs(self, st, segs, bind, body, node):
        cur = [st]
        out = []
        if len(segs) > 6:
            elems = []
            for g in segs:
                elems += [g.args[0]] if g.op == 'one' else self.elem_values(st, mk('seq', g))
            seg = mk('oseg', mk('okey', 'manysegs', *segs))
            st.cands[seg] = frozenset(elems)
            segs = [seg]
        for g in segs:
            nxt = []
            for x in cur:
                if g.op == 'one':
                    for y in bind(x, g.args[0]):
                        if y.sig is not None:
                            out.append(y)
                            continue
                        for z in body(y):
                            if z.sig in (None, 'cont'):
                                z.sig = None
                                nxt.append(z)
                            else:
                                out.append(z)
                else:
                    for z in self.loop_generic(x, g, bind, body, node):
                        if z.sig == 'exhaust':
                            z.sig = None
                            nxt.append(z)
                        else:
                            out.append(z)
            cur = self.limit(nxt)
        for x in cur:
            x.sig = 'exhaust'
            out.append(x)
        return out

    def fresh_ix(self, axis):
        n = 0
        act = set(self.ixs)
        while mk('ix', axis, n) in act:
            n += 1
        return mk('ix', axis, n)

    def loop_generic(self, st, seg, bind, body, node):
        if seg.op == 'map':
            axis, i, b = seg.args
            j = self.fresh_ix(axis)
            val = subst(b, {i: j})
        else:                                   # opaque segment
            axis = mk('oax', seg)
            j = self.fresh_ix(axis)
            cs = st.cands.get(seg, frozenset())
            val = mk('oelt', seg, j)
            if cs:
                st.cands[val] = cs
        # zero-trip axis
        ln = n_eq(n_len(axis), K(0))
        if self.isfact(st, ln) is True:
            st.sig = 'exhaust'
            return [st]

        def run(y):
            outs = []
            for z in bind(y, val):
                if z.sig is not None:
                    outs.append(z)
                else:
                    outs += body(z)
            return outs
        return self.fix(st, run, node, (axis, j))

    def fix(self, st0, body, node, ax):
        """abstract fixpoint of a loop.

        body(state) -> states: sig None/'cont' = next iteration, 'exhaust' = the
        (while) condition became false, 'brk'/'ret'/'exc' = leaves."""
        key = mk('lk', getattr(node, 'mod', '?'), getattr(node, 'lineno', 0),
                 getattr(node, 'col_offset', 0), self.curctx(), *self.ixs)
        if ax is not None:
            key = mk('lka', key, ax[1])
        axis, j = ax if ax else (None, None)
        stale = [f for f in st0.facts if self.has_loopvars(f, key)]
        if stale:
            st0.facts = st0.facts - frozenset(stale)
        if self.inject is not None:
            s = self.inject.enter(self, st0, axis, j)
            if s is not None:
                hook, self.inject = self.inject, None
                if j is not None:
                    self.ixs.append(j)
                try:
                    more = hook.run(self, s, body) if hasattr(hook, 'finish') else \
                        hook.leave(self, body(s), axis, j)
                finally:
                    if j is not None:
                        self.ixs.pop()
                    self.inject = hook
                return more
        chv = {}                # var key -> candidate set
        cho = {}                # oid -> True (content havocked)
        chf = {}                # (oid, field) -> candidate set
        ind = {}                # numeric location -> increment per iteration (None: not inductive)
        inds = {}               # set -> (operation, condition, element) of an iteration
        pc0 = st0.pc
        allev = ()
        outs = None
        cont = []
        entry = None
        pre = frozenset(st0.heap)
        # families indexed by the loop's index: iteration j meets member j
        fam = frozenset(k for k, o in st0.heap.items() if j is not None and j in o.params)
        owned, ownedf, nonown = set(), set(), self.nonown
        self.nonown = set()
        if j is not None:
            self.ixs.append(j)
        try:
            rounds = 0
            while True:
                rounds += 1
                s = st0.copy()
                s.pc = frozenset([frozenset()])
                s.events = st0.events + allev
                self.havoc(s, st0, key, chv, cho, chf, cont)
                if j is not None:
                    self.closed(s, st0, ind, axis, j)
                    for oid, t in inds.items():
                        s.heap[oid] = s.heap[oid]._replace(content=self.stepped(
                            st0.heap[oid].content, t, mk('before', axis, j), j))
                entry = s.copy()
                run = s
                if j is not None:
                    pass
                outs = body(run)
                cont = self.limit([o for o in outs if o.sig in (None, 'cont')], 12)
                grew = False
                if j is not None and self.increments(st0, entry, cont, key, axis, j, chv, chf, ind):
                    grew = True
                    rounds -= 1
                evs = list(allev)
                for o in cont:
                    for e in o.events[len(entry.events):]:
                        if e not in evs:
                            evs.append(e)
                    for k, v in o.vars.items():
                        old = entry.vars.get(k)
                        if v is old:
                            continue
                        if (k not in st0.vars or st0.vars[k] is v) and old is None and \
                                k not in chv and \
                                isinstance(k[0], tuple) and k[0][0] in ('C', 'M', 'FA') and \
                                not any(e[0] in ('gset', 'cset') for e in o.events):
                            # lazily evaluated definition, not a variable of the loop
                            st0.vars[k] = v
                            for q in walk(v):
                                if q.op == 'R' and self.oid(q) not in st0.heap:
                                    for oid, ob in o.heap.items():
                                        if oid not in st0.heap and ob.params == ():
                                            st0.heap[oid] = ob
                            pre = frozenset(st0.heap)
                            grew = True
                            continue
                        c = chv.setdefault(k, set())
                        if ind.get(k) is not None:
                            continue
                        for x in self.age_value(o, v, pre):
                            if x.op == 'lv' and x.args[0] is key and x.args[1] == str(k):
                                continue
                            if x not in c:
                                if len(c) < 14:
                                    c.add(x)
                                    grew = True
                                elif not any(y.op == 'opq' for y in c):
                                    c.add(mk('opq', 'wide', key))
                                    grew = True
                    for k in entry.vars:
                        if k not in o.vars:
                            pass
                    for oid, ob in o.heap.items():
                        old = entry.heap.get(oid)
                        if oid not in pre or old is None:
                            continue
                        if old is ob or old == ob:
                            continue
                        if old.content is not ob.content and oid not in cho and oid not in inds:
                            if oid in fam and oid not in self.nonown:
                                owned.add(oid)
                            else:
                                cho[oid] = True
                                grew = True
                        fo, fn = dict(old.fields), dict(ob.fields)
                        for n in set(fo) | set(fn):
                            if fo.get(n) is not fn.get(n):
                                if oid in fam and oid not in self.nonown:
                                    ownedf.add((oid, n))
                                    continue
                                c = chf.setdefault((oid, n), set())
                                if ind.get((oid, n)) is not None:
                                    continue
                                for x in self.age_value(o, fn.get(n) or mk('absent'), pre):
                                    if x.op == 'lv' and x.args[0] is key:
                                        continue
                                    if x not in c and len(c) < 14:
                                        c.add(x)
                                        grew = True
                if len(evs) > len(allev):
                    if len(evs) < MAXEVENTS:
                        grew = True
                    allev = tuple(evs[:MAXEVENTS])
                if not self.cands_stable(entry, cont, cho, pre):
                    grew = True
                if j is not None and not grew and self.set_steps(entry, outs, cont, key, j, cho, inds):
                    grew = True
                    rounds -= 1
                if not grew or rounds >= 6:
                    break
        finally:
            if j is not None:
                self.ixs.pop()
            seen, self.nonown = self.nonown, self.nonown | nonown
        mixed = fam & seen & (owned | set(k for k, n in ownedf) | set(cho) | set(k for k, n in chf))
        if mixed:
            # also other members are met: name the member apart from the index
            st1 = st0.copy()
            for oid in mixed:
                self.detach(st1, oid, j)
            for slot in St.__slots__:
                setattr(st0, slot, getattr(st1, slot))
            self.nonown = nonown
            return self.fix(st0, body, node, ax)
        # ---- exits
        res = []
        exitcond = FALSE
        exact = True
        for o in outs:
            if o.sig in (None, 'cont'):
                continue
            if o.sig == 'exhaust':
                continue
            exitcond = b_or(exitcond, pc_term(o.pc))
            for oid in owned:
                ob = o.heap[oid]
                ref = mk('R', mk('oid', *oid), *ob.params)
                o.heap[oid] = ob._replace(content=self.opaque_content(o, ob, ref))
            for oid, n in ownedf:
                ob = o.heap[oid]
                o.heap[oid] = ob._replace(fields=tuple(
                    (a, mk('opq', 'member', key, K(n)) if a == n else b) for a, b in ob.fields))
            self.age_state(o, pre, key, st0)
            res.append(o)
        if ax is not None and res and not self.has_loopvars(exitcond, key):
            self.close_exits(res, axis, j, exitcond, st0)
        for o in res:
            o.pc = frozenset(a | b for a in pc0 for b in o.pc) if len(pc0) * len(o.pc) <= MAXCUBES \
                else pc0
        if ax is not None:
            fin = self.after_for(st0, entry, cont, key, axis, j, chv, cho, chf, pre, ind)
            for oid, t in inds.items():
                fin.heap[oid] = fin.heap[oid]._replace(content=self.stepped(
                    st0.heap[oid].content, t, axis, j))
            self.after_members(fin, st0, cont, key, j, owned, ownedf)
            fin.events = st0.events + allev
            fin.pc = pc0
            if res and not self.has_loopvars(exitcond, key):
                self.assume(fin, b_forall(axis, j, b_not(exitcond)))
            fin.sig = 'exhaust'
            res.append(fin)
        else:
            for o in outs:
                if o.sig == 'exhaust':
                    self.age_state(o, pre, key, st0)
                    o.pc = frozenset(a | b for a in pc0 for b in o.pc) \
                        if len(pc0) * len(o.pc) <= MAXCUBES else pc0
                    res.append(o)
        return self.limit(res)

    def close_exits(self, res, axis, j, exitcond, st0):
        """exits of a loop happen in the first iteration that leaves it"""
        js = None
        for o in res:
            here = any(j in free(l) for c in o.pc for l in c)
            uses = o.ret is not None and j in free(o.ret)
            vs = [k for k, v in o.vars.items() if st0.vars.get(k) is not v and j in free(v)]
            hs = []
            for oid, ob in o.heap.items():
                if st0.heap.get(oid) is ob or j in ob.params:
                    continue
                if ob.content is not None and j in free(ob.content) or any(
                        j in free(v) for _, v in ob.fields):
                    hs.append(oid)
            if o.sig in ('ret', 'exc'):
                vs = []
            exc = o.exc is not None and isinstance(o.exc.val, T) and j in free(o.exc.val)
            ex = b_exists(axis, j, pc_term(o.pc))
            if len(res) == 1 and not (uses or vs or hs or exc):
                if ex is TRUE:
                    o.pc = frozenset([frozenset()])
                else:
                    o.pc = frozenset([frozenset(ex.args if ex.op == 'and' else [ex])])
                o.facts = frozenset(f for f in o.facts if j not in free(f)) | next(iter(o.pc))
                continue
            if js is None:
                fa = mk('filt', axis, j, exitcond) if exitcond is not TRUE else axis
                js = mk('first', fa)
                some = b_exists(axis, j, exitcond)
                if some is TRUE:
                    some = b_not(n_eq(n_len(axis), K(0)))
            m = {j: js}
            base = frozenset() if some is TRUE else frozenset(some.args if some.op == 'and' else [some])
            cubes = []
            for c in o.pc:
                cu = set(base)
                ok = True
                for l in c:
                    q = subst(l, m) if j in free(l) else l
                    # the exit condition itself holds at the first exit
                    if l is exitcond or q is TRUE:
                        continue
                    if q is FALSE:
                        ok = False
                        break
                    cu.add(q)
                if ok:
                    cubes.append(frozenset(cu))
            o.pc = pc_simplify(cubes) if cubes else o.pc
            o.facts = frozenset(f for f in o.facts if j not in free(f)) | (
                next(iter(o.pc)) if len(o.pc) == 1 else frozenset())
            if uses:
                o.ret = subst(o.ret, m)
            if exc:
                o.exc = o.exc._replace(val=subst(o.exc.val, m))
            for k in vs:
                o.vars[k] = subst(o.vars[k], m)
            for oid in hs:
                ob = o.heap[oid]
                o.heap[oid] = ob._replace(
                    content=None if ob.content is None else subst(ob.content, m),
                    fields=tuple((n, subst(v, m)) for n, v in ob.fields))

    def cands_stable(self, entry, cont, cho, pre):
        ok = True
        for o in cont:
            for oid in cho:
                ob = o.heap.get(oid)
                if ob is None or ob.content is None:
                    continue
                hv = entry.heap[oid].content
                sym = [x for x in walk(hv) if x.op in ('oseg', 'sopq', 'dopq')]
                if not sym:
                    continue
                have = set()
                for x in sym:
                    have |= entry.cands.get(x, frozenset())
                vals = self.elem_values(o, ob.content) if ob.kind != 'dict' else \
                    self.dict_values(o, ob.content)
                for v in vals:
                    for w in self.age_value(o, v, pre):
                        if w not in have and len(have) < 20:
                            ok = False
        return ok

    def has_loopvars(self, c, key):
        return key in self.loopkeys(c)

    def loopkeys(self, c):
        """loops whose state a term depends on"""
        r = self._lk.get(c)
        if r is None:
            r = frozenset(
                q for x in walk(c) if x.op in ('lv', 'oseg', 'sopq', 'oarr') and x.args and
                isinstance(x.args[0], T)
                for q in ([x.args[0]] + ([x.args[0].args[0]] if x.args[0].op == 'hk' else [])))
            self._lk[c] = r
        return r

    def age_value(self, st, v, pre):
        """the value as seen from the next iteration: objects born in the body
        become summary objects"""
        out = []
        for x in members(v):
            if x.op == 'R':
                if self.oid(x) not in pre:
                    x = self.old_ref(x)
            elif any(y.op == 'R' and self.oid(y) not in pre for y in walk(x)):
                m = {y: self.old_ref(y) for y in walk(x)
                     if y.op == 'R' and self.oid(y) not in pre}
                x = subst(x, m)
            out.append(x)
        return out

    def old_ref(self, r):
        key, k = r.args[0].args
        if isinstance(key, tuple) and key and key[0] == 'old':
            return r
        return mk('R', mk('oid', ('old',) + (key,), k), *r.args[1:])

    def age_state(self, o, pre, key, st0):
        """add summary copies of the objects born in the body"""
        self.add_old(o, o, pre)

    def add_old(self, dst, src, pre):
        m = {}
        for oid in list(src.heap):
            if oid in pre:
                continue
            k0, k = oid
            if isinstance(k0, tuple) and k0 and k0[0] == 'old':
                continue
            r = mk('R', mk('oid', k0, k), *src.heap[oid].params)
            m[mk('oid', k0, k)] = mk('oid', ('old',) + (k0,), k)
        for oid in list(src.heap):
            if oid in pre:
                continue
            k0, k = oid
            if isinstance(k0, tuple) and k0 and k0[0] == 'old':
                if oid not in dst.heap:
                    dst.heap[oid] = src.heap[oid]
                continue
            ob = src.heap[oid]
            new = ob._replace(
                content=subst(ob.content, m) if ob.content is not None else None,
                fields=tuple((n, subst(v, m)) for n, v in ob.fields),
                base=subst(ob.base, m) if ob.base is not None else None)
            oldk = (('old',) + (k0,), k)
            cur = dst.heap.get(oldk)
            if cur is None:
                dst.heap[oldk] = new
            elif cur != new:
                dst.heap[oldk] = self.join_obj(dst, oldk, cur, new)

    def havoc(self, s, st0, key, chv, cho, chf, cont):
        pre = frozenset(st0.heap)
        gen = self.generic and self.curctx() in self.genctx
        for o in cont:
            for k, v in o.cands.items():
                s.cands[k] = s.cands.get(k, frozenset()) | v
            self.add_old(s, o, pre)
        for k, c in chv.items():
            lv = mk('lv', key, str(k))
            init = st0.vars.get(k)
            cs = set(c)
            if gen and self.all_sets(st0, cont, init, cs):
                oid = (('gen', key.n, str(k)), 0)
                o = next(x for x in list(st0.heap.values()) if x.kind == 'set') \
                    if init is None else self.obj(st0, self.vals(st0, init)[0])
                s.heap[oid] = o._replace(content=mk('nset', lv), params=(), origin='fresh')
                s.vars[k] = mk('R', mk('oid', *oid))
                continue
            if init is not None:
                cs.add(init)
                s.vars[k] = lv
                if t_.is_num(init) and all(t_.is_num(v) or v.op == 'nop' for v in cs):
                    t_.NUMLV.add(lv)
                s.cands[lv] = frozenset(x for y in cs for x in members(y))
            else:
                # not bound before the loop: on the first iteration unbound
                s.vars[k] = lv
                s.cands[lv] = frozenset(x for y in cs for x in members(y))
        for oid in cho:
            ob = st0.heap[oid]
            ref = mk('R', mk('oid', *oid), *ob.params)
            hk = mk('hk', key, *ref.args)
            if ob.kind == 'text':
                s.heap[oid] = s.heap[oid]._replace(content=mk('seq', mk('oseg', hk)))
                continue
            vals = set()
            isd = ob.kind == 'dict'
            get = self.dict_values if isd else self.elem_values
            vals |= set(get(st0, ob.content))
            for o in cont:
                x = o.heap.get(oid)
                if x is not None and x.content is not None:
                    for v in get(o, x.content):
                        vals |= set(self.age_value(o, v, pre))
            if len(vals) > 20:
                keep = [v for v in vals if any(y.op == 'R' for y in walk(v))]
                vals = set(keep[:20]) | {mk('opq', 'wide', key)}
            if ob.kind in ('list', 'deque', 'iter'):
                sg = mk('oseg', hk)
                s.cands[sg] = frozenset(vals)
                c = mk('seq', sg)
            elif ob.kind == 'set' and gen and all(q.op != 'R' for v in vals for q in walk(v)):
                c = mk('nset', hk)
            elif ob.kind == 'set':
                c = mk('sopq', hk)
                s.cands[c] = frozenset(vals)
            elif isd:
                d = mk('dopq', hk)
                s.cands[d] = frozenset(vals)
                c = mk('dct', d)
            elif ob.kind == 'ndarray':
                c = mk('oarr', hk)
            else:
                c = mk('opq', hk)
            s.heap[oid] = s.heap[oid]._replace(content=c)
        for (oid, n), c in chf.items():
            ob = s.heap[oid]
            lv = mk('lv', key, '%s.%s' % (mk('oid', *oid).n, n))
            init = dict(st0.heap[oid].fields).get(n)
            cs = set(c)
            if init is not None:
                cs.add(init)
            s.cands[lv] = frozenset(x for y in cs for x in members(y) if x.op != 'absent')
            f = tuple(sorted([(a, b) for a, b in ob.fields if a != n] + [(n, lv)],
                             key=lambda kv: kv[0]))
            s.heap[oid] = ob._replace(fields=f)

    def all_sets(self, st0, cont, init, cs):
        """only references to sets of names (of the states before and in the loop)"""
        n = 0
        for x in ([init] if init is not None else []) + sorted(cs, key=lambda t: t.n):
            for v in members(x):
                if v.op != 'R':
                    return False
                k0, k = v.args[0].args
                o = None
                for s in [st0] + list(cont):
                    o = s.heap.get((k0, k)) or o
                    if isinstance(k0, tuple) and k0 and k0[0] == 'old':
                        o = s.heap.get((k0[1], k)) or o
                if o is None or o.kind != 'set':
                    return False
                n += 1
        return n > 0

    # ---- induction variables of a for loop
    @staticmethod
    def located(st, k):
        if len(k) == 2 and k[0] in st.heap and isinstance(k[1], str) and isinstance(k[0], tuple):
            return dict(st.heap[k[0]].fields).get(k[1])
        return st.vars.get(k)

    def closed(self, s, st0, ind, axis, j):
        """value of the induction variables at the start of iteration j"""
        for k, d in ind.items():
            if d is None:
                continue
            v = n_add(self.located(st0, k), n_mul(d, self.models.pos(axis, j)))
            if k in s.vars:
                s.vars[k] = v
            else:
                ob = s.heap[k[0]]
                s.heap[k[0]] = ob._replace(fields=tuple(
                    (a, v if a == k[1] else b) for a, b in ob.fields))

    @staticmethod
    def stepped(content, step, axis, j):
        """content after the iterations of the axis"""
        op, c, e = step
        if op == 'fold':
            k = t_.fresh_ix(axis, 0, e, content, axis)
            return mk('sfold', axis, k, subst(e, {j: k}), content, c)
        k = t_.fresh_ix(axis, 0, c, e, content, axis)
        m = {j: k}
        d = t_.s_comp(axis, k, subst(c, m), subst(e, m))
        return t_.s_diff(content, d) if op == 'diff' else t_.s_union(content, d)

    def set_steps(self, entry, outs, cont, key, j, cho, inds):
        """sets from which (to which) an iteration removes (adds) one element of its own,
        where the iterations look at what is left"""
        found = False
        for oid in list(cho):
            ob = entry.heap[oid]
            sym = ob.content
            if ob.kind != 'set' or ob.params or sym is None or sym.op != 'sopq':
                continue
            if not any(t_.contains(l, lambda x: x is sym) for o in outs for c in o.pc for l in c):
                continue
            step, cond, ok = None, FALSE, bool(cont)
            for o in cont if ok else ():
                v = o.heap[oid].content
                if v is sym:
                    continue
                e = None
                if v.op == 'diff' and v.args[0] is sym and v.args[1].op == 'sone':
                    e = ('diff', v.args[1].args[0])
                elif v.op == 'union' and sym in v.args:
                    w = v.args[1] if v.args[0] is sym else v.args[0]
                    e = ('union', w.args[0]) if w.op == 'sone' else None
                if e is None or step not in (None, e) or o.imprecise or any(x.op == 'R' for x in walk(e[1])) \
                        or self.loopkeys(e[1]):
                    ok = False
                    break
                step = e
            if not ok or step is None:
                ok = False
                op, x, drop = 'fold', None, ()
            else:
                op, x = step
                inside = t_.s_mem(x, sym)
                drop = (inside,) if op == 'diff' else (b_not(inside),)
            for o in cont if ok else ():
                for c in o.pc:
                    rest = [l for l in c if l not in drop]
                    if o.heap[oid].content is sym:
                        # nothing to do, or under conditions of its own
                        if not any(b_not(q) in c for q in drop) and any(self.loopkeys(l) for l in c):
                            ok = False
                    elif any(self.loopkeys(l) for l in rest):
                        ok = False
                    else:
                        cond = b_or(cond, b_and(*rest))
            if ok:
                inds[oid] = (op, cond, x)
                del cho[oid]
                found = True
                continue
            # the content of the next iteration as a formula of this one's
            var = mk('svar', 'x%d' % sym.n)
            body, size = S0, 0
            for o in cont:
                v, c = o.heap[oid].content, pc_term(o.pc)
                size += sum(1 for _ in walk(v)) + sum(1 for _ in walk(c))
                if o.imprecise or size > 900 or any(x.op == 'R' for x in walk(v)):
                    body = None
                    break
                body = t_.s_union(body, t_.s_guard(subst(c, {sym: var}), subst(v, {sym: var})))
            if body is not None and cont and not self.loopkeys(body):
                inds[oid] = ('fold', var, body)
                del cho[oid]
                found = True
        return found

    def increments(self, st0, entry, cont, key, axis, j, chv, chf, ind):
        changed = False
        for k in list(chv) + list(chf):
            if k in ind and ind[k] is None:
                continue
            init, at = self.located(st0, k), self.located(entry, k)
            ds = set()
            for o in cont:
                v = self.located(o, k)
                if v is None or at is None or not (v.op == '+' or isk(v) or v is at):
                    ds.add(None)
                else:
                    d = n_sub(v, at)
                    ds.add(d if isk(d) and type(kval(d)) is int and kval(d) else None)
            d, = ds if len(ds) == 1 else (None,)
            if init is None or not (isk(init) and type(kval(init)) is int or
                                    init.op in ('+', '*', 'len')):
                d = None
            if k not in ind:
                if d is None:
                    ind[k] = None
                else:
                    ind[k] = d
                    changed = True
            elif ind[k] is not d:
                ind[k] = None
                changed = True
        return changed

    # ---- summary of a for loop after its last iteration
    def after_for(self, st0, entry, cont, key, axis, j, chv, cho, chf, pre, ind):
        fin = st0.copy()
        for o in cont:
            for k, v in o.cands.items():
                fin.cands[k] = fin.cands.get(k, frozenset()) | v
        # objects born in the body stay, parameterised by the index
        split = {}
        for o in cont:
            for oid, ob in o.heap.items():
                if oid in pre:
                    continue
                cur = fin.heap.get(oid)
                if ob.kind == 'set' and ob.content is not None:
                    split.setdefault(oid, []).append((o, ob.content))
                if cur is None:
                    fin.heap[oid] = ob
                elif cur != ob:
                    fin.heap[oid] = self.join_obj(fin, oid, cur, ob)
        # a set born in the body: which content depends on the path
        for oid, cs in split.items():
            if len(cs) > 1 and len(cs) == len(cont) and any(c is not cs[0][1] for _, c in cs):
                conds = [pc_term(o.pc) for o, _ in cs]
                if not any(o.imprecise for o, _ in cs) and \
                        sum(1 for c in conds for _ in walk(c)) < 400:
                    r = S0
                    for c, (_, x) in zip(conds, cs):
                        r = s_union(r, s_guard(c, x))
                    fin.heap[oid] = fin.heap[oid]._replace(content=r)
        self.add_old(fin, fin, pre)
        total = b_or(*[pc_term(o.pc) for o in cont]) if cont else FALSE
        for k in chv:
            lv = mk('lv', key, str(k))
            init = st0.vars.get(k)
            res = None
            if ind.get(k) is not None:
                res = n_add(init, n_mul(ind[k], n_len(axis)))
            elif init is not None and cont:
                res = self.fold_value(fin, lv, init, [(pc_term(o.pc), o.vars.get(k)) for o in cont],
                                      key, axis, j)
            if res is None:
                res = mk('lv', key, str(k))
                cs = set(chv[k])
                if init is not None:
                    cs.add(init)
                fin.cands[res] = frozenset(x for y in cs for x in members(y))
                for o in cont:
                    if k in o.vars and o.vars[k] not in cs and len(cs) < 20:
                        fin.cands[res] = fin.cands[res] | frozenset(members(o.vars[k]))
            if self.is_frame_live(k):
                fin.vars[k] = res
        for oid in cho:
            ob0 = st0.heap[oid]
            ob = fin.heap[oid]
            sym = entry.heap[oid].content
            res = None
            if cont:
                res = self.fold_content(fin, ob0, sym, ob0.content,
                                        [(pc_term(o.pc), o.heap[oid].content) for o in cont],
                                        key, axis, j)
            if res is None:
                res = sym
                for x in walk(sym):
                    if x in entry.cands:
                        fin.cands[x] = fin.cands.get(x, frozenset()) | entry.cands[x]
                        for o in cont:
                            get = self.dict_values if ob0.kind == 'dict' else self.elem_values
                            for v in get(o, o.heap[oid].content):
                                if len(fin.cands[x]) < 24:
                                    fin.cands[x] = fin.cands[x] | frozenset(members(v))
            fin.heap[oid] = fin.heap[oid]._replace(content=res)
        for (oid, n), c in chf.items():
            lv = mk('lv', key, '%s.%s' % (mk('oid', *oid).n, n))
            init = dict(st0.heap[oid].fields).get(n)
            res = None
            if ind.get((oid, n)) is not None:
                res = n_add(init, n_mul(ind[oid, n], n_len(axis)))
            elif init is not None and cont:
                res = self.fold_value(fin, lv, init,
                                      [(pc_term(o.pc), dict(o.heap[oid].fields).get(n)) for o in cont],
                                      key, axis, j)
            if res is None:
                res = lv
                cs = set(c)
                if init is not None:
                    cs.add(init)
                for o in cont:
                    v = dict(o.heap[oid].fields).get(n)
                    if v is not None:
                        cs.add(v)
                fin.cands[lv] = frozenset(x for y in cs for x in members(y) if x.op != 'absent')
            ob = fin.heap[oid]
            f = tuple(sorted([(a, b) for a, b in ob.fields if a != n] + [(n, res)],
                             key=lambda kv: kv[0]))
            fin.heap[oid] = ob._replace(fields=f)
        return fin

    def detach(self, st, oid, j):
        """rename the parameter j of a family, so that it is no loop index"""
        o = st.heap[oid]
        n = 60
        while any(mk('ix', j.args[0], n) in free(x) for x in
                  [o.content] * (o.content is not None) + [v for _, v in o.fields]):
            n += 1
        q = mk('ix', j.args[0], n)
        m = {j: q}
        st.heap[oid] = o._replace(
            params=tuple(q if p is j else p for p in o.params),
            content=subst(o.content, m) if o.content is not None else None,
            fields=tuple((a, subst(v, m)) for a, v in o.fields),
            base=subst(o.base, m) if o.base is not None else None)

    def after_members(self, fin, st0, cont, key, j, owned, ownedf):
        """families of which iteration j changed member j only"""
        for oid in owned:
            ob = st0.heap[oid]
            alts = [(pc_term(o.pc), o.heap[oid].content) for o in cont]
            res = None
            if alts and all(v is alts[0][1] for _, v in alts):
                res = alts[0][1]
            elif alts:
                res = alts[-1][1]
                for c, v in alts[-2::-1]:
                    res = t_.v_ite(c, v, res)
                if ob.kind != 'set' and any(q.op == 'R' for q in walk(res)):
                    res = None
            if res is not None and (self.has_loopvars(res, key) or any(o.imprecise for o in cont)):
                res = None
            if res is None:
                ref = mk('R', mk('oid', *oid), *ob.params)
                ex = None
                for _, v in alts:
                    ex = v
                res = self.opaque_content(fin, ob, ref, extra=ex)
                if ob.kind in ('list', 'set', 'deque', 'iter', 'dict'):
                    t = res.args[0] if res.op in ('seq', 'dct') else res
                    get = self.dict_values if ob.kind == 'dict' else self.elem_values
                    for o in cont:
                        fin.cands[t] = fin.cands.get(t, frozenset()) | frozenset(
                            get(o, o.heap[oid].content))
            fin.heap[oid] = fin.heap[oid]._replace(content=res)
        for oid, n in ownedf:
            alts = [(pc_term(o.pc), dict(o.heap[oid].fields).get(n)) for o in cont]
            if not alts or any(v is None or self.has_loopvars(v, key) for _, v in alts):
                res = mk('opq', 'member', key, K(n))
            else:
                res = alts[-1][1]
                for c, v in alts[-2::-1]:
                    res = t_.v_ite(c, v, res)
            ob = fin.heap[oid]
            f = tuple(sorted([(a, b) for a, b in ob.fields if a != n] + [(n, res)],
                             key=lambda kv: kv[0]))
            fin.heap[oid] = ob._replace(fields=f)

    def is_frame_live(self, k):
        return True

    def fold_value(self, fin, lv, init, outs, key, axis, j):
        """transfer of a scalar location over one iteration -> value after the loop"""
        outs = [(c, v) for c, v in outs if v is not None]
        if not outs:
            return None
        for c, v in outs:
            if self.has_loopvars(c, key):
                return None
        # flag: unchanged or set to a constant
        consts = set(v for c, v in outs if v is not lv)
        if consts and all(isk(v) for v in consts) and len(consts) == 1 and isk(init) and \
                isinstance(kval(init), bool):
            v, = consts
            cond = b_or(*[c for c, x in outs if x is v])
            if v is init:
                return init
            if isinstance(kval(v), bool):
                ex = b_exists(axis, j, cond)
                return ex if kval(v) else b_not(ex)
        # numeric accumulation  lv + f
        fs = []
        for c, v in outs:
            if v is lv:
                fs.append((c, K(0)))
                continue
            if v.op == '+' and lv in v.args:
                d = n_sub(v, lv)
                if self.has_loopvars(d, key):
                    return None
                fs.append((c, d))
                continue
            fs = None
            break
        if fs is not None and is_num(init) or fs is not None and isk(init):
            nz = [(c, d) for c, d in fs if d is not K(0)]
            if len(set(d for c, d in nz)) == 1:
                d = nz[0][1]
                cond = b_or(*[c for c, _ in nz])
                if j not in free(d):
                    cnt = n_len(axis) if cond is TRUE else mk('count', axis, j, cond)
                    return n_add(init, n_mul(d, cnt))
                if cond is TRUE:
                    return n_add(init, mk('fold', '+', axis, j, d, K(0)))
                fa = mk('filt', axis, j, cond)
                jj = mk('ix', fa, 0)
                return n_add(init, mk('fold', '+', fa, jj, subst(d, {j: jj}), K(0)))
        # boolean folds  lv and c / lv or c
        if len(outs) == 1 and outs[0][0] is TRUE and is_bool(outs[0][1]):
            v = outs[0][1]
            if v.op == 'and' and lv in v.args:
                r = b_and(*[x for x in v.args if x is not lv])
                if not self.has_loopvars(r, key):
                    return b_and(self.boolterm(init), b_forall(axis, j, r))
            if v.op == 'or' and lv in v.args:
                r = b_or(*[x for x in v.args if x is not lv])
                if not self.has_loopvars(r, key):
                    return b_or(self.boolterm(init), b_exists(axis, j, r))
        # string concatenation
        if all(v is lv or v.op == 'strcat' and v.args[0] is lv for c, v in outs):
            body = None
            for c, v in outs[::-1]:
                t = K('') if v is lv else self.models.str_cat(K(''), mk('strcat', *v.args[1:]))
                if self.has_loopvars(t, key):
                    return None
                body = t if body is None else t_.v_ite(c, t, body)
            return self.models.str_cat(init, mk('join', K(''), mk('seq', mk('map', axis, j, body))))
        return None

    def boolterm(self, v):
        if is_bool(v):
            return v
        return mk('truthy', v)

    def order(self, axis):
        """'asc'/'desc' when the indices come in that order of the base axis"""
        if t_.own_pos(axis):
            return 'asc'
        if axis.op in ('filt', 'rest', 'slc'):
            return self.order(axis.args[0])
        if axis.op == 'revax':
            return {'asc': 'desc', 'desc': 'asc'}.get(self.order(axis.args[0]))
        if axis.op == 'sortax':
            base, sk, rev = axis.args
            b = base
            while b.op in ('filt', 'rest', 'slc', 'revax', 'sortax', 'setorder', 'permax'):
                b = b.args[0]
            if sk.args[1] is sk.args[0] and isk(rev) and t_.own_pos(b):
                return 'desc' if kval(rev) else 'asc'
        return None

    def fold_updates(self, seg, sym, init, outs, key, axis, j):
        """item assignments / deletions in a list, one per iteration"""
        if init.op != 'seq' or len(init.args) != 1 or init.args[0].op != 'map':
            return None
        bax, bix, body = init.args[0].args
        upd = [(c, v.args[0]) for c, v in outs if v is not sym]
        if len(upd) != 1 or any(v is not sym and (v.op != 'seq' or len(v.args) != 1)
                                for _, v in outs):
            return None
        c, g = upd[0]
        if g.op not in ('updseg', 'delseg') or g.args[0] is not seg or \
                any(self.has_loopvars(x, key) for x in g.args[1:]):
            return None
        p = g.args[1]
        base = bax
        if not t_.own_pos(bax) or is_num(p) is False:
            return None
        k = t_.fresh_ix(bax, bix.args[1], c, p, axis, *g.args[2:])
        body = subst(body, {bix: k})
        if g.op == 'updseg':
            v = g.args[2]
            hit = b_and(c, n_eq(k, p))
            if j in free(v):
                if p is not j or not t_.within(axis, bax):
                    return None
                v = subst(v, {j: k})
                if any(x.op == 'pos' for x in walk(v)):
                    return None
            return mk('seq', mk('map', bax, k, t_.v_ite(b_exists(axis, j, hit), v, body)))
        o = self.order(axis) if p is j and t_.within(axis, bax) else None
        if o == 'desc':
            hit = b_and(c, n_eq(k, p))
        elif o == 'asc' and c is TRUE:
            hit = n_eq(k, n_add(p, self.models.pos(axis, j)))
        elif t_.is_num(p):
            # what remains after one deletion per iteration, each in what is left
            fa = mk('filt', bax, k, mk('survive', axis, j, c, p, bax, k))
            jj = mk('ix', fa, 0)
            return mk('seq', mk('map', fa, jj, subst(body, {k: jj})))
        else:
            return None
        fa = mk('filt', bax, k, b_not(b_exists(axis, j, hit)))
        jj = mk('ix', fa, 0)
        return mk('seq', mk('map', fa, jj, subst(body, {k: jj})))

    def touched(self, v, sym):
        """a set content as (sym - removed) + added: lists of (condition, set)"""
        if v is sym:
            return [], []
        if v.op == 'union':
            for x, y in (v.args, v.args[::-1]):
                if sym in walk(x) and sym not in walk(y):
                    r = self.touched(x, sym)
                    return None if r is None else (r[0], r[1] + [(TRUE, y)])
        if v.op == 'diff' and sym not in walk(v.args[1]):
            r = self.touched(v.args[0], sym)
            if r is None:
                return None
            y = v.args[1]
            return (r[0] + [(TRUE, y)], [(c, s_diff(x, y)) for c, x in r[1]])
        if v.op == 'ite' and sym not in walk(v.args[0]):
            c = v.args[0]
            a, b = self.touched(v.args[1], sym), self.touched(v.args[2], sym)
            if a is None or b is None:
                return None
            return tuple([(b_and(c, d), x) for d, x in a[k]] +
                         [(b_and(b_not(c), d), x) for d, x in b[k]] for k in (0, 1))
        return None

    def fold_touched(self, ob, sym, init, outs, key, axis, j):
        """a loop that adds elements to and removes elements from a set"""
        rem, add = [], []
        keys = [key]
        for p in ob.params:
            # the member met in this iteration, named by the parameter
            m = {j: p}
            keys.append(subst(key, m))
            outs = [(c, subst(v, {subst(sym, m): sym})) for c, v in outs]
        for c, v in outs:
            r = self.touched(v, sym)
            if r is None:
                return None
            rem += [(b_and(c, d), x) for d, x in r[0]]
            add += [(b_and(c, d), x) for d, x in r[1]]
        rem = [(c, x) for c, x in rem if c is not FALSE and x is not S0]
        add = [(c, x) for c, x in add if c is not FALSE and x is not S0]
        if any(self.has_loopvars(x, q) for p in rem + add for x in p for q in keys):
            return None
        if rem and add:
            # no element is touched by two iterations
            def once(c, x):
                if c.op == 'and' and any(self.pins(l, j) for l in c.args) or self.pins(c, j):
                    return True
                e = x.args[0] if x.op == 'sone' else x.args[3] if x.op == 'scomp' else x
                return t_.injective(e, j) or e.op == 'R' and j in e.args[1:]
            if not all(once(c, x) for c, x in rem + add):
                return None

        def total(xs):
            r = S0
            for c, x in xs:
                if x.op == 'scomp' and x.args[0].op == 'kax':
                    y = s_comp(axis, j, b_and(c, x.args[2]), x.args[3])
                else:
                    y = t_.s_big(axis, j, c, x)
                r = s_union(r, y)
            return r
        return s_union(s_diff(init, total(rem)), total(add))

    @staticmethod
    def pins(l, j):
        """a literal that fixes the iteration"""
        return l.op == 'eq' and j in l.args and any(x.op == 'ix' and x is not j for x in l.args)

    def fold_content(self, fin, ob, sym, init, outs, key, axis, j):
        for c, v in outs:
            if v is None or self.has_loopvars(c, key):
                return None
        if ob.kind == 'text':
            segs = []
            for c, v in outs:
                if v.op != 'seq' or not v.args or v.args[0] is not sym.args[0] or \
                        any(self.has_loopvars(x, key) for x in v.args[1:]):
                    return None
                if v.args[1:]:
                    segs.append(mk('when', c, mk('seq', *v.args[1:])))
            return seq_cat(init, mk('seq', mk('rep', axis, j, mk('seq', *segs)))) if segs else init
        if ob.kind in ('list', 'deque'):
            seg = sym.args[0]
            r = self.fold_updates(seg, sym, init, outs, key, axis, j)
            if r is not None:
                return r
            plan = []
            for c, v in outs:
                if v is sym:
                    continue
                if v.op == 'seq' and len(v.args) >= 2 and v.args[0] is seg and \
                        not any(self.has_loopvars(x, key) for x in v.args[1:]):
                    plan.append((c, v.args[1:]))
                else:
                    return None
            if not plan:
                return init
            tails = set(p[1] for p in plan)
            tail = plan[0][1]
            if len(tails) != 1:
                # one appended value, depending on the path
                if any(len(t) != 1 or t[0].op != 'one' or any(
                        x.op == 'R' for x in members(t[0].args[0])) for t in tails):
                    return None
                body = plan[-1][1][0].args[0]
                for c, t in plan[-2::-1]:
                    body = t_.v_ite(c, t[0].args[0], body)
                tail = (mk('one', body),)
            cond = b_or(*[c for c, _ in plan])
            if len(tail) == 1 and tail[0].op == 'one':
                body = tail[0].args[0]
                if cond is TRUE:
                    new = mk('map', axis, j, body)
                else:
                    fa = mk('filt', axis, j, cond)
                    jj = mk('ix', fa, 0)
                    new = mk('map', fa, jj, subst(body, {j: jj}))
                return seq_cat(init, mk('seq', new))
            # appending a whole segment each time: flattened pairs axis
            if len(tail) == 1 and tail[0].op == 'map' and cond is TRUE:
                a2, j2, body = tail[0].args
                pa = mk('flatax', mk('map', axis, j, a2))
                jj = mk('ix', pa, 0)
                b2 = subst(body, {j2: mk('second', jj), j: mk('firstof', jj)})
                return seq_cat(init, mk('seq', mk('map', pa, jj, b2)))
            return None
        if ob.kind == 'set':
            plan = []
            opk = set()
            for c, v in outs:
                if v is sym:
                    continue
                if v.op in ('union', 'inter') and sym in v.args:
                    x = v.args[0] if v.args[1] is sym else v.args[1]
                    if self.has_loopvars(x, key):
                        return None
                    plan.append((c, x))
                    opk.add(v.op)
                elif v.op == 'diff' and v.args[0] is sym and not self.has_loopvars(v.args[1], key):
                    plan.append((c, v.args[1]))
                    opk.add('diff')
                else:
                    return self.fold_touched(ob, sym, init, outs, key, axis, j)
            if not plan:
                return init
            if len(opk) != 1 or len(set(x for _, x in plan)) != 1:
                return self.fold_touched(ob, sym, init, outs, key, axis, j)
            op, = opk
            x = plan[0][1]
            cond = b_or(*[c for c, _ in plan])
            if op == 'union':
                if x.op == 'sone':
                    return s_union(init, s_comp(axis, j, cond, x.args[0]))
                if x.op == 'scomp' and x.args[0] is not axis and cond is TRUE and \
                        j not in free(x.args[3]) and j not in free(x.args[0]):
                    return s_union(init, s_comp(x.args[0], x.args[1],
                                                b_exists(axis, j, x.args[2]), x.args[3]))
                return s_union(init, t_.s_big(axis, j, cond, x))
            if op == 'inter':
                if x.op == 'scomp' and j not in free(x.args[3]) and j not in free(x.args[0]) \
                        and x.args[1] is not j:
                    return s_inter(init, s_comp(x.args[0], x.args[1],
                                                b_forall(axis, j, b_or(b_not(cond), x.args[2])),
                                                x.args[3]))
                return s_inter(init, mk('biginter', axis, j, cond, x))
            if op == 'diff':
                if x.op == 'sone':
                    return s_diff(init, s_comp(axis, j, cond, x.args[0]))
                return s_diff(init, t_.s_big(axis, j, cond, x))
        if ob.kind == 'dict':
            d0 = sym.args[0]
            plan = []
            for c, v in outs:
                if v is sym:
                    continue
                if v.op == 'dct' and len(v.args) == 2 and v.args[0] is d0 and \
                        v.args[1].op == 'de' and not self.has_loopvars(v.args[1], key):
                    plan.append((c, v.args[1]))
                else:
                    return None
            if not plan:
                return init
            if len(set(e.args[0] for _, e in plan)) != 1:
                return None
            k, v = plan[-1][1].args
            for c, x in plan[-2::-1]:
                v = t_.v_ite(c, x.args[1], v)
            e = mk('de', k, v)
            cond = b_or(*[c for c, _ in plan])
            if cond is TRUE:
                new = mk('dmap', axis, j, e.args[0], e.args[1])
            else:
                fa = mk('filt', axis, j, cond)
                jj = mk('ix', fa, 0)
                new = mk('dmap', fa, jj, subst(e.args[0], {j: jj}), subst(e.args[1], {j: jj}))
            return mk('dct', *(init.args + (new,)))
        if ob.kind == 'ndarray':
            return self.models.fold_array(self, sym, init, outs, key, axis, j)
        return None

    # ---------------------------------------------------------- expressions
    def ev(self, e, st):
        if st.sig is not None:
            return [(st, None)]
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unres('expr ' + type(e).__name__, e)
            return [(st, mk('opq', 'expr', type(e).__name__))]
        r = m(e, st)
        if len(r) > self.cap:
            r = self.limit_vals(r)
        return r

    def limit_vals(self, rs):
        for s, v in rs:
            if v is not None:
                s.vars[('tmp', 'v')] = v
        outs = self.limit([s for s, _ in rs])
        res = []
        for s in outs:
            v = s.vars.pop(('tmp', 'v'), None)
            res.append((s, v if s.sig is None else None))
        return res

    def evs(self, es, st):
        """evaluate several expressions left to right -> [(state, [values])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if s.sig is not None:
                    nxt.append((s, None))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v] if s2.sig is None else None))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return [(st, t_.ELLIPSIS)]
        return [(st, K(v))]

    def e_Name(self, e, st):
        v = self.lookup(st, e.id, e)
        if v is None:
            f = self.stack[-1][0]
            if not isinstance(f, _ModFrame) and e.id in f.locals:
                return [(self.raise_(st, 'UnboundLocalError', e), None)]
            self.report('noname', e, "name '%s' is not defined" % e.id)
            return [(self.raise_(st, 'NameError', e), None)]
        if v.op == 'bi' and v.args[0].startswith('builtins.'):
            n = v.args[0][9:]
            if n in ('True', 'False', 'None'):
                return [(st, K({'True': True, 'False': False, 'None': None}[n]))]
        return [(st, v)]

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if s.sig is None:
                self.store_name(s, e.target.id, v)
            out.append((s, v))
        return out

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for s, seq in self.star_seq(e.elts, st, e):
                if s.sig is None and all(g.op == 'one' for g in seq.args):
                    out.append((s, mk('tup', *[g.args[0] for g in seq.args])))
                else:
                    out.append((s, mk('tseq', seq) if s.sig is None else None))
            return out
        return [(s, mk('tup', *vs) if s.sig is None else None) for s, vs in self.evs(e.elts, st)]

    def star_seq(self, elts, st, node):
        cur = [(st, mk('seq'))]
        for x in elts:
            nxt = []
            for s, q in cur:
                if s.sig is not None:
                    nxt.append((s, None))
                    continue
                if isinstance(x, ast.Starred):
                    for s2, v in self.ev(x.value, s):
                        if s2.sig is not None:
                            nxt.append((s2, None))
                            continue
                        for s3, segs in self.models.iter_segments(self, s2, v, node):
                            nxt.append((s3, seq_cat(q, mk('seq', *segs)) if s3.sig is None else None))
                else:
                    for s2, v in self.ev(x, s):
                        nxt.append((s2, mk('seq', *(q.args + (mk('one', v),))) if s2.sig is None else None))
            cur = nxt
        return cur

    def e_List(self, e, st):
        out = []
        for s, q in self.star_seq(e.elts, st, e):
            out.append((s, self.alloc(s, 'list', e, content=q) if s.sig is None else None))
        return out

    def e_Set(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            c = S0
            for v in vs:
                c = s_union(c, mk('sone', v))
            out.append((s, self.alloc(s, 'set', e, content=c)))
        return out

    def e_Dict(self, e, st):
        es = []
        spread = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                spread.append(v)
                continue
            es += [k, v]
        out = []
        for s, vs in self.evs(es + spread, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            ents = []
            for i in range(0, len(es), 2):
                ents.append(mk('de', vs[i], vs[i + 1]))
            if spread:
                d = mk('dopq', mk('okey', 'spread', *vs))
                s.cands[d] = frozenset(vs)
                ents = [d] + ents
            out.append((s, self.alloc(s, 'dict', e, content=mk('dct', *ents))))
        return out

    def e_JoinedStr(self, e, st):
        es = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        out = []
        for s, vs in self.evs(es, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            cur = [(s, K(''))]
            for x, v in zip(e.values, vs):
                nxt = []
                for s1, acc in cur:
                    if s1.sig is not None:
                        nxt.append((s1, None))
                        continue
                    f = isinstance(x, ast.FormattedValue)
                    if f and x.format_spec is not None and not (
                            isinstance(x.format_spec, ast.JoinedStr) and not x.format_spec.values):
                        nxt.append((s1, self.models.str_cat(acc, mk('fmt', K(
                            ast.unparse(x.format_spec)), v))))
                        continue
                    meth = '__repr__' if f and x.conversion in (114, 97) else '__str__'
                    for s2, r in self.models.to_str(self, s1, v, e, meth):
                        if s2.sig is not None or r is None:
                            nxt.append((s2, None))
                        else:
                            nxt.append((s2, self.models.str_cat(acc, r)))
                cur = nxt
            out += cur
        return out

    def e_FormattedValue(self, e, st):
        return [(s, mk('str', v) if s.sig is None else None) for s, v in self.ev(e.value, st)]

    def e_Lambda(self, e, st):
        f, fr = self.stack[-1]
        g = self.repo.fn_of(e, f.mod, qual='%s.<lambda>' % f.qual)
        return [(st, self.make_closure(st, g, e))]

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            if s.sig is not None:
                out.append((s, None))
            else:
                out += self.ev(e.body if b else e.orelse, s)
        return self.merge_ite(out)

    def merge_ite(self, out):
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = [(st, None)]
        out = []
        for k, x in enumerate(e.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(x, s):
                    if s2.sig is not None:
                        out.append((s2, None))
                        continue
                    if k == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, c in self.truth(s2, v, x):
                        if s3.sig is not None:
                            out.append((s3, None))
                            continue
                        # pure boolean rest: keep one state, build the formula
                        for s4, b in self.branch(s3, c):
                            if b == isand:
                                nxt.append((s4, None))
                            else:
                                out.append((s4, v if not is_bool(v) else K(b)))
            cur = nxt
        return self.merge_bool(st, out)

    def merge_bool(self, st0, out):
        """states that differ only in path condition and a boolean value are
        folded back into one state with a boolean formula"""
        if len(out) < 2:
            return out
        ok = [o for o in out if o[0].sig is None]
        if len(ok) != len(out) or not all(is_bool(v) for _, v in ok):
            return out
        s0 = ok[0][0]
        for s, _ in ok[1:]:
            if s.heap != s0.heap or s.vars != s0.vars or s.events != s0.events:
                return out
        base = None
        if len(st0.pc) == 1:
            base, = st0.pc
        if base is None:
            return out
        parts = []
        for s, v in ok:
            cubes = [b_and(*(c - base)) if c - base else TRUE for c in s.pc]
            parts.append(b_and(b_or(*cubes), v))
        val = b_or(*parts)
        s = s0
        facts = s.facts
        for x, _ in ok[1:]:
            facts = facts & x.facts
        s.facts = facts | st0.facts
        s.pc = st0.pc
        for x, _ in ok[1:]:
            s.cands.update(x.cands)
        return [(s, val)]

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            if isinstance(e.op, ast.Not):
                for s2, c in self.truth(s, v, e):
                    out.append((s2, b_not(c) if s2.sig is None else None))
            elif isinstance(e.op, ast.USub):
                if isk(v) and isinstance(kval(v), (int, float)):
                    out.append((s, K(-kval(v))))
                elif is_num(v):
                    out.append((s, t_.n_neg(v)))
                else:
                    out.append((s, mk('unop', 'USub', v)))
            elif isinstance(e.op, ast.Invert):
                out += self.models.invert(self, s, v, e)
            else:
                out.append((s, v))
        return out

    def e_BinOp(self, e, st):
        out = []
        for s, vs in self.evs([e.left, e.right], st):
            if s.sig is not None:
                out.append((s, None))
                continue
            out += self.binop(s, type(e.op).__name__, vs[0], vs[1], e)
        return out

    def binop(self, st, op, a, b, node, inplace=False):
        out = []
        va, vb = self.vals(st, a), self.vals(st, b)
        if len(va) * len(vb) == 1:
            return self.models.binop(self, st, op, va[0], vb[0], node, inplace)
        for s1, x in self.alts(st, a)[:4 if len(va) * len(vb) > 9 else None]:
            for s, y in self.alts(s1, b)[:3 if len(va) * len(vb) > 9 else None]:
                out += self.models.binop(self, s, op, x, y, node, inplace)
        return out

    def e_Compare(self, e, st):
        cur = [(st, None, None)]
        out = []
        for s, l in self.ev(e.left, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            acc = [(s, l, TRUE)]
            for op, c in zip(e.ops, e.comparators):
                nxt = []
                for s1, left, val in acc:
                    for s2, r in self.ev(c, s1):
                        if s2.sig is not None:
                            out.append((s2, None))
                            continue
                        for s3, b in self.compare(s2, type(op).__name__, left, r, e):
                            if s3.sig is not None:
                                out.append((s3, None))
                            elif is_bool(b):
                                nxt.append((s3, r, b_and(val, b)))
                            else:
                                nxt.append((s3, r, b if val is TRUE else mk('opq', 'cmp', val, b)))
                acc = nxt
            out += [(s1, v) for s1, _, v in acc]
        return out

    def compare(self, st, op, a, b, node):
        out = []
        va, vb = self.vals(st, a), self.vals(st, b)
        if len(va) * len(vb) == 1:
            return self.models.compare(self, st, op, va[0], vb[0], node)
        for s1, x in self.alts(st, a)[:3 if len(va) * len(vb) > 9 else None]:
            for s, y in self.alts(s1, b)[:3 if len(va) * len(vb) > 9 else None]:
                out += self.models.compare(self, s, op, x, y, node)
        return out

    def truth(self, st, v, node):
        """-> [(state, boolean term)]"""
        out = []
        for s, w in self.alts(st, v):
            out += self.models.truth(self, s, w, node)
        return out

    def e_Subscript(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            for s2, i in self.ev_index(e.slice, s):
                if s2.sig is not None:
                    out.append((s2, None))
                    continue
                for s3, w in self.alts(s2, v):
                    if w.op == 'R':
                        o = self.obj(s3, w)
                        if o is not None and o.kind == 'inst':
                            for s4, m in self.getattr_(s3, w, '__getitem__', e):
                                if s4.sig is not None:
                                    out.append((s4, None))
                                else:
                                    out += self.call(s4, m, [i], {}, e)
                            continue
                    for i2 in self.vals(s3, i)[:4]:
                        out += self.models.get_item(self, s3.copy(), w, i2, e)
        return out

    def ev_index(self, sl, st):
        if isinstance(sl, ast.Slice):
            es = [sl.lower, sl.upper, sl.step]
            cur = [(st, [])]
            for x in es:
                nxt = []
                for s, vs in cur:
                    if s.sig is not None:
                        nxt.append((s, None))
                    elif x is None:
                        nxt.append((s, vs + [NONE]))
                    else:
                        for s2, v in self.ev(x, s):
                            nxt.append((s2, vs + [v] if s2.sig is None else None))
                cur = nxt
            return [(s, mk('slice', *vs) if s.sig is None else None) for s, vs in cur]
        if isinstance(sl, ast.Tuple):
            cur = [(st, [])]
            for x in sl.elts:
                nxt = []
                for s, vs in cur:
                    if s.sig is not None:
                        nxt.append((s, None))
                        continue
                    for s2, v in self.ev_index(x, s):
                        nxt.append((s2, vs + [v] if s2.sig is None else None))
                cur = nxt
            return [(s, mk('tup', *vs) if s.sig is None else None) for s, vs in cur]
        return self.ev(sl, st)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    # comprehensions
    def comp(self, gens, st, leaf, node):
        """run nested generators; leaf(state) -> states"""
        def level(k, s):
            if k == len(gens):
                return leaf(s)
            g = gens[k]
            out = []
            for x, v in self.ev(g.iter, s):
                if x.sig is not None:
                    out.append(x)
                    continue
                self.note_iter(x, v, g.iter)

                def bind(y, val):
                    return self.assign(g.target, val, y, node)

                def body(y):
                    cur = [y]
                    done = []
                    for c in g.ifs:
                        nxt = []
                        for z in cur:
                            for w, b in self.cond(c, z):
                                if w.sig is not None:
                                    done.append(w)
                                elif b:
                                    nxt.append(w)
                                else:
                                    done.append(w)
                        cur = nxt
                    for z in cur:
                        done += level(k + 1, z)
                    return done
                for y in self.loop_over(x, v, bind, body, g.iter):
                    if y.sig == 'exhaust':
                        y.sig = None
                    out.append(y)
            return out
        # comprehension variables live in their own scope
        f, fr = self.stack[-1]
        names = []
        for g in gens:
            from .loader import _assigned_names
            _assigned_names(g.target, names)
        saved = {n: st.vars.get((fr if not isinstance(f, _ModFrame) else (fr or ('comp', self.curctx())), n))
                 for n in names}
        addl = [n for n in names if not isinstance(f, _ModFrame) and n not in f.locals]
        gl = []
        if not isinstance(f, _ModFrame):
            f.locals |= set(addl)
            gl = [n for n in names if n in f.globals_ or n in f.nonlocals]
            f.globals_ = f.globals_ - set(gl)
            nl = [n for n in names if n in f.nonlocals]
            f.nonlocals = f.nonlocals - set(nl)
        try:
            outs = level(0, st)
        finally:
            if not isinstance(f, _ModFrame):
                f.locals = f.locals - set(addl)
        frk = fr if not isinstance(f, _ModFrame) else (fr or ('comp', self.curctx()))
        for o in outs:
            for n, v in saved.items():
                if v is None:
                    o.vars.pop((frk, n), None)
                else:
                    o.vars[(frk, n)] = v
        return outs

    def e_ListComp(self, e, st, kind='list'):
        r = self.alloc(st, 'list', e, content=mk('seq'))

        def leaf(s):
            out = []
            for x, v in self.ev(e.elt, s):
                if x.sig is None:
                    o = self.obj(x, r)
                    x.heap[self.oid(r)] = o._replace(content=mk('seq', *(o.content.args + (mk('one', v),))))
                out.append(x)
            return out
        outs = self.comp(e.generators, st, leaf, e)
        return [(s, r if s.sig is None else None) for s in outs]

    def e_GeneratorExp(self, e, st):
        out = []
        for s, r in self.e_ListComp(e, st):
            if s.sig is None:
                q = self.content(s, r)
                out.append((s, mk('iseq', q)))
            else:
                out.append((s, None))
        return out

    def e_SetComp(self, e, st):
        r = self.alloc(st, 'set', e, content=S0)

        def leaf(s):
            out = []
            for x, v in self.ev(e.elt, s):
                if x.sig is None:
                    o = self.obj(x, r)
                    x.heap[self.oid(r)] = o._replace(content=s_union(o.content, mk('sone', v)))
                out.append(x)
            return out
        outs = self.comp(e.generators, st, leaf, e)
        return [(s, r if s.sig is None else None) for s in outs]

    def e_DictComp(self, e, st):
        r = self.alloc(st, 'dict', e, content=mk('dct'))

        def leaf(s):
            out = []
            for x, vs in self.evs([e.key, e.value], s):
                if x.sig is None:
                    o = self.obj(x, r)
                    x.heap[self.oid(r)] = o._replace(
                        content=mk('dct', *(o.content.args + (mk('de', vs[0], vs[1]),))))
                out.append(x)
            return out
        outs = self.comp(e.generators, st, leaf, e)
        return [(s, r if s.sig is None else None) for s in outs]

    def e_Yield(self, e, st):
        out = []
        vals = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for s, v in vals:
            if s.sig is None:
                f, fr = self.stack[-1]
                h = s.vars.get((fr, '<yield>'))
                if self.on_yield is not None:
                    self.on_yield(s, v, f, e)
                s.ev('yield', v, f.qual, self.where(e))
                if h is not None:
                    o = self.obj(s, h)
                    s.heap[self.oid(h)] = o._replace(
                        content=mk('seq', *(o.content.args + (mk('one', v),))))
            out.append((s, NONE if s.sig is None else None))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            f, fr = self.stack[-1]
            h = s.vars.get((fr, '<yield>'))
            for s2, segs in self.models.iter_segments(self, s, v, e):
                if s2.sig is None and h is not None:
                    o = self.obj(s2, h)
                    s2.heap[self.oid(h)] = o._replace(content=mk('seq', *(o.content.args + tuple(segs))))
                    for g in segs:
                        for x in self.elem_values(s2, mk('seq', g)):
                            s2.ev('yield', x, f.qual, self.where(e))
                out.append((s2, NONE if s2.sig is None else None))
        return out

    # -------------------------------------------------------------- getattr
    def e_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            out += self.getattr_(s, v, e.attr, e)
        return out

    def class_value(self, st, c, name, hit=None):
        """raw class attribute value (functions undecorated as fn terms)"""
        if hit is None:
            hit = self.class_lookup(c, name)
        owner, kind, node = hit
        key = (('C', owner.cid), name)
        v = st.vars.get(key)
        if v is not None:
            return v
        if kind == 'def':
            f = self.repo.fn_of(node, owner.mod, owner)
            v = mk('fn', f.fid, None)
            if f.deco:
                v = self.decorate(st, f, v, None, owner.mod)
        elif kind == 'class':
            v = mk('cl', self.repo.cls_of(node, owner.mod).cid)
        else:
            v = self.class_assign(st, owner, name, node)
        st.vars[key] = v
        return v

    def class_assign(self, st, owner, name, node):
        val = node.value
        # property(f, g) on functions of the class body
        if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and \
                val.func.id == 'property':
            fs = []
            for a in val.args:
                if isinstance(a, ast.Name) and a.id in owner.ns and owner.ns[a.id][0] == 'def':
                    g = self.repo.fn_of(owner.ns[a.id][1], owner.mod, owner)
                    v = mk('fn', g.fid, None)
                    if g.deco:
                        v = self.decorate(st, g, v, None, owner.mod)
                    fs.append(v)
                elif isinstance(a, ast.Lambda):
                    g = self.repo.fn_of(a, owner.mod, owner, qual='%s.<lambda>' % owner.cid)
                    fs.append(mk('fn', g.fid, None))
                else:
                    fs.append(NONE)
            return mk('property', *(fs or [NONE]))
        if isinstance(val, ast.Name) and val.id in owner.ns and val.id != name:
            return self.class_value(st, owner, val.id)
        saved = (self.stack, self.ctx, self.ixs, self.trys)
        self.stack, self.ctx, self.ixs, self.trys = [(_ModFrame(owner.mod), None)], \
            ('classattr', owner.cid, name), [], []
        try:
            s0 = st.copy()
            outs = [o for o in self.ev(val, s0) if o[0].sig is None]
            if not outs:
                return mk('opq', 'classattr', owner.cid, name)
            s, v = outs[0]
            for k, o in s.heap.items():
                if k not in st.heap:
                    st.heap[k] = o._replace(origin='class:%s.%s' % (owner.cid, name))
            for k, x in s.vars.items():
                st.vars.setdefault(k, x)
            st.cands.update(s.cands)
            return v
        finally:
            self.stack, self.ctx, self.ixs, self.trys = saved

    def getattr_(self, st, v, name, node, quiet=False):
        out = []
        for s, w in self.alts(st, v):
            out += self.getattr1(s, w, name, node, quiet)
        return out

    def getattr1(self, st, v, name, node, quiet=False):
        if v.op == 'R':
            o = self.obj(st, v)
            if o is not None and o.kind in ('inst', 'oldinst'):
                f = self.getf(st, v, name)
                c = self.repo.classes.get(o.cls)
                hit = self.class_lookup(c, name) if c is not None else None
                if hit is not None:
                    cv = self.class_value(st, c, name, hit)
                    if cv.op == 'property':
                        if cv.args[0].op == 'fn' or cv.args[0].op == 'bm':
                            return self.call(st, cv.args[0], [v], {}, node)
                        return [(st, mk('attr', v, name))]
                if f is not None:
                    return [(st, f)]
                if hit is not None:
                    if cv.op == 'fn':
                        return [(st, mk('bm', cv, v))]
                    if cv.op == 'classmethod':
                        return [(st, mk('bm', cv.args[0], mk('cl', o.cls)))]
                    if cv.op == 'staticmethod':
                        return [(st, cv.args[0])]
                    if cv.op == 'cmfn':
                        return [(st, mk('bm', cv, v))]
                    return [(st, cv)]
                if name == '__class__':
                    return [(st, mk('cl', o.cls))]
                if name == '__dict__':
                    r = mk('attr', v, name)
                    return [(st, r)]
                if name in ('__init__', '__repr__', '__str__', '__eq__', '__hash__', '__ne__',
                            '__setattr__', '__doc__', '__module__', '__reduce__', '__sizeof__',
                            '__getattribute__', '__lt__', '__format__'):
                    return [(st, mk('bmeth', v, name))]
                if c is not None and self.full_known(c):
                    g = self.class_lookup(c, '__getattr__')
                    if g is not None:
                        return [(st, mk('attr', v, name))]
                    if quiet:
                        return [(st, None)]
                    self.report('noattr', node, "'%s' object has no attribute '%s'" % (
                        c.name, name), (o.cls, name))
                    return [(self.raise_(st, 'AttributeError', node), None)]
                if quiet:
                    return [(st, None)]
                return [(st, mk('attr', v, name))]
            return self.models.getattr_obj(self, st, v, name, node)
        if v.op == 'cl':
            c = self.repo.classes.get(v.args[0])
            if c is None:
                return [(st, mk('attr', v, name))]
            if name == '__name__':
                return [(st, K(c.name))]
            hit = self.class_lookup(c, name)
            if hit is not None:
                cv = self.class_value(st, c, name, hit)
                if cv.op == 'classmethod':
                    return [(st, mk('bm', cv.args[0], v))]
                if cv.op == 'staticmethod':
                    return [(st, cv.args[0])]
                return [(st, cv)]
            return [(st, mk('attr', v, name))]
        if v.op == 'md':
            x = st.vars.get((('M', v.args[0]), name))
            if x is None:
                x = self.module_name(st, v.args[0], name)
            if x is None:
                self.report('noattr', node, "module '%s' has no attribute '%s'" % (v.args[0], name))
                return [(self.raise_(st, 'AttributeError', node), None)]
            return [(st, x)]
        if v.op == 'bi':
            return [(st, mk('bi', '%s.%s' % (v.args[0], name)))]
        if v.op == 'fn':
            x = st.vars.get((('FA', v), name))
            if x is not None:
                return [(st, x)]
            if name == '__name__':
                return [(st, K(self.repo.fns[v.args[0]].name))]
            return [(st, mk('attr', v, name))]
        if v.op == 'bm':
            x = st.vars.get((('FA', v.args[0]), name))
            if x is not None:
                return [(st, x)]
            return [(st, mk('attr', v, name))]
        if v.op == 'super':
            c = self.repo.classes.get(v.args[0])
            b = self.base_class(c)
            if b is not None:
                hit = self.class_lookup(b, name)
                if hit is not None:
                    cv = self.class_value(st, b, name, hit)
                    if cv.op == 'property':
                        return self.call(st, cv.args[0], [v.args[1]], {}, node)
                    if cv.op == 'fn':
                        return [(st, mk('bm', cv, v.args[1]))]
                    if cv.op == 'classmethod':
                        return [(st, mk('bm', cv.args[0], v.args[1]))]
                    return [(st, cv)]
            return [(st, mk('bmeth', v.args[1], name))]
        return self.models.getattr_val(self, st, v, name, node)

    # ----------------------------------------------------------------- call
    def e_Call(self, e, st):
        # zero argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f, fr = self.stack[-1]
            g, gr = f, fr
            while g is not None and not isinstance(g, _ModFrame) and g.cls is None:
                p = self.parent.get((g.fid, gr))
                if p is None:
                    break
                g, gr = p
            if not isinstance(g, _ModFrame) and g.cls is not None:
                if len(e.args) == 2:
                    outs = []
                    for s, vs in self.evs(e.args, st):
                        if s.sig is None and vs[0].op == 'cl':
                            outs.append((s, mk('super', vs[0].args[0], vs[1])))
                        else:
                            outs.append((s, mk('opq', 'super') if s.sig is None else None))
                    return outs
                self_ = st.vars.get((gr, g.args[0])) if g.args else None
                if self_ is not None:
                    return [(st, mk('super', g.cls.cid, self_))]
            return [(st, mk('opq', 'super'))]
        out = []
        for s, f in self.ev(e.func, st):
            if s.sig is not None:
                out.append((s, None))
                continue
            for s2, args, kw in self.ev_args(e, s):
                if s2.sig is not None:
                    out.append((s2, None))
                    continue
                for s3, g in self.alts(s2, f):
                    if self.watch_files:
                        x = self.models.file_risk(self, s3, g, args, e)
                        if x is not None:
                            out.append((x, None))
                    out += self.call(s3, g, args, kw, e)
        return out

    def ev_args(self, e, st):
        """-> [(state, [positional], {kw})]; a starred argument of unknown length
        is passed as a ('star', seq) term"""
        cur = [(st, [])]
        for a in e.args:
            nxt = []
            for s, vs in cur:
                if s.sig is not None:
                    nxt.append((s, vs))
                    continue
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s):
                        if s2.sig is not None:
                            nxt.append((s2, vs))
                            continue
                        for s3, segs in self.models.iter_segments(self, s2, v, e):
                            if s3.sig is not None:
                                nxt.append((s3, vs))
                            elif all(g.op == 'one' for g in segs):
                                nxt.append((s3, vs + [g.args[0] for g in segs]))
                            else:
                                nxt.append((s3, vs + [mk('star', mk('seq', *segs))]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v]))
            cur = nxt
        cur = [(s, vs, {}) for s, vs in cur]
        for k in e.keywords:
            nxt = []
            for s, vs, kw in cur:
                if s.sig is not None:
                    nxt.append((s, vs, kw))
                    continue
                for s2, v in self.ev(k.value, s):
                    kw2 = dict(kw)
                    if s2.sig is None:
                        if k.arg is None:
                            # **mapping
                            done = False
                            if v.op == 'R' and self.obj(s2, v) is not None and \
                                    self.obj(s2, v).kind == 'dict':
                                c = self.content(s2, v)
                                if all(x.op == 'de' and isk(x.args[0]) for x in c.args):
                                    for x in c.args:
                                        kw2[kval(x.args[0])] = x.args[1]
                                    done = True
                            if not done:
                                kw2['**'] = v
                        else:
                            kw2[k.arg] = v
                    nxt.append((s2, vs, kw2))
            cur = nxt
        return cur

    def call(self, st, f, args, kw, node):
        if st.sig is not None:
            return [(st, None)]
        if f.op in ('U', 'lv'):
            fs = self.vals(st, f)
            if not (len(fs) == 1 and fs[0] is f):
                out = []
                for s, g in self.alts(st, f):
                    out += self.call(s, g, args, kw, node)
                return out
        if f.op == 'bm':
            if f.args[0].op == 'fn':
                return self.call_fn(st, f.args[0], [f.args[1]] + list(args), kw, node)
            return self.call(st, f.args[0], [f.args[1]] + list(args), kw, node)
        if f.op == 'fn':
            return self.call_fn(st, f, list(args), kw, node)
        if f.op == 'cl':
            return self.instantiate(st, f, args, kw, node)
        if f.op == 'cmfn':
            return [(st, mk('ext', 'contextmanager', f, *args))]
        if f.op == 'bi' and f.args[0] in ('functools.lru_cache', 'functools.cache',
                                          'functools.cached_property'):
            return self.call(st, self.module_name(st, PRELUDE, f.args[0].split('.')[1]), args, kw, node)
        if f.op == 'R':
            o = self.obj(st, f)
            if o is not None and o.kind == 'inst':
                for s, m in self.getattr_(st, f, '__call__', node, quiet=True):
                    if m is not None and s.sig is None:
                        return self.call(s, m, args, kw, node)
        return self.models.call(self, st, f, list(args), kw, node)

    def instantiate(self, st, c, args, kw, node):
        cls = self.repo.classes.get(c.args[0])
        if cls is None:
            return [(st, mk('ext', c.args[0], *args))]
        r = self.alloc(st, 'inst', node, cls=cls.cid)
        hit = self.class_lookup(cls, '__init__')
        isexc = any(x in ('BaseException', 'Exception') for x in self.mro_names(cls.cid))
        if hit is None:
            if isexc:
                self.setf(st, r, 'args', mk('tup', *args), node, quiet=True)
            elif args and self.full_known(cls) and \
                    self.class_lookup(cls, '__new__') is None:
                self.report('arity', node, '%s() takes no arguments' % cls.name)
                return [(self.raise_(st, 'TypeError', node), None)]
            return [(st, r)]
        fv = self.class_value(st, cls, '__init__', hit)
        out = []
        for s, _ in self.call(st, mk('bm', fv, r), args, kw, node):
            out.append((s, r if s.sig is None else None))
        return out

    def bind_args(self, st, f, fterm, args, kw, node):
        """-> dict name->value or None when the call does not fit the signature"""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        extra = []
        kw = dict(kw)
        stars = [x for x in args if x.op == 'star']
        if stars or '**' in kw:
            # unknown number of arguments: bind what we can
            fixed = []
            for x in args:
                if x.op == 'star':
                    break
                fixed.append(x)
            for n, v in zip(pos, fixed):
                vals[n] = v
            rest = pos[len(fixed):]
            el = [y for x in stars for y in self.elem_values(st, x.args[0])]
            for n in rest:
                if n in kw:
                    vals[n] = kw.pop(n)
                else:
                    cand = el + ([self.default(st, f, fterm, n)] if self.default(st, f, fterm, n) else [])
                    vals[n] = U(cand) if cand else mk('opq', 'starred', f.fid, n)
            if a.vararg:
                vals[a.vararg.arg] = mk('tseq', mk('seq', *[mk('one', x) for x in fixed[len(pos):]])) \
                    if not stars else mk('tseq', seq_cat(mk('seq', *[mk('one', x) for x in fixed[len(pos):]]),
                                                         stars[0].args[0]))
            if a.kwarg:
                vals[a.kwarg.arg] = kw.pop('**', None) or self.alloc(st, 'dict', node, content=mk('dct'))
            for n, x in enumerate(a.kwonlyargs):
                if x.arg in kw:
                    vals[x.arg] = kw[x.arg]
                else:
                    vals[x.arg] = st.vars.get((('D', f.fid, fterm.args[1]), 'kw%d' % n), mk('opq', 'kwonly'))
            return vals
        for n, v in zip(pos, args):
            vals[n] = v
        if len(args) > len(pos):
            if a.vararg:
                extra = args[len(pos):]
            else:
                return None
        if a.vararg:
            vals[a.vararg.arg] = mk('tup', *extra)
        for n in list(kw):
            if n in pos or any(x.arg == n for x in a.kwonlyargs):
                if n in vals:
                    return None
                vals[n] = kw.pop(n)
        if kw:
            if a.kwarg:
                ents = [mk('de', K(k), v) for k, v in sorted(kw.items())]
                vals[a.kwarg.arg] = self.alloc(st, 'dict', node, content=mk('dct', *ents))
            else:
                return None
        elif a.kwarg:
            vals[a.kwarg.arg] = self.alloc(st, 'dict', node, content=mk('dct'))
        for n in pos:
            if n not in vals:
                d = self.default(st, f, fterm, n)
                if d is None:
                    return None
                vals[n] = d
        for i, x in enumerate(a.kwonlyargs):
            if x.arg not in vals:
                d = a.kw_defaults[i]
                if d is None:
                    return None
                v = st.vars.get((('D', f.fid, fterm.args[1]), 'kw%d' % i))
                if v is None:
                    v = self.static_default(st, f, fterm, 'kw%d' % i, d)
                vals[x.arg] = v
        return vals

    def default(self, st, f, fterm, name):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        i = pos.index(name) - (len(pos) - len(a.defaults))
        if i < 0:
            return None
        key = (('D', f.fid, fterm.args[1]), i)
        v = st.vars.get(key)
        if v is None:
            v = self.static_default(st, f, fterm, i, a.defaults[i])
        return v

    def static_default(self, st, f, fterm, i, d):
        saved = (self.stack, self.ctx, self.ixs, self.trys)
        self.stack, self.ctx, self.ixs, self.trys = [(_ModFrame(f.mod, f.cls), None)], \
            ('default', f.fid, i), [], []
        try:
            s0 = st.copy()
            if f.cls is not None and isinstance(d, ast.Name) and d.id in f.cls.ns:
                v = self.class_value(st, f.cls, d.id)
                return v
            outs = [o for o in self.ev(d, s0) if o[0].sig is None]
            if not outs:
                return mk('opq', 'default', f.fid, str(i))
            s, v = outs[0]
            for k, o in s.heap.items():
                if k not in st.heap:
                    st.heap[k] = o._replace(origin='default:%s' % f.qual, params=())
            for k, x in s.vars.items():
                st.vars.setdefault(k, x)
            st.cands.update(s.cands)
            st.vars[(('D', f.fid, fterm.args[1]), i)] = v
            return v
        finally:
            self.stack, self.ctx, self.ixs, self.trys = saved

    def call_fn(self, st, fterm, args, kw, node):
        f = self.repo.fns[fterm.args[0]]
        self.visited.add(f.qual)
        stub = self.stubs.get(f.qual)
        if stub is not None:
            r = stub(self, st, f, args, kw, node)
            if r is not None:
                return r
        vals = self.bind_args(st, f, fterm, args, kw, node)
        if vals is None:
            self.report('arity', node, 'call of %s does not fit its signature' % f.qual, f.qual)
            return [(self.raise_(st, 'TypeError', node), None)]
        depth = sum(1 for g, _ in self.stack if g is f)
        if len(self.stack) > MAXDEPTH or depth >= 3:
            self.unres('recursion ' + f.qual, node)
            return [(st, mk('opq', 'recursion', f.fid))]
        savedctx = self.ctx
        self.ctx = self.ctx + ((getattr(node, 'mod', '?'), getattr(node, 'lineno', 0),
                                getattr(node, 'col_offset', 0), f.fid),)
        fr = ('F', self.curctx())
        # a function body does not see the caller's handlers for its own
        # explicit control flow, but implicit exceptions do propagate to them
        for n in [k for k in st.vars if k[0] == fr]:
            del st.vars[n]
        self.parent[(f.fid, fr)] = self.parent.get((f.fid, fterm.args[1])) if fterm.args[1] else None
        for n, v in vals.items():
            st.vars[(fr, n)] = v
        self.stack.append((f, fr))
        try:
            if isinstance(f.node, ast.Lambda):
                outs = []
                for s, v in self.ev(f.node.body, st):
                    if s.sig is None:
                        s.sig, s.ret = 'ret', v
                    outs.append(s)
            else:
                hid = None
                if f.isgen:
                    hid = self.alloc(st, 'list', f.node, content=mk('seq'))
                    st.vars[(fr, '<yield>')] = hid
                outs = self.block(f.node.body, st)
                if f.isgen:
                    for o in outs:
                        if o.sig in (None, 'ret'):
                            o.sig = 'ret'
                            o.ret = mk('iseq', self.content(o, hid))
        finally:
            self.stack.pop()
            self.ctx = savedctx
        for o in outs:
            if o.sig is None:
                o.sig, o.ret = 'ret', NONE
        keep = f.hasinner
        for o in outs:
            if not keep:
                for n in [k for k in o.vars if k[0] == fr]:
                    del o.vars[n]
        outs = self.limit(outs)
        res = []
        for o in outs:
            if o.sig == 'ret':
                v = o.ret
                o.sig, o.ret = None, None
                res.append((o, v))
            else:
                res.append((o, None))
        return res


class _ModFrame(object):
    """pseudo function standing for module level code"""

    def __init__(self, mod, cls=None):
        self.mod = mod
        self.cls = cls
        self.fid = 'module:' + mod
        self.qual = mod
        self.name = '<module>'
        self.locals = set()
        self.globals_ = set()
        self.nonlocals = set()
        self.args = []


def seq_cat(a, b):
    return mk('seq', *(a.args + b.args))
