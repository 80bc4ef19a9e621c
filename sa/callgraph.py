"""Name resolution and the call graph of the package, shared by the flow checks."""
import ast
import builtins
from .loader import Repo, PRELUDE

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__builtins__'}


class Func(object):
    """one function definition with its lexical context"""
    __slots__ = ('node', 'mod', 'cls', 'outer', 'qual', 'locs', 'globs', 'nonlocs', 'imps', 'inner', 'rel')

    def __repr__(self):
        return self.qual

    def where(self, n):
        return '%s:%d' % (self.rel, getattr(n, 'lineno', self.node.lineno))


class Graph(object):
    def __init__(self, root, skip=('.tests', '.examples')):
        self.repo = Repo(root)
        self.funcs = []
        self.byNode = {}
        self.classes = {}        # (mod, name) -> ClassDef node
        for m in sorted(self.repo.mods):
            if m == PRELUDE or any(s in m for s in skip) or m.endswith('explorationtest'):
                continue
            self._walk(m, self.repo.mods[m].tree.body, None, None)
        self._ances = {}

    def _walk(self, m, body, cls, outer):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._func(m, n, cls, outer)
            elif isinstance(n, ast.ClassDef):
                self.classes[(m, n.name)] = n
                self._walk(m, n.body, n, outer)
            else:
                if isinstance(n, ast.If) and self.repo._is_main(n.test):
                    continue
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, f, None)
                    if isinstance(b, list) and not isinstance(n, (ast.Lambda,)):
                        self._walk(m, [x for x in b if isinstance(x, ast.stmt)], cls, outer)
                for h in getattr(n, 'handlers', []):
                    self._walk(m, h.body, cls, outer)

    def _func(self, m, n, cls, outer):
        f = Func()
        f.node, f.mod, f.cls, f.outer = n, m, cls, outer
        f.rel = self.repo.mods[m].rel
        f.qual = '.'.join(x for x in [m, cls.name if cls is not None else None,
                                      outer.node.name if outer else None, n.name] if x)
        g = self.repo.fn_of(n, m, qual=f.qual)
        f.locs, f.globs, f.nonlocs = g.locals, g.globals_, g.nonlocals
        f.imps = {}
        f.inner = {}
        for x in own_nodes(n):
            if isinstance(x, ast.Import):
                for a in x.names:
                    nm = a.asname or a.name.split('.')[0]
                    full = a.name if a.asname else a.name.split('.')[0]
                    f.imps[nm] = ('mod', full) if full in self.repo.mods else ('ext', full)
            elif isinstance(x, ast.ImportFrom):
                src = self.repo._absmod(self.repo.mods[m], x)
                for a in x.names:
                    if src in self.repo.mods:
                        r = self.repo.resolve(src, a.name)
                        f.imps[a.asname or a.name] = r or ('missing', '%s.%s' % (src, a.name))
                    else:
                        f.imps[a.asname or a.name] = ('ext', '%s.%s' % (src, a.name))
        self.funcs.append(f)
        self.byNode[id(n)] = f
        self._inner(m, n.body, f)

    def _inner(self, m, body, f):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.inner[s.name] = s
                self._func(m, s, None, f)
            elif isinstance(s, ast.ClassDef):
                pass
            else:
                for k in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, k, None)
                    if isinstance(b, list):
                        self._inner(m, b, f)
                for h in getattr(s, 'handlers', []):
                    self._inner(m, h.body, f)

    # ------------------------------------------------------------ names
    def name(self, f, nm):
        """what a plain name means inside f: ('local',) ('def', node, mod) ('class', node, mod)
        ('assign', node, mod) ('mod', m) ('ext', dotted) ('builtin', nm) or None"""
        g = f
        while g is not None:
            if nm in g.imps:
                return g.imps[nm]
            if nm in g.inner:
                return ('def', g.inner[nm], g.mod)
            if nm in g.locs:
                return ('local', g)
            g = g.outer
        r = self.repo.resolve(f.mod, nm)
        if r is not None:
            return r
        if nm in BUILTINS:
            return ('builtin', nm)
        return None

    def expr(self, f, e):
        """meaning of a (dotted) name expression"""
        if isinstance(e, ast.Name):
            r = self.name(f, e.id)
            seen = 0
            while r and r[0] == 'assign' and isinstance(r[1], ast.Assign) and seen < 5 and \
                    isinstance(r[1].value, (ast.Name, ast.Attribute)):
                h = Func()
                h.node, h.mod, h.cls, h.outer, h.rel = r[1], r[2], None, None, ''
                h.locs, h.globs, h.nonlocs, h.imps, h.inner = set(), set(), set(), {}, {}
                r2 = self.expr(h, r[1].value)
                if r2 is None:
                    break
                r = r2
                seen += 1
            return r
        if isinstance(e, ast.Attribute):
            b = self.expr(f, e.value)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.repo.resolve(b[1], e.attr) or ('missing', '%s.%s' % (b[1], e.attr))
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'class':
                r = self.member(b[1], b[2], e.attr)
                return r
        return None

    # ------------------------------------------------------------ classes
    def bases(self, node, mod):
        """-> (list of (node, mod) inside the package, list of other base names)"""
        ins, outs = [], []
        h = Func()
        h.node, h.mod, h.cls, h.outer, h.rel = node, mod, None, None, ''
        h.locs, h.globs, h.nonlocs, h.imps, h.inner = set(), set(), set(), {}, {}
        for b in node.bases:
            r = self.expr(h, b)
            if r and r[0] == 'class':
                ins.append((r[1], r[2]))
            elif r and r[0] in ('builtin', 'ext'):
                outs.append(r[1])
            else:
                outs.append('?')
        return ins, outs

    def ancestry(self, node, mod):
        """linearised package classes, other bases"""
        k = id(node)
        if k in self._ances:
            return self._ances[k]
        self._ances[k] = ([(node, mod)], ['?'])
        order, outs = [(node, mod)], []
        ins, o = self.bases(node, mod)
        outs += o
        for b in ins:
            a, o2 = self.ancestry(*b)
            for x in a:
                if all(x[0] is not y[0] for y in order):
                    order.append(x)
            outs += o2
        self._ances[k] = (order, outs)
        return self._ances[k]

    def member(self, node, mod, attr):
        for c, m in self.ancestry(node, mod)[0]:
            r = None
            for s in c.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == attr:
                    r = ('def', s, m)
                elif isinstance(s, ast.ClassDef) and s.name == attr:
                    r = ('class', s, m)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id == attr:
                            r = ('assign', s, m)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and \
                        s.target.id == attr and s.value is not None:
                    r = ('assign', s, m)
            if r:
                return r
        return None

    def subclasses(self, node):
        out = []
        for (m, n), c in self.classes.items():
            if c is not node and any(x[0] is node for x in self.ancestry(c, m)[0]):
                out.append((c, m))
        return out

    def selfname(self, f):
        """the name of the receiver of a method (also inside functions nested in it)"""
        g = f
        while g is not None:
            if g.cls is not None:
                deco = [d.id for d in g.node.decorator_list if isinstance(d, ast.Name)]
                if 'staticmethod' in deco:
                    return None, None, None
                a = g.node.args.posonlyargs + g.node.args.args
                if a:
                    return a[0].arg, g.cls, ('class' if 'classmethod' in deco or g.node.name == '__new__' else 'inst')
                return None, None, None
            g = g.outer
        return None, None, None


def own_nodes(fn):
    """nodes of a function without those of functions and classes nested in it (lambdas and
    comprehensions are its own)"""
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
