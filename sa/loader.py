"""Loads the repository's modules as syntax trees and resolves names the way
the import system would (lazily, star imports included)."""
import ast
import os

from .terms import mk


class AnalysisBroken(Exception):
    """the analysed tree cannot be read the way the analysis expects"""


class Fn(object):
    __slots__ = ('fid', 'node', 'mod', 'cls', 'name', 'qual', 'isgen', 'locals', 'globals_',
                 'nonlocals', 'hasinner', 'args', 'deco')

    def __repr__(self):
        return '<Fn %s>' % self.qual


class Cls(object):
    __slots__ = ('cid', 'node', 'mod', 'name', 'ns', 'outer')

    def __repr__(self):
        return '<Cls %s>' % self.cid


class Mod(object):
    __slots__ = ('name', 'path', 'tree', 'pkg', 'binds', 'rel')


def _assigned_names(target, out):
    if isinstance(target, ast.Name):
        out.append(target.id)
    elif isinstance(target, (ast.Tuple, ast.List)):
        for e in target.elts:
            _assigned_names(e, out)
    elif isinstance(target, ast.Starred):
        _assigned_names(target.value, out)


class _LocalScan(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.globals_ = set()
        self.nonlocals = set()
        self.isgen = False
        self.hasinner = False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        self.hasinner = True
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)
        self.hasinner = True

    def visit_Lambda(self, n):
        self.hasinner = True
        for d in n.args.defaults:
            self.visit(d)

    def _comp(self, n):
        # comprehension targets are local to the comprehension; we give them
        # the enclosing frame under a mangled name at evaluation time
        self.visit(n.generators[0].iter)
        for sub in ast.walk(n):
            if isinstance(sub, (ast.Lambda,)):
                self.hasinner = True
            if isinstance(sub, ast.NamedExpr):
                self.names.add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = _comp

    def visit_DictComp(self, n):
        self._comp(n)

    def visit_Yield(self, n):
        self.isgen = True
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.isgen = True
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals_.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)


PRELUDE = '<standard library>'


class Repo(object):
    def __init__(self, root='/repo', package='fca'):
        self.root = root
        self.mods = {}
        self.fns = {}          # fid -> Fn
        self.byNode = {}
        self.classes = {}      # cid -> Cls
        top = os.path.join(root, package)
        if not os.path.isdir(top):
            raise AnalysisBroken('package directory %s is missing' % top)
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            if '__pycache__' in d:
                continue
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    name = rel[:-3].replace(os.sep, '.')
                    pkg = False
                    if name.endswith('.__init__'):
                        name = name[:-9]
                        pkg = True
                    m = Mod()
                    m.name, m.path, m.pkg, m.rel = name, p, pkg, rel
                    with open(p, 'rb') as fh:
                        src = fh.read()
                    try:
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            m.tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                    m.binds = None
                    self.mods[name] = m
        m = Mod()
        m.name, m.path, m.pkg, m.rel = PRELUDE, PRELUDE, False, PRELUDE
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')) as fh:
            m.tree = ast.parse(fh.read(), PRELUDE)
        m.binds = None
        self.mods[PRELUDE] = m
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if hasattr(n, 'lineno'):
                    n.mod = m.name

    # ------------------------------------------------------------ bindings
    def binds(self, m):
        if m.binds is None:
            m.binds = {}
            self._scan(m, m.tree.body)
        return m.binds

    def _absmod(self, m, node):
        if node.level == 0:
            return node.module
        base = m.name.split('.')
        if not m.pkg:
            base = base[:-1]
        if node.level > 1:
            base = base[:len(base) - (node.level - 1)]
        if node.module:
            base = base + [node.module]
        return '.'.join(base)

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.binds[s.name] = ('def', s)
            elif isinstance(s, ast.ClassDef):
                m.binds[s.name] = ('class', s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.binds[a.asname] = ('mod', a.name)
                    else:
                        m.binds[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                src = self._absmod(m, s)
                for a in s.names:
                    if a.name == '*':
                        if src in self.mods:
                            for k in self.public(src):
                                m.binds[k] = ('from', src, k)
                    else:
                        m.binds[a.asname or a.name] = ('from', src, a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                names = []
                for t in tg:
                    _assigned_names(t, names)
                for n in names:
                    if isinstance(s, ast.AnnAssign) and s.value is None:
                        continue
                    m.binds[n] = ('assign', s)
            elif isinstance(s, ast.If):
                if self._is_main(s.test):
                    continue
                self._scan(m, s.body)
                self._scan(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(m, s.body)
                for h in s.handlers:
                    self._scan(m, h.body)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                self._scan(m, s.body)

    def _is_main(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and \
            t.left.id == '__name__'

    _pubstack = ()

    def public(self, modname):
        m = self.mods[modname]
        if modname in self._pubstack:
            return [k for k in (m.binds or {}) if not k.startswith('_')]
        self._pubstack = self._pubstack + (modname,)
        try:
            b = self.binds(m)
        finally:
            self._pubstack = self._pubstack[:-1]
        if '__all__' in b and b['__all__'][0] == 'assign':
            try:
                return [k for k in ast.literal_eval(b['__all__'][1].value)]
            except Exception:
                pass
        return [k for k in b if not k.startswith('_')]

    # ------------------------------------------------------------ functions
    def fn_of(self, node, modname, cls=None, qual=None):
        f = self.byNode.get(id(node))
        if f is None:
            f = Fn()
            f.node, f.mod, f.cls = node, modname, cls
            f.name = getattr(node, 'name', '<lambda>')
            f.qual = qual or ('%s.%s' % (cls.cid if cls else modname, f.name))
            f.fid = '%s@%d:%d' % (f.qual, node.lineno, node.col_offset)
            sc = _LocalScan()
            body = node.body if isinstance(node.body, list) else [node.body]
            for s in body:
                sc.visit(s)
            f.isgen = sc.isgen and not isinstance(node, ast.Lambda)
            f.globals_, f.nonlocals = sc.globals_, sc.nonlocals
            f.hasinner = sc.hasinner
            loc = set(sc.names)
            a = node.args
            f.args = [x.arg for x in a.posonlyargs + a.args]
            loc.update(f.args)
            loc.update(x.arg for x in a.kwonlyargs)
            if a.vararg:
                loc.add(a.vararg.arg)
            if a.kwarg:
                loc.add(a.kwarg.arg)
            f.locals = loc - f.globals_ - f.nonlocals
            f.deco = getattr(node, 'decorator_list', [])
            self.byNode[id(node)] = f
            self.fns[f.fid] = f
        return f

    def cls_of(self, node, modname, outer=None):
        c = self.byNode.get(id(node))
        if c is None:
            c = Cls()
            c.node, c.mod, c.name = node, modname, node.name
            c.cid = '%s.%s' % (modname, node.name)
            c.outer = outer
            c.ns = {}
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    c.ns[s.name] = ('def', s)
                elif isinstance(s, ast.ClassDef):
                    c.ns[s.name] = ('class', s)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                    names = []
                    for t in tg:
                        _assigned_names(t, names)
                    for n in names:
                        if isinstance(s, ast.AnnAssign) and s.value is None:
                            continue
                        c.ns[n] = ('assign', s)
            self.byNode[id(node)] = c
            self.classes[c.cid] = c
        return c

    def find_class(self, modname, name):
        """Class object reachable as modname.name, or None"""
        r = self.resolve(modname, name)
        if r is not None and r[0] == 'class':
            return self.cls_of(r[1], r[2])
        return None

    def resolve(self, modname, name, seen=()):
        """-> ('def'|'class'|'assign', node, module) | ('mod', m) | ('ext', dotted) | None"""
        if (modname, name) in seen:
            return None
        m = self.mods.get(modname)
        if m is None:
            return ('ext', '%s.%s' % (modname, name))
        b = self.binds(m).get(name)
        if b is None:
            sub = '%s.%s' % (modname, name)
            if sub in self.mods:
                return ('mod', sub)
            return None
        if b[0] in ('def', 'class', 'assign'):
            return (b[0], b[1], modname)
        if b[0] == 'mod':
            return ('mod', b[1]) if b[1] in self.mods else ('ext', b[1])
        src, nm = b[1], b[2]
        if src not in self.mods:
            return ('ext', '%s.%s' % (src, nm))
        r = self.resolve(src, nm, seen + ((modname, name),))
        if r is None and '%s.%s' % (src, nm) in self.mods:
            return ('mod', '%s.%s' % (src, nm))     # a submodule imported under its own name
        return r

    def defs(self):
        """every function definition: (module, class name or None, node, file)"""
        out = []

        def go(m, body, c):
            for n in body:
                if isinstance(n, ast.ClassDef):
                    go(m, n.body, n.name)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((m.name, c, n, m.rel))
                elif isinstance(n, (ast.If, ast.Try)):
                    if isinstance(n, ast.If) and self._is_main(n.test):
                        continue
                    go(m, n.body, c)
                    go(m, n.orelse, c)
        for k in sorted(self.mods):
            if k == PRELUDE:
                continue
            go(self.mods[k], self.mods[k].tree.body, None)
        return out
