"""C13 (reading never executes what it reads) and C17 (calls share no hidden state): reachability over
the call graph, and an escape analysis of the values that outlive a call."""
import ast
from . import run as r_
from .callgraph import Graph, own_nodes

EXEC = {'eval', 'exec', 'compile', '__import__', 'execfile'}
EXEC_EXT = ('importlib.import_module', 'runpy.', 'pickle.', 'cPickle.', '_pickle.', 'dill.', 'marshal.',
            'shelve.', 'yaml.load', 'yaml.unsafe_load', 'yaml.full_load', 'os.system', 'os.popen', 'os.exec',
            'os.spawn', 'subprocess.', 'code.', 'builtins.eval', 'builtins.exec', 'builtins.compile',
            'builtins.__import__', 'numpy.load', 'joblib.load', 'timeit.', 'ctypes.', 'commands.', 'imp.',
            'jsonpickle.', 'numpy.lib.npyio', 'numpy.safe_eval', 'doctest.', 'pdb.', 'codeop.')
GENERIC = set()
for _t in (list, dict, set, str, bytes, tuple, int, float, object, frozenset):
    GENERIC |= set(dir(_t))
GENERIC |= {'write', 'read', 'readline', 'readlines', 'close', 'flush', 'seek'}


class Reach(object):
    """one entry point of a reader"""
    def __init__(self, qual):
        self.qual = qual
        self.name = qual

    def decide(self, root, tier):
        g = Graph(root)
        start = [f for f in g.funcs if f.qual == self.qual]
        methods = {}
        for f in g.funcs:
            if f.cls is not None:
                methods.setdefault(f.node.name, []).append(f)
        seen, todo = {}, []
        for f in start:
            seen[id(f.node)] = None
            todo.append(f)
        fs, edges, refs, byname = [], 0, 0, 0
        while todo:
            f = todo.pop()

            def go(node):
                h = g.byNode.get(id(node))
                if h is not None and id(node) not in seen:
                    seen[id(node)] = f
                    todo.append(h)
            for n in own_nodes(f.node):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    go(n)
                    continue
                if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(n.ctx, ast.Load):
                    continue
                refs += 1
                r = g.expr(f, n)
                if r is not None and r[0] == 'builtin' and r[1] in EXEC or \
                        r is not None and r[0] == 'ext' and any(
                            r[1] == p or (p.endswith('.') and r[1].startswith(p)) or
                            (not p.endswith('.') and r[1].startswith(p) and '.' in p and
                             p.split('.')[0] == 'os') for p in EXEC_EXT):
                    if not constant_call(f.node, n):
                        chain, c = [], f
                        while c is not None:
                            chain.append(c.qual)
                            c = seen[id(c.node)]
                        fs.append(r_.finding('%s:%s' % (f.qual, r[1]), f.where(n),
                                             '%s, reached by %s, uses %s at %s: text that was read can be '
                                             'executed' % (f.qual, ' <- '.join(chain), r[1], f.where(n))))
                    continue
                if r is not None and r[0] == 'def':
                    edges += 1
                    go(r[1])
                elif r is not None and r[0] == 'class':
                    edges += 1
                    for nm in ('__init__', '__new__'):
                        m = g.member(r[1], r[2], nm)
                        if m and m[0] == 'def':
                            go(m[1])
                    # a class handed over (a parser's handler): its methods are called from outside
                    for s in r[1].body:
                        if isinstance(s, ast.FunctionDef):
                            go(s)
                elif isinstance(n, ast.Attribute) and r is None:
                    sn, cl, kind = g.selfname(f)
                    if isinstance(n.value, ast.Name) and n.value.id == sn:
                        m = g.member(cl, f.mod, n.attr)
                        if m and m[0] == 'def':
                            edges += 1
                            go(m[1])
                            for c, cm in g.subclasses(cl):
                                m = g.member(c, cm, n.attr)
                                if m and m[0] == 'def':
                                    go(m[1])
                            continue
                    if n.attr in methods and n.attr not in GENERIC:
                        for h in methods[n.attr]:
                            byname += 1
                            go(h.node)
        if not start:
            return r_.result(self.name, 'undecided', why='no such function')
        return r_.result(self.name, 'violated' if fs else 'holds', findings=fs, functions_reached=len(seen),
                         references=refs, call_edges=edges, edges_by_method_name=byname)


def constant_call(fn, ref):
    for n in own_nodes(fn):
        if isinstance(n, ast.Call) and n.func is ref:
            return all(isinstance(a, ast.Constant) for a in n.args) and not n.keywords
    return False


def readers(root):
    g = Graph(root)
    out = []
    for f in g.funcs:
        if f.mod.startswith('fca.readwrite') and f.outer is None and f.cls is None:
            out.append(Reach(f.qual))
    return out


# ------------------------------------------------------------------ C17
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard',
            'update', 'intersection_update', 'difference_update', 'symmetric_difference_update',
            'setdefault', 'popitem', '__setitem__', '__delitem__', '__iadd__', 'appendleft', 'popleft',
            'fill', 'resize', 'itemset', 'put'}
COPIES = {'list', 'tuple', 'set', 'dict', 'frozenset', 'sorted', 'len', 'str', 'repr', 'bool', 'sum', 'min',
          'max', 'any', 'all', 'int', 'float', 'print', 'isinstance', 'range', 'hash', 'id', 'type'}
EXT_COPIES = {'copy.copy', 'copy.deepcopy', 'numpy.array', 'operator.length_hint'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return nm in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'bytearray',
                      'array', 'zeros', 'empty', 'ones', 'WeakKeyDictionary', 'WeakValueDictionary',
                      'count', 'iter', 'cycle', 'object') and nm not in ('object',)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return mutable_expr(e.left) or mutable_expr(e.right)
    return False


class Shared(object):
    """one module: every function of it"""
    def __init__(self, mod):
        self.mod = mod
        self.name = 'state of %s' % mod

    def decide(self, root, tier):
        g = Graph(root)
        self.g = g
        self.fs = []
        self.sum = {}
        n = stores = defaults = 0
        for f in g.funcs:
            if f.mod != self.mod:
                continue
            n += 1
            self.decorators(f)
            stores += self.writes(f)
            defaults += self.default_values(f)
        self.class_state(g)
        return r_.result(self.name, 'violated' if self.fs else 'holds', findings=self.fs, functions=n,
                         writes=stores, mutable_defaults=defaults)

    def add(self, f, node, key, msg):
        self.fs.append(r_.finding('%s:%s' % (f.qual, key), f.where(node), '%s (%s at %s)' % (
            msg, f.qual, f.where(node))))

    def decorators(self, f):
        for d in f.node.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            r = self.g.expr(f, e)
            if r and r[0] == 'ext' and r[1] in CACHES and f.node.args.args:
                self.add(f, d, 'cache', 'the answers of %s are kept from one call to the next, whatever happens to '
                         'the arguments in between' % f.node.name)

    # -------------------------------------------------- writes to things that outlive the call
    def outlives(self, f, e):
        """the expression denotes a module, a class, a function, or a mutable value bound at module or class level"""
        if isinstance(e, ast.Name):
            r = self.g.name(f, e.id)
            if r is None or r[0] in ('local', 'builtin'):
                if r is not None and r[0] == 'local':
                    sn, cl, kind = self.g.selfname(f)
                    if kind == 'class' and e.id == sn:
                        return 'the class %s' % cl.name
                return None
            if r[0] == 'assign':
                v = getattr(r[1], 'value', None)
                return 'the module variable %s' % e.id if r[2].startswith('fca') else None
            if r[0] == 'def':
                return 'the function %s' % e.id if not self.local_def(f, r[1]) else None
            if r[0] == 'class':
                return 'the class %s' % e.id
            if r[0] == 'mod':
                return 'the module %s' % e.id
            return None
        if isinstance(e, ast.Attribute):
            r = self.g.expr(f, e)
            if r is not None and r[0] in ('assign', 'def', 'class', 'mod'):
                return 'the module or class variable %s' % e.attr
            b = self.outlives(f, e.value)
            if b:
                return b
            if e.attr == '__class__':
                return 'the class of an object'
            if e.attr in ('__dict__', '__defaults__', '__kwdefaults__'):
                return self.outlives(f, e.value)
            return None
        if isinstance(e, ast.Subscript):
            return self.outlives(f, e.value)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
                return 'the class of an object'
            if isinstance(e.func, ast.Name) and e.func.id == 'globals':
                return 'the module'
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('setdefault', 'get'):
                return self.outlives(f, e.func.value)
        return None

    def local_def(self, f, node):
        h = self.g.byNode.get(id(node))
        return h is not None and h.outer is not None

    def aliases(self, f):
        """local names bound to such a value: cache = _CACHE"""
        out = {}
        for _ in range(3):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    w = self.outlives(f, v) if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) else None
                    if isinstance(v, ast.Name) and v.id in out:
                        w = out[v.id]
                    if w and 'variable' in w:
                        out[n.targets[0].id] = w
        return out

    def writes(self, f):
        k = 0
        al = self.aliases(f)

        def what(e):
            w = self.outlives(f, e)
            if w:
                return w
            b = e
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id in al and self.g.name(f, b.id)[0] == 'local':
                return al[b.id]
            return None
        for n in own_nodes(f.node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = list(n.targets)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tg = [n.target]
            elif isinstance(n, ast.Delete):
                tg = list(n.targets)
            elif isinstance(n, (ast.For,)):
                tg = [n.target]
            flat = []
            while tg:
                t = tg.pop()
                if isinstance(t, (ast.Tuple, ast.List)):
                    tg = tg + t.elts
                elif isinstance(t, ast.Starred):
                    tg = tg + [t.value]
                else:
                    flat.append(t)
            for t in flat:
                k += 1
                if isinstance(t, ast.Name):
                    if t.id in f.globs:
                        self.add(f, n, 'global:' + t.id, 'assigns the module variable %s' % t.id)
                elif isinstance(t, (ast.Attribute, ast.Subscript)):
                    w = what(t.value)
                    if w:
                        self.add(f, n, 'store:' + ast.unparse(t)[:40], 'changes %s' % w)
            for t, x in kept_in(n):
                r = self.g.expr(f, x) if isinstance(x, (ast.Name, ast.Attribute)) else None
                if r and r[0] == 'assign' and r[2].startswith('fca') and self.changeable(
                        getattr(r[1], 'value', None), t.attr):
                    self.add(f, n, 'keeps:' + t.attr, 'keeps the module or class variable %s as .%s'
                             % (ast.unparse(x), t.attr))
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    k += 1
                    w = what(n.func.value)
                    if w and 'variable' in w or w and 'class' in w and isinstance(n.func.value, ast.Attribute):
                        self.add(f, n, 'mutate:' + ast.unparse(n.func)[:40], 'changes %s' % w)
                elif isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                    k += 1
                    w = what(n.args[0])
                    if w:
                        self.add(f, n, 'setattr', 'changes %s' % w)
                elif isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
                    w = what(n.args[0])
                    if w and 'variable' in w:
                        self.add(f, n, 'next', 'advances %s' % w)
            if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                v = n.value
                for x in leaves(v):
                    if isinstance(x, ast.Name) or isinstance(x, ast.Attribute):
                        r = self.g.expr(f, x)
                        if r and r[0] == 'assign' and mutable_expr(getattr(r[1], 'value', None)) and \
                                r[2].startswith('fca'):
                            self.add(f, n, 'gives:' + ast.unparse(x)[:40],
                                     'hands out the module or class variable %s, which the caller can change'
                                     % ast.unparse(x))
        return k

    def changeable(self, value, attr):
        """a container that is there to be changed: it starts empty, or the package changes fields of this name"""
        if value is None or not mutable_expr(value):
            return False
        if isinstance(value, (ast.List, ast.Set)) and not value.elts or isinstance(value, ast.Dict) and \
                not value.keys or isinstance(value, ast.Call) and not value.args and not value.keywords:
            return True
        for f in self.g.funcs:
            for n in own_nodes(f.node):
                for e in touched(n):
                    while isinstance(e, ast.Subscript):
                        e = e.value
                    if isinstance(e, ast.Attribute) and e.attr == attr:
                        return True
        return False

    # -------------------------------------------------- default values
    def default_values(self, f):
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        k = 0
        for p, d in pairs:
            r = self.g.expr(f, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
            if mutable_expr(d) or (r and r[0] == 'assign' and mutable_expr(getattr(r[1], 'value', None))):
                k += 1
                for why, n in self.kept(f, p.arg, ()):
                    self.add(f, n, 'default:' + p.arg, 'the default value of %s, made once, %s' % (p.arg, why))
        return k

    def kept(self, f, var, stack):
        """(how, node): the value of parameter var is changed or outlives the call"""
        key = (id(f.node), var)
        if key in stack or len(stack) > 6:
            return []
        if key in self.sum:
            return self.sum[key]
        names = {var}
        out = []
        for _ in range(3):
            for n in own_nodes(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in leaves(n.value)):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
        # a parameter that is replaced first: x = list(x)
        first = reassigned_first(f.node, var)
        if first:
            self.sum[key] = []
            return []
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                hit = any(isinstance(x, ast.Name) and x.id in names for x in leaves(n.value))
                for t in n.targets:
                    if hit and isinstance(t, (ast.Attribute, ast.Subscript)):
                        out.append(('is stored as %s' % ast.unparse(t)[:40], n))
                    if isinstance(t, (ast.Subscript, ast.Attribute)) and root(t) in names:
                        out.append(('is changed', n))
            elif isinstance(n, ast.AugAssign):
                t = n.target
                if root(t) in names and (not isinstance(t, ast.Name) or isinstance(n.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub))):
                    out.append(('is changed', n))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and root(t) in names:
                        out.append(('is changed', n))
            elif isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                if any(isinstance(x, ast.Name) and x.id in names for x in leaves(n.value)):
                    out.append(('is handed out', n))
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and root(fn.value) in names and \
                        self.g.expr(f, fn) is None:
                    out.append(('is changed', n))
                    continue
                if isinstance(fn, ast.Attribute) and fn.attr in ('append', 'add', 'insert', 'setdefault') and \
                        any(isinstance(x, ast.Name) and x.id in names for x in n.args):
                    out.append(('is stored', n))
                    continue
                tgt = None
                r = self.g.expr(f, fn)
                off = 0
                if r is None and isinstance(fn, ast.Attribute):
                    sn, cl, kind = self.g.selfname(f)
                    v = fn.value
                    if isinstance(v, ast.Name) and v.id == sn:
                        r, off = self.g.member(cl, f.mod, fn.attr), 1
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cl:
                        for c, m in self.g.ancestry(cl, f.mod)[0][1:]:
                            r = self.g.member(c, m, fn.attr)
                            if r:
                                break
                        off = 1
                if r and r[0] == 'class':
                    r, off = self.g.member(r[1], r[2], '__init__'), 1
                elif r and r[0] == 'def' and off == 0 and isinstance(fn, ast.Attribute):
                    off = 0
                if r and r[0] == 'def' and id(r[1]) in self.g.byNode:
                    h = self.g.byNode[id(r[1])]
                    ps = [x.arg for x in h.node.args.posonlyargs + h.node.args.args]
                    for i, x in enumerate(n.args):
                        if any(isinstance(y, ast.Name) and y.id in names for y in leaves(x)) and i + off < len(ps):
                            for why, m in self.kept(h, ps[i + off], stack + (key,)):
                                out.append(('is given to %s, where it %s' % (h.node.name, why), n))
                    for kw in n.keywords:
                        if kw.arg in ps and any(isinstance(y, ast.Name) and y.id in names for y in leaves(kw.value)):
                            for why, m in self.kept(h, kw.arg, stack + (key,)):
                                out.append(('is given to %s, where it %s' % (h.node.name, why), n))
        if not stack:
            self.sum[key] = out
        return out

    # -------------------------------------------------- class attributes
    def class_state(self, g):
        for (m, nm), c in g.classes.items():
            if m != self.mod:
                continue
            held = {}
            for s in c.body:
                if isinstance(s, ast.Assign) and mutable_expr(s.value):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            held[t.id] = s
            if not held:
                continue
            fam = [(c, m)] + g.subclasses(c)
            own = set()      # set per object in a constructor
            for cc, cm in fam + g.ancestry(c, m)[0]:
                for s in cc.body:
                    if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                        for n in s.body:
                            if isinstance(n, ast.Assign):
                                for t in n.targets:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                                        own.add(t.attr)
            for f in g.funcs:
                sn, cl, kind = g.selfname(f)
                if cl is None or not any(cl is x[0] for x in fam):
                    continue
                for n in own_nodes(f.node):
                    for e in touched(n):
                        b = e
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if isinstance(b, ast.Attribute) and b.attr in held and b.attr not in own and \
                                isinstance(b.value, ast.Name) and b.value.id == sn:
                            self.add(f, n, 'class:' + b.attr, 'changes %s.%s, which every object of the class shares'
                                     % (nm, b.attr))
                    for t, x in kept_in(n):
                        if isinstance(x, ast.Attribute) and x.attr in held and x.attr not in own and \
                                isinstance(x.value, ast.Name) and x.value.id == sn and \
                                self.changeable(held[x.attr].value, t.attr):
                            self.add(f, n, 'keeps:' + t.attr, 'keeps %s.%s, which every object of the class shares, '
                                     'as .%s' % (nm, x.attr, t.attr))
                    if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None:
                        for x in leaves(n.value):
                            if isinstance(x, ast.Attribute) and x.attr in held and x.attr not in own and \
                                    isinstance(x.value, ast.Name) and x.value.id == sn:
                                self.add(f, n, 'class:' + x.attr, 'hands out %s.%s, which every object of the class '
                                         'shares' % (nm, x.attr))


def touched(n):
    """containers changed by a node"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        yield n.func.value
    tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
    for t in tg:
        if isinstance(t, ast.Subscript):
            yield t.value
        elif isinstance(n, ast.AugAssign):
            yield t


def kept_in(n):
    """(field, value): what a node stores in fields of objects"""
    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
            if isinstance(t, ast.Attribute):
                for x in leaves(n.value) if not isinstance(n.value, ast.Tuple) else []:
                    yield t, x


def leaves(e):
    """expressions whose value may be the value of e itself"""
    if isinstance(e, ast.IfExp):
        return leaves(e.body) + leaves(e.orelse)
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in leaves(v)]
    if isinstance(e, (ast.Tuple,)):
        return [x for v in e.elts for x in leaves(v)]
    if isinstance(e, ast.NamedExpr):
        return leaves(e.value)
    return [e]


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def reassigned_first(fn, var):
    """the first statement that mentions var replaces it by a copy"""
    for s in fn.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        uses = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == var]
        if not uses:
            continue
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == var for t in s.targets):
            return not any(isinstance(x, ast.Name) and x.id == var for x in leaves(s.value))
        return False
    return False


def modules(root):
    g = Graph(root)
    mods = sorted({f.mod for f in g.funcs})
    return [Shared(m) for m in mods]
