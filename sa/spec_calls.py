"""Inner calls fit (C20): every name, attribute of the own object, method of an object of known class and
call of the package resolves to a definition that takes the arguments given."""
import ast
import array
import builtins
import collections
import csv
import inspect
import io
import logging
import random
import re
from . import run as r_
from .callgraph import Graph, own_nodes, BUILTINS

BASE = {'object': object, 'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset, 'tuple': tuple,
        'str': str, 'Exception': Exception, 'BaseException': BaseException}
for _n in dir(builtins):
    _v = getattr(builtins, _n)
    if isinstance(_v, type):
        BASE.setdefault(_n, _v)


def has_star(call):
    return any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)


def fits(fn, call, bound):
    """None if the call fits the parameters of fn, else the reason; bound: a receiver is supplied"""
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ndef = len(a.defaults)
    if bound:
        if pos:
            pos = pos[1:]
            ndef = min(ndef, len(pos))
        elif not a.vararg:
            return 'takes no receiver'
    if has_star(call):
        return None
    n = len(call.args)
    if n > len(pos) and not a.vararg:
        return 'takes %d positional arguments but %d are given' % (len(pos), n)
    given = set(pos[:n])
    kwo = [x.arg for x in a.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'gets two values for %s' % k.arg
        if k.arg not in pos and k.arg not in kwo and not a.kwarg:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    need = pos[:len(pos) - ndef]
    for p in need:
        if p not in given:
            return 'misses the argument %s' % p
    for p, d in zip(kwo, a.kw_defaults):
        if d is None and p not in given:
            return 'misses the argument %s' % p
    return None


def outermost(f):
    while f.outer is not None:
        f = f.outer
    return f


def known(g):
    out = set()
    for v in BASE.values():
        out |= set(dir(v))
    for v in (type(len), type(known), type(iter([])), type(builtins), io.TextIOWrapper, io.BytesIO, type(x for x in ()),
              csv.reader([]).__class__, re.Pattern, re.Match, logging.Logger, type, collections.Counter,
              collections.deque, collections.defaultdict, array.array, random.Random):
        out |= set(dir(v))
    out |= NUMPY
    for m in g.repo.mods.values():
        # the methods of experts and the like, which users supply, are in the examples and tests
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                for s in ast.walk(c):
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        out.add(s.name)
                    elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                        out.add(s.id)
                    elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                        out.add(s.attr)
    for f in g.funcs:
        for s in own_nodes(f.node):
            if isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                out.add(s.attr)
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'hasattr' and \
                    len(s.args) == 2 and isinstance(s.args[1], ast.Constant):
                out.add(s.args[1].value)
    return out


PLAIN = set('''numpy copy csv collections logging itertools functools operator random math sys os re array codecs ast
warnings types typing bisect heapq string io contextlib builtins time abc enum numbers'''.split())
# the attributes of numpy arrays (numpy itself is not needed to analyse)
NUMPY = set('''T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate
copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset
itemsize mT max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round
searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist
tostring trace transpose var view write'''.split())


class Info(object):
    """attributes of the classes of the package"""
    def __init__(self, g):
        self.g = g
        self.cache = {}

    def attrs(self, node, mod):
        """names an object of the class (or a subclass of it) can have; None when open-ended"""
        k = id(node)
        if k in self.cache:
            return self.cache[k]
        out = set()
        fam = list(self.g.ancestry(node, mod)[0])
        outs = list(self.g.ancestry(node, mod)[1])
        for c, m in self.g.subclasses(node):
            a, o = self.g.ancestry(c, m)
            fam += a
            outs += o
        for o in outs:
            if o in BASE:
                out |= set(dir(BASE[o]))
            else:
                self.cache[k] = None
                return None
        out |= set(dir(object)) | {'__dict__', '__class__', '__doc__', '__module__', '__name__'}
        for c, m in fam:
            for s in ast.walk(c):
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if s.name in ('__getattr__', '__getattribute__'):
                        self.cache[k] = None
                        return None
                    out.add(s.name)
                elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                    out.add(s.id)
                elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                    out.add(s.attr)
                elif isinstance(s, ast.Constant) and isinstance(s.value, str) and s.value.isidentifier():
                    pass
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == 'setattr':
                    self.cache[k] = None
                    return None
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        out.add((a.asname or a.name).split('.')[0])
        self.cache[k] = out
        return out


class Fits(object):
    def __init__(self, mod):
        self.mod = mod
        self.name = 'calls in %s' % mod

    def decide(self, root, tier):
        g = Graph(root)
        info = Info(g)
        self.g, self.info, self.fs = g, info, []
        self.known = known(g)
        # values of library types have attributes of their own
        self.closed = True
        for n in ast.walk(g.repo.mods[self.mod].tree):
            if isinstance(n, ast.Import):
                nm = [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom):
                nm = [g.repo._absmod(g.repo.mods[self.mod], n) or '']
            else:
                continue
            for x in nm:
                if x not in g.repo.mods and x.split('.')[0] not in PLAIN:
                    self.closed = False
        self.n = dict(functions=0, names=0, attributes=0, calls_checked=0, calls_open=0)
        for f in g.funcs:
            if f.mod == self.mod:
                self.n['functions'] += 1
                self.func(f)
        return r_.result(self.name, 'violated' if self.fs else 'holds', findings=self.fs, **self.n)

    def add(self, f, n, key, msg):
        k = '%s:%s' % (f.qual, key)
        if any(x['key'] == k for x in self.fs):
            return
        self.fs.append(r_.finding(k, f.where(n), '%s (%s at %s)' % (msg, f.qual, f.where(n))))

    # ------------------------------------------------------------ local types
    def types(self, f):
        """local name -> class of the package, for names that only ever hold results of one constructor"""
        g = self.g
        out, bad = {}, set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                nm = n.targets[0].id
                c = self.made(f, n.value)
                if c is None or nm in out and out[nm][0] is not c[0]:
                    bad.add(nm)
                else:
                    out[nm] = c
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                pass
        st = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                st[n.id] = st.get(n.id, 0) + 1
        one = {}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                one[n.targets[0].id] = one.get(n.targets[0].id, 0) + 1
        params = {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}
        return {k: v for k, v in out.items() if k not in bad and k not in params and st.get(k) == one.get(k)
                and k in f.locs}

    def made(self, f, e):
        if isinstance(e, ast.Call):
            r = self.g.expr(f, e.func)
            if r and r[0] == 'class':
                m = self.g.member(r[1], r[2], '__new__')
                if m is None:
                    return (r[1], r[2])
            if r and r[0] == 'ext' and r[1] in ('copy.copy', 'copy.deepcopy') and e.args:
                sn, cl, kind = self.g.selfname(f)
                if kind == 'inst' and isinstance(e.args[0], ast.Name) and e.args[0].id == sn:
                    return None
        return None

    # ------------------------------------------------------------ one function
    def func(self, f):
        g = self.g
        ty = self.types(f)
        sn, cl, kind = g.selfname(f)
        rebound = sn is not None and any(isinstance(n, ast.Name) and n.id == sn and isinstance(n.ctx, ast.Store)
                                         for n in own_nodes(f.node))
        guarded = set()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Try):
                hs = [x for h in n.handlers for x in ([h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts)]
                nm = {getattr(x, 'id', None) for x in hs}
                if nm & {None, 'AttributeError', 'NameError', 'TypeError', 'Exception', 'ImportError', 'BaseException'}:
                    for b in n.body:
                        for x in ast.walk(b):
                            guarded.add(id(x))
            elif isinstance(n, (ast.If, ast.IfExp, ast.BoolOp)):
                t = n.test if not isinstance(n, ast.BoolOp) else n
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr'
                       for x in ast.walk(t)):
                    for x in ast.walk(n):
                        guarded.add(id(x))
        compvars = set()
        for n in own_nodes(f.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in n.generators:
                    for x in ast.walk(c.target):
                        if isinstance(x, ast.Name):
                            compvars.add(x.id)
            elif isinstance(n, ast.Lambda):
                for x in ast.walk(n.args):
                    if isinstance(x, ast.arg):
                        compvars.add(x.arg)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                compvars.add(n.name)
            elif isinstance(n, ast.NamedExpr):
                compvars.add(n.target.id)
            elif isinstance(n, ast.ClassDef):
                compvars.add(n.name)
        for n in own_nodes(f.node):
            if id(n) in guarded:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.n['names'] += 1
                r = g.name(f, n.id)
                if (r is None or r[0] == 'missing') and n.id not in compvars:
                    self.add(f, n, 'name:' + n.id, 'the name %s is not defined' % n.id)
            elif isinstance(n, ast.Attribute):
                r = g.expr(f, n) if isinstance(n.ctx, ast.Load) else None
                if r is not None and r[0] == 'missing':
                    self.n['attributes'] += 1
                    self.add(f, n, 'attr:' + ast.unparse(n), '%s does not exist' % r[1])
                    continue
                c = self.receiver(f, n.value, ty, sn, cl, kind, rebound, compvars)
                if c is None and r is None and isinstance(n.ctx, ast.Load) and self.closed and \
                        g.expr(f, n.value) in (None,) + tuple([g.expr(f, n.value)] if (
                            g.expr(f, n.value) or ('x',))[0] == 'local' else ()):
                    self.n['attributes'] += 1
                    if n.attr not in self.known:
                        self.add(f, n, 'nowhere:' + ast.unparse(n)[:60], 'nothing in the package and no value of a '
                                 'built-in type has an attribute %s' % n.attr)
                if c is not None and isinstance(n.ctx, (ast.Load, ast.Del)):
                    self.n['attributes'] += 1
                    at = self.info.attrs(*c)
                    if at is not None and n.attr not in at:
                        self.add(f, n, 'attr:' + ast.unparse(n)[:60], 'an object of class %s has no %s' % (
                            c[0].name, n.attr))
            elif isinstance(n, ast.Call):
                self.call(f, n, ty, sn, cl, kind, rebound, compvars)
            elif isinstance(n, ast.Raise) and isinstance(n.exc, ast.Constant):
                self.add(f, n, 'raise', 'what is raised is not an exception')
            elif isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                r = g.expr(f, e)
                if r and r[0] == 'class':
                    a, o = g.ancestry(r[1], r[2])
                    if o == [] or all(x in BASE and not issubclass(BASE[x], BaseException) for x in o):
                        self.add(f, n, 'raise', '%s is raised but is no exception' % r[1].name)
                elif isinstance(n.exc, ast.JoinedStr) or isinstance(n.exc, ast.BinOp) and \
                        isinstance(n.exc.left, ast.Constant) or isinstance(n.exc, ast.Call) and \
                        isinstance(n.exc.func, ast.Attribute) and isinstance(n.exc.func.value, ast.Constant):
                    self.add(f, n, 'raise', 'what is raised is a text, not an exception')

    def receiver(self, f, v, ty, sn, cl, kind, rebound, compvars):
        if isinstance(v, ast.Name):
            if v.id == sn and kind == 'inst' and not rebound and v.id not in compvars and \
                    self.g.name(f, v.id) and self.g.name(f, v.id)[0] == 'local':
                return (cl, f.mod)
            if v.id in ty and v.id not in compvars:
                return ty[v.id]
        return None

    def call(self, f, n, ty, sn, cl, kind, rebound, compvars):
        g = self.g
        fn = n.func
        r, bound, what = None, False, None
        if isinstance(fn, ast.Name):
            if fn.id in compvars:
                return
            r = g.name(f, fn.id)
            what = fn.id
        elif isinstance(fn, ast.Attribute):
            what = ast.unparse(fn)[:60]
            v = fn.value
            c = self.receiver(f, v, ty, sn, cl, kind, rebound, compvars)
            if c is not None:
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == fn.attr
                       for cc, cm in g.ancestry(*c)[0] for x in ast.walk(cc)):
                    return
                cands = [(c[0], g.member(c[0], c[1], fn.attr))]
                if isinstance(v, ast.Name) and v.id == sn:
                    # objects of subclasses that inherit the calling method
                    for s, sm in g.subclasses(c[0]):
                        m = g.member(s, sm, outermost(f).node.name)
                        if m and m[1] is outermost(f).node:
                            cands.append((s, g.member(s, sm, fn.attr)))
                for s, x in cands:
                    if x is None or x[0] != 'def':
                        continue
                    self.n['calls_checked'] += 1
                    e = self.method_fits(x[1], n, True)
                    if e:
                        self.add(f, n, 'call:%s:%s' % (what, s.name), '%s of an object of class %s %s' % (
                            what, s.name, e))
                return
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cl is not None:
                par = g.ancestry(cl, f.mod)[0][1:]
                for c2, m2 in par:
                    x = g.member(c2, m2, fn.attr)
                    if x:
                        self.n['calls_checked'] += 1
                        if x[0] == 'def':
                            e = self.method_fits(x[1], n, True)
                            if e:
                                self.add(f, n, 'call:' + what, '%s %s' % (what, e))
                        return
                if par and not any(o in BASE and hasattr(BASE[o], fn.attr) for o in g.ancestry(cl, f.mod)[1]) and \
                        not hasattr(object, fn.attr) and all(o in BASE for o in g.ancestry(cl, f.mod)[1]):
                    self.add(f, n, 'call:' + what, 'no class above %s has %s' % (cl.name, fn.attr))
                return
            r = g.expr(f, fn)
            if r is not None and r[0] == 'def':
                b = g.expr(f, v)
                if b and b[0] == 'class':        # Base.method(self, ...)
                    deco = [d.id for d in r[1].decorator_list if isinstance(d, ast.Name)]
                    self.n['calls_checked'] += 1
                    e = fits(r[1], n, 'classmethod' in deco)
                    if e:
                        self.add(f, n, 'call:' + what, '%s %s' % (what, e))
                    return
        if r is None:
            self.n['calls_open'] += 1
            return
        if r[0] == 'def':
            self.n['calls_checked'] += 1
            if r[1].decorator_list:
                return
            e = fits(r[1], n, False)
            if e:
                self.add(f, n, 'call:' + what, '%s %s' % (what, e))
        elif r[0] == 'class':
            m = g.member(r[1], r[2], '__init__')
            nw = g.member(r[1], r[2], '__new__')
            self.n['calls_checked'] += 1
            if nw and nw[0] == 'def':
                e = fits(nw[1], n, True)
                if e:
                    self.add(f, n, 'call:' + what, '%s %s' % (what, e))
            if m and m[0] == 'def':
                e = fits(m[1], n, True)
                if e:
                    self.add(f, n, 'call:' + what, '%s %s' % (what, e))
            elif not m and not nw and (n.args or n.keywords) and not has_star(n):
                o = g.ancestry(r[1], r[2])[1]
                if all(x == 'object' for x in o):
                    self.add(f, n, 'call:' + what, '%s takes no arguments' % what)
        elif r[0] == 'builtin' and not has_star(n) and what == r[1]:
            v = getattr(builtins, r[1], None)
            try:
                sg = inspect.signature(v)
            except (ValueError, TypeError):
                self.n['calls_open'] += 1
                return
            self.n['calls_checked'] += 1
            try:
                sg.bind(*n.args, **{k.arg: k.value for k in n.keywords})
            except TypeError as e:
                self.add(f, n, 'call:' + what, 'the call of the built-in %s does not fit: %s' % (what, e))
        else:
            self.n['calls_open'] += 1

    def method_fits(self, fn, call, bound):
        deco = []
        for d in fn.decorator_list:
            deco.append(d.id if isinstance(d, ast.Name) else '?')
        if 'staticmethod' in deco:
            return fits(fn, call, False)
        if any(d not in ('classmethod',) for d in deco):
            return None
        return fits(fn, call, bound)


def modules(root):
    g = Graph(root)
    return [Fits(m) for m in sorted({f.mod for f in g.funcs})]
