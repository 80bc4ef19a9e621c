"""Temporary replacements are undone on every path (part of C12).

A function that keeps the value of an attribute in a local variable, replaces
the attribute and puts the value back before every ordinary exit replaces it
temporarily.  It must put it back on exceptional exits as well: what it put
there instead (remembered answers, a stub) would outlive the call otherwise.
Dataflow over the statements of the function, with an exceptional edge out of
every statement that calls something while the attribute is replaced."""
import ast

from . import run as r_
from .loader import Repo

EVERYTHING = (None, 'Exception', 'BaseException')


def place(t):
    """(object expression, attribute) a target or expression denotes"""
    if isinstance(t, ast.Attribute):
        return ast.dump(t.value), t.attr
    return None


def calls(node):
    todo, out = [node], []
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await)):
            out.append(n)
        todo += list(ast.iter_child_nodes(n))
    return out


class Flow(object):
    def __init__(self, fn):
        self.saved = {}             # place -> names that hold its value
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                p = place(n.value)
                if p:
                    self.saved.setdefault(p, set()).add(n.targets[0].id)
        self.put, self.back = set(), set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    p = place(t)
                    if p in self.saved:
                        (self.back if self.restores(p, n.value) else self.put).add(p)
        self.temp = self.put & self.back

    def restores(self, p, v):
        return isinstance(v, ast.Name) and v.id in self.saved[p]

    def block(self, body, st):
        """-> (state at the end or None, [(kind, state, node)])"""
        ab = []
        for s in body:
            if st is None:
                break
            st, a = self.stmt(s, st)
            ab += a
        return st, ab

    def risk(self, e, st, ab):
        for c in calls(e) if e is not None else ():
            ab.append(('raise', st, c))

    @staticmethod
    def join(*ss):
        ss = [s for s in ss if s is not None]
        return frozenset().union(*ss) if ss else None

    def stmt(self, s, st):
        ab = []
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st, ab
        if isinstance(s, ast.Assign):
            if not any(place(t) in self.temp for t in s.targets):
                self.risk(s.value, st, ab)      # preparing a replacement is not the risk
            for t in s.targets:
                p = place(t)
                if p in self.temp:
                    st = st - {p} if self.restores(p, s.value) else st | {p}
            return st, ab
        if isinstance(s, ast.Return):
            self.risk(s.value, st, ab)
            return None, ab + [('return', st, s)]
        if isinstance(s, ast.Raise):
            return None, [('raise', st, s)]
        if isinstance(s, (ast.Break, ast.Continue)):
            return None, [('loop', st, s)]
        if isinstance(s, ast.If):
            self.risk(s.test, st, ab)
            a, x = self.block(s.body, st)
            b, y = self.block(s.orelse, st)
            return self.join(a, b), ab + x + y
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.risk(s.iter if not isinstance(s, ast.While) else s.test, st, ab)
            cur = st
            for _ in range(3):
                a, x = self.block(s.body, cur)
                cur = self.join(cur, a, *[t for k, t, _ in x if k == 'loop'])
            a, y = self.block(s.orelse, cur)
            return self.join(a, cur), ab + [e for e in x if e[0] != 'loop'] + y
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.risk(i.context_expr, st, ab)
            a, x = self.block(s.body, st)
            return a, ab + x
        if isinstance(s, ast.Try):
            a, x = self.block(s.body, st)
            exc = [e for e in x if e[0] == 'raise']
            out = [e for e in x if e[0] != 'raise']
            ends = []
            whole = False
            for h in s.handlers:
                whole = whole or getattr(h.type, 'id', 0 if h.type is not None else None) in EVERYTHING
                b, y = self.block(h.body, self.join(st, *[e[1] for e in exc]))
                ends.append(b)
                out += y
            if not whole:
                out += exc
            if a is not None and s.orelse:
                a, y = self.block(s.orelse, a)
                out += y
            a = self.join(a, *ends)
            if s.finalbody:
                fin = []
                for k, t, n in out:
                    b, y = self.block(s.finalbody, t)
                    fin += [e for e in y if e[0] != 'raise']
                    if b is not None:
                        fin.append((k, b, n))
                out = fin
                if a is not None:
                    a, y = self.block(s.finalbody, a)
                    out += y
            return a, ab + out
        self.risk(s, st, ab)
        return st, ab


class Restored(object):
    def __init__(self, modname):
        self.modname, self.name = modname, modname + ': temporary replacements'

    def decide(self, root, tier):
        repo = Repo(root)
        fs, n, seen = [], 0, 0
        for mod, cls, node, rel in repo.defs():
            if mod != self.modname:
                continue
            for fn in ast.walk(node):
                if not isinstance(fn, ast.FunctionDef):
                    continue
                if fn is not node and any(fn is q for m, c, q, _ in repo.defs()):
                    continue
                seen += 1
                f = Flow(fn)
                if not f.temp:
                    continue
                end, ab = f.block(fn.body, frozenset())
                normal = [t for k, t, _ in ab if k == 'return'] + ([end] if end is not None else [])
                for p in sorted(f.temp):
                    if any(p in t for t in normal):
                        continue        # not a temporary replacement
                    n += 1
                    bad = [x for k, t, x in ab if k == 'raise' and p in t]
                    if bad:
                        fs.append(r_.finding(
                            '%s.%s.%s' % (self.modname, fn.name, p[1]),
                            '%s:%d %s' % (rel, bad[0].lineno, fn.name),
                            'attribute %s is replaced here for a while; when this call fails it is not '
                            'put back' % p[1]))
        return r_.result(self.name, 'violated' if fs else 'holds', fs, functions=seen, replacements=n)


def restored(root):
    """the modules that keep the value of an attribute in a variable and assign the attribute"""
    out = []
    repo = Repo(root)
    for m in sorted(repo.mods):
        if '.tests' in m or '.examples' in m or m.endswith('test') or not m.startswith('fca'):
            continue
        if any(isinstance(n, ast.FunctionDef) and Flow(n).put for n in ast.walk(repo.mods[m].tree)):
            out.append(Restored(m))
    return out
