"""Files are closed on every path (C14): typestate of file objects along all paths, exceptional ones
included.

Abstract state: the set of variables that hold an open file.  A path is a sequence of statements; each
statement that can raise (any call, subscript, attribute look-up, arithmetic, unpacking, iteration)
also has an edge to the enclosing handler or out of the function.  Helpers are summarised: whether the
result is an open file, which parameters are closed, on normal return and on an exception.
"""
import ast
from . import run as r_
from .loader import Repo, AnalysisBroken

OPENERS = {'open', 'codecs.open', 'io.open', 'gzip.open', 'bz2.open', 'os.fdopen', 'tempfile.TemporaryFile',
           'tempfile.NamedTemporaryFile', 'lzma.open', 'zipfile.ZipFile'}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
HARMLESS = (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom,
            ast.FunctionDef, ast.ClassDef)


class Undecided(Exception):
    pass


def simple(e):
    """evaluating this cannot raise"""
    if e is None or isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
        return True
    if isinstance(e, (ast.Tuple, ast.List)):
        return all(simple(x) for x in e.elts)
    if isinstance(e, ast.Dict):
        return not e.keys
    if isinstance(e, ast.BoolOp):
        return all(simple(x) for x in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not) and simple(e.operand)
    if isinstance(e, ast.Compare):
        return all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and \
            all(simple(x) for x in [e.left] + e.comparators)
    if isinstance(e, ast.IfExp):
        return simple(e.test) and simple(e.body) and simple(e.orelse)
    if isinstance(e, ast.JoinedStr):
        return False
    return False


class Exits(object):
    """states at each kind of exit"""
    __slots__ = ('norm', 'exc', 'ret', 'brk', 'cnt')

    def __init__(self, norm=()):
        self.norm = set(norm)
        self.exc = set()
        self.ret = set()          # (state, the file returned or None)
        self.brk = set()
        self.cnt = set()


class Typestate(object):
    def __init__(self, repo):
        self.repo = repo
        self.sums = {}
        self.stack = []
        self.sites = {}           # (file, line) -> function
        self.paths = 0
        self.bad = {}             # key -> (where, msg)
        self.hard = []

    # ------------------------------------------------------------ names
    def dotted(self, mod, e, locs):
        if isinstance(e, ast.Name):
            if e.id in locs and e.id not in self.imps:
                return None
            if e.id in self.imps:
                return self.imps[e.id]
            r = self.repo.resolve(mod, e.id)
            if r is None:
                return e.id if e.id in BUILTINS else None
            if r[0] == 'ext':
                return r[1]
            if r[0] == 'mod':
                return 'MOD:' + r[1]
            if r[0] == 'def':
                return ('def', r[1], r[2])
            if r[0] == 'assign' and isinstance(r[1], ast.Assign):
                if isinstance(r[1].value, (ast.Name, ast.Attribute)):
                    return self.dotted(r[2], r[1].value, ())
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value, locs)
            if isinstance(b, str) and b.startswith('MOD:'):
                r = self.repo.resolve(b[4:], e.attr)
                if r is None:
                    return None
                if r[0] == 'def':
                    return ('def', r[1], r[2])
                return r[1] if r[0] == 'ext' else ('MOD:' + r[1] if r[0] == 'mod' else None)
            if isinstance(b, str):
                return b + '.' + e.attr
        return None

    # ------------------------------------------------------------ functions
    def summary(self, node, mod):
        k = id(node)
        if k in self.sums:
            return self.sums[k]
        if k in self.stack:
            return None
        self.stack.append(k)
        keep = self.__dict__.get('imps'), self.__dict__.get('mod'), self.__dict__.get('locs'), \
            self.__dict__.get('fn')
        try:
            f = self.repo.fn_of(node, mod)
            self.mod, self.locs, self.fn = mod, f.locals, node
            self.imps = {}
            for n in ast.walk(node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        nm = a.asname or a.name.split('.')[0]
                        full = a.name if a.asname else a.name.split('.')[0]
                        self.imps[nm] = ('MOD:' + full) if full in self.repo.mods else full
                elif isinstance(n, ast.ImportFrom) and n.level == 0:
                    for a in n.names:
                        if n.module not in self.repo.mods:
                            self.imps[a.asname or a.name] = '%s.%s' % (n.module, a.name)
            params = [a.arg for a in node.args.posonlyargs + node.args.args]
            init = frozenset(('param', p) for p in params)
            x = self.block(node.body, {init})
            s = dict(params=params, closes=[], gives=False, normclosed=set(), node=node, mod=mod)
            ends = [(t, None) for t in x.norm] + list(x.ret)
            for t, v in ends:
                if v is not None:
                    s['gives'] = True
            for p in params:
                if ends and all(('param', p) not in t for t, _ in ends):
                    s['normclosed'].add(p)
                    if all(('param', p) not in t for t in x.exc):
                        s['closes'].append(p)
            # a local file still open at an exit
            for kind, sts in (('returns', [t for t, _ in ends]), ('raises', x.exc)):
                for t in sts:
                    self.paths += 1
                    for r in t:
                        if r[0] == 'open':
                            self.bad.setdefault((r[2], kind, f.qual), (r, node, mod))
            self.sums[k] = s
            return s
        finally:
            self.imps, self.mod, self.locs, self.fn = keep
            self.stack.pop()

    # ------------------------------------------------------------ expressions
    def opens(self, e):
        """the call acquires a file: its site, else None"""
        if isinstance(e, ast.Call):
            d = self.dotted(self.mod, e.func, self.locs)
            if d is None and isinstance(e.func, ast.Attribute) and e.func.attr == 'enter_context':
                return None                      # the exit stack closes it
            if isinstance(d, str) and d in OPENERS or d is None and isinstance(e.func, ast.Attribute) and \
                    e.func.attr == 'open':
                return '%s:%d' % (self.repo.mods[self.mod].rel, e.lineno)
            if isinstance(d, tuple):
                s = self.summary(d[1], d[2])
                if s and s['gives']:
                    return '%s:%d' % (self.repo.mods[self.mod].rel, e.lineno)
        if isinstance(e, ast.IfExp):
            return self.opens(e.body) or self.opens(e.orelse)
        return None

    def calls(self, e, st):
        """effect of evaluating e: (state after, state if it raises)"""
        after = set(st)
        exc = set(st)
        if e is None:
            return frozenset(after), frozenset(exc)
        for n in ast.walk(e):
            if isinstance(n, (ast.Lambda,)):
                continue
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in ('close', '__exit__') and \
                        isinstance(fn.value, ast.Name):
                    for r in list(after):
                        if r[1] == fn.value.id:
                            after.discard(r)
                            exc.discard(r)       # a failing close has released the file as well
                    continue
                d = self.dotted(self.mod, fn, self.locs)
                if isinstance(d, tuple):
                    s = self.summary(d[1], d[2])
                    if s:
                        for i, a in enumerate(n.args):
                            if isinstance(a, ast.Name) and i < len(s['params']):
                                for r in list(after):
                                    if r[1] == a.id:
                                        if s['params'][i] in s['normclosed']:
                                            after.discard(r)
                                        if s['params'][i] in s['closes']:
                                            exc.discard(r)
                        for kw in n.keywords:
                            if isinstance(kw.value, ast.Name) and kw.arg in s['normclosed']:
                                for r in list(after):
                                    if r[1] == kw.value.id:
                                        after.discard(r)
                                        if kw.arg in s['closes']:
                                            exc.discard(r)
                elif isinstance(d, str) and d.split('.')[-1] in ('closing', 'enter_context', 'push', 'callback'):
                    pass
        return frozenset(after), frozenset(exc)

    def nested_opens(self, e, skip=None):
        """an open() whose result is not bound to a name: json.load(open(p))"""
        ok = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == 'close':
                    ok.add(id(n.func.value))
                elif n.func.attr == 'enter_context':
                    for a in n.args:
                        ok.add(id(a))
                        if isinstance(a, ast.Call) and self.opens(a):
                            self.sites['%s:%d' % (self.repo.mods[self.mod].rel, a.lineno)] = True
        for n in ast.walk(e):
            if n is not skip and id(n) not in ok and isinstance(n, ast.Call) and self.opens(n):
                yield n

    # ------------------------------------------------------------ statements
    def block(self, body, states):
        x = Exits(states)
        for s in body:
            if not x.norm:
                break
            y = Exits()
            for st in x.norm:
                z = self.stmt(s, st)
                for k in ('norm', 'exc', 'ret', 'brk', 'cnt'):
                    getattr(y, k).update(getattr(z, k))
            x.norm = y.norm
            for k in ('exc', 'ret', 'brk', 'cnt'):
                getattr(x, k).update(getattr(y, k))
            if len(x.norm) > 4000:
                raise Undecided('too many states')
        return x

    def ev(self, x, e, st):
        """evaluate an expression: state after; the exceptional edge goes to x"""
        a, b = self.calls(e, st)
        if not simple(e):
            x.exc.add(b)
        return a

    def acquire(self, name, site, st):
        return frozenset([r for r in st if r[1] != name] + [('open', name, site)])

    def lost(self, name, st, site):
        return [r for r in st if r[0] == 'open' and r[1] == name]

    def stmt(self, s, st):
        x = Exits()
        if isinstance(s, HARMLESS):
            if isinstance(s, ast.Break):
                x.brk.add(st)
            elif isinstance(s, ast.Continue):
                x.cnt.add(st)
            else:
                x.norm.add(st)
            return x
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = s.value
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if v is None:
                x.norm.add(st)
                return x
            site = self.opens(v)
            for n in self.nested_opens(v, skip=v if site else None):
                if site and isinstance(v, ast.IfExp):
                    continue
                self.anon(n, s)
            st = self.ev(x, v, st)
            for t in tg:
                if isinstance(t, ast.Name):
                    if site:
                        self.sites[site] = True
                        for r in self.lost(t.id, st, site):
                            self.bad.setdefault((r[2], 'replaced', t.id), (r, self.fn, self.mod))
                        st = self.acquire(t.id, site, st)
                    elif isinstance(v, ast.Name):
                        # an alias: the file moves to the new name, the old one is still good for closing
                        al = [(r[0], t.id, r[2]) if r[0] == 'open' else (r[0], t.id)
                              for r in st if r[1] == v.id and r[0] == 'open']
                        if al:
                            raise Undecided('a second name for an open file')
                        st = self.rebind(t.id, st)
                    else:
                        st = self.rebind(t.id, st)
                elif site:
                    if isinstance(t, ast.Attribute):
                        self.sites[site] = True
                        raise Undecided('an open file is kept in an attribute')
                    raise Undecided('an open file is unpacked')
                else:
                    if not isinstance(t, ast.Name) and not self.plain_target(t):
                        x.exc.add(st)
            if isinstance(s, ast.AugAssign):
                x.exc.add(st)
            x.norm.add(st)
            return x
        if isinstance(s, ast.Expr):
            for n in self.nested_opens(s.value):
                self.anon(n, s)
            x.norm.add(self.ev(x, s.value, st))
            return x
        if isinstance(s, ast.Return):
            v = s.value
            site = self.opens(v) if v is not None else None
            if site:
                self.sites[site] = True
                x.exc.add(st)
                x.ret.add((st, site))
                return x
            if v is not None:
                for n in self.nested_opens(v):
                    self.anon(n, s)
                st = self.ev(x, v, st)
            if isinstance(v, ast.Name):
                mine = [r for r in st if r[0] == 'open' and r[1] == v.id]
                if mine:
                    x.ret.add((frozenset(r for r in st if r not in mine), mine[0][2]))
                    return x
            x.ret.add((st, None))
            return x
        if isinstance(s, ast.Raise):
            st = self.ev(x, s.exc, st) if s.exc else st
            x.exc.add(st)
            return x
        if isinstance(s, ast.Assert):
            st = self.ev(x, s.test, st)
            x.exc.add(st)
            x.norm.add(st)
            return x
        if isinstance(s, ast.Delete):
            x.exc.add(st)
            x.norm.add(st)
            return x
        if isinstance(s, ast.If):
            st = self.ev(x, s.test, st)
            a, b = st, st
            t = s.test
            neg = False
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, True
            nm = None
            if isinstance(t, ast.Name):
                nm = t.id
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                    isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                nm = t.left.id
                if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                    neg = not neg
                elif not isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    nm = None
            held = nm is not None and any(r[0] == 'open' and r[1] == nm for r in st)
            for body, truth in ((s.body, not neg), (s.orelse, neg)):
                if held and not truth:
                    continue                     # an open file is true and not None
                self.into(x, self.block(body, {st}))
            return x
        if isinstance(s, (ast.For, ast.AsyncFor)):
            for n in self.nested_opens(s.iter):
                self.anon(n, s)
            st = self.ev(x, s.iter, st)
            return self.loop(x, s, st, lambda t: t, forever=False)
        if isinstance(s, ast.While):
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.loop(x, s, st, lambda t: self.ev(x, s.test, t), forever=forever)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.with_(s, st)
        if isinstance(s, ast.Try):
            return self.try_(s, st)
        raise Undecided('statement %s' % type(s).__name__)

    def plain_target(self, t):
        return isinstance(t, ast.Name)

    def rebind(self, name, st):
        for r in st:
            if r[0] == 'open' and r[1] == name:
                self.bad.setdefault((r[2], 'replaced', name), (r, self.fn, self.mod))
        return frozenset(r for r in st if r[1] != name)

    def anon(self, n, s):
        site = '%s:%d' % (self.repo.mods[self.mod].rel, n.lineno)
        self.sites[site] = True
        r = ('open', '(no name)', site)
        self.bad.setdefault((site, 'unnamed', '-'), (r, self.fn, self.mod))

    def into(self, x, y):
        for k in ('norm', 'exc', 'ret', 'brk', 'cnt'):
            getattr(x, k).update(getattr(y, k))

    def loop(self, x, s, st, test, forever):
        heads, seen, out = {st}, set(), set()
        while heads:
            h = heads.pop()
            if h in seen:
                continue
            seen.add(h)
            if len(seen) > 500:
                raise Undecided('too many states in a loop')
            h2 = test(h)
            if isinstance(s, (ast.For, ast.AsyncFor)):
                x.exc.add(h2)                    # taking the next element can raise
            if not forever:
                out.add(h2)
            y = self.block(s.body, {h2})
            heads |= y.norm | y.cnt
            out_b = y.brk
            x.norm |= out_b
            x.exc |= y.exc
            x.ret |= y.ret
        if out:
            z = self.block(s.orelse, out)
            self.into(x, z)
        return x

    def with_(self, s, st):
        x = Exits()
        managed = []
        for it in s.items:
            c = it.context_expr
            site = self.opens(c)
            close = None
            if site:
                self.sites[site] = True
                st2 = self.ev(x, c, st)
                if it.optional_vars is not None and isinstance(it.optional_vars, ast.Name):
                    st2 = self.rebind(it.optional_vars.id, st2)
                st = st2
                continue                         # closed on leaving, whatever happens
            if isinstance(c, ast.Name) and any(r[1] == c.id for r in st):
                managed.append(c.id)
                continue
            if isinstance(c, ast.Call):
                d = self.dotted(self.mod, c.func, self.locs)
                if d == 'contextlib.closing' and len(c.args) == 1:
                    a = c.args[0]
                    if self.opens(a):
                        self.sites[self.opens(a)] = True
                        continue
                    if isinstance(a, ast.Name):
                        managed.append(a.id)
                        continue
            for n in self.nested_opens(c):
                self.anon(n, s)
            st = self.ev(x, c, st)
        y = self.block(s.body, {st})
        rel = lambda t: frozenset(r for r in t if r[1] not in managed)
        x.norm |= {rel(t) for t in y.norm}
        x.exc |= {rel(t) for t in y.exc}
        x.ret |= {(rel(t), v) for t, v in y.ret}
        x.brk |= {rel(t) for t in y.brk}
        x.cnt |= {rel(t) for t in y.cnt}
        return x

    def try_(self, s, st):
        x = Exits()
        y = self.block(s.body, {st})
        z = Exits()
        # the else part
        if y.norm and s.orelse:
            e = self.block(s.orelse, y.norm)
            z.norm |= e.norm
            z.exc |= e.exc
            z.ret |= e.ret
            z.brk |= e.brk
            z.cnt |= e.cnt
        else:
            z.norm |= y.norm
        z.ret |= y.ret
        z.brk |= y.brk
        z.cnt |= y.cnt
        all_ = False
        for h in s.handlers:
            t = h.type
            if t is None or (isinstance(t, ast.Name) and t.id == 'BaseException'):
                all_ = True
            if y.exc:
                e = self.block(h.body, y.exc)
                self.into(z, e)
        if not all_:
            z.exc |= y.exc
        if not s.finalbody:
            self.into(x, z)
            return x
        for kind in ('norm', 'exc', 'brk', 'cnt'):
            sts = getattr(z, kind)
            if sts:
                f = self.block(s.finalbody, sts)
                getattr(x, kind).update(f.norm)
                x.exc |= f.exc
                x.ret |= f.ret
                if kind != 'brk':
                    x.brk |= f.brk
                else:
                    x.brk |= f.brk
                x.cnt |= f.cnt
        for t, v in z.ret:
            f = self.block(s.finalbody, {t})
            for u in f.norm:
                x.ret.add((u, v))
            x.exc |= f.exc
            x.ret |= f.ret
        return x


class Files(object):
    """all functions of one module"""
    def __init__(self, modname):
        self.mod = modname
        self.name = 'files of %s' % modname

    def decide(self, root, tier):
        repo = Repo(root)
        if self.mod not in repo.mods:
            return r_.result(self.name, 'undecided', why='no such module')
        ts = Typestate(repo)
        n, und, out = 0, [], []
        for m, c, node, rel in repo.defs():
            if m != self.mod:
                continue
            n += 1
            try:
                ts.summary(node, m)
            except Undecided as e:
                und.append('%s: %s' % (node.name, e))
        fs = []
        for (site, kind, w), (r, node, mod) in sorted(ts.bad.items(), key=lambda z: str(z[0])):
            rel = repo.mods[mod].rel
            if mod != self.mod:
                continue
            what = {'returns': 'is still open when %s returns' % node.name,
                    'raises': 'stays open when a later statement of %s raises' % node.name,
                    'replaced': 'loses its only name while open',
                    'unnamed': 'is never bound to a name that could be closed'}[kind]
            fs.append(r_.finding('%s:%s:%s' % (mod, node.name, kind), site,
                                 'the file opened at %s %s' % (site, what)))
        st = 'violated' if fs else ('undecided' if und and not ts.sites else 'holds')
        if und and not fs:
            st = 'undecided'
        return r_.result(self.name, st, findings=fs, why='; '.join(und)[:300], functions=n,
                         open_sites=len(ts.sites), exits=ts.paths)


def files(root):
    repo = Repo(root)
    out = []
    for m in sorted(repo.mods):
        if m.startswith('fca'):
            if '.tests' in m or '.examples' in m or m.endswith('test'):
                continue
            src = ast.dump(repo.mods[m].tree)
            if "'open'" in src or 'readwrite' in m:
                out.append(Files(m))
    return out
