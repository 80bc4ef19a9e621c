"""Files: what is written, and what is read from a file of that format (C15)."""
from . import terms as t_
from .cases import Case, O, A, tab
from .decide import field, Obj, Unknown, Undef
from .terms import mk, K, isk, kval, NONE, TRUE
from . import run as r_
from .engine import Budget
from .loader import AnalysisBroken
from .harness import H
from .spec_mv import fields_only, mvview, names as mvnames, V

WS = ' \t\n\r\x0b\x0c'


# ------------------------------------------------ the names of an interpretation
NAMES = {'objs': ['Ob j1', 'X', '1', 'Äöü', "O'N", 'x.', '..X', '-3'],
         'atts': ['a', 'B-2', 'X.', '0', 'naïve', '#c', 'g1', 'A'],
         'mvatts': ['m a', 'W', 'w', '#', '0', 'v.1', 'None', 'Ä']}
VALUES = [7, 'x y', 0, None, 'ß', False, 7.5, True, ' p ', '-']


def value(i, j):
    return VALUES[(i * 3 + j * 7 + i * j) % 10]


def concrete(v):
    if v[0] == 'n' and v[1] in NAMES and isinstance(v[2], int):
        return NAMES[v[1]][v[2]] if v[2] < 8 else '%s%d' % (v[1], v[2])
    if v[0] == 'v':
        return str(value(*v[1:]))
    raise Unknown('text')


def parts(v):
    """characters of a text"""
    if isinstance(v, str):
        return list(v)
    if isinstance(v, tuple) and v and v[0] == 's':
        return [c for x in v[1:] for c in parts(x)]
    if isinstance(v, tuple) and len(v) == 3:
        return list(concrete(v))
    raise Unknown('text')


def text(ps):
    return ''.join(ps)


def norm(v):
    if isinstance(v, list):
        return [norm(x) for x in v]
    return text(parts(v)) if isinstance(v, (str, tuple)) else v


def literal(s):
    """is the text that of a Python literal?  -> value, or the exception"""
    import ast
    try:
        return ast.literal_eval(s)
    except (ValueError, SyntaxError) as e:
        return type(e)


def lines(ps):
    """with their line ends"""
    out, cur = [], []
    for p in ps:
        cur.append(p)
        if p == '\n':
            out.append(cur)
            cur = []
    return out + [cur] if cur else out


def split(ps, sep):
    out = [[]]
    for p in ps:
        if p == sep:
            out.append([])
        else:
            out[-1].append(p)
    return out


def strip(ps, chars=WS, left=True, right=True):
    ps = list(ps)
    ok = lambda p: isinstance(p, str) and p in chars
    while left and ps and ok(ps[0]):
        ps.pop(0)
    while right and ps and ok(ps[-1]):
        ps.pop()
    return ps


class File(object):
    """meaning of the terms that read a file whose text is known"""
    def __init__(self, of):
        self.of = of

    def syms(self):
        return {k: getattr(self, 't_' + k) for k in ('ssy', 'oax', 'cell', 'strm', 'int', 'ext', 'val_', 'bsym')}

    def lines_of(self, ev, path):
        if path is not mk('ssy', 'path'):
            raise Unknown('another file')
        return lines(parts(self.of(ev.m)))

    def rows(self, ev, src, env, st):
        if src.op != 'csv':
            raise Unknown('csv source')
        path, at, delim = src.args
        if not isk(delim):
            raise Unknown('delimiter')
        ls = self.lines_of(ev, path)[ev.num(at, env, st):]
        return [[text(c) for c in split(strip(l, '\n', False), kval(delim))] if strip(l, '\n', False) else []
                for l in ls]

    def t_oax(self, ev, t, env, st):
        k = t.args[0]
        if k.op != 'okey':
            raise Unknown('axis')
        what = k.args[0] if isinstance(k.args[0], str) else kval(k.args[0])
        a = k.args[1:]
        if what == 'lines':
            return list(range(max(0, len(self.lines_of(ev, a[0])) - ev.num(a[1], env, st))))
        if what == 'chars':
            return list(range(len(parts(ev.ev(a[0], env, st)))))
        if what == 'split':
            return list(range(len(self.pieces(ev, a, env, st))))
        if what == 'csvrows':
            return list(range(len(self.rows(ev, a[0], env, st))))
        if what == 'csvcells':
            rs, i = self.rows(ev, a[0], env, st), ev.num(a[1], env, st)
            if not 0 <= i < len(rs):
                raise Undef('row')
            return list(range(len(rs[i])))
        raise Unknown('axis ' + str(what))

    def pieces(self, ev, a, env, st):
        if len(a) != 2 or not isk(a[1]) or not isinstance(kval(a[1]), str) or len(kval(a[1])) != 1:
            raise Unknown('split')
        return split(parts(ev.ev(a[0], env, st)), kval(a[1]))

    def at(self, xs, i):
        if not 0 <= i < len(xs):
            raise Undef('index')
        return xs[i]

    def t_ssy(self, ev, t, env, st):
        x = t.args[0]
        op = getattr(x, 'op', None)
        if op == 'line':
            ls = self.lines_of(ev, x.args[0])
            i = ev.num(x.args[1], env, st)
            return text(ls[i]) if i < len(ls) else ''
        if op == 'char':
            return text([self.at(parts(ev.ev(x.args[0], env, st)), ev.num(x.args[1], env, st))])
        if op == 'piece':
            return text(self.at(self.pieces(ev, (x.args[0], x.args[2]), env, st), ev.num(x.args[1], env, st)))
        raise Unknown('text')

    def t_cell(self, ev, t, env, st):
        src, i, c = t.args
        return self.at(self.at(self.rows(ev, src, env, st), ev.num(i, env, st)), ev.num(c, env, st))

    METHODS = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold',
               'replace', 'removeprefix', 'removesuffix', 'expandtabs', 'zfill', 'isdigit', 'isalpha', 'isalnum',
               'isupper', 'islower', 'isspace', 'startswith', 'endswith', 'isnumeric', 'isdecimal',
               'isidentifier'}

    def t_strm(self, ev, t, env, st):
        m = t.args[0] if isinstance(t.args[0], str) else kval(t.args[0])
        if m not in self.METHODS or not all(isk(x) for x in t.args[2:]):
            raise Unknown('str.' + str(m))
        return getattr(text(parts(ev.ev(t.args[1], env, st))), m)(*[kval(x) for x in t.args[2:]])

    def t_bsym(self, ev, t, env, st):
        m = kval(t.args[0])
        if m in ('literal', 'unparsable'):
            v = literal(text(parts(ev.ev(t.args[1], env, st))))
            return v is SyntaxError if m == 'unparsable' else not isinstance(v, type)
        return self.t_strm(ev, t, env, st)

    def t_int(self, ev, t, env, st):
        v = ev.ev(t.args[0], env, st)
        if isinstance(v, int):
            return int(v)
        s = text(strip(parts(v)))
        if isinstance(s, str) and s.isdigit():
            return int(s)
        raise Undef('int of a name')

    def t_ext(self, ev, t, env, st):
        n = t.args[0] if isinstance(t.args[0], str) else kval(t.args[0])
        if n == 'ast.literal_eval':
            return literal(text(parts(ev.ev(t.args[1], env, st))))
        raise Unknown(str(n))

    def t_val_(self, ev, t, env, st):
        return value(*[ev.flat(ev.ev(x, env, st)) for x in t.args])


# ----------------------------------------------------------------- formats
def joined(rows, sep, end='\n'):
    out = []
    for r in rows:
        for i, x in enumerate(r):
            out += ([sep] if i else []) + [x]
        out.append(end)
    return out


def cat(ps):
    return text([c for p in ps for c in parts(p)])


def cxt(m):
    head = 'B\n\n%d\n%d\n\n' % (m.size('G'), m.size('M'))
    return cat([head] + joined([[n] for n in O(m) + A(m)], '') + joined(
        [['X' if x else '.' for x in r] for r in tab(m)], ''))


def mvtable(m):
    return [[V(i, j) for j in range(m.size('V'))] for i in range(m.size('G'))]


def mv_txt(m):
    return cat(joined([O(m, 'objs'), O(m, 'mvatts'), []] + mvtable(m), '\t'))


def mv_csv(m):
    return cat(joined([O(m, 'mvatts')] + [[o] + r for o, r in zip(O(m, 'objs'), mvtable(m))], ','))


def csv(m):
    cell = lambda i, j, x: (('1', 'x')[m.h('cr', i, j) % 2] if x else ('0', '')[m.h('cr', i, j) % 2])
    return cat(joined([A(m)] + [[o] + [cell(i, j, x) for j, x in enumerate(r)] for i, (o, r) in enumerate(zip(O(m), tab(m)))], ','))


def txt(m):
    return cat(joined([A(m), []] + [['1' if x else '0' for x in r] for r in tab(m)], '\t'))


def txt_names(m):
    return cat(joined([A(m), []] + [[o] + ['1' if x else '0' for x in r] for o, r in zip(O(m), tab(m))], '\t'))


# ---------------------------------------------------------------- obligations
def written(ev, st, content):
    out = []
    for g in content.args if content is not None else ():
        out += segment(ev, st, g, {})
    return out


def segment(ev, st, g, env):
    if g.op == 'one':
        return [ev.ev(g.args[0], env, st)]
    if g.op == 'map':
        return [ev.ev(g.args[2], ev.b(env, g.args[1], x), st) for x in ev.items(g.args[0], env, st)]
    out = []
    if g.op == 'rep':
        for x in ev.items(g.args[0], env, st):
            e = ev.b(env, g.args[1], x)
            for w in g.args[2].args:
                if ev.bool_(w.args[0], e, st):
                    for y in w.args[1].args:
                        out += segment(ev, st, y, e)
        return out
    raise Unknown('written ' + g.op)


def files(E, st):
    return [dict(o.fields) for k, o in st.heap.items() if o.kind == 'file']


def file_view(then):
    """the text of the one file written, which has been closed"""
    def view(ev, st, r, aux):
        fs = files(ev.E, st)
        if len(fs) != 1 or fs[0]['path'] is not mk('ssy', 'path'):
            raise Unknown('files')
        f = fs[0]
        if f['closed'] is not TRUE:
            return ('file left open', f['closed'].op)
        if not isk(f['mode']) or kval(f['mode']) not in ('w', 'wt', 'x'):
            return ('mode', str(f['mode']))
        c = ev.E.obj(st, f['text']).content
        return then(cat(written(ev, st, c)))
    return view


def write(mod, fn, mv=False):
    def build(h):
        c = h.mv() if mv else h.context()
        h.settle()
        return h.fn('fca.readwrite.' + mod, fn, [c, h.path()]), {'syms': File(None).syms()}
    return build


def read(mod, fn, fmt):
    def build(h):
        h.settle()
        h.E.stubs['fca.context.Context.__init__'] = fields_only
        h.E.stubs['fca.mvcontext.ManyValuedContext.__init__'] = fields_only
        return h.fn('fca.readwrite.' + mod, fn, [h.path()]), {'syms': File(fmt).syms()}
    return build


def read_view(ev, st, r, aux):
    n, m, t = mvview(ev, st, r, None)
    return (ev.E.obj(st, r).cls.rsplit('.', 1)[-1], norm(list(n)), norm(list(m)), norm(t))


def unordered(t):
    """lines of blank-separated names, in any order"""
    return [sorted(text(x) for x in split(strip(l), ' ') if x) for l in lines(parts(t))]


def fimi(m):
    return [sorted(concrete(A(m)[j]) for j in range(m.size('M')) if r[j]) for r in tab(m)]


SZ = {'G': (0, 1, 2, 3), 'M': (0, 1, 2, 3)}
SV = {'G': (0, 1, 2, 3), 'V': (0, 1, 2, 3)}


def formats():
    out = []
    same = lambda t: t

    def add(name, build, spec, view, mv=False, lo=0, **kw):
        sz = {k: tuple(x for x in v if x >= lo) for k, v in (SV if mv else SZ).items()}
        out.append(Case(name, build, lambda m: ('value', spec(m)), view, sizes=sz,
                        prep=mvnames() if mv else None, n=6, anchor=name.rpartition('.')[2], **kw))
    for f in ('write_cxt', 'uwrite_cxt'):
        add('cxt.' + f, write('cxt', f), cxt, file_view(same))
    for f in ('write_mv_txt', 'uwrite_mv_txt'):
        add('tab_separated.' + f, write('tab_separated', f, True), mv_txt, file_view(same), True)
    add('fimi.write_fimi', write('fimi', 'write_fimi'), fimi, file_view(unordered))
    C = lambda xs: [concrete(x) for x in xs]
    lit = lambda xs: [x if isinstance(literal(x), type) else literal(x) for x in C(xs)]
    ctx = lambda m: ('Context', C(O(m)), C(A(m)), tab(m))
    mvc = lambda m: ('ManyValuedContext', C(O(m, 'objs')), C(O(m, 'mvatts')), norm(mvtable(m)))
    # names that are Python literals (numbers) are read as such
    add('cxt.read_cxt', read('cxt', 'read_cxt', cxt), lambda m: ('Context', lit(O(m)), lit(A(m)), tab(m)),
        read_view)
    add('cxt.uread_cxt', read('cxt', 'uread_cxt', cxt), ctx, read_view)
    for f in ('read_mv_txt', 'uread_mv_txt'):
        add('tab_separated.' + f, read('tab_separated', f, mv_txt), mvc, read_view, True)
    add('tab_separated.read_txt', read('tab_separated', 'read_txt', txt),
        lambda m: ('Context', ['g%d' % (i + 1) for i in range(m.size('G'))], C(A(m)), tab(m)), read_view, lo=1)
    add('tab_separated.read_txt_with_names', read('tab_separated', 'read_txt_with_names', txt_names), ctx,
        read_view, lo=1)
    add('comma_separated.read_mv_csv', read('comma_separated', 'read_mv_csv', mv_csv), mvc, read_view, True)
    add('comma_separated.read_csv', read('comma_separated', 'read_csv', csv), ctx, read_view)
    return out


class SameEncoding(object):
    """a writer and the reader of its format open the file with one encoding"""
    def __init__(self, mod, w, r):
        self.mod, self.w, self.r, self.name = mod, w, r, '%s.%s and %s agree on the encoding' % (mod, w, r)

    def encodings(self, root, fn, args):
        h = H(root=root)
        a = args(h)
        h.settle()
        h.E.stubs['fca.context.Context.__init__'] = fields_only
        h.E.stubs['fca.mvcontext.ManyValuedContext.__init__'] = fields_only
        out = set()
        for st, v in h.fn('fca.readwrite.' + self.mod, fn, a):
            for f in files(h.E, st):
                e = f['encoding']
                if e is NONE:
                    out.add(None)
                elif isk(e) and isinstance(kval(e), str):
                    out.add(kval(e).lower().replace('_', '-').replace('utf8', 'utf-8'))
                else:
                    raise AnalysisBroken('encoding %s' % e)
        return out

    def decide(self, root, tier):
        try:
            mk_ = lambda h: h.mv() if '_mv_' in self.w else h.context()
            w = self.encodings(root, self.w, lambda h: [mk_(h), h.path()])
            r = self.encodings(root, self.r, lambda h: [h.path()])
        except (Budget, AnalysisBroken) as x:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(x).__name__, x))
        if not w or not r:
            return r_.result(self.name, 'undecided', why='no file')
        if w == r and len(w) == 1:
            return r_.result(self.name, 'holds', files=2)
        return r_.result(self.name, 'violated', [r_.finding(
            self.name, '%s.%s' % (self.mod, self.w), '%s writes with encoding %s, %s reads with %s' % (
                self.w, sorted(map(str, w)), self.r, sorted(map(str, r))))])


def encodings():
    return [SameEncoding('cxt', 'write_cxt', 'read_cxt'), SameEncoding('cxt', 'uwrite_cxt', 'uread_cxt'),
            SameEncoding('tab_separated', 'write_mv_txt', 'read_mv_txt'),
            SameEncoding('tab_separated', 'uwrite_mv_txt', 'uread_mv_txt')]
