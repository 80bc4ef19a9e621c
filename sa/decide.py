"""Meaning of terms in finite interpretations.

A derived summary and its specification are compared first as normal forms; a
summary that is not syntactically the specification is only reported when some
small interpretation of the uninterpreted symbols (axis sizes, incidence,
argument sets) gives the two formulas different meanings.  Terms with
widened / unknown parts have no meaning here (`Unknown`), and are never
reported."""
import hashlib
import re

from . import terms as t_
from .terms import T, mk, K, isk, kval, NONE, TRUE, FALSE, walk


class Unknown(Exception):
    pass


class Undef(Exception):
    """the term has no value here (index out of range, name not in list)"""
    def __init__(self, why=''):
        Exception.__init__(self, why)


class Shape(Exception):
    """a value of another kind than a result of the operation has"""


class Obj(object):
    """an object of the summary, by reference and state"""
    def __init__(self, ref, st, key=None):
        self.ref, self.st = ref, st
        self.key = key if key is not None else (ref,)

    def __eq__(self, o):
        return isinstance(o, Obj) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


DENS = (30, 150, 300, 500, 500, 700, 800, 900, 970, 1000)


class Model(object):
    """one interpretation: deterministic from a seed"""
    def __init__(self, seed, sizes=None, dens=0.5, maxsize=3):
        self.seed = seed
        self.sizes = dict(sizes or {})
        self.dens = dens
        self.maxsize = maxsize
        self.sets = {}
        self.dn = {}
        self.fixed = {}
        self.bind = {}
        self.full, self.limit = False, 400000
        self.sametext = False   # names of different lists print alike
        self.generic = None     # side of the names of otherwise unconstrained sets
        self.order = None       # iteration order of sets: None (any fixed), else a seed

    def shuffle(self, tag, xs):
        """the order in which the elements of a set come, under self.order"""
        if self.order is None:
            return xs
        return sorted(xs, key=lambda x: self.h('order', self.order, tag, repr(x)))

    def h(self, *a):
        d = hashlib.md5(repr((self.seed,) + a).encode()).digest()
        return int.from_bytes(d[:6], 'big')

    def size(self, name):
        if name not in self.sizes:
            self.sizes[name] = self.h('size', name) % (self.maxsize + 1)
        return self.sizes[name]

    def rel(self, *a):
        if a in self.fixed:
            return self.fixed[a]
        if self.full:
            return True
        d = a[:2]
        if d not in self.dn:
            self.dn[d] = DENS[self.h('dens', *d) % len(DENS)]
        return (self.h('rel', *a) % 1000) < self.dn[d]


def key(v):
    """total order for mixed values"""
    return (type(v).__name__, repr(v))


class Ev(object):
    def __init__(self, E, model, rels=(), syms=None):
        self.E, self.m = E, model
        self.rels = {'I'} | set(rels)
        self.syms = syms or {}
        self.tags = {}
        self.steps = 0

    # ------------------------------------------------------------------ axes
    def items(self, ax, env, st):
        op = ax.op
        if op == 'ax':
            return list(range(self.m.size(ax.args[0])))
        if op == 'range':
            n = self.num(ax.args[0], env, st)
            return list(range(max(0, n)))
        if op == 'kax':
            return list(range(ax.args[0]))
        if op == 'setax':
            return list(range(len(self.set_(ax.args[0], env, st))))
        if op == 'filt':
            return [x for x in self.items(ax.args[0], env, st)
                    if self.bool_(ax.args[2], self.b(env, ax.args[1], x), st)]
        if op == 'rest':
            return self.items(ax.args[0], env, st)[1:]
        if op == 'revax':
            return self.items(ax.args[0], env, st)[::-1]
        if op == 'setorder':
            # 'each': sets of equal content need not come in the same order
            tag = self.axtag(ax) if self.m.order == 'each' else ''
            return self.m.shuffle(tag, self.items(ax.args[0], env, st))
        if op == 'permax':
            return self.items(ax.args[0], env, st)
        if op == 'before':
            xs = self.items(ax.args[0], env, st)
            return xs[:xs.index(self.ev(ax.args[1], env, st))]
        if op == 'slc':
            xs = self.items(ax.args[0], env, st)
            a, b = [None if x is NONE else self.num(x, env, st) for x in ax.args[1:3]]
            return xs[a:b]
        if op == 'sortax':
            base, sk, rev = ax.args
            xs = self.items(base, env, st)
            try:
                return sorted(xs, key=lambda x: self.ev(sk.args[1], self.b(env, sk.args[0], x), st),
                              reverse=bool(self.ev(rev, env, st)))
            except TypeError:
                raise Unknown('sort key')
        if op == 'flatax':
            mp = ax.args[0]
            out = []
            for x in self.items(mp.args[0], env, st):
                e = self.b(env, mp.args[1], x)
                for y in self.items(mp.args[2], e, st):
                    out.append(('pair', len(out), x, y))
            return out
        if op in self.syms:
            return self.syms[op](self, ax, env, st)
        raise Unknown('axis ' + op)

    def b(self, env, i, v):
        e = dict(env)
        e[i] = v
        return e

    # ---------------------------------------------------------------- typed
    def num(self, t, env, st):
        v = self.ev(t, env, st)
        if isinstance(v, tuple) and len(v) == 4 and v[0] == 'pair':
            return v[1]
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float)):
            raise Unknown('number')
        return v

    def set_(self, t, env, st):
        v = self.ev(t, env, st)
        if isinstance(v, frozenset):
            return v
        if isinstance(v, (tuple, list)):
            return frozenset(v)
        raise Unknown('set')

    def bool_(self, t, env, st):
        v = self.ev(t, env, st)
        if isinstance(v, bool):
            return v
        if isinstance(v, Obj):
            raise Unknown('truth of object')
        return bool(v)

    def ordered(self, s):
        return self.m.shuffle('', sorted(s, key=key))

    def axtag(self, ax):
        return self.tags.setdefault(ax, len(self.tags))

    # ----------------------------------------------------------------- terms
    def ev(self, t, env, st):
        self.steps += 1
        if self.steps > self.m.limit:
            raise Unknown('too large')
        op, a = t.op, t.args
        if op == 'k':
            return a[1]
        if op == 'ix':
            if t in env:
                return env[t]
            # the same index over a syntactically different but equal axis
            raise Unknown('free index')
        f = getattr(self, 'e_' + {'/': 'quot'}.get(op, op), None)
        if f is not None:
            return f(t, a, env, st)
        if op in self.rels:
            return self.m.rel(op, *[x if not isinstance(x, T) else self.flat(self.ev(x, env, st))
                                    for x in a])
        if op in self.syms:
            return self.syms[op](self, t, env, st)
        raise Unknown(op)

    def flat(self, v):
        if isinstance(v, tuple) and len(v) == 4 and v[0] == 'pair':
            return v[1]
        return v

    def e_and(self, t, a, env, st):
        unk = None
        for x in a:
            try:
                if not self.bool_(x, env, st):
                    return False
            except (Unknown, Undef) as e:
                unk = unk or e
        if unk is not None:
            raise unk
        return True

    def e_or(self, t, a, env, st):
        unk = None
        for x in a:
            try:
                if self.bool_(x, env, st):
                    return True
            except (Unknown, Undef) as e:
                unk = unk or e
        if unk is not None:
            raise unk
        return False

    def e_not(self, t, a, env, st):
        return not self.bool_(a[0], env, st)

    def e_forall(self, t, a, env, st):
        return all(self.bool_(a[2], self.b(env, a[1], x), st) for x in self.items(a[0], env, st))

    def e_bitop(self, t, a, env, st):
        op, x, y = kval(a[0]), self.num(a[1], env, st), self.num(a[2], env, st)
        f = {'%': lambda: x % y, '<<': lambda: x << y if y < 4096 else None, '>>': lambda: x >> y,
             '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
             '**': lambda: x ** y if abs(y) < 256 else None}.get(op)
        try:
            r = f() if f else None
        except (TypeError, ValueError, ZeroDivisionError):
            r = None
        if r is None:
            raise Unknown('arithmetic')
        return r

    def e_quot(self, t, a, env, st):
        y = self.num(a[1], env, st)
        if not y:
            raise Unknown('division by zero')
        return self.num(a[0], env, st) / y

    def e_div(self, t, a, env, st):
        y = self.num(a[1], env, st)
        if not y:
            raise Unknown('division by zero')
        return self.num(a[0], env, st) // y

    def e_survive(self, t, a, env, st):
        left = list(self.items(a[4], env, st))
        for x in self.items(a[0], env, st):
            e = self.b(env, a[1], x)
            if self.bool_(a[2], e, st):
                p = self.num(a[3], e, st)
                if not -len(left) <= p < len(left):
                    raise Unknown('deletion out of range')
                del left[p]
        return self.ev(a[5], env, st) in left

    def e_ixf(self, t, a, env, st):
        n = self.m.size(a[1].args[0])
        if not n:
            raise Unknown('index into nothing')
        return self.m.h('ixf', kval(a[0]), self.flat(self.ev(a[2], env, st))) % n

    def e_exists(self, t, a, env, st):
        return any(self.bool_(a[2], self.b(env, a[1], x), st) for x in self.items(a[0], env, st))

    def e_count(self, t, a, env, st):
        return sum(1 for x in self.items(a[0], env, st) if self.bool_(a[2], self.b(env, a[1], x), st))

    def e_wrap(self, t, a, env, st):
        n, m = self.num(a[1], env, st), kval(a[0])
        return n % m

    def e_ordk(self, t, a, env, st):
        i = self.flat(self.ev(a[1], env, st))
        return self.m.h('ordk', self.ev(a[0], env, st), i)

    def e_b2n(self, t, a, env, st):
        return int(self.bool_(a[0], env, st))

    def objeq(self, x, y):
        """equality by the class's own __eq__"""
        rs = []
        for o in (x, y):
            if isinstance(o, ObjAt):
                if not all(type(k) is int for k in o.key[1:]):
                    raise Unknown('object equality')
                rs.append(mk('R', o.key[0], *[K(k) for k in o.key[1:]]))
            else:
                rs.append(o.ref)
        q = getattr(self, '_oeq', None)
        if q is None:
            q = self._oeq = {}
        k = (x.st, tuple(rs))
        if k not in q:
            res = set()
            from .api import N0
            s0 = x.st.copy()
            s0.pc, s0.facts, s0.sig = frozenset([frozenset()]), frozenset(), None
            for s, f in self.E.getattr_(s0, rs[0], '__eq__', N0):
                for s2, v in [(s, None)] if s.sig is not None else self.E.call(s, f, [rs[1]], {}, N0):
                    p = pc_holds(self, s2)
                    if p is False:
                        continue
                    if p is None or s2.sig is not None:
                        raise Unknown('object equality')
                    res.add(bool(self.ev(v, {}, s2)))
            if len(res) != 1:
                raise Unknown('object equality')
            q[k] = res.pop()
        return q[k]

    def e_eq(self, t, a, env, st):
        x, y = self.flat(self.ev(a[0], env, st)), self.flat(self.ev(a[1], env, st))
        if isinstance(x, Obj) != isinstance(y, Obj):
            raise Unknown('comparison of an object')
        if isinstance(x, Obj):
            if x == y:
                return True
            return self.objeq(x, y)
        return x == y

    e_is = e_eq

    def e_lt(self, t, a, env, st):
        try:
            return self.num(a[0], env, st) < self.num(a[1], env, st)
        except TypeError:
            raise Unknown('order')

    def e_le(self, t, a, env, st):
        try:
            return self.num(a[0], env, st) <= self.num(a[1], env, st)
        except TypeError:
            raise Unknown('order')

    def e_len(self, t, a, env, st):
        return len(self.items(a[0], env, st))

    def e_setlen(self, t, a, env, st):
        return len(self.set_(a[0], env, st))

    def e_ite(self, t, a, env, st):
        return self.ev(a[1] if self.bool_(a[0], env, st) else a[2], env, st)

    def e_truthy(self, t, a, env, st):
        return self.bool_(a[0], env, st)

    def e_fold(self, t, a, env, st):
        o, ax, i, body, init = a
        if o != '+':
            raise Unknown('fold')
        return self.num(init, env, st) + sum(self.num(body, self.b(env, i, x), st)
                                             for x in self.items(ax, env, st))

    def e_el(self, t, a, env, st):
        i = self.num(a[1], env, st)
        return self.name(a[0], i)

    def name(self, lst, i):
        return ('n', lst, i)

    def e_idx(self, t, a, env, st):
        x = self.ev(a[1], env, st)
        if isinstance(a[0], T):
            if a[0].op == 'seqof':
                s = self.seq(a[0].args[0], env, st)
                if x in s:
                    return s.index(x)
                raise Undef('not in list')
            raise Unknown('idx')
        if isinstance(x, tuple) and len(x) == 3 and x[0] == 'n' and x[1] == a[0]:
            return x[2]
        raise Undef('not in list')

    def e_first(self, t, a, env, st):
        s = self.items(a[0], env, st)
        if not s:
            raise Undef('first of nothing')
        return s[0]

    def e_last(self, t, a, env, st):
        s = self.items(a[0], env, st)
        if not s:
            raise Undef('last of nothing')
        return s[-1]

    def e_at(self, t, a, env, st):
        s = self.items(a[0], env, st)
        p = self.num(a[1], env, st)
        if not -len(s) <= p < len(s):
            raise Undef('index')
        return s[p]

    def e_pos(self, t, a, env, st):
        s = self.items(a[0], env, st)
        x = self.ev(a[1], env, st)
        if x not in s:
            raise Undef('position')
        return s.index(x)

    def e_firstof(self, t, a, env, st):
        return self.ev(a[0], env, st)[2]

    def e_second(self, t, a, env, st):
        return self.ev(a[0], env, st)[3]

    def e_sel(self, t, a, env, st):
        s = self.ordered(self.set_(a[0], env, st))
        i = self.num(a[1], env, st)
        if not 0 <= i < len(s):
            raise Undef('sel')
        return s[i]

    def e_s0(self, t, a, env, st):
        return frozenset()

    def e_sone(self, t, a, env, st):
        return frozenset([self.hashable(self.ev(a[0], env, st))])

    def hashable(self, v):
        return tuple(v) if isinstance(v, list) else v

    def e_scomp(self, t, a, env, st):
        out = set()
        for x in self.items(a[0], env, st):
            e = self.b(env, a[1], x)
            if self.bool_(a[2], e, st):
                out.add(self.hashable(self.flat(self.ev(a[3], e, st))))
        return frozenset(out)

    def e_bigunion(self, t, a, env, st):
        out = frozenset()
        for x in self.items(a[0], env, st):
            e = self.b(env, a[1], x)
            if self.bool_(a[2], e, st):
                out |= self.set_(a[3], e, st)
        return out

    def e_biginter(self, t, a, env, st):
        raise Unknown('biginter')

    def e_union(self, t, a, env, st):
        return self.set_(a[0], env, st) | self.set_(a[1], env, st)

    def e_inter(self, t, a, env, st):
        x = a
        if a[1].op == 'biginter':
            x = (a[1], a[0])
        if x[0].op == 'biginter':
            ax, i, c, body = x[0].args
            r = self.set_(x[1], env, st)
            for v in self.items(ax, env, st):
                e = self.b(env, i, v)
                if self.bool_(c, e, st):
                    r = r & self.set_(body, e, st)
            return r
        return self.set_(a[0], env, st) & self.set_(a[1], env, st)

    def e_diff(self, t, a, env, st):
        return self.set_(a[0], env, st) - self.set_(a[1], env, st)

    def e_mem(self, t, a, env, st):
        x = self.hashable(self.flat(self.ev(a[0], env, st)))
        if a[1].op == 'names':
            return isinstance(x, tuple) and len(x) == 3 and x[:2] == ('n', a[1].args[0])
        return x in self.set_(a[1], env, st)

    def e_names(self, t, a, env, st):
        for k, l in self.m.bind.items():
            if k == a[0]:
                return frozenset(self.name(a[0], i) for i in range(self.m.size(l)))
        raise Unknown('names')

    def e_sfold(self, t, a, env, st):
        ax, i, body, init, var = a
        x = self.set_(init, env, st)
        for v in self.items(ax, env, st):
            e = self.b(env, i, v)
            e[var] = x
            x = self.set_(body, e, st)
        return x

    def e_svar(self, t, a, env, st):
        if t in env:
            return env[t]
        raise Unknown('svar')

    def e_impclo(self, t, a, env, st):
        """closure of a set under a list of implications"""
        s = set(self.set_(a[0], env, st))
        imps = [(field(self, o, '_premise'), field(self, o, '_conclusion'))
                for o in self.contentval(a[1], env, st)]
        more = True
        while more:
            more = False
            for p, q in imps:
                if set(p) <= s and not set(q) <= s:
                    s |= set(q)
                    more = True
        return frozenset(s)

    def e_nset(self, t, a, env, st):
        s = self.m.sets.get(a[0])
        if s is None and self.m.generic is not None:
            # an arbitrary set of names of the generic side
            l = self.m.generic
            ax, n = self.m.bind[l], str(a[0])
            s = frozenset(self.name(l, i) for i in range(self.m.size(ax)) if self.m.rel('gen', n, i))
        if s is None:
            raise Unknown('set ' + str(a[0]))
        return s

    def e_lv(self, t, a, env, st):
        cs = st.cands.get(t) if st is not None else None
        if self.m.generic is None or not cs or not all(
                t_.is_num(x) and not (isk(x) and isinstance(kval(x), bool)) for x in cs if x is not t):
            raise Unknown('lv')
        # an arbitrary number in the range of the positions
        return self.m.h('lv', str(t)) % (self.m.size(self.m.bind[self.m.generic]) + 1)

    def e_nsy(self, t, a, env, st):
        if a[0] in self.m.sets:
            return self.m.sets[a[0]]
        raise Unknown('name ' + str(a[0]))

    def e_isy(self, t, a, env, st):
        return self.e_nsy(t, a, env, st)

    def e_tup(self, t, a, env, st):
        return tuple(self.ev(x, env, st) for x in a)

    def e_join(self, t, a, env, st):
        sep = self.ev(a[0], env, st)
        xs = self.contentval(a[1], env, st)
        if not isinstance(xs, (list, tuple)):
            raise Unknown('joined')
        out = []
        for x in xs:
            out += [sep, x] if out else [x]
        return self.cat(out)

    def e_nop(self, t, a, env, st):
        op = a[0] if isinstance(a[0], str) else kval(a[0])
        x, y = (self.ev(b, env, st) if isinstance(b, T) else b for b in a[1:3])
        if any(not isinstance(b, int) or isinstance(b, bool) for b in (x, y)) or op not in ('+', '-', '*'):
            raise Unknown('nop')
        return x + y if op == '+' else x - y if op == '-' else x * y

    def e_strcat(self, t, a, env, st):
        return self.cat([self.ev(x, env, st) for x in a])

    def cat(self, vs):
        out = ()
        for v in vs:
            if isinstance(v, tuple) and len(v) > 1 and v[0] == 's':
                out += v[1:]
            else:
                out += (v,)
        m = []
        for v in out:
            if v == '':
                continue
            if m and isinstance(v, str) and isinstance(m[-1], str):
                m[-1] += v
            else:
                m.append(v)
        if not m:
            return ''
        if len(m) == 1 and isinstance(m[0], str):
            return m[0]
        return ('s',) + tuple(m)

    def e_fmt(self, t, a, env, st):
        f = kval(a[0]) if isinstance(a[0], T) and isk(a[0]) else a[0]
        if f in ('__str__', '__repr__'):
            v = self.ev(a[1], env, st)
            if isinstance(v, str) and f == '__str__':
                return v
            if v is None or isinstance(v, (int, float)) and not isinstance(v, bool) or \
                    isinstance(v, bool) and a[1].op in self.syms:
                return str(v)
            if f == '__str__':
                if self.m.sametext and isinstance(v, tuple) and len(v) == 3 and v[0] == 'n':
                    # different names may print alike
                    return ('s', ('n', '', v[2]))
                return ('s', v)
        elif f == 'repr set' and len(a) == 2:
            v = frozenset(self.ev(a[1], env, st))
            # equal sets of several elements may print differently
            return ('s', ('setstr', v) if len(v) < 2 else ('setstr', v, id(t)))
        elif f == 'repr dict' and len(a) == 2:
            c = self.contentval(a[1], env, st)
            if isinstance(c, dict):
                return ('s', ('dictstr', frozenset((k, self.hashable(v)) for k, v in c.items())))
        elif f == 'repr list' and len(a) == 2:
            c = self.contentval(a[1], env, st)
            if isinstance(c, (tuple, list)):
                return ('s', ('liststr', tuple(self.hashable(x) for x in c)))
        elif isinstance(f, str):
            nums = re.findall('{([0-9]+)}', f)
            if nums and nums == [str(i) for i in range(len(nums))] and '%' not in f:
                f = re.sub('{[0-9]+}', '{}', f)
            parts = re.split('%[sd]' if '%' in f else '{}', f)
            if len(parts) == len(a) and not any(c in p for p in parts for c in '%{}'):
                out = [parts[0]]
                for x, p in zip(a[1:], parts[1:]):
                    v = self.ev(x, env, st)
                    out += [str(v) if isinstance(v, int) and not isinstance(v, bool) else v, p]
                return self.cat(out)
        raise Unknown('fmt')

    def e_val(self, t, a, env, st):
        return self.contentval(a[0], env, st)

    def e_seq(self, t, a, env, st):
        return self.seq(t, env, st)

    def e_tseq(self, t, a, env, st):
        return tuple(self.seq(a[0], env, st))

    def e_iseq(self, t, a, env, st):
        return self.seq(a[0], env, st)

    def e_row(self, t, a, env, st):
        return self.seq(a[0], env, st)

    def seq(self, t, env, st):
        out = []
        for g in (t.args if t.op == 'seq' else (t,)):
            if g.op == 'one':
                out.append(self.flat(self.ev(g.args[0], env, st)))
            elif g.op == 'map':
                for x in self.items(g.args[0], env, st):
                    out.append(self.flat(self.ev(g.args[2], self.b(env, g.args[1], x), st)))
            else:
                raise Unknown('segment ' + g.op)
        return out

    def contentval(self, c, env, st):
        if c.op == 'seq':
            return self.seq(c, env, st)
        if c.op == 'dct':
            d = {}
            for e in c.args:
                if e.op == 'de':
                    d[self.hashable(self.flat(self.ev(e.args[0], env, st)))] = self.flat(
                        self.ev(e.args[1], env, st))
                elif e.op == 'dmap':
                    for x in self.items(e.args[0], env, st):
                        b = self.b(env, e.args[1], x)
                        d[self.hashable(self.flat(self.ev(e.args[2], b, st)))] = self.flat(
                            self.ev(e.args[3], b, st))
                else:
                    raise Unknown('dict')
            return d
        return self.ev(c, env, st)

    def e_oelt(self, t, a, env, st):
        if a[0].op == 'okey' and a[0].args and a[0].args[0] == 'ditem' and a[0].args[1].op == 'dct':
            d = self.contentval(a[0].args[1], env, st)
            k = self.hashable(self.flat(self.ev(a[1], env, st)))
            if k not in d:
                raise Undef('missing key')
            return d[k]
        raise Unknown('oelt')

    def e_nsum(self, t, a, env, st):
        if a[0] is K('hash') and len(a) == 2:
            # only equality of hashes means anything
            return ('hash', self.hashable(self.ev(a[1], env, st)))
        if a[0] is K('id') and len(a) == 2 and a[1].op == 'R':
            return ('id', a[1])
        raise Unknown('nsum')

    def e_R(self, t, a, env, st):
        if st is None:
            raise Unknown('reference')
        o = self.E.obj(st, t)
        if o is None:
            raise Unknown('dangling')
        if o.kind == 'inst':
            if any(x.op == 'ix' for x in a[1:]):
                if not t_.free(t):
                    return Obj(t_.subst(t, {}), st)
                return ObjAt(t, st, env, (a[0],) + tuple(
                    self.flat(self.ev(x, env, st)) for x in a[1:]))
            if any(x.op == 'isy' and x.args[0] in self.m.sets for x in a[1:]):
                return ObjAt(t, st, env, (a[0],) + tuple(
                    self.flat(self.ev(x, env, st)) for x in a[1:]))
            return Obj(t, st)
        if o.content is None or o.kind.startswith('old'):
            raise Unknown('content')
        env2 = env
        if o.params:
            env2 = dict(env)
            for p, x in zip(o.params, a[1:]):
                env2[p] = self.ev(x, env, st)
        return self.contentval(o.content, env2, st)

    def e_U(self, t, a, env, st):
        vs = []
        for x in a:
            v = self.ev(x, env, st)
            if v not in vs:
                vs.append(v)
        if len(vs) == 1:
            return vs[0]
        raise Unknown('union')

    # '+' and '*' are not identifiers
    def plus(self, a, env, st):
        return sum(self.num(x, env, st) for x in a)

    def times(self, a, env, st):
        r = 1
        for x in a:
            r *= self.num(x, env, st)
        return r


class ObjAt(Obj):
    def __init__(self, ref, st, env, key):
        Obj.__init__(self, ref, st, key)
        self.env = env


setattr(Ev, 'e_+', lambda self, t, a, env, st: self.plus(a, env, st))
setattr(Ev, 'e_*', lambda self, t, a, env, st: self.times(a, env, st))


def field(ev, o, name):
    """value of an object's field"""
    if o is None or isinstance(o, (list, tuple, frozenset, set, dict, int, str, bool, float)):
        raise Shape('%s, which has no field %s' % (type(o).__name__, name))
    v = ev.E.getf(o.st, o.ref, name)
    if v is None:
        raise Unknown('no field ' + name)
    return ev.ev(v, getattr(o, 'env', {}), o.st)


def pc_holds(ev, st, env=None):
    """does the path condition of the outcome hold? (None: unknown)"""
    unk = False
    for cube in st.pc:
        ok = True
        for l in cube:
            try:
                if not ev.bool_(l, env or {}, None if st is None else st):
                    ok = False
                    break
            except Undef:
                ok = False
                break
            except Unknown:
                ok = None
        if ok is True:
            return True
        if ok is None:
            unk = True
    return None if unk else False


# ===================================================================== views
CTX = ('_objects', '_attributes', 'np_table', 'cross_table', 'object_indices', 'attribute_indices')


def bools(t):
    return [[bool(x) for x in r] for r in t]


def context_view(ev, st, ref, env=None, fields=CTX):
    """(objects, attributes, table) of a context, with agreement of the
    redundant representations"""
    o = Obj(ref, st) if not isinstance(ref, Obj) else ref
    d = {}
    for f in fields:
        d[f] = field(ev, o, f)
    objs, atts = list(d['_objects']), list(d['_attributes'])
    tab = d['np_table']
    if any(not isinstance(r, (list, tuple)) for r in tab):
        raise Unknown('table rows')
    tab = bools(tab)
    v = {'objects': objs, 'attributes': atts, 'table': tab}
    if 'cross_table' in fields:
        c = d['cross_table']
        if any(not isinstance(r, (list, tuple)) for r in c):
            raise Unknown('rows')
        v['cross_table'] = bools(c)
    if 'object_indices' in fields:
        v['object_indices'] = dict(d['object_indices'])
        v['attribute_indices'] = dict(d['attribute_indices'])
    return v


def spec_context(objs, atts, tab, full=True):
    v = {'objects': list(objs), 'attributes': list(atts), 'table': bools(tab)}
    if full:
        v['cross_table'] = bools(tab)
        v['object_indices'] = {o: i for i, o in enumerate(objs)}
        v['attribute_indices'] = {a: i for i, a in enumerate(atts)}
    return v


class Verdict(object):
    def __init__(self):
        self.models = self.agree = self.unknown = 0
        self.witness = None
        self.why = {}

    def note(self, why):
        self.why[why] = self.why.get(why, 0) + 1

    @property
    def status(self):
        if self.witness:
            return 'violated'
        if self.agree and self.unknown * 20 <= self.models:
            return 'holds'
        return 'undecided'


def judge(E, outs, models, spec, view, rels, syms=None, some=False):
    """Compare every outcome of a summary with the specification in each
    interpretation.  A mismatch counts only when the outcome's path condition
    is known to hold there and no other outcome is possible and agrees."""
    V = Verdict()
    for m in models:
        want = spec(m)
        if want is None:
            continue
        V.models += 1
        res = []
        for st, v in outs:
            ev = Ev(E, m, rels, syms)
            h = pc_holds(ev, st)
            if h is False:
                continue
            if h is None:
                res.append(('?', 'path condition', st))
                continue
            try:
                if st.sig is not None:
                    res.append(('raise', st.exc.cls, st))
                else:
                    res.append(('value', view(ev, st, v, m), st))
            except Unknown as e:
                res.append(('?', 'value: ' + str(e), st))
            except Undef as e:
                res.append(('undef', 'undefined: ' + str(e), st))
            except Shape as e:
                res.append(('value', 'another kind of value: %s' % e, st))
        if not res and some:
            V.models -= 1       # outcomes outside the obligation
            continue
        if not res:
            V.unknown += 1
            V.note('no outcome')
            continue
        if any(r[0] != '?' and same(r, want) for r in res):
            V.agree += 1
            continue
        if any(r[0] == '?' for r in res):
            V.unknown += 1
            V.note([r[1] for r in res if r[0] == '?'][0])
            continue
        if V.witness is None:
            V.witness = (m, want, res)
        break
    return V


def same(r, want):
    if want[0] == 'raise':
        return r[0] == 'raise' and (want[1] is None or r[1] in want[1])
    if want[0] == 'any':
        return True
    return r[0] == 'value' and r[1] == want[1]
