"""Net effect of operations on the caller's objects (C01, C04)."""
import os
import time

from .entries import catalogue
from .engine import Budget
from .loader import AnalysisBroken
from .decide import Model, Ev, Unknown, Undef, pc_holds
from .harness import RELS
from .terms import mk, NONE
from .models import new_set
from . import run as r_

NM = 40


# callees with obligations of their own: a coarse run takes their result as an
# arbitrary fresh set and their effect as none
MODULAR = ['fca.context.Context.' + f for f in ('aprime', 'oprime', 'aclosure', 'oclosure',
                                                'get_object_intent_by_index',
                                                'get_attribute_extent_by_index')] + [
    'fca.algorithms.closure_operators.' + f for f in ('aclosure', 'oclosure', 'simple_closure',
                                                      'lin_closure')]


def fresh_set(E, st, f, args, kw, node):
    s = mk('sopq', mk('okey', f.qual, E.where(node), *args))
    return [(st, new_set(E, st, node, s))]


def models(n=NM, lo=0):
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    for s in range(n):
        m = Model((base, 'eff', s), maxsize=3)
        m.bind = {'objs': 'G', 'atts': 'M', 'objsd': 'H', 'attsd': 'N', 'mvatts': 'V'}
        for a in 'GMLCVN':
            m.sizes[a] = lo if s < 2 else (s >= 16) + m.h('sz', a) % 3
        for k, v in (('x', 'n1'), ('y', 'n2')):
            r = m.h('nm', k) % 4
            l = ('objs', 'atts', 'mvatts')[(s + (k == 'y' and s // 3 % 2)) % 3]
            if r < 3 and m.sizes[m.bind[l]]:
                m.sets[k] = ('n', l, r % m.sizes[m.bind[l]])
            else:
                m.sets[k] = ('n', 'new', v)
        for t in ('L', 'K', 'CA', 'CO', 'u'):
            m.dn[('P', t)] = (0, 150, 400)[m.h('dP', t) % 3]
            m.dn[('Q', t)] = (150, 400, 700)[m.h('dQ', t) % 3]
        for l, a in (('i_G', 'G'), ('i_M', 'M'), ('i_L', 'L')):
            m.sets[l] = m.h(l) % max(1, m.sizes[a])
        m.sets['path'] = 'path'
        for k, l in (('u', ('objs', 'atts')), ('w', ('atts',))):
            pool = [('n', q, i) for q in l for i in range(m.sizes[m.bind[q]])] + [('n', 'new', 'u')]
            l = l[s % len(l)]
            d = m.h('dn', k) % 3
            m.sets[k] = frozenset(n for n in pool if (n[1] == l or d == 1) and
                                  m.h('in', k, n) % 4 > (d == 2))
        yield m


def envs(ev, params, st, env=None):
    env = dict(env or {})
    if not params:
        yield env
        return
    p = params[0]
    for x in ev.items(p.args[0], env, st):
        e = dict(env)
        e[p] = x
        for r in envs(ev, params[1:], st, e):
            yield r


def freeze(v):
    if isinstance(v, (list, tuple)):
        return ('l',) + tuple(freeze(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ('s', frozenset(freeze(x) for x in v))
    if isinstance(v, dict):
        return ('d', tuple(sorted(((repr(k), freeze(x)) for k, x in v.items()))))
    return v


def snap(ev, st, o, t):
    out = []
    for env in envs(ev, o.params or (), st):
        out.append(freeze(ev.contentval(t, env, st) if t.op in ('seq', 'dct') else ev.ev(t, env, st)))
    return tuple(out)


def changes(h, s, strict):
    """(oid, object before, object after, slot, before, after)"""
    for k, o0 in h.initial.heap.items():
        o1 = s.heap.get(k)
        if o1 is None or o1 is o0:
            continue
        if o1.content is not o0.content and o0.kind not in ('iter', 'gen', 'file'):
            if not strict and private_memo(h, k, o0):
                continue
            yield k, o0, o1, 'content', o0.content, o1.content
        f0, f1 = dict(o0.fields), dict(o1.fields)
        for n in sorted(set(f0) | set(f1)):
            if f0.get(n) is not f1.get(n):
                if f0.get(n, NONE) is NONE and not strict:
                    continue        # a lazily filled cache is no change
                yield k, o0, o1, n, f0.get(n), f1.get(n)


def private_memo(h, k, o0):
    """an empty dictionary in an underscore field: filling it is no change
    (what it may hold after an edit is the concern of C12)"""
    if o0.kind != 'dict' or o0.content is None or o0.content.op != 'dct' or o0.content.args:
        return False
    refs = [f for o in h.initial.heap.values() for f, v in o.fields
            if getattr(v, 'op', None) == 'R' and h.E.oid(v) == k]
    return bool(refs) and all(f.startswith('_') for f in refs)


def judge_change(E, h, s, ch, ms):
    """'differs' | 'same' | 'unknown', and the interpretation"""
    k, o0, o1, slot, a, b = ch
    unk = 0
    reach = False
    for m in ms:
        ev = Ev(E, m, RELS)
        p = pc_holds(ev, s)
        if p is False:
            continue
        if p is None:
            unk += 1
            continue
        reach = True
        if a is None or b is None:
            return 'differs', m, reach
        try:
            x, y = snap(ev, h.initial, o0, a), snap(Ev(E, m, RELS), s, o1, b)
        except (Unknown, Undef, RecursionError, TypeError):
            unk += 1
            continue
        if x != y:
            return 'differs', m, reach
    return ('unknown' if unk else 'same' if reach else 'unreached'), None, reach


def sites(h, s, k, slot):
    """source constructs that wrote the slot"""
    out = []
    for e in s.events:
        if e[0] == 'mut' and slot == 'content' and h.E.oid(e[1]) == k:
            out.append((e[3], e[2]))
        elif e[0] == 'setf' and e[2] == slot and h.E.oid(e[1]) == k:
            out.append((e[3], 'assignment to .%s' % slot))
        elif e[0] == 'delf' and e[2] == slot and h.E.oid(e[1]) == k:
            out.append((e[3], 'del .%s' % slot))
    return out


def label(h, k):
    """how the caller reaches the object"""
    todo = []
    if h.recv_ is not None:
        todo.append(('self', h.recv_))
    for i, a in enumerate(h.args_):
        todo.append(('argument %d' % (i + 1), a))
    seen = set()
    while todo:
        n, v = todo.pop(0)
        for x in (v.args if v.op in ('tup', 'U', 'ite') else (v,)):
            if getattr(x, 'op', None) != 'R':
                continue
            i = h.E.oid(x)
            if i == k:
                return n
            if i in seen:
                continue
            seen.add(i)
            o = h.initial.heap.get(i)
            if o is None:
                continue
            for f, w in o.fields:
                todo.append((n + '.' + f, w))
            if o.content is not None:
                for w in h.E.elem_values(h.initial, o.content) if o.content.op != 'dct' else \
                        [d.args[1] for d in h.E.dict_values(h.initial, o.content)]:
                    todo.append((n + '[...]', w))
    return None


class Effect(object):
    def __init__(self, entry, mode, limit=20):
        self.e, self.mode, self.limit = entry, mode, limit
        self.name = entry.name

    def run(self, root, repo=None):
        h, outs = self.e.run(root, repo=repo, pre=self.pre)
        h.recv_, h.args_ = self.e.recv, self.e.args
        return h, outs

    def pre(self, h):
        h.E.deadline = time.time() + self.limit
        if self.cap:
            h.E.cap = self.cap
            for q in MODULAR:
                h.E.stubs[q] = fresh_set

    def select(self, s):
        if self.mode == 'query':
            return True
        return s.sig == 'exc'

    def decide(self, root, tier):
        # fewer states per program point when the precise run exceeds its budget
        for self.cap in (None, 4, 2):
            try:
                h, outs = self.run(root)
                break
            except (Budget, AnalysisBroken) as x:
                err = x
        else:
            return r_.result(self.name, 'undecided', why='%s: %s' % (type(err).__name__, err))
        ms = list(models((NM if self.mode == 'query' else NM * 4) * (1 if tier == 'quick' else 4)))
        fs, nch, npath, und, unre = [], 0, 0, [], set()
        clean = any(s.sig == 'exc' and not list(changes(h, s, True)) for s, v in outs)
        for s, v in outs:
            if not self.select(s):
                continue
            npath += 1
            for ch in changes(h, s, self.mode == 'reject'):
                k, slot = ch[0], ch[3]
                who = label(h, k)
                if who is None:
                    continue
                nch += 1
                d, m, reach = judge_change(h.E, h, s, ch, ms)
                w = sites(h, s, k, slot)
                if d == 'same':
                    continue
                if d == 'unreached':
                    unre.add('%s at %s' % (s.exc.cls if s.exc else 'return', s.exc.site if s.exc else ''))
                    continue
                if d == 'unknown' and self.mode == 'reject' and w and not clean and \
                        s.exc.cls == 'KeyError' and s.exc.kind == 'implicit':
                    # a caller-supplied key is looked up only after writes, and nothing
                    # was validated before
                    reach = True
                if d == 'unknown' and not (w and (reach or self.mode == 'query')):
                    und.append('%s .%s' % (who, slot))
                    continue
                fs.append(self.report(h, s, who, slot, w, m))
        st = 'violated' if fs else 'undecided' if und else 'holds'
        return r_.result(self.name, st, fs, why='; '.join(und[:3] + ['no interpretation reaches ' + x for x in sorted(unre)][:2]), outcomes=len(outs),
                         paths=npath, unreached_paths=len(unre), objects=len(h.initial.heap), changed_slots=nch,
                         calls_inlined=len(h.E.visited))

    def report(self, h, s, who, slot, w, m):
        site = w[-1] if w else ('?', 'write')
        how = {'query': 'a query changes', 'reject': 'after raising %s (%s) there remains a change of' % (
            s.exc.cls if s.exc else '', s.exc.site if s.exc else '')}[self.mode]
        msg = '%s: %s %s%s by %s at %s' % (
            self.e.name, how, who, '' if slot == 'content' else '.' + slot, site[1], site[0])
        key = '%s|%s%s' % (self.e.name, who, '' if slot == 'content' else '.' + slot)
        return r_.finding(key, site[0], msg, path=' -> '.join('%s %s' % x[::-1] for x in w[:6]),
                          interpretation=('sizes %s' % (m.sizes,)) if m else 'may')


def queries():
    return [Effect(e, 'query') for e in catalogue() if 'query' in e.tags]


def rejected():
    return [Effect(e, 'reject') for e in catalogue() if 'edit' in e.tags]


def refused():
    return [Effect(e, 'reject') for e in catalogue() if 'explore' in e.tags]
