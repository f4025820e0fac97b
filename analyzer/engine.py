"""Disjunctive abstract interpretation of MIR facts (no program is executed).

Values are immutable tuples.  Opaque inputs are access-path terms, so the
result of a function is expressed as provenance of its inputs: which field of
which object flows where, under which branch conditions.  Branch conditions
are finite sets of atoms (variant tests, equalities, membership, emptiness,
flags); no arithmetic or string reasoning is attempted and no solver is used.
Loops are summarised with one generic element and widened.
"""
import re, sys
from collections import defaultdict

sys.setrecursionlimit(20000)

UNIT = ('tuple', ())
UNDEF = ('undef',)
TRUE = ('bool', True)
FALSE = ('bool', False)
MAX_DEPTH = 60
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'


class AnalysisError(Exception):
    """the analysis cannot give an answer (fail closed)."""


class Budget(AnalysisError):
    pass


def S(s):
    return ('str', s)


def I(n):
    return ('int', n)


def some(v):
    return ('struct', OPT, 'Some', (('0', v),))


NONE = ('struct', OPT, 'None', ())


def ok(v):
    return ('struct', RES, 'Ok', (('0', v),))


def err(v):
    return ('struct', RES, 'Err', (('0', v),))


def vref(v):
    """shared reference to an immutable value"""
    return ('ref', ('V', v), ())


def sref(t):
    return ('ref', ('S', t), ())


CONCRETE = {'int', 'bool', 'char', 'str', 'struct', 'tuple', 'closure', 'fn', 'ref', 'list', 'map', 'iter',
            'bytes', 'boxptr', 'undef', 'fmtargs', 'arg', 'float'}


def opaque(v):
    return v[0] not in CONCRETE


_rk = {}


def rkey(v):
    r = _rk.get(v)
    if r is None:
        r = repr(v)
        if len(_rk) > 200000:
            _rk.clear()
        _rk[v] = r
    return r


def mentions(v, e):
    if v == e:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and mentions(x, e):
                return True
            if isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, tuple) and mentions(y, e):
                        return True
    return False


def subst(v, m):
    """replace sub-terms by mapping m (dict term->term)"""
    if not isinstance(v, tuple):
        if isinstance(v, frozenset):
            return frozenset(subst(x, m) for x in v)
        return v
    try:
        r = m.get(v)
    except TypeError:
        r = None
    if r is not None:
        return r
    out = None
    for i, x in enumerate(v):
        if isinstance(x, (tuple, frozenset)):
            y = subst(x, m)
            if y is not x:
                if out is None:
                    out = list(v)
                out[i] = y
    if out is None:
        return v
    t = tuple(out)
    if t and t[0] == 'list':
        return mk_list(t[1])
    if t and t[0] == 'cat':
        return mk_cat(t[1])
    if t and t[0] == 'eq':
        return mk_eq(t[1], t[2])
    return t


def size(v, m=None, lim=1 << 62):
    """number of nodes of a term, the terms of m counting as given there"""
    n = 0
    todo = [v]
    while todo and n < lim:
        x = todo.pop()
        n += 1
        if isinstance(x, tuple):
            if m and x and isinstance(x[0], str):
                try:
                    w = m.get(x)
                except TypeError:
                    w = None
                if w is not None:
                    n += w
                    continue
            todo.extend(x)
        elif isinstance(x, frozenset):
            todo.extend(x)
    return n


def mk_cat(parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if q[0] == 'str':
                if q[1] == '':
                    continue
                if out and out[-1][0] == 'str':
                    out[-1] = ('str', out[-1][1] + q[1])
                    continue
            elif q[0] == 'char':
                q = ('str', q[1])
                if out and out[-1][0] == 'str':
                    out[-1] = ('str', out[-1][1] + q[1])
                    continue
            elif q[0] == 'int':
                q = ('str', str(q[1]))
                if out and out[-1][0] == 'str':
                    out[-1] = ('str', out[-1][1] + q[1])
                    continue
            elif q[0] == 'bool':
                q = ('str', 'true' if q[1] else 'false')
                if out and out[-1][0] == 'str':
                    out[-1] = ('str', out[-1][1] + q[1])
                    continue
            out.append(q)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def is_const(v):
    return v[0] in ('int', 'bool', 'char', 'str', 'float')


def norm_rep(src, e, alts):
    """normalise a repetition segment; returns a tuple of segments"""
    alts = merge_alts(alts)
    if len(alts) == 0:
        return ()
    if len(alts) == 1 and not alts[0][0]:
        segs = alts[0][1]
        if not segs:
            return ()
        if segs == (('one', e),):
            return (('all', src),)
    if all(not a[1] for a in alts):
        return ()
    return (('rep', src, e, alts),)


def none_or_not(d1, d2):
    """{x is None} | {x is Some, not p(x)}  ->  not (x is Some and p(x))"""
    (k1, v1), = d1
    if k1[0] != 'is' or v1 != 'None':
        return None
    d = dict(d2)
    if d.get(k1) != 'Some':
        return None
    (k2, v2), = d2 - {(k1, 'Some')}
    if v2 is not False or not mentions(k2, k1[1]):
        return None
    return (('andp', k1[1], k2), False)


BINARY = (frozenset(('Some', 'None')), frozenset(('Ok', 'Err')))


def merge_dnf(dnf):
    """dnf: list of frozenset of (atom, val). Merge complementary boolean facts."""
    cur = set(dnf)
    changed = True
    while changed and len(cur) > 1:
        changed = False
        lst = sorted(cur, key=len)
        if len(lst) > 400:
            return lst
        for i in range(len(lst)):
            a = lst[i]
            for j in range(i + 1, len(lst)):
                b = lst[j]
                if a <= b:
                    cur.discard(b)
                    changed = True
                    break
                if b <= a:
                    cur.discard(a)
                    changed = True
                    break
                d1 = a - b
                d2 = b - a
                if len(d1) == 1 and len(d2) == 1:
                    (k1, v1), = d1
                    (k2, v2), = d2
                    if k1 == k2 and v1 != v2 and (isinstance(v1, bool) and isinstance(v2, bool) or k1[0] == 'is' and {v1, v2} in BINARY):
                        cur.discard(a)
                        cur.discard(b)
                        cur.add(a & b)
                        changed = True
                        break
                if len(d1) == 1 and len(d2) == 2:
                    j = none_or_not(d1, d2)
                    if j:
                        cur.discard(a)
                        cur.discard(b)
                        cur.add((a & b) | {j})
                        changed = True
                        break
                if len(d2) == 1 and len(d1) == 2:
                    j = none_or_not(d2, d1)
                    if j:
                        cur.discard(a)
                        cur.discard(b)
                        cur.add((a & b) | {j})
                        changed = True
                        break
                # absorb  (x & f) | (!x)  ->  f | !x
                if len(d1) == 1:
                    (k1, v1), = d1
                    if isinstance(v1, bool) and (k1, not v1) in b:
                        nb = b - {(k1, not v1)}
                        cur.discard(b)
                        cur.add(nb)
                        changed = True
                        break
                if len(d2) == 1:
                    (k2, v2), = d2
                    if isinstance(v2, bool) and (k2, not v2) in a:
                        na = a - {(k2, not v2)}
                        cur.discard(a)
                        cur.add(na)
                        changed = True
                        break
            if changed:
                break
    return list(cur)


def merge_alts(alts):
    """alts: iterable of (facts frozenset, segs). groups by segs, merges facts"""
    g = {}
    order = []
    for f, s in alts:
        f = frozenset(f)
        if s not in g:
            g[s] = []
            order.append(s)
        g[s].append(f)
    out = []
    for s in order:
        for f in sorted(merge_dnf(g[s]), key=lambda x: sorted(map(repr, x))):
            out.append((f, s))
    if len(out) == 1 or len({s for _, s in out}) == 1:
        # every continuing iteration contributes the same thing
        return ((frozenset(), out[0][1]),)
    return tuple(out)


def reverse_segs(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'rep':
            out.append(('rrep', s[1], s[2], tuple((f, reverse_segs(x)) for f, x in s[3])))
        elif s[0] == 'rrep':
            out.append(('rep', s[1], s[2], tuple((f, reverse_segs(x)) for f, x in s[3])))
        elif s[0] == 'all':
            out.append(('rall', s[1]))
        elif s[0] == 'rall':
            out.append(('all', s[1]))
        elif s[0] in ('part', 'rpart'):
            out.append(('rpart' if s[0] == 'part' else 'part', s[1], s[2], s[3]))
        elif s[0] == 'prev':
            out.append(('rprev',) + s[1:])
        elif s[0] == 'rprev':
            out.append(('prev',) + s[1:])
        elif s[0] == 'sorted':
            by = s[2][1] if s[2][0] == 'desc' else ('desc', s[2])
            out.append(('sorted', reverse_segs(s[1]), by))
        elif s[0] == 'one':
            out.append(s)
        else:
            raise AnalysisError('reversal of a list segment %s' % s[0])
    return tuple(out)


def mk_list(segs):
    out = []
    for s in segs:
        if s[0] == 'rep' and not s[3]:
            continue
        if s[0] == 'rep' and len(s[3]) == 1 and not s[3][0][0] and s[3][0][1] == (('one', s[2]),):
            s = ('all', s[1])
        while s[0] == 'all' and s[1][0] == 'rev' and s[1][1][0] == 'rev':
            s = ('all', s[1][1][1])
        if s[0] == 'all' and s[1][0] == 'rev':
            s = ('rall', s[1][1])
        if s[0] == 'rall' and s[1][0] == 'list':
            out.extend(reverse_segs(s[1][1]))
            continue
        if s[0] == 'all' and s[1][0] == 'list':
            out.extend(s[1][1])
            continue
        out.append(s)
    return ('list', tuple(out))


def mk_not(v):
    if v[0] == 'bool':
        return ('bool', not v[1])
    if v[0] == 'not':
        return v[1]
    return ('not', v)


def len_sum(t):
    return t[0] == 'len' or t[:2] == ('op', 'Add') and len_sum(t[2]) and len_sum(t[3])


def mk_eq(a, b):
    if a == b:
        return TRUE
    if is_const(a) and is_const(b):
        if a[0] == b[0] or {a[0], b[0]} <= {'str', 'char'}:
            return ('bool', a[1] == b[1])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'bool':
            return y if x[1] else mk_not(y)
    if a[0] == 'struct' and b[0] == 'struct':
        if a[1] == b[1]:
            if a[2] != b[2]:
                return FALSE
            return mk_and([mk_eq(x[1], y[1]) for x, y in zip(a[3], b[3])])
    if a[0] == 'tuple' and b[0] == 'tuple' and len(a[1]) == len(b[1]):
        return mk_and([mk_eq(x, y) for x, y in zip(a[1], b[1])])
    for x, y in ((a, b), (b, a)):
        if x[0] == 'struct' and opaque(y) and x[1] in (OPT, RES):
            if x[2] == 'None':
                return ('isv', y, 'None')
            return mk_and([('isv', y, x[2]), mk_eq(mk_fld(y, x[2] + '.0'), x[3][0][1])])
        if x[0] == 'list' and not x[1]:
            return mk_empty(y)
        if x == ('int', 0) and y[0] == 'len':
            return mk_empty(y[1])
        if x == ('int', 0) and y[:2] == ('op', 'Add') and len_sum(y):
            return mk_and([mk_eq(x, y[2]), mk_eq(x, y[3])])
        if x == ('str', '') and y[0] not in ('str',):
            return mk_empty(y)
    if is_const(a) or (not is_const(b) and rkey(a) > rkey(b)):
        a, b = b, a
    return ('eq', a, b)


def mk_and(xs):
    out = []
    for x in xs:
        if x == TRUE:
            continue
        if x == FALSE:
            return FALSE
        if x[0] == 'and':
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def mk_or(xs):
    return mk_not(mk_and([mk_not(x) for x in xs]))


def mk_has(src, e, facts):
    """facts: set of (atom, val) that hold of the element; -> membership atom"""
    facts = set(facts)
    # drop val facts duplicating eq facts
    if len(facts) == 1:
        (a, v), = facts
        if v is True and a[0] == 'eq':
            l, r = a[1], a[2]
            for x, y in ((l, r), (r, l)):
                if mentions(x, e) and not mentions(y, e):
                    by = subst(x, {e: ('it',)})
                    return ('has', src, ('by', by), y)
    return ('has', src, ('pred', frozenset(subst(tuple(f), {e: ('it',)}) for f in facts)), UNIT)


def mk_empty(v):
    if v[0] == 'str':
        return ('bool', v[1] == '')
    if v[0] == 'cat':
        if any(p[0] == 'str' for p in v[1]):
            return FALSE
        return mk_and([mk_empty(p) for p in v[1]])
    if v[0] in ('list', 'map'):
        parts = []
        for s in v[1]:
            if s[0] in ('one', 'ins'):
                return FALSE
            if s[0] == 'all':
                parts.append(mk_empty(s[1]))
            elif s[0] == 'rep' and any(a[1] for a in s[3]) and all(not a[1] or any(x[0] == 'one' for x in a[1]) for a in s[3]) and s[1][0] != 'while':
                # some element satisfies one of these conditions
                conds = merge_dnf([a[0] for a in s[3] if a[1]])
                if frozenset() in conds:
                    parts.append(mk_empty(s[1]))
                elif len(conds) == 1:
                    parts.append(mk_not(mk_has(s[1], s[2], conds[0])))
                else:
                    parts.append(('empty', ('list', (s,))))
            else:
                parts.append(('empty', ('list', (s,))))
        return mk_and(parts)
    return ('empty', v)


def mk_fld(v, name):
    if v[0] == 'struct':
        if '.' in name:
            var, n = name.split('.', 1)
            if v[2] == var or v[2] is None:
                name = n
            else:
                return ('bad', v, name)
        for k, x in v[3]:
            if k == name:
                return x
        return ('bad', v, name)
    if v[0] in ('tuple', 'closure'):
        items = v[1] if v[0] == 'tuple' else v[2]
        i = int(name)
        return items[i] if i < len(items) else ('bad', v, name)
    if v[0] == 'upd':
        for k, x in v[2]:
            if k == name:
                return x
        return mk_fld(v[1], name)
    if v[0] == 'boxptr':
        return v
    if v == UNDEF:
        return UNDEF
    return ('fld', v, name)


def mk_upd(base, name, val):
    if base[0] == 'struct':
        n = name.split('.', 1)[1] if '.' in name else name
        return ('struct', base[1], base[2], tuple((k, val if k == n else x) for k, x in base[3]))
    if base[0] == 'tuple':
        l = list(base[1])
        i = int(name)
        while len(l) <= i:
            l.append(UNDEF)
        l[i] = val
        return ('tuple', tuple(l))
    if base[0] == 'closure':
        l = list(base[2])
        l[int(name)] = val
        return ('closure', base[1], tuple(l))
    if base[0] == 'upd':
        d = [(k, x) for k, x in base[2] if k != name] + [(name, val)]
        return ('upd', base[1], tuple(sorted(d, key=lambda z: z[0])))
    if mk_fld(base, name) == val:
        return base
    return ('upd', base, ((name, val),))


class St:
    __slots__ = ('frames', 'glob', 'facts', 'owned', 'gown', 'fown', 'kinds')

    def __init__(self):
        self.frames = []
        self.glob = {}
        self.facts = {}
        self.owned = set()
        self.gown = True
        self.fown = True

    def fork(self):
        n = St.__new__(St)
        n.frames = list(self.frames)
        n.glob = self.glob
        n.facts = self.facts
        n.owned = set()
        n.gown = False
        n.fown = False
        self.owned = set()
        self.gown = False
        self.fown = False
        return n

    def getl(self, d, i):
        return self.frames[d].get(i, UNDEF)

    def setl(self, d, i, v):
        if d not in self.owned:
            self.frames[d] = dict(self.frames[d])
            self.owned.add(d)
        self.frames[d][i] = v

    def dell(self, d, i):
        if i in self.frames[d]:
            if d not in self.owned:
                self.frames[d] = dict(self.frames[d])
                self.owned.add(d)
            del self.frames[d][i]

    def setg(self, k, v):
        if not self.gown:
            self.glob = dict(self.glob)
            self.gown = True
        self.glob[k] = v

    def delg(self, k):
        if k in self.glob:
            if not self.gown:
                self.glob = dict(self.glob)
                self.gown = True
            del self.glob[k]

    def setf(self, k, v):
        if not self.fown:
            self.facts = dict(self.facts)
            self.fown = True
        self.facts[k] = v

    def push(self):
        self.frames.append({})
        d = len(self.frames) - 1
        self.owned.add(d)
        return d

    def pop(self):
        d = len(self.frames) - 1
        self.owned.discard(d)
        self.frames.pop()
        for k in [k for k in self.glob if k[0] == 'B' and k[1] >= d]:
            self.delg(k)

    def key(self):
        return (tuple(tuple(sorted(f.items())) for f in self.frames), frozenset(self.glob.items()))


class Fn:
    """lazily computed CFG information for one body"""

    def __init__(self, j):
        self.j = j
        self.blocks = j['blocks']
        self._loops = None
        self._live = None

    def succ(self, b):
        t = self.blocks[b]['t']
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'switch':
            return [x[1] for x in t['ts']] + [t['else']]
        if k == 'call':
            return [t['t']] if 't' in t else []
        return []

    def loops(self):
        """header -> set(blocks); and next-driven headers"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        seen = {0}
        order = []
        stack = [(0, iter(self.succ(0)))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen and self.blocks[s]:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = defaultdict(list)
        for b in rpo:
            for s in self.succ(b):
                if s in idx:
                    preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succ(b):
                if s in idx and dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        innermost = {}
        for h, body in loops.items():
            for b in body:
                if b not in innermost or len(loops[innermost[b]]) > len(body):
                    innermost[b] = h
        # the blocks that advance an iterator made outside their loop
        driven = set()
        for b, h in innermost.items():
            t = self.blocks[b]['t']
            if t['k'] == 'call' and 'f' in t and t['f']['path'] == 'std::iter::Iterator::next' and not t['f'].get('local'):
                if not self.made_in(b, loops[h]):
                    driven.add(b)
        self._loops = (loops, driven, innermost)
        return self._loops

    def made_in(self, b, body):
        """is the iterator that block b advances made inside this loop?"""
        o = self.blocks[b]['t']['a'][0]
        if o[0] not in ('c', 'm'):
            return False
        x = o[1][0]
        for _ in range(4):
            src = [r for p, r, _ in self.blocks[b]['s'] if p[0] == x and not p[1]]
            if len(src) != 1 or src[0]['k'] not in ('ref', 'use'):
                break
            if src[0]['k'] == 'ref':
                x = src[0]['p'][0]
            elif src[0]['o'][0] in ('c', 'm'):
                x = src[0]['o'][1][0]
            else:
                break
        for i in body:
            blk = self.blocks[i]
            if any(p[0] == x and not p[1] for p, r, _ in blk['s'] if i != b or r['k'] not in ('ref', 'use')):
                return True
            if blk['t']['k'] == 'call' and blk['t']['d'][0] == x and not blk['t']['d'][1]:
                return True
        return False

    def live_at(self, b):
        """locals that may be read at or after block b start, plus every borrowed local"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            dfn = [set() for _ in range(n)]
            borrowed = set()

            def pl(p, b, write):
                for e in p[1]:
                    if e[0] == 'i':
                        if e[1] not in dfn[b]:
                            use[b].add(e[1])
                if write and not p[1]:
                    dfn[b].add(p[0])
                else:
                    if p[0] not in dfn[b]:
                        use[b].add(p[0])

            def op(o, b):
                if o[0] in ('c', 'm'):
                    pl(o[1], b, False)
            for i, blk in enumerate(self.blocks):
                if not blk:
                    continue
                for p, r, _ in blk['s']:
                    k = r['k']
                    if k in ('use', 'cast', 'un', 'repeat'):
                        op(r['o'], i)
                    elif k == 'bin':
                        op(r['a'], i)
                        op(r['b'], i)
                    elif k == 'agg':
                        for o in r['fs']:
                            op(o, i)
                    elif k in ('ref', 'discr'):
                        pl(r['p'], i, False)
                        if k == 'ref' and not any(e[0] == 'd' for e in r['p'][1]):
                            borrowed.add(r['p'][0])
                    pl(p, i, True)
                t = blk['t']
                if t['k'] == 'call':
                    for o in t['a']:
                        op(o, i)
                    if 'ptr' in t:
                        op(t['ptr'], i)
                    pl(t['d'], i, True)
                elif t['k'] in ('switch', 'assert'):
                    op(t['o'], i)
                elif t['k'] == 'ret':
                    if 0 not in dfn[i]:
                        use[i].add(0)
            live = [set() for _ in range(n)]
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    if not self.blocks[i]:
                        continue
                    out = set()
                    for s in self.succ(i):
                        if self.blocks[s]:
                            out |= live[s]
                    new = use[i] | (out - dfn[i])
                    if new != live[i]:
                        live[i] = new
                        ch = True
            self._live = (live, borrowed)
        live, borrowed = self._live
        return live[b] | borrowed
