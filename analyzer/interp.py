"""The interpreter proper: frames, branching, calls, loop summaries."""
import re
from engine import *
import engine as E


def norm_path(p):
    """strip generic arguments from a def path:  Vec::<T, A>::push -> Vec::push"""
    out = []
    depth = 0
    i = 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            # generic args
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


COMPL = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok', 'Continue': 'Break', 'Break': 'Continue'}


class Program:
    def __init__(self, facts):
        self.facts = facts
        self.types = facts['types']
        self.fns = facts['fns']
        self.adts = {}
        for a in facts['adts']:
            self.adts[a['path']] = a
        self._fn = {}
        self.by_path = defaultdict(list)
        for i, f in enumerate(self.fns):
            self.by_path[norm_path(f['path'])].append(i)
        self._np = {}

    def np(self, p):
        r = self._np.get(p)
        if r is None:
            r = self._np[p] = norm_path(p)
        return r

    def fn(self, i):
        if i not in self._fn:
            self._fn[i] = Fn(self.fns[i])
        return self._fn[i]

    def find(self, path, kind='fn'):
        """the unique non-generic body with this def path"""
        c = [i for i in self.by_path.get(path, []) if self.fns[i]['kind'] == kind]
        if len(c) != 1:
            raise AnalysisError('anchor not found or not unique: %s (%d)' % (path, len(c)))
        return c[0]

    def tyname(self, t):
        return self.types[t]['s']

    def peel_ty(self, t):
        while self.types[t]['k'] == 'ref':
            t = self.types[t]['inner']
        return t

    def adt_of(self, t):
        ty = self.types[t]
        if ty['k'] == 'adt':
            return self.adts.get(ty['path'])
        return None


class Outcome(tuple):
    pass


def bool_cast(prog, fn, rv):
    """a truth value turned into a number"""
    if rv['k'] != 'cast' or rv['ck'] != 'IntToInt' or rv['o'][0] not in ('c', 'm') or rv['o'][1][1]:
        return False
    return prog.types[fn.j['locals'][rv['o'][1][0]]]['k'] == 'bool'


class Engine:
    def __init__(self, prog, opaque_fns=(), effects=None, max_steps=400000, no_inline=(), log_print=False,
                 max_states=20000):
        self.p = prog
        self.opaque_fns = set(opaque_fns)
        self.effects = effects  # path -> bool
        self.steps = 0
        self.max_steps = max_steps
        self.max_states = max_states
        self.stack = []
        self.active = []
        self.consts = {}
        self.probing = 0
        self.panics = []
        self.visited = set()              # (function, block) of the calls and assertions reached
        self.unknown = defaultdict(int)   # unmodelled callees treated as opaque
        self.fns_seen = set()
        self.log_print = log_print
        self.loopno = 0
        self.distinct = []    # sets of values no two of which are equal
        self.contracts = {}   # path -> f(eng, st, args): what a function is already shown to do
        from models import MODELS
        self.models = MODELS

    # ---------------------------------------------------------------- memory
    def read_loc(self, st, loc):
        k = loc[0]
        if k == 'V':
            return loc[1]
        if k == 'L':
            return st.frames[loc[1]].get(loc[2], UNDEF)
        if k == 'S':
            r = st.glob.get(loc)
            if r is not None:
                return r
            return loc[1]
        return st.glob.get(loc, UNDEF)

    def write_loc(self, st, loc, v):
        k = loc[0]
        if k == 'L':
            st.setl(loc[1], loc[2], v)
        elif k == 'V':
            pass
        else:
            st.setg(loc, v)

    def proj1(self, st, v, e):
        if e[0] == 'f':
            r = mk_fld(v, e[1])
            if r[0] == 'fld':
                o = st.glob.get(('S', r))
                if o is not None:
                    return o
            return r
        if e[0] == 'i':
            return self.index(st, v, e[1])
        if e[0] == 'mv':
            if v[0] == 'map' and e[1] < len(v[1]) and v[1][e[1]][0] == 'ins':
                return v[1][e[1]][2]
            return ('mapvalue', self.deep(st, v), e[1])
        if e[0] == 'ie':
            if v[0] == 'list' and all(s[0] == 'one' for s in v[1]) and e[1] <= len(v[1]):
                return v[1][-e[1]][1]
            return ('idxend', self.deep(st, v), I(e[1]))
        if e[0] == 'sub':
            if v[0] == 'list' and all(s[0] == 'one' for s in v[1]):
                n = len(v[1])
                return ('list', v[1][e[1]:(n - e[2]) if e[3] else e[2]])
            return ('op', 'subslice', self.deep(st, v), I(e[1]), I(e[2]), ('bool', e[3]))
        raise AnalysisError('projection %r' % (e,))

    def index(self, st, v, i):
        if v[0] == 'list':
            if i[0] == 'int':
                n = i[1]
                segs = v[1]
                if n < len(segs) and all(s[0] == 'one' for s in segs[:n + 1]):
                    return segs[n][1]
        return ('idx', self.deep(st, v), self.deep(st, i))

    def read(self, st, loc, proj):
        v = self.read_loc(st, loc)
        for e in proj:
            v = self.proj1(st, v, e)
        return v

    def _set(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == 'f':
            if v == UNDEF:
                v = ('upd', UNDEF, ())
            cur = mk_fld(v, e[1])
            return mk_upd(v, e[1], self._set(st, cur, proj[1:], val))
        if e[0] == 'i':
            if v[0] == 'list' and e[1][0] == 'int':
                n = e[1][1]
                if n < len(v[1]) and all(s[0] == 'one' for s in v[1][:n + 1]):
                    l = list(v[1])
                    l[n] = ('one', self._set(st, l[n][1], proj[1:], val))
                    return ('list', tuple(l))
            return ('op', 'setidx', self.deep(st, v), self.deep(st, e[1]), self.deep(st, val))
        if e[0] == 'mv' and v[0] == 'map' and e[1] < len(v[1]) and v[1][e[1]][0] == 'ins':
            l = list(v[1])
            x = l[e[1]]
            l[e[1]] = ('ins', x[1], self._set(st, x[2], proj[1:], val))
            return ('map', tuple(l))
        return ('op', 'set', self.deep(st, v), e, self.deep(st, val))

    def write(self, st, loc, proj, val):
        if loc[0] == 'B':
            proj = ()
        if not proj:
            self.write_loc(st, loc, val)
            return
        v = self.read_loc(st, loc)
        self.write_loc(st, loc, self._set(st, v, proj, val))

    def addr(self, st, d, place):
        loc = ('L', d, place[0])
        proj = ()
        var = None
        for e in place[1]:
            k = e[0]
            if k == 'f':
                proj += (('f', (var + '.' if var else '') + e[2]),)
                var = None
            elif k == 'v':
                var = e[2]
            elif k == 'd' or k == 'dbox':
                v = self.read(st, loc, proj)
                if v[0] == 'ref':
                    loc, proj = v[1], v[2]
                elif v[0] == 'boxptr':
                    loc, proj = v[1], ()
                elif k == 'dbox':
                    pass
                else:
                    loc, proj = ('S', v) if opaque(v) else ('V', v), ()
            elif k == 'bx':
                proj += (('bx',),)
            elif k == 'i':
                proj += (('i', st.getl(d, e[1])),)
            elif k == 'ci':
                proj += ((('ie', e[1]) if e[2] else ('i', I(e[1]))),)
            elif k == 'sub':
                proj += (('sub', e[1], e[2], e[3]),)
        return loc, proj

    def read_place(self, st, d, place):
        loc, proj = self.addr(st, d, place)
        if proj and proj[-1] == ('bx',):
            v = self.read(st, loc, proj[:-1])
            if v[0] == 'boxptr':
                return ('ref', v[1], ())
            return ('ref', loc, proj[:-1])
        return self.read(st, loc, proj)

    def peel(self, st, v):
        while v[0] == 'ref':
            v = self.read(st, v[1], v[2])
        return v

    def deref1(self, st, v):
        if v[0] == 'ref':
            return self.read(st, v[1], v[2])
        return v

    def deep(self, st, v):
        """resolve every reference inside v"""
        if not isinstance(v, tuple):
            if isinstance(v, frozenset):
                return v
            return v
        if v and v[0] == 'ref':
            return self.deep(st, self.read(st, v[1], v[2]))
        if v and v[0] == 'fld':
            o = st.glob.get(('S', v))
            if o is not None and o != v:
                return self.deep(st, o)
            return v
        if v and v[0] in ('call', 'lookup', 'elem', 'root', 'str', 'int', 'bool', 'eq', 'has', 'empty'):
            return v
        out = None
        for i, x in enumerate(v):
            if isinstance(x, tuple):
                y = self.deep(st, x)
                if y is not x:
                    if out is None:
                        out = list(v)
                    out[i] = y
        if out is None:
            return v
        t = tuple(out)
        if t[0] == 'cat':
            return mk_cat(t[1])
        return t

    # ---------------------------------------------------------------- facts
    def decide(self, st, v):
        k = v[0]
        if k == 'bool':
            return v[1]
        if k == 'not':
            r = self.decide(st, v[1])
            return None if r is None else not r
        if k == 'and':
            unk = False
            for x in v[1]:
                r = self.decide(st, x)
                if r is False:
                    return False
                if r is None:
                    unk = True
            return None if unk else True
        if k == 'isv':
            t = v[1]
            if t[0] == 'struct':
                return t[2] == v[2]
            f = st.facts.get(('is', t))
            if f is None:
                return None
            if isinstance(f, frozenset):
                return False if v[2] in f else None
            return f == v[2]
        if k == 'eq':
            for d in self.distinct:
                if v[1] in d and v[2] in d:
                    return v[1] == v[2]
            if is_const(v[2]):
                x = st.facts.get(('val', v[1]))
                if x is not None:
                    return x == v[2]
                r = st.facts.get(v)
                if r is None and v[2][0] == 'int' and not isinstance(v[2][1], bool):
                    lo, hi, ne = bounds(self, st, v[1])
                    if lo is not None and v[2][1] < lo or hi is not None and v[2][1] > hi:
                        return False
                return r
            return st.facts.get(v)
        if k == 'lt':
            r = st.facts.get(v)
            if r is None and 'int' in (v[1][0], v[2][0]):
                x, c, less = (v[1], v[2][1], True) if v[2][0] == 'int' else (v[2], v[1][1], False)
                y = st.facts.get(('val', x))
                if y is not None and y[0] == 'int':
                    return y[1] < c if less else c < y[1]
                lo, hi, ne = bounds(self, st, x)
                if less:
                    if hi is not None and hi < c:
                        return True
                    if lo is not None and lo >= c:
                        return False
                else:
                    if lo is not None and lo > c:
                        return True
                    if hi is not None and hi <= c:
                        return False
            return r
        if k == 'inbounds' and v[2][0] == 'int':
            r = st.facts.get(v)
            if r is None:
                x = v[1]
                if x[0] == 'list' and len(x[1]) == 1 and x[1][0][0] == 'all':
                    x = x[1][0][1]
                n = st.facts.get(('val', ('len', x))) or st.facts.get(('val', ('len', v[1])))
                if n is not None and n[0] == 'int':
                    return v[2][1] < n[1]
                lo, hi, ne = bounds(self, st, ('len', x))
                if lo is not None and v[2][1] < lo:
                    return True
                if v[2][1] == 0 and st.facts.get(('empty', x)) is False:
                    return True
            return r
        if k == 'empty':
            r = st.facts.get(v)
            if r is None:
                n = st.facts.get(('val', ('len', v[1])))
                if n is not None and n[0] == 'int':
                    return n[1] == 0
                if filled(self, v[1]):
                    return False
            return r
        if k == 'slice_ok':
            r = st.facts.get(v)
            if r is None and v[2][0] == 'struct' and len(v[2][3]) == 1 and any(
                    b is True and a[0] == 'call' and ('texthead', v[1], v[2][3][0][1]) in a[2] for a, b in st.facts.items()):
                return True         # what comes before was looked at
            return r
        if k == 'has':
            r = st.facts.get(v)
            if r is None and st.facts.get(('empty', v[1])) is True:
                return False
            return r
        return st.facts.get(v)

    def assume(self, st, v, val):
        """-> list of states in which v == val (st may be reused)"""
        k = v[0]
        if k == 'bool':
            return [st] if v[1] == val else []
        if k == 'not':
            return self.assume(st, v[1], not val)
        r = self.decide(st, v)
        if r is not None:
            return [st] if r == val else []
        if k == 'and':
            if val:
                sts = [st]
                for x in v[1]:
                    sts = [y for s in sts for y in self.assume(s, x, True)]
                return sts
            out = []
            cur = [st]
            for x in v[1]:
                nxt = []
                for s in cur:
                    out.extend(self.assume(s.fork(), x, False))
                    nxt.extend(self.assume(s, x, True))
                cur = nxt
            return out
        if k == 'isv':
            t = v[1]
            if val:
                st.setf(('is', t), v[2])
            elif v[2] in COMPL:
                st.setf(('is', t), COMPL[v[2]])
            else:
                old = st.facts.get(('is', t), frozenset())
                st.setf(('is', t), old | {v[2]})
            return [st]
        if k == 'eq' and val and is_const(v[2]):
            st.setf(('val', v[1]), v[2])
        st.setf(v, val)
        return [st]

    def fork_bool(self, st, v):
        """-> [(state, bool)]"""
        r = self.decide(st, v)
        if r is not None:
            return [(st, r)]
        a = self.assume(st.fork(), v, True)
        b = self.assume(st, v, False)
        return [(x, True) for x in a] + [(x, False) for x in b]

    def fork_variant(self, st, v, variants):
        """v value (not ref) of an enum with these variants -> [(state, variant)]"""
        if v[0] == 'struct':
            return [(st, v[2])]
        f = st.facts.get(('is', v))
        if isinstance(f, str):
            return [(st, f)]
        out = []
        left = [x for x in variants if not (f and x in f)]
        for i, x in enumerate(left):
            s = st if i == len(left) - 1 else st.fork()
            s.setf(('is', v), x)
            out.append((s, x))
        return out

    def payload(self, st, v, variant):
        if v[0] == 'struct':
            return v[3][0][1] if v[3] else UNIT
        return self.proj1(st, v, ('f', variant + '.0'))

    # ---------------------------------------------------------------- operands
    def operand(self, st, d, o):
        k = o[0]
        if k in ('c', 'm'):
            return self.read_place(st, d, o[1])
        if k == 'k':
            c = o[2]
            ty = self.p.types[o[1]]
            if 'fndef' in c:
                return ('fn', o[1])
            if 'str' in c:
                return vref(S(c['str']))
            if 'int' in c:
                if ty['k'] == 'bool':
                    return ('bool', bool(c['int']))
                if ty['k'] == 'char':
                    return ('char', chr(c['int']))
                if ty['k'] == 'adt':
                    a = self.p.adts.get(ty['path'])
                    if a and a['kind'] == 'enum':
                        for v in a['variants']:
                            if v['discr'] == c['int'] and not v['fields']:
                                return ('struct', ty['path'], v['name'], ())
                return I(c['int'])
            if 'bytes' in c:
                return vref(('bytes', bytes(c['bytes'])))
            if 'body' in c:
                v = self.const_body(c['body'])
                if c.get('ref'):
                    return vref(v)
                return v
            if 'zst' in c:
                if ty['k'] == 'tuple':
                    return UNIT
                if ty['k'] == 'fndef':
                    return ('fn', o[1])
                if ty['k'] == 'closure':
                    return ('closure', ty.get('fn'), ())
                if ty['k'] == 'array':
                    return ('list', ())
                if ty['k'] == 'adt':
                    a = self.p.adts.get(ty['path'])
                    if a and len(a['variants']) == 1 and a['kind'] == 'struct':
                        return ('struct', ty['path'], None, tuple((f['name'], UNIT) for f in a['variants'][0]['fields']))
                    if a and a['kind'] == 'enum':
                        vs = [v for v in a['variants'] if not v['fields']]
                        if len(a['variants']) == 1 and vs:
                            return ('struct', ty['path'], vs[0]['name'], ())
                return ('const', 'zst', ty['s'])
            if ty['k'] == 'adt' and ty['path'] == OPT:
                return NONE if not c or set(c) <= {'def'} and 'NONE' in str(c) else ('const', ty['s'], str(sorted(c.items())))
            return ('const', ty['s'], str(sorted((a, str(b)) for a, b in c.items())))
        return ('const', 'rc', 'x')

    def const_body(self, fid):
        if fid not in self.consts:
            st = St()
            save = self.stack, self.active
            self.stack, self.active = [], []
            outs = self.call_fn(st, fid, [])
            self.stack, self.active = save
            rets = [o for o in outs if o[1] == 'ret']
            if len(rets) != 1:
                raise AnalysisError('constant %s does not evaluate' % self.p.fns[fid]['name'])
            self.consts[fid] = self.freeze(rets[0][0], rets[0][2])
        return self.consts[fid]

    def freeze(self, st, v):
        """make references self-contained"""
        if isinstance(v, tuple):
            if v and v[0] == 'ref':
                return vref(self.freeze(st, self.read(st, v[1], v[2])))
            return tuple(self.freeze(st, x) if isinstance(x, tuple) else x for x in v)
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, d, r, fn):
        k = r['k']
        if k == 'use':
            return self.operand(st, d, r['o'])
        if k == 'ref':
            loc, proj = self.addr(st, d, r['p'])
            return ('ref', loc, proj)
        if k == 'agg':
            vals = [self.operand(st, d, o) for o in r['fs']]
            a = r['a']
            if a == 'tuple':
                return ('tuple', tuple(vals))
            if a == 'array':
                return ('list', tuple(('one', v) for v in vals))
            if a == 'adt':
                return ('struct', r['path'], r['variant'] if r['enum'] else None, tuple(zip(r['names'], vals)))
            if a == 'closure':
                return ('closure', r.get('fn'), tuple(vals))
            return ('op', 'agg', *[self.deep(st, v) for v in vals])
        if k == 'discr':
            v = self.read_place(st, d, r['p'])
            return self.discr(st, v, r['ty'])
        if k == 'cast':
            v = self.operand(st, d, r['o'])
            ck = r['ck']
            if ck.startswith('PointerCoercion') or ck in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute', 'Subtype') or 'Transmute' in ck:
                return v
            if ck in ('IntToInt',):
                if v[0] in ('int',):
                    return v
                if v[0] == 'bool':
                    return I(int(v[1]))
                if v[0] == 'char':
                    return I(ord(v[1]))
                return ('op', 'as', v, S(self.p.tyname(r['ty'])))
            return ('op', 'cast:' + ck, self.deep(st, v), S(self.p.tyname(r['ty'])))
        if k == 'bin':
            a = self.operand(st, d, r['a'])
            b = self.operand(st, d, r['b'])
            return self.binop(st, r['op'], a, b)
        if k == 'un':
            v = self.operand(st, d, r['o'])
            if r['op'] == 'Not':
                if v[0] == 'int':
                    return I(~v[1])
                return mk_not(v)
            if r['op'] == 'PtrMetadata':
                return self.length(st, self.peel(st, v))
            if r['op'] == 'Neg' and v[0] == 'int':
                return I(-v[1])
            return ('op', r['op'], self.deep(st, v))
        if k == 'repeat':
            return ('op', 'repeat', self.deep(st, self.operand(st, d, r['o'])))
        if k == 'setdiscr':
            return UNDEF
        return ('op', 'rvalue', S(r.get('d', k)))

    def length(self, st, v):
        if v[0] == 'list' and all(s[0] == 'one' for s in v[1]):
            return I(len(v[1]))
        if v[0] == 'str':
            return I(len(v[1].encode()))
        if v[0] == 'bytes':
            return I(len(v[1]))
        return ('len', self.deep(st, v))

    def discr(self, st, v, ty):
        if v[0] == 'struct':
            a = self.p.adts.get(v[1])
            if a and a['kind'] == 'enum':
                for x in a['variants']:
                    if x['name'] == v[2]:
                        return I(x['discr'])
            return I(0)
        if v[0] == 'upd' and v[1] != UNDEF:
            return self.discr(st, v[1], ty)
        return ('discr', v, ty)

    def binop(self, st, op, a, b):
        a = self.peel(st, a) if a[0] == 'ref' else a
        b = self.peel(st, b) if b[0] == 'ref' else b
        over = op.endswith('WithOverflow')
        if over:
            op = op[:-len('WithOverflow')]
        op = op.replace('Unchecked', '')

        def wrap(v):
            return ('tuple', (v, FALSE)) if over else v
        if self.probing is not None and op in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'):
            for x, y in ((a, b), (b, a)):
                if x == ('ixprobe',):
                    raise ProbeHit(y)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and (a[0] in ('ix', 'ixr') or b[0] in ('ix', 'ixr')):
            r = ix_compare(op, a, b)
            if r is not None:
                return r
        if op == 'Sub' and a[0] == 'ixr' and b == I(1):
            return wrap(('ix',) + a[1:])
        if op in ('Lt', 'Gt', 'Le', 'Ge') and a == b:
            return FALSE if op in ('Lt', 'Gt') else TRUE
        if self.probing and op in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'):
            for x, y in ((a, b), (b, a)):
                if x == ('ixprobe',):
                    raise ProbeHit(self.deep(st, y))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and (a[0] in ('ix', 'ixr') or b[0] in ('ix', 'ixr')):
            r = ix_compare(op, a, b)
            if r is not None:
                return r
        if op == 'Sub' and a[0] == 'ixr' and b == I(1):
            return wrap(('ix',) + a[1:])
        if op in ('Lt', 'Gt', 'Le', 'Ge') and a == b:
            return FALSE if op in ('Lt', 'Gt') else TRUE
        if op in ('Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'discr' and y[0] == 'int':
                    ad = self.p.adt_of(x[2])
                    if ad:
                        for vr in ad['variants']:
                            if vr['discr'] == y[1]:
                                r = ('isv', x[1], vr['name'])
                                return r if op == 'Eq' else mk_not(r)
            r = mk_eq(a, b)
            return r if op == 'Eq' else mk_not(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if a[0] == b[0] and a[0] in ('int', 'char'):
                return ('bool', {'Lt': a[1] < b[1], 'Le': a[1] <= b[1], 'Gt': a[1] > b[1], 'Ge': a[1] >= b[1]}[op])
            if op == 'Gt':
                op, a, b = 'Lt', b, a
            elif op == 'Ge':
                op, a, b = 'Le', b, a
            # now Lt or Le
            if op == 'Lt' and a == I(0) and b[0] == 'len':
                return mk_not(mk_empty(b[1]))
            if op == 'Le' and a == I(1) and b[0] == 'len':
                return mk_not(mk_empty(b[1]))
            if op == 'Lt' and b == I(1) and a[0] == 'len':
                return mk_empty(a[1])
            if op == 'Le' and b == I(0) and a[0] == 'len':
                return mk_empty(a[1])
            if op == 'Le':
                return mk_not(('lt', b, a))
            return ('lt', a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (a[0] in ('bool',) or b[0] in ('bool',) or opaque(a)):
            if op == 'BitAnd':
                return mk_and([a, b])
            if op == 'BitOr':
                return mk_or([a, b])
            return mk_not(mk_eq(a, b))
        if a[0] == 'int' and b[0] == 'int':
            try:
                r = {'Add': lambda: a[1] + b[1], 'Sub': lambda: a[1] - b[1], 'Mul': lambda: a[1] * b[1],
                     'BitAnd': lambda: a[1] & b[1], 'BitOr': lambda: a[1] | b[1], 'Shl': lambda: a[1] << b[1],
                     'Shr': lambda: a[1] >> b[1], 'Div': lambda: a[1] // b[1], 'Rem': lambda: a[1] % b[1]}.get(op)
                if r:
                    return wrap(I(r()))
            except Exception:
                pass
        return wrap(('op', op, self.deep(st, a), self.deep(st, b)))

    # ---------------------------------------------------------------- calls
    def call_fn(self, st, fid, args):
        fn = self.p.fn(fid)
        j = fn.j
        if len(self.stack) > MAX_DEPTH:
            raise Budget('call depth at ' + j['name'])
        self.fns_seen.add(fid)
        d = st.push()
        argc = j['argc']
        if len(args) != argc:
            raise AnalysisError('arity mismatch calling %s: %d vs %d' % (j['name'], len(args), argc))
        for i, a in enumerate(args):
            st.setl(d, i + 1, a)
        self.stack.append((fid, None))
        outs, arr = self.run(fn, d, [(0, st)], frozenset())
        self.stack.pop()
        res = []
        cst = j['kind'] in ('promoted', 'const')
        for s, k, v in outs:
            if cst and k == 'ret':
                v = self.freeze(s, v)
            while len(s.frames) > d:
                s.pop()
            res.append((s, k, v))
        return self.merge(res)

    join_max = 0

    def merge(self, outs):
        """merge outcomes with the same value and memory, joining their facts"""
        if len(outs) < 2:
            return outs
        if len(outs) > self.max_states:
            raise Budget('too many states in ' + self.where())
        groups = {}
        order = []
        for o in outs:
            k = (o[1], o[2], o[0].key())
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o)
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            dnf = merge_dnf([frozenset(o[0].facts.items()) for o in g])
            if self.join_max and len(dnf) > self.join_max:
                # keep what is known on every path
                dnf = [frozenset.intersection(*dnf)]
            for f in dnf:
                s = g[0][0].fork()
                s.facts = dict(f)
                s.fown = True
                res.append((s, k[0], k[1]))
        return res

    def where(self):
        return ' <- '.join(self.p.fns[f]['name'] for f, _ in reversed(self.stack[-4:]))

    def invoke(self, st, f, args):
        """call a closure / function item value with already-spread args"""
        f = self.peel(st, f)
        if f[0] == 'closure':
            if f[1] is None:
                raise AnalysisError('polymorphic closure')
            j = self.p.fns[f[1]]
            t1 = self.p.types[j['locals'][1]]
            env = vref(f) if t1['k'] == 'ref' else f
            n = j['argc'] - 1
            if n != len(args):
                if len(args) == 1 and args[0][0] == 'tuple' and len(args[0][1]) == n:
                    args = list(args[0][1])
            return self.call_fn(st, f[1], [env] + list(args))
        if f[0] == 'fn':
            c = self.p.types[f[1]]['callee']
            return self.dispatch(st, c, list(args), None, None)
        return [(st, 'ret', ('call', 'fnvalue', (self.deep(st, f),) + tuple(self.deep(st, a) for a in args), 0))]

    def dispatch(self, st, c, args, t, fn):
        """-> list of outcomes"""
        p = self.p.np(c['path'])
        if 'ctor' in c:
            a = self.p.adts.get(c['adt'])
            var = c.get('variant')
            names = None
            if a:
                for v in a['variants']:
                    if var is None or v['name'] == var:
                        names = [f['name'] for f in v['fields']]
            if names is None:
                names = [str(i) for i in range(len(args))]
            return [(st, 'ret', ('struct', c['adt'], var, tuple(zip(names, args))))]
        rp = self.p.np(c.get('rpath', c['path']))
        if self.contracts:
            m = self.contracts.get(rp) or self.contracts.get(p)
            if m is not None:
                self.callee, self.callterm = c, t
                r = m(self, st, args)
                if r is not None:
                    return r
        if rp in self.opaque_fns or p in self.opaque_fns:
            return self.opaque_call(st, rp if rp in self.opaque_fns else p, c, args, t, local=True)
        if p in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            a = self.peel(st, args[1])
            if a[0] != 'tuple':
                raise AnalysisError('call with unknown argument tuple in ' + self.where())
            return self.invoke(st, args[0], list(a[1]))
        if c.get('local') and 'fn' in c:
            m = self.models.get('local:' + p)
            if m:
                r = m(self, st, args, c, t)
                if r is not None:
                    return r
            return self.call_local(st, c['fn'], args, c, t)
        m = self.models.get(p)
        if m is None and rp != p:
            m = self.models.get(rp)
        if m is not None:
            r = m(self, st, args, c, t)
            if r is not None:
                return r
        if 'fn' in c:
            return self.call_local(st, c['fn'], args, c, t)
        return self.opaque_call(st, p, c, args, t)

    def call_local(self, st, fid, args, c, t):
        n = sum(1 for f, _ in self.stack if f == fid)
        if n >= self.rec_limit:
            return self.opaque_call(st, self.p.np(self.p.fns[fid]['path']), c, args, t, local=True)
        if self.p.fns[fid]['argc'] == 1 and self.joins(fid):
            import models
            it = models.iter_of_value(self, st, args[0])
            return [(st, 'ret', models.mk_join(self.deep(st, ('list', it[1])), self.joins(fid)))]
        return self.call_fn(st, fid, args)

    def joins(self, fid):
        """separator, if this function does no more than join what it is given"""
        memo = self.p.__dict__.setdefault('join_memo', {})
        if fid not in memo:
            memo[fid] = None
            j = self.p.fns[fid]
            ty, a = self.p.types[j['locals'][0]], self.p.types[j['locals'][1]]
            if ty.get('path') == 'std::string::String' and (a['k'] == 'adt' and a['path'].startswith('std::') and not a['path'].startswith('std::string') or a['k'] == 'ref' and 'Vec' in a['s'] or a['s'].startswith('&[')):
                arg = ('root', ('joined', fid))
                try:
                    outs = self.call_fn(St(), fid, [arg])
                except (Budget, AnalysisError):
                    outs = []
                if len(outs) == 1 and outs[0][1] == 'ret' and not outs[0][0].facts and not outs[0][0].glob:
                    v = self.deep(outs[0][0], outs[0][2])
                    if v[0] == 'join' and v[1] in (('list', (('all', arg),)), arg) and v[2][0] == 'str':
                        memo[fid] = v[2]
        return memo[fid]

    PANIC = re.compile(r'(core|std)::panicking|unwrap_failed|expect_failed|std::rt::panic|begin_panic|slice_error_fail|index_len_fail|assert_failed')

    def opaque_call(self, st, p, c, args, t, local=False):
        if self.PANIC.search(p):
            msg = ''
            for a in args:
                msg += str(self.deep(st, a))[:200]
            return [(st, 'panic', (p, msg, self.site()))]
        if p == 'std::process::exit' or p == 'std::process::abort':
            return [(st, 'exit', self.deep(st, args[0]) if args else UNIT)]
        dargs = tuple(self.deep(st, a) for a in args)
        ev = self.effects is not None and self.effects(p)
        if ev:
            log = st.glob.get(('ev',), ('list', ()))
            n = count_calls(log, p, dargs)
            v = ('call', p, dargs, n)
            st.setg(('ev',), mk_list(log[1] + (('one', ('event', p, dargs, n)),)))
            self.evsite.setdefault((p, dargs), self.site())
        else:
            v = ('call', p, dargs, 0)
            if not local:
                self.unknown[p] += 1
                # havoc what a std routine may change through &mut
            if local or fn_is_std(p):
                self.havoc(st, p, c, args, dargs, t, local)
        if t is not None and 't' not in t:
            return [(st, 'panic', (p, 'diverges', self.site()))]
        if t is not None and self.p.types[t['dty']]['k'] == 'ref':
            return [(st, 'ret', sref(v))]
        return [(st, 'ret', v)]

    def havoc(self, st, p, c, args, dargs, t, local):
        if t is None:
            return
        for i, a in enumerate(args):
            if a[0] == 'ref' and a[1][0] in ('L', 'S', 'K') and self.arg_mut(c, t, i, local):
                self.write(st, a[1], a[2], ('mut', p, dargs))

    evsite = None
    rec_limit = 1
    sort_maps = False
    unroll = ()      # bodies whose loops are driven by a contract and end by themselves

    def arg_mut(self, c, t, i, local=False):
        o = t['a'][i]
        if o[0] in ('c', 'm'):
            fid = self.stack[-1][0]
            ty = self.p.types[self.p.fns[fid]['locals'][o[1][0]]]
            if not (ty['k'] == 'ref' and ty.get('mut') and not o[1][1]):
                return False
            if local:
                # handles whose use is recorded as events are not memory
                to = self.p.types[ty['inner']] if isinstance(ty.get('inner'), int) else None
                if to is not None and to['k'] == 'adt' and self.effects is not None and self.effects(to['path']):
                    return False
            return True
        return False

    def site(self):
        """innermost local call site"""
        for f, sp in reversed(self.stack):
            if self.p.fns[f]['local']:
                return (self.p.fns[f]['path'], sp)
        return ('?', None)

    # ---------------------------------------------------------------- run
    def run(self, fn, d, work, stops, first=None):
        """execute blocks of one frame. Returns (outcomes, arrivals{block:[st]})"""
        outs = []
        arr = {}
        loops, driven, innermost = fn.loops()
        blocks = fn.blocks
        work = [(b, s, True) for b, s in work] if first else [(b, s, False) for b, s in work]
        while work:
            if len(work) > self.max_states:
                raise Budget('too many states in ' + self.where())
            bb, st, init = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('step budget in ' + self.where())
                if not init:
                    if bb in stops:
                        arr.setdefault(bb, []).append(st)
                        break
                    if bb in loops and self.stack[-1][0] not in self.unroll and not any(innermost[b] == bb for b in driven):
                        o, a = self.header_loop(fn, d, bb, st, stops)
                        outs.extend(o)
                        for k, v in a.items():
                            arr.setdefault(k, []).extend(v)
                        break
                init = False
                blk = blocks[bb]
                before = st.fork() if any(bool_cast(self.p, fn, rv) for pl, rv, sp in blk['s']) else None
                split = False
                for pl, rv, sp in blk['s']:
                    self.stack[-1] = (self.stack[-1][0], sp)
                    if before is not None and bool_cast(self.p, fn, rv):
                        # a truth value used as a number: 0 and 1 are looked at one after the other
                        v = self.operand(st, d, rv['o'])
                        r = self.decide(st, v)
                        if r is None:
                            work.extend((bb, s, True) for s, r in self.fork_bool(before, v))
                            split = True
                            break
                        v = I(int(r))
                    else:
                        v = self.rvalue(st, d, rv, fn)
                    if not pl[1]:
                        st.setl(d, pl[0], v)
                    else:
                        loc, proj = self.addr(st, d, pl)
                        self.write(st, loc, proj, v)
                if split:
                    break
                t = blk['t']
                self.stack[-1] = (self.stack[-1][0], t['sp'])
                k = t['k']
                if k == 'goto' or k == 'drop':
                    if k == 'drop' and self.effects is not None:
                        self.on_drop(st, d, t)
                    bb = t['t']
                    continue
                if k == 'ret':
                    outs.append((st, 'ret', st.getl(d, 0)))
                    break
                if k == 'unreachable':
                    break
                if k == 'assert':
                    self.visited.add((self.stack[-1][0], bb))
                    v = self.operand(st, d, t['o'])
                    if not t['m'].startswith('overflow'):
                        r = self.decide(st, v)
                        if r is None or r != t['e']:
                            for s in self.assume(st.fork(), v, not t['e']):
                                outs.append((s, 'panic', ('assert ' + t['m'], '', self.site())))
                        sts = self.assume(st, v, t['e'])
                        if not sts:
                            break
                        st = sts[0]
                        for s in sts[1:]:
                            work.append((t['t'], s, False))
                    bb = t['t']
                    continue
                if k == 'switch':
                    nxt = self.switch(st, self.operand(st, d, t['o']), t, blocks)
                    if not nxt:
                        break
                    for s, b in nxt[1:]:
                        work.append((b, s, False))
                    st, bb = nxt[0]
                    continue
                if k == 'call':
                    self.visited.add((self.stack[-1][0], bb))
                    res = self.call_term(fn, d, bb, st, t, stops)
                    if isinstance(res, tuple):
                        o, a = res
                        outs.extend(o)
                        for kk, v in a.items():
                            arr.setdefault(kk, []).extend(v)
                        break
                    nxt = []
                    for s, kind, v in res:
                        if kind != 'ret':
                            outs.append((s, kind, v))
                            continue
                        if 't' not in t:
                            continue
                        self.assign(s, d, t['d'], v)
                        nxt.append(s)
                    if not nxt:
                        break
                    for s in nxt[1:]:
                        work.append((t['t'], s, False))
                    st, bb = nxt[0], t['t']
                    continue
                raise AnalysisError('terminator %s in %s' % (k, self.where()))
        return outs, arr

    def on_drop(self, st, d, t):
        pass

    def assign(self, st, d, place, v):
        if not place[1]:
            st.setl(d, place[0], v)
        else:
            loc, proj = self.addr(st, d, place)
            self.write(st, loc, proj, v)

    def switch(self, st, v, t, blocks):
        v = self.peel(st, v)
        ty = self.p.types[t['ty']]
        els = t['else']
        els_dead = blocks[els] is None or (blocks[els]['t']['k'] == 'unreachable')
        if v[0] == 'int':
            for n, b in t['ts']:
                if n == v[1]:
                    return [(st, b)]
            return [(st, els)]
        if v[0] == 'char':
            for n, b in t['ts']:
                if n == ord(v[1]):
                    return [(st, b)]
            return [(st, els)]
        if ty['k'] == 'bool' or v[0] == 'bool':
            fb = [b for n, b in t['ts'] if n == 0]
            tb = [b for n, b in t['ts'] if n == 1]
            fb = fb[0] if fb else els
            tb = tb[0] if tb else els
            if fb == tb:
                return [(st, fb)]
            return [(s, tb if r else fb) for s, r in self.fork_bool(st, v)]
        if v[0] == 'discr':
            a = self.p.adt_of(v[2])
            if a is None:
                raise AnalysisError('discriminant of non-adt in ' + self.where())
            t0 = v[1]
            if t0[0] == 'struct':
                return self.switch(st, self.discr(st, t0, v[2]), t, blocks)
            byd = {x['discr']: x['name'] for x in a['variants']}
            f = st.facts.get(('is', t0))
            res = []
            listed = []
            for n, b in t['ts']:
                name = byd.get(n)
                if name is None:
                    continue
                listed.append(name)
                if isinstance(f, str):
                    if f == name:
                        return [(st, b)]
                    continue
                if f and name in f:
                    continue
                s = st.fork()
                s.setf(('is', t0), name)
                res.append((s, b))
            if isinstance(f, str):
                return [(st, els)]
            rest = [x for x in byd.values() if x not in listed and not (f and x in f)]
            if rest and not els_dead:
                s = st.fork()
                if len(rest) == 1:
                    s.setf(('is', t0), rest[0])
                else:
                    s.setf(('is', t0), frozenset(set(byd.values()) - set(rest)))
                res.append((s, els))
            return res
        # opaque integer / char
        mk = (lambda n: ('char', chr(n))) if ty['k'] == 'char' else I
        res = []
        rest = st.fork()
        for n, b in t['ts']:
            at = mk_eq(v, mk(n))
            for s in self.assume(st.fork(), at, True):
                res.append((s, b))
            r = self.assume(rest, at, False)
            if not r:
                rest = None
                break
            rest = r[0]
        if rest is not None and not els_dead:
            res.append((rest, els))
        return res

    def call_term(self, fn, d, bb, st, t, stops):
        if 'ptr' in t:
            f = self.operand(st, d, t['ptr'])
            args = [self.operand(st, d, o) for o in t['a']]
            return self.invoke(st, f, args)
        c = t['f']
        args = [self.operand(st, d, o) for o in t['a']]
        p = self.p.np(c['path'])
        if p == 'std::iter::Iterator::next' and not c.get('local'):
            return self.mir_next(fn, d, bb, st, t, args, stops)
        return self.dispatch(st, c, args, t, fn)

    # ---------------------------------------------------------------- loops
    def as_iter(self, st, v):
        if v[0] == 'iter':
            return v
        from models import iter_of_value
        return iter_of_value(self, st, v)

    def mir_next(self, fn, d, bb, st, t, args, stops):
        r = args[0]
        while True:
            if r[0] != 'ref':
                raise AnalysisError('next on non-reference in ' + self.where())
            v = self.read(st, r[1], r[2])
            if v[0] == 'ref':
                r = v
            else:
                break
        it = self.as_iter(st, v)
        segs = it[1]
        while segs and segs[0][0] == 'rep' and not segs[0][3]:
            segs = segs[1:]
        if not segs:
            self.write(st, r[1], r[2], ('iter', ()))
            return [(st, 'ret', NONE)]
        h = segs[0]
        loops, driven, innermost = fn.loops()
        if h[0] == 'one':
            n = 0
            while n < len(segs) and segs[n][0] == 'one':
                n += 1
            if n < 4 or bb not in driven:
                self.write(st, r[1], r[2], ('iter', segs[1:]))
                return [(st, 'ret', some(h[1]))]
            cur = [st]
            outs, arrs = [], {}
            for i in range(n):
                nxt = []
                for s in cur:
                    self.write(s, r[1], r[2], ('iter', segs[i + 1:]))
                    self.assign(s, d, t['d'], some(segs[i][1]))
                    o, a = self.run(fn, d, [(t['t'], s)], stops | {bb}, first=True)
                    nxt.extend(a.pop(bb, []))
                    outs.extend(o)
                    for k, v in a.items():
                        arrs.setdefault(k, []).extend(v)
                cur = self.join_states(fn, d, bb, nxt)
            self.after_group(fn, d, bb, t, r, [(s, ()) for s in cur], segs[n:], stops, outs, arrs)
            return outs, arrs
        if bb not in driven or h[0] == 'restof':
            # a lone next() on a generic sequence: first element or none
            s2 = st.fork()
            at = mk_not(mk_empty(('list', segs))) if h[0] != 'restof' else ('more', h[1])
            out = []
            for s in self.assume(s2, at, True):
                self.write(s, r[1], r[2], ('iter', (('restof', ('list', segs)),)))
                fst = ('first', self.deep(s, ('list', segs)))
                isref = h[0] == 'rep' and any(x[0] == 'one' and x[1][0] == 'ref' for a in h[3] for x in a[1])
                out.append((s, 'ret', some(sref(fst) if isref else fst)))
            for s in self.assume(st, at, False):
                self.write(s, r[1], r[2], ('iter', ()))
                out.append((s, 'ret', NONE))
            return out
        rest = segs[1:]

        def body(s, elem):
            self.write(s, r[1], r[2], ('iter', (('restof', ('list', (h,))),) + rest))
            self.assign(s, d, t['d'], some(elem))
            o, a = self.run(fn, d, [(t['t'], s)], stops | {bb}, first=True)
            mine = [(x, ()) for x in a.pop(bb, [])]
            return mine, o, a
        live = (d, fn.live_at(bb))
        exits, outs, arrs = self.summarize(st, h, body, live, skip=(r[1],))
        self.after_group(fn, d, bb, t, r, exits, rest, stops, outs, arrs)
        return outs, arrs

    def after_group(self, fn, d, bb, t, r, exits, rest, stops, outs, arrs):
        # after the group: the iterator continues with the rest
        for s, _ in exits:
            self.write(s, r[1], r[2], ('iter', rest))
            # re-execute the header block up to the call: same state, next again
            res = self.mir_next(fn, d, bb, s, t, [r], stops)
            if isinstance(res, tuple):
                outs.extend(res[0])
                for k, v in res[1].items():
                    arrs.setdefault(k, []).extend(v)
            else:
                for s2, kind, v in res:
                    self.assign(s2, d, t['d'], v)
                    o, a = self.run(fn, d, [(t['t'], s2)], stops, first=False)
                    outs.extend(o)
                    for k, v in a.items():
                        arrs.setdefault(k, []).extend(v)

    def join_states(self, fn, d, bb, states):
        """join states at a loop head that agree on the live memory"""
        live = fn.live_at(bb)
        for s in states:
            for i in [i for i in s.frames[d] if i not in live]:
                s.dell(d, i)
        return [o[0] for o in self.merge([(s, 'ret', UNIT) for s in states])]

    def counters(self, fn, bb):
        """locals stepped by one inside the loop: [(local, 'Add' | 'Sub')]"""
        loops, _, _ = fn.loops()
        out = []
        for b in sorted(loops[bb]):
            for pl, rv, sp in fn.blocks[b]['s']:
                if isinstance(rv, dict) and rv.get('k') == 'bin':
                    op = rv['op'].replace('WithOverflow', '').replace('Unchecked', '')
                    x, y = rv['a'], rv['b']
                    if op in ('Add', 'Sub') and x[0] in ('c', 'm') and not x[1][1] and y[0] == 'k' and y[2].get('int') == 1 and (x[1][0], op) not in out:
                        out.append((x[1][0], op))
        return out

    def index_loop(self, fn, d, bb, st, stops):
        """a loop that counts through the elements of a list -> like the loop over the list (None: not one)"""
        for i, op in self.counters(fn, bb):
            v = st.frames[d].get(i)
            if v is None or not (op == 'Add' and v == I(0) or op == 'Sub' and (v[0] == 'len' or v[0] == 'int' and 0 < v[1] <= 64)):
                continue
            t = st.fork()
            t.setl(d, i, ('ixprobe',))
            bound = None
            self.probing += 1
            budget, self.max_steps = self.max_steps, min(self.max_steps, self.steps + 3000)
            try:
                self.run(fn, d, [(bb, t)], stops | {bb}, first=True)
            except ProbeHit as h:
                bound = h.args[0]
            except AnalysisError:
                pass
            finally:
                self.probing -= 1
                self.max_steps = budget
            if bound is None or bound == ('ixprobe',):
                continue
            if op == 'Sub':
                if bound != I(0):
                    continue
                bound = v
            if bound[0] == 'int':
                if not 0 <= bound[1] <= 64:
                    continue
                segs = tuple(('one', I(n)) for n in range(bound[1]))
                if op == 'Sub':
                    segs = tuple(('one', I(n + 1)) for _, (_, n) in reversed(segs))
            elif bound[0] == 'len':
                from models import index_segs
                segs = index_segs(bound[1], op == 'Sub')
            else:
                continue
            r = self.count_through(fn, d, bb, st.fork(), stops, i, op, segs, bound)
            if r is not None:
                return r
        return None

    def count_through(self, fn, d, bb, st, stops, i, op, segs, bound):
        outs, arrs = [], {}
        live = (d, fn.live_at(bb))

        class Not(Exception):
            pass

        def body(s, ix):
            s.setl(d, i, ix)
            o, a = self.run(fn, d, [(bb, s)], stops | {bb}, first=True)
            mine = []
            for x in a.pop(bb, []):
                now = x.frames[d].get(i)
                want = ('ix',) + ix[1:] if op == 'Sub' and ix[0] == 'ixr' else None
                if ix[0] == 'int':
                    want = I(ix[1] + (1 if op == 'Add' else -1))
                elif op == 'Add':
                    want = ('op', 'Add', ix, I(1))
                if now != want:
                    raise Not
                x.setl(d, i, ix)
                mine.append((x, ()))
            return mine, o, a
        cur = [st]
        try:
            for g in segs:
                nxt = []
                for s in cur:
                    if g[0] == 'one':
                        m, o, a = body(s, g[1])
                    else:
                        m, o, a = self.summarize(s, g, body, live, skip=(('L', d, i),))
                    nxt.extend(x for x, _ in m)
                    outs.extend(o)
                    for k, v in a.items():
                        arrs.setdefault(k, []).extend(v)
                cur = self.join_states(fn, d, bb, nxt) if nxt else []
        except Not:
            return None
        for s in cur:
            s.setl(d, i, bound if op == 'Add' else I(0))
            o, a = self.run(fn, d, [(bb, s)], stops | {bb}, first=True)
            if a.pop(bb, None):
                return None          # the loop goes on although the counter is at its end
            outs.extend(o)
            for k, v in a.items():
                arrs.setdefault(k, []).extend(v)
        return outs, arrs

    def header_loop(self, fn, d, bb, st, stops):
        r = self.index_loop(fn, d, bb, st, stops)
        if r is not None:
            return r
        key = ('while', self.p.np(fn.j['path']), len([a for a in self.active if a[0] == 'while']))
        h = ('rep', key, key, ((frozenset(), (('one', UNIT),)),))

        def body(s, elem):
            o, a = self.run(fn, d, [(bb, s)], stops | {bb}, first=True)
            mine = [(x, ()) for x in a.pop(bb, [])]
            return mine, o, a
        live = (d, fn.live_at(bb))
        exits, outs, arrs = self.summarize(st, h, body, live, header=True)
        return outs, arrs

    # widening -----------------------------------------------------------
    def widen(self, v0, v1, path, acc):
        """compare value before (v0) and after (v1) one iteration; record changed paths in acc"""
        if v0 == v1:
            return
        if v0[0] == 'struct' and v1[0] == 'struct' and v0[1] == v1[1] and v0[2] == v1[2] and v0[1] not in (OPT, RES):
            for (n, a), (_, b) in zip(v0[3], v1[3]):
                self.widen(a, b, path + (n,), acc)
            return
        if v1[0] == 'upd' and (v0 == v1[1] or v0[0] == 'upd' and v0[1] == v1[1]):
            for n in dict(v1[2]):
                self.widen(mk_fld(v0, n), mk_fld(v1, n), path + (n,), acc)
            return
        if v1[0] == 'list' and v0[0] != 'list' and ('all', v0) in (v1[1][0], v1[1][-1]):
            v0 = as_list(v0)
        if v0[0] in ('list', 'map') and v1[0] == v0[0]:
            s0, s1 = v0[1], v1[1]
            if s1[:len(s0)] == s0:
                acc.setdefault(path, 'acc')
                return
            if len(s0) and s1[-len(s0):] == s0:
                acc.setdefault(path, 'pre')
                return
            if not s0:
                acc.setdefault(path, 'acc')
                return
        if (v0[0] in ('str', 'cat') and v1[0] in ('str', 'cat') or v0 == S('') or v0[0] == 'prev' and v1[0] == 'cat') and str_prefix(v0, v1) is not None:
            acc.setdefault(path, 'cat')
            return
        acc[path] = 'lv'

    def summarize(self, st0, group, run_body, live, skip=(), header=False):
        """one-element loop summary with widening.
        run_body(st, elem) -> (arrivals [(st, yields)], outs, other_arrivals)"""
        _, src, e0, alts = group
        n = sum(1 for a in self.active if a[:2] == e0[:2])
        e = e0 if header else (e0[:2] + (n,))
        if e != e0:
            alts = subst(alts, {e0: e})
        self.active.append(e)
        try:
            return self._summarize(st0, src, e, alts, run_body, live, skip, header)
        finally:
            self.active.pop()

    def _summarize(self, st0, src, e, alts, run_body, live, skip, header):
        uidb = ('it', e)
        changed = {}   # key -> {path: kind}
        last = None
        for rnd in range(7):
            st_in = st0.fork()
            for key, paths in changed.items():
                v = self.key_read(st_in, key)
                for path, kind in paths.items():
                    cur = path_get(v, path)
                    uid = ('prev', uidb, key, path)
                    if kind in ('acc', 'pre'):
                        cur = as_list(cur)
                    if kind == 'acc':
                        new = (cur[0], cur[1] + (uid,))
                    elif kind == 'pre':
                        new = (cur[0], (uid,) + cur[1])
                    elif kind == 'cat':
                        new = mk_cat([cur, uid])
                    else:
                        new = ('lv', uidb, key, path)
                    v = path_set(v, path, new)
                self.key_write(st_in, key, v)
            base = st_in.fork()
            arrivals, outs, arrs = [], [], {}
            for facts, segs in alts:
                cur = [(base.fork(), ())]
                dead = False
                for a, val in sorted(facts, key=repr):
                    nxt = []
                    for s, y in cur:
                        if a[0] in ('is', 'val'):
                            ex = s.facts.get(a)
                            if isinstance(ex, str) and isinstance(val, str) and ex != val:
                                continue
                            if a[0] == 'val' and ex is not None and ex != val:
                                continue
                            s.setf(a, val)
                            nxt.append((s, y))
                        else:
                            for s2 in self.assume(s, a, val):
                                nxt.append((s2, y))
                    cur = nxt
                for sg in segs:
                    nxt = []
                    for s, y in cur:
                        if sg[0] == 'one':
                            m, o, a2 = run_body(s, sg[1])
                            nxt.extend((x, y + yy) for x, yy in m)
                            outs.extend(o)
                            for k, v in a2.items():
                                arrs.setdefault(k, []).extend(v)
                        else:
                            if sg[0] == 'all':
                                sg = ('rep', sg[1], ('elem', sg[1], 0), ((frozenset(), (('one', ('elem', sg[1], 0)),)),))
                            ex, o, a2 = self.summarize(s, sg, run_body, live, skip)
                            nxt.extend((x, y + yy) for x, yy in ex)
                            outs.extend(o)
                            for k, v in a2.items():
                                arrs.setdefault(k, []).extend(v)
                    cur = nxt
                arrivals.extend(cur)
            new = False
            for s, y in arrivals:
                for key, v0, v1 in self.state_diff(base, s, live, skip):
                    acc = {}
                    self.widen(v0, v1, (), acc)
                    have = changed.get(key, {})
                    for path, kind in acc.items():
                        # compatible with what is already widened?
                        if path in have and (have[path] == kind or have[path] == 'lv'):
                            continue
                        if any(len(p) < len(path) and path[:len(p)] == p for p in have):
                            continue
                        for p in [p for p in have if p[:len(path)] == path and p != path]:
                            del have[p]
                        have[path] = 'lv' if path in have else kind
                        changed[key] = have
                        new = True
            if not new:
                break
        else:
            raise Budget('loop does not stabilise in ' + self.where())
        # resolve
        m = {}
        exitv = {}
        for key, paths in changed.items():
            base_v = self.key_read(base, key)
            v0 = self.key_read(st0, key)
            newv = v0
            for path, kind in paths.items():
                b = path_get(base_v, path)
                i0 = path_get(v0, path)
                if kind in ('acc', 'pre'):
                    i0 = as_list(i0)
                uid = ('prev', uidb, key, path)
                rows = []
                for s, y in arrivals:
                    f = self.delta(base, s)
                    x = path_get(self.key_read(s, key), path)
                    if kind == 'acc':
                        rows.append((f, x[1][len(b[1]):]))
                    elif kind == 'pre':
                        rows.append((f, x[1][:len(x[1]) - len(b[1])]))
                    elif kind == 'cat':
                        rows.append((f, (('one', str_prefix(b, x)),)))
                    else:
                        rows.append((f, self.deep(s, x)))
                if kind == 'acc':
                    seg = norm_rep(src, e, rows)
                    part = (('part', src, e, merge_alts(rows)),)
                    val = mk_list(i0[1] + seg) if i0[0] == 'list' else (i0[0], i0[1] + seg)
                    m[uid] = part[0]
                    m[('rprev',) + uid[1:]] = ('rpart',) + part[0][1:]
                elif kind == 'pre':
                    seg = norm_rep(src, e, rows)
                    seg = tuple(('rrep',) + x[1:] if x[0] == 'rep' else ('rall',) + x[1:] for x in seg)
                    val = mk_list(seg + i0[1])
                    m[uid] = ('rpart', src, e, merge_alts(rows))
                    m[('rprev',) + uid[1:]] = ('part',) + m[uid][1:]
                elif kind == 'cat':
                    m[uid] = ('join', ('list', norm_rep(src, e, rows)), S(''))
                    sep = separated(rows, e) if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 else None
                    import models
                    if sep:
                        rep = models.mk_join(('list', norm_rep(src, e, sep[1])), sep[0])
                    else:
                        rep = models.mk_join(('list', norm_rep(src, e, rows)), S(''))
                    val = mk_cat([i0, rep])
                else:
                    rows2 = []
                    me = ('lv', uidb, key, path)
                    for f, x in rows:
                        if x == me:
                            continue
                        rows2.append((f, x))
                    ar = merge_alts(rows2) if rows2 else ()
                    keep = any(x == me for _, x in rows)
                    if len(ar) == 1 and not keep and not ar[0][0]:
                        pass
                    elif len(ar) == 1 and keep:
                        # merge_alts dropped the condition; restore it
                        ar = tuple((f2, ar[0][1]) for f2 in merge_dnf([f for f, x in rows2]))
                    val = ('loopval', e, self.deep(st0, i0), subst(ar, {me: ('self',)}))
                    m[me] = val if header else ('loopat',) + val[1:]
                newv = path_set(newv, path, val)
            exitv[key] = newv
        # order-independent resolution of nested markers
        if m:
            for _ in range(3):
                sizes = {k: size(v, None, 400000) for k, v in m.items()}
                if sum(size(v, sizes, 400000) for v in m.values()) > 400000:
                    # too deeply nested to be written out: of what the others
                    # were before this turn, nothing is known
                    m = {k: subst(v, {a: ('before', rkey(a)) for a in m if a != k}) for k, v in m.items()}
                    break
                m2 = {k: subst(v, {a: b for a, b in m.items() if a != k}) for k, v in m.items()}
                if m2 == m:
                    break
                m = m2
            exitv = {k: subst(v, m) for k, v in exitv.items()}
            outs = [(self.subst_state(s, m), k, subst(v, m)) for s, k, v in outs]
            arrs = {b: [self.subst_state(s, m) for s in v] for b, v in arrs.items()}
        if header:
            # leaving paths are in outs/arrs already
            return [], outs, arrs
        yrows = [(self.delta(base, s), subst(y, m) if m else y) for s, y in arrivals]
        ysegs = norm_rep(src, e, yrows) if arrivals else ()
        ex = st0.fork()
        for key, v in exitv.items():
            self.key_write(ex, key, v)
        # symbolic places first written inside the loop
        gl = {}
        for s, y in arrivals:
            for k, v in s.glob.items():
                if k[0] == 'S' and k not in base.glob:
                    gl.setdefault(k, []).append((self.delta(base, s), subst(v, m)))
        for k, rows in gl.items():
            vals = {v for _, v in rows}
            if len(vals) == 1 and len(rows) == len(arrivals):
                ex.setg(k, rows[0][1])
            else:
                ex.setg(k, ('alts', e, tuple(rows)))
        # facts established by every completed iteration
        if arrivals:
            common = None
            for s, y in arrivals:
                f = self.delta(base, s)
                common = f if common is None else (common & f)
            if m:
                common = {(subst(a, m), val) for a, val in common or ()}
            dead = False
            for a, val in sorted(common or (), key=repr):
                if self.marker(a) or not mentions(a, e) or a[0] in ('is', 'val'):
                    continue
                h = self.has_atom(src, e, {(a, not val)})
                if h is None:
                    continue
                known = self.decide(ex, h)
                if known is True:
                    dead = True         # some element leaves the loop before its end
                elif known is None:
                    ex.setf(h, False)
                # paths that left the loop on that condition found it
                kept = []
                for s, k, v in outs:
                    if s.facts.get(a) is (not val):
                        if known is False:
                            continue
                        if val is False:
                            s.setf(h, True)
                    kept.append((s, k, v))
                outs = kept
                for bb, ss in list(arrs.items()):
                    kept = []
                    for s in ss:
                        if s.facts.get(a) is (not val):
                            if known is False:
                                continue
                            if val is False:
                                s.setf(h, True)
                        kept.append(s)
                    arrs[bb] = kept
            if dead:
                return [], self.canon_found(src, e, outs), self.canon_arrs(src, e, arrs)
        outs = self.canon_found(src, e, outs)
        return [(ex, ysegs)], outs, self.canon_arrs(src, e, arrs)

    def canon_arrs(self, src, e, arrs):
        res = {}
        for bb, ss in arrs.items():
            res[bb] = []
            for s in ss:
                rep = [('lookup',) + a[1:] for a, val in s.facts.items() if a[0] == 'has' and val is True and a[1] == src and a[2][0] == 'by']
                res[bb].append(self.subst_state(s, {e: rep[0]}) if rep else s)
        return res

    def canon_found(self, src, e, outs):
        """a path that left the loop because e.X == k holds the looked-up element"""
        res = []
        for s, k, v in outs:
            rep = None
            for a, val in s.facts.items():
                if a[0] == 'has' and val is True and a[1] == src and a[2][0] == 'by':
                    rep = ('lookup', a[1], a[2], a[3])
            if rep is not None and (mentions(v, e) if isinstance(v, tuple) else False):
                mm = {e: rep}
                s = self.subst_state(s, mm)
                v = subst(v, mm)
            res.append((s, k, v))
        return res

    def marker(self, a):
        """mentions a loop-internal placeholder"""
        if not isinstance(a, (tuple, frozenset)):
            return False
        if isinstance(a, tuple) and a and a[0] in ('prev', 'lv'):
            return True
        return any(self.marker(x) for x in a)

    def has_atom(self, src, e, facts):
        return mk_has(src, e, facts)

    def subst_state(self, s, m):
        n = s.fork()
        for d, fr in enumerate(n.frames):
            new = None
            for i, v in fr.items():
                w = subst(v, m)
                if w is not v and w != v:
                    if new is None:
                        new = dict(fr)
                    new[i] = w
            if new is not None:
                n.frames[d] = new
                n.owned.add(d)
        g = {}
        for k, v in n.glob.items():
            g[subst(k, m)] = subst(v, m)
        n.glob = g
        n.gown = True
        n.facts = {subst(k, m): (subst(v, m) if isinstance(v, tuple) else v) for k, v in n.facts.items()}
        n.fown = True
        return n

    def delta(self, base, s):
        """facts added since base, without bookkeeping duplicates"""
        out = set()
        for k, v in s.facts.items():
            if k in base.facts and base.facts[k] == v:
                continue
            if k[0] == 'val' and s.facts.get(('eq', k[1], v)) is True:
                continue
            if k[0] == 'eq' and v is False and ('val', k[1]) in s.facts:
                continue
            out.add((k, v))
        return frozenset(out)

    def key_read(self, st, key):
        if key[0] == 'L':
            return st.frames[key[1]].get(key[2], UNDEF)
        return st.glob.get(key, key[1] if key[0] == 'S' else (('list', ()) if key == ('ev',) else UNDEF))

    def key_write(self, st, key, v):
        if key[0] == 'L':
            st.setl(key[1], key[2], v)
        else:
            st.setg(key, v)

    def state_diff(self, a, b, live, skip):
        out = []
        ld, lset = live
        for d in range(min(len(a.frames), len(b.frames))):
            fa, fb = a.frames[d], b.frames[d]
            if fa is fb:
                continue
            for i, v in fb.items():
                if d == ld and i not in lset:
                    continue
                if ('L', d, i) in skip:
                    continue
                if d == ld and i not in fa:
                    continue
                v0 = fa.get(i, UNDEF)
                if v0 != v:
                    out.append((('L', d, i), v0, v))
        if a.glob is not b.glob:
            for k, v in b.glob.items():
                if k in skip:
                    continue
                if k[0] == 'S' and k not in a.glob:
                    # a place that does not depend on the loop element but was
                    # first touched inside it is carried; otherwise per-element
                    if not any(mentions(k, x) for x in self.active[-1:]):
                        out.append((k, k[1], v))
                    continue
                v0 = a.glob.get(k, ('list', ()) if k == ('ev',) else UNDEF)
                if v0 != v:
                    out.append((k, v0, v))
        return out


class ProbeHit(Exception):
    """the probed counter is compared with the argument"""


def ix_compare(op, a, b):
    """comparison of an index into a list with 0 or the length of the list; None: unknown"""
    from models import same_list
    if b[0] in ('ix', 'ixr'):
        op, a, b = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op), b, a
    if b[0] == 'len' and a[0] == 'ix' and same_list(b[1], a[1]):      # 0 <= ix < len
        return {'Lt': TRUE, 'Le': TRUE, 'Ne': TRUE, 'Gt': FALSE, 'Ge': FALSE, 'Eq': FALSE}[op]
    if b == I(0) and a[0] == 'ixr':                                    # 0 < ixr <= len
        return {'Gt': TRUE, 'Ge': TRUE, 'Ne': TRUE, 'Lt': FALSE, 'Le': FALSE, 'Eq': FALSE}[op]
    if b == I(0) and a[0] == 'ix' and op in ('Ge', 'Lt'):
        return TRUE if op == 'Ge' else FALSE
    return None


def fn_is_std(p):
    return p.startswith(('std::', 'core::', 'alloc::', '<'))


def count_calls(log, p, dargs):
    n = 0

    def walk(segs):
        nonlocal n
        for s in segs:
            if s[0] == 'one':
                if s[1][1] == p and s[1][2] == dargs:
                    n += 1
            elif s[0] in ('rep', 'part'):
                for a in s[3]:
                    walk(a[1])
    walk(log[1])
    return n


def separated(rows, e):
    """(separator, rows without it) if every element but the first comes after the same constant"""
    i, z = ('idxvar', e), ('int', 0)
    tests = {('eq', i, z): True, ('eq', z, i): True, ('lt', z, i): False, ('lt', i, ('int', 1)): True, ('le', ('int', 1), i): False}
    by = ({}, {})
    for f, x in rows:
        first = {v == tests[k] for k, v in f if k in tests}
        if len(first) != 1:
            return None
        first = first.pop()
        g = frozenset((k, v) for k, v in f if k not in tests and k != ('val', i))
        if g in by[first]:
            return None
        by[first][g] = x[0][1]
    if set(by[0]) != set(by[1]) or not by[0]:
        return None
    sep = None
    for g, x in by[1].items():
        y = by[0][g]
        ys = y[1] if y[0] == 'cat' else (y,)
        if len(ys) < 2 and x != S('') or ys[0][0] != 'str':
            return None
        xs = x[1][0] if x[0] == 'cat' else x
        n = len(ys[0][1]) - (len(xs[1]) if xs[0] == 'str' else 0)
        c = S(ys[0][1][:n])
        if n <= 0 or sep not in (None, c) or str_prefix(c, y) != x:
            return None
        sep = c
    return sep, [(g, (('one', x),)) for g, x in by[1].items()]


def str_prefix(a, b):
    """b == a ++ r  ->  r, else None"""
    pa = a[1] if a[0] == 'cat' else (() if a == S('') else (a,))
    pb = b[1] if b[0] == 'cat' else (() if b == S('') else (b,))
    if not pa:
        return b
    for i in range(len(pa) - 1):
        if i >= len(pb) or pa[i] != pb[i]:
            return None
    i = len(pa) - 1
    if i >= len(pb):
        return None
    if pa[i] == pb[i]:
        return mk_cat(pb[i + 1:])
    if pa[i][0] == 'str' and pb[i][0] == 'str' and pb[i][1].startswith(pa[i][1]):
        return mk_cat((('str', pb[i][1][len(pa[i][1]):]),) + tuple(pb[i + 1:]))
    return None


def bounds(eng, st, x):
    """what the conditions say about an integer: lowest, highest, excluded"""
    lo = hi = None
    ne = []
    if x[0] == 'len':
        lo = 0
        if x[1][0] == 'cat':
            # a text is at least as long as what is known of it
            lo = sum(len(p[1].encode()) if p[0] in ('str', 'char') else filled(eng, p) for p in x[1][1])
    for a, val in st.facts.items():
        if a[0] == 'lt' and (a[1] == x or a[2] == x):
            if a[1] == x and a[2][0] == 'int':
                c = a[2][1]
                if val is True:
                    hi = c - 1 if hi is None else min(hi, c - 1)
                else:
                    lo = c if lo is None else max(lo, c)
            elif a[2] == x and a[1][0] == 'int':
                c = a[1][1]
                if val is True:
                    lo = c + 1 if lo is None else max(lo, c + 1)
                else:
                    hi = c if hi is None else min(hi, c)
        elif a[0] == 'eq' and a[1] == x and a[2][0] == 'int' and val is True:
            lo = hi = a[2][1]
    return lo, hi, ne


def filled(eng, v):
    f = getattr(eng, 'texts', None)
    a = f(v) if f else None
    return bool(a and a.get('trimmed'))


def as_list(v):
    return v if v[0] in ('list', 'map') else ('list', (('all', v),))


def path_get(v, path):
    for n in path:
        v = mk_fld(v, n)
    return v


def path_set(v, path, x):
    if not path:
        return x
    return mk_upd(v, path[0], path_set(mk_fld(v, path[0]), path[1:], x))
