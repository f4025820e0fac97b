"""C01: every attribute difference between two snapshots is staged, and applying the
staged changes yields the target.  C02: every added, removed or kind-changed object is."""
import functools
import itertools
from engine import *
from snap import *
from pp import short, fs
from checks.c03 import APPLY

DIFF = 'snapshot::diff::compare_diff'
PARENTS = {'schema': [], 'rel': ['schema'], 'fn': ['schema'], 'col': ['schema', 'rel'], 'con': ['schema', 'rel']}


def diff_summary(ctx):
    if 'diff' not in ctx.cache:
        eng = ctx.engine(max_steps=2000000)
        outs = eng.call_fn(St(), ctx.fn(DIFF), [('ref', ('S', ('root', 'S')), ()), ('ref', ('S', ('root', 'T')), ())])
        ctx.saw(eng, len(outs))
        canon = Canon({'S': 'S', 'T': 'T'})
        res = []
        for s, k, v in outs:
            if k != 'ret':
                res.append((canon.facts(frozenset(s.facts.items())), k, v))
            else:
                res.append((canon.facts(frozenset(s.facts.items())), k, canon(eng.deep(s, v))))
        ctx.cache['diff'] = (eng, canon, res)
    return ctx.cache['diff']


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


class Odd(Exception):
    pass


PAIR_DIFFERS = ('pred', frozenset({(('eq', ('fld', ('it',), '0'), ('fld', ('it',), '1')), False)}))


def whole(l):
    """the collection of which l is the list of all elements"""
    if l[0] == 'list' and len(l[1]) == 1:
        s = l[1][0]
        if s[0] == 'all' or s[0] == 'rep' and s[3] == ((frozenset(), (('one', s[2]),)),):
            return s[1]
    return None


class Scen:
    """what is the same and what differs between the two snapshots.
       objects of a level share one name; has[side] = levels present;
       kind[side][level] = variant; diff = set of (kind, attribute) that differ;
       opt = {(side, kind, attr): 'Some'/'None'} for optional attributes"""

    def __init__(self, name, has, kind, diff=(), opt=()):
        self.name = name
        self.has = has
        self.kind = kind
        self.diff = set(diff)
        self.opt = dict(opt)
        self.choice = {}

    def key(self, k):
        """is k the shared name of a level?"""
        if isinstance(k, tuple) and k and k[0] == 'key' and k[1][0] == 'C':
            return k[1][2]
        if isinstance(k, tuple) and k and k[0] == 'nm':
            return k[1]
        return None

    def norm(self, t):
        """rewrite names to the shared name of their level, unchanged attributes to the target's"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'key' and len(t) == 3 and t[1][0] == 'C':
            return ('nm', t[1][2])
        if t[0] == 'O':
            return ('O', t[1], t[2], self.names(t[2]))
        if t[0] == 'C':
            return ('C', t[1], t[2], self.names('C' + t[2]))
        if t[0] == 'A':
            if (t[2], t[4]) not in self.diff and t[2] in self.kinds('S') and t[2] in self.kinds('T'):
                return ('A', 'T', t[2], self.names(t[2]), t[4])
            return ('A', t[1], t[2], self.names(t[2]), t[4])
        return tuple(self.norm(x) if isinstance(x, tuple) else (frozenset((self.norm(a), b) for a, b in x) if isinstance(x, frozenset) else x) for x in t)

    def names(self, kind):
        lv = {'db': (), 'schema': ('schema',), 'rel': ('schema', 'rel'), 'fn': ('schema', 'fn'), 'col': ('schema', 'rel', 'col'),
              'con': ('schema', 'rel', 'con'), 'Cschema': (), 'Crel': ('schema',), 'Cfn': ('schema',), 'Ccol': ('schema', 'rel'), 'Ccon': ('schema', 'rel')}
        if kind in REL:
            kind = 'rel'
        if kind in CON:
            kind = 'con'
        return tuple(('nm', x) for x in lv[kind])

    def kinds(self, side):
        return {self.kind[side].get(l, l) for l in self.has[side]}

    def present(self, coll):
        return coll[2] in self.has[coll[1]] and all(p in self.has[coll[1]] for p in PARENTS[coll[2]])

    def same(self, a, b):
        """do two canonical terms denote the same value?"""
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        for x, y in ((a, b), (b, a)):
            if x[0] == 'A' and y[0] == 'A' and x[2:] == y[2:]:
                return False       # both sides of a differing attribute
            if x[0] == 'nm' and y[0] == 'nm':
                return None
            # payloads of optional attributes
            if x[0] == 'fld' and y[0] == 'fld' and x[2] == y[2] == 'Some.0':
                return self.same(x[1], y[1])
        if a[0] == 'O' and b[0] == 'O' and a[2:] == b[2:]:
            return not any(k == a[2] for k, f in self.diff)
        return None

    def boolean(self, a):
        r = self.known(a)
        if r is None:
            if a in self.choice:
                return self.choice[a]
            raise Need(a)
        return r

    def known(self, a):
        k = a[0]
        if k == 'bool':
            return a[1]
        if k == 'not':
            return not self.boolean(a[1])
        if k == 'and':
            return all([self.boolean(x) for x in a[1]])
        if k == 'or':
            return any([self.boolean(x) for x in a[1]])
        if k == 'andp':
            return self.variant(a[1]) == 'Some' and self.boolean(a[2])
        if k == 'has' and len(a) == 3:
            if self.key(a[2]) == a[1][2]:
                return self.present(a[1])
            return None
        if k == 'has' and a[1][0] == 'zip' and len(a) == 4 and a[2] == PAIR_DIFFERS:
            x, y = whole(a[1][1]), whole(a[1][2])
            same = self.same(x, y) if x and y else None
            if same is None:
                return None
            if same:
                return False
            for c, v in self.choice.items():
                if c[0] == 'eq' and v and self.norm(('len', x)) in self.norm(c) and self.norm(('len', y)) in self.norm(c):
                    return True
            return None
        if k == 'has' and len(a) == 4 and a[1][0] == 'C' and not self.present(a[1]):
            return False
        if k == 'empty' and a[1][0] == 'C':
            return not self.present(a[1])
        if k == 'eq':
            return self.same(a[1], a[2])
        if k == 'is':
            return None
        return None

    def variant(self, x):
        if x[0] == 'O' and x[2] in ('rel', 'con'):
            return self.kind[x[1]].get(x[2])
        n = self.norm(x)
        if n[0] == 'A':
            o = self.opt.get((n[1], n[2], n[4]))
            if o:
                return o
        if ('is', x) in self.choice:
            return self.choice[('is', x)]
        for k, v in self.choice.items():
            if k[0] == 'is' and self.norm(k[1]) == n:
                return v
        return None

    def holds(self, atom, val):
        if atom[0] == 'is':
            v = self.variant(atom[1])
            if v is None:
                raise Need(atom)
            return v == val
        if atom[0] == 'andp' and isinstance(val, bool):
            return self.boolean(atom) == val
        return self.boolean(atom) == val

    def valued(self):
        ch = {self.norm(a): v for a, v in self.choice.items()}

        def known(a):
            if a[0] == 'is' and a[1][0] == 'A':
                return self.opt.get((a[1][1], a[1][2], a[1][4])) or ch.get(a)
            return ch.get(a)
        return known

    def all(self, facts):
        """do all facts hold?  (unknown ones are only asked for when nothing already fails)"""
        need = None
        for a, v in facts:
            try:
                if not self.holds(a, v):
                    return False
            except Need as e:
                need = e
        if need:
            raise need
        return True


def walk(sc, segs, out):
    for s in segs:
        k = s[0]
        if k == 'one':
            out.append(s[1])
        elif k in ('rep', 'rrep'):
            src = s[1]
            if src[0] == 'C':
                if not sc.present(src):
                    continue
            else:
                raise Odd('changes are produced per element of %s' % short(src)[:200])
            hit = [x for f, x in s[3] if sc.all(f)]
            if len(hit) > 1 and any(h != hit[0] for h in hit):
                raise Odd('ambiguous branches')
            if hit:
                walk(sc, hit[0], out)
        elif k == 'sorted':
            inner = []
            walk(sc, s[1], inner)
            out.append(('SORT', s[2], inner))
        elif k in ('all', 'rall'):
            raise Odd('copies %s' % short(s[1])[:200])
        else:
            raise Odd('list segment %s' % k)


def emitted(ctx, sc):
    """all possible change lists of the diff under a scenario (one per valuation of unrelated conditions)"""
    eng, canon, res = diff_summary(ctx)
    todo = [{}]
    done = []
    while todo:
        if len(todo) + len(done) > 256:
            raise AnalysisError('too many unrelated conditions in scenario %s' % sc.name)
        ch = todo.pop()
        sc.choice = ch
        try:
            outs = []
            for facts, k, v in res:
                if sc.all(facts):
                    if k != 'ret':
                        outs.append(('panic', v))
                    else:
                        o = []
                        walk(sc, v[1], o)
                        outs.append(('ret', o))
            done.append((ch, outs))
        except Need as e:
            a = e.atom
            if a[0] == 'is':
                for v in domain(ctx, a):
                    todo.append({**ch, a: v})
            else:
                todo.append({**ch, a: True})
                todo.append({**ch, a: False})
    return done


def domain(ctx, a):
    x = a[1]
    _, _, res = diff_summary(ctx)
    vals = set()

    def scan(t):
        if isinstance(t, frozenset):
            for y in t:
                if y[0] == a:
                    vals.add(y[1])
                scan(y[0])
        elif isinstance(t, tuple):
            for y in t:
                scan(y)
    scan(tuple(r[0] for r in res))
    scan(tuple(r[2] for r in res))
    return sorted(vals)


def key_of(ctx, v):
    """a concrete sort key as a python value"""
    if v[0] in ('int', 'str', 'bool'):
        return v[1]
    if v[0] == 'tuple':
        ks = tuple(key_of(ctx, x) for x in v[1])
        return None if None in ks else ks
    if v[0] == 'struct' and v[1].endswith('cmp::Reverse'):
        k = key_of(ctx, v[3][0][1])
        return -k if isinstance(k, int) else None
    if v[0] == 'struct' and v[1] == 'std::option::Option':
        return (0,) if v[2] == 'None' else (1, key_of(ctx, v[3][0][1]))
    if v[0] == 'struct' and not v[3]:
        adt = ctx.prog.adts.get(v[1])
        if adt:
            return [y['name'] for y in adt['variants']].index(v[2])
    return None


def sign(ctx, v):
    """a concrete std::cmp::Ordering as -1, 0 or 1"""
    if v[0] == 'struct' and v[1] == 'std::cmp::Ordering':
        return {'Less': -1, 'Equal': 0, 'Greater': 1}.get(v[2])
    if v[0] == 'op' and v[1] == 'cmp':
        a, b = key_of(ctx, v[2]), key_of(ctx, v[3])
        return None if a is None or b is None else (a > b) - (a < b)
    return None


def apply_key(ctx, f, ws):
    e2 = ctx.engine()
    args = [('ref', ('V', ('struct', 'snapshot::changes::Change', w, (('0', ('root', 'payload%d' % i)),))), ())
            for i, w in enumerate(ws)]
    try:
        vals = {e2.deep(o[0], o[2]) for o in e2.invoke(St(), f, args) if o[1] == 'ret'}
        return vals.pop() if len(vals) == 1 else None
    except (AnalysisError, KeyError, IndexError, TypeError):
        return None


def arity(ctx, f):
    if f[0] == 'closure' and f[1] is not None:
        return ctx.prog.fns[f[1]]['argc'] - 1
    if f[0] == 'fn':
        c = ctx.prog.types[f[1]]['callee']
        return ctx.prog.fns[c['fn']]['argc'] if c.get('fn') is not None else 1
    return 1


def sort_cmp(ctx, by, a, b):
    """sign of the comparison of change kinds a and b under the sort's key or comparator"""
    if by[0] == 'desc':
        r = sort_cmp(ctx, by[1], a, b)
        return None if r is None else -r
    ck = ('sortcmp', by, a, b)
    if ck not in ctx.cache:
        ctx.cache[ck] = None
        f = by[1] if by[0] == 'closure' else by[1][1] if by[0] == 'unstable' and by[1][0] == 'closure' else None
        if f is not None:
            if arity(ctx, f) == 2:
                v = apply_key(ctx, f, (a, b))
                ctx.cache[ck] = None if v is None else sign(ctx, v)
            else:
                v = [apply_key(ctx, f, (x,)) for x in (a, b)]
                k = [None if x is None else key_of(ctx, x) for x in v]
                if None not in k:
                    ctx.cache[ck] = (k[0] > k[1]) - (k[0] < k[1])
    return ctx.cache[ck]


def order(ctx, items):
    out = []
    for it in items:
        if isinstance(it, tuple) and it and it[0] == 'SORT':
            inner = order(ctx, it[2])
            ks = [change_of(c)[0] for c in inner]
            if all(sort_cmp(ctx, it[1], x, y) is not None for x in ks for y in ks):
                inner = sorted(inner, key=functools.cmp_to_key(
                    lambda x, y: sort_cmp(ctx, it[1], change_of(x)[0], change_of(y)[0])))
            out += inner
        else:
            out.append(it)
    return out


def interpret(ctx, sc, changes):
    """apply the documented effects of a change list to S (as far as the scenario mentions it)"""
    prog = ctx.prog
    present, kind = {}, {}
    for level in ('schema', 'rel', 'fn', 'col', 'con'):
        c = ('C', 'S', level, sc.names('C' + level))
        present[(c, ('nm', level))] = sc.present(c)
        if level in ('rel', 'con') and sc.present(c):
            kind[('O', 'S', level, sc.names(level))] = sc.kind['S'][level]
    st = Store(present, kind)
    touched = []
    for c in changes:
        W, fields = change_of(sc.norm(c))
        if W is None:
            raise Bad('emits something that is not a change: %s' % short(c)[:200])
        try:
            sp = spec(W, lambda f: fields[f], prog, 'S')
        except KeyError as e:
            raise Bad('emits a %s without %s' % (W, e))
        for e in sp:
            # what is inside a new table or schema comes with it
            if e[0] == 'ins' and e[3][0] == 'new' and e[3][1] == 'Table':
                cols = dict(e[3][2])['columns']
                st.apply(e)
                add_cols(sc, st, e, cols)
            elif e[0] == 'del' and e[3] == 'Table':
                inside(sc, st, e)
                st.apply(e)
            else:
                st.apply(e)
            touched.append((W, e))
    return st, touched


def add_cols(sc, st, e, cols):
    src = cols[1]
    if cols[0] != 'cols':
        raise Bad('columns of a new table: %s' % short(cols)[:100])
    if src[0] == 'list':
        items = []
        o = []
        try:
            walk(sc, src[1], o)
        except Odd as ex:
            raise Bad('columns of a new table: %s' % ex)
        for x in o:
            d = {n: sc.norm(v) for n, v in sc.norm(x)[3]}
            d['schema_name'], d['table_name'] = cols[2], cols[3]
            items.append(d)
    elif src[0] == 'C':
        items = []
        if sc.present(src):
            raise Bad('columns of a new table are not described')
    else:
        raise Bad('columns of a new table: %s' % short(src)[:100])
    for d in items:
        coll = ('C', 'S', 'col', (e[1][3] + (e[2],)))
        v = ('new', 'col', tuple(sorted(d.items())))
        if (coll, d['name']) in st.present0 and st.get(coll, d['name']) not in (ABSENT,):
            # an old table of that name was dropped with its columns
            pass
        st.now[(coll, d['name'])] = v


def inside(sc, st, e):
    """dropping a table drops its columns; constraints must go first (their reverses are separate changes)"""
    keys = e[1][3] + (e[2],)
    for (coll, key) in list(st.present0):
        if coll[3] == keys and coll[2] == 'col':
            st.now[(coll, key)] = ABSENT
        if coll[3] == keys and coll[2] == 'con' and st.get(coll, key) != ABSENT:
            raise Bad('drops a table before its constraint is dropped, so the reverse loses the constraint')


def compare(ctx, sc, st, loc, tag):
    """the store must now equal T"""
    prog = ctx.prog
    for level in ('schema', 'rel', 'fn', 'col', 'con'):
        cS = ('C', 'S', level, sc.names('C' + level))
        cT = ('C', 'T', level, sc.names('C' + level))
        v = st.get(cS, ('nm', level))
        want = sc.present(cT)
        if not want:
            ctx.ob(v == ABSENT, '%s:%s' % (tag, level), '%s: the %s that the target lacks is still there' % (sc.name, level), loc)
            continue
        if not ctx.ob(v != ABSENT, '%s:%s' % (tag, level), '%s: the %s of the target is missing after the staged changes' % (sc.name, level), loc):
            continue
        kind = sc.kind['T'].get(level, level)
        if not ctx.ob(kind_of(v) == kind, '%s:%s' % (tag, level), '%s: the %s is a %s, not a %s' % (sc.name, level, kind_of(v), kind), loc):
            continue
        for f in attrs(prog, kind) + [f for (k2, f) in NAMES if k2 == kind]:
            got = field_of(v, f)
            got = sc.norm(got) if got is not None else None
            if (kind, f) in NAMES:
                w = ('nm', ('schema', 'rel' if level in ('rel', 'col', 'con') else level, level)[NAMES[(kind, f)]])
            else:
                w = sc.norm(('A', 'T', kind, sc.names(kind), f))
            if got == w:
                ctx.good()
                continue
            if got == ('undescribed',):
                if sc.opt.get(('T', kind, f)) != 'None':
                    ctx.ob(False, '%s.%s:undescribed' % (kind, f), '%s: the change that creates the %s has no %s' % (sc.name, kind, f), loc)
                continue
            # an absent optional attribute may be written out as such
            if got is not None and eq_under(sc.valued(), got, w):
                ctx.good()
                continue
            ctx.ob(False, '%s:%s.%s' % (tag, kind, f), '%s: %s of the %s is %s after the staged changes, the target has %s' % (
                sc.name, f, kind, short(got)[:160] if got else None, short(w)), loc)


def world(rel=None, con=None, levels=()):
    k = {}
    if rel:
        k['rel'] = rel
    if con:
        k['con'] = con
    return set(levels), k


def run_scen(ctx, sc, loc, allowed, tag):
    """evaluate one scenario; allowed(level-kind touched) says which objects the changes may touch"""
    for ch, outs in emitted(ctx, sc):
        sc.choice = ch
        if not ctx.ob(len(outs) >= 1, '%s:none' % tag, '%s: no outcome' % sc.name, loc):
            continue
        for k, items in outs:
            if not ctx.ob(k == 'ret', '%s:panic' % tag, '%s: the comparison panics' % sc.name, loc):
                continue
            changes = order(ctx, items)
            try:
                st, touched = interpret(ctx, sc, changes)
            except Bad as e:
                ctx.ob(False, '%s:seq' % tag, '%s: the staged change list %s' % (sc.name, e), loc)
                continue
            names = [change_of(c)[0] for c in changes]
            ctx.ob(len(names) == len(set(map(repr, map(sc.norm, changes)))), '%s:dup' % tag, '%s: duplicate changes %s' % (sc.name, names), loc)
            for W, e in touched:
                ctx.ob(allowed(W, e), '%s:touch:%s' % (tag, W), '%s: stages an unrelated or lossy %s' % (sc.name, W), loc)
            compare(ctx, sc, st, loc, tag)
            ctx.sample('%s -> %s' % (sc.name, names))


def opt_attrs(prog, kind):
    a = prog.adts[KINDS[kind]]
    return {f['name'] for f in a['variants'][0]['fields'] if prog.types[f['ty']].get('path') == OPT}


def level_of(kind):
    return strip(kind)


ALL_LEVELS = {'schema': ['schema'], 'rel': ['schema', 'rel'], 'fn': ['schema', 'fn'], 'col': ['schema', 'rel', 'col'], 'con': ['schema', 'rel', 'con']}


def mk(kind):
    """levels and kinds of a world holding one object of this kind"""
    lv = ALL_LEVELS[level_of(kind)]
    k = {}
    if kind in REL:
        k['rel'] = kind
    if kind in CON:
        k['con'] = kind
    if 'rel' in lv and 'rel' not in k:
        k['rel'] = 'Table'
    return set(lv), k


def touches(kind):
    lv = level_of(kind)

    def ok(W, e):
        if e[0] == 'set':
            return strip(e[1][2]) == lv
        return e[1][2] == lv
    return ok


def run_attrs(ctx):
    prog = ctx.prog
    loc = ctx.loc(DIFF)
    n = 0
    for kind in ('col', 'PrimaryKey', 'ForeignKey', 'Unique', 'Check', 'View', 'Index', 'Sequence', 'fn'):
        ats = attrs(prog, kind)
        ctx.floor('attributes of %s' % kind, len(ats), {'col': 3, 'PrimaryKey': 3, 'ForeignKey': 9, 'Unique': 3, 'Check': 3, 'View': 1,
                                                        'Index': 4, 'Sequence': 9, 'fn': 4}[kind])
        opts = opt_attrs(prog, kind)
        lv, k = mk(kind)
        sets = [()] + [(a,) for a in ats] + list(itertools.combinations(ats, 2))
        if ctx.tier == 'thorough' or len(ats) <= 5:
            sets += [c for r in range(3, len(ats) + 1) for c in itertools.combinations(ats, r)]
        else:
            sets += [tuple(ats)]
        for d in sets:
            for optv in itertools.product(*[(('None', 'Some'), ('Some', 'None'), ('Some', 'Some')) if a in d else (('None', 'None'), ('Some', 'Some'))
                                            for a in ats if a in opts and (len(d) <= 1 or a in d)]):
                if len(d) > 3 and n > 20000:
                    break
                opt = {}
                for a, (x, y) in zip([a for a in ats if a in opts and (len(d) <= 1 or a in d)], optv):
                    opt[('S', kind, a)] = x
                    opt[('T', kind, a)] = y
                for a in ats:
                    if a in opts and ('S', kind, a) not in opt:
                        opt[('S', kind, a)] = opt[('T', kind, a)] = 'Some'
                has = {'S': lv, 'T': lv}
                name = '%s: %s' % (kind, 'equal' if not d else 'differs in ' + '+'.join(
                    a + ('(%s->%s)' % (opt[('S', kind, a)], opt[('T', kind, a)]) if a in opts else '') for a in d))
                sc = Scen(name, has, {'S': k, 'T': k}, {(kind, a) for a in d}, opt)
                n += 1
                tag = '%s[%s]' % (kind, '+'.join(d))

                def allowed(W, e, kind=kind, d=d):
                    if not d:
                        return False
                    if not touches(kind)(W, e):
                        return False
                    return not (kind == 'col' and e[0] in ('del', 'ins'))   # dropping a column loses its data
                try:
                    run_scen(ctx, sc, loc, allowed, tag)
                except Odd as e:
                    ctx.ob(False, '%s:odd' % tag, '%s: %s' % (name, e), loc)
    ctx.floor('attribute scenarios', n, 200)


def run_objects(ctx):
    prog = ctx.prog
    loc = ctx.loc(DIFF)
    n = 0
    kinds = ['schema', 'fn', 'col'] + list(REL) + list(CON)
    empty = set()
    for kind in kinds:
        lv, k = mk(kind)
        par = sorted(lv, key=lambda l: len(ALL_LEVELS[l]))
        # the object alone, then together with each missing ancestor
        depth = len(ALL_LEVELS[level_of(kind)])
        for cut in range(depth):
            other = set(ALL_LEVELS[level_of(kind)][:cut])
            for side in ('added', 'removed'):
                has = {'S': other, 'T': lv} if side == 'added' else {'S': lv, 'T': other}
                for os in opt_choices(prog, kind):
                    opt = {}
                    for a, o in os.items():
                        opt[('S', kind, a)] = opt[('T', kind, a)] = o
                    name = '%s %s%s' % (kind, side, '' if cut == depth - 1 else ' with its ' + ALL_LEVELS[level_of(kind)][cut])
                    sc = Scen(name, has, {'S': k, 'T': k}, (), opt)
                    n += 1
                    gone = set(lv) - other

                    def allowed(W, e, gone=gone):
                        return (strip(e[1][2]) if e[0] == 'set' else e[1][2]) in gone
                    try:
                        run_scen(ctx, sc, loc, allowed, name.replace(' ', '-'))
                    except Odd as e:
                        ctx.ob(False, '%s:odd' % name.replace(' ', '-'), '%s: %s' % (name, e), loc)
    # same name, other kind
    for group, lvl in ((REL, 'rel'), (CON, 'con')):
        for a, b in itertools.permutations(group, 2):
            la, ka = mk(a)
            lb, kb = mk(b)
            name = '%s becomes %s' % (a, b)
            sc = Scen(name, {'S': la, 'T': lb}, {'S': ka, 'T': kb})
            n += 1
            try:
                run_scen(ctx, sc, loc, lambda W, e, lvl=lvl: (strip(e[1][2]) if e[0] == 'set' else e[1][2]) == lvl, name.replace(' ', '-'))
            except Odd as e:
                ctx.ob(False, '%s:odd' % name.replace(' ', '-'), '%s: %s' % (name, e), loc)
    # a table with everything in it gives way to another kind of relation, and the other way round
    for b in REL[1:]:
        for full, bare, tag in (('S', 'T', 'full Table becomes %s' % b), ('T', 'S', '%s becomes full Table' % b)):
            for c in CON:
                has = {full: {'schema', 'rel', 'col', 'con'}, bare: {'schema', 'rel'}}
                sc = Scen('%s with %s' % (tag, c), has, {full: {'rel': 'Table', 'con': c}, bare: {'rel': b}})
                for a in opt_attrs(prog, 'col'):
                    sc.opt[(full, 'col', a)] = 'Some'
                n += 1
                t = sc.name.replace(' ', '-')
                try:
                    run_scen(ctx, sc, loc, lambda W, e: True, t)
                except Odd as e:
                    ctx.ob(False, '%s:odd' % t, '%s: %s' % (sc.name, e), loc)
    # everything present and equal on both sides
    for kind in kinds:
        lv, k = mk(kind)
        sc = Scen('%s unchanged' % kind, {'S': lv, 'T': lv}, {'S': k, 'T': k})
        n += 1
        try:
            run_scen(ctx, sc, loc, lambda W, e: False, '%s-unchanged' % kind)
        except Odd as e:
            ctx.ob(False, '%s-unchanged:odd' % kind, '%s' % e, loc)
    sc = Scen('both empty', {'S': empty, 'T': empty}, {'S': {}, 'T': {}})
    run_scen(ctx, sc, loc, lambda W, e: False, 'both-empty')
    ctx.floor('presence scenarios', n, 70)


def opt_choices(prog, kind):
    if kind == 'schema':
        return [{}]
    ats = [a for a in attrs(prog, kind) if a in opt_attrs(prog, kind)]
    if not ats:
        return [{}]
    return [{a: 'None' for a in ats}, {a: 'Some' for a in ats}]
