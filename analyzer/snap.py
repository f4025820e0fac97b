"""The snapshot world: canonical names for places in a database snapshot,
the documented effect of each kind of change, and a tiny abstract store in
which sequences of effects are composed."""
from engine import *
from pp import short

T = 'snapshot::types::'
KINDS = {  # rel/con variants -> type path
    'Table': T + 'table::Table', 'View': T + 'view::View', 'Index': T + 'index::Index', 'Sequence': T + 'sequence::Sequence',
    'PrimaryKey': T + 'primarykey::PrimaryKey', 'ForeignKey': T + 'foreignkey::ForeignKey', 'Unique': T + 'unique::Unique',
    'Check': T + 'check::Check',
    'col': T + 'column::Column', 'fn': T + 'function::Function', 'schema': T + 'schema::Schema', 'db': T + 'database::Database',
}
TYPE2KIND = {v: k for k, v in KINDS.items()}
REL = ('Table', 'View', 'Index', 'Sequence')
CON = ('PrimaryKey', 'ForeignKey', 'Unique', 'Check')
COLLS = {('db', 'schemas'): 'schema', ('schema', 'relations'): 'rel', ('schema', 'functions'): 'fn',
         ('Table', 'columns'): 'col', ('Table', 'constraints'): 'con'}
NAMES = {  # (kind, field) -> index into the key tuple
    ('schema', 'name'): 0,
    ('fn', 'schema_name'): 0, ('fn', 'name'): 1,
    ('col', 'schema_name'): 0, ('col', 'table_name'): 1, ('col', 'name'): 2,
}
for k in REL:
    NAMES[(k, 'schema_name')] = 0
    NAMES[(k, 'name')] = 1
for k in CON:
    NAMES[(k, 'schema_name')] = 0
    NAMES[(k, 'table_name')] = 1
    NAMES[(k, 'name')] = 2


def attrs(prog, kind):
    """the attribute fields of an object kind, from the type definition itself"""
    a = prog.adts.get(KINDS[kind])
    if a is None:
        raise AnalysisError('type %s not found' % KINDS[kind])
    return [f['name'] for f in a['variants'][0]['fields'] if (kind, f['name']) not in NAMES and (kind, f['name']) not in COLLS]


class Canon:
    """maps interpreter terms to canonical places:
         ('O', side, kind, keys)        an object
         ('C', side, level, keys)       a collection of objects
         ('A', side, kind, keys, field) an attribute
       where keys are canonical name terms; everything else is kept."""

    def __init__(self, roots):
        self.roots = roots          # root name -> side
        self.memo = {}

    def by_ok(self, level, by):
        if by == ('by', ('#key',)):
            return level != 'col'
        return by == ('by', ('fld', ('it',), 'name'))

    def __call__(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        if not t:
            return t
        k = t[0]
        if k == 'ref' and len(t) == 3 and isinstance(t[1], tuple) and t[1] and t[1][0] in ('S', 'V') and not t[2]:
            return self(t[1][1])
        if k == 'root':
            s = self.roots.get(t[1])
            return ('O', s, 'db', ()) if s else t
        if k == 'fld':
            b = self(t[1])
            return self.fld(b, t[2])
        if k == 'elem':
            c = self(t[1])
            if c[0] == 'C':
                key = ('key', c, t[2])
                return ('O', c[1], c[2], c[3] + (key,))
            return ('elem', c, t[2])
        if k == 'lookup':
            c = self(t[1])
            if c[0] == 'C' and self.by_ok(c[2], t[2]):
                return ('O', c[1], c[2], c[3] + (self(t[3]),))
            return ('lookup', c, t[2], self(t[3]))
        if k == 'has':
            c = self(t[1])
            if c[0] == 'C' and self.by_ok(c[2], t[2]):
                return ('has', c, self(t[3]))
            return ('has', c, self(t[2]), self(t[3]))
        if k == 'struct' and len(t) == 4:
            return ('struct', t[1], t[2], tuple((n, self(v)) for n, v in t[3]))
        if k == 'upd':
            return ('upd', self(t[1]), tuple((n, self(v)) for n, v in t[2]))
        if k in ('rep', 'rrep', 'part', 'rpart'):
            return (k, self(t[1]), self(t[2]), tuple((self.facts(f), tuple(self(x) for x in segs)) for f, segs in t[3]))
        return tuple(self(x) if isinstance(x, tuple) else (self.facts(x) if isinstance(x, frozenset) else x) for x in t)

    def facts(self, f):
        return frozenset((self(a), self(v) if isinstance(v, tuple) else v) for a, v in f)

    def fld(self, b, f):
        if b[0] == 'O':
            _, side, kind, keys = b
            if kind in ('rel', 'con') and f.endswith('.0'):
                return ('O', side, f[:-2], keys)
            if f == '#key':
                return keys[-1]
            if (kind, f) in COLLS:
                return ('C', side, COLLS[(kind, f)], keys)
            if (kind, f) in NAMES and NAMES[(kind, f)] < len(keys):
                return keys[NAMES[(kind, f)]]
            return ('A', side, kind, keys, f)
        if b[0] == 'struct':
            for n, v in b[3]:
                if n == f or (b[2] and '%s.%s' % (b[2], n) == f):
                    return v
        return ('fld', b, f)


def strip(kind):
    return 'rel' if kind in REL else 'con' if kind in CON else kind


# ---------------------------------------------------------------- effects

class Effects(Exception):
    pass


def effects(canon, glob, sides):
    """primitive effects of an abstract state's writes on the canonical places.
       ('ins', coll, key, value) ('del', coll, key) ('set', obj, field, value) ('ren', coll, key, newkey)"""
    out = []
    for k, v in glob.items():
        if k[0] == 'ev':
            continue
        if k[0] != 'S':
            raise Effects('unexpected location %s' % (k,))
        loc = canon(k[1])
        walk_write(loc, canon(v), out, canon)
    return out


def walk_write(loc, v, out, canon):
    if v == loc:
        return
    if v[0] == 'upd' and v[1] == loc:
        for f, x in v[2]:
            if loc[0] == 'O':
                l = canon.fld(loc, f)
                if l[0] in ('O', 'C', 'A'):
                    walk_write(l, x, out, canon)
                else:
                    out.append(('set', loc, f, x))
            else:
                out.append(('set', loc, f, x))
        return
    if loc[0] == 'C' and v[0] in ('map', 'list'):
        segs = v[1]
        if segs and segs[0] == ('all', loc):
            i = 1
            while i < len(segs):
                s = segs[i]
                if s[0] == 'del':
                    key = s[1]
                    if key[0] == 'O' and key[1:3] == loc[1:3] and key[3][:-1] == loc[3]:
                        key = key[3][-1]
                    elif loc[2] == 'col':
                        raise Effects('removes something that is not a column looked up by name: %s' % short(key))
                    out.append(('del', loc, key))
                elif s[0] == 'ins':
                    out.append(('ins', loc, s[1], s[2]))
                elif s[0] == 'one':
                    out.append(('ins', loc, None, s[1]))
                else:
                    raise Effects('unexpected edit %s of %s' % (s[0], short(loc)))
                i += 1
            return
        # filtered copy: every element except the one with a given key
        if len(segs) == 1 and segs[0][0] == 'rep' and segs[0][1] == loc:
            key = filtered(segs[0], loc)
            if key is not None:
                out.append(('del', loc, key))
                return
        raise Effects('%s is rewritten as %s' % (short(loc), short(v)[:200]))
    if loc[0] == 'A':
        out.append(('set', ('O',) + loc[1:4], loc[4], v))
        return
    if loc[0] == 'O':
        out.append(('put', loc, v))
        return
    raise Effects('write to %s' % short(loc))


def filtered(seg, loc):
    keep = [f for f, segs in seg[3] if segs]
    if len(keep) != 1 or len(keep[0]) != 1:
        return None
    (a, val), = keep[0]
    if a[0] == 'not':
        a, val = a[1], not val
    if a[0] == 'eq' and val is False:
        me = ('key', loc, seg[2][3][-1][2]) if seg[2][0] == 'O' else None
        if a[1] == me:
            return a[2]
        if a[2] == me:
            return a[1]
    return None


# ---------------------------------------------------------------- documented effects of the changes

def change_struct(prog, variant):
    """field names of a change variant's payload"""
    a = prog.adts['snapshot::changes::Change']
    for v in a['variants']:
        if v['name'] == variant:
            t = prog.types[v['fields'][0]['ty']]
            return [f['name'] for f in prog.adts[t['path']]['variants'][0]['fields']]
    raise AnalysisError('change kind %s not found' % variant)


def variants(prog):
    a = prog.adts.get('snapshot::changes::Change')
    if a is None:
        raise AnalysisError('enum snapshot::changes::Change not found')
    return [v['name'] for v in a['variants']]


def spec(variant, F, prog, side):
    """the effect the change documents, over its own fields (F: field -> canonical term)"""
    C = lambda level, *keys: ('C', side, level, tuple(keys))
    O = lambda kind, *keys: ('O', side, kind, tuple(keys))

    def val(kind, names, over=()):
        over = dict(over)
        d = dict(names)
        for a in attrs(prog, kind):
            d[a] = over[a] if a in over else F(a)
        return ('new', kind, tuple(sorted(d.items())))

    con = {'Check': 'Check', 'ForeignKey': 'ForeignKey', 'PrimaryKey': 'PrimaryKey', 'Unique': 'Unique'}
    for c in con:
        if variant in ('Add%sChange' % c, 'Alter%sChange' % c, 'Drop%sChange' % c):
            s, t, n = F('schema'), F('table'), F('constraint')
            if variant.startswith('Add'):
                return [('ins', C('con', s, t), n, val(c, {'schema_name': s, 'table_name': t, 'name': n}))]
            if variant.startswith('Drop'):
                return [('del', C('con', s, t), n, c)]
            return [('set', O(c, s, t, n), f, F(f)) for f in ('deferrable', 'initially_deferred')]
    if variant == 'AddColumnChange':
        s, t, n = F('schema'), F('table'), F('column')
        return [('ins', C('col', s, t), n, val('col', {'schema_name': s, 'table_name': t, 'name': n}))]
    if variant == 'DropColumnChange':
        return [('del', C('col', F('schema'), F('table')), F('column'), 'col')]
    for v, f in (('AlterColumnSetDataTypeChange', 'data_type'), ('AlterColumnSetDefaultChange', 'default'), ('AlterColumnSetNotNullChange', 'not_null')):
        if variant == v:
            return [('set', O('col', F('schema'), F('table'), F('column')), f, F(f))]
    if variant == 'RenameColumnChange':
        return [('ren', C('col', F('from_schema'), F('from_table')), F('from_column'), F('to_column'))]
    if variant == 'CreateSchemaChange':
        n = F('schema_name')
        return [('ins', C('schema'), n, ('new', 'schema', (('functions', ('empty',)), ('name', n), ('relations', ('empty',)))))]
    if variant == 'DropSchemaChange':
        return [('del', C('schema'), F('schema_name'), 'schema')]
    if variant == 'CreateTableChange':
        s, n = F('schema'), F('table')
        return [('ins', C('rel', s), n, ('new', 'Table', (('columns', ('cols', F('columns'), s, n)), ('constraints', ('empty',)),
                                                        ('name', n), ('schema_name', s))))]
    for k, f in (('Table', 'table'), ('View', 'view'), ('Index', 'index'), ('Sequence', 'sequence')):
        if variant == 'Drop%sChange' % k:
            return [('del', C('rel', F('schema')), F(f), k)]
        if variant == 'Create%sChange' % k:
            s, n = F('schema'), F(f)
            over = {'table_name': F('table')} if k == 'Index' else {}
            if k == 'Sequence':
                over = {a: ('undescribed',) for a in ('owned_by_table', 'owned_by_column') if a not in change_struct(prog, variant)}
            return [('ins', C('rel', s), n, val(k, {'schema_name': s, 'name': n}, over))]
    if variant == 'CreateFunctionChange':
        s, n = F('schema'), F('function')
        return [('ins', C('fn', s), n, val('fn', {'schema_name': s, 'name': n}))]
    if variant == 'DropFunctionChange':
        return [('del', C('fn', F('schema')), F('function'), 'fn')]
    raise AnalysisError('no documented effect for change kind %s' % variant)


def parents(variant, F, prog, side):
    """places that must exist (with their kind) for the change to be applicable"""
    out = []
    e = spec(variant, F, prog, side)[0]
    coll = e[1] if e[0] in ('ins', 'del', 'ren') else None
    if coll is None:
        o = e[1]
        keys, kind = o[3], o[2]
        coll = ('C', side, strip(kind), keys[:-1])
    keys = coll[3]
    if len(keys) >= 1:
        out.append(('schema', (keys[0],), None))
    if len(keys) >= 2:
        out.append(('rel', tuple(keys[:2]), 'Table'))
    if variant == 'CreateIndexChange':
        out.append(('rel', (F('schema'), F('table')), 'Table'))
    return out


def norm_new(v, side=None):
    """a canonical ('new', kind, fields) for a struct value the code builds (wrapped in its enum or not)"""
    if v[0] == 'struct':
        kind = TYPE2KIND.get(v[1])
        if kind is None and v[2] in REL + CON and len(v[3]) == 1:
            return norm_new(v[3][0][1], side)
        if kind is None:
            return v
        d = []
        for n, x in v[3]:
            if (kind, n) in COLLS:
                x = norm_coll(x)
            d.append((n, x))
        return ('new', kind, tuple(sorted(d)))
    if v[0] == 'O':
        return v
    return v


def norm_coll(x):
    if x[0] in ('list', 'map') and not x[1]:
        return ('empty',)
    if x[0] == 'list' and len(x[1]) == 1 and x[1][0][0] == 'rep':
        seg = x[1][0]
        if len(seg[3]) == 1 and not seg[3][0][0] and len(seg[3][0][1]) == 1 and seg[3][0][1][0][0] == 'one':
            item = norm_new(seg[3][0][1][0][1])
            if item[0] == 'new' and item[1] == 'col':
                d = dict(item[2])
                e = seg[2]
                if all(d[f] == ('fld', e, f) for f in d if f not in ('schema_name', 'table_name')):
                    return ('cols', seg[1], d.get('schema_name'), d.get('table_name'))
        return x
    return x


# ---------------------------------------------------------------- a store in which effects are composed

ABSENT = ('absent',)


class Bad(Exception):
    pass


class Store:
    def __init__(self, present, kind):
        self.present0 = present      # (coll, key) -> bool
        self.kind0 = kind            # O rel/con -> variant
        self.now = {}                # (coll, key) -> value

    def init(self, coll, key):
        p = self.present0.get((coll, key))
        if p is None:
            raise Bad('touches %s %s, which the change does not mention' % (coll[2], short(key)))
        if not p:
            return ABSENT
        o = ('O', coll[1], coll[2], coll[3] + (key,))
        k = self.kind0.get(o)
        return ('obj', ('O', coll[1], k or coll[2], o[3]), ())

    def get(self, coll, key):
        if (coll, key) not in self.now:
            self.now[(coll, key)] = self.init(coll, key)
        return self.now[(coll, key)]

    def apply(self, e):
        if e[0] == 'ins':
            if self.get(e[1], e[2]) != ABSENT:
                raise Bad('creates %s %s, which exists' % (e[1][2], short(e[2])))
            self.now[(e[1], e[2])] = e[3]
        elif e[0] == 'del':
            v = self.get(e[1], e[2])
            if v == ABSENT:
                raise Bad('drops %s %s, which does not exist' % (e[1][2], short(e[2])))
            if kind_of(v) and e[3] and kind_of(v) != e[3] and strip(e[3]) != e[3]:
                raise Bad('drops %s as a %s' % (short(e[2]), e[3]))
            self.now[(e[1], e[2])] = ABSENT
        elif e[0] == 'set':
            o = e[1]
            coll, key = ('C', o[1], strip(o[2]), o[3][:-1]), o[3][-1]
            v = self.get(coll, key)
            if v == ABSENT:
                raise Bad('alters %s %s, which does not exist' % (o[2], short(key)))
            if kind_of(v) and kind_of(v) != o[2] and strip(o[2]) != o[2]:
                raise Bad('alters a %s as a %s' % (kind_of(v), o[2]))
            d = dict(v[2])
            d[e[2]] = e[3]
            self.now[(coll, key)] = v[:2] + (tuple(sorted(d.items())),)
        elif e[0] == 'ren':
            v = self.get(e[1], e[2])
            if v == ABSENT:
                raise Bad('renames %s, which does not exist' % short(e[2]))
            if self.get(e[1], e[3]) != ABSENT:
                raise Bad('renames to %s, which exists' % short(e[3]))
            self.now[(e[1], e[2])] = ABSENT
            self.now[(e[1], e[3])] = v


def kind_of(v):
    return v[1][2] if v[0] == 'obj' else v[1]


def field_of(v, f):
    """value of attribute f of a stored value"""
    d = dict(v[2])
    if f in d:
        return d[f]
    if v[0] == 'obj':
        o = v[1]
        if (o[2], f) in NAMES:
            return o[3][NAMES[(o[2], f)]]
        if (o[2], f) in COLLS:
            return ('C', o[1], COLLS[(o[2], f)], o[3])
        return ('A',) + o[1:4] + (f,)
    return None


VALUES = ({'None', 'Some'}, {'Ok', 'Err'}, {True, False})


def exhaustive(alts):
    """do these alternatives (facts as dicts) cover every case?"""
    if any(not a for a in alts):
        return True
    if not alts:
        return False
    k = sorted({k for a in alts for k in a}, key=repr)[0]
    seen = {a[k] for a in alts if k in a}
    dom = next((d for d in VALUES if seen <= d), None)
    if dom is None:
        return False
    return all(exhaustive([{x: y for x, y in a.items() if x != k} for a in alts if a.get(k, val) == val]) for val in dom)


def cols_source(v):
    """the column collection a list of described columns was copied from, attribute by attribute"""
    if v[0] == 'C':
        return v
    if v[0] == 'list' and len(v[1]) == 1 and v[1][0][0] in ('rep', 'all'):
        s = v[1][0]
        if s[0] == 'all':
            return s[1]
        e = s[2]
        if e[0] == 'O' and exhaustive([dict(f) for f, _ in s[3]]):
            for facts, segs in s[3]:
                if len(segs) != 1 or segs[0][0] != 'one' or segs[0][1][0] != 'struct':
                    return v
                known = dict(facts).get
                for n, x in segs[0][1][3]:
                    want = e[3][NAMES[(e[2], n)]] if (e[2], n) in NAMES else ('A',) + e[1:4] + (n,)
                    if not eq_under(known, x, want):
                        return ('bad', n, x)
            return s[1]
    return v


def change_of(v):
    """(variant, fields) of a change value"""
    if v[0] == 'struct' and v[1] == 'snapshot::changes::Change' and v[3] and v[3][0][1][0] == 'struct':
        return v[2], dict(v[3][0][1][3])
    if v[0] == 'struct' and v[1].startswith('snapshot::changes::') and v[1].endswith('Change'):
        return v[1].rsplit('::', 1)[1], dict(v[3])
    return None, None


def eq_under(known, a, b):
    """are two canonical values equal, given known(atom) -> value or None?"""
    if a == b:
        return True
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
        return False
    for x, y in ((a, b), (b, a)):
        if x[0] == 'bool' and known(y) is x[1]:
            return True
        if x[0] == 'bool' and y[0] == 'not' and known(y[1]) is (not x[1]):
            return True
        if x[0] == 'bool' and y[0] == 'isv' and known(('is', y[1])) is not None and (known(('is', y[1])) == y[2]) is x[1]:
            return True
        if x[0] == 'struct' and y[0] != 'struct' and x[2] and known(('is', y)) == x[2]:
            if all(eq_under(known, v, ('fld', y, x[2] + '.' + n)) for n, v in x[3]):
                return True
        if known(('eq', x, y)) is True:
            return True
    if len(a) == len(b) and a[0] not in ('O', 'A', 'C', 'is', 'has'):
        return all(p == q or eq_under(known, p, q) for p, q in zip(a, b))
    return False
