"""C20: what introspection reads from the PostgreSQL catalog is what the database has."""
import re
from engine import *
from pp import short
from checks import sqlq
from checks.sqlq import QError, strip
from checks.defn import Same, entries, given

START = 'introspection::introspect'
ROOTS = ['pg_sequence', 'pg_index', 'pg_constraint', 'pg_proc', 'pg_attribute', 'pg_class', 'pg_namespace']
ROWS = 2


def C(p):
    return ('col', tuple(p.split('.')))


class Query:
    """one catalog query: its text, canonical form and the cells read from it"""
    def __init__(self, n, text):
        self.n, self.text, self.error = n, text, None
        try:
            q = sqlq.parse(text)
            top = []

            def rels(f, left):
                if f is None:
                    return
                if f[0] == 'rel' and not left:
                    top.append(f[1])
                elif f[0] == 'join':
                    rels(f[2], left)
                    rels(f[3], left or f[1] == 'left')
            rels(q[2], False)
            self.root = next((r for r in ROOTS if top.count(r) == 1), None)
            if self.root is None:
                raise QError('no catalog this analysis knows is read')
            if q[5]:
                raise QError('DISTINCT')
            self.items, self.filters, self.order, self.scope = sqlq.Canon(self.root).query(q)
            self.exprs = [strip(e) for e, _ in self.items]
            self.raw = [e for e, _ in self.items]
            self.names = [n for _, n in self.items]
            self.filters = [strip(x) for x in self.filters]
            self.order = strip(self.order)
        except QError as e:
            self.error = str(e)
        self.reads = {}          # (column, type) -> source location

    def column(self, i):
        if i[0] == 'int' and 0 <= i[1] < len(self.exprs):
            return i[1]
        if i[0] == 'str' and self.names.count(i[1]) >= 1:
            return self.names.index(i[1])
        return None


def in_set(q, path):
    """the values a filter leaves for a column, None if it is not filtered"""
    r = None
    for f in q.filters:
        if f[0] == 'in' and f[1] == path:
            r = f[2] if r is None else r & f[2]
    return r


TABLE_OF = ('conrelid', 'attrelid', 'indrelid')
OWN_SCHEMA = {tuple(x.split('.')) for x in 'connamespace conrelid.relnamespace relnamespace attrelid.relnamespace indexrelid.relnamespace '
              'indrelid.relnamespace seqrelid.relnamespace pronamespace'.split()}


def cell(q, i, e):
    """a name where the value must be known to follow references between objects"""
    if e[0] == 'col':
        p = e[1]
        if p[-1] == 'nspname':
            if p == ('nspname',):
                return ('root', ('S', 'S2')[i])
            return ('root', 'TS') if p[:-1] == ('confrelid', 'relnamespace') else ('root', 'S') if p[:-1] in OWN_SCHEMA else None
        if p == ('confrelid', 'relname'):
            return ('root', 'TT')
        if len(p) == 2 and p[0] in TABLE_OF and p[1] == 'relname':
            return ('root', 'T0')
        if p == ('relname',) and q.root == 'pg_class':
            return ('root', '%s%d' % ('V' if 'v' in (in_set(q, C('relkind')) or 'r') else 'T', i))
        if p in (('conname',), ('indexrelid', 'relname'), ('seqrelid', 'relname'), ('proname',), ('attname',)):
            return ('root', '%s of %d row %d' % (p[-1], q.n, i))
    return None


def run(ctx):
    """run introspection with two unknown rows per query"""
    if 'intro' in ctx.cache:
        return ctx.cache['intro']
    queries = {}
    cells = {}
    bad = []
    start = ctx.fn(START)
    where = ctx.loc(start)
    eng = ctx.engine(max_steps=2000000)

    def at(eng):
        return (eng.callterm or {}).get('sp', where)

    def fails(st, v):
        return [(st.fork(), 'ret', err(('root', 'database error'))), (st, 'ret', ok(v))]

    def prepare(eng, st, a):
        return fails(st, ('call', 'stmt', (eng.deep(st, eng.peel(st, a[1])),), 0))

    def query(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[1]))
        if x[:2] == ('call', 'stmt'):
            x = x[2][0]
        if x[0] != 'str':
            raise AnalysisError('a query whose text is not known: %s' % short(x)[:100])
        q = queries.setdefault(x[1], Query(len(queries), x[1]))
        ps = eng.deep(st, a[2])
        if str(ps).count("('root', 'schemas')") != 1 or 'idx' in str(ps):
            bad.append(('params', 'a query is not given the requested schemas: %s' % short(ps)[:100], at(eng)))
        if q.error:
            bad.append(('query:%s' % x[1].split('\n')[0][:20], 'a query this analysis cannot read: ' + q.error, at(eng)))
            raise AnalysisError('a query this analysis cannot read: %s' % q.error)
        return fails(st, ('list', tuple(('one', ('call', 'row', (I(q.n), I(i)), 0)) for i in range(ROWS))))

    def get(eng, st, a):
        r = eng.deep(st, eng.peel(st, a[0]))
        i = eng.peel(st, a[1])
        if r[:2] != ('call', 'row'):
            raise AnalysisError('a row of unknown origin: %s' % short(r)[:100])
        q = [x for x in queries.values() if x.n == r[2][0][1]][0]
        n = r[2][1][1]
        c = q.column(i)
        ty = ctx.prog.types[eng.callee['targs'][-1]]
        tn = type_name(ctx, ty)
        if c is None:
            bad.append(('column:%d:%s' % (q.n, short(i)), 'column %s is read from a query of %d columns' % (short(i), len(q.exprs)), at(eng)))
            return [(st, 'ret', ('root', 'no such column'))]
        q.reads.setdefault((c, tn), at(eng))
        e = q.exprs[c]
        v = cell(q, n, e)
        if v is None:
            name = 'cell %d.%d.%d' % (q.n, n, c)
            cells[name] = (q, n, c)
            v = ('root', name)
            if 'Vec<' in tn:
                k = 4 if q.root == 'pg_index' else 2
                v = ('list', tuple(('one', I(j) if 'i16' in tn else ('fld', v, str(j))) for j in range(k)))
                if tn.startswith('Option<'):
                    v = some(v)
        elif tn.startswith('Option<'):
            v = some(v)
        return [(st, 'ret', v)]

    def try_get(eng, st, a):
        return [(s, k, ok(v)) for s, k, v in get(eng, st, a)] + [(st.fork(), 'ret', err(('root', 'database error')))]
    for p in ('postgres::Transaction::', "postgres::Transaction::<'a>::", "postgres::Transaction::<'_>::"):
        eng.contracts[p + 'prepare'] = prepare
        eng.contracts[p + 'query'] = query
    eng.contracts['postgres::Row::get'] = get
    st0 = St()
    n = 32
    rel = ['T0', 'T1', 'V0', 'V1'] + ['relname of %d row %d' % (i, j) for i in range(n) for j in range(ROWS)]
    for names in (['S', 'S2'], rel) + tuple(['%s of %d row %d' % (x, i, j) for i in range(n) for j in range(ROWS)] for x in ('conname', 'attname')):
        eng.distinct.append(frozenset(('root', x) for x in names))
    eng.contracts['postgres::Row::try_get'] = try_get
    outs = [(s, k, eng.deep(s, v)) for s, k, v in
            eng.call_fn(st0, start, [('ref', ('S', ('root', 'tx')), ()), vref(('root', 'schemas'))])]
    ctx.saw(eng, len(outs))
    ctx.cache['intro'] = (eng, outs, queries, cells, bad)
    return ctx.cache['intro']


def type_name(ctx, t):
    return t['s'].replace('std::string::', '').replace('std::vec::', '').replace('std::option::', '').replace('alloc::', '')


# ------------------------------------------------------------- types and NULLs of catalog expressions
TYPES = {}
for _t, _cs in {
        'text': 'nspname relname attname conname typname proname prosrc lanname amname collname rolname',
        'bool': 'attnotnull attisdropped atthasdef typnotnull condeferrable condeferred convalidated connoinherit indisunique indisprimary indisvalid '
                'indisready proretset proisstrict prosecdef proleakproof seqcycle relispartition conislocal relhasindex relrowsecurity',
        'i16': 'attnum typlen indnatts indnkeyatts adnum attlen relnatts pronargs',
        'i32': 'atttypmod typtypmod attndims',
        'i64': 'seqincrement seqmin seqmax seqstart seqcache',
        'char': 'relkind relpersistence contype attgenerated attidentity typtype typcategory provolatile confmatchtype confupdtype confdeltype prokind '
                'proparallel deptype tgenabled',
        'oid': 'oid connamespace conrelid contypid confrelid conindid attrelid atttypid relnamespace relam relowner reloftype indexrelid indrelid seqrelid '
               'seqtypid pronamespace prolang prorettype proowner typnamespace typelem typrelid refobjid',
        'i16[]': 'conkey confkey indkey indoption', 'text[]': 'reloptions proargnames proconfig', 'node': 'conbin adbin indexprs indpred'}.items():
    for _c in _cs.split():
        TYPES[_c] = _t
NULLS = {'adbin', 'indexprs', 'indpred', 'reloptions', 'proargnames', 'proconfig', 'conkey', 'confkey'}
TOTAL = set('connamespace conrelid confrelid attrelid atttypid relnamespace relam indexrelid indrelid seqrelid seqtypid pronamespace prolang prorettype '
            'typnamespace typelem relowner proowner oid'.split())
TEXT = set('pg_get_expr pg_get_constraintdef pg_get_indexdef pg_get_viewdef pg_get_functiondef pg_get_function_result pg_get_function_arguments format_type '
           'left right trim rtrim ltrim substring upper lower initcap quote_ident quote_literal replace concat array_to_string string_agg obj_description '
           'regexp_replace split_part'.split()) | {'substring from', 'substring from for', 'trim from'}
CASTS = {'text': 'text', 'varchar': 'text', 'character varying': 'text', 'name': 'text', 'character_data': 'text', 'sql_identifier': 'text', 'int': 'i32',
         'integer': 'i32', 'int4': 'i32', 'bigint': 'i64', 'int8': 'i64', 'smallint': 'i16', 'int2': 'i16', 'bool': 'bool', 'boolean': 'bool', 'char': 'char',
         'regclass': 'oid', 'oid': 'oid', 'text[]': 'text[]', 'name[]': 'text[]', 'varchar[]': 'text[]', 'smallint[]': 'i16[]', 'int2[]': 'i16[]', 'cstring': 'cstring'}
RUST = {'String': 'text', 'bool': 'bool', 'i16': 'i16', 'i32': 'i32', 'i64': 'i64', 'i8': 'char', 'u32': 'oid'}


def typ(e):
    k = e[0]
    if k == 'cast':
        return CASTS.get(e[2])
    if k == 'col':
        return TYPES.get(e[1][-1])
    if k == 'keyed':
        return TYPES.get(e[3])
    if k in ('lit', 'concat'):
        return 'text'
    if k == 'num':
        return 'i32'
    if k in ('in', 'eq', 'and', 'or', 'not', 'quant', 'isnull', 'some row', 'none', 'bool', 'insub'):
        return 'bool'
    if k == 'op':
        return 'bool' if e[1] in ('<', '>', '<=', '>=', 'like', 'distinct') else None
    if k == 'each':
        t = typ(e[1][2][0]) if e[1][:2] == ('call', 'unnest') else None
        return t[:-2] if t and t.endswith('[]') else None
    if k == 'ordinal':
        return 'i64'
    if k in ('pick', 'filtered'):
        return typ(e[1])
    vs = [v for _, v in e[1]] + [e[2]] if k == 'case' else [v for _, v in e[2]] + [e[3]] if k == 'table' else None
    if k == 'call' and e[1] == 'coalesce':
        vs = e[2]
    if vs is not None:
        ts = {typ(v) for v in vs if v not in (('null',), ('none',)) and v[0] != 'lit'} or {typ(v) for v in vs if v not in (('null',), ('none',))}
        return ts.pop() if len(ts) == 1 else None
    if k == 'call':
        if e[1] in TEXT:
            return 'text'
        if e[1].endswith('typmodout'):
            return 'cstring'
        if e[1] == 'array_agg':
            t = typ(e[2][0])
            return t + '[]' if t else None
        if e[1].startswith(('pg_has_', 'has_', 'pg_is_')):
            return 'bool'
    return None


def null(e):
    k = e[0]
    if k == 'cast':
        return null(e[1])
    if k == 'null':
        return True
    if k == 'col':
        return e[1][-1] in NULLS or any(x not in TOTAL for x in e[1][:-1])
    if k == 'keyed':
        return not total(e[1], e[2]) or e[3] in NULLS
    if k == 'case':
        return any(null(v) for _, v in e[1]) or null(e[2])
    if k == 'table':
        return any(null(v) for _, v in e[2]) or e[3] != ('none',) and null(e[3])
    if k == 'concat':
        return any(null(x) for x in e[1])
    if k == 'call':
        if e[1] == 'coalesce':
            return all(null(x) for x in e[2])
        if e[1] == 'array_agg':
            return not over_key(e)
        if e[1] == 'format_type':
            return null(e[2][0])
        return e[1].startswith('substring from') or any(null(x) for x in e[2])
    return k in ('pick', 'filtered')


def total(rel, key):
    """is there always such a row?"""
    if rel != 'pg_attribute' or len(key) != 2 or key[:1] == ('some',):
        return False
    a, b = key
    return a[0] == 'col' and a[1][-1] in ('conrelid', 'confrelid', 'indrelid', 'attrelid') and (
        b[0] == 'each' and b[1][:2] == ('call', 'unnest') and b[1][2][0][0] == 'col' and b[1][2][0][1][-1] in ('conkey', 'confkey') or b == C('attnum'))


def over_key(e):
    """an aggregate over the columns of a key, which has at least one"""
    s = str(e)
    return any("('call', 'unnest', (('col', ('%s',)),))" % k in s for k in ('conkey', 'confkey', 'indkey', 'indoption'))


def rust_type(tn):
    """(catalog type, NULL allowed) of a Rust type that is read"""
    if tn.startswith('Option<') and tn.endswith('>'):
        return rust_type(tn[7:-1])[0], True
    if tn.startswith('Vec<') and tn.endswith('>'):
        t = rust_type(tn[4:-1])[0]
        return t and t + '[]', False
    return RUST.get(tn), False


# ------------------------------------------------------------- data types, row by row of pg_type
#        name          SQL names                              modifier as printed by its own function, by format_type
MODS = {'varchar': (('character varying',), '(255)', 'character varying(255)'),
        'bpchar': (('character', 'char'), '(10)', 'character(10)'),
        'numeric': (('decimal',), '(13,4)', 'numeric(13,4)'),
        'bit': ((), '(8)', 'bit(8)'),
        'varbit': (('bit varying',), '(8)', 'bit varying(8)'),
        'time': ((), '(3) without time zone', 'time(3) without time zone'),
        'timestamp': ((), '(3) without time zone', 'timestamp(3) without time zone'),
        'timetz': ((), '(3) with time zone', 'time(3) with time zone'),
        'timestamptz': ((), '(3) with time zone', 'timestamp(3) with time zone'),
        'interval': ((), ' day to second(3)', 'interval day to second(3)'),
        'vector': ((), '(3)', 'vector(3)')}
PLAIN = {'int4': ('integer', 'int'), 'text': (), 'bool': ('boolean',), 'mood': (), 'timestamptz': ('timestamp with time zone',), 'varchar': ('character varying',),
         'numeric': ('decimal',), 'interval': ()}
#        name, element, length
FIXED = [('point', 'float8', 16), ('box', 'point', 32), ('name', 'char', 64)]


def type_rows():
    """(key, catalog row, accepted texts)"""
    for n, (alias, mod, full) in MODS.items():
        acc = {full} | {x + mod for x in (n,) + alias if mod[0] == '(' and ')' == mod[-1]} | {n + '(3)' for _ in (0,) if mod.startswith('(3)')}
        if n in ('interval',):
            acc.add(n + mod)
        if n in ('time', 'timestamp'):
            acc.add(n + mod)
        row = dict(name=n, elem=None, len=-1, mod=mod, full=full, plain=full.split('(')[0])
        yield n + ' with modifier', row, acc
        yield n + '[] with modifier', dict(row, name='_' + n, elem=n, full=full + '[]'), {x + '[]' for x in acc}
    for n, alias in PLAIN.items():
        acc = {n} | set(alias)
        full = alias[0] if alias else n
        row = dict(name=n, elem=None, len=4, mod=None, full=full)
        yield n, row, acc
        yield n + '[]', dict(row, name='_' + n, elem=n, len=-1, full=full + '[]'), {x + '[]' for x in acc}
    for n, el, ln in FIXED:
        yield n, dict(name=n, elem=el, len=ln, mod=None, full=n), {n}


class Undecided(Exception):
    pass


def ev(e, row):
    """the value of an expression for one type; None is NULL"""
    k = e[0]
    if k == 'cast':
        return ev(e[1], row)
    if k == 'lit':
        return e[1]
    if k == 'num':
        return e[1]
    if k == 'null':
        return None
    if k == 'bool':
        return e[1]
    if k == 'col':
        p = e[1]
        m = {('atttypid', 'typname'): row['name'], ('atttypid', 'typelem', 'typname'): row['elem'], ('atttypid', 'typelem'): '0' if row['elem'] is None else '77',
             ('atttypid', 'typlen'): str(row['len']), ('atttypmod',): '-1' if row['mod'] is None else '7', ('atttypid',): 'T',
             ('atttypid', 'typtype'): 'b', ('atttypid', 'typcategory'): 'A' if row['name'][0] == '_' else 'G' if row['elem'] else 'X'}
        if p in m:
            return m[p]
    if k == 'concat':
        vs = [ev(x, row) for x in e[1]]
        return None if None in vs else ''.join(vs)
    if k == 'case':
        for c, v in e[1]:
            if ev(c, row):
                return ev(v, row)
        return ev(e[2], row)
    if k == 'table':
        x = ev(e[1], row)
        for c, v in e[2]:
            if c == x:
                return ev(v, row)
        return None if e[3] == ('none',) else ev(e[3], row)
    if k == 'in':
        x = ev(e[1], row)
        return None if x is None else x in e[2]
    if k == 'not':
        x = ev(e[1], row)
        return None if x is None else not x
    if k == 'and':
        vs = [ev(x, row) for x in e[1]]
        return False if False in vs else None if None in vs else True
    if k == 'or':
        vs = [ev(x, row) for x in e[1]]
        return True if True in vs else None if None in vs else False
    if k == 'isnull':
        return ev(e[1], row) is None
    if k == 'op' and e[1] in ('<', '<=', '>', '>='):
        a, b = ev(e[2], row), ev(e[3], row)
        if a is None or b is None:
            return None
        return {'<': int(a) < int(b), '<=': int(a) <= int(b), '>': int(a) > int(b), '>=': int(a) >= int(b)}[e[1]]
    if k == 'call':
        a = [ev(x, row) for x in e[2]]
        if e[1] == 'coalesce':
            return next((x for x in a if x is not None), None)
        if e[1].endswith('typmodout'):
            n = e[1][:-len('typmodout')]
            if a != ['7']:
                return None if None in a else '?'
            return row['mod'] if n == row['name'].lstrip('_') else '(wrong modifier)'
        if e[1] == 'format_type' and a[0] == 'T':
            return row['full'] if a[1] == '7' and row['mod'] else row['full'] if a[1] in ('-1', None) and not row['mod'] else row.get('plain', row['full'])
        if e[1] == 'substring from':
            if None in a:
                return None
            m = re.search(a[1], a[0])
            return m.group(1 if m.groups() else 0) if m else None
        if e[1] == 'left' and None not in a:
            return a[0][:int(a[1])]
        if e[1] in ('trim', 'ltrim', 'rtrim') and None not in a:
            cs = a[1] if len(a) > 1 else ' '
            return {'trim': a[0].strip, 'ltrim': a[0].lstrip, 'rtrim': a[0].rstrip}[e[1]](cs)
        if e[1] == 'substring' and None not in a and len(a) == 2:
            return a[0][int(a[1]) - 1:]
        if e[1] == 'replace' and None not in a:
            return a[0].replace(a[1], a[2])
    raise Undecided(short(e)[:120])


# ------------------------------------------------------------- what each attribute is
def each(col):
    return ('each', ('call', 'unnest', (C(col),)))


def ordinal(col):
    return ('ordinal', ('call', 'unnest', (C(col),)))


def agg(x, col):
    return ('call', 'array_agg', (x,), ((ordinal(col), 'asc'),))


def key_columns(rel, col):
    return [agg(('keyed', 'pg_attribute', (C(rel), each(col)), 'attname'), col)]


def call(f, *a):
    return ('call', f, a, ())


def opt_bool(f, *a):
    return [call(f, *a)] + [call(f, *a, ('bool', b)) for b in (True, False)]


CONSTRAINT = {'deferrable': [C('condeferrable')], 'initially_deferred': [C('condeferred')]}
RULES = {'c': 'CASCADE', 'n': 'SET NULL', 'd': 'SET DEFAULT', 'r': 'RESTRICT', 'a': 'NO ACTION'}
DEFAULT = [('table', C('attgenerated'), (('', x), ('s', ('null',)), ('v', ('null',))), ('none',)) for x in
           opt_bool('pg_get_expr', ('keyed', 'pg_attrdef', (C('attrelid'), C('attnum')), 'adbin'), ('keyed', 'pg_attrdef', (C('attrelid'), C('attnum')), 'adrelid')) +
           opt_bool('pg_get_expr', ('keyed', 'pg_attrdef', (C('attrelid'), C('attnum')), 'adbin'), C('attrelid'))]
VIEWDEF = [call('left', y, ('num', '-1')) for x in opt_bool('pg_get_viewdef', C('oid')) for y in (call('trim', x), x, call('ltrim', x), call('rtrim', x))]
FT = call('format_type', C('prorettype'), ('null',))
RETURNS = [('case', ((C('proretset'), ('concat', (('lit', s), FT))),), FT) for s in ('setof ', 'SETOF ')] + [call('pg_get_function_result', C('oid'))]
INDEXDEF = [agg(x, 'indkey') for x in (call('pg_get_indexdef', C('indexrelid'), ordinal('indkey'), ('bool', b)) for b in (True, False))]
OPTIONS = [agg(each('indoption'), 'indoption')]
SAME = {'schema_name': 'S', 'table_name': 'T0'}

#  kind: (root, attributes given by catalog expressions, attributes given by code tables)
KINDS = {
    'Sequence': ('pg_sequence', {
        'data_type': [C('seqtypid.typname'), call('format_type', C('seqtypid'), ('null',))], 'start': [C('seqstart')], 'min_value': [C('seqmin')],
        'max_value': [C('seqmax')], 'increment': [C('seqincrement')], 'cycle': [C('seqcycle')], 'cache': [C('seqcache')]}, {}),
    'Table': ('pg_class', {}, {}),
    'Column': ('pg_attribute', {'not_null': [('or', frozenset({C('attnotnull'), ('and', frozenset({('in', C('atttypid.typtype'), frozenset('d')), C('atttypid.typnotnull')}))})),
                                             C('attnotnull')]}, {}),
    'PrimaryKey': ('pg_constraint', dict(CONSTRAINT, columns=key_columns('conrelid', 'conkey')), {}),
    'Unique': ('pg_constraint', dict(CONSTRAINT, columns=key_columns('conrelid', 'conkey')), {}),
    'ForeignKey': ('pg_constraint', dict(CONSTRAINT, columns=key_columns('conrelid', 'conkey'), target_columns=key_columns('confrelid', 'confkey')), {
        'match_option': ('confmatchtype', {'f': 'FULL', 'p': 'PARTIAL', 's': 'SIMPLE'}), 'update_rule': ('confupdtype', RULES), 'delete_rule': ('confdeltype', RULES)}),
    'Check': ('pg_constraint', dict(CONSTRAINT, expression=[y for x in opt_bool('pg_get_expr', C('conbin'), C('conrelid')) for y in (
        ('concat', (('lit', '('), x, ('lit', ')'))), x)]), {}),
    'Index': ('pg_index', {'unique': [C('indisunique')], 'method': [C('indexrelid.relam.amname')]}, {}),
    'View': ('pg_class', {'query': VIEWDEF}, {}),
    'Function': ('pg_proc', {'body': [C('prosrc')], 'language': [C('prolang.lanname')], 'returns': RETURNS}, {
        'volatility': ('provolatile', {'i': 'IMMUTABLE', 's': 'STABLE', 'v': 'VOLATILE'})}),
}
CONTYPE = {'PrimaryKey': 'p', 'Unique': 'u', 'ForeignKey': 'f', 'Check': 'c'}
NAMES = {'Sequence': 'relname of', 'Column': 'attname of', 'PrimaryKey': 'conname of', 'Unique': 'conname of', 'ForeignKey': 'conname of', 'Check': 'conname of',
         'Index': 'relname of', 'View': 'V', 'Function': 'proname of', 'Table': 'T'}
# which kinds of relation a row can belong to
RELKINDS = {'Column': 'rpvmfcItS', 'PrimaryKey': 'rp', 'Unique': 'rp', 'ForeignKey': 'rp', 'Check': 'rpf', 'Index': 'rpmt'}
OF = {'Column': 'attrelid', 'Index': 'indrelid'}
SCHEMA_OF = {'Sequence': ['seqrelid.relnamespace'], 'Table': ['relnamespace'], 'View': ['relnamespace'], 'Column': ['attrelid.relnamespace'],
             'Index': ['indexrelid.relnamespace', 'indrelid.relnamespace'], 'Function': ['pronamespace']}


def table_kinds(q, kind):
    """the kinds of relation the rows of a query are about"""
    p = C('relkind') if kind == 'Table' else C(OF.get(kind, 'conrelid') + '.relkind')
    s = in_set(q, p)
    dom = frozenset(RELKINDS.get(kind, 'rpvmfcItSi'))
    return dom if s is None else dom & s


def privilege(f):
    if f[0] == 'or':
        return all(privilege(x) for x in f[1])
    return f[0] == 'call' and f[1].startswith(('pg_has_role', 'has_', 'row_security'))


def rows(ctx, kind, q, tables, where):
    """the query has every row of its kind once, and no others"""
    sc = q.scope
    for a, r in sorted(sc.rels.items()):
        p = sc.paths[a]
        if a not in sc.left:
            ok_ = all(x in TOTAL for x in p) if p[:1] not in (('some',), ('keyed',)) else p[0] == 'keyed' and total(p[1], p[2])
            ctx.ob(ok_, '%s:rows:%s' % (kind, r), 'rows without a %s row are lost, or rows are repeated (%s)' % (r, short(p)[:100]), where)
        elif p[:1] == ('some',):
            conds = sc.outer.get(sc.left[a], frozenset())
            ok_ = any(f[0] == 'none' and f[1] == r and f[2] == conds for f in q.filters) or kind == 'Sequence' and r == 'pg_depend'
            ctx.ob(ok_, '%s:rows:%s' % (kind, r), 'an outer join with %s can repeat rows' % r, where)
    schema = [('quant', '=', 'any', C(p + '.nspname'), ('param', 1)) for p in SCHEMA_OF.get(kind, ['connamespace', 'conrelid.relnamespace'])]
    n = 0
    need = set()
    for f in q.filters:
        if f in schema:
            n += 1
            continue
        if privilege(f) or f[0] == 'not' and f[1][:2] == ('call', 'pg_is_other_temp_schema'):
            continue
        k = None
        if f[0] == 'in':
            if f[1] == C('contype') and kind in CONTYPE:
                k = 'contype'
                ctx.ob(f[2] == frozenset(CONTYPE[kind]), kind + ':contype', 'rows with contype %s are taken for a %s' % (', '.join(sorted(f[2])), kind), where)
            elif f[1] == C('relkind') and kind == 'View':
                k = 'relkind'
                ctx.ob(f[2] == frozenset('v'), 'View:relkind', 'rows with relkind %s are taken for a view' % ', '.join(sorted(f[2])), where)
            elif f[1] == C('relkind') and kind == 'Table' or kind in RELKINDS and f[1] == C(OF.get(kind, 'conrelid') + '.relkind'):
                k = 'relkind'
            elif f[1] == C('prokind') and kind == 'Function':
                k = 'prokind'
                ctx.ob('f' in f[2], 'Function:prokind', 'functions are not read', where)
        elif kind == 'Index' and f[0] == 'none' and f[1] == 'pg_constraint':
            k = 'constraint'
            me = ('keyed', 'pg_constraint', ('some', 'pg_constraint'), 'conindid')
            ct = [x[2] for x in f[2] if x[0] == 'in' and x[1][3:] == ('contype',)]
            ok_ = ('eq', frozenset({me, C('indexrelid')})) in f[2] and len(f[2]) == 1 + len(ct) and len(ct) < 2
            ctx.ob(ok_, 'Index:constraint', 'indexes are left out by an unknown condition', where)
            ctx.ob(ct and 'f' not in ct[0], 'Index:foreign key', 'an index that a foreign key refers to is left out', where)
            ctx.ob(not ct or {'p', 'u', 'x'} <= ct[0], 'Index:of constraint', 'the index of a constraint is read as an index', where)
        elif kind == 'Column' and f == ('op', '>', C('attnum'), ('num', '0')):
            k = 'attnum'
        elif kind == 'Column' and f == ('op', '>=', C('attnum'), ('num', '1')):
            k = 'attnum'
        elif kind == 'Column' and f == ('not', C('attisdropped')):
            k = 'dropped'
        elif kind in CONTYPE and f == ('not', ('in', C('conrelid'), frozenset('0'))):
            k = 'conrelid'
        if ctx.ob(k is not None, '%s:filter' % kind, 'a %s is read only if %s' % (kind, short(f)[:150]), where):
            need.add(k)
    ctx.ob(n >= 1, kind + ':schemas', 'a %s is not selected by the schemas asked for' % kind, where)
    for k, what in {'Column': (('attnum', 'system columns are read as columns'), ('dropped', 'dropped columns are read as columns')),
                    'View': (('relkind', 'other relations are read as views'),), 'Index': (('constraint', 'the index of a constraint is read as an index'),)}.get(
                        kind, (('contype', 'other constraints are read as %s' % kind),) if kind in CONTYPE else ()):
        ctx.ob(k in need, '%s:%s' % (kind, k), what, where)
    if kind == 'Table':
        ctx.ob('r' in tables and tables <= set('rp'), 'Table:relkind', 'tables are the relations of kind %s' % ', '.join(sorted(tables)), where)
    elif kind in RELKINDS:
        t = table_kinds(q, kind)
        have = tables & set(RELKINDS[kind])
        ctx.ob(have <= t, kind + ':tables', '%s of relations of kind %s are lost' % (kind, ', '.join(sorted(have - t))), where)
        ctx.ob(t <= tables, kind + ':no tables', '%s of relations of kind %s are read, which are not read as tables' % (kind, ', '.join(sorted(t - tables))), where)
    if kind == 'Column':
        cols = [x for x, _ in q.order]
        i = cols.index(C('attnum')) if C('attnum') in cols else -1
        own = (C('attrelid'), C('attrelid.relname'), C('attrelid.relnamespace.nspname'), C('attrelid.relnamespace'))
        ctx.ob(i >= 0 and q.order[i][1] == 'asc' and all(x in own for x in cols[:i]), 'Column:order', 'columns are not in the order they have in the table', where)


def owner(q, e, table):
    """the table or column that owns the sequence"""
    if e[0] != 'keyed':
        return False
    if table:
        if e[1] != 'pg_class' or e[3] != 'relname' or len(e[2]) != 1:
            return False
        k = e[2][0]
        if k[0] == 'keyed' and k[1] == 'pg_attribute' and k[3] == 'attrelid':
            k = k[2][0]
        dep, name = k, 'refobjid'
    else:
        if e[1] != 'pg_attribute' or e[3] != 'attname' or len(e[2]) != 2:
            return False
        dep, name = e[2][0], 'refobjid'
        if not (e[2][1][0] == 'keyed' and e[2][1][2] == dep[2] and e[2][1][3] == 'refobjsubid'):
            return False
    if not (dep[0] == 'keyed' and dep[1] == 'pg_depend' and dep[3] == name and dep[2][:1] == ('some',)):
        return False
    sc = q.scope
    a = [x for x in sc.rels if sc.paths[x] == dep[2]]
    conds = sc.outer.get(sc.left.get(a[0]) if a else None, frozenset())
    me = lambda c: ('keyed', 'pg_depend', ('some', 'pg_depend'), c)
    if ('eq', frozenset({me('objid'), C('seqrelid')})) not in conds:
        return False
    for x in conds:
        if x[0] == 'eq':
            continue
        if not (x[0] == 'in' and x[1] in (me('classid'), me('refclassid'), me('objsubid'), me('deptype')) and (x[1] != me('deptype') or 'a' in x[2])) and not (
                x[0] in ('op', 'not') and 'refobjsubid' in str(x)):
            return False
    return True


class Judge:
    def __init__(self, ctx, eng, queries, cells, where):
        self.ctx, self.eng, self.queries, self.cells, self.where = ctx, eng, queries, cells, where
        self.used = {}           # kind -> queries

    def origin(self, v):
        """(query, row, expression) of a value read from a row"""
        if v[0] == 'root' and v[1] in self.cells:
            q, i, c = self.cells[v[1]]
            return q, i, q.exprs[c], v
        if v[0] == 'list' and v[1]:
            o = self.origin(v[1][0][1][1]) if v[1][0][0] == 'one' and v[1][0][1][0] == 'fld' else None
            if o and all(s == ('one', ('fld', v[1][0][1][1], str(j))) for j, s in enumerate(v[1])) and len(v[1]) == (4 if o[0].root == 'pg_index' else 2):
                return o
        if v[0] == 'fld' and v[2] == 'Some.0':
            return self.origin(v[1])
        return None

    def obj(self, s, kind, f, of_table):
        ctx = self.ctx
        root, exprs, tables = KINDS[kind]
        name = f['name'][1] if f['name'][0] == 'root' and f['name'][1] not in self.cells else None
        if not ctx.ob(name is not None and name.startswith(NAMES[kind]), kind + '.name', 'the name of a %s is %s' % (kind, short(f['name'])[:100]), self.where):
            return None
        if kind in ('Table', 'View'):
            row = int(name[1:])
            q = None
        else:
            qn, row = int(name.split()[2]), int(name.split()[-1])
            q = [x for x in self.queries.values() if x.n == qn][0]
        for a, want in SAME.items():
            if a in f:
                ctx.ob(f[a] == ('root', want), '%s.%s' % (kind, a), 'the %s of a %s is %s' % (a, kind, short(f[a])[:100]), self.where)
        for a, v in f.items():
            if a in SAME or a in ('name', 'columns', 'constraints') and kind == 'Table':
                continue
            q = self.attr(s, kind, a, v, q, row) or q
        if q is None and kind == 'Table':
            qs = [x for x in self.queries.values() if x.root == 'pg_class' and 'v' not in (in_set(x, C('relkind')) or 'r')]
            q = qs[0] if qs else None
        if q is not None:
            ctx.ob(q.root == root, kind + ':root', 'a %s is made of a row of %s' % (kind, q.root), self.where)
            self.used.setdefault(kind, set()).add(q.n)
        return row

    def attr(self, s, kind, a, v, q, row):
        ctx = self.ctx
        key = '%s.%s' % (kind, a)
        root, exprs, tables = KINDS[kind]
        if a == 'name':
            return None

        def right(o):
            return ctx.ob(o is not None and (q is None or o[0] is q) and o[1] == row, key, 'the %s of a %s is %s' % (
                a, kind, short(v)[:100] if o is None else 'from another row'), self.where)
        if (kind, a) in (('ForeignKey', 'target_schema'), ('ForeignKey', 'target_table')):
            ctx.ob(v == ('root', 'TS' if a == 'target_schema' else 'TT'), key, 'the %s of a foreign key is %s' % (a, short(v)[:100]), self.where)
            return None
        if (kind, a) == ('Column', 'default'):
            return self.default(s, key, v, q, row)
        if (kind, a) == ('Index', 'key_expressions'):
            return self.keys(s, key, v, q, row)
        o = self.origin(v)
        if a in tables:
            col, want = tables[a]
            if o is None and v[0] == 'str':
                # decided by the value of a cell of this row
                cs = [c for c, (cq, ci, cc) in self.cells.items() if cq is q and ci == row and cq.exprs[cc][0] == 'table' and cq.exprs[cc][1] == C(col)]
                if not ctx.ob(len(cs) == 1, key, 'the %s of a %s is %s' % (a, kind, short(v)[:100]), self.where):
                    return None
                cell_ = ('root', cs[0])
                e = q.exprs[self.cells[cs[0]][2]]
            else:
                if not right(o):
                    return None
                cell_, e = o[3], o[2]
            if not ctx.ob(e[0] == 'table' and e[1] == C(col), key, 'the %s of a %s is %s' % (a, kind, short(e)[:150]), self.where):
                return None
            m = dict(e[2])
            for c, text in want.items():
                t = m.get(c, e[3])
                if t[0] == 'lit' and self.eng.decide(s, mk_eq(cell_, ('str', t[1]))) is False:
                    continue
                got = v[1] if v[0] == 'str' else t[1] if t[0] == 'lit' else None
                ctx.ob(got == text, '%s:%s' % (key, c), 'the %s of a %s is %s where the catalog says "%s" (%s)' % (a, kind, got, c, text), self.where)
            return o[0] if o else None
        if not right(o):
            return None
        e = o[2]
        if (kind, a) == ('Column', 'data_type'):
            for k, r, acc in type_rows():
                try:
                    t = ev(e, r)
                    ctx.ob(t in acc, '%s:%s' % (key, k), 'the data type %s is read as %s' % (k, t), self.where)
                except (Undecided, ValueError, TypeError) as ex:
                    ctx.bad(key, 'the data type of a column is an expression this analysis cannot evaluate: %s' % ex, self.where)
                    break
            return o[0]
        if kind == 'Sequence' and a.startswith('owned_by_'):
            ctx.ob(owner(o[0], e, a == 'owned_by_table'), key, 'the %s of a sequence is %s' % (a, short(e)[:150]), self.where)
            return o[0]
        ctx.ob(e in exprs.get(a, ()), key, 'the %s of a %s is %s' % (a, kind, short(e)[:150]), self.where)
        return o[0]

    def default(self, s, key, v, q, row):
        ctx = self.ctx
        if v[0] == 'root':
            o = self.origin(v)
            if ctx.ob(o and o[0] is q and o[1] == row and o[2] in DEFAULT, key, 'the default of a column is %s' % short(v)[:100], self.where):
                return o[0]
            return None
        for name, (cq, ci, c) in self.cells.items():
            e = cq.exprs[c]
            if cq is not q or ci != row or not (e in DEFAULT or e[:2] == ('call', 'coalesce') and e[2][0] in DEFAULT and e[2][1:] == (('lit', ''),)):
                continue
            x = ('root', name)
            empty = self.eng.decide(s, mk_empty(x))
            if e in DEFAULT:
                is_ = s.facts.get(('is', x))
                ok_ = v == some(mk_fld(x, 'Some.0')) and is_ == 'Some' or v[2] == 'None' and is_ == 'None'
            else:
                ok_ = v == some(x) and empty is False or v[2] == 'None' and empty is True
            if ctx.ob(v[0] == 'struct' and ok_, key, 'the default of a column is %s when %s' % (short(v)[:100], given(s)[:200]), self.where):
                return cq
            return None
        ctx.bad(key, 'the default of a column is %s' % short(v)[:100], self.where)

    def keys(self, s, key, v, q, row):
        ctx = self.ctx
        want = {0: ('', ' ASC', ' NULLS LAST', ' ASC NULLS LAST'), 1: (' DESC NULLS LAST',), 2: (' NULLS FIRST', ' ASC NULLS FIRST'), 3: (' DESC', ' DESC NULLS FIRST')}
        es = [x[1] for x in v[1]] if v[0] == 'list' and all(x[0] == 'one' for x in v[1]) else []
        if not ctx.ob(len(es) == 4, key, 'the keys of an index are %s' % short(v)[:150], self.where):
            return None
        cq = None
        for j, e in enumerate(es):
            ps = e[1] if e[0] == 'cat' else (e,)
            o = self.origin(ps[0][1]) if ps and ps[0][0] == 'fld' and ps[0][2] == str(j) else None
            if not ctx.ob(o is not None and o[0] is q and o[1] == row, key, 'key %d of an index is %s' % (j, short(e)[:100]), self.where):
                continue
            cq = o[0]
            ctx.ob(o[2] in INDEXDEF, key + ':expression', 'a key of an index is %s' % short(o[2])[:150], self.where)
            t = ''.join(p[1] for p in ps[1:]) if all(p[0] == 'str' for p in ps[1:]) else None
            ctx.ob(t in want[j], '%s:option %d' % (key, j), 'a key of an index with option bits %d is followed by "%s"' % (j, t), self.where)
        return cq


def run_clone(ctx):
    """clone asks for the schema public, and saves what was read as it is"""
    from checks import cmd
    from checks.hist import cond, last, loc, sh
    n = 0
    for o in cmd.command(ctx, 'clone'):
        if not o.ok:
            continue
        n += 1
        what, L = 'clone when %s' % cond(o), loc(ctx, 'clone')
        evs = [e for _, e in cmd.events(o.events)]
        asked = [e for e in evs if e[1] == START]
        saved = [e for e in evs if last(e[1]) == 'save_snapshot']
        if ctx.ob(len(asked) == 1, 'clone:reads', '%s: introspects %d times' % (what, len(asked)), L):
            a = asked[0][2][1]
            a = [x[1] if x[0] == 'one' else None for x in a[1]] if a[0] in ('list', 'array') else None
            ctx.ob(a == [('str', 'public')], 'clone:schemas', '%s: introspects %s, not the schema public' % (what, sh(asked[0][2][1])), L)
            ctx.ob(len(saved) == 1 and saved[0][2][1] == ('fld', ('call', START, asked[0][2], 0), 'Ok.0'), 'clone:saves',
                   '%s: saves %s, not what was read' % (what, ', '.join(sh(e[2][1]) for e in saved) or 'nothing'), L)
    ctx.floor('successful outcomes of clone', n, 1)


def run_introspection(ctx):
    run_clone(ctx)
    eng, outs, queries, cells, bad = run(ctx)
    where = ctx.loc(START)
    for k, m, w in bad:
        ctx.bad(k, m, w)
    # every cell is read as a type that accepts it
    n = 0
    for q in queries.values():
        for (c, tn), at in sorted(q.reads.items()):
            n += 1
            t, opt = rust_type(tn)
            have = typ(q.raw[c])
            key = 'read:%s:%s' % (q.root, q.names[c])
            ctx.ob(t is None or have is None or have == t, key, 'column %s of type %s is read as %s, which panics' % (q.names[c], have, tn), at)
            nul = null(q.exprs[c]) if 'typmodout' not in str(q.exprs[c]) else False
            ctx.ob(opt or not nul, key + ':null', 'column %s can be NULL and is read as %s, which panics' % (q.names[c], tn), at)
            if q.root == 'pg_index' and 'Vec<i16>' in tn:
                ctx.ob(q.exprs[c] in OPTIONS, 'Index.options', 'the options of an index are %s' % short(q.exprs[c])[:100], at)
    ctx.floor('cells read', n, 60)
    ctx.floor('queries', len(queries), 11)
    j = Judge(ctx, eng, queries, cells, where)
    done = 0
    for s, k, v in outs:
        if not ctx.ob(k == 'ret' and v[0] == 'struct' and v[2] in ('Ok', 'Err'), 'outcome:' + k, 'introspection can ' + k, where):
            continue
        if v[2] == 'Err':
            # functions may have the same name, if their arguments differ; a snapshot cannot hold both
            twice = any(a[0] == 'eq' and w is True and str(a).count("'proname of") == 2 for a, w in s.facts.items())
            ctx.ob(twice or mentions(v, ('root', 'database error')), 'refused', 'introspection fails although every query succeeds: %s' % short(v)[:150], where)
            continue
        done += 1
        db = dict(v[3][0][1][3]) if v[3][0][1][0] == 'struct' else {}
        got = entries(eng, s, db.get('schemas', ('none',)))
        if not ctx.ob(got is not None and all(x[0] == 'struct' for x in got), 'shape', 'the result is %s' % short(v)[:150], where):
            continue
        ctx.ob(sorted(dict(g[3])['name'] for g in got) == [('root', 'S'), ('root', 'S2')], 'Schema', 'the schemas are %s' % ', '.join(
            short(dict(g[3])['name'])[:60] for g in got), where)
        for g in got:
            g = dict(g[3])
            seen = {}

            def take(kind, x, table=None):
                r = j.obj(s, kind, dict(x[3]), table)
                seen.setdefault(kind, []).append(r)
            for x in entries(eng, s, g['relations']) or []:
                kind, y = x[2], dict(x[3])['0']
                take(kind, y)
                if kind == 'Table':
                    t = dict(y[3])
                    first = t['name'] == ('root', 'T0')
                    cols = [z[1] if z[0] == 'one' else None for z in t['columns'][1]]
                    if ctx.ob(None not in cols, 'Column', 'the columns of a table are %s' % short(t['columns'])[:150], where):
                        for z in cols:
                            take('Column', z, t)
                    cons = entries(eng, s, t['constraints'])
                    if ctx.ob(cons is not None, 'Constraint', 'the constraints of a table are %s' % short(t['constraints'])[:150], where):
                        for z in cons:
                            take(z[2], dict(z[3])['0'], t)
            for x in entries(eng, s, g['functions']) or []:
                take('Function', x)
            if g['name'] == ('root', 'S'):
                for kind in KINDS:
                    r = seen.get(kind, [])
                    ctx.ob(sorted(map(str, r)) == ['0', '1'], kind + ':all', 'of two %s rows, %d are in the result' % (kind, len(r)), where)
                    if kind == 'Column':
                        ctx.ob(r == [0, 1], 'Column:kept order', 'columns are not kept in the order they are read', where)
            else:
                ctx.ob(not seen, 'Schema:other', 'an object is in a schema that is not its own', where)
    ctx.floor('successful outcomes', done, 1)
    by_n = {q.n: q for q in queries.values()}
    tables = frozenset()
    for n in j.used.get('Table', ()):
        tables = table_kinds(by_n[n], 'Table')
    for kind in KINDS:
        qs = j.used.get(kind, set())
        if ctx.ob(len(qs) == 1, kind + ':query', 'a %s comes from %d queries' % (kind, len(qs)), where):
            q = by_n[min(qs)]
            rows(ctx, kind, q, tables, next(iter(sorted(q.reads.values())), where))
    # schemas
    qs = [q for q in queries.values() if q.root == 'pg_namespace']
    if ctx.ob(len(qs) == 1, 'Schema:query', 'schemas come from %d queries' % len(qs), where):
        ctx.ob(qs[0].filters == [('quant', '=', 'any', C('nspname'), ('param', 1))] and len(qs[0].scope.rels) == 1, 'Schema:filter',
               'a schema is read only if %s' % short(tuple(qs[0].filters))[:150], where)
    for q in list(queries.values())[:3]:
        ctx.sample('%s: %s' % (q.root, ', '.join('%s = %s' % (n, short(e)[:60]) for n, e in list(zip(q.names, q.exprs))[:4])))
