"""C07-C09, C26: definition files.

Every definition written is read back as the object it was written from.  The
writer and the reader of each kind of object are composed in one abstract run
(MIR of render_* on an unknown object, then MIR of parse_* on what it gave),
and every outcome must be the object itself, field by field."""
import itertools
import re
from checks import cmd, hist
from engine import *
from interp import *
from pp import short, fs
import text

M = 'definition::ddl::'
Y = 'definition::base::yaml::'
NODE = 'definition::base::node::Node'
CHILD = 'definition::base::node::NodeChild'
VALUE = 'definition::base::node::Value'
NUMBER = 'definition::base::node::Number'
D = ('root', 'd')
SCHEMA, TABLE, CTXT = ('fld', D, 'schema_name'), ('fld', D, 'table_name'), ('root', 'table of the context')
CONSTRAINTS = ('PrimaryKey', 'Unique', 'ForeignKey', 'Check')
# kind: module, writer, reader, and what an object of that kind always satisfies
# (facts about its fields; everything else about it is unknown)
KINDS = {
    'column': ('column', 'render_column_definition', 'parse_column_definition', ()),
    'sequence': ('sequence', 'render_sequence_definition', 'parse_sequence_definition', ('owner',)),
    'view': ('view', 'render_view_definition', 'parse_view_definition', ('query',)),
    'index': ('index', 'render_index_definition', 'parse_index_definition', ()),
    'function': ('function', 'render_function_definition', 'parse_function_definition', ()),
}


def texts(v):
    """what is assumed of texts: names are not empty, have no blanks at their
    ends and no dot; a data type has no '=' and '!'; expressions are trimmed"""
    if v[0] != 'fld':
        return None
    if v[2] == 'data_type':
        return {'no': '=!', 'trimmed': True}
    if v[2] == 'Some.0':
        return {'no': '', 'trimmed': True}
    return {'no': '.', 'trimmed': True}


def engine(ctx, **kw):
    eng = ctx.engine(max_steps=4000000, **kw)
    eng.texts = texts
    return eng


def context(ctx):
    a = ctx.prog.adts.get(M + 'context::Context')
    if not a:
        raise AnalysisError('no definition::ddl::context::Context')
    return ('struct', M + 'context::Context', None, tuple((f['name'], SCHEMA if f['name'] == 'schema_name' else CTXT) for f in a['variants'][0]['fields']))


def fn_args(ctx, fid, node):
    """arguments of a reader: the node, and for the rest the schema, then the table"""
    j = ctx.prog.fns[fid]
    rest = [SCHEMA, TABLE]
    out = []
    for i in range(j['argc'] - 1):
        t = ctx.prog.tyname(ctx.prog.peel_ty(j['locals'][i + 1]['ty'] if isinstance(j['locals'][i + 1], dict) else j['locals'][i + 1]))
        if t.endswith('Context'):
            out.append(vref(context(ctx)))
        else:
            out.append(vref(rest.pop(0)))
    return out + [vref(node)]


class Same:
    """equality of values under the facts of a path"""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.up = {}
        for a, v in list(st.facts.items()):
            if a[0] == 'eq' and v is True:
                self.join(a[1], a[2])
            elif a[0] == 'val':
                self.join(a[1], v)

    def find(self, x):
        while x in self.up:
            x = self.up[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.up[a] = b

    def canon(self, v):
        v = self.eng.deep(self.st, v)
        if v[0] == 'list' and len(v[1]) == 1:
            s = v[1][0]
            if s[0] == 'all':
                v = s[1]
            elif s[0] == 'rep' and all(e == (('one', s[2]),) for _, e in s[3]) and self.covers(s[2], [g for g, _ in s[3]]):
                v = s[1]
            elif s[0] == 'one' and s[1][0] == 'idx' and s[1][2] == I(0):
                # the only element of a list
                l = self.canon(s[1][1])
                if self.eng.decide(self.st, mk_eq(('len', l), I(1))) is True:
                    v = l
        return self.find(v)

    def covers(self, e, guards):
        return all(not g for g in guards) or variants_of(guards, e) is not None

    def eq(self, a, b):
        if self.canon(a) == self.canon(b):
            return True
        return self.eng.decide(self.st, mk_eq(self.eng.deep(self.st, a), self.eng.deep(self.st, b))) is True


def variants_of(guards, e):
    """the variants of e the guards distinguish, None if they ask anything else"""
    seen = set()
    for g in guards:
        for a, v in g:
            if a == ('is', e):
                seen.add(v)
            elif a[0] == 'has' and v is False and repeats(a, e):
                continue
            else:
                return None
    return seen


def repeats(a, e):
    """does this fact ask whether an earlier object has the name of e?"""
    return a[0] == 'has' and mentions(a[3], e) if len(a) > 3 else False


def run_leaf(ctx, kind, eng, render, parse, obj, pre):
    """compose one writer with its reader; obj is what is written"""
    prog = ctx.prog
    st = St()
    for a, v in pre:
        st.facts[a] = v
    n = 0
    nodes = []
    where = ctx.loc(render)
    for s, k, v in eng.call_fn(st, render, [vref(context(ctx)), vref(obj)]):
        if not ctx.ob(k == 'ret', '%s:write' % kind, 'writing a %s can fail (%s)' % (kind, k), where):
            continue
        v = eng.deep(s, v)
        nodes.append(v)
        for s2, k2, v2 in eng.call_fn(s.fork(), parse, fn_args(ctx, parse, v)):
            n += 1
            if not ctx.ob(k2 == 'ret', '%s:read' % kind, 'reading back a written %s can %s' % (kind, k2), ctx.loc(parse)):
                continue
            x = eng.deep(s2, v2)
            if not ctx.ob(x[0] == 'struct' and x[2] == 'Ok', '%s:refused' % kind, 'a written %s is refused when read back: %s when %s' % (kind, short(x)[:160], given(s2)), ctx.loc(parse)):
                continue
            compare(ctx, kind, Same(eng, s2), x[3][0][1], obj, s2, ctx.loc(parse))
    ctx.saw(eng, n)
    return n, nodes


def given(st):
    return fs(st.facts)[:200]


def compare(ctx, kind, same, y, obj, st, where):
    if same.eq(y, obj):
        ctx.good()
        return
    if obj[0] == 'struct' and y[0] == 'struct' and y[1] == obj[1] and y[2] == obj[2]:
        for f, o in obj[3]:
            compare(ctx, kind, same, dict(y[3])[f], o, st, where)
        return
    a = ctx.prog.adts.get(y[1]) if y[0] == 'struct' else None
    if a is None or y[2] is not None and len(a['variants']) > 1:
        ctx.ob(False, '%s:object' % kind, 'a written %s is read back as %s' % (kind, short(y)[:160]), where)
        return
    for f, v in y[3]:
        ctx.ob(same.eq(v, mk_fld(obj, f)), '%s.%s' % (kind, f), 'the %s of a %s is read back as %s when %s' % (f, kind, short(v)[:120], given(st)), where)


def preconditions(kind):
    p = []
    def f(n, *rest):
        v = ('fld', D, n)
        for r in rest:
            v = ('fld', v, r)
        return v
    return {
        'sequence': [[(('is', f('owned_by_table')), 'None'), (('is', f('owned_by_column')), 'None')], [(('is', f('owned_by_table')), 'Some'), (('is', f('owned_by_column')), 'Some')]],
        'ForeignKey': [[(mk_empty(f('target_columns')), False), (mk_empty(f('columns')), False)]],
        'PrimaryKey': [[(mk_empty(f('columns')), False)]],
        'Unique': [[(mk_empty(f('columns')), False)]],
        'index': [[(mk_empty(f('key_expressions')), False)]],
        'view': [[(mk_empty(f('query')), False)]],
    }.get(kind, [p])


def run_roundtrip(ctx):
    nodes = []
    total = 0
    for kind, (mod, r, p, _) in KINDS.items():
        render, parse = ctx.fn(M + mod + '::' + r), ctx.fn(M + mod + '::' + p)
        k = 0
        for pre in preconditions(kind):
            n, ns = run_leaf(ctx, kind, engine(ctx), render, parse, D, pre)
            k += n
            nodes += ns
        total += k
        ctx.floor('outcomes of ' + kind, k, 1)
    render, parse = ctx.fn(M + 'constraint::render_constraint_definition'), ctx.fn(M + 'constraint::parse_constraint_definition')
    for var in CONSTRAINTS:
        obj = ('struct', 'snapshot::types::constraint::Constraint', var, (('0', D),))
        for pre in preconditions(var):
            n, ns = run_leaf(ctx, var, engine(ctx), render, parse, obj, pre)
            nodes += ns
            total += n
            ctx.floor('outcomes of ' + var, n, 2)
    ctx.sample('%d outcomes of leaf objects' % total)
    return nodes


# ---------------------------------------------------------------- YAML

def yaml_models(eng):
    """the parts of serde_yaml the definitions use: values are built by their
    variants, numbers by From"""
    YN = 'serde_yaml::Number'

    def num(tag):
        return lambda e, st, a: [(st, 'ret', ('struct', YN, tag, (('0', e.deep(st, a[0])),)))]

    # a number of unknown kind: i64, float, or unsigned beyond i64
    def isn(tag):
        def f(e, st, a):
            v = e.deep(st, e.peel(st, a[0]))
            return [(s, 'ret', ('bool', x == tag)) for s, x in e.fork_variant(st, v, ['I', 'F', 'U'])]
        return f

    def asn(tag):
        def f(e, st, a):
            v = e.deep(st, e.peel(st, a[0]))
            if v[0] == 'struct' and v[2] == tag:
                return [(st, 'ret', some(v[3][0][1]))]
            return [(s, 'ret', some(('fld', v, tag)) if x == tag or tag == 'F' else NONE) for s, x in e.fork_variant(st, v, ['I', 'F', 'U'])]
        return f

    def asv(var):
        def f(e, st, a):
            v = e.deep(st, e.peel(st, a[0]))
            if v[0] == 'struct':
                return [(st, 'ret', some(vref(v[3][0][1])) if v[2] == var else NONE)]
            return None
        return f
    eng.contracts.update({
        '<serde_yaml::Number as std::convert::From<i64>>::from': num('I'),
        '<serde_yaml::Number as std::convert::From<f64>>::from': num('F'),
        'serde_yaml::Number::is_i64': isn('I'), 'serde_yaml::Number::is_f64': isn('F'),
        'serde_yaml::Number::as_i64': asn('I'), 'serde_yaml::Number::as_f64': asn('F'),
        'serde_yaml::Value::as_str': asv('String'), 'serde_yaml::Value::as_mapping': asv('Mapping'),
        'serde_yaml::Value::as_sequence': asv('Sequence'),
    })


def node(kw, name, child):
    return ('struct', NODE, None, (('type', S(kw)), ('name', name), ('child', child)))


def keywords(ctx):
    eng = engine(ctx)
    f = [x for x in ctx.prog.fns if ctx.prog.np(x['path']) == Y + 'KEYWORDS']
    if not f:
        return None
    outs = eng.call_fn(St(), ctx.prog.fns.index(f[0]), [])
    v = eng.deep(outs[0][0], outs[0][2])
    while v[0] in ('vref', 'ref'):
        v = v[1]
    return [e[1][1] for e in v[1] if e[0] == 'one' and e[1][0] == 'str']


def children():
    def val(var, x):
        return some(('struct', CHILD, 'Value', (('0', ('struct', VALUE, var, (('0', x),))),)))

    def num(var, x):
        return val('Number', ('struct', NUMBER, var, (('0', x),)))
    b, t, i, f, l, n = (('fld', ('root', 'v'), x) for x in ('b', 't', 'i', 'f', 'l', 'n'))
    e = ('elem', l, 0)
    strs = ('list', (('rep', l, e, ((frozenset(), (('one', ('struct', VALUE, 'String', (('0', e),))),)),)),))
    mixed = ('list', tuple(('one', ('struct', VALUE, v, (('0', x),))) for v, x in (('Boolean', b), ('String', t), ('List', ('list', ())))))
    return {'nothing': NONE, 'a boolean': val('Boolean', b), 'a text': val('String', t), 'an integer': num('Integer', i), 'a float': num('Float', f),
            'a list of texts': val('List', strs), 'a list of values': val('List', mixed), 'nodes': some(('struct', CHILD, 'Nodes', (('0', n),)))}


def nested(ctx):
    """contracts for what lies under a node: by induction, nodes are written
    as a mapping that is read back as these nodes"""
    def render(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        return [(st, 'ret', ('struct', 'serde_yaml::Value', 'Mapping', (('0', ('call', 'mapping of nodes', (x,), 0)),)))]

    def parse(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        if x[0] == 'call' and x[1] == 'mapping of nodes':
            return [(st, 'ret', ok(x[2][0]))]
        return None
    return {Y + 'render_nodes_to_mapping': render, Y + 'parse_mapping_to_nodes': parse}


def through_yaml(ctx, nodes):
    """the outcomes of writing these nodes as a mapping and reading it back"""
    render, parse = ctx.fn(Y + 'render_nodes_to_mapping'), ctx.fn(Y + 'parse_mapping_to_nodes')
    eng = engine(ctx)
    eng.rec_limit = 3
    yaml_models(eng)
    eng.contracts.update(nested(ctx))
    out = []
    for s, k, v in eng.call_fn(St(), render, [vref(('list', tuple(('one', n) for n in nodes)))]):
        v = eng.deep(s, v)
        if k != 'ret' or v[0] != 'struct' or v[2] != 'Mapping':
            out.append((eng, s, 'write', k, v))
            continue
        for s2, k2, v2 in eng.call_fn(s.fork(), parse, [vref(v[3][0][1])]):
            out.append((eng, s2, 'read', k2, eng.deep(s2, v2)))
    ctx.saw(eng, len(out))
    return out


def run_yaml(ctx, written):
    """every kind of node written (keyword, name?, kind of child) survives YAML"""
    shapes = {(n[3][0][1][1], n[3][1][1] != NONE) for n in all_nodes(written)} | {('schema', True), ('table', True)}
    name = ('fld', ('root', 'node'), 'name')
    where = ctx.loc(ctx.fn(Y + 'parse_mapping_to_nodes'))
    kids = children()
    cases = [(kw, some(name) if named_ else NONE, 'a text') for kw, named_ in sorted(shapes)]
    cases += [(kw, n, c) for c in kids for kw, n in (('column', some(name)), ('check', NONE))]
    n = 0
    for kw, nm, c in cases:
        this = node(kw, nm, kids[c])
        key = 'yaml:%s%s:%s' % (kw, ' NAME' if nm != NONE else '', c)
        n += 1
        check_nodes(ctx, key, [this], '"%s%s" with %s' % (kw, ' NAME' if nm != NONE else '', c), where)
    # several nodes, in order
    check_nodes(ctx, 'yaml:order', [node('table', some(name), NONE), node('as', NONE, kids['a text']), node('on', some(('fld', ('root', 'other'), 'name')), kids['an integer'])], 'three nodes', where)
    ctx.floor('node shapes through YAML', n, 30)


def check_nodes(ctx, key, nodes, what, where):
    for eng, s, step, k, v in through_yaml(ctx, nodes):
        if step == 'write' or k != 'ret':
            ctx.ob(False, key, '%s: %s can %s' % (what, step, k), where)
            continue
        kw = longer_keyword(s, nodes)
        if kw:
            ctx.ob(False, 'first-words:' + kw, 'a node of which keyword and name start with "%s" is read back as that keyword' % kw, where)
            continue
        if not ctx.ob(v[0] == 'struct' and v[2] == 'Ok' and v[3][0][1][0] == 'list', key, '%s is refused when read back: %s when %s' % (what, short(v)[:120], given(s)), where):
            continue
        got = v[3][0][1][1]
        same = Same(eng, s)
        ok_ = len(got) == len(nodes) and all(g[0] == 'one' and same_value(same, g[1], n) for g, n in zip(got, nodes))
        ctx.ob(ok_, key, '%s is read back as %s when %s' % (what, short(v[3][0][1])[:160], given(s)), where)


def longer_keyword(st, nodes):
    """the keyword the first words of a node's name make with the node's own
    keyword ("on" + "update ..."), if that is why it was taken for another one"""
    for a, v in st.facts.items():
        if a[0] == 'call' and v is True and len(a[2]) == 2 and a[2][0][0] == 'texthead' and a[2][1][0] == 'str':
            key, kw = a[2][0][1], a[2][1][1]
            if a[2][0][2] != I(len(kw)):
                continue
            # ... and the words end there
            for b, w in st.facts.items():
                if w is True and (b in (mk_eq(('len', key), I(len(kw))),) or b[0] in ('strtest', 'empty', 'call') and b != a and any(
                        mentions(b, ('op', 'slice', key, x)) for x in slices(b))):
                    return kw
    return None


def slices(v):
    if isinstance(v, tuple):
        if v[:2] == ('op', 'slice') and len(v) == 4:
            yield v[3]
        for x in v:
            if isinstance(x, tuple):
                yield from slices(x)


def same_value(same, a, b):
    if same.eq(a, b):
        return True
    if a[0] == 'struct' and b[0] == 'struct' and a[1:3] == b[1:3]:
        da, db = dict(a[3]), dict(b[3])
        return da.keys() == db.keys() and all(same_value(same, da[x], db[x]) for x in da)
    if a[0] == 'list' and b[0] == 'list' and len(a[1]) == len(b[1]):
        return all(x == y or x[0] == 'one' and y[0] == 'one' and same_value(same, x[1], y[1]) for x, y in zip(a[1], b[1]))
    return False


def all_nodes(vs):
    for v in vs:
        if v[0] == 'struct' and v[1] == NODE:
            yield v
        for x in v:
            if isinstance(x, tuple):
                yield from all_nodes((x,)) if x and isinstance(x[0], str) else all_nodes(y for y in x if isinstance(y, tuple))


# ---------------------------------------------------------------- containers

# what a table and a schema are made of: writer, reader
PARTS = {
    'column': ('column', 'render_column_definition', 'parse_column_definition'),
    'constraint': ('constraint', 'render_constraint_definition', 'parse_constraint_definition'),
    'table': ('table', 'render_table_definition', 'parse_table_definition'),
    'view': ('view', 'render_view_definition', 'parse_view_definition'),
    'index': ('index', 'render_index_definition', 'parse_index_definition'),
    'sequence': ('sequence', 'render_sequence_definition', 'parse_sequence_definition'),
    'function': ('function', 'render_function_definition', 'parse_function_definition'),
}


def shown(ctx, kinds, schema, table, where):
    """what is shown of the parts: what the writer of a part gives is read
    back as the part, when the reader is told the schema and table it is in"""
    res = {}

    def schema_of(eng, st, v):
        v = eng.deep(st, eng.peel(st, v))
        return eng.deep(st, mk_fld(v, 'schema_name')) if v[0] == 'struct' else v

    def render(kw):
        def f(eng, st, a):
            x = eng.deep(st, eng.peel(st, a[-1]))
            same = Same(eng, st)
            for c in a[:-1]:
                ctx.ob(same.eq(schema_of(eng, st, c), schema), kw + ':context', 'a %s is written for the schema %s' % (kw, short(eng.deep(st, eng.peel(st, c)))[:80]), where[0])
            c = ('call', 'written', (S(kw), x), 0)
            return [(st, 'ret', node(kw, some(('fld', c, 'name')), ('fld', c, 'child')))]
        return f

    def parse(kw):
        def f(eng, st, a):
            n = eng.deep(st, eng.peel(st, a[-1]))
            child = mk_fld(n, 'child')
            if child[0] != 'fld' or child[1][:2] != ('call', 'written'):
                return None
            c = child[1]
            same = Same(eng, st)
            want = [schema, table]
            for i, x in enumerate(a[:-1]):
                ctx.ob(same.eq(schema_of(eng, st, x), want[i]), '%s:argument%d' % (kw, i), 'a %s is read for %s' % (kw, short(eng.deep(st, eng.peel(st, x)))[:80]), where[1])
            ctx.ob(n == node(kw, some(('fld', c, 'name')), child) and c[2][0] == S(kw), kw + ':node', 'what was written of a %s is read as a %s from %s' % (c[2][0][1], kw, short(n)[:100]), where[1])
            return [(st, 'ret', ok(c[2][1]))]
        return f
    for k in kinds:
        m, r, p = PARTS[k]
        ctx.fn(M + m + '::' + r), ctx.fn(M + m + '::' + p)
        res[M + m + '::' + r], res[M + m + '::' + p] = render(k), parse(k)
    return res


ELEMENTS = {'relations': 'snapshot::types::relation::Relation', 'constraints': 'snapshot::types::constraint::Constraint'}


def same_parts(ctx, same, y, src, variants=True):
    """is y the collection src: each object once, as it was, under its name?"""
    v = same.eng.deep(same.st, y)
    if same.canon(v) == same.find(src):
        return True
    if v[0] not in ('list', 'map') or len(v[1]) != 1 or v[1][0][0] not in ('rep',) or same.canon(v[1][0][1]) != same.find(src):
        return False
    _, _, e, alts = v[1][0]
    # two objects of one collection have different names
    alts = [(g, eff) for g, eff in alts if not any(a[0] == 'has' and w is True and repeats(a, e) and again(a, [src]) for a, w in g)]
    seen = variants_of([g for g, _ in alts], e)
    if seen is None:
        return False
    all_ = {v['name'] for v in ctx.prog.adts[ELEMENTS[src[2]]]['variants']} if src[2] in ELEMENTS else set()
    if seen and seen != all_ or not seen and not any(not [1 for a, _ in g if a[0] == 'is'] for g, _ in alts):
        return False
    for g, eff in alts:
        if len(eff) != 1:
            return False
        x = eff[0]
        if v[0] == 'list' and x != ('one', e):
            return False
        if v[0] == 'map' and not (x[0] == 'ins' and own(x[2], e, g) and named(x[1], e)):
            return False
    return True


def own(x, e, g):
    if x == e:
        return True
    return x[0] == 'struct' and x[1] in ELEMENTS.values() and (('is', e), x[2]) in g and x[3] == (('0', ('fld', e, x[2] + '.0')),)


def named(k, e):
    """is k the name of e (or of the object e holds)?"""
    while k[0] == 'fld' and k[2] == 'name':
        k = k[1]
        if k == e:
            return True
        return k[0] == 'fld' and re.match(r'^[A-Z]\w*\.0$', k[2]) is not None and k[1] == e
    return False


def compose(ctx, kind, parts, obj, adt, fields, render, rargs, parse, pargs, schema, table):
    eng = engine(ctx)
    where = (ctx.loc(render), ctx.loc(parse))
    eng.contracts.update(shown(ctx, parts, schema, table, where))
    n = 0
    for s, k, v in eng.call_fn(St(), render, rargs):
        if not ctx.ob(k == 'ret', kind + ':write', 'writing a %s can %s' % (kind, k), where[0]):
            continue
        v = eng.deep(s, v)
        for s2, k2, v2 in eng.call_fn(s.fork(), parse, pargs + [vref(v)]):
            n += 1
            if not ctx.ob(k2 == 'ret', kind + ':read', 'reading back a %s can %s' % (kind, k2), where[1]):
                continue
            x = eng.deep(s2, v2)
            if x[2] == 'Err' and any(a[0] == 'has' and w is True and again(a, [mk_fld(obj, f) for f in fields]) for a, w in s2.facts.items()):
                continue        # two objects of one name: an object has only one
            if not ctx.ob(x[2] == 'Ok', kind + ':refused', 'a written %s is refused when read back: %s when %s' % (kind, short(x)[:160], given(s2)), where[1]):
                continue
            y = x[3][0][1]
            same = Same(eng, s2)
            for f, val in y[3]:
                want = mk_fld(obj, f)
                good = same.eq(val, want) if f not in fields else same_parts(ctx, same, val, want)
                ctx.ob(good, '%s.%s' % (kind, f), 'the %s of a %s are read back as %s' % (f, kind, short(val)[:200]), where[1])
    ctx.saw(eng, n)
    ctx.floor('outcomes of ' + kind, n, 2)


def again(a, srcs):
    """does the question ask for a name among objects of the same collection
    that were added before, of an object of that collection?"""
    def within(v, x):
        return isinstance(v, tuple) and (v == x or any(within(y, x) for y in v)) or isinstance(v, frozenset) and any(within(y, x) for y in v)
    return any(within(a[1], s) for s in srcs)


def run_containers(ctx):
    cx = vref(context(ctx))
    compose(ctx, 'table', ('column', 'constraint'), D, 'Table', ('columns', 'constraints'),
            ctx.fn(M + 'table::render_table_definition'), [cx, vref(D)], ctx.fn(M + 'table::parse_table_definition'), [vref(SCHEMA)], SCHEMA, ('fld', D, 'name'))
    name = ('fld', D, 'name')
    compose(ctx, 'schema', ('table', 'view', 'index', 'sequence', 'function'), D, 'Schema', ('relations', 'functions'),
            ctx.fn(M + 'schema::render_schema_definition'), [vref(D)], ctx.fn(M + 'schema::parse_schema_definition'), [], name, None)


# ---------------------------------------------------------------- files

def file_contracts(ctx):
    """serde_yaml: what to_string gives is read back by from_str (trusted);
    nodes and schemas: what was shown above"""
    c = nested(ctx)
    c[M + 'schema::render_schema_definition'], c[M + 'schema::parse_schema_definition'] = shown_schema()

    def to_string(eng, st, a):
        return [(st, 'ret', ok(('call', 'yaml text', (eng.deep(st, eng.peel(st, a[0])),), 0)))]

    def from_str(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        if x[0] == 'call' and x[1] == 'yaml text':
            v = x[2][0]
            return [(st, 'ret', ok(v[3][0][1] if v[0] == 'struct' and v[2] == 'Mapping' else v))]
        return None
    c['serde_yaml::to_string'] = to_string
    c['serde_yaml::from_str'] = from_str
    return c


def shown_schema():
    def render(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        return [(st, 'ret', ('call', 'written schema', (x,), 0))]

    def parse(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        if x[0] == 'call' and x[1] == 'written schema':
            return [(st, 'ret', ok(x[2][0]))]
        return None
    return render, parse


def run_file(ctx):
    save, load = ctx.fn('definition::save_snapshot'), ctx.fn('definition::load_yaml_string')
    eng = ctx.engine(effects=lambda p: cmd.EXTERNAL.match(p) is not None and not p.startswith('serde'), max_steps=400000)
    eng.texts = texts
    eng.contracts.update(file_contracts(ctx))
    n = 0
    where = (ctx.loc(save), ctx.loc(load))
    r = cmd.Rename()
    for s, k, v in eng.call_fn(St(), save, [vref(('root', 'path')), vref(D)]):
        v = eng.deep(s, v)
        if not ctx.ob(k == 'ret', 'save:' + k, 'saving definitions can ' + k, where[0]):
            continue
        if any(x != 'Ok' for _, x in eng.fork_variant(s.fork(), v, ['Ok', 'Err'])) and v[0] == 'struct':
            continue
        ev = eng.deep(s, s.glob.get(('ev',), ('list', ())))
        facts = {r(a): (r(b) if isinstance(b, tuple) else b) for a, b in s.facts.items()}
        disk = hist.Disk(cmd.Out(facts, k, v, tuple(r(x) for x in ev[1]))).final()
        got = disk.get(('root', 'path'))
        if not ctx.ob(got is not None and len(disk) == 1 and got[:2] == ('call', 'yaml text'), 'save:file', 'the files saved are %s' % short(tuple(disk.items()))[:200], where[0]):
            continue
        for s2, k2, v2 in eng.call_fn(s.fork(), load, [vref(got)]):
            n += 1
            x = eng.deep(s2, v2)
            if not ctx.ob(k2 == 'ret', 'load:' + k2, 'loading saved definitions can ' + k2, where[1]):
                continue
            if x[2] == 'Err' and any(a[0] == 'has' and w is True and again(a, [mk_fld(D, 'schemas')]) for a, w in s2.facts.items()):
                continue
            if ctx.ob(x[2] == 'Ok', 'load:refused', 'saved definitions are refused: %s when %s' % (short(x)[:160], given(s2)), where[1]):
                for f, val in x[3][0][1][3]:
                    ctx.ob(same_parts(ctx, Same(eng, s2), val, mk_fld(D, f)), 'file.' + f, 'the %s of a snapshot are read back as %s' % (f, short(val)[:200]), where[1])
    ctx.saw(eng, n)
    ctx.floor('outcomes of a file', n, 1)


# ---------------------------------------------------------------- C08, C09: what keys mean

# attribute: what it takes, the fields it sets, what they are without it (the
# defaults of PostgreSQL; None: the attribute is required)
DEFER = {'deferrable': ('boolean', ('deferrable',), FALSE), 'initially deferred': ('boolean', ('initially_deferred',), FALSE)}
NOACT = S('NO ACTION')
MAX = {'int2': 2 ** 15 - 1, 'int4': 2 ** 31 - 1, 'int8': 2 ** 63 - 1}
ATTRS = {
    'PrimaryKey': dict({'primary key': ('texts', ('columns',), None)}, **DEFER),
    'Unique': dict({'unique': ('texts', ('columns',), None)}, **DEFER),
    'ForeignKey': dict({'foreign key': ('texts', ('columns',), None), 'references': ('name and texts', ('target_table', 'target_columns'), None),
                        'match': ('text', ('match_option',), S('SIMPLE')), 'on update': ('text', ('update_rule',), NOACT),
                        'on delete': ('text', ('delete_rule',), NOACT)}, **DEFER),
    'Check': dict({'check': ('text', ('expression',), None)}, **DEFER),
    'view': {'as': ('text', ('query',), None)},
    'index': {'on': ('name and texts', ('table_name', 'key_expressions'), None), 'unique': ('boolean', ('unique',), FALSE),
              'using': ('text', ('method',), S('btree'))},
    'function': {'as': ('text', ('body',), None), 'language': ('text', ('language',), S('SQL')), 'returns': ('text', ('returns',), S('void')),
                 'volatility': ('text', ('volatility',), S('VOLATILE'))},
    'sequence': {'as': ('text', ('data_type',), S('int8')), 'increment': ('integer', ('increment',), I(1)), 'minvalue': ('integer', ('min_value',), I(1)),
                 'maxvalue': ('integer', ('max_value',), I(MAX['int8'])), 'start': ('integer', ('start',), I(1)), 'cache': ('integer', ('cache',), I(1)),
                 'cycle': ('boolean', ('cycle',), FALSE), 'owned by': ('name and text', ('owned_by_table', 'owned_by_column'), NONE)},
}
VARIANT = {'text': 'String', 'boolean': 'Boolean', 'integer': 'Number', 'texts': None}
NAME = ('fld', ('root', 'node'), 'name')


def given_value(kw, takes):
    """a node that gives an attribute a value: (node, value of each field)"""
    v = ('fld', ('root', 'value of ' + kw), 'value')
    nm = ('fld', ('root', 'value of ' + kw), 'name')
    def val(var, x):
        return some(('struct', CHILD, 'Value', (('0', ('struct', VALUE, var, (('0', x),))),)))
    kind = takes.split(' ')[-1]
    if kind == 'text':
        c, out = val('String', v), v
    elif kind == 'boolean':
        c, out = val('Boolean', v), v
    elif kind == 'integer':
        c, out = val('Number', ('struct', NUMBER, 'Integer', (('0', v),))), v
    else:
        e = ('elem', v, 0)
        c, out = val('List', ('list', (('rep', v, e, ((frozenset(), (('one', ('struct', VALUE, 'String', (('0', e),))),)),)),))), v
    if takes.startswith('name'):
        return node(kw, some(nm), c), (nm, out)
    return node(kw, NONE, c), (out,)


def reader(ctx, kind):
    if kind in CONSTRAINTS:
        return ctx.fn(M + 'constraint::parse_constraint_definition'), 'constraint'
    m, _, p, _ = KINDS[kind]
    return ctx.fn(M + m + '::' + p), kind


def read(ctx, kind, kids, name=some(NAME), child=None):
    """outcomes of reading a node with these children"""
    fid, kw = reader(ctx, kind)
    eng = engine(ctx)
    if child is None:
        child = some(('struct', CHILD, 'Nodes', (('0', ('list', tuple(('one', x) for x in kids))),)))
    st = St()
    for x in kids:
        for v in ('columns', 'target_columns'):
            pass
    outs = []
    for s, k, v in eng.call_fn(st, fid, fn_args(ctx, fid, node(kw, name, child))):
        outs.append((eng, s, k, eng.deep(s, v) if k == 'ret' else v))
    ctx.saw(eng, len(outs))
    return outs


def required(kind):
    return [kw for kw, a in ATTRS[kind].items() if a[2] is None]


def expected(kind, vals):
    """the fields of an object read from these attributes"""
    exp = {'name': NAME, 'schema_name': SCHEMA}
    if kind in CONSTRAINTS:
        exp['table_name'] = TABLE
    if kind == 'ForeignKey':
        exp['target_schema'] = SCHEMA
    for kw, (takes, fields, default) in ATTRS[kind].items():
        for i, f in enumerate(fields):
            if kw in vals:
                exp[f] = some(vals[kw][i]) if kw == 'owned by' else vals[kw][i]
            else:
                exp[f] = default
    return exp


def sequence_bounds(same, exp, vals):
    """what PostgreSQL takes for bounds and start that are not given: exp is
    completed; False if the data type has no known bounds"""
    up = same.eng.decide(same.st, ('lt', exp['increment'], I(0))) if exp['increment'][0] != 'int' else exp['increment'][1] < 0
    if up is None:
        lo, hi, _ = bounds(same.eng, same.st, exp['increment'])
        up = hi is not None and hi < 0 if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
        if up is None:
            k = same.find(exp['increment'])
            up = k[1] < 0 if k[0] == 'int' else None
    down = up
    ty = same.canon(exp['data_type'])
    ty = ty[1] if ty[0] == 'str' else None
    if down is None and ty not in MAX and not ('minvalue' in vals and 'maxvalue' in vals):
        return False                # in either direction one bound is unknown
    known = True
    if 'minvalue' not in vals:
        if down is None:
            return None
        if not down:
            exp['min_value'] = I(1)
        elif ty in MAX:
            exp['min_value'] = I(-MAX[ty] - 1)
        else:
            known = False
    if 'maxvalue' not in vals:
        if down is None:
            return None
        if down:
            exp['max_value'] = I(-1)
        elif ty in MAX:
            exp['max_value'] = I(MAX[ty])
        else:
            known = False
    if not known:
        return False
    if 'start' not in vals:
        if down is None:
            return None
        exp['start'] = exp['max_value'] if down else exp['min_value']
    return True


def check_read(ctx, kind, outs, vals, what):
    """every outcome is the object these attributes mean"""
    fid, _ = reader(ctx, kind)
    where = ctx.loc(fid)
    for eng, s, k, v in outs:
        if k != 'ret':
            continue                # C09
        same = Same(eng, s)
        exp = expected(kind, vals)
        empty = [kw for kw, (takes, f, d) in ATTRS[kind].items() if kw in vals and takes.endswith('texts') and eng.decide(s, mk_empty(vals[kw][-1])) is True]
        if kind == 'sequence':
            r = sequence_bounds(same, exp, vals)
            if r is None:
                ctx.ob(False, '%s:%s' % (kind, what), 'the bounds of a sequence do not depend on the direction when %s' % given(s), where)
                continue
            if r is False:
                continue            # no known bounds: refused or not, they have to be given
        if v[2] == 'Err':
            if empty:
                continue            # no columns
            ctx.ob(False, '%s:%s' % (kind, what), 'a %s with %s is refused: %s when %s' % (kind, what, short(v)[:160], given(s)), where)
            continue
        y = v[3][0][1]
        if kind in CONSTRAINTS:
            if not ctx.ob(y[0] == 'struct' and y[2] == kind, '%s:kind' % kind, 'a constraint with %s is read as %s' % (what, short(y)[:100]), where):
                continue
            y = y[3][0][1]
        got = dict(y[3])
        for f, want in exp.items():
            if f in got:
                ctx.ob(same.eq(got[f], want), '%s:%s:%s' % (kind, what, f), 'the %s of a %s with %s is %s, not %s, when %s' % (f, kind, what, short(same.canon(got[f]))[:80], short(want)[:80], given(s)), where)
        ctx.ob(set(got) == set(exp), '%s:fields' % kind, 'a %s has the fields %s, of which %s are known' % (kind, sorted(got), sorted(exp)), where)


def run_keys(ctx):
    """C08: each attribute sets its field to the value given, and a missing one leaves the default"""
    n = 0
    for kind, attrs in ATTRS.items():
        req = [(kw, given_value(kw, attrs[kw][0])) for kw in required(kind)]
        vals = {kw: v for kw, (_, v) in req}
        outs = read(ctx, kind, [x for _, (x, _) in req])
        check_read(ctx, kind, outs, vals, 'only what is required')
        opts = [kw for kw in attrs if kw not in vals]
        n += 1 + len(opts)
        for kw in opts:
            x, v = given_value(kw, attrs[kw][0])
            check_read(ctx, kind, read(ctx, kind, [y for _, (y, _) in req] + [x]), dict(vals, **{kw: v}), kw)
        if kind == 'sequence':
            for a, b in (('as', 'increment'), ('increment', 'minvalue'), ('increment', 'maxvalue'), ('as', 'minvalue'), ('as', 'maxvalue')):
                x, v = given_value(a, attrs[a][0])
                y, w = given_value(b, attrs[b][0])
                check_read(ctx, kind, read(ctx, kind, [x, y]), {a: v, b: w}, a + ' and ' + b)
                n += 1
        # everything at once
        every = [given_value(kw, attrs[kw][0]) for kw in attrs]
        for what, order in (('all attributes', every), ('all attributes in another order', every[::-1])):
            check_read(ctx, kind, read(ctx, kind, [x for x, _ in order]), {kw: v for kw, (_, v) in zip(attrs, every)}, what)
    ctx.floor('attributes', n, 30)
    qualified(ctx)
    key_texts(ctx)


def qualified(ctx):
    """references SCHEMA.TABLE names a table of another schema"""
    a, b = ('fld', ('root', 'a'), 'name'), ('fld', ('root', 'b'), 'name')
    fk, v1 = given_value('foreign key', 'texts')
    ref, v2 = given_value('references', 'name and texts')
    ref = ref[:3] + (tuple((f, some(mk_cat([a, S('.'), b])) if f == 'name' else x) for f, x in ref[3]),)
    fid, _ = reader(ctx, 'ForeignKey')
    for eng, s, k, v in read(ctx, 'ForeignKey', [fk, ref]):
        if k != 'ret' or v[2] == 'Err' and eng.decide(s, mk_empty(v2[1])) is True:
            continue
        got = dict(v[3][0][1][3][0][1][3]) if v[2] == 'Ok' else {}
        ctx.ob(got.get('target_schema') == a and got.get('target_table') == b, 'ForeignKey:qualified', 'references "A.B" is read as schema %s, table %s' % (
            short(got.get('target_schema', ('none',)))[:60], short(got.get('target_table', ('none',)))[:60]), ctx.loc(fid))


def read_mapping(ctx, key, value, widen=0):
    """outcomes of reading a mapping with one entry"""
    eng = engine(ctx)
    eng.rec_limit = 1 if widen else 3
    eng.join_max = widen
    yaml_models(eng)
    eng.contracts.update(nested(ctx))
    m = ('map', (('ins', key, value),))
    outs = [(eng, s, k, eng.deep(s, v) if k == 'ret' else v) for s, k, v in eng.call_fn(St(), ctx.fn(Y + 'parse_mapping_to_nodes'), [vref(m)])]
    ctx.saw(eng, len(outs))
    return outs


YV = 'serde_yaml::Value'


def yv(var, *a):
    return ('struct', YV, var, tuple((str(i), x) for i, x in enumerate(a)))


def key_texts(ctx):
    """a key is a keyword in any letter case, then white space, then the name"""
    where = ctx.loc(ctx.fn(Y + 'parse_mapping_to_nodes'))
    kws = {kw for a in ATTRS.values() for kw in a} | {'schema', 'table', 'column', 'constraint', 'view', 'index', 'function', 'sequence'}
    for kw in sorted(kws):
        for spelled in (kw, kw.upper(), kw.title()):
            for sep, nm in (('', NONE), ('  ', some(NAME))):
                key = mk_cat([S(spelled + sep)] + ([NAME] if nm != NONE else []))
                for eng, s, k, v in read_mapping(ctx, yv('String', key), yv('String', ('fld', ('root', 'v'), 't'))):
                    if kw == 'on' and longer_keyword(s, []):
                        continue        # C07
                    got = v[3][0][1][1][0][1] if k == 'ret' and v[2] == 'Ok' and v[3][0][1][0] == 'list' and len(v[3][0][1][1]) == 1 else ('none',)
                    ctx.ob(got == node(kw, nm, children()['a text']), 'key:%s%s' % (kw, ' NAME' if nm != NONE else ''), 'the key "%s%s" is read as %s when %s' % (
                        spelled + sep, 'NAME' if nm != NONE else '', short(got if got != ('none',) else v)[:120], given(s)), where)
    ctx.floor('keywords', len(kws), 25)


# ---------------------------------------------------------------- C09: malformed definitions

def run_malformed(ctx):
    """nothing that is not understood is passed over, and nothing panics"""
    n = 0
    for kind, attrs in ATTRS.items():
        req = [(kw, given_value(kw, attrs[kw][0])) for kw in required(kind)]
        n += 1
        where = ctx.loc(reader(ctx, kind)[0])
        # without each attribute that is required
        for kw, _ in req:
            for eng, s, k, v in read(ctx, kind, [x for w, (x, _) in req if w != kw]):
                refused(ctx, kind, 'without ' + kw, k, v, s, where)
        # what is required, and any other child
        any_ = ('root', 'any child')
        for eng, s, k, v in read(ctx, kind, [x for _, (x, _) in req] + [any_]):
            if not ctx.ob(k == 'ret', '%s:any:%s' % (kind, k), 'an attribute of a %s can make reading %s: %s when %s' % (kind, k, short(v)[:80], given(s)), where):
                continue
            if v[2] == 'Err':
                continue
            kw = Same(eng, s).find(mk_fld(any_, 'type'))
            kw = kw[1] if kw[0] == 'str' else None
            if not ctx.ob(kw in attrs, '%s:unknown' % kind, 'a %s takes an attribute %s without using it when %s' % (kind, kw or 'it does not know', given(s)), where):
                continue
            takes = attrs[kw][0]
            ctx.ob(well_formed(s, any_, takes), '%s:%s:type' % (kind, kw), 'the attribute %s of a %s takes something else than %s when %s' % (kw, kind, takes, given(s)), where)
        # a list with something else than texts
        for kw in attrs:
            if not attrs[kw][0].endswith('texts'):
                continue
            el = ('root', 'element')
            child = some(('struct', CHILD, 'Value', (('0', ('struct', VALUE, 'List', (('0', ('list', (('one', ('struct', VALUE, 'String', (('0', ('fld', ('root', 'e'), 't')),))), ('one', el)))),))),)))
            x, _ = given_value(kw, attrs[kw][0])
            x = x[:3] + (tuple((f, child if f == 'child' else y) for f, y in x[3]),)
            for eng, s, k, v in read(ctx, kind, [y for w, (y, _) in req if w != kw] + [x]):
                if k != 'ret' or v[2] != 'Err':
                    ctx.ob(k == 'ret' and s.facts.get(('is', el)) == 'String', '%s:%s:element' % (kind, kw), 'an element of %s of a %s that may not be a text is taken when %s' % (kw, kind, given(s)), where)
        # no name, no children
        for eng, s, k, v in read(ctx, kind, [x for _, (x, _) in req], name=NONE):
            refused(ctx, kind, 'without a name', k, v, s, where)
        for eng, s, k, v in read(ctx, kind, [], child=children()['a text']):
            refused(ctx, kind, 'with a text for children', k, v, s, where)
    # columns
    where = ctx.loc(reader(ctx, 'column')[0])
    for what, c in children().items():
        for eng, s, k, v in read(ctx, 'column', [], child=c):
            if what == 'a text':
                ctx.ob(k == 'ret', 'column:' + k, 'reading a column can ' + k, where)
            else:
                refused(ctx, 'column', 'with ' + what, k, v, s, where)
    for eng, s, k, v in read(ctx, 'column', [], name=NONE, child=children()['a text']):
        refused(ctx, 'column', 'without a name', k, v, s, where)
    ctx.floor('kinds', n, 8)
    bad_yaml(ctx)
    bad_containers(ctx)


def refused(ctx, kind, what, k, v, s, where):
    ctx.ob(k == 'ret' and v[0] == 'struct' and v[2] == 'Err', '%s:%s' % (kind, what), 'a %s %s is not refused (%s) when %s' % (kind, what, k if k != 'ret' else short(v)[:100], given(s)), where)


def well_formed(s, c, takes):
    """do the facts say that the child is what the attribute takes?"""
    f = s.facts
    ch = mk_fld(c, 'child')
    if f.get(('is', ch)) != 'Some':
        return False
    ch = mk_fld(ch, 'Some.0')
    if f.get(('is', ch)) != 'Value':
        return False
    ch = mk_fld(ch, 'Value.0')
    var = f.get(('is', ch))
    if takes.startswith('name') and f.get(('is', mk_fld(c, 'name'))) != 'Some':
        return False
    kind = takes.split(' ')[-1]
    if kind == 'text':
        return var == 'String'
    if kind == 'boolean':
        return var == 'Boolean'
    if kind == 'integer':
        return var == 'Number' and f.get(('is', mk_fld(ch, 'Number.0'))) == 'Integer'
    return var in ('String', 'List')


def bad_yaml(ctx):
    """keys and values that mean nothing are refused"""
    where = ctx.loc(ctx.fn(Y + 'parse_mapping_to_nodes'))
    text_ = yv('String', ('fld', ('root', 'v'), 't'))
    for key in ('', 'ta', 'tablex', 'xtable', 'indexes a', 'foo bar', 't\u00e4ble x', 'primary', '\u00e9\u00e9\u00e9', 'on_update', 'viewa'):
        for eng, s, k, v in read_mapping(ctx, yv('String', S(key)), text_):
            refused(ctx, 'node', 'with the key "%s"' % key.encode('ascii', 'replace').decode(), k, v, s, where)
    for var in ('Null', 'Bool', 'Number', 'Sequence', 'Mapping', 'Tagged'):
        for eng, s, k, v in read_mapping(ctx, yv(var, *([] if var == 'Null' else [('fld', ('root', 'k'), 'x')])), text_):
            refused(ctx, 'node', 'with a %s for a key' % var, k, v, s, where)
    # any key: only keywords are taken
    key = ('fld', ('root', 'any'), 'key')
    n = 0
    for eng, s, k, v in read_mapping(ctx, yv('String', key), text_, widen=4):
        n += 1
        if not ctx.ob(k == 'ret', 'key:' + k, 'a key can make reading %s when %s' % (k, given(s)), where) or v[2] == 'Err':
            continue
        x = v[3][0][1][1]
        kw = dict(x[0][1][3])['type'] if len(x) == 1 and x[0][0] == 'one' else None
        ctx.ob(kw is not None and any(w is True and a[0] == 'call' and kw in a[2] for a, w in s.facts.items()), 'key:unknown', 'a key that is no keyword is read as %s when %s' % (
            short(v)[:100], given(s)), where)
    ctx.floor('outcomes of a key', n, 25)
    # any value
    val = ('root', 'any value')
    for eng, s, k, v in read_mapping(ctx, yv('String', S('check')), val, widen=4):
        if not ctx.ob(k == 'ret', 'value:' + k, 'a value can make reading %s when %s' % (k, given(s)), where):
            continue
        var = s.facts.get(('is', val))
        if v[2] == 'Err':
            ctx.ob(var not in ('Null', 'Bool', 'String') , 'value:%s:refused' % var, 'a %s value is refused when %s' % (var, given(s)), where)
            continue
        x = v[3][0][1][1]
        child = dict(x[0][1][3])['child'] if len(x) == 1 and x[0][0] == 'one' else ('none',)
        inner = mk_fld(val, '%s.0' % var)
        want = {'Null': NONE, 'Bool': children_value('Boolean', inner), 'String': children_value('String', inner)}
        if var in want:
            ctx.ob(child == want[var], 'value:' + str(var), 'a %s value is read as %s' % (var, short(child)[:100]), where)
        elif var == 'Mapping':
            ctx.ob(child[0] == 'struct' and child[2] == 'Some' and child[3][0][1][:3] == ('struct', CHILD, 'Nodes'), 'value:Mapping', 'a mapping is read as %s' % short(child)[:100], where)
        elif var in ('Number', 'Sequence'):
            got = child[3][0][1][3][0][1] if child[0] == 'struct' and child[2] == 'Some' and child[3][0][1][2] == 'Value' else ('none',)
            if var == 'Sequence':
                ctx.ob(got[:3] == ('struct', VALUE, 'List'), 'value:Sequence', 'a Sequence is read as %s' % short(child)[:100], where)
                continue
            kind = s.facts.get(('is', inner))
            want = ('struct', VALUE, 'Number', (('0', ('struct', 'definition::base::node::Number', {'I': 'Integer', 'F': 'Float'}.get(kind), (('0', ('fld', inner, kind)),))),))
            ctx.ob(got == want, 'value:Number:' + str(kind), 'a number (%s) is read as %s' % (kind, short(child)[:100]), where)
        else:
            ctx.ob(False, 'value:other', 'a value that is %s is read as %s' % (var or 'anything', short(child)[:100]), where)
    # what is wrong further down makes the whole wrong
    for eng, s, k, v in read_mapping(ctx, yv('String', S('table a')), yv('Mapping', ('root', 'inner')), widen=4):
        bad = [a for a, w in s.facts.items() if a[0] == 'is' and w == 'Err' and mentions(a, ('root', 'inner'))]
        if bad:
            refused(ctx, 'node', 'with bad children', k, v, s, where)
        else:
            ctx.ob(k == 'ret' and v[2] == 'Ok', 'nested:refused', 'a mapping is refused when %s' % given(s), where)


def children_value(var, x):
    return some(('struct', CHILD, 'Value', (('0', ('struct', VALUE, var, (('0', x),))),)))


def parts_unknown(ctx, kinds):
    """the readers of parts, of which nothing is known but the node they read"""
    res = {}
    for kw in kinds:
        m, _, p = PARTS[kw]

        def f(eng, st, a, kw=kw):
            return [(st, 'ret', ('call', 'read ' + kw, (eng.deep(st, eng.peel(st, a[-1])),), 0))]
        ctx.fn(M + m + '::' + p)
        res[M + m + '::' + p] = f
    return res


def bad_containers(ctx):
    """tables and schemas: a child that is refused or unknown is never passed over, and no name is used twice"""
    for kind, parts, args in (('table', ('column', 'constraint'), [vref(SCHEMA)]), ('schema', ('table', 'view', 'index', 'sequence', 'function'), [])):
        fid = ctx.fn(M + '%s::parse_%s_definition' % (kind, kind))
        where = ctx.loc(fid)

        def run(kids, name=some(NAME), child=None):
            eng = engine(ctx)
            eng.contracts.update(parts_unknown(ctx, parts))
            c = child or some(('struct', CHILD, 'Nodes', (('0', ('list', tuple(('one', x) for x in kids))),)))
            outs = [(eng, s, k, eng.deep(s, v) if k == 'ret' else v) for s, k, v in eng.call_fn(St(), fid, args + [vref(node(kind, name, c))])]
            ctx.saw(eng, len(outs))
            return outs
        any_ = ('root', 'any child')
        seen = set()
        for eng, s, k, v in run([any_]):
            if not ctx.ob(k == 'ret', '%s:any:%s' % (kind, k), 'a child of a %s can make reading %s when %s' % (kind, k, given(s)), where):
                continue
            kw = Same(eng, s).find(mk_fld(any_, 'type'))
            kw = kw[1] if kw[0] == 'str' else None
            r = s.facts.get(('is', ('call', 'read %s' % kw, (any_,), 0)))
            if v[2] == 'Err':
                ctx.ob(kw not in parts or r == 'Err', '%s:%s:refused' % (kind, kw), 'a %s of a %s is refused when %s' % (kw, kind, given(s)), where)
                continue
            if ctx.ob(kw in parts and r == 'Ok', '%s:unknown' % kind, 'a child (%s, %s) of a %s is passed over when %s' % (kw, r, kind, given(s)), where):
                seen.add(kw)
                # ... and it is in the result
                ctx.ob(held(v, ('fld', ('call', 'read %s' % kw, (any_,), 0), 'Ok.0')), '%s:%s:lost' % (kind, kw), 'a %s of a %s is not in what is read: %s' % (kw, kind, short(v)[:160]), where)
        ctx.ob(seen == set(parts), '%s:parts' % kind, 'a %s is read with %s only' % (kind, sorted(seen)), where)
        # two of the same name
        for kw in parts:
            two = [node(kw, some(('fld', ('root', x), 'name')), NONE) for x in 'ab']
            n = 0
            for eng, s, k, v in run(two):
                n += 1
                if not ctx.ob(k == 'ret', '%s:%s:two:%s' % (kind, kw, k), 'two objects (%s) of a %s can %s when %s' % (kw, kind, k, given(s)), where) or v[2] != 'Ok':
                    continue
                x, y = (('fld', ('call', 'read ' + kw, (t,), 0), 'Ok.0') for t in two)
                if ctx.ob(held(v, x) and held(v, y), '%s:%s:two' % (kind, kw), 'of two objects (%s) of a %s one is lost: %s' % (kw, kind, short(v)[:160]), where):
                    ctx.ob(distinct(s, x, y), '%s:%s:names' % (kind, kw), 'two objects (%s) of a %s may have the same name: nothing compares them when %s' % (kw, kind, given(s)), where)
            ctx.floor('outcomes of two ' + kw, n, 3)
        for eng, s, k, v in run([], name=NONE):
            refused(ctx, kind, 'without a name', k, v, s, where)
        for eng, s, k, v in run([], child=children()['a text']):
            refused(ctx, kind, 'with a text for children', k, v, s, where)


def held(v, x):
    """is the object x (or its parts) in this result?"""
    return v == x or isinstance(v, (tuple, frozenset)) and any(held(y, x) for y in v)


def distinct(s, x, y):
    """do the facts say that the names of x and y differ?"""
    for a, w in s.facts.items():
        if a[0] in ('eq', 'has') and w is False and mentions(a, x) and mentions(a, y):
            return True
    return False


def run_c07(ctx):
    written = run_roundtrip(ctx)
    run_yaml(ctx, written)
    run_containers(ctx)
    run_file(ctx)


# ---------------------------------------------------------------- C26: several schemas, files, directories

SCH = 'snapshot::types::schema::Schema'
REL = 'snapshot::types::relation::Relation'


def a_schema(i, kind, has=(True, True)):
    """a schema of a file, with one relation and one function (or none); of which nothing is known but that"""
    s = ('root', 'schema%d' % i)
    rel = ('struct', REL, kind, (('0', ('fld', s, 'relation')),))
    fun = ('fld', s, 'function')
    return (('struct', SCH, None, (('name', ('fld', s, 'name')), ('relations', ('map', (('ins', mk_fld(rel[3][0][1], 'name'), rel),) if has[0] else ())),
                                   ('functions', ('map', (('ins', mk_fld(fun, 'name'), fun),) if has[1] else ())))), rel if has[0] else None, fun if has[1] else None)


def entries(eng, s, m):
    """values of a map built in known steps (None if it is more than that),
    without those that may have been replaced"""
    if m[0] != 'map' or any(x[0] != 'ins' for x in m[1]):
        return None
    return [x[2] for i, x in enumerate(m[1]) if all(eng.decide(s, mk_eq(x[1], y[1])) is False for y in m[1][i + 1:])]


def clash(s):
    """do two objects (not schemas) have the same name?"""
    return any(w is True and a[0] in ('eq', 'has') and ("'relation'" in str(a) or "'function'" in str(a)) for a, w in s.facts.items())


def failed(s, what):
    return any(a[0] == 'is' and w in ('Err', 'None') and mentions(a, what) or w == 'Err' and a[0] == 'is' for a, w in s.facts.items())


def complete(ctx, key, eng, s, v, schemas, where, what):
    """the database v is exactly these schemas, merged by name"""
    db = dict(v[3]) if v[0] == 'struct' else {}
    got = entries(eng, s, db.get('schemas', ('none',)))
    if not ctx.ob(got is not None and all(x[0] == 'struct' and x[1] == SCH for x in got), key + ':shape', '%s: the result is %s' % (what, short(v)[:200]), where):
        return
    same = Same(eng, s)
    for sch, rel, fun in schemas:
        name = dict(sch[3])['name']
        mine = [dict(g[3]) for g in got if same.eq(dict(g[3])['name'], name)]
        if ctx.ob(len(mine) == 1, key + ':schema', '%s: a schema is %s in the result when %s' % (what, 'not' if not mine else 'several times', given(s)), where):
            for f, x in (('relations', rel), ('functions', fun)):
                ctx.ob(x is None or x in (entries(eng, s, mine[0][f]) or []), key + ':' + f, '%s: an object of a schema is lost (%s) when %s' % (what, f, given(s)), where)
    all_ = [x for _, r, f in schemas for x in (r, f)]
    for g in got:
        for f in ('relations', 'functions'):
            have = entries(eng, s, dict(g[3])[f])
            for x in [('none',)] if have is None else have:
                ctx.ob(x in all_, key + ':more', '%s: %s is in the result' % (what, short(x)[:100]), where)


def reading(schemas_of, log):
    """files: their text, nodes and schemas as given; anything may fail"""
    def text(eng, st, a):
        p = eng.deep(st, eng.peel(st, a[0]))
        st.setg(('read',), ('list', (st.glob.get(('read',), ('list', ()))[1]) + (('one', p),)))
        return [(st.fork(), 'ret', err(('root', 'unreadable'))), (st, 'ret', ok(('call', 'text of', (p,), 0)))]

    def mapping(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        return [(st.fork(), 'ret', err(('root', 'no yaml'))), (st, 'ret', ok(('call', 'mapping', (x,), 0)))]

    def nodes(eng, st, a):
        x = eng.deep(st, eng.peel(st, a[0]))
        return [(st.fork(), 'ret', err(('root', 'no nodes'))), (st, 'ret', ok(('list', tuple(('one', ('call', 'node', (x, I(i)), 0)) for i in range(len(schemas_of(x)))))))]

    def schema(eng, st, a):
        n = eng.deep(st, eng.peel(st, a[0]))
        if n[:2] != ('call', 'node'):
            return None
        return [(st.fork(), 'ret', err(('root', 'no schema'))), (st, 'ret', ok(schemas_of(n[2][0])[n[2][1][1]][0]))]
    return {'std::fs::read_to_string': text, 'serde_yaml::from_str': mapping, Y + 'parse_mapping_to_nodes': nodes, M + 'schema::parse_schema_definition': schema}


def directory(ctx, load, shapes):
    where = ctx.loc(load)
    per = {}

    def schemas_of(x):
        if x not in per:
            per[x] = [a_schema(10 + len(per), ('Table', 'Sequence', 'View', 'Index')[len(per) % 4], shapes[len(per) % 2])]
        return per[x]
    eng = ctx.engine(max_steps=800000)
    eng.rec_limit = 3
    eng.contracts.update(reading(schemas_of, None))
    eng.contracts.update(ANY_ORDER)
    dir_ = ('root', 'dir')

    def entry(p):
        return [('call', 'entry', (p, I(i)), 0) for i in range((2, 1, 0)[depth(p)])]

    def depth(p):
        return 0 if p == dir_ else 1 + depth(p[2][0][1][2][0])

    def read_dir(eng, st, a):
        p = eng.deep(st, eng.peel(st, a[0]))
        return [(st.fork(), 'ret', err(('root', 'unreadable'))), (st, 'ret', ok(('iter', tuple(('one', x) for x in entry(p)))))]
    eng.contracts['std::fs::read_dir'] = read_dir
    n = 0
    for s, k, v in eng.call_fn(St(), load, [vref(dir_)]):
        n += 1
        v = eng.deep(s, v)
        if not ctx.ob(k == 'ret', 'directory:' + k, 'loading a directory can ' + k, where):
            continue
        read = [x[1] for x in s.glob.get(('read',), ('list', ()))[1]]
        paths = [p for p in under(dir_, entry) if s.facts.get(('is', p)) == 'Ok']
        for p in read:
            d = [x for x in paths if path_of(x) == p]
            ctx.ob(len(d) == 1 and yaml(s, p) is True and kind(s, p) is not True, 'directory:reads', 'a file is read of which it is not known that its extension is yaml: %s' % given(s), where)
        if v[2] == 'Ok':
            for x in paths:
                p = path_of(x)
                if kind(s, p) is not True:
                    ctx.ob(read.count(p) == 1 or yaml(s, p) is False, 'directory:skips', 'a definition file of the directory is %s when %s' % (
                        'read twice' if p in read else 'not read', given(s)), where)
                else:
                    ctx.ob(all(('is', y) in s.facts for y in entry(p)), 'directory:sub', 'a directory below is not searched when %s' % given(s), where)
            ctx.ob(all(s.facts.get(('is', x)) == 'Ok' for x in entry(dir_)), 'directory:entry', 'an entry that cannot be read is passed over when %s' % given(s), where)
            complete(ctx, 'directory', eng, s, v[3][0][1], [y for p in read for y in schemas_of(('call', 'mapping', (('call', 'text of', (p,), 0),), 0))], where, 'a directory')
        else:
            e = v[3][0][1]
            ctx.ob(clash(s) or broken(e) or any(s.facts.get(('is', x)) == 'Err' for x in under(dir_, entry)),
                   'directory:refused', 'definitions are refused (%s) when %s' % (short(e)[:100], given(s)), where)
    ctx.saw(eng, n)
    ctx.floor('outcomes of a directory', n, 5)


def run_complete(ctx):
    # one file with three schemas
    load = ctx.fn('definition::load_yaml_string')
    where = ctx.loc(load)
    three = [a_schema(i, k) for i, k in enumerate(('Table', 'View', 'Index'))]
    eng = ctx.engine(max_steps=400000)
    eng.contracts.update(reading(lambda x: three, None))
    n = 0
    for s, k, v in eng.call_fn(St(), load, [vref(('root', 'text'))]):
        n += 1
        v = eng.deep(s, v)
        if ctx.ob(k == 'ret', 'file:' + k, 'loading a file can ' + k, where):
            judge(ctx, 'file', eng, s, v, three, where, 'a file with three schemas')
    ctx.saw(eng, n)
    ctx.floor('outcomes of a file', n, 5)
    # two schemas, with and without relations and functions
    for h in itertools.product(itertools.product((True, False), repeat=2), repeat=2):
        two = [a_schema(i, k, h[i]) for i, k in enumerate(('Sequence', 'View'))]
        eng = ctx.engine(max_steps=400000)
        eng.contracts.update(reading(lambda x: two, None))
        n = 0
        for s, k, v in eng.call_fn(St(), load, [vref(('root', 'text'))]):
            n += 1
            v = eng.deep(s, v)
            if ctx.ob(k == 'ret', 'file:' + k, 'loading a file can ' + k, where):
                judge(ctx, 'file', eng, s, v, two, where, 'a file with two schemas (%s)' % ' and '.join('%s relations, %s functions' % tuple('with' if x else 'without' for x in y) for y in h))
        ctx.saw(eng, n)
        ctx.floor('outcomes of a file', n, 3)
    # a directory with two entries, of which directories have one entry
    load = ctx.fn('definition::load_snpashot')
    for shapes in (((True, True), (True, True)), ((True, False), (False, True)), ((False, True), (True, False))):
        directory(ctx, load, shapes)
    every_entry(ctx, load)


# the order of the files does not matter here
ANY_ORDER = {p + n: lambda eng, st, a: [(st, 'ret', UNIT)] for p in ('std::slice::<impl [T]>::', 'core::slice::<impl [T]>::') for n in (
    'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'reverse')}


def every_entry(ctx, load):
    """the same for any number of entries and files: what one turn of the loop
    over them does, whatever the turns before did.  Only where the files are
    collected first, by a function of their own; otherwise the cases above stand."""
    prog = ctx.prog
    names = ('std::path::PathBuf', 'std::vec::Vec')
    by = cmd.reach(ctx, load)[1].get('std::fs::read_dir')
    lists = [prog.find(by)] if by else []
    for g in lists:
        ret = prog.types[prog.fns[g]['locals'][0]]['s']
        if not (all(x in ret for x in names) and ret.startswith('std::result::Result') and prog.fns[g]['argc'] == 1):
            lists = []
    if len(lists) != 1:
        ctx.info['entries'] = 'directories of two entries only: %d functions that list the files' % len(lists)
        return
    g, = lists
    path = prog.np(prog.fns[g]['path'])
    where = ctx.loc(g)
    dir_ = ('root', 'dir')
    eng = ctx.engine(max_steps=400000)
    eng.rec_limit = 1
    eng.contracts.update(ANY_ORDER)
    n = m = 0
    for s, k, v in eng.call_fn(St(), g, [vref(dir_)]):
        n += 1
        v = eng.deep(s, v)
        if k != 'ret' or v[2] != 'Ok':
            continue
        segs = v[3][0][1][1] if v[3][0][1][0] == 'list' else ()
        for seg in segs:
            if seg[0] != 'rep' or not mentions(seg[1], dir_) or len(segs) > 1:
                continue
            for f, x in seg[3]:
                m += 1
                t = St()
                t.facts = dict(f)
                p = path_of(seg[2])
                if kind(t, p) is True:
                    ctx.ob(x == (('all', ('fld', ('call', path, (p,), 0), 'Ok.0')),), 'entries:sub', 'the files of a directory below are %s when %s' % (
                        short(x)[:100] if x else 'not taken', given(t)), where)
                else:
                    ctx.ob(x == (('one', p),) or not x and yaml(t, p) is False, 'entries:file', 'for an entry %s is taken when %s' % (short(x)[:100] if x else 'nothing', given(t)), where)
    ctx.saw(eng, n)
    ctx.info['entries'] = 'any number of entries: %d cases of an entry of %s' % (m, path)
    files = ('root', 'files')

    def log(what):
        def f(eng, st, a):
            x = eng.deep(st, eng.peel(st, a[-1]))
            st.setg(('log',), ('list', st.glob[('log',)][1] + (('one', ('call', what, (x,), 0)),)))
            if what == 'merge' and a[0][0] == 'ref':
                eng.write(st, a[0][1], a[0][2], ('call', 'merged', (eng.deep(st, eng.peel(st, a[0])), x), 0))
            return [(st.fork(), 'ret', err(('root', 'no ' + what))), (st, 'ret', ok(('call', what + ' ok', (x,), 0)))]
        return f
    eng = ctx.engine(max_steps=400000)
    eng.contracts[path] = lambda eng, st, a: [(st, 'ret', ok(files))]
    eng.contracts.update(ANY_ORDER)
    eng.contracts['std::fs::read_to_string'] = log('read')
    for p in ('definition::load_yaml_string', 'snapshot::types::database::Database::merge'):
        eng.contracts[p] = log(p.rsplit('::', 1)[-1])
    st = St()
    st.setg(('log',), ('list', ()))
    n = 0
    done = []
    for s, k, v in eng.call_fn(st, load, [vref(dir_)]):
        n += 1
        v = eng.deep(s, v)
        if k == 'ret' and v[2] == 'Ok':
            for x in s.glob[('log',)][1]:
                if x[0] == 'rep' and x[1] == files:
                    done.append(x)
                elif x[0] == 'rep':
                    ctx.ob(x[1][0] not in ('take', 'skip', 'dedup', 'slice'), 'files:part', 'only some of the files found are read: %s' % short(x[1])[:150], ctx.loc(load))
    what = {e[1][1] for seg in done for f, x in seg[3] for e in x if e[0] == 'one'}
    for seg in done:
        for w in what:
            for f, x in seg[3]:
                ctx.ob(sum(e[0] == 'one' and e[1][1] == w and mentions(e[1][2][0], seg[2]) for e in x) == 1, 'files:' + w,
                       'of the files found, one is not taken (%s) when %s' % (w, ', '.join('%s=%s' % (short(a)[:80], b) for a, b in f)), ctx.loc(load))
    ctx.saw(eng, n)


def path_of(x):
    return ('call', 'std::fs::DirEntry::path', (('fld', x, 'Ok.0'),), 0)


def under(d, entry):
    for x in entry(d):
        yield x
        yield from under(path_of(x), entry)


def kind(s, p):
    return next((w for a, w in s.facts.items() if a[0] == 'call' and a[1].endswith('is_dir') and a[2][0] == p), None)


def yaml(s, p):
    """do the facts say that the extension of p is yaml?"""
    for a, w in s.facts.items():
        if mentions(a, p) and "yaml'" in str(a) and w in (True, False):
            return w
        if a[0] == 'is' and a[1][0] == 'call' and a[1][1].endswith('extension') and a[1][2][0] == p and w == 'None':
            return False
    return None


def broken(e):
    """is this the error of a step that failed?"""
    return any(mentions(e, ('root', x)) for x in ('unreadable', 'no yaml', 'no nodes', 'no schema'))


def judge(ctx, key, eng, s, v, schemas, where, what):
    if v[2] == 'Ok':
        complete(ctx, key, eng, s, v[3][0][1], schemas, where, what)
        return
    e = v[3][0][1]
    ctx.ob(clash(s) or broken(e), key + ':refused', '%s is refused (%s) when %s' % (what, short(e)[:100], given(s)), where)
