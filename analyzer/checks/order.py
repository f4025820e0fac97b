"""C22: staged changes come in an order in which they can be executed."""
from engine import *
from pp import short
from checks.c01 import sort_cmp, diff_summary

CH = 'snapshot::changes::Change'
VIEW, INDEX, SEQ, TABLE = ['%s{}Change'.format(k) for k in ('View', 'Index', 'Sequence', 'Table')]
CONS = ['Check', 'ForeignKey', 'PrimaryKey', 'Unique']
RELS = ['View', 'Index', 'Sequence', 'Table']


def rules():
    """(first, second, why): where both are staged, the first comes before the second"""
    def add(a, b, why):
        out.append((a + 'Change', b + 'Change', why))
    out = []
    drop, create = 'Drop%s', 'Create%s'
    # a schema holds everything
    for k in RELS + ['Function']:
        add('CreateSchema', 'Create' + k, 'an object is created in its schema')
        add('Drop' + k, 'DropSchema', 'a schema can be dropped only when it is empty')
    for k in CONS + ['Column']:
        add('CreateSchema', 'Add' + k, 'a constraint or column is added in its schema')
        add('Drop' + k, 'DropSchema', 'what is in a schema is dropped before it')
    # a table holds columns and constraints
    for k in CONS:
        add('CreateTable', 'Add' + k, 'a constraint is added to a table that exists')
        add('Drop' + k, 'DropTable', 'a constraint is dropped from a table that still exists')
        add('AddColumn', 'Add' + k, 'a constraint may be on a new column')
        add('Drop' + k, 'DropColumn', 'a column can be dropped when no constraint is on it')
        add('Drop' + k, 'AlterColumnSetDataType', 'the type may no longer fit the constraint')
        add('AlterColumnSetDataType', 'Add' + k, 'the constraint may need the new type')
    # indexes and views are on tables and their columns
    for k in ('Index', 'View'):
        add('CreateTable', 'Create' + k, '%s is on a table' % k)
        add('AddColumn', 'Create' + k, '%s may use a new column' % k)
        add('AlterColumnSetDataType', 'Create' + k, '%s may need the new type' % k)
        add('Drop' + k, 'DropTable', 'a table can be dropped when nothing is on it')
        add('Drop' + k, 'DropColumn', 'a column can be dropped when nothing uses it')
        add('Drop' + k, 'AlterColumnSetDataType', 'a column that is used cannot change its type')
        add('Drop' + k, 'DropFunction', 'a function can be dropped when nothing uses it')
        add('CreateFunction', 'Create' + k, '%s may use a function' % k)
    add('DropView', 'DropSequence', 'a view can use a sequence')
    add('CreateSequence', 'CreateView', 'a view can use a sequence')
    # foreign keys are on keys of other tables
    for k in ('PrimaryKey', 'Unique'):
        add('Add' + k, 'AddForeignKey', 'a foreign key refers to a key')
        add('DropForeignKey', 'Drop' + k, 'a key can be dropped when no foreign key refers to it')
    add('DropPrimaryKey', 'AlterColumnSetNotNull', 'a column of a primary key is not null')
    # defaults and checks use sequences and functions
    for k in ('Sequence', 'Function'):
        for x in ('CreateTable', 'AddColumn', 'AlterColumnSetDefault', 'AddCheck'):
            add('Create' + k, x, 'a default or check may use a %s' % k.lower())
        for x in ('DropTable', 'DropColumn', 'AlterColumnSetDefault', 'DropCheck'):
            add(x, 'Drop' + k, 'a %s can be dropped when no default or check uses it' % k.lower())
    # names are free before they are taken again
    for a in RELS:
        for b in RELS:
            add('Drop' + a, 'Create' + b, 'another relation may take the name')
    for a in CONS:
        for b in CONS:
            add('Drop' + a, 'Add' + b, 'another constraint may take the name')
    add('DropFunction', 'CreateFunction', 'another function may take the name')
    for k in ('PrimaryKey', 'Unique'):
        for a in RELS:
            add('Drop' + a, 'Add' + k, 'its index may take the name')
            add('Drop' + k, 'Create' + a, 'the name of its index may be taken')
    seen = {}
    for a, b, w in out:
        seen.setdefault((a, b), w)
    return seen


def kinds(v, out):
    if isinstance(v, tuple):
        if v[:2] == ('struct', CH):
            out.add(v[2])
            return out
        for x in v:
            kinds(x, out)
    elif isinstance(v, frozenset):
        for x in v:
            kinds(x, out)
    return out


def before(ctx, segs, a, b):
    """is every change a in the list before every change b?"""
    at = [i for i, s in enumerate(segs) if a in kinds(s, set())]
    bt = [i for i, s in enumerate(segs) if b in kinds(s, set())]
    if not at or not bt:
        return True
    if max(at) < min(bt):
        return True
    if len(segs) == 1 and segs[0][0] == 'sorted':
        s = segs[0]
        x = sort_cmp(ctx, s[2], a, b)
        if x is None:
            return False
        if x:
            return x < 0
        return before(ctx, s[1], a, b)
    return at == bt and len(at) == 1 and segs[at[0]][0] == 'sorted' and before(ctx, (segs[at[0]],), a, b)


def run_order(ctx):
    from checks import c01
    eng, canon, res = diff_summary(ctx)
    where = ctx.loc(ctx.fn(c01.DIFF))
    names = {x['name'] for x in ctx.prog.adts[CH]['variants']}
    R = rules()
    for a, b in R:
        for k in (a, b):
            ctx.ob(k in names, 'kind:' + k, 'there is no %s' % k, where)
    for f, k, v in res:
        if not ctx.ob(k == 'ret' and v[0] == 'list', 'result:' + k, 'comparing snapshots can %s' % k, where):
            continue
        staged = kinds(v, set())
        ctx.ob('unstable' not in str(v[1]), 'stable', 'the sort does not keep the order of changes of the same phase', where)
        ctx.floor('kinds of changes staged', len(staged), 20)
        for (a, b), why in sorted(R.items()):
            ctx.ob(before(ctx, v[1], a, b), '%s<%s' % (a, b), '%s may be staged after %s (%s)' % (a, b, why), where)
    ctx.floor('rules', len(R), 100)
