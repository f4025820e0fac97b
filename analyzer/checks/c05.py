"""C05: the SQL of a change performs exactly that change.  C06: names and literals are quoted."""
from engine import *
from snap import *
from pp import short, fs
import sql
from checks import c03, cmd

RENDER = 'snapshot::changes::Change::render_sql'


def renders(ctx):
    if 'renders' not in ctx.cache:
        eng = ctx.engine()
        outs = eng.call_fn(St(), ctx.fn(RENDER), [('ref', ('S', ('root', 'c')), ())])
        ctx.saw(eng, len(outs))
        res = []
        for s, k, v in outs:
            res.append((s.facts.get(('is', ('root', 'c'))), dict(s.facts), k, eng.deep(s, v) if k == 'ret' else v, s))
        ctx.cache['renders'] = res
    return ctx.cache['renders']


def is_function_name(n, f, facts):
    """does ('fname', ident, args) spell the definition name f?"""
    _, ident, args = n
    sp = None
    for (a, v) in facts.items():
        if a[0] == 'is' and a[1][0] == 'call' and a[1][1].endswith('::split_once') and a[1][2][0] == f and a[1][2][1] in (('char', '('), ('str', '(')):
            sp = (a[1], v)
    if sp:
        x, v = sp
        if v == 'None':
            return ident == f and args is None
        pay = ('fld', x, 'Some.0')
        while ident[0] == 'call' and 'trim' in ident[1].rsplit('::', 1)[-1]:
            ident = ident[2][0]
        return ident == ('fld', pay, '0') and args == ('fld', pay, '1')
    # another way of cutting the name at the parenthesis: both pieces must come from the name
    return mentions(ident, f) and (args is None or mentions(args, f)) and any(mentions(a, f) for a in facts)


def run_sql(ctx):
    prog = ctx.prog
    vs = variants(prog)
    ctx.floor('change kinds', len(vs), 30)
    rs = renders(ctx)
    for V in vs:
        F = c03.F_of(V)
        loc = 'Change::%s.render_sql' % V
        sp = spec(V, F, prog, 'P')
        hint = sp[0][1][2] if sp[0][0] == 'set' else sp[0][3] if sp[0][0] == 'del' else None
        mine = [r for r in rs if r[0] in (V, None)]
        ctx.ob(bool(mine), '%s:none' % V, 'no path renders a %s' % V, loc)
        for _, facts, k, v, s in mine:
            if not ctx.ob(k == 'ret', '%s:panic' % V, 'rendering panics when %s' % fs(facts)[:200], loc):
                continue
            try:
                notes = []
                eff = sql.statement(v, 'P', hint, notes)
                for key, msg in notes:
                    ctx.ob(False, '%s:%s' % (V, key), msg, loc)
            except sql.SqlError as e:
                ctx.ob(False, '%s:sql' % V, '%s when %s: %s' % (V, fs(facts)[:160], e), loc)
                continue
            eff = [fix_names(e, sp, facts) for e in eff]
            spx = []
            for e in sp:
                if e[0] == 'ins' and e[3][1] == 'Table':
                    table_columns(ctx, V, e, eff, facts, loc)
                    e = drop_attr(e, 'columns')
                    eff = [drop_attr(x, 'columns') for x in eff]
                if e[0] == 'ins':
                    # an owner is not part of the change
                    und = [f for f, x in e[3][2] if x == ('undescribed',)]
                    for f in und:
                        e = drop_attr(e, f)
                        eff = [drop_attr(x, f) for x in eff]
                spx.append(e)
            c03.check_effects(ctx, V, spx, eff, loc, known_of(facts))
        ctx.sample('%s: %s' % (V, [short(r[3])[:150] for r in mine][:1]))
    function_names(ctx)


def known_of(facts):
    def known(a):
        return facts.get(a)
    return known


def drop_attr(e, f):
    if e[0] != 'ins' or e[3][0] != 'new':
        return e
    return ('ins', e[1], e[2], ('new', e[3][1], tuple((k, v) for k, v in e[3][2] if k != f)))


def fix_names(e, sp, facts):
    """a function's name(args) back to its definition name"""
    if e[0] in ('ins', 'del') and e[1][2] == 'fn' and isinstance(e[2], tuple) and e[2][0] == 'fname':
        f = [x for x in sp if x[0] in ('ins', 'del')][0][2]
        if is_function_name(e[2], f, facts):
            if e[0] == 'del':
                return ('del', e[1], f, e[3])
            return ('ins', e[1], f, subst(e[3], {e[2]: f}))
    return e


NAMES = {'f': ('f', '()'), 'f()': ('f', '()'), 'f(a int4)': ('f', '(a int4)'), 'f (a int4)': ('f', '(a int4)'), 'f(a numeric(10, 2), b text)': ('f', '(a numeric(10, 2), b text)'),
         'F(a int4[])': ('F', '(a int4[])'), 'g.h(a int4)': ('g.h', '(a int4)'), 'f(a text DEFAULT \'(\')': ('f', '(a text DEFAULT \'(\')'), 'we"ird(a int4)': ('we""ird', '(a int4)')}


def function_names(ctx):
    """names with their argument lists: the name is what is before the first parenthesis, whatever the arguments contain"""
    n = 0
    for V in ('CreateFunctionChange', 'DropFunctionChange'):
        adt = [p for p in ctx.prog.adts if p.endswith('::' + V)]
        if not ctx.ob(len(adt) == 1, '%s:names' % V, 'no type %s' % V, RENDER):
            continue
        fields = [f['name'] for f in ctx.prog.adts[adt[0]]['variants'][0]['fields']]
        for name, (ident, args) in NAMES.items():
            eng = ctx.engine()
            eng.texts = lambda v: None         # only literals are known
            c = ('struct', adt[0], None, tuple((f, S(name) if f == 'function' else ('root', f)) for f in fields))
            outs = eng.call_fn(St(), ctx.fn(RENDER), [vref(('struct', RENDER.rsplit('::', 1)[0], V, (('0', c),)))])
            ctx.saw(eng, len(outs))
            for s, k, v in outs:
                v = eng.deep(s, v) if k == 'ret' else (k,)
                ps = v[1] if v[0] == 'cat' else (v,)
                # pieces of which the text is not known: only the other fields
                if any(x[0] != 'str' and S(name) in terms(x) for x in ps):
                    continue
                n += 1
                text = ''.join(x[1] if x[0] == 'str' else '\0' for x in ps)
                want = '"."%s"%s' % (ident, args)
                i = text.find(want)
                ctx.ob(i >= 0 and (text[i + len(want):i + len(want) + 1] in ('', ' ', ';', '\n')), '%s:name' % V, 'for the function name %r it renders %r: the name is what is before the first parenthesis, the rest are its arguments' % (
                    name, text.replace('\0', '?')[:160]), 'Change::%s.render_sql' % V)
    ctx.info['function names followed'] = n


def terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from terms(x)


def table_columns(ctx, V, e, eff, facts, loc):
    want = dict(e[3][2])['columns'][1]
    got = [dict(x[3][2]).get('columns') for x in eff if x[0] == 'ins' and x[3][0] == 'new']
    if not ctx.ob(len(got) == 1 and got[0] and got[0][0] == 'coldefs', '%s:columns' % V, 'no column definitions', loc):
        return
    l = got[0][1]
    segs = l[1] if l[0] == 'list' else None
    if not ctx.ob(segs is not None and len(segs) == 1 and segs[0][0] == 'rep' and segs[0][1] == want, '%s:columns' % V,
                  'the column definitions are not one per column of the change: %s' % short(l)[:160], loc):
        return
    el = segs[0][2]
    names = {f for f in change_fields(ctx.prog, 'col')}
    for fcts, items in segs[0][3]:
        known = known_of({**facts, **dict(fcts)})
        if not ctx.ob(len(items) == 1 and items[0][0] == 'one', '%s:columns' % V, 'a column is left out or repeated when %s' % fs(fcts)[:160], loc):
            continue
        try:
            t = sql.Toks(sql.lex(items[0][1]))
            d = sql.coldef(t)
            if t.peek()[0] != 'end':
                raise sql.SqlError('unexpected %s' % t.descr())
        except sql.SqlError as x:
            ctx.ob(False, '%s:columns:sql' % V, 'column definition: %s' % x, loc)
            continue
        for f in sorted(set(d) | names):
            ctx.ob(f in d and eq_under(known, d[f], ('fld', el, f)), '%s:columns:%s' % (V, f), 'column definition: %s is %s when %s' % (
                f, short(d.get(f))[:100], fs(fcts)[:160]), loc)


def change_fields(prog, kind):
    return ['name'] + attrs(prog, kind)


# ---------------------------------------------------------------- C06

FRAGMENTS = {'data_type', 'default', 'expression', 'query', 'returns', 'language', 'volatility', 'method', 'key_expressions',
             'match_option', 'update_rule', 'delete_rule', 'increment', 'min_value', 'max_value', 'start', 'cache'}


def root_field(t):
    """the change field a raw hole comes from, '' when it is not a plain field"""
    while True:
        if t[0] == 'elem':
            t = t[1]
        elif t[0] == 'fld' and t[2] in ('Some.0',):
            t = t[1]
        elif t[0] == 'call' and t[1].rsplit('::', 1)[-1].startswith(('trim', 'as_str', 'to_uppercase', 'to_lowercase')):
            t = t[2][0]
        else:
            break
    if t[0] == 'fld':
        return t[2]
    return ''


def function_args(t):
    """part of a function's definition name after the parenthesis"""
    return t[0] == 'fld' and t[2] == '1' and any(mentions(t, x) for x in [t[1]]) and 'split' in repr(t)


def quoting(ctx, tmpl, key, what, loc, fragments=FRAGMENTS, fname=None):
    try:
        toks = list(sql.all_tokens(sql.lex(tmpl)))
    except sql.SqlError as e:
        ctx.ob(False, key + ':lex', '%s: %s' % (what, e), loc)
        return 0
    n = 0
    for i, k in enumerate(toks):
        if k[0] in ('id', 'lit'):
            for p in k[1]:
                n += 1
                ctx.ob(p[0] != 'hole', key + ':escape', '%s: %s is put between quotes without doubling embedded quotes' % (what, short(p[1])[:100]), loc)
            if k[0] == 'id':
                ctx.ob(len(k[1]) == 1, key + ':compose', '%s: a quoted name is composed of several pieces' % what, loc)
        elif k[0] == 'raw':
            n += 1
            f = root_field(k[1])
            ok = f in fragments or (fname is not None and k[1] != fname and mentions(k[1], fname))
            ctx.ob(ok, key + ':raw', '%s: %s is inserted without quoting' % (what, short(k[1])[:100]), loc)
    return n


def run_quoting(ctx):
    prog = ctx.prog
    vs = variants(prog)
    n = 0
    for V, facts, k, v, s in renders(ctx):
        if k != 'ret':
            continue
        loc = 'Change::%s.render_sql' % V
        F = c03.F_of(V)
        fname = F('function') if V and 'Function' in V else None
        n += quoting(ctx, v, V or '?', '%s when %s' % (V, fs(facts)[:120]), loc, fname=fname)
    ctx.floor('quoted or raw holes in change SQL', n, 120)
    # the SQL of the history table and the catalog queries
    m = 0
    seen = set()
    for c in cmd.COMMANDS + ('introspect',):
        if c == 'introspect':
            loc = ctx.loc('introspection::introspect')
            outs = cmd.outcomes(ctx, ctx.fn('introspection::introspect'), 'introspect', opaque=())
        else:
            loc = ctx.loc('cmd::%s::%s' % (c, c))
            outs = cmd.command(ctx, c)
        for call, t, params, path in cmd.statements(outs):
            if t in seen:
                continue
            seen.add(t)
            if recorded(t):
                continue      # a statement stored in a version; its text is covered above
            if '::prepare' in short(t)[:60] or (t[0] in ('call', 'fld') and 'prepare' in repr(t)[:120]):
                continue      # prepared before, with a text that is covered itself
            head = next((x[1] for x in sql.parts_of(t) if x[0] == 'str'), '?')[:24].strip()
            quoting(ctx, t, 'history:%s' % head, '%s... in %s' % (head, c), loc, fragments=())
            m += 1
    ctx.floor('statements sent to the database', m, 14)


def recorded(t):
    """an element of the up or down list of a version (in the directory or in the database)"""
    if t[0] != 'elem':
        return False
    o = t[1]
    while o[0] in ('fld', 'call') and o[2] not in ('up', 'down'):
        o = o[2][0] if o[0] == 'call' else o[1]
    return o[0] in ('fld', 'col') and o[2] in ('up', 'down')
