"""C11: an error names what it is about.

Every Display implementation is interpreted for each variant: the text has to contain every attribute, and no two variants read alike.
Every error that applying a change or merging definitions ends in has to name the very object the lookup that failed was about."""
import re
from checks import c03, cmd
from engine import *
from pp import short

WORD = {'schemas': 'schema', 'relations': 'relation', 'functions': 'function', 'columns': 'column', 'constraints': 'constraint'}
ERR = 'snapshot::error::SnapshotError'


def displays(ctx):
    prog = ctx.prog
    n = 0
    for i, f in enumerate(prog.fns):
        m = re.fullmatch(r'<(.+) as std::fmt::Display>::fmt', f['path'])
        if not m or not f['local'] or not f.get('blocks') or m.group(1) not in prog.adts:
            continue
        ty = m.group(1)
        if not any(g['path'].startswith('<%s as std::error::Error>' % ty) for g in prog.fns) and not re.search(r'Error$', ty):
            continue
        ctx.functions.add(prog.np(f['path']))
        at = ctx.loc(prog.np(f['path'])) if len(prog.by_path[prog.np(f['path'])]) == 1 else '%s' % ty
        adt = prog.adts[ty]
        seen, texts = {}, {}
        # the text written so far is part of the formatter's state
        eng = ctx.engine(max_steps=100000)
        eng.rec_limit = 1
        for v in adt['variants']:
            n += 1
            enum = len(adt['variants']) > 1 or v['name'] != ty.rsplit('::', 1)[-1]
            st = St()
            me = ('root', 'error')
            if enum:
                st.setf(('is', me), v['name'])
            outs = eng.call_fn(st, i, [('ref', ('S', me), ()), ('ref', ('S', ('root', 'out')), ())])
            ctx.saw(eng, len(outs))
            good = 0
            for s, k, r in outs:
                tag = '%s::%s' % (ty, v['name'])
                if not ctx.ob(k == 'ret', 'display:%s:panic' % tag, 'showing the error %s panics' % tag, at):
                    continue
                r = eng.deep(s, r)
                isok = r[:1] == ('struct',) and r[2] == 'Ok'
                out = eng.deep(s, eng.read(s, ('S', ('root', 'out')), ()))
                if not isok:
                    # the text of another error, or of each of a list of errors: the same rule
                    why = short(r)[:160]
                    ctx.ob(not (r[0] == 'struct' and r[2] == 'Err') or 'call(' in why or '.Err.0' in why or mentions(r, ('root', 'out')), 'display:%s:fails' % tag, 'showing the error %s fails' % tag, at)
                    if r[0] == 'struct':
                        continue
                good += 1
                where = repr((out, r)) if not isok else repr(out)
                for fd in v['fields']:
                    p = ('fld', me, (v['name'] + '.' if enum else '') + fd['name'])
                    there = whole(out, p) or not isok and whole(r, p)
                    ctx.ob(there, 'display:%s:%s' % (tag, fd['name']), 'the text of the error %s does not contain its %s' % (tag, fd['name']), at)
                texts.setdefault(v['name'], set()).add(skeleton(out, me) if isok else ('fwd', v['name']))
            ctx.ob(good > 0, 'display:%s:never' % ty, 'the error %s::%s cannot be shown' % (ty, v['name']), at)
        for a in texts:
            for b in texts:
                both = {x for x in texts[a] & texts[b] if x and x[0] != 'fwd' and re.search(r'[a-z]', ''.join(y for y in x if isinstance(y, str)))}
                if a < b:
                    ctx.ob(not both, 'display:%s:%s/%s' % (ty, a, b), 'the errors %s and %s of %s read alike' % (a, b, ty), at)
        ctx.sample('%s: %d variants' % (ty, len(adt['variants'])))
    ctx.floor('variants of errors', n, 20)


SHOWN = ('display', 'to_string', 'as_str', 'to_string_lossy', 'clone', 'join', 'fmt', 'write_str', 'write_fmt', 'into', 'from', 'as_ref', 'deref', 'try_for_each')


def whole(t, p):
    """p itself is part of t, not only something computed from it or a part of it"""
    if t == p:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ('restof', 'first', 'last', 'idx', 'len', 'skip', 'take', 'skipped', 'taken', 'sub', 'filter') or t[0] == 'call' and t[1].rsplit('::', 1)[-1] not in SHOWN or t[0] == 'op' and t[1] not in SHOWN:
        return False
    return any(whole(x, p) for x in t)


def skeleton(out, me):
    """the constant parts of a text"""
    if out[0] == 'cat':
        return tuple(x[1] if x[0] == 'str' else 0 for x in out[1])
    if out[0] == 'str':
        return (out[1],)
    return (0,)


def chain(t):
    """names that lead to an object of a snapshot, from the lookups that found it"""
    if t[0] == 'lookup':
        c = chain_coll(t[1])
        return None if c is None else c + (name_of(t[-1]),)
    if t[0] == 'fld' and re.fullmatch(r'[A-Z]\w*\.0|0', t[2]):
        return chain(t[1])
    if t == ('root', 'P'):
        return ()
    return None


def chain_coll(t):
    c = collection(t)
    return c and c[0]


def coll_of(t):
    c = collection(t)
    return c and c[1]


def collection(t):
    """(names that lead to a collection of a snapshot, its name)"""
    if t[0] == 'fld' and t[2] in WORD:
        c = chain(t[1])
        return None if c is None else (c, t[2])
    if t[0] in ('list', 'map'):
        for s in t[1]:
            # a copy of it, with something removed or added
            if len(s) > 1 and isinstance(s[1], tuple):
                c = collection(s[1][1] if s[0] == 'del' and s[1][0] == 'lookup' else s[1])
                if c:
                    return c
            # one that is only being built: its elements say where they belong
            for x in parts(s):
                if x[0] == 'struct' and x[1] == 'snapshot::types::column::Column':
                    f = dict(x[3])
                    return (name_of(f['schema_name']), name_of(f['table_name'])), 'columns'
    return None


def parts(s):
    if s[0] == 'one':
        yield s[1]
    elif s[0] in ('part', 'rep'):
        for a in s[3]:
            for x in a[1]:
                yield from parts(x)


def name_of(t):
    """names of objects found by a name are that name (objects are kept under their own names: C01, C03)"""
    if t[0] == 'fld' and t[2] in ('name', 'schema_name', 'table_name'):
        o = t[1]
        c = chain(o)
        if c:
            return name_of(c[-1]) if t[2] == 'name' else c[0] if t[2] == 'schema_name' else c[1] if len(c) > 1 else t
    return t


def snapshot_errors(ctx, what, eng, outs, at):
    n = 0
    words, conds = {}, {}
    for s, k, v in outs:
        v = eng.deep(s, v)
        if k != 'ret' or v[0] != 'struct' or v[2] != 'Err':
            continue
        e = v[3][0][1]
        if e[0] != 'struct' or e[1] != ERR:
            ctx.bad('error:%s' % what, '%s fails with %s, which says nothing of the object' % (what, short(e)[:100]), at)
            continue
        n += 1
        f = dict(e[3])
        path = f['path']
        path = tuple(name_of(x[1]) for x in path[1]) if path[0] == 'list' and all(x[0] == 'one' for x in path[1]) else None
        tag = '%s:%s' % (what_of(s, what), e[2])
        if not ctx.ob(path is not None, 'error:%s:path' % tag, 'the error does not say which object it is about', at):
            continue
        facts = []
        for a, b in s.facts.items():
            if a[0] == 'has':
                c = chain_coll(a[1])
                if c is not None:
                    facts.append((c + (name_of(a[-1]),), WORD[coll_of(a[1])], b))
        if e[2] in ('ObjectNotFound', 'ObjectAlreadyExists'):
            want = e[2] == 'ObjectAlreadyExists'
            ty = f['type'][1] if f['type'][0] == 'str' else None
            hit = [x for x in facts if x[2] is want and x[0] == path and x[1] == ty]
            near = [x for x in facts if x[2] is want]
            ctx.ob(bool(hit), 'error:%s' % tag, 'the error says that the %s %s %s, but what was looked up is %s' % (
                ty, '.'.join(short(x)[-40:] for x in path), 'already exists' if want else 'does not exist', '; '.join('%s %s' % (x[1], '.'.join(short(y)[-40:] for y in x[0])) for x in near)[:200] or 'nothing'), at)
        else:
            kinds = [(chain(a[1]), b) for a, b in s.facts.items() if a[0] == 'is' and isinstance(b, str) and chain(a[1])]
            hit = [b for c, b in kinds if c == path]
            if ctx.ob(bool(hit), 'error:%s' % tag, 'the error is about %s, which is not what was looked at' % '.'.join(short(x)[-40:] for x in path), at):
                act, exp = f['actual'], f['expected']
                ctx.ob(act[0] == 'str' and spaced(hit[0]) == act[1], 'error:%s:actual' % tag, 'a %s is called a %s' % (spaced(hit[0]), short(act)), at)
                ctx.ob(exp[0] == 'str' and exp[1] != spaced(hit[0]) and exp[1] in KINDS, 'error:%s:expected' % tag, 'a %s is refused because a %s was expected' % (spaced(hit[0]), short(exp)), at)
                conds.setdefault(what_of(s, what), set()).add((path, exp))
    # what was expected is what is accepted
    acc = {}
    for s, k, v in outs:
        v = eng.deep(s, v)
        if k == 'ret' and v[0] == 'struct' and v[2] == 'Ok':
            for a, b in s.facts.items():
                if a[0] == 'is' and isinstance(b, str) and chain(a[1]):
                    acc.setdefault((what_of(s, what), chain(a[1])), set()).add(spaced(b))
    for w, ps in conds.items():
        for path, exp in ps:
            ctx.ob(exp[1] in acc.get((w, path), {exp[1]}), 'error:%s:expected' % w, '%s accepts %s but says that it expects %s' % (w, sorted(acc.get((w, path), ())), exp[1]), at)
    return n


KINDS = ('table', 'view', 'index', 'sequence', 'primary key', 'foreign key', 'unique', 'check')


def spaced(v):
    return re.sub(r'(?<=[a-z])(?=[A-Z])', ' ', v).lower()


def what_of(s, what):
    v = s.facts.get(('is', ('root', 'c')))
    return v if isinstance(v, str) else what


def run(ctx):
    prog = ctx.prog
    displays(ctx)
    eng, outs = c03.outcomes(ctx, c03.APPLY)
    n = snapshot_errors(ctx, 'Change::apply', eng, outs, ctx.loc(c03.APPLY))
    ctx.info['errors_of_apply'] = n
    ctx.floor('ways in which applying a change fails', n, 100)
    # a node is shown by what it is and its name
    p = 'definition::base::node::Node::display_string'
    eng = ctx.engine()
    me = ('root', 'node')
    at = ctx.loc(p)
    outs = eng.call_fn(St(), ctx.fn(p), [('ref', ('S', me), ())])
    ctx.saw(eng, len(outs))
    for s, k, v in outs:
        v = eng.deep(s, v) if k == 'ret' else v
        ctx.ob(k == 'ret' and mentions(v, ('fld', me, 'type')), 'node:type', 'an error about a node does not show what the node is', at)
        named = s.facts.get(('is', ('fld', me, 'name'))) != 'None'
        ctx.ob(k == 'ret' and (not named or mentions(v, ('fld', ('fld', me, 'name'), 'Some.0')) or mentions(v, ('fld', me, 'name'))), 'node:name', 'an error about a node does not show its name', at)
    # an unknown profile is named
    for p in [g for g in ('project::Project::resolve_database_url', 'project::Project::resolve_history_dir', 'project::Project::resolve_definitions_dir', 'project::Project::resolve_metadata_schema') if prog.by_path.get(g)]:
        eng = ctx.engine()
        outs = eng.call_fn(St(), ctx.fn(p), [('ref', ('S', ('root', 'project')), ()), ('root', 'profile')])
        ctx.saw(eng, len(outs))
        errs = 0
        for s, k, v in outs:
            v = eng.deep(s, v) if k == 'ret' else v
            if k == 'ret' and v[0] == 'struct' and v[2] == 'Err':
                errs += 1
                e = v[3][0][1]
                ctx.ob(e[0] == 'struct' and mentions(e, ('root', 'profile')), 'profile:%s' % p, 'a profile that does not exist is not named in the error', ctx.loc(p))
        ctx.ob(errs > 0, 'profile:%s:none' % p, 'a profile that does not exist is not an error', ctx.loc(p))
    definitions(ctx)
    histories(ctx)


def definitions(ctx):
    """what is wrong with a definition is said of the object, and of the attribute, that it is wrong with"""
    from checks import defn
    n = 0
    words = {}
    for kind, attrs in defn.ATTRS.items():
        at = ctx.loc(defn.reader(ctx, kind)[0])
        word = defn.reader(ctx, kind)[1]
        req = [(kw, defn.given_value(kw, attrs[kw][0])) for kw in defn.required(kind)]
        xs = [x for _, (x, _) in req]

        def errs(it):
            for eng, s, k, v in it:
                if k == 'ret' and v[0] == 'struct' and v[2] == 'Err':
                    yield s, v[3][0][1]
        for kw, _ in req:
            for s, e in errs(defn.read(ctx, kind, [x for w, (x, _) in req if w != kw])):
                n += 1
                ctx.ob(mentions(e, defn.NAME), 'definition:%s:name' % kind, 'that a %s lacks %s is reported without its name (%s)' % (kind, kw, short(e)[:100]), at)
                ctx.ob(kw in texts_in(e), 'definition:%s:%s' % (kind, kw), 'that a %s lacks %s is reported as %s' % (kind, kw, short(e)[:100]), at)
        child = ('root', 'any child')
        for s, e in errs(defn.read(ctx, kind, xs + [child])):
            n += 1
            ctx.ob(mentions(e, defn.NAME), 'definition:%s:name' % kind, 'what is wrong with an attribute of a %s is reported without the name of the %s (%s)' % (kind, kind, short(e)[:100]), at)
            kw = [v[1] for k, v in s.facts.items() if k == ('val', ('fld', child, 'type')) and v[0] == 'str']
            ctx.ob(mentions(e, child) or any(a in texts_in(e).split(' ') for a in attrs), 'definition:%s:child' % kind, 'what is wrong with an attribute of a %s is reported without naming the attribute (%s)' % (kind, short(e)[:100]), at)
            for x in structs(e):
                if x[2] == 'InvalidTypeAttribute' and kw and kw[0] in attrs and mentions(x, child):
                    words.setdefault(attrs[kw[0]][0].split(' ')[-1], {}).setdefault(short(dict(x[3])['expected']), (kind, kw[0], at))
        for s, e in errs(defn.read(ctx, kind, xs, name=NONE)):
            n += 1
            ctx.ob(word in texts_in(e), 'definition:%s:nameless' % kind, 'that a %s has no name is reported as %s' % (kind, short(e)[:100]), at)
        for s, e in errs(defn.read(ctx, kind, [], child=defn.children()['a text'])):
            n += 1
            ctx.ob(mentions(e, defn.NAME), 'definition:%s:name' % kind, 'that a %s is a text is reported without its name (%s)' % (kind, short(e)[:100]), at)
    # the same kind of value is called the same everywhere, and different kinds differently
    for t, w in words.items():
        for x, (kind, kw, at) in w.items():
            ctx.ob(len(w) == 1 and not any(x in o for u, o in words.items() if u != t), 'definition:%s:%s:expected' % (kind, kw), 'where %s of a %s takes a %s the error asks for %s' % (kw, kind, t, x), at)
    ctx.floor('errors in definitions', n, 80)


def structs(e):
    if isinstance(e, tuple):
        if e[:1] == ('struct',) and len(e) == 4:
            yield e
        for x in e:
            yield from structs(x)


def texts_in(e):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'str' and isinstance(x[1], str):
                out.append(x[1])
            for y in x:
                walk(y)
    walk(e)
    return ' '.join(out)


def histories(ctx):
    from checks import hist
    n = 0
    for P in ('history::fsh::FSHistory::from_dir', 'history::fsh::FSHistory::get_upward_range', 'history::dbh::DBHistory::get_downward_range'):
        at = ctx.loc(P)
        for o in hist.inner(ctx, P):
            if o.kind != 'ret' or o.ok:
                continue
            e = o.value[3][0][1]
            if e[0] != 'struct':
                continue
            f = dict(e[3])
            seen = [(k[-1], k[1]) for k, v in o.facts.items() if k[0] == 'has' and v is True]
            tag = 'history:%s' % e[2]
            if e[2] == 'Branched':
                n += 1
                okay = [K for K, m in seen if f.get('parent') == K and 1 == sum(f.get(c, ('?',))[0] == 'lookup' and f[c][-1] == K for c in ('child_a', 'child_b'))
                        and 1 == sum(mentions(K, f.get(c, 0)) or f.get(c, ('?',))[0] == 'fld' and f[c][2] == 'name' and mentions(K, f[c][1]) for c in ('child_a', 'child_b'))]
                ctx.ob(bool(okay), tag, 'a branched history is reported with other versions than the predecessor and its two successors: %s' % short(e)[:150], at)
            elif e[2] == 'Unreachable':
                n += 1
                ctx.ob(f == {'high': ('root', 'arg2'), 'low': ('root', 'arg1')}, tag, 'a version that cannot be reached is reported as %s' % short(e)[:150], at)
            elif e[2] == 'Cyclic':
                n += 1
                v = f.get('version')
                eqs = [x for k, b in o.facts.items() if k[0] == 'eq' and b is True for x in k[1:3]] + [k[1] for k in o.facts if k[0] == 'val']
                ctx.ob(any(v == K for K, m in seen) or v in eqs, tag, 'a cycle is reported at a version that is not the one met twice: %s' % short(e)[:150], at)
            elif e[2] == 'NoMatchingVersion':
                n += 1
                v = f.get('0')
                none = [k[1] for k, b in o.facts.items() if k[0] == 'is' and b == 'None']
                none += [k for k, b in o.facts.items() if k[0] in ('empty', 'not', 'eq', 'inbounds', 'has', 'more')]
                ctx.ob(v is not None and any(mentions(x, v) for x in none), tag, 'a version that was not found is reported as %s' % short(e)[:150], at)
            elif len(f) == 1 and re.search(r'Error$', e[2]):
                c = list(f.values())[0]
                n += 1
                ctx.ob('Err.0' in short(c), tag, 'the cause of a failure is not passed on: %s' % short(e)[:150], at)
    ctx.floor('errors of histories', n, 10)
