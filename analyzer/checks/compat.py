"""C28: what earlier versions of podo recorded is still read, as what it was.

The recorded format (keys of version files, rows and the project file; names of kinds of changes; names of files, tables
and columns) is written down in format.json. The deserialiser of each type is analysed with the mapping an earlier version
wrote: unknown values under the keys of that format. It has to accept it and put each value where it belongs."""
import json
import os
import re
from engine import *
from pp import short
from checks import cmd, hist
from checks.persist import DE, SER, adt, emitted, find, name_of, rebuilt

FORMAT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'format.json')
LIST = ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::LinkedList')
MAP = ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::hash::map::HashMap', 'std::collections::btree::map::BTreeMap')
TEXT = ('std::string::String', 'std::path::PathBuf', 'std::boxed::Box<str>', 'std::rc::Rc<str>', 'std::sync::Arc<str>', 'std::ffi::OsString')


def split(s):
    """arguments of a type"""
    out, d, cur = [], 0, ''
    for c in s:
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += c in '<([' or 0
        d -= c in '>)]' or 0
        cur += c
    return [x for x in out + [cur.strip()] if x and not x.startswith("'")]


def form(s, same):
    """how a value of this type is written: text, list, map, option, a type of the program or another"""
    s = s.strip().replace('alloc::', 'std::')
    if s in TEXT:
        return 'text'
    m = re.match(r'([\w:]+)<(.*)>$', s)
    if m:
        args = [form(x, same) for x in split(m.group(2))]
        if m.group(1) in LIST:
            return 'list of ' + args[0]
        if m.group(1) in MAP:
            return 'map of ' + args[1]
        if m.group(1).endswith('option::Option'):
            return 'option of ' + args[0]
        if m.group(1) in ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc', 'std::borrow::Cow'):
            t = args[0]
            return 'text' if t == 'str' else 'list of ' + t[1:-1] if t.startswith('[') else t
    return same.get(s, s)


def types(ctx):
    """types of the program that are read: path -> what is known of their format"""
    out = {}
    for g in ctx.prog.fns:
        m = re.search(r"<impl serde::Deserialize<'de> for ([\w:]+)>::deserialize$", g['path'])
        if m and g.get('blocks'):
            out[m.group(1)] = None
    return sorted(out)


def written(ctx, ty):
    for i, g in enumerate(ctx.prog.fns):
        m = SER.search(g['path'])
        if m and m.group(1) == ty and g.get('blocks'):
            return emitted(ctx, ty, i)
    return []


def shape(ctx, ty, same):
    """the format of a type as it is written now (to make format.json, and to find types under another name)"""
    a = adt(ctx, ty)
    got = written(ctx, ty)
    if a['kind'] == 'enum':
        kinds = {}
        for s, kv, why in got:
            var = s.facts.get(('is', ('root', 'self')))
            vd = [x for x in a['variants'] if x['name'] == var][0]
            kinds[kv[0][1][1]] = [kv[0][0], kv[1][0], form(name_of(ctx, vd['fields'][0]['ty']), same)]
        return {'kinds': kinds}
    fty = {f['name']: form(name_of(ctx, f['ty']), same) for f in a['variants'][0]['fields']}
    keys = {}
    for s, kv, why in got:
        for k, v in kv or ():
            f = v[2] if v[0] == 'fld' else None
            keys[k] = [f, fty.get(f)]
    return {'keys': keys}


def names(ctx, ref):
    """the types of the program for those of the reference"""
    here = types(ctx)
    last = {}
    for t in here:
        last.setdefault(t.rsplit('::', 1)[-1], []).append(t)
    same = {}
    for r in ref:
        if len(last.get(r, ())) == 1:
            same[last[r][0]] = r
    left = [t for t in here if t not in same]
    for r in ref:
        if r in same.values():
            continue
        fit = [t for t in left if _fits(ctx, t, ref[r], True)] or [t for t in left if _fits(ctx, t, ref[r], False)]
        if len(fit) == 1:
            same[fit[0]] = r
            left.remove(fit[0])
    return same


def _fits(ctx, t, ref, exact):
    try:
        now = shape(ctx, t, {})
    except (AnalysisError, KeyError, IndexError, TypeError):
        return False
    a, b = (ref.get('keys') or ref.get('kinds')), (now.get('keys') or now.get('kinds'))
    return ('keys' in ref) == ('keys' in now) and a and b and (set(a) == set(b) if exact else set(a) <= set(b))


def is_ok(k, v):
    return k == 'ret' and v[:3] == ('struct', 'std::result::Result', 'Ok')


def run_types(ctx):
    ref = json.load(open(FORMAT))['types']
    same = names(ctx, ref)
    back = {r: t for t, r in same.items()}
    n = 0
    for r in sorted(ref):
        ty = back.get(r)
        if not ctx.ob(ty is not None, 'type:%s' % r, 'nothing reads the %s of earlier versions any more' % r, ''):
            continue
        a = adt(ctx, ty)
        L = a['span']
        n += 1
        for suffix in ("::__Visitor<'de> as serde::de::Visitor<'de>>::visit_map",):
            f = find(ctx, DE % ty + suffix)
            ctx.functions.add(ctx.prog.np(ctx.prog.fns[f]['path']))
        if 'keys' in ref[r]:
            keys = ref[r]['keys']
            fields = [f['name'] for f in a['variants'][0]['fields']]
            unk = {k: ('root', 'recorded %s' % k) for k in keys}
            options = [k for k in keys if keys[k][1].startswith('option of ')]
            for leave in [()] + [(k,) for k in options]:
                kv = [(k, unk[k]) for k in keys if k not in leave]
                eng, outs, wants = rebuilt(ctx, ty, {}, kv)
                for s, k, v in outs:
                    if not ctx.ob(is_ok(k, v), '%s:refused' % r, 'a %s recorded by an earlier version (keys %s) is refused' % (r, ', '.join(x for x, _ in kv)), L):
                        continue
                    x = v[3][0][1]
                    d = dict(x[3]) if x[0] == 'struct' and x[1] == ty else {}
                    for key, (field, _) in keys.items():
                        if key in leave:
                            continue
                        at = [f for f in fields if d.get(f) == unk[key]]
                        okf = at == [field] if field in fields else len(at) == 1
                        ctx.ob(okf, '%s.%s' % (r, key), 'what an earlier version recorded as "%s" of a %s is read as %s' % (key, r, ' and '.join(at) or 'nothing'), L)
                for t, v in wants:
                    key = next((k for k in keys if unk[k] == v), None)
                    if key:
                        now, old = form(t, same), keys[key][1]
                        ctx.ob(now == old or now == 'option of ' + old, '%s.%s:type' % (r, key), '"%s" of a %s was recorded as %s and is read as %s' % (key, r, old, now), L)
            ctx.sample('%s: %s' % (r, ', '.join(keys)))
        else:
            for kind, (tag, content, what) in ref[r]['kinds'].items():
                eng, outs, wants = rebuilt(ctx, ty, {}, [(tag, S(kind)), (content, ('root', 'recorded'))])
                for s, k, v in outs:
                    if not ctx.ob(is_ok(k, v), '%s::%s:refused' % (r, kind), 'a recorded %s (%s: %s) is refused' % (kind, tag, kind), L):
                        continue
                    x = v[3][0][1]
                    c = dict(x[3]).get('0', ('none',)) if x[0] == 'struct' and x[1] == ty else ('none',)
                    now = [form(t, same) for t, w in wants if w == ('root', 'recorded')]
                    okc = c == ('root', 'recorded') or c[0] == 'struct' and c[1] == 'read as' and c[3] == (('0', ('root', 'recorded')),)
                    ctx.ob(okc and now == [what], '%s::%s' % (r, kind), 'a recorded %s is read as %s of %s' % (kind, short(x)[:80], now), L)
            ctx.sample('%s: %d kinds' % (r, len(ref[r]['kinds'])))
    ctx.floor('types read', n, 30)


def generate(ctx):
    same = {t: t.rsplit('::', 1)[-1] for t in types(ctx)}
    out = {}
    for t in types(ctx):
        if written(ctx, t) and t.rsplit('::', 1)[-1] not in ('Project', 'Profile'):
            out[same[t]] = shape(ctx, t, same)
    return out


# ------------------------------------------------------------------ table and files

SCHEMA = hist.SCHEMA
TABLE = 'version'
COLUMNS = ('name', 'previous', 'changes', 'up', 'down', 'applied_at', 'applied_order')


def cols_of(x):
    """columns named in a part of a statement"""
    if isinstance(x, (tuple, frozenset, list)):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'col' and isinstance(x[1], str):
            yield x[1]
        else:
            for y in x:
                yield from cols_of(y)


def run_rows(ctx):
    n = 0
    for c in ('up', 'down', 'status'):
        L = hist.loc(ctx, c)
        for o in cmd.command(ctx, c):
            for e, _ in hist.flat(hist.dbtree(o.events, lambda e: True)):
                s = hist.statement(e)
                if s[0] != 'sql':
                    continue
                q = s[1]
                while q[0] == 'exists':
                    q = q[1]
                n += 1
                if q[0] == 'create schema':
                    ctx.ob(q[1] == SCHEMA, '%s:schema' % c, '%s creates the schema %s' % (c, short(q[1])), L)
                    continue
                if q[0] == 'select' and q[1][1].startswith('pg_') or q[1][0] == 'information_schema' or q[1][0] == ('str', 'information_schema'):
                    continue
                ctx.ob(q[1] == (SCHEMA, TABLE), '%s:table' % c, '%s works on the table %s, not on the one in which versions are recorded' % (c, hist.sh(q[1])), L)
                if q[0] == 'create table':
                    have = [x for x, _ in q[2]]
                    ctx.ob(all(x in have for x in COLUMNS[:5]) and 'applied_order' in have, '%s:columns' % c, '%s creates a table with the columns %s' % (c, ', '.join(map(str, have))), L)
                    continue
                used = set(x[0] for x in q[2] if isinstance(x[0], str)) if q[0] in ('select', 'insert') else set()
                used |= set(cols_of(q[2:]))
                if q[0] == 'select':
                    used |= {x for x, _ in q[4]}
                bad = sorted(x for x in used if x not in COLUMNS + ('*', 'ctid', 'xmin', 'count') and isinstance(x, str))
                ctx.ob(not bad, '%s:column' % c, '%s uses the column %s, which a recorded history does not have' % (c, ', '.join(bad)), L)
    ctx.floor('bookkeeping statements', n, 100)


def run_files(ctx):
    """the files the commands read are those that were written"""
    n = 0
    for name in ('stage', 'reset', 'make'):
        L = hist.loc(ctx, name)
        read = set()
        for o in cmd.command(ctx, name):
            if o.ok:
                read |= {x for k in list(o.facts) + list(o.events) for x in vers(k)}
        n += len(read)
        ctx.ob(hist.STAGE in read, '%s:stage' % name, '%s does not read the stage of the history directory (but %s)' % (name, ', '.join(hist.sh(x) for x in read)), L)
        lit = [x for x in read if x[0] == 'str' and x not in (hist.STAGE, hist.INIT)]
        ctx.ob(not lit, '%s:version' % name, '%s reads the version %s, which existing histories do not have' % (name, ', '.join(hist.sh(x) for x in lit)), L)
    ctx.floor('version files read', n, 3)


def vers(t):
    """names of the versions of the history directory in a term"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'ver' and t[1] == hist.DIR:
            yield t[2]
        for x in t:
            yield from vers(x)


def run(ctx):
    run_types(ctx)
    run_rows(ctx)
    run_files(ctx)
