"""C23: what is written to version files, rows and project files is what is read back.

Every serialiser of the program (derived or written by hand) is analysed with a symbolic value; the keys and values it
emits are fed to the deserialiser of the same type, which has to rebuild the value it came from, field by field."""
import re
from engine import *
from pp import short, fs

SER = re.compile(r'<impl serde::Serialize for ([\w:]+)>::serialize$')
DE = r"<impl serde::Deserialize<'de> for %s>::deserialize"
EFF = re.compile(r'^serde::(ser::)?(Serialize\w*|Serializer)::(?!end$)')


def pairs(ctx):
    """every type that is both written and read"""
    out = []
    for i, g in enumerate(ctx.prog.fns):
        m = SER.search(g['path'])
        if m and g.get('blocks'):
            out.append((m.group(1), i))
    return sorted(out)


def find(ctx, suffix, must=True):
    key = ('find', suffix)
    if key not in ctx.cache:
        c = [i for i, g in enumerate(ctx.prog.fns) if g['path'].endswith(suffix) and g.get('blocks')]
        ctx.cache[key] = c[0] if len(c) == 1 else None
    r = ctx.cache[key]
    if r is None and must:
        raise AnalysisError('no derived code %s' % suffix[:160])
    return r


def emitted(ctx, ty, fid):
    """-> [(facts, [(key, value)])] of the paths on which everything was written"""
    eng = ctx.engine(effects=lambda p: EFF.match(p) is not None)
    res = []
    outs = eng.call_fn(St(), fid, [('root', 'self'), ('root', 'ser')])
    ctx.saw(eng, len(outs))
    for s, k, v in outs:
        if k != 'ret':
            res.append((s, None, 'writing it panics'))
            continue
        v = eng.deep(s, v)
        if v[0] == 'struct' and v[2] == 'Err':
            continue
        ev = [x[1] for x in eng.deep(s, s.glob.get(('ev',), ('list', ())))[1] if x[0] == 'one']
        if len(ev) != len(eng.deep(s, s.glob.get(('ev',), ('list', ())))[1]):
            raise AnalysisError('%s is not written field by field' % ty)
        kv = []
        form = None
        for e in ev:
            name = e[1].rsplit('::', 1)[-1]
            if name in ('serialize_struct', 'serialize_map'):
                form = 'map'
            elif name in ('serialize_field', 'serialize_entry') and e[2][1][0] == 'str':
                kv.append((e[2][1][1], e[2][2]))
            elif name == 'skip_field':
                pass
            else:
                raise AnalysisError('%s is written with %s' % (ty, name))
        if form is None:
            raise AnalysisError('%s is not written as a mapping' % ty)
        res.append((s, kv, None))
    return res


def name_of(ctx, t):
    return ctx.prog.types[t].get('s', '')


def rebuilt(ctx, ty, facts, kv):
    """outcomes of reading the mapping kv"""
    base = DE % ty
    visitor = find(ctx, base + "::__Visitor<'de> as serde::de::Visitor<'de>>::visit_map")
    fieldv = find(ctx, base + "::__FieldVisitor as serde::de::Visitor<'de>>::visit_str")
    eng = ctx.engine()
    eng.max_steps = 600000
    eng.unroll = (visitor,)
    POS = ('pos',)
    wants = []

    def at(st):
        return st.glob.get(POS, I(0))[1]

    def key(eng, st, a):
        i = at(st)
        if i >= len(kv):
            return [(st, 'ret', ok(NONE))]
        out = []
        for s, k, v in eng.call_fn(st, fieldv, [('root', 'visitor'), S(kv[i][0])]):
            v = eng.deep(s, v)
            if k != 'ret' or v[:3] != ('struct', 'std::result::Result', 'Ok'):
                out.append((s, k, v))
            else:
                out.append((s, 'ret', ok(some(v[3][0][1]))))
        return out

    def key_seed(eng, st, a):
        i = at(st)
        if i >= len(kv):
            return [(st, 'ret', ok(NONE))]
        seed = eng.deep(st, eng.peel(st, a[1]))
        if seed[0] != 'struct' or not re.search(r'::Ta\w+Visitor$', seed[1]):
            raise AnalysisError('a key is read in an unknown way: %s' % short(seed)[:100])
        f = dict(seed[3])
        which = [n for n in ('tag', 'content') if f.get(n) == S(kv[i][0])]
        en = seed[1][:-len('Visitor')]
        var = which[0].capitalize() if which else 'Other'
        return [(st, 'ret', ok(some(('struct', en, var, ()))))]

    def value(eng, st, a):
        i = at(st)
        t = name_of(ctx, eng.callee['targs'][-1])
        s = st
        s.setg(POS, I(i + 1))
        if i >= len(kv):
            raise AnalysisError('a value is read after the last one')
        v = kv[i][1]
        if 'IgnoredAny' in t:
            return [(s, 'ret', ok(('root', 'ignored')))]
        if t.endswith('::__Field'):
            outs = []
            for s2, k, r in eng.call_fn(s, fieldv, [('root', 'visitor'), v]):
                outs.append((s2, k, eng.deep(s2, r)))
            return outs
        if 'Content<' in t:
            raise AnalysisError('the tag is expected before the content')
        wants.append((t, v))
        return [(s, 'ret', ok(v))]

    def value_seed(eng, st, a):
        i = at(st)
        st.setg(POS, I(i + 1))
        v = kv[i][1]
        fn = find(ctx, base + "::__Seed<'de> as serde::de::DeserializeSeed<'de>>::deserialize")
        return eng.call_fn(st, fn, [eng.peel(st, a[1]), ('root', ('written', v))])

    def nested(eng, st, a):
        d = eng.deep(st, eng.peel(st, a[0]))
        if d[0] == 'root' and isinstance(d[1], tuple) and d[1][0] == 'written':
            t = name_of(ctx, eng.callee['targs'][0]) if eng.callee.get('targs') else ''
            wants.append((t, d[1][1]))
            return [(st, 'ret', ok(('struct', 'read as', t, (('0', d[1][1]),))))]
        return None

    def missing(eng, st, a):
        t = name_of(ctx, eng.callee['targs'][0])
        if t.startswith('std::option::Option<'):
            return [(st, 'ret', ok(NONE))]
        return [(st, 'ret', err(('root', 'missing field')))]
    eng.contracts['serde::de::MapAccess::next_key'] = key
    eng.contracts['serde::de::MapAccess::next_key_seed'] = key_seed
    eng.contracts['serde::de::MapAccess::next_value'] = value
    eng.contracts['serde::de::MapAccess::next_value_seed'] = value_seed
    eng.contracts['serde::__private::de::missing_field'] = missing
    eng.contracts['serde::Deserialize::deserialize'] = nested
    for i, g in enumerate(ctx.prog.fns):
        if re.search(r"<impl serde::Deserialize<'de> for [\w:]+>::deserialize$", g['path']):
            eng.contracts[ctx.prog.np(g['path'])] = nested
    st = St()
    for a, b in facts.items():
        st.setf(a, b)
    outs = eng.call_fn(st, visitor, [('root', 'visitor'), ('root', 'map')])
    ctx.saw(eng, len(outs))
    return eng, [(s, k, eng.deep(s, v) if k == 'ret' else v) for s, k, v in outs], wants


def adt(ctx, ty):
    return ctx.prog.adts[ty]


def check(ctx):
    ps = pairs(ctx)
    n = 0
    for ty, fid in ps:
        if find(ctx, DE % ty, must=False) is None:
            continue
        a = adt(ctx, ty)
        t = ty.rsplit('::', 1)[-1]
        L = a['span']
        ctx.functions.add(ctx.prog.np(ctx.prog.fns[fid]['path']))
        n += 1
        got = emitted(ctx, ty, fid)
        ctx.ob(bool(got), '%s:written' % t, 'no path writes a %s' % t, L)
        if a['kind'] == 'enum':
            enum(ctx, ty, t, a, got, L)
        else:
            struct(ctx, ty, t, a, got, L)
    ctx.floor('types written and read', n, 30)


def struct(ctx, ty, t, a, got, L):
    fields = [f['name'] for f in a['variants'][0]['fields']]
    for s, kv, why in got:
        if not ctx.ob(why is None, '%s:panic' % t, why, L):
            continue
        keys = [k for k, _ in kv]
        ctx.ob(len(set(keys)) == len(keys), '%s:twice' % t, 'a key is written twice: %s' % keys, L)
        for order in (kv, kv[::-1]):
            eng, outs, _ = rebuilt(ctx, ty, s.facts, order)
            good = [(s2, v) for s2, k, v in outs if k == 'ret' and v[:3] == ('struct', 'std::result::Result', 'Ok')]
            ctx.ob(len(good) == len(outs), '%s:refused' % t, 'what is written for a %s (keys %s) is not accepted when it is read' % (t, keys), L)
            for s2, v in good:
                r = v[3][0][1]
                d = dict(r[3]) if r[0] == 'struct' and r[1] == ty else {}
                for f in fields:
                    have = d.get(f)
                    want = ('fld', ('root', 'self'), f)
                    same = have == want or (have is not None and eng.decide(s2, mk_eq(have, want)) is True) or \
                        (have == NONE and s2.facts.get(('is', want)) == 'None')
                    ctx.ob(same, '%s.%s' % (t, f), 'field %s of %s is read back as %s' % (f, t, short(have)[:80] if have else 'nothing'), L)
    ctx.sample('%s: %s' % (t, ', '.join(k for k, _ in got[0][1] or ())))


def enum(ctx, ty, t, a, got, L):
    seen = set()
    for s, kv, why in got:
        if not ctx.ob(why is None, '%s:panic' % t, why, L):
            continue
        var = s.facts.get(('is', ('root', 'self')))
        if not ctx.ob(var is not None, '%s:variant' % t, 'what is written for a %s does not tell which one it is' % t, L):
            continue
        seen.add(var)
        vd = [x for x in a['variants'] if x['name'] == var][0]
        eng, outs, wants = rebuilt(ctx, ty, s.facts, kv)
        for s2, k, v in outs:
            if not ctx.ob(k == 'ret' and v[:3] == ('struct', 'std::result::Result', 'Ok'), '%s::%s:refused' % (t, var), 'what is written for %s is not accepted when it is read' % var, L):
                continue
            r = v[3][0][1]
            okv = r[0] == 'struct' and r[1] == ty and r[2] == var and len(r[3]) == len(vd['fields'])
            if ctx.ob(okv, '%s::%s' % (t, var), '%s is read back as %s' % (var, short(r)[:100]), L):
                for i, f in enumerate(vd['fields']):
                    x = dict(r[3]).get(f['name'])
                    want = ('fld', ('root', 'self'), '%s.%s' % (var, f['name']))
                    tn = name_of(ctx, f['ty'])
                    ctx.ob(x == ('struct', 'read as', tn, (('0', want),)) or x == want and (tn, want) in wants, '%s::%s.%s' % (t, var, f['name']), 'the content of %s is read back as %s' % (var, short(x)[:100]), L)
    for v in a['variants']:
        ctx.ob(v['name'] in seen, '%s::%s:unwritten' % (t, v['name']), '%s is never written' % v['name'], L)
    ctx.sample('%s: %d kinds' % (t, len(seen)))


# ------------------------------------------------------------------ rows of the version table
from checks import cmd, hist                                                              # noqa: E402


def version_readers(ctx):
    """functions that are given a transaction and return a version"""
    for i, g in enumerate(ctx.prog.fns):
        if g.get('promoted') is not None or not g.get('blocks') or not g.get('local', True):
            continue
        tys = [ctx.prog.types[t].get('s', '') for t in g['locals'][:1 + g['argc']]]
        if 'Version' in tys[0] and tys[0].startswith('std::result::Result<history::version::Version,') and any('postgres::Transaction<' in x for x in tys[1:]):
            yield i, g, tys


def by_name(d, x):
    """the name the row was looked up by is the name in the row"""
    u = d.get('up', ('root', ''))
    return u[0] == 'col' and u[1][0] == 'dbversion' and u[1][3] == x


def rows(ctx):
    n = 0
    for fid, g, tys in version_readers(ctx):
        path = ctx.prog.np(g['path'])
        t = path.rsplit('::', 1)[-1]
        ctx.functions.add(path)
        eng = ctx.engine(effects=lambda p: cmd.EXTERNAL.match(p) is not None)
        args = [('tx', hist.URL) if 'postgres::Transaction<' in x else ('root', 'arg%d' % i) for i, x in enumerate(tys[1:])]
        outs = eng.call_fn(St(), fid, args)
        ctx.saw(eng, len(outs))
        r = cmd.Rename()
        good = 0
        for s, k, v in outs:
            if k != 'ret':
                continue
            v = r(eng.deep(s, v))
            if v[:3] != ('struct', 'std::result::Result', 'Ok'):
                continue
            good += 1
            d = dict(v[3][0][1][3]) if v[3][0][1][0] == 'struct' else {}
            at = set()
            for f in hist.VERFIELDS:
                x = d.get(f, ('root', 'nothing'))
                if f == 'changes' and x[0] == 'json':
                    x = x[1]
                    ctx.ob(x[0] != 'col' or 'text' in str(x[3]).lower(), '%s:%s:cast' % (t, f), 'the changes are read from a column that is not text', g['span'])
                elif f == 'changes':
                    x = ('root', 'a text that is not parsed')
                okc = x[0] == 'col' and x[2] == f or f == 'name' and by_name(d, x)
                ctx.ob(okc, '%s:%s' % (t, f), '%s of a recorded version is read from %s' % (f, short(x)[:120]), g['span'])
                if x[0] == 'col':
                    at.add(x[1])
            ctx.ob(len(at) <= 1, '%s:rows' % t, 'the parts of a version are read from different rows', g['span'])
        n += bool(good)
    ctx.floor('functions that read a version row', n, 2)


def run(ctx):
    check(ctx)
    rows(ctx)
