"""C21: what a command produces does not depend on hash order, on the order in which a directory is listed, on time or chance.

Sources of an arbitrary order are found over the call graph from main. The function around each is analysed twice, with two
unknown elements in either order; whatever it returns, writes or sends has to be the same."""
import re
from checks import cmd, defn, hist
from engine import *
from pp import short
import models

HASH = re.compile(r'^(&(\'\w+ )?(mut )?)*std::collections::Hash(Map|Set)<')
ITERS = ('iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'difference', 'intersection', 'union', 'symmetric_difference', 'extract_if')
CHANCE = re.compile(r'^(std::time::|chrono::|rand(_core)?::|fastrand::|uuid::|getrandom::|std::process::id$|std::thread::current|std::hash::RandomState|std::collections::hash_map::RandomState|'
                    r'std::env::(vars|vars_os|temp_dir)|std::thread::(spawn|scope)|core::fmt::Pointer)')
TIME_OK = ('make',)
WRITES = re.compile(r'^std::fs::(write|create|rename|remove|copy|set_permissions|hard_link|OpenOptions|DirBuilder|File::(create|options|set_len|write))|^std::io::Write::|postgres::|^std::process::|^std::os::')
DIR = ('std::fs::read_dir',)


def arg_types(ctx, f, t):
    out = []
    for o in t['a']:
        if o[0] in ('c', 'm') and not o[1][1]:
            out.append(ctx.prog.types[f['locals'][o[1][0]]].get('s', ''))
        elif o[0] == 'k' and isinstance(o[1], int):
            out.append(ctx.prog.types[o[1]].get('s', ''))
        else:
            out.append('')
    return out


def source(ctx, f, t):
    """is this call a source of elements in an arbitrary order? -> what it lists"""
    if 'path' not in t.get('f', {}):
        return None
    p = ctx.prog.np(t.get('f', {})['path'])
    m = p.rsplit('::', 1)[-1]
    if p in DIR:
        return 'directory'
    if re.match(r'^std::collections::Hash(Map|Set)::', p):
        return 'hash' if m in ITERS else None
    a = arg_types(ctx, f, t)
    if p == 'std::iter::IntoIterator::into_iter':
        return 'hash' if a and HASH.match(a[0]) else None
    if p.startswith('std::iter::') and any(HASH.match(x) for x in a[1:]):
        to = a[0] if m == 'extend' else ''
        return None if HASH.match(to) or 'BTree' in to else 'other'
    if m in ('from', 'from_iter') and a and HASH.match(a[0]):
        to = ctx.prog.types[t['dty']].get('s', '') if 'dty' in t else ''
        return None if HASH.match(to) or 'BTree' in to else 'other'
    return None


def enclosing(ctx, i):
    """the function a closure is written in"""
    p = ctx.prog.np(ctx.prog.fns[i]['path'])
    base = p.split('::{closure#')[0]
    if base == p:
        return [i]
    return [j for j, g in enumerate(ctx.prog.fns) if ctx.prog.np(g['path']) == base and g.get('blocks')] or [i]


def swapped(segs, k):
    return segs if k == 0 else segs[::-1]


def outs_of(ctx, fid, k, keep=lambda s, v: True):
    eng = ctx.engine(effects=lambda p: cmd.EXTERNAL.match(p) is not None and p not in DIR, opaque_fns=set(cmd.OPAQUE) - {ctx.prog.np(ctx.prog.fns[fid]['path'])}, max_steps=600000)
    eng.rec_limit = 3
    eng.sort_maps = True
    eng.distinct.append(frozenset(('root', 'key%d' % i) for i in range(2)))
    used = []

    def two():
        return ('map', swapped(tuple(('ins', ('root', 'key%d' % i), ('root', 'value%d' % i)) for i in range(2)), k))

    def hashed(eng, st, a):
        ts = [eng.p.types[x].get('s', '') for x in eng.callee.get('targs', ())]
        p = eng.p.np(eng.callee['path'])
        m = p.rsplit('::', 1)[-1]
        if m == 'into_iter' and not (ts and HASH.match(ts[0])):
            return None
        used.append(p)
        if 'HashSet' in p or m == 'into_iter' and 'HashSet<' in ts[0]:
            what = 'k'
        else:
            what = 'k' if m in ('keys', 'into_keys') else 'v' if m in ('values', 'values_mut', 'into_values') else 'kv'
        owned = m in ('drain', 'into_keys', 'into_values', 'extract_if') or m == 'into_iter' and not ts[0].startswith('&')
        return [(st, 'ret', ('iter', models.map_iter(eng, st, two(), None if owned else ('root', 'map'), what)))]

    def listed(eng, st, a):
        used.append('read_dir')
        p = eng.deep(st, eng.peel(st, a[0]))
        e = tuple(('one', ok(('call', 'entry', (p, I(i)), 0))) for i in range(2))
        e = e[:max(0, 2 - str(p).count("'entry'"))]          # below: one entry, and nothing below that
        return [(st.fork(), 'ret', err(('root', 'unreadable'))), (st, 'ret', ok(('iter', swapped(e, k))))]
    for m in ITERS:
        for t in ('Map', 'Set'):
            eng.contracts['std::collections::Hash%s::%s' % (t, m)] = hashed
    eng.contracts['std::iter::IntoIterator::into_iter'] = hashed
    eng.contracts['std::fs::read_dir'] = listed
    per = ctx.cache.setdefault('schemas of files', {})

    def schemas_of(x):
        # each file has one schema of which nothing is known
        if x not in per:
            per[x] = [defn.a_schema(len(per), 'Table')]
        return per[x]
    eng.contracts.update({a: b for a, b in defn.reading(schemas_of, None).items() if a != 'serde_yaml::from_str'})
    eng.contracts['serde_yaml::from_str'] = lambda e, st, a: defn.reading(schemas_of, None)['serde_yaml::from_str'](e, st, a) if 'Mapping' in str([e.p.types[x].get('s', '') for x in e.callee.get('targs', ())]) else None
    n = ctx.prog.fns[fid]['argc']
    res = []
    for s, kind, v in eng.call_fn(St(), fid, [('root', 'arg%d' % i) for i in range(n)]):
        same = {}
        for a, b in s.facts.items():
            if a[0] == 'eq' and b is True:
                x, y = sorted(a[1:3], key=lambda z: (len(repr(z)), repr(z)))
                same[y] = x
        v = canon(subst(eng.deep(s, v), same)) if kind == 'ret' else (kind,)
        if kind == 'ret' and v[:3] == ('struct', 'std::result::Result', 'Err'):
            continue          # which of several errors is shown may depend on the order
        if kind != 'ret':
            continue
        ev = s.glob.get(('ev',), ('list', ()))
        mem = tuple(sorted(((repr(a), canon(eng.deep(s, b))) for a, b in s.glob.items() if a[0] == 'S' and re.match(r"^\('root', 'arg\d+'\)$", repr(a[1]))), key=repr))
        ev = mk_list(tuple(x for x in ev[1] if x[0] != 'one' or WRITES.match(x[1][1])))
        res.append((frozenset((canon(a), canon(b) if isinstance(b, tuple) else b) for a, b in s.facts.items()), v, canon(subst(eng.deep(s, ev), same)), mem))
    ctx.saw(eng, len(res))
    return res, used


def canon(t):
    """terms up to what carries no order: insertions of different keys into a map, elements sorted afterwards, lists that are only searched by name"""
    if isinstance(t, frozenset):
        return frozenset(canon(x) for x in t)
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if len(t) == 2 and t[0] == 'map' and isinstance(t[1], tuple) and all(x[0] == 'ins' for x in t[1]) and len({x[1] for x in t[1]}) == len(t[1]):
        return ('map', tuple(sorted(t[1], key=repr)))
    if len(t) >= 4 and t[0] in ('loopval', 'part') and isinstance(t[3], tuple):
        t = t[:3] + (frozenset(t[3]),) + t[4:]           # the alternatives of one pass, in no particular order
    if t and t[0] == 'struct' and t[1] == 'project::Project':
        f = tuple((n, ('list', tuple(sorted(x[1], key=repr))) if n == 'profiles' and x[0] == 'list' else x) for n, x in t[3])
        return t[:3] + (f,)
    if t and t[0] in ('asc', 'desc', 'sorted') and len(t) > 1 and isinstance(t[1], tuple) and t[1][:1] == ('list',):
        return (t[0], ('list', tuple(sorted(t[1][1], key=repr)))) + t[2:]
    return t


def run(ctx):
    prog = ctx.prog
    main = ctx.fn('main')
    names_, ext = cmd.reach(ctx, main)
    names_ = set(names_)
    seen = [i for i, g in enumerate(prog.fns) if prog.np(g["path"]) in names_]
    sites, by = 0, {}
    for i in sorted(seen):
        f = prog.fns[i]
        if not f.get('local', True):
            continue
        for b in f.get('blocks') or []:
            t = b and b['t']
            if t and t['k'] == 'call':
                w = source(ctx, f, t)
                if w:
                    sites += 1
                    by.setdefault(i, []).append((w, t['sp']))
    todo = {}
    for i, ws in by.items():
        for w, sp in ws:
            if not ctx.ob(w != 'other', 'order:%s' % prog.np(prog.fns[i]['path']), 'elements of a hash table are passed on in an arbitrary order', str(sp)):
                continue
            for j in enclosing(ctx, i):
                todo[j] = sp
    names = {}
    calls = callers(ctx, seen)
    work, done = sorted(todo), set()
    while work:
        j = work.pop(0)
        if j in done:
            continue
        done.add(j)
        p = prog.np(prog.fns[j]['path'])
        ctx.functions.add(p)
        names[p] = j
        a, used = outs_of(ctx, j, 0)
        b, _ = outs_of(ctx, j, 1)
        ctx.ob(bool(used), 'order:%s:reached' % p, 'the place where %s lists something in an arbitrary order was not reached' % p, ctx.loc(p))
        A, B = sets(a), sets(b)
        diff = [x for x in A if x not in B] + [x for x in B if x not in A]
        up = [c for k in sorted(calls.get(j, ())) for c in enclosing(ctx, k)]
        up = [c for c in up if not re.match(r'^(main$|cmd::)', prog.np(prog.fns[c]['path']))]
        if diff and up and all(x[2] == ('list', ()) for x in A + B):
            # it only passes the order on: what do its callers make of it?
            work.extend(c for c in up if c not in done)
            ctx.sample('%s passes the order on to %s' % (p, ', '.join(prog.np(prog.fns[c]['path']) for c in up)))
            if len(done) > 12:
                ctx.bad('order:%s' % p, 'the order in which something is listed is passed on too far', ctx.loc(p))
            continue
        if diff:
            x = diff[0]
            near = min((B if x in A else A), key=lambda y: (len(x[0] ^ y[0]), x[1] != y[1]), default=None)
            why = 'the result' if near is None or near[1] != x[1] else 'what it writes or sends' if near[2] != x[2] else 'what it does'
            ctx.bad('order:%s' % p, '%s depends on the order in which the elements of a %s are listed' % (why, todo_kind(by, prog, p)), ctx.loc(p))
        else:
            ctx.good()
        ctx.sample('%s: %d outcomes, the same in both orders' % (p, len(A)))
    ctx.info['sources_of_arbitrary_order'] = sites
    ctx.floor('sources of an arbitrary order', sites, 2)
    # profiles come from a hash table in an arbitrary order: they are only looked up by their name
    profiles(ctx)
    clock(ctx)


def todo_kind(by, prog, p):
    for i, ws in by.items():
        if prog.np(prog.fns[i]['path']).startswith(p):
            return 'directory' if ws[0][0] == 'directory' else 'hash table'
    return 'hash table'


def callers(ctx, seen):
    out = {}
    for i in seen:
        for b in ctx.prog.fns[i].get('blocks') or []:
            t = b and b['t']
            if t and t['k'] == 'call' and 'fn' in t.get('f', {}):
                if t.get('f', {})['fn'] != i:
                    out.setdefault(t.get('f', {})['fn'], set()).add(i)
    return out


def sets(outs):
    return list(dict.fromkeys(outs))


def profiles(ctx):
    n = 0
    for c in cmd.COMMANDS:
        if c == 'init':
            continue
        for o in cmd.command(ctx, c):
            seen = []

            def walk(t, inside):
                if isinstance(t, frozenset):
                    t = tuple(t)
                if not isinstance(t, tuple):
                    return
                if t[:1] == ('fld',) and len(t) == 3 and t[2] == 'profiles' and t[1][:1] == ('project',):
                    seen.append(inside)
                here = inside or (t[:1] in (('has',), ('lookup',), ('profile',), ('empty',)))
                for x in t:
                    walk(x, here)
            for k, v in o.facts.items():
                walk(k, False)
                walk(v, False)
            walk(tuple(o.events), False)
            if o.kind == 'ret' and o.ok:
                walk(o.value, False)
            n += len(seen)
            ctx.ob(all(seen), '%s:profiles' % c, '%s uses the profiles in the order in which a hash table lists them' % c, hist.loc(ctx, c))
    ctx.floor('uses of the profiles', n, 50)


def clock(ctx):
    """time and chance only reach the name of a new version"""
    n = 0
    for c in cmd.COMMANDS + ('sync',):
        try:
            f = ctx.fn('cmd::%s::%s' % (c, c))
        except AnalysisError:
            continue
        _, ext = cmd.reach(ctx, f)
        bad = sorted(e for e in ext if CHANCE.match(e))
        n += 1
        if c not in TIME_OK:
            for e in bad:
                ctx.bad('chance:%s:%s' % (c, e), 'what %s does depends on %s' % (c, e), ctx.loc(ext[e]))
            ctx.good(1 if not bad else 0)
            continue
        for e in bad:
            ctx.ob(e.startswith(('chrono::', 'std::time::')), 'chance:%s:%s' % (c, e), 'what %s does depends on %s' % (c, e), ctx.loc(ext[e]))
        for o in cmd.command(ctx, c):
            d, vs = hist.saves(_Mute(ctx), c, o, c)
            for w in vs:
                name, f = w[0], hist.fields(w[1])
                N = f.get('name')
                new = name != hist.STAGE
                for k, x in f.items():
                    if k == 'name' and new or k == 'previous' and not new:
                        continue
                    ctx.ob(not timed(x), 'clock:%s' % k, 'the %s of a version depends on the clock: %s' % (k, short(x)[:120]), hist.loc(ctx, c))
    ctx.floor('commands', n, 8)


class _Mute:
    """obligations of another property are not repeated here"""

    def __init__(self, ctx):
        self.__dict__['c'] = ctx

    def __getattr__(self, n):
        if n in ('ob', 'bad', 'good', 'floor', 'sample'):
            return lambda *a, **k: bool(a and a[0])
        return getattr(self.c, n)


def timed(t):
    if isinstance(t, frozenset):
        return any(timed(x) for x in t)
    if not isinstance(t, tuple):
        return False
    if t[:1] == ('call',) and isinstance(t[1], str) and CHANCE.match(t[1]):
        return True
    return any(timed(x) for x in t)
