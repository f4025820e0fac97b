"""Command summaries: what each command reads, writes, sends and returns, in which order.

Every command function is analysed from the top; calls that leave the program
(database driver, file system, environment, console) are recorded as events."""
import re
from checks import dbsql
from sql import SqlError
from engine import *
from pp import short, fs

EXTERNAL = re.compile(r'^(postgres::(?!Row::)|tokio_postgres::|std::fs::|std::env::|std::process::|std::io::(Write|Read|Seek)::)')
COMMANDS = ('init', 'clone', 'stage', 'make', 'reset', 'status', 'up', 'down')
SEND = ('execute', 'query', 'query_one', 'query_opt', 'query_raw', 'batch_execute', 'simple_query', 'prepare', 'prepare_typed')


OPAQUE = ('project::discover_project', 'project::load_project_from_str', 'definition::load_snpashot', 'definition::save_snapshot', 'snapshot::diff::compare_diff', 'introspection::introspect',
          'snapshot::changes::Change::apply', 'snapshot::changes::Change::revert', 'snapshot::changes::Change::render_sql',
          'history::fsh::FSHistory::from_dir', 'history::fsh::FSHistory::get_upward_range')


LOGGED = ('definition::load_snpashot', 'definition::save_snapshot', 'introspection::introspect')     # opaque, but their place in the order matters


class Out:
    """one outcome of a command"""
    __slots__ = ('facts', 'kind', 'value', 'events', 'raw')

    def __init__(self, facts, kind, value, events):
        self.facts, self.kind, self.value, self.events = facts, kind, value, events

    @property
    def ok(self):
        return self.kind == 'ret' and self.value[0] == 'struct' and self.value[2] == 'Ok'


def cmd_fn(ctx, name):
    return ctx.fn('cmd::%s::%s' % (name, name))


def opaque_result(v):
    return v[0] == 'call'


def outcomes(ctx, fid, key, opaque=OPAQUE, printed=False):
    if ('out', key) not in ctx.cache:
        eng = ctx.engine(effects=lambda p: EXTERNAL.match(p) is not None or p in LOGGED, opaque_fns=set(opaque), max_steps=2000000, log_print=printed)
        n = ctx.prog.fns[fid]['argc']
        outs = eng.call_fn(St(), fid, [('root', 'arg%d' % i) for i in range(n)])
        ctx.saw(eng, len(outs))
        r = Rename()
        res = []
        ret = ctx.prog.types[ctx.prog.fns[fid]['locals'][0]]
        fallible = ret['k'] == 'adt' and ret.get('path') == 'std::result::Result'
        more = []
        for s, k, v in outs:
            if k == 'ret' and fallible and opaque_result(v):
                # the result of another call is passed on: it may be either
                for s2, w in eng.fork_variant(s, v, ['Ok', 'Err']):
                    more.append((s2, k, ('struct', 'std::result::Result', w, (('0', ('fld', v, w + '.0')),))))
            else:
                more.append((s, k, v))
        for s, k, v in more:
            ev = eng.deep(s, s.glob.get(('ev',), ('list', ())))
            facts = {}
            for a, b in s.facts.items():
                facts[r(a)] = r(b) if isinstance(b, tuple) else b
            val = r(eng.deep(s, v)) if k == 'ret' else (r(v) if k == 'exit' else v)
            res.append(Out(facts, k, val, tuple(r(x) for x in ev[1])))
        ctx.cache[('out', key)] = res
        ctx.cache[('eng', key)] = eng
    return ctx.cache[('out', key)]


def command(ctx, name):
    return outcomes(ctx, cmd_fn(ctx, name), name)


def stem(path, ext='.yaml'):
    """the name of a file `<name><ext>` inside a directory"""
    if path[0] != 'pathjoin':
        return None
    f = path[2]
    if f[0] == 'str' and f[1].endswith(ext):
        return ('str', f[1][:-len(ext)])
    if f[0] == 'cat' and f[1][-1][0] == 'str' and f[1][-1][1].endswith(ext):
        last = f[1][-1][1][:-len(ext)]
        parts = f[1][:-1] + ((('str', last),) if last else ())
        return parts[0] if len(parts) == 1 else ('cat', parts)
    return None


def query(sql, params):
    """a parsed bookkeeping query with its parameter values"""
    try:
        q = dbsql.parse(sql)
    except SqlError:
        return None
    ps = params[1] if params[0] == 'list' else None
    if ps is None or any(x[0] != 'one' for x in ps):
        return None
    return q, tuple(x[1] for x in ps)


def rowname(r):
    """which version row a query returns"""
    kind, url, q, ps = r[:4]
    _, tb, cols, w, order, limit = q
    if tb[1] == 'version':
        if kind == 'row' and not w and order == (('applied_order', 'DESC'),) and limit == ('num', 1):
            return ('dbcurrent', url, tb[0]) + r[4:]
        if kind == 'row' and len(w) == 1 and limit in (None, ('num', 1)):
            (o, c, v), = w
            if o == '=' and c == ('col', 'name') and v[0] == 'param' and v[1] <= len(ps):
                return ('dbversion', url, tb[0], ps[v[1] - 1]) + r[4:]
    return r


class Rename:
    """short names for the things a command works on"""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, frozenset):
            return frozenset(self(x) for x in t)
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is None:
            r = tuple(self(x) for x in t)
            while True:
                n = self.rule(r)
                if n == r:
                    break
                r = n
            self.memo[t] = r
        return r

    def rule(self, t):
        if t and t[0] == 'fld' and t[2] == 'Ok.0' and t[1][0] == 'call':
            p, a = t[1][1], t[1][2]
            m = p.rsplit('::', 1)[-1]
            if p == 'std::env::current_dir':
                return ('cwd',)
            if p == 'project::discover_project':
                return ('project', a[0])
            if p == 'project::load_project_from_str':
                return ('loaded', a[0], a[1])
            if p == 'postgres::Client::connect':
                return ('db', a[0])
            if p == 'postgres::Client::transaction' and a[0][0] == 'db':
                return ('tx', a[0][1])
            if p == 'std::fs::File::open':
                return ('file', a[0])
            if p == 'std::fs::read_to_string':
                return ('text', a[0])
            if p == 'history::fsh::FSHistory::from_dir':
                return ('history', a[0])
            if p == 'history::fsh::FSHistory::get_upward_range' and a[0][0] == 'history':
                return ('uprange', a[0][1], a[1], a[2])
            if p == 'definition::load_snpashot':
                return ('defined', a[0])
            if p == 'std::fs::read_dir':
                return ('dir', a[0])
            if p.startswith('serde_yaml::from_') and a[0][0] in ('file', 'text'):
                path = a[0][1]
                n = stem(path)
                return ('ver', path[1], n) if n else ('yaml', path)
            if p in ('postgres::Row::try_get', 'postgres::row::Row::try_get'):
                return self.rule(('call', 'postgres::Row::get', a, 0))
            if p == 'serde_json::from_str':
                return ('json', a[0])
            if p == 'serde_json::to_string':
                return ('tojson', a[0])
            if p == 'serde_yaml::to_string':
                return ('toyaml', a[0])
            if p == 'std::fs::File::create':
                return ('newfile', a[0])
            if p.startswith('postgres::Transaction::query') and a[0][0] == 'tx':
                q = query(a[1], a[2])
                if q is not None:
                    return ('row' if p.endswith('query_one') else 'optrow' if p.endswith('query_opt') else 'rows', a[0][1]) + q + ((t[1][3],) if t[1][3] else ())
        if t and t[0] == 'fld' and t[1][0] == 'optrow' and t[2] == 'Some.0':
            return ('row',) + t[1][1:]
        if t and t[0] == 'elem' and t[1][0] == 'rows':
            return ('rowof',) + t[1][1:] + t[2:]
        if t and t[0] == 'call' and t[1] in ('postgres::Row::get', 'postgres::row::Row::get') and t[2][0][0] in ('row', 'rowof'):
            r, i = t[2]
            q = r[2]
            if q[0] == 'exists' and i == ('int', 0):
                return ('exists',) + r[1:2] + (q[1],) + r[3:]
            if q[0] == 'select':
                names = [c for c, _ in q[2]]
                if i[0] == 'str' and i[1] in names:
                    return ('col', rowname(r), i[1], q[2][names.index(i[1])][1])
                if i[0] == 'int' and i[1] < len(names):
                    return ('col', rowname(r), names[i[1]], q[2][i[1]][1])
            return ('badcolumn', t[2])
        if t and t[0] == 'list' and len(t[1]) == 1 and t[1][0][0] == 'rep' and t[1][0][1][0] == 'rows':
            rs, e, alts = t[1][0][1:4]
            if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and alts[0][1][0][0] == 'one' and alts[0][1][0][1][0] == 'col':
                c = alts[0][1][0][1]
                if c[1] == ('rowof',) + rs[1:] + e[-1:] or c[1][0] == 'rowof':
                    return ('column', c[2], rs[1:])
        if t and t[0] == 'cat' and len(t) == 2:
            parts = []
            for x in t[1]:
                if x[0] == 'str' and parts and parts[-1][0] == 'str':
                    parts[-1] = ('str', parts[-1][1] + x[1])
                elif x != ('str', ''):
                    parts.append(x)
            return parts[0] if len(parts) == 1 else ('cat', tuple(parts))
        if t and t[0] == 'col' and t[2] == 'name' and t[1][0] == 'dbversion':
            return t[1][3]
        if t and t[0] == 'fld' and t[1][0] == 'ver' and t[2] == 'name':
            return t[1][2]          # a version file is named after its version
        if t and t[0] == 'fld' and t[1][0] == 'history' and t[2] == 'dir':
            return t[1][1]
        if t and t[0] == 'loopval' and len(t) == 4 and len(t[3]) == 1 and t[1][0] == 'elem':
            g, step = t[3][0]
            if not g and step == ('mut', 'snapshot::changes::Change::apply', (t[1], ('self',))):
                return ('applied', t[2], t[1][1])        # every change of the list, in order
            if not g and step[0] == 'applied' and step[1] == ('self',):
                return ('foreach', t[2], t[1], step[2])
        if t and t[0] == 'fld' and t[1][0] == 'lookup' and t[1][2] == ('by', ('fld', ('it',), 'name')) and \
                t[1][1][0] == 'fld' and t[1][1][2] == 'profiles' and t[1][1][1][0] in ('project', 'loaded'):
            return ('profile', t[1][3], t[2])
        return t


def events(segs, path=()):
    """flat view of an event log: (loop context, event)"""
    for s in segs:
        if s[0] == 'one' and s[1][0] == 'event':
            yield path, s[1]
        elif s[0] in ('rep', 'rrep', 'part', 'rpart') and len(s) > 3:
            for f, x in s[3]:
                yield from events(x, path + ((s[0], s[1], s[2], f),))


def statements(outs):
    """SQL statements handed to the driver: (driver call, text, parameters, loop context)"""
    seen = set()
    for o in outs:
        for path, e in events(o.events):
            m = e[1].rsplit('::', 1)[-1]
            if e[1].startswith(('postgres::', 'tokio_postgres::')) and m in SEND and len(e[2]) >= 2:
                k = (e[1], e[2])
                if k not in seen:
                    seen.add(k)
                    yield e[1], e[2][1], e[2][2:], path


def reach(ctx, fid, stop=()):
    """call graph from a function: (local functions, {external function: a local caller})"""
    prog = ctx.prog
    stop = {prog.find(x) for x in stop}
    seen, ext, todo = {fid}, {}, [fid]

    def callee(c, caller):
        if 'ctor' in c:
            return
        if 'fn' in c:
            if c['fn'] not in seen and c['fn'] not in stop:
                seen.add(c['fn'])
                todo.append(c['fn'])
            if c.get('local', True):
                return
        ext.setdefault(prog.np(c['path']), caller)

    def ofty(t, caller):
        t = prog.types[t]
        if t['k'] == 'closure' and 'fn' in t and t['fn'] not in seen:
            seen.add(t['fn'])
            todo.append(t['fn'])
        elif t['k'] == 'fndef' and 'callee' in t:
            callee(t['callee'], caller)

    def consts(x, caller):
        if isinstance(x, (list, tuple)):
            if len(x) >= 2 and x[0] == 'k' and isinstance(x[1], int):
                ofty(x[1], caller)
            for y in x:
                consts(y, caller)
        elif isinstance(x, dict):
            for y in x.values():
                consts(y, caller)

    while todo:
        f = prog.fns[todo.pop()]
        name = prog.np(f['path'])
        for t in f['locals']:
            ofty(t, name)
        for b in f.get('blocks') or []:
            if b:
                consts(b['s'], name)
                t = b['t']
                if t and t['k'] == 'call':
                    if 'path' in t.get('f', {}):
                        callee(t.get('f', {}), name)
                    consts(t['a'], name)
    loc = {prog.np(prog.fns[f]['path']) for f in seen if prog.fns[f].get('local', True)}
    return loc, ext
