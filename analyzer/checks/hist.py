"""Checks over the command summaries: history files, metadata table, transactions, effects."""
from checks import cmd, dbsql
from engine import AnalysisError, mk_list, reverse_segs
from pp import short, fs

PROFILE = lambda f: ('profile', ('root', 'arg0'), f)
URL, SCHEMA, DIR, DEFS = PROFILE('database_url'), PROFILE('metadata_schema'), PROFILE('history'), PROFILE('definitions')
TX, DB = ('tx', URL), ('db', URL)
STAGE, INIT = ('str', 'stage'), ('str', 'init')
VERFIELDS = ('name', 'previous', 'changes', 'up', 'down')
LISTS = ('changes', 'up', 'down')


def last(p):
    return p.rsplit('::', 1)[-1]


def sh(t, n=160):
    return short(t)[:n]


def loc(ctx, c):
    return ctx.loc('cmd::%s::%s' % (c, c))


def is_db(e):
    return e[1].startswith(('postgres::', 'tokio_postgres::'))


def cond(o, n=200):
    """the conditions of an outcome that are not just successful calls"""
    return fs({k: v for k, v in o.facts.items() if not (k[0] == 'is' and v == 'Ok')})[:n] or 'always'


def segs(x):
    return mk_list(x[1])[1] if x[0] == 'list' else (('all', x),)


def isel(t, over):
    return t[0] == 'elem' and t[1] == over


def isempty(facts, x):
    """the facts (a dict or a frozenset of pairs) say that the list x is empty"""
    d = facts if isinstance(facts, dict) else dict(facts)
    return any(v is True and k[0] == 'empty' and k[1] == x for k, v in d.items())


def statement(e):
    """what one database event does: ('run', text) | ('sql', parsed, params) | ('commit',) | ..."""
    m = last(e[1])
    if m in cmd.SEND and len(e[2]) >= 2:
        if e[2][0] != TX and e[2][0] != DB:
            return ('elsewhere', e[2][0])
        from checks.c05 import recorded
        if recorded(e[2][1]):
            return ('run', e[2][1], e[2][2] if len(e[2]) > 2 else ('list', ()))
        try:
            q = dbsql.parse(e[2][1])
        except Exception as x:
            return ('unparsed', e[2][1])
        ps = e[2][2] if len(e[2]) > 2 else ('list', ())
        if ps[0] != 'list' or any(x[0] != 'one' for x in ps[1]):
            return ('unparsed', e[2][1])
        return ('sql', q, tuple(x[1] for x in ps[1]))
    return (m,)


def reads(s):
    return s[0] == 'sql' and s[1][0] in ('select', 'exists')


def dbtree(ss, keep):
    """the event tree restricted to the database events that keep() accepts"""
    out = []
    for s in ss:
        if s[0] == 'one':
            e = s[1]
            if e[0] == 'event' and is_db(e) and keep(e):
                out.append(('x', e))
        elif len(s) > 3:
            alts = [(f, dbtree(x, keep)) for f, x in s[3]]
            if any(x for _, x in alts):
                out.append((s[0], s[1], s[2], alts))
        else:
            out.append(('?', s))
    return out


def flat(tree, inloop=False):
    for n in tree:
        if n[0] == 'x':
            yield n[1], inloop
        elif n[0] != '?':
            for _, x in n[3]:
                yield from flat(x, True)


# ---------------------------------------------------------------- C12: one transaction

HARMLESS = ('connect', 'transaction')


def run_transaction(ctx):
    total = 0
    for c in ('up', 'down', 'status', 'clone'):
        outs = cmd.command(ctx, c)
        wrote = 0
        for o in outs:
            tree = dbtree(o.events, lambda e: True)
            evs = list(flat(tree))
            total += len(evs)
            what = '%s when %s' % (c, cond(o))
            txs = [x for x in evs if last(x[0][1]) in ('transaction', 'build_transaction', 'start')]
            cons = [x for x in evs if last(x[0][1]) == 'connect']
            ctx.ob(len(txs) <= 1 and not any(l for _, l in txs), '%s:one transaction' % c, '%s opens %d transactions' % (what, len(txs)), loc(ctx, c))
            ctx.ob(len(cons) <= 1 and not any(l for _, l in cons), '%s:one connection' % c, '%s opens %d connections' % (what, len(cons)), loc(ctx, c))
            for e, l in cons:
                ctx.ob(e[2][0] == URL, '%s:connects to' % c, '%s connects to %s, not to the database of the profile' % (what, sh(e[2][0])), loc(ctx, c))
            for e, l in txs:
                ctx.ob(e[2][0] == DB, '%s:transaction of' % c, '%s opens a transaction on %s' % (what, sh(e[2][0])), loc(ctx, c))
            commits = [i for i, (e, l) in enumerate(evs) if last(e[1]) == 'commit']
            writes = []
            for i, (e, l) in enumerate(evs):
                m = last(e[1])
                if m in ('connect', 'transaction', 'commit'):
                    continue
                s = statement(e)
                if e[1].startswith('postgres::Transaction::') and e[2] and e[2][0] == TX and (s[0] in ('run', 'sql') or m == 'rollback'):
                    ctx.good()
                    if not reads(s) and m != 'rollback':
                        writes.append((i, s))
                elif reads(s) and e[2][0] == DB:
                    ctx.good()
                else:
                    ctx.bad('%s:outside:%s' % (c, m), '%s: %s(%s) is not a statement of the one transaction' % (what, m, ', '.join(sh(a, 80) for a in e[2])), loc(ctx, c))
            wrote += len(writes)
            if c in ('status', 'clone'):
                ctx.ob(not writes, '%s:writes' % c, '%s sends %s' % (what, sh(writes[0][1][1]) if writes else ''), loc(ctx, c))
                ctx.ob(not commits, '%s:commits' % c, '%s commits' % what, loc(ctx, c))
                continue
            ctx.ob(len(commits) <= 1, '%s:commits once' % c, '%s commits %d times' % (what, len(commits)), loc(ctx, c))
            for i in commits:
                e, l = evs[i]
                ctx.ob(not l, '%s:commit in loop' % c, '%s commits inside a loop: a later failure leaves earlier versions applied' % what, loc(ctx, c))
                ctx.ob(i == len(evs) - 1, '%s:commit last' % c, '%s: %s is sent after the commit' % (what, last(evs[-1][0][1])), loc(ctx, c))
                ctx.ob(e[2][:1] == (TX,), '%s:commit of' % c, '%s commits %s' % (what, sh(e[2][0])), loc(ctx, c))
            if o.kind == 'ret' and not o.ok:
                # a failure after which the transaction counts as committed is only the commit's own failure
                own = any(k[0] == 'is' and v == 'Err' and k[1][0] == 'call' and k[1][1] == 'postgres::Transaction::commit' for k, v in o.facts.items())
                ctx.ob(not commits or own, '%s:failure after commit' % c, '%s fails after the commit' % what, loc(ctx, c))
            elif o.ok:
                swallowed = [k for k, v in o.facts.items() if k[0] == 'is' and v == 'Err' and k[1][0] == 'call' and is_db(('', k[1][1]))]
                ctx.ob(not swallowed, '%s:swallowed' % c, '%s succeeds although %s failed' % (what, sh(swallowed[0][1]) if swallowed else ''), loc(ctx, c))
                if any(s[0] == 'run' or evs[i][1] for i, s in writes):
                    ctx.ob(len(commits) == 1, '%s:not committed' % c, '%s succeeds without committing what it sent' % what, loc(ctx, c))
            else:
                ctx.ob(not commits, '%s:%s after commit' % (c, o.kind), '%s: %s after the commit' % (what, o.kind), loc(ctx, c))
        if c in ('up', 'down'):
            ctx.floor('writing statements of %s over all outcomes' % c, wrote, 20)
        ctx.sample('%s: %d outcomes' % (c, len(outs)))
    ctx.floor('database events over all outcomes', total, 300)


# ---------------------------------------------------------------- C13: what up and down send

def initialises(nodes):
    """does the tree start with the creation of the metadata schema? -> (created, rest, problem)"""
    if not nodes or nodes[0][0] != 'x':
        return False, nodes, None
    head = []
    while nodes and nodes[0][0] == 'x' and last(nodes[0][1][1]) != 'commit':
        head.append(statement(nodes[0][1]))
        nodes = nodes[1:]
    kinds = [s[1][0] if s[0] == 'sql' else s[0] for s in head]
    if kinds != ['create schema', 'create table', 'insert']:
        return True, nodes, 'sends %s outside the loop over versions' % ', '.join(kinds)
    if head[0][1][1] != SCHEMA:
        return True, nodes, 'creates the schema %s' % sh(head[0][1][1])
    if head[1][1][1] != (SCHEMA, 'version'):
        return True, nodes, 'creates the table %s' % sh(head[1][1][1])
    p = inserted(head[2], {'name': INIT, 'previous': ('struct', 'std::option::Option', 'None', ())})
    return True, nodes, p


def inserted(s, want):
    """problem with an INSERT into the version table (None: fine)"""
    _, q, ps = s
    if q[1] != (SCHEMA, 'version'):
        return 'inserts into %s' % sh(q[1])
    got = {}
    for col, operand, casts in q[2]:
        if operand[0] != 'param' or not 1 <= operand[1] <= len(ps):
            return 'inserts %s into %s' % (sh(operand), col)
        if col in got:
            return 'inserts %s twice' % col
        got[col] = ps[operand[1] - 1]
    for f in VERFIELDS:
        if f not in got:
            return 'does not record the %s of the version' % f
    for f, v in want.items():
        if got[f] != v and not (f == 'previous' and v[0] == 'struct' and got[f][0] == 'struct' and got[f][2] == v[2] and got[f][3] == v[3]):
            return 'records %s as the %s of the version, not %s' % (sh(got[f]), f, sh(v))
    extra = set(got) - set(VERFIELDS)
    return 'records unknown columns %s' % sorted(extra) if extra else None


def runs(n, texts):
    """node n runs every statement of the list `texts` once, in order"""
    if n[0] != 'rep' or n[1] != texts:
        return False
    for f, x in n[3]:
        if len(x) != 1 or x[0][0] != 'x':
            return False
        s = statement(x[0][1])
        if s[0] != 'run' or s[1] != n[2] or s[2] != ('list', ()):
            return False
    return True


def up_range(o):
    arg = dict((k[1], v) for k, v in o.facts.items() if k[0] == 'is').get(('root', 'arg1'))
    to = {'Some': ('fld', ('root', 'arg1'), 'Some.0'), 'None': ('fld', ('history', DIR), 'current_version')}.get(arg)
    return to


def current(t):
    return t[0] == 'dbcurrent' and t[1:3] == (URL, SCHEMA)


def bodies(tree, over):
    """concatenated bodies of the loops over `over`: list of (facts, nodes); None if there is anything else"""
    acc = [((), [])]
    for n in tree:
        if n[0] != 'rep' or n[1] != over:
            return None
        acc = [(f + tuple(g), b + x) for f, b in acc for g, x in n[3]]
    return acc


def run_migrations(ctx):
    keep = lambda e: last(e[1]) not in HARMLESS and last(e[1]) != 'commit' and not reads(statement(e))
    loops = {'up': 0, 'down': 0}
    for c in ('up', 'down'):
        for o in cmd.command(ctx, c):
            if not o.ok:
                continue
            L = loc(ctx, c)
            what = '%s when %s' % (c, cond(o))
            tree = dbtree(o.events, keep)
            made, rest, problem = initialises(tree)
            ctx.ob(problem is None, '%s:initialisation' % c, '%s: %s' % (what, problem), L)
            known = [v in (True, 'Some') for k, v in o.facts.items() for q in (k if k[0] == 'exists' else k[1],) if (q[0] == 'exists' or q[0] == 'optrow' and k[0] == 'is') and
                     q[1] == URL and q[2][0] == 'select' and q[2][1] in ((('str', 'pg_catalog'), 'pg_namespace'), ('pg_catalog', 'pg_namespace'), (None, 'pg_namespace')) and
                     q[3] == (SCHEMA,) and q[2][3] == frozenset({('=', ('col', 'nspname'), ('param', 1))})]
            ctx.ob(bool(known) and (not all(known)) == made or (made and False in known), '%s:initialisation condition' % c,
                   '%s: the metadata schema is %screated although it %s' % (what, '' if made else 'not ', 'exists' if made else 'may be missing'), L)
            if c == 'up':
                bad = check_up(o, rest)
            else:
                bad = check_down(o, rest)
            if isinstance(bad, int):
                loops[c] += bad
                ctx.good(6 if bad else 1)
            else:
                ctx.bad('%s:%s' % (c, bad[0]), '%s: %s' % (what, bad[1]), L)
    ctx.floor('outcomes of up that apply versions', loops['up'], 2)
    ctx.floor('outcomes of down that revert versions', loops['down'], 2)


def check_up(o, rest):
    to = up_range(o)
    if to is None:
        return 'target', 'the target does not depend on whether a version was given'
    empt = [k[1] for k, v in o.facts.items() if k[0] == 'empty' and v is True]
    if not rest:
        for x in empt:
            if x[0] == 'uprange' and x[1] == DIR and x[3] == to and x[2][0] == 'col' and current(x[2][1]) and x[2][2] == 'name':
                return 0
        return 'nothing', 'nothing is applied although versions may be pending'
    n = rest[0]
    if n[0] == 'x':
        return 'extra', 'sends %s outside the loop over versions' % sh(statement(n[1]))
    R = n[1]
    if R[0] != 'uprange':
        return 'range', 'works through %s, not the versions between the current and the requested one' % sh(R)
    if R[1] != DIR:
        return 'directory', 'works through the versions of %s' % sh(R[1])
    if not (R[2][0] == 'col' and current(R[2][1]) and R[2][2] == 'name'):
        return 'from', 'starts from %s, not from the current version of the database' % sh(R[2])
    if R[3] != to:
        return 'to', 'goes up to %s, not to %s' % (sh(R[3]), sh(to))
    bs = bodies(rest, R)
    if bs is None:
        return 'loop', 'does not work through every version of the range in order'
    for f, b in bs:
        ins = [x for x in b if x[0] == 'x']
        lst = [x for x in b if x[0] != 'x']
        V = None
        for E in {y[2] for y in rest}:
            v = ('ver', DIR, E)
            if lst and runs(lst[0], ('fld', v, 'up')) or (not lst and isempty(f, ('fld', v, 'up'))):
                V = v
        if V is None or len(lst) > 1:
            return 'statements', 'a version of the range is not applied by running its up statements once, in order'
        if len(ins) != 1:
            return 'record', 'a version is recorded %d times' % len(ins)
        s = statement(ins[0][1])
        if s[0] != 'sql' or s[1][0] != 'insert':
            return 'extra', 'sends %s for a version' % sh(s)
        p = inserted(s, {'name': V[2], 'previous': ('fld', V, 'previous'), 'changes': ('tojson', ('fld', V, 'changes')), 'up': ('fld', V, 'up'), 'down': ('fld', V, 'down')})
        if p:
            return 'record', p
    return 1


def order_of(t):
    """the version whose applied_order a parameter is"""
    if t[0] == 'struct' and t[2] == 'Some':
        t = t[3][0][1]
    if t[0] == 'col' and t[2] == 'applied_order':
        r = t[1]
        if current(r):
            return ('col', r, 'name', ())
        if r[0] == 'dbversion' and r[1:3] == (URL, SCHEMA):
            return r[3]
    return None


def sound_rows(r, to):
    """r: the rows down works through; None if they are the versions after `to`, newest first"""
    if r[0] != 'rows' or r[1] != URL:
        return 'works through %s' % sh(r)
    q, ps = r[2], r[3]
    if q[0] != 'select' or q[1] != (SCHEMA, 'version'):
        return 'selects from %s' % sh(q[1])
    if q[4] != (('applied_order', 'DESC'),):
        return 'does not revert the newest version first'
    if q[5] is not None:
        return 'reverts only some of the versions'
    lower = 0
    for op, a, b in q[3]:
        if a[0] != 'col':
            return 'selects by %s' % sh(a)
        v = ps[b[1] - 1] if b[0] == 'param' and b[1] <= len(ps) else None
        v = order_of(v) if v is not None else None
        if a != ('col', 'applied_order') or v is None:
            return 'selects by %s' % sh(a)
        if op == '>' and v == to:
            lower += 1
        elif op == '<=' and v[0] == 'col' and current(v[1]) and v[2] == 'name':
            pass
        else:
            return 'selects the versions with applied_order %s that of %s' % (op, sh(v, 300))
    return None if lower == 1 else 'does not stop at the requested version'


def check_down(o, rest):
    arg = dict((k[1], v) for k, v in o.facts.items() if k[0] == 'is').get(('root', 'arg1'))
    if arg is None:
        return 'target', 'the target does not depend on whether a version was given'
    cur = None
    for k in o.facts:
        for x in (k[1:2] if k[0] == 'is' else ()):
            if x[0] == 'col' and current(x[1]) and x[2] == 'previous':
                cur = x
    if arg == 'None' and cur is not None and o.facts.get(('is', cur)) == 'None' and not rest:
        return 0                  # on the first version already
    to = ('fld', ('root', 'arg1'), 'Some.0') if arg == 'Some' else None if cur is None else ('fld', cur, 'Some.0')
    if to is None:
        return 'target', 'the target is not the version before the current one'
    if not rest:
        for k, v in o.facts.items():
            if k[0] == 'empty' and v is True and k[1][0] in ('rows', 'column'):
                r = k[1] if k[1][0] == 'rows' else ('rows',) + k[1][2]
                if sound_rows(r, to) is None:
                    return 0
        return 'nothing', 'nothing is reverted although versions after the target may be recorded'
    n = rest[0]
    if n[0] == 'x':
        return 'extra', 'sends %s outside the loop over versions' % sh(statement(n[1]))
    R = n[1]
    p = sound_rows(R if R[0] == 'rows' else ('rows',) + R[2] if R[0] == 'column' and R[1] == 'name' else R, to)
    if p:
        return 'range', p
    bs = bodies(rest, R)
    if bs is None:
        return 'loop', 'does not work through every version of the range in order'
    for f, b in bs:
        dels = [x for x in b if x[0] == 'x']
        lst = [x for x in b if x[0] != 'x']
        if len(lst) > 1:
            return 'statements', 'a version of the range is not reverted by running its down statements once, in order'
        names = set()
        for y in rest:
            names.add(y[2] if R[0] == 'column' else None)
            names.add(('col', ('rowof',) + R[1:] + y[2][2:], 'name', ()))
            if y[2][0] == 'rowof':
                names.add(('col', y[2], 'name', ()))
        downs = [lst[0][1]] if lst else [k[1] for k, v in f if k[0] == 'empty' and v is True]
        D = None
        for d in downs:
            if d[0] == 'col' and d[2] == 'down' and not d[3] and (d[1][0] == 'dbversion' and d[1][1:3] == (URL, SCHEMA) and d[1][3] in names or d[1][0] == 'rowof' and ('col', d[1], 'name', ()) in names):
                D = d
        if D is None or lst and not runs(lst[0], D):
            return 'statements', 'a version of the range is not reverted by running its recorded down statements once, in order'
        N = D[1][3] if D[1][0] == 'dbversion' else ('col', D[1], 'name', ())
        if len(dels) != 1:
            return 'record', '%d statements are sent to remove the record of a version' % len(dels)
        s = statement(dels[0][1])
        if s[0] != 'sql' or s[1][0] != 'delete' or s[1][1] != (SCHEMA, 'version'):
            return 'extra', 'sends %s for a version' % sh(s)
        w = s[1][2]
        if len(w) != 1:
            return 'record', 'removes more than the record of the version'
        (op, a, b), = w
        if not (op == '=' and a == ('col', 'name') and b[0] == 'param' and b[1] <= len(s[2]) and s[2][b[1] - 1] == N):
            return 'record', 'removes the record of %s' % (sh(s[2][b[1] - 1]) if b[0] == 'param' and b[1] <= len(s[2]) else sh(b))
    return 1


# ---------------------------------------------------------------- the disk a command leaves behind

READS = {'std::env::current_dir', 'std::env::var', 'std::env::vars', 'std::env::var_os', 'std::fs::File::open', 'std::fs::read_to_string', 'std::fs::read_dir', 'std::fs::read', 'std::fs::metadata',
         'std::fs::canonicalize', 'std::io::Read::read_to_string', 'std::io::Read::read_to_end', 'std::fs::DirEntry::file_type', 'std::fs::DirEntry::path',
         'std::fs::DirEntry::file_name', 'std::fs::exists', 'std::fs::FileType::is_dir', 'std::fs::FileType::is_file', 'std::fs::ReadDir::next'}


def failed(o, e):
    """did this effect fail in this outcome?"""
    return o.facts.get(('is', ('call', e[1], e[2], e[3]))) == 'Err'


def content(x):
    """the text handed to a write: bytes of a string are the string"""
    while x[0] == 'call' and x[1] in ('str::as_bytes', 'std::string::String::as_bytes', 'core::str::as_bytes', 'std::string::String::into_bytes') or x[0] == 'bytes':
        x = x[2][0] if x[0] == 'call' else x[1]
    return x


class Disk:
    """replays the file operations of one outcome: what ends up where, in which order"""

    def __init__(self, o):
        self.o = o
        self.open = {}          # path -> content written so far (None: nothing), in creation order
        self.synced = set()
        self.saved = []         # (path, content, how) in the order in which they become visible
        self.dirs = []
        self.other = []
        self.inloop = []
        for path, e in cmd.events(o.events):
            self.step(e, path)

    def step(self, e, path):
        m, a = e[1], e[2]
        if is_db(e) or m in READS or m in ('definition::load_snpashot', 'introspection::introspect'):
            return
        if path:
            self.inloop.append(e)
        bad = failed(self.o, e)
        if m == 'std::fs::File::create':
            if not bad:
                self.open[a[0]] = []
                self.synced.discard(a[0])
                self.touch(a[0], 'created')
        elif m in ('std::io::Write::write_all', 'std::io::Write::write') and a[0][0] == 'newfile':
            p = a[0][1]
            self.open.setdefault(p, []).append(content(a[1]) if not bad and m.endswith('write_all') else ('partial', content(a[1])))
            self.synced.discard(p)
        elif m in ('std::fs::File::sync_all', 'std::fs::File::sync_data') and a[0][0] == 'newfile':
            if not bad:
                self.synced.add(a[0][1])
        elif m == 'std::io::Write::flush':
            pass
        elif m == 'std::fs::write':
            self.open[a[0]] = [content(a[1]) if not bad else ('partial', content(a[1]))]
            self.synced.discard(a[0])
            self.touch(a[0], 'written')
        elif m == 'std::fs::rename':
            if not bad:
                c = self.open.pop(a[0], None)
                self.saved.append((a[1], self.whole(c), 'renamed' + ('' if a[0] in self.synced else ' unsynced') if c is not None else 'moved from %s' % sh(a[0]), a[0]))
        elif m in ('std::fs::create_dir_all', 'std::fs::create_dir'):
            self.dirs.append(a[0])
        elif m == 'definition::save_snapshot':
            self.saved.append((a[0], ('snapshot', a[1]), 'definition', None))
        else:
            self.other.append(e)

    def touch(self, p, how):
        pass

    def whole(self, c):
        if c is None:
            return ('unknown',)
        return c[0] if len(c) == 1 else ('cat', tuple(c)) if c else ('str', '')

    def final(self):
        """every file that exists with new content at the end: path -> content"""
        d = {}
        for p, c, how, src in self.saved:
            d[p] = c
        for p, c in self.open.items():
            d[p] = self.whole(c)
        return d

    def versions(self, directory):
        """the version files written, in order: [(name, version value, how)]; files left open count as written directly"""
        out = []
        for p, c, how, src in self.saved:
            if p[0] == 'pathjoin' and p[1] == directory:
                out.append((cmd.stem(p), c, how))
        for p, c in self.open.items():
            if p[0] == 'pathjoin' and p[1] == directory and cmd.stem(p) is not None:
                out.append((cmd.stem(p), self.whole(c), 'direct'))
        return out


def fields(v):
    """the fields of a version value"""
    if v[0] == 'toyaml':
        v = v[1]
    if v[0] == 'struct':
        return dict(v[3])
    if v[0] == 'upd':
        d = fields(v[1])
        d.update(dict(v[2]))
        return d
    if v[0] == 'ver':
        return {f: (v[2] if f == 'name' else ('fld', v, f)) for f in VERFIELDS}
    return {}


def opt(v):
    """content of an Option value: (True, x) | (False, None) | None if unknown"""
    if v is not None and v[0] == 'struct' and v[2] == 'Some':
        return True, v[3][0][1]
    if v is not None and v[0] == 'struct' and v[2] == 'None':
        return False, None
    return None


def saves(ctx, c, o, what, least=0):
    """version files written by one outcome"""
    d = Disk(o)
    return d, d.versions(DIR)


# ---------------------------------------------------------------- C14: what stage records

def is_snap(s):
    """the state after every version from init up to and including stage"""
    if s[0] != 'foreach':
        return 'compares with %s' % sh(s)
    _, s0, e, lst = s
    if not (e[0] == 'elem' and e[1] == ('uprange', DIR, INIT, STAGE) and lst == ('fld', ('ver', DIR, e), 'changes')):
        return 'the compared state does not apply the changes of every version from init to stage (it applies %s)' % sh(lst, 240)
    if not (s0[0] == 'applied' and s0[2] == ('fld', ('ver', DIR, INIT), 'changes')):
        return 'the compared state does not start with the changes of the init version'
    b = s0[1]
    if not (b[0] == 'struct' and all(x[1] in (('map', ()), ('list', ())) for x in b[3])):
        return 'the compared state does not start empty'
    return None


def one_call(t, fn, args):
    return t[0] == 'call' and t[1] == fn and t[2] == args


def run_stage(ctx):
    L = loc(ctx, 'stage')
    n = 0
    for o in cmd.command(ctx, 'stage'):
        what = 'stage when %s' % cond(o)
        d, vs = saves(ctx, 'stage', o, what)
        if not o.ok:
            ctx.ob(o.kind == 'ret', 'stage:%s' % o.kind, '%s: %s' % (what, o.kind), L)
            ctx.ob(not vs, 'stage:recorded on failure', '%s: the stage file is replaced although the command fails' % what, L)
            continue
        if not vs:
            ok = any(k[0] == 'empty' and v is True and k[1][0] == 'call' and k[1][1] == 'snapshot::diff::compare_diff' for k, v in o.facts.items())
            ctx.ob(ok, 'stage:nothing recorded', '%s: succeeds without recording the changes' % what, L)
            continue
        if not ctx.ob(len(vs) == 1 and vs[0][0] == STAGE, 'stage:files', '%s writes %s' % (what, [sh(x[0]) if x[0] else '?' for x in vs]), L):
            continue
        n += 1
        f = fields(vs[0][1])
        old = fields(('ver', DIR, STAGE))
        ctx.ob(vs[0][1][0] == 'toyaml', 'stage:format', '%s does not write the version as YAML' % what, L)
        for k in ('name', 'previous'):
            ctx.ob(f.get(k) == old[k], 'stage:%s' % k, '%s changes the %s of the stage to %s' % (what, k, sh(f.get(k, ('?',)))), L)
        ch = segs(f.get('changes', ('?',)))
        CH = next((s[1] for s in ch if s[0] == 'all' and s[1] != old['changes']), None)
        if not ctx.ob(CH is not None and CH[0] == 'call' and CH[1] == 'snapshot::diff::compare_diff', 'stage:compares',
                      '%s does not record the result of the comparison but %s' % (what, sh(f.get('changes', ('?',)), 300)), L):
            continue
        S, T = CH[2][:2]
        ctx.ob(T == ('defined', DEFS), 'stage:target', '%s compares with %s, not with the definitions of the profile' % (what, sh(T)), L)
        p = is_snap(S)
        ctx.ob(p is None, 'stage:source', '%s: %s' % (what, p), L)
        ctx.ob(ch == (('all', old['changes']), ('all', CH)), 'stage:changes', '%s: the recorded changes are %s, not the staged ones followed by the new ones' % (what, sh(f['changes'], 300)), L)
        up = segs(f.get('up', ('?',)))
        ok = len(up) == 2 and up[0] == ('all', old['up']) and up[1][0] == 'rep' and up[1][1] == CH and all(
            len(x) == 1 and x[0][0] == 'one' and one_call(x[0][1], 'snapshot::changes::Change::render_sql', (up[1][2],)) for _, x in up[1][3])
        ctx.ob(ok, 'stage:up', '%s: the recorded up statements are %s, not the staged ones followed by the SQL of each new change in order' % (what, sh(f.get('up', ('?',)), 300)), L)
        dn = segs(f.get('down', ('?',)))
        ok = len(dn) == 2 and dn[1] == ('all', old['down']) and dn[0][0] == 'rrep' and dn[0][1] == CH
        ctx.ob(ok, 'stage:down order', '%s: the recorded down statements are %s, not those of the new changes in reverse order followed by the staged ones' % (what, sh(f.get('down', ('?',)), 300)), L)
        if ok:
            e = dn[0][2]
            for _, x in dn[0][3]:
                t = x[0][1] if len(x) == 1 and x[0][0] == 'one' else ('?',)
                ok = t[0] == 'call' and t[1] == 'snapshot::changes::Change::render_sql'
                r = t[2][0] if ok else ('?',)
                ok = ok and r[0] == 'fld' and r[2] == 'Ok.0' and r[1][0] == 'call' and r[1][1] == 'snapshot::changes::Change::revert' and r[1][2][0] == e
                if ctx.ob(ok, 'stage:down', '%s: a recorded down statement is %s, not the SQL of the reverse of the change' % (what, sh(t, 300)), L):
                    st = r[1][2][1]
                    good = st[0] == 'loopat' and st[1] == e and st[2] == S and all(b == ('mut', 'snapshot::changes::Change::apply', (e, ('self',))) for _, b in st[3]) and len(st[3]) > 0
                    ctx.ob(good, 'stage:down state', '%s: the reverse of a change is not computed from the state right before that change (but from %s)' % (what, sh(st, 300)), L)
    ctx.floor('outcomes that record changes', n, 1)


# ---------------------------------------------------------------- C15: make and reset

def has_call(t, name):
    if isinstance(t, tuple):
        if t and t[0] == 'call' and t[1].endswith(name):
            return True
        return any(has_call(x, name) for x in t)
    return False


def has_time(t):
    """the text contains the current date and time to the second"""
    if not isinstance(t, tuple):
        return False
    if t[:1] == ('call',) and isinstance(t[1], str):
        if last(t[1]) == 'format' and t[1].startswith('chrono::'):
            f = t[2][1][1] if len(t[2]) > 1 and t[2][1][0] == 'str' else ''
            day = '%s' in f or '%+' in f or '%c' in f or all(any(x in f for x in xs) for xs in (('%Y', '%y', '%F', '%G', '%D'), ('%m', '%b', '%B', '%F', '%j', '%D'), ('%d', '%e', '%F', '%j', '%D')))
            time = '%s' in f or '%+' in f or '%c' in f or '%T' in f or all(any(x in f for x in xs) for xs in (('%H', '%k', '%R'), ('%M', '%R'), ('%S',)))
            return day and time and has_call(t[2][0], 'now')
        if last(t[1]) in ('to_rfc3339', 'timestamp', 'timestamp_millis', 'timestamp_micros', 'as_secs', 'as_millis', 'as_nanos', 'as_micros'):
            return has_call(t[2][0], 'now')
    return any(has_time(x) for x in t)


def no_file(t):
    """a piece of this text that no file name can have"""
    if not isinstance(t, tuple):
        return None
    if t[:1] == ('str',):
        return t[1] if isinstance(t[1], str) and ('/' in t[1] or '%D' in t[1]) else None
    return next((x for x in map(no_file, t) if x is not None), None)


ABSENT = ('exists', 'try_exists', 'is_file', 'metadata', 'symlink_metadata', 'is_symlink')
NOFILE = ('open', 'metadata', 'symlink_metadata', 'read_to_string', 'read', 'get_version', 'canonicalize')


def is_new(o, p, name):
    """this outcome knows that no version file was there: a look at the file, or a file operation that never replaces one"""
    for k, v in o.facts.items():
        c = k[1] if k[0] in ('fld', 'is') else k
        if c[0] == 'call' and p in c[2] + tuple(x[1] for x in c[2] if x[0] == 'file'):
            m = last(c[1])
            if v is False and m in ABSENT or k[0] == 'is' and v == 'Err' and m in NOFILE:
                return True
        if k[0] in ('has', 'any') and v is False and name in k[1:]:
            return True
    for path, e in cmd.events(o.events):
        if last(e[1]) == 'create_new' and p in e[2] or last(e[1]) == 'hard_link' and e[2][-1] == p:
            return True
    return False


def run_make(ctx):
    old = fields(('ver', DIR, STAGE))
    L = loc(ctx, 'make')
    n = 0
    for o in cmd.command(ctx, 'make'):
        what = 'make when %s' % cond(o)
        d, vs = saves(ctx, 'make', o, what)
        names = [v[0] for v in vs]
        if o.ok:
            if not vs:
                bad = [f for f in LISTS if o.facts.get(('empty', old[f])) is not True]
                ctx.ob(not bad, 'make:nothing made', '%s: succeeds without making a version although the stage may have %s' % (what, ', '.join(bad)), L)
                continue
            n += 1
            if not ctx.ob(len(vs) == 2 and names[1] == STAGE and names[0] != STAGE, 'make:files', '%s writes %s, not the new version and then the new stage' % (what, [sh(x) if x else '?' for x in names]), L):
                continue
            new, stage = fields(vs[0][1]), fields(vs[1][1])
            N = new.get('name')
            ctx.ob(N == names[0], 'make:file name', '%s: the version %s is written to the file of %s' % (what, sh(N or ('?',)), sh(names[0])), L)
            for f in VERFIELDS[1:]:
                ctx.ob(new.get(f) == old[f], 'make:%s' % f, '%s: the %s of the new version are %s, not those of the stage' % (what, f, sh(new.get(f, ('?',)))), L)
            ctx.ob(has_time(N), 'make:name time', '%s: the name of the new version (%s) does not contain the date and the time to the second' % (what, sh(N)), L)
            ctx.ob(no_file(N) is None, 'make:no file name', '%s: the name of the new version has the piece %r, so that no file can have this name' % (what, no_file(N)), L)
            where = next((x[0] for x in d.saved if cmd.stem(x[0]) == N), None)
            ctx.ob(where is not None and is_new(o, where, N), 'make:overwrites', '%s: the new version is written without knowing that its file is new: a version made in the same second is overwritten, and the history with it' % what, L)
            given = o.facts.get(('is', ('root', 'arg1')))
            if given == 'Some':
                ctx.ob(N[0] == 'cat' and any(x == ('fld', ('root', 'arg1'), 'Some.0') for x in N[1]), 'make:name label', '%s: the name of the new version (%s) does not contain the given label' % (what, sh(N)), L)
            ctx.ob(stage.get('name') == STAGE, 'make:new stage name', '%s: the new stage is named %s' % (what, sh(stage.get('name', ('?',)))), L)
            ctx.ob(opt(stage.get('previous')) == (True, N), 'make:new stage previous', '%s: the new stage follows %s, not the new version' % (what, sh(stage.get('previous', ('?',)))), L)
            for f in LISTS:
                ctx.ob(stage.get(f) == ('list', ()), 'make:new stage %s' % f, '%s: the new stage still has %s' % (what, f), L)
        else:
            ctx.ob(o.kind == 'ret', 'make:%s' % o.kind, '%s: %s' % (what, o.kind), L)
            # a failure must not lose the staged changes: the stage is only replaced when the version is saved
            ctx.ob(STAGE not in names or names.index(STAGE) > 0, 'make:stage lost', '%s: the stage is replaced before the new version is saved' % what, L)
            if names:
                ctx.ob(all(fields(vs[0][1]).get(f) == old[f] for f in VERFIELDS[1:]), 'make:partial', '%s: the version saved before the failure is not the stage' % what, L)
    ctx.floor('outcomes that make a version', n, 2)
    L = loc(ctx, 'reset')
    n = 0
    for o in cmd.command(ctx, 'reset'):
        what = 'reset when %s' % cond(o)
        d, vs = saves(ctx, 'reset', o, what)
        if not o.ok:
            ctx.ob(not vs, 'reset:failure', '%s: the stage is replaced although the command fails' % what, L)
            continue
        if not vs and all(o.facts.get(('empty', old[f])) is True for f in LISTS):
            continue
        if not ctx.ob(len(vs) == 1 and vs[0][0] == STAGE, 'reset:files', '%s writes %s' % (what, [sh(x[0]) if x[0] else '?' for x in vs]), L):
            continue
        n += 1
        f = fields(vs[0][1])
        for k in ('name', 'previous'):
            ctx.ob(f.get(k) == old[k], 'reset:%s' % k, '%s: the %s of the stage becomes %s' % (what, k, sh(f.get(k, ('?',)))), L)
        for k in LISTS:
            ctx.ob(f.get(k) == ('list', ()), 'reset:%s' % k, '%s: the stage keeps its %s' % (what, k), L)
    ctx.floor('outcomes that reset the stage', n, 1)


# ---------------------------------------------------------------- C16: the chain of versions

def inner(ctx, path):
    return cmd.outcomes(ctx, ctx.fn(path), path, opaque=())


def loopcur(t, start):
    """t is the value a loop variable has after some rounds: -> (while, step) or None"""
    if t[0] in ('loopval', 'loopat') and t[2] == start:
        steps = {s for g, s in t[3]}
        if len(steps) == 1:
            return t[1], steps.pop()
    return None


def run_chain(ctx):
    P = 'history::fsh::FSHistory::get_upward_range'
    L = ctx.loc(P)
    H, FROM, TO = (('root', 'arg%d' % i) for i in range(3))
    D = ('fld', H, 'dir')
    nok = 0
    for o in inner(ctx, P):
        what = 'get_upward_range when %s' % cond(o, 120)
        if not ctx.ob(o.kind == 'ret', 'range:%s' % o.kind, '%s: %s' % (what, o.kind), L):
            continue
        eqs = [(k, v) for k, v in o.facts.items() if k[0] == 'eq' and FROM in k[1:]]
        if o.ok:
            v = o.value[3][0][1]
            if v == ('list', ()):
                ctx.ob(any(b is True and TO in k[1:] for k, b in eqs), 'range:empty', '%s: no versions although the two ends differ' % what, L)
                continue
            nok += 1
            ss = segs(v)
            if loopcur(v, ('list', ())) and len(v[3]) == 1:
                # collected in front, one at a time
                g, x = v[3][0]
                x = segs(x)
                if x[-1:] == (('all', ('self',)),):
                    ss = (('rpart', v[1], None, ((g, x[:-1]),)),)
            if not ctx.ob(len(ss) == 1 and ss[0][0] == 'rpart', 'range:order', '%s: the versions are %s, not those passed on the way back, oldest first' % (what, sh(v, 300)), L):
                continue
            W = ss[0][1]
            good = True
            for f, x in ss[0][3]:
                ok = len(x) == 1 and x[0][0] == 'one' and loopcur(x[0][1], TO) == (W, ('fld', ('fld', ('ver', D, ('self',)), 'previous'), 'Some.0'))
                good = ctx.ob(ok, 'range:step', '%s: a step adds %s, not the version it is on (starting at the target and following previous)' % (what, sh(x, 300)), L) and good
            if good:
                cur = ss[0][3][0][1][0][1]
                ctx.ob(any(b is True and loopcur(next((z for z in k[1:] if z != FROM), ('?',)), TO) for k, b in eqs),
                       'range:end', '%s: succeeds before the start version is reached' % what, L)
        else:
            e = o.value[3][0][1]
            kind = e[2] if e[0] == 'struct' else '?'
            if kind == 'Unreachable':
                ok = any(k[0] == 'is' and v == 'None' and k[1][0] == 'fld' and k[1][2] == 'previous' and k[1][1][0] == 'ver' for k, v in o.facts.items()) and all(v is False for k, v in eqs) and eqs
                ctx.ob(ok, 'range:unreachable', '%s: reported unreachable although the chain goes on' % what, L)
            elif kind == 'Cyclic':
                ok = any(k[0] == 'has' and v is True and k[1][0] == 'map' for k, v in o.facts.items())
                ctx.ob(ok, 'range:cyclic', '%s: reported cyclic although no version was seen twice' % what, L)
            else:
                ctx.ob(any(k[0] == 'is' and v == 'Err' for k, v in o.facts.items()), 'range:error', '%s: fails for no reason' % what, L)
    ctx.floor('outcomes that return a range', nok, 1)
    run_history(ctx)
    ctx.sample('range(from, to): cursor := to; until cursor == from: collect cursor, cursor := previous(cursor); reversed')


SKIPPERS = ('strip_suffix', 'is_dir', 'is_file', 'ends_with', 'extension', 'file_stem', 'is_some_and')


def run_history(ctx):
    P = 'history::fsh::FSHistory::from_dir'
    L = ctx.loc(P)
    H = ('root', 'arg0')
    outs = inner(ctx, P)
    nok, branched = 0, 0
    for o in outs:
        what = 'from_dir when %s' % cond(o, 120)
        if not ctx.ob(o.kind == 'ret', 'dir:%s' % o.kind, '%s: %s' % (what, o.kind), L):
            continue
        if not o.ok:
            e = o.value[3][0][1]
            kind = e[2] if e[0] == 'struct' else '?'
            dup = any(k[0] == 'has' and v is True for k, v in o.facts.items())
            if kind in ('Branched', 'Cyclic'):
                branched += kind == 'Branched'
                ctx.ob(dup, 'dir:%s' % kind, '%s: reports %s although nothing occurs twice' % (what, kind), L)
            else:
                ctx.ob(any(k[0] == 'is' and v == 'Err' for k, v in o.facts.items()), 'dir:error', '%s: fails for no reason' % what, L)
            continue
        nok += 1
        d = dict(o.value[3][0][1][3])
        ctx.ob(d.get('dir') == H, 'dir:dir', '%s: the history has directory %s' % (what, sh(d.get('dir', ('?',)))), L)
        m = d.get('next_map', ('?',))
        if not ctx.ob(m[0] == 'map' and len(m[1]) == 1 and m[1][0][0] == 'rep' and m[1][0][1] == ('dir', H), 'dir:entries',
                      '%s: the chain is built from %s, not from every entry of the directory' % (what, sh(m, 200)), L):
            continue
        e = m[1][0][2]
        linked = 0
        for f, x in m[1][0][3]:
            fd = dict(f)
            prev = [(k, v) for k, v in fd.items() if k[0] == 'is' and k[1][0] == 'fld' and k[1][2] == 'previous' and k[1][1][0] == 'ver' and k[1][1][1] == H]
            if not x:
                why = [k for k, v in fd.items() if skips(k, v, e)]
                ctx.ob(bool(why) or any(v == 'None' for k, v in prev), 'dir:skipped', '%s: a version file is left out when %s' % (what, fs(fd)[:200]), L)
                continue
            if not ctx.ob(len(x) == 1 and x[0][0] == 'ins' and len(prev) == 1 and prev[0][1] == 'Some', 'dir:link', '%s: a version adds %s' % (what, sh(x, 200)), L):
                continue
            V = prev[0][0][1][1]
            linked += 1
            ctx.ob(mentions(V[2], e) and verbatim(V[2]), 'dir:name', '%s: the file of %s is read for a directory entry' % (what, sh(V[2])), L)
            ctx.ob(x[0][1] == ('fld', ('fld', V, 'previous'), 'Some.0') and x[0][2] == V[2], 'dir:link', '%s: links %s to %s, not the previous version to the version' % (what, sh(x[0][1]), sh(x[0][2])), L)
            ctx.ob(any(k[0] == 'has' and v is False and k[3] == x[0][1] for k, v in fd.items() if len(k) == 4), 'dir:branch unnoticed', '%s: a second version after the same one replaces the first silently' % what, L)
        ctx.ob(linked > 0, 'dir:links', '%s: no version is linked' % what, L)
        # the current version is the one before the last of the chain
        c = d.get('current_version', ('?',))
        a = loopcur(c, INIT)
        b = loopcur(a[1], INIT) if a else None
        ctx.ob(b is not None and b[1] == ('lookup', m, ('by', ('#key',)), ('self',)), 'dir:current', '%s: the latest made version is %s, not the one the stage follows' % (what, sh(c, 200)), L)
        ctx.ob(any(k[0] == 'has' and v is False and k[1] == m for k, v in o.facts.items()), 'dir:end of chain', '%s: stops before the end of the chain' % what, L)
    ctx.floor('outcomes that build a history', nok, 1)
    ctx.ob(branched > 0, 'dir:branches', 'two versions after the same one are never reported', L)


VERBATIM = {'file_name', 'path', 'file_stem', 'strip_suffix', 'to_string_lossy', 'into_owned', 'to_str', 'to_owned', 'to_string', 'into_string', 'as_os_str', 'as_path', 'trim_end_matches',
            'as_str', 'as_ref', 'as_deref', 'borrow', 'deref', 'clone', 'into', 'from', 'unwrap_or_default', 'split_at', 'len', 'rsplit_once', 'display', 'with_extension', 'into_string', 'to_os_string', 'into_os_string'}


def verbatim(t):
    """a file name is taken apart but not otherwise changed"""
    if not isinstance(t, tuple):
        return True
    if t[:1] == ('op',) and t[1] == 'strip_suffix':
        return verbatim(t[2])
    if t[:1] == ('op',) or t[:1] == ('call',) and isinstance(t[1], str) and last(t[1]) not in VERBATIM:
        return False
    return all(verbatim(x) for x in t)


def mentions(t, e):
    return t == e or isinstance(t, tuple) and any(mentions(x, e) for x in t)


def skips(k, v, e):
    """a reason to leave out a directory entry: it is no .yaml file"""
    if not mentions(k, e):
        return False
    t = k[1] if k[0] == 'is' else k
    while t[0] == 'fld':
        t = t[1]
    if t[0] == 'strtest':
        return t[1] == 'ends_with' and v is False and t[3] == ('str', '.yaml')
    if t[0] != 'call':
        return k[0] == 'eq' and v is False and ('str', 'yaml') in k[1:]
    m = last(t[1])
    if m in ('is_dir', 'is_symlink'):
        return v is True
    if m == 'is_file':
        return v is False
    if m in ('strip_suffix', 'ends_with'):
        return v in ('None', False) and t[2][1] in (('str', '.yaml'),)
    if m == 'extension':
        return v == 'None'
    return False


# ---------------------------------------------------------------- C17: what each command may touch

def version_file(p, names=None):
    n = cmd.stem(p) if p[0] == 'pathjoin' else None
    return n is not None and (names is None or n in names)


def temp_of(p, directory):
    """a file of the directory that is no version"""
    return p[0] == 'pathjoin' and p[1] == directory and (p[2][0] == 'str' or p[2][0] == 'cat' and p[2][1][-1][0] == 'str') and cmd.stem(p) is None


def allowed(c):
    own = lambda names: (lambda p: p[0] == 'pathjoin' and p[1] == DIR and (version_file(p, names) or temp_of(p, DIR)))
    if c in ('stage', 'reset'):
        return own((STAGE,))
    if c == 'make':
        return lambda p: p[0] == 'pathjoin' and p[1] == DIR and (version_file(p, (STAGE,)) or temp_of(p, DIR) or version_file(p) and (has_call(p, '::now') or has_call(p, 'SystemTime::now')))
    if c == 'clone':
        return lambda p: p == ('pathjoin', DEFS, ('str', 'public.yaml'))
    if c == 'init':
        base = ('profile', ('str', 'database'))
        hist, defs = base + ('history',), base + ('definitions',)
        return lambda p: p == ('pathjoin', ('cwd',), ('str', '.podo.yaml')) or p in (hist, defs) or p == ('pathjoin', defs, ('str', 'public.yaml')) or \
            p[0] == 'pathjoin' and p[1] == hist and (version_file(p, (STAGE, INIT)) or temp_of(p, hist))
    return lambda p: False


WRITES = {'std::fs::write': (0,), 'std::fs::File::create': (0,), 'std::fs::rename': (0, 1), 'std::fs::create_dir_all': (0,), 'std::fs::create_dir': (0,), 'definition::save_snapshot': (0,)}
HANDLE = ('std::io::Write::write_all', 'std::io::Write::write', 'std::io::Write::flush', 'std::fs::File::sync_all', 'std::fs::File::sync_data')
DBREADERS = ('status', 'clone')
PURE = ('snapshot::diff::compare_diff', 'snapshot::changes::Change::apply', 'snapshot::changes::Change::revert', 'snapshot::changes::Change::render_sql')
FSREAD = ('project::discover_project', 'definition::load_snpashot', 'history::fsh::FSHistory::from_dir', 'history::fsh::FSHistory::get_upward_range')


def external(p):
    return cmd.EXTERNAL.match(p) is not None or p.startswith(('std::net::', 'std::thread::', 'std::os::', 'libc::'))


def console(t, which=('std::io::stdout', 'std::io::stderr')):
    """standard output or error, locked or buffered or not"""
    return isinstance(t, tuple) and (t[:1] == ('call',) and t[1] in which or any(console(x, which) for x in t))


def run_effects(ctx):
    n = 0
    for c in cmd.COMMANDS:
        may = allowed(c)
        L = loc(ctx, c)
        for o in cmd.command(ctx, c):
            what = '%s when %s' % (c, cond(o))
            for path, e in cmd.events(o.events):
                n += 1
                m = e[1]
                if m in READS or m in ('definition::load_snpashot',):
                    ctx.good()
                elif m == 'introspection::introspect':
                    ctx.ob(c == 'clone' and e[2][0] == TX, '%s:introspects' % c, '%s reads the catalog of %s' % (what, sh(e[2][0])), L)
                elif is_db(e):
                    s = statement(e)
                    if c in ('up', 'down'):
                        ctx.good()
                    elif c in DBREADERS:
                        ctx.ob(reads(s) or last(m) in ('connect', 'transaction'), '%s:database' % c, '%s: %s is sent to the database' % (what, last(m)), L)
                    else:
                        ctx.bad('%s:database' % c, '%s uses the database (%s)' % (what, last(m)), L)
                elif m.startswith('std::io::Write::') and e[2] and console(e[2][0]):
                    ctx.good()
                elif m in WRITES:
                    for i in WRITES[m]:
                        ctx.ob(may(e[2][i]), '%s:file:%s' % (c, last(m)), '%s: %s %s' % (what, last(m), sh(e[2][i], 200)), L)
                elif m in HANDLE:
                    ctx.ob(e[2][0][0] == 'newfile' and may(e[2][0][1]), '%s:file:%s' % (c, last(m)), '%s: %s to %s' % (what, last(m), sh(e[2][0], 200)), L)
                else:
                    ctx.bad('%s:effect:%s' % (c, last(m)), '%s: %s(%s)' % (what, m, ', '.join(sh(a, 80) for a in e[2])), L)
    ctx.floor('effects over all outcomes', n, 700)
    # helpers the commands share
    for p in PURE:
        loc_, ext = cmd.reach(ctx, ctx.fn(p))
        bad = sorted(x for x in ext if external(x) or x.startswith(('chrono::', 'std::time::', 'std::io::')))
        ctx.ob(not bad, 'pure:%s' % last(p), '%s reaches %s (from %s)' % (p, bad[:1], ext.get(bad[0]) if bad else ''), ctx.loc(p))
        ctx.functions.update(loc_)
    for p in FSREAD:
        loc_, ext = cmd.reach(ctx, ctx.fn(p))
        bad = sorted(x for x in ext if external(x) and x not in READS)
        ctx.ob(not bad, 'reads:%s' % last(p), '%s reaches %s (from %s)' % (p, bad[:1], ext.get(bad[0]) if bad else ''), ctx.loc(p))
        ctx.functions.update(loc_)
    loc_, ext = cmd.reach(ctx, ctx.fn('introspection::introspect'))
    bad = sorted(x for x in ext if external(x) and last(x) not in ('prepare', 'prepare_typed', 'query', 'query_one', 'query_opt', 'get', 'try_get', 'columns', 'len', 'is_empty'))
    ctx.ob(not bad, 'reads:introspect', 'introspect reaches %s (from %s)' % (bad[:1], ext.get(bad[0]) if bad else ''), ctx.loc('introspection::introspect'))
    loc_, ext = cmd.reach(ctx, ctx.fn('definition::save_snapshot'))
    bad = sorted(x for x in ext if external(x) and x not in WRITES and x not in HANDLE)
    ctx.ob(not bad, 'writes:save_snapshot', 'save_snapshot reaches %s (from %s)' % (bad[:1], ext.get(bad[0]) if bad else ''), ctx.loc('definition::save_snapshot'))
    P = 'definition::save_snapshot'
    for o in cmd.outcomes(ctx, ctx.fn(P), P, opaque=('definition::ddl::schema::render_schema_definition', 'definition::base::yaml::render_nodes_to_mapping')):
        d = Disk(o)
        for p in d.final():
            ctx.ob(p == ('root', 'arg0') or p[0] == 'cat' or p[0] == 'call' and mentions(p, ('root', 'arg0')), 'writes:save_snapshot path', 'save_snapshot writes %s' % sh(p), ctx.loc(P))


# ---------------------------------------------------------------- C24: version files are replaced atomically

class Prefix:
    """an outcome cut off after some of its effects"""

    def __init__(self, o, evs):
        self.facts, self.events = o.facts, evs


def run_atomic(ctx):
    n = 0
    dirs = {DIR, ('profile', ('str', 'database'), 'history')}
    for c in ('init', 'stage', 'make', 'reset', 'up', 'down', 'status', 'clone'):
        L = loc(ctx, c)
        for o in cmd.command(ctx, c):
            what = '%s when %s' % (c, cond(o))
            for i in range(1, len(o.events) + 1):
                s = o.events[i - 1]
                evs = [s[1]] if s[0] == 'one' else [e for _, e in cmd.events((s,))]
                if not any(e[1] in WRITES or e[1] in HANDLE for e in evs):
                    continue
                d = Disk(Prefix(o, o.events[:i]))
                for p in d.open:
                    if p[0] == 'pathjoin' and p[1] in dirs:
                        n += 1
                        ctx.ob(not loadable(p), '%s:in place' % c, '%s: %s is written in place: a crash or a failed write leaves a truncated version' % (what, sh(p)), L)
                for p, x, how, src in d.saved:
                    if p[0] == 'pathjoin' and p[1] in dirs:
                        n += 1
                        ctx.ob(x[0] == 'toyaml', '%s:incomplete' % c, '%s: %s is replaced by %s, not by a complete version' % (what, sh(p), sh(x)), L)
                        ctx.ob(how == 'renamed', '%s:unsynced' % c, '%s: %s is replaced (%s) before its new content is on disk' % (what, sh(p), how), L)
                        ctx.ob(src is None or src[0] == 'pathjoin' and src[1] == p[1], '%s:other directory' % c, '%s: %s is replaced by a file of another directory' % (what, sh(p)), L)
                for e in d.other:
                    if last(e[1]) in ('remove_file', 'remove_dir_all', 'remove_dir', 'set_len', 'copy', 'hard_link'):
                        ctx.bad('%s:%s' % (c, last(e[1])), '%s: %s(%s)' % (what, last(e[1]), sh(e[2])), L)
    ctx.floor('crash points with a file operation', n, 200)


def loadable(p):
    """would from_dir read this file as a version?"""
    x = p[2]
    t = x if x[0] == 'str' else x[1][-1] if x[0] == 'cat' else ('?',)
    return t[0] != 'str' or t[1].endswith('.yaml')


# ---------------------------------------------------------------- C25: init

def run_init(ctx):
    L = loc(ctx, 'init')
    base = ('profile', ('str', 'database'))
    HD, DD = base + ('history',), base + ('definitions',)
    disc = ('is', ('call', 'project::discover_project', (('cwd',),), 0))
    made = kept = 0
    for o in cmd.command(ctx, 'init'):
        what = 'init when %s' % cond(o)
        evs = [e for _, e in cmd.events(o.events) if e[1] not in READS]
        found = o.facts.get(disc)
        if found != 'Err':
            kept += o.ok and found == 'Ok'
            ctx.ob(not evs, 'init:existing project', '%s: %s although a project was found' % (what, last(evs[0][1]) if evs else ''), L)
            continue
        why = o.facts.get(('is', ('fld', disc[1], 'Err.0')))
        if why != 'ProjectNotFound':
            ctx.ob(not evs and not o.ok and o.kind == 'ret', 'init:unreadable project', '%s: the error of looking for a project is %s' % (what, 'ignored' if o.ok else 'not reported before writing'), L)
            continue
        if not o.ok:
            continue
        made += 1
        d = Disk(o)
        files = d.final()
        names = {'.podo.yaml': ('pathjoin', ('cwd',), ('str', '.podo.yaml')), 'history/init.yaml': ('pathjoin', HD, ('str', 'init.yaml')),
                 'history/stage.yaml': ('pathjoin', HD, ('str', 'stage.yaml')), 'definitions/public.yaml': ('pathjoin', DD, ('str', 'public.yaml'))}
        for n, p in names.items():
            ctx.ob(p in files, 'init:missing %s' % n, '%s: %s is not written' % (what, n), L)
        for x in (HD, DD):
            ctx.ob(x in d.dirs, 'init:directory %s' % x[2], '%s: the %s directory is not created' % (what, x[2]), L)
        if not all(p in files for p in names.values()):
            continue
        conf = files[names['.podo.yaml']]
        loaded = [k[1] for k in o.facts if k[0] == 'has' and k[1][0] == 'fld' and k[1][1][0] == 'loaded']
        ctx.ob(any(x[1] == ('loaded', ('cwd',), conf) for x in loaded), 'init:configuration', '%s: the directories are not those of the configuration that was written' % what, L)
        ok = conf[0] == 'toyaml' and conf[1][0] == 'struct' and dict(conf[1][3]).get('profiles', ('?',))[0] == 'map'
        keys = [x[1] for x in dict(conf[1][3])['profiles'][1] if x[0] == 'ins'] if ok else []
        ctx.ob(('str', 'database') in keys, 'init:profile', '%s: the configuration lacks the profile `database` that commands use by default' % what, L)
        i, s = fields(files[names['history/init.yaml']]), fields(files[names['history/stage.yaml']])
        ctx.ob(i.get('name') == INIT and opt(i.get('previous')) == (False, None), 'init:first version', '%s: the first version is %s after %s' % (what, sh(i.get('name', ('?',))), sh(i.get('previous', ('?',)))), L)
        ctx.ob(s.get('name') == STAGE and opt(s.get('previous')) == (True, INIT), 'init:stage', '%s: the stage is %s after %s' % (what, sh(s.get('name', ('?',))), sh(s.get('previous', ('?',)))), L)
        for f in LISTS:
            ctx.ob(s.get(f) == ('list', ()), 'init:stage %s' % f, '%s: the first stage has %s' % (what, f), L)
        check_first(ctx, what, i, files[names['definitions/public.yaml']], L)
        order = [p for p, *_ in d.saved]
        ctx.ob(all(order.index(names['history/init.yaml']) < order.index(names[k]) for k in ('history/stage.yaml',) if names[k] in order and names['history/init.yaml'] in order),
               'init:order', '%s: the stage is written before the version it follows' % what, L)
    ctx.floor('outcomes that create a project', made, 1)
    ctx.floor('outcomes that find a project', kept, 1)


def check_first(ctx, what, i, defs, L):
    """the first version creates the schemas its changes say, and the definitions describe them"""
    import sql
    ch = i.get('changes', ('?',))
    if not ctx.ob(ch[0] == 'list' and all(x[0] == 'one' and x[1][0] == 'struct' and x[1][2] == 'CreateSchemaChange' for x in ch[1]), 'init:first changes', '%s: the changes of the first version are %s' % (what, sh(ch)), L):
        return
    names = [dict(x[1][3][0][1][3])['schema_name'] for x in ch[1]]
    for f, kind, seq in (('up', 'create schema', names), ('down', 'drop schema', names[::-1])):
        got = [plain(x[1]) if x[0] == 'one' else None for x in segs(i.get(f, ('?',)))]
        ctx.ob(len(got) == len(seq) and all(g == kind.split() + [n[1]] for g, n in zip(got, seq)), 'init:first %s' % f,
               '%s: the %s statements of the first version (%s) do not match its changes' % (what, f, sh(i.get(f, ('?',)))), L)
    t = defs
    ok = t[0] == 'snapshot'
    t = t[1] if ok else t
    for x in reversed(ch[1]):
        ok = ok and t[0] == 'mut' and t[1] == 'snapshot::changes::Change::apply' and t[2][0] == x[1]
        t = t[2][1] if ok else t
    ok = ok and t[0] == 'struct' and all(v in (('map', ()), ('list', ())) for _, v in t[3])
    ctx.ob(ok, 'init:definitions', '%s: the definitions (%s) are not the state after the first version' % (what, sh(defs, 200)), L)


def plain(t):
    """the words of a constant statement, names unquoted"""
    import sql
    try:
        toks = sql.lex(t)
    except sql.SqlError:
        return None
    if toks and toks[-1] == ('p', ';'):
        toks = toks[:-1]
    out = []
    for i, x in enumerate(toks):
        if x[0] == 'w':
            out.append(x[1].lower())
        elif x[0] == 'id' and len(x[1]) == 1 and x[1][0][0] == 'txt':
            out.append(x[1][0][1])
        else:
            return None
    return out


# ---------------------------------------------------------------- C18: failures are reported

ALLOWED_PANICS = (('std::result::unwrap_failed', 'regex::Regex::new'), ('std::result::unwrap_failed', 'serde_yaml::to_string'))


def nested_facts(t, skip_part=True):
    """fact sets of the loop alternatives inside a value or an event log"""
    if isinstance(t, tuple):
        if len(t) > 3 and t[0] in ('rep', 'rrep', 'part', 'rpart') and isinstance(t[3], tuple):
            for alt in t[3]:
                if isinstance(alt, tuple) and alt and isinstance(alt[0], frozenset):
                    yield alt[0]
        for x in t:
            yield from nested_facts(x)


def infallible(m):
    return m in ('std::env::var', 'std::env::vars', 'std::env::var_os', 'std::fs::DirEntry::path', 'std::fs::DirEntry::file_name', 'std::fs::FileType::is_dir', 'std::fs::FileType::is_file')


def event_results(ss, facts):
    """(event, facts that hold where it happens)"""
    for s in ss:
        if s[0] == 'one' and s[1][0] == 'event':
            yield s[1], facts
        elif len(s) > 3:
            for f, x in s[3]:
                d = dict(facts)
                d.update(dict(f))
                yield from event_results(x, d)


def run_errors(ctx):
    n = 0
    todo = [(c, loc(ctx, c), cmd.command(ctx, c)) for c in cmd.COMMANDS]
    for p in ('history::fsh::FSHistory::from_dir', 'history::fsh::FSHistory::get_upward_range', 'project::discover_project'):
        todo.append((last(p), ctx.loc(p), inner(ctx, p)))
    for c, L, outs in todo:
        for o in outs:
            what = '%s when %s' % (c, cond(o))
            if o.kind == 'panic':
                msg = str(o.value)
                ok = any(a in msg and b in msg for a, b in ALLOWED_PANICS)
                ctx.ob(ok, '%s:panic' % c, '%s panics: %s' % (what, msg[:200]), L)
                continue
            if not ctx.ob(o.kind == 'ret', '%s:%s' % (c, o.kind), '%s ends by %s' % (what, o.kind), L) or not o.ok:
                continue
            sets = [dict(f) for f in nested_facts(o.events)] + [dict(f) for f in nested_facts(o.value)] + [o.facts]
            for d in sets:
                for k, v in d.items():
                    if k[0] == 'is' and v == 'Err' and k[1][0] in ('call', 'elem'):
                        n += 1
                        ctx.ob(tolerated(c, k[1], d), '%s:ignored:%s' % (c, last(k[1][1]) if isinstance(k[1][1], str) else 'entry'), '%s succeeds although %s failed' % (what, sh(k[1])), L)
            for e, d in event_results(o.events, o.facts):
                if infallible(e[1]) or d is not o.facts:
                    continue
                n += 1
                r = d.get(('is', ('call', e[1], e[2], e[3])))
                ctx.ob(r is not None or tolerated(c, ('call', e[1], e[2], e[3]), d), '%s:unchecked:%s' % (c, last(e[1])), '%s: the result of %s is not examined' % (what, last(e[1])), L)
    ctx.floor('results examined', n, 150)
    unused_results(ctx)


def tolerated(c, call, facts):
    if c == 'status' and isinstance(call[1], str) and (call[1].startswith('postgres::') or call[1] == 'serde_json::from_str'):
        return True        # the database version is shown, or why it cannot be
    if c == 'init' and call[1] == 'project::discover_project':
        return facts.get(('is', ('fld', call, 'Err.0'))) == 'ProjectNotFound'
    return False


DISCARD = ('ok', 'is_ok', 'is_err', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'map_or', 'map_or_else', 'err', 'iter', 'into_iter', 'is_ok_and', 'is_err_and', 'or', 'or_else', 'flatten')


def unused_results(ctx):
    """every Result of the program is looked at: none is dropped or stripped of its error"""
    prog = ctx.prog
    reached, _ = cmd.reach(ctx, ctx.fn('main'))
    n = 0
    for name in sorted(reached):
        try:
            f = prog.fns[prog.find(name)]
        except Exception:
            continue
        if f.get('derived') or not f.get('local', True):
            continue
        uses = {}
        calls = {}
        for b in f.get('blocks') or []:
            if not b:
                continue
            for s in b['s']:
                collect(s[1], uses, ('stmt',))
                if s[0] and s[0][1]:
                    uses.setdefault(s[0][0], []).append(('stmt',))
            t = b['t']
            if not t:
                continue
            if t['k'] == 'call':
                for why in strips_items(prog, f, t):
                    ctx.bad('stripped:%s:items' % name, '%s drops errors: %s' % (name, why), '%s (%s)' % (t['sp'], name))
                for i, a in enumerate(t['a']):
                    collect(a, uses, ('arg', t.get('f', {}).get('path', '?'), i, t))
                if isinstance(t.get('d'), list) and not t['d'][1] and is_result(prog, t['dty']):
                    calls[t['d'][0]] = t
            elif t['k'] not in ('drop', 'goto', 'ret', 'unreachable'):
                collect([v for k, v in t.items() if k not in ('sp',)], uses, ('term',))
        for l, t in calls.items():
            if l == 0:
                continue
            n += 1
            callee = t.get('f', {}).get('path', '?')
            us = uses.get(l, [])
            ctx.ob(bool(us), 'dropped:%s:%s' % (name, last(callee)), '%s drops the result of %s' % (name, callee), '%s (%s)' % (t['sp'], name))
            for u in us:
                if is_lookup(prog, prog.types[t['dty']]):
                    break
                if u[0] == 'arg' and u[1].startswith('std::result::Result') and last(u[1]) in DISCARD and prog.np(callee) != 'std::env::var' and \
                        not (last(u[1]) == 'or_else' and keeps_error(prog, f, u[3])):
                    ctx.bad('stripped:%s:%s' % (name, last(callee)), '%s strips the error of %s (%s)' % (name, callee, last(u[1])), '%s (%s)' % (t['sp'], name))
        for place, at in swallowed(prog, f):
            ctx.bad('swallowed:%s' % name, '%s goes on after a failure (the error of %s is not returned)' % (name, place), '%s (%s)' % (at, name))
        n += 1
    ctx.floor('calls that may fail', n, 250)


def is_lookup(prog, ty):
    """Result<&T, E>: Err says that the thing is not there, which is an answer"""
    a = [prog.types[x] for x in ty.get('args', []) if isinstance(x, int)]
    return bool(a) and a[0]['k'] == 'ref' and isinstance(a[0].get('inner'), int) and prog.types[a[0]['inner']]['k'] == 'adt'


def item_type(prog, ty):
    """type of the items of an iterator type, None if unknown"""
    if ty['k'] == 'ref' and 't' in ty:
        return item_type(prog, prog.types[ty['t']])
    if ty['k'] != 'adt':
        return None
    n, args = last(ty['path']), [prog.types[a] for a in ty.get('args', []) if isinstance(a, int)]
    if n in ('ReadDir', 'Lines') and ty['path'].startswith(('std::fs', 'std::io')):
        return {'k': 'adt', 'path': 'std::result::Result'}
    if n == 'Map' and len(args) > 1:
        c = args[1]
        if c['k'] in ('closure', 'fndef') and isinstance(c.get('fn'), int):
            g = prog.fns[c['fn']]
            return prog.types[g['locals'][0]] if g.get('locals') else None
        return None
    if n in ('IntoIter', 'Iter') and args:
        return args[0]
    if n in ('Rev', 'Skip', 'Take', 'Filter', 'Peekable', 'Chain', 'Cloned', 'Copied', 'StepBy', 'SkipWhile', 'TakeWhile', 'Inspect', 'Fuse') and args:
        return item_type(prog, args[0])
    return None


def strips_items(prog, f, t):
    """ways this call drops the errors among the items of an iterator"""
    m = t.get('f', {}).get('path', '')
    if m == 'std::iter::Iterator::flatten' and t.get('f', {}).get('targs'):
        it = item_type(prog, prog.types[t.get('f', {})['targs'][0]])
        if it and it.get('path') == 'std::result::Result':
            yield 'flatten over Results'
    if m.startswith('std::iter::'):
        for a in t['a']:
            ty = None
            if a[0] == 'k':
                ty = prog.types[a[1]]
            elif a[0] in ('c', 'm') and not a[1][1]:
                ty = prog.types[f['locals'][a[1][0]]]
            if not ty:
                continue
            if ty['k'] == 'fndef' and 'std::result::Result' in ty.get('s', '') and last(ty['s'].split('}')[0].rstrip('>')).split('<')[0] in DISCARD:
                yield '%s with %s' % (last(m), ty['s'])
            if ty['k'] == 'closure' and isinstance(ty.get('fn'), int):
                g = prog.fns[ty['fn']]
                for b in g.get('blocks') or []:
                    u = b and b['t']
                    if u and u['k'] == 'call' and u.get('f', {}).get('path', '').startswith('std::result::Result') and last(u.get('f', {})['path']) in DISCARD and u['a']:
                        x = u['a'][0]
                        if x[0] in ('c', 'm') and origin(g, x[1][0]) in range(2, g.get('argc', 3) + 1):
                            yield '%s with %s' % (last(m), last(u.get('f', {})['path']))


def origin(g, l):
    """the local a temporary was moved from"""
    for _ in range(8):
        src = [s[1] for b in g['blocks'] if b for s in b['s'] if s[0] == [l, []] and isinstance(s[1], dict)]
        if len(src) != 1 or src[0].get('k') != 'use' or src[0]['o'][0] not in ('c', 'm'):
            return l
        l = src[0]['o'][1][0]
    return l


def keeps_error(prog, f, t):
    """the closure of or_else only makes another error"""
    o = t['a'][1]
    ty = prog.types[f['locals'][o[1][0]]] if o[0] in ('c', 'm') else prog.types[o[1]]
    if ty['k'] != 'closure' or 'fn' not in ty:
        return False
    g = prog.fns[ty['fn']]
    return not any(s[1].get('k') == 'agg' and s[1].get('variant') == 'Ok' for b in g['blocks'] if b for s in b['s'] if isinstance(s[1], dict))


def makes_error(s):
    return s[0] == [0, []] and isinstance(s[1], dict) and s[1].get('k') == 'agg' and 'Err' in (s[1].get('variant'), s[1].get('vname'), s[1].get('v'))


SHOWS_ERROR = {'cmd::init::init': 'no project found: one is created (the outcomes of init are examined)', 'cmd::status::status': 'the database version is shown, or why it cannot be', 'main': 'the error is shown and the exit status set'}


def swallowed(prog, f):
    """match arms for Err from which the function can return without an error of its own"""
    bl = f['blocks']
    name = prog.np(f['path'])
    out = []
    for i, b in enumerate(bl):
        if not b or not b['t'] or b['t']['k'] != 'switch':
            continue
        d = [s for s in b['s'] if isinstance(s[1], dict) and s[1].get('k') == 'discr']
        if not d:
            continue
        pl = d[-1][1]['p']
        ty = prog.types[f['locals'][pl[0]]]
        while ty['k'] == 'ref':
            ty = prog.types[ty['t']] if 't' in ty else ty
            if 't' not in ty and ty['k'] == 'ref':
                break
        if pl[1] and pl[1] != [['d']] or not (ty['k'] == 'adt' and ty.get('path') == 'std::result::Result'):
            continue
        if any(isinstance(a, int) and prog.types[a].get('path') == 'std::env::VarError' for a in ty.get('args', [])):
            continue              # an undefined variable is no failure
        if is_lookup(prog, ty):
            continue
        ts = dict((k, v) for k, v in b['t']['ts'])
        err = ts.get(1, b['t'].get('else'))
        seen, todo = set(), [err]
        while todo:
            x = todo.pop()
            if x in seen or x is None or not bl[x]:
                continue
            seen.add(x)
            if any(makes_error(s) for s in bl[x]['s']):
                continue
            t = bl[x]['t']
            if t['k'] == 'ret':
                if name not in SHOWS_ERROR:
                    out.append((f['names'].get(str(pl[0]), '_%d' % pl[0]) if isinstance(f.get('names'), dict) else '_%d' % pl[0], b['t'].get('sp', '?')))
                break
            if t['k'] == 'call' and t.get('d') == [0, []] and last(t.get('f', {}).get('path', '')) == 'from_residual':
                continue
            if t['k'] == 'call' and t.get('f', {}).get('path', '').startswith('std::vec::Vec') and last(t.get('f', {})['path']) == 'push':
                continue          # collected, to be reported together (decided with the definitions)
            for k in ('t', 'else'):
                if isinstance(t.get(k), int):
                    todo.append(t[k])
            for k, v in t.get('ts', []):
                todo.append(v)
    return out


def is_result(prog, ty):
    t = prog.types[ty]
    return t['k'] == 'adt' and t.get('path') == 'std::result::Result'


def collect(x, uses, how):
    """locals mentioned by operands and places"""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            uses.setdefault(x[0], []).append(how)
            return
        for y in x:
            collect(y, uses, how)
    elif isinstance(x, dict):
        for y in x.values():
            collect(y, uses, how)


# ---------------------------------------------------------------- C19: project and profile

SETTINGS = ('database_url', 'history', 'definitions', 'metadata_schema')
ROLES = {'resolve_database_url': 'database_url', 'resolve_history_dir': 'history', 'resolve_definitions_dir': 'definitions', 'resolve_metadata_schema': 'metadata_schema'}


def run_profile(ctx):
    discover(ctx)
    load(ctx)
    resolve(ctx)
    expand(ctx)
    use(ctx)


def outs_of(ctx, path, opaque=()):
    return cmd.outcomes(ctx, ctx.fn(path), path, opaque=opaque)


def real(o):
    """not the impossible panic on the constant regular expression"""
    return not (o.kind == 'panic' and 'regex::Regex::new' in str(o.value))


EXISTS = ('std::path::Path::exists', 'std::path::Path::is_file')
CONFIG = ('str', '.podo.yaml')
ABOVE = ('call', 'std::path::Path::ancestors', (('root', 'arg0'),), 0)


def discover(ctx):
    P = 'project::discover_project'
    L = ctx.loc(P)
    kinds = {}
    step = ('mut', 'std::path::PathBuf::pop', (('self',),))
    for o in cmd.outcomes(ctx, ctx.fn(P), P + ' loading', opaque=('project::load_project_from_str',)):
        if not real(o):
            continue
        what = 'discover_project when %s' % cond(o, 160)
        if not ctx.ob(o.kind == 'ret', 'discover:%s' % o.kind, '%s: %s' % (what, o.kind), L):
            continue
        none = [k for k, v in o.facts.items() if k[0] == 'has' and v is False and k[1] == ABOVE]
        ex = [(k, v) for k, v in o.facts.items() if k[0] == 'call' and k[1] in EXISTS]
        if none and not ex:
            # no directory above has one
            pred = dict(none[0][2][1]) if none[0][2][0] == 'pred' else {}
            e = o.value[3][0][1] if not o.ok else ('?',)
            ctx.ob(len(pred) == 1 and all(k[0] == 'call' and k[1] in EXISTS and k[2] == (('pathjoin', ('it',), CONFIG),) and v is True for k, v in pred.items()), 'discover:looks', '%s: looks for %s' % (what, sh(none[0], 200)), L)
            ctx.ob(not o.ok and e[0] == 'struct' and e[2] == 'ProjectNotFound', 'discover:not found', '%s: no configuration in any directory, and no error' % what, L)
            kinds['none'] = True
            continue
        if not ctx.ob(len(ex) == 1, 'discover:looks', '%s: looks for the configuration %d times per directory' % (what, len(ex)), L):
            continue
        f = ex[0][0][2][0]
        ctx.ob(f[0] == 'pathjoin' and f[2] == CONFIG, 'discover:file', '%s: looks for %s' % (what, sh(f)), L)
        D = f[1] if f[0] == 'pathjoin' else ('?',)
        c = loopcur(D, ('root', 'arg0'))
        ctx.ob(c is not None and c[1] == step or D[:2] == ('elem', ABOVE), 'discover:directories', '%s: looks in %s, not in the current directory and then in its parents one by one' % (what, sh(D, 200)), L)
        text = ('text', f)
        if ex[0][1] is False:
            top = [v for k, v in o.facts.items() if k[0] == 'call' and k[1] == 'std::path::PathBuf::pop']
            e = o.value[3][0][1] if not o.ok else ('?',)
            ctx.ob(not o.ok and e[0] == 'struct' and e[2] == 'ProjectNotFound' and top == [False], 'discover:not found', '%s: gives up before the topmost directory' % what, L)
            kinds['none'] = True
        elif o.ok:
            v = o.value[3][0][1]
            ctx.ob(v == ('loaded', D, text), 'discover:loads', '%s: the project is %s, not the configuration that was found, based at its directory' % (what, sh(v, 200)), L)
            kinds['ok'] = True
        else:
            errs = [k[1] for k, w in o.facts.items() if k[0] == 'is' and w == 'Err' and k[1][0] == 'call']
            e = o.value[3][0][1]
            nf = e[0] == 'struct' and e[2] == 'ProjectNotFound'
            ctx.ob(len(errs) == 1 and not nf, 'discover:error', '%s: an unreadable configuration counts as no project' % what, L)
            for x in errs:
                kinds[last(x[1])] = True
    for k, n in (('none', 'no configuration anywhere'), ('ok', 'a configuration'), ('read_to_string', 'an unreadable configuration'), ('load_project_from_str', 'an invalid configuration')):
        ctx.ob(k in kinds, 'discover:case %s' % k, 'discover_project has no outcome for %s' % n, L)


def expanded(t, raw):
    """t is the text raw with its environment variables replaced"""
    return t == ('call', 'util::expand::expand_envvar', (raw,), 0)


def load(ctx):
    P = 'project::load_project_from_str'
    L = ctx.loc(P)
    nok = 0
    for o in outs_of(ctx, P, ('util::expand::expand_envvar',)):
        what = 'load_project_from_str when %s' % cond(o, 100)
        if not o.ok:
            ctx.ob(o.kind == 'ret' and any(k[0] == 'is' and v == 'Err' for k, v in o.facts.items()), 'load:error', '%s: fails for no reason' % what, L)
            continue
        nok += 1
        d = dict(o.value[3][0][1][3])
        ctx.ob(d.get('base_dir') == ('root', 'arg0'), 'load:base', '%s: the base directory is %s' % (what, sh(d.get('base_dir', ('?',)))), L)
        ps = segs(d.get('profiles', ('?',)))
        src = None
        if len(ps) == 1 and ps[0][0] == 'rep' and len(ps[0][3]) == 1:
            src, e, ((f, x),) = ps[0][1:4]
        ok = src is not None and src[0] == 'fld' and src[2] == 'profiles' and mentions(src, ('root', 'arg1')) and len(x) == 1 and x[0][0] == 'one' and x[0][1][0] == 'struct'
        if not ctx.ob(ok, 'load:profiles', '%s: the profiles are %s, not one for each profile of the configuration' % (what, sh(d.get('profiles', ('?',)), 200)), L):
            continue
        p = dict(x[0][1][3])
        ctx.ob(p.get('name') == ('fld', e, '#key'), 'load:name', '%s: a profile is named %s' % (what, sh(p.get('name', ('?',)))), L)
        for s in SETTINGS:
            v = p.get(s, ('?',))
            raw = ('fld', e, s)
            if s in ('history', 'definitions'):
                ok = v[0] == 'pathjoin' and v[1] == ('root', 'arg0') and expanded(v[2], raw)
            else:
                ok = expanded(v, raw)
            ctx.ob(ok, 'load:%s' % s, '%s: the %s of a profile is %s' % (what, s, sh(v, 200)), L)
    ctx.floor('outcomes that load a project', nok, 1)


def resolve(ctx):
    PR = ('root', 'arg0')
    for m, f in ROLES.items():
        P = 'project::Project::%s' % m
        L = ctx.loc(P)
        nok = 0
        for o in outs_of(ctx, P):
            what = '%s when %s' % (m, cond(o, 120))
            here = [(k, v) for k, v in o.facts.items() if k[0] == 'has']
            if o.ok:
                nok += 1
                v = o.value[3][0][1]
                lk = v[1] if v[0] == 'fld' else ('?',)
                ok = v[0] == 'fld' and v[2] == f and lk[0] == 'lookup' and lk[1] == ('fld', PR, 'profiles') and lk[2] == ('by', ('fld', ('it',), 'name')) and lk[3] == ('root', 'arg1')
                ctx.ob(ok, 'resolve:%s' % m, '%s: returns %s, not the %s of the profile of that name' % (what, sh(v), f), L)
            else:
                e = o.value[3][0][1] if o.kind == 'ret' else ('?',)
                ctx.ob(o.kind == 'ret' and e[0] == 'struct' and e[2] == 'ProfileNotFound' and (not here or any(v is False for k, v in here)), 'resolve:%s not found' % m, '%s: %s' % (what, sh(e)), L)
        ctx.floor('outcomes of %s that find the profile' % m, nok, 1)


def expand(ctx):
    P = 'util::expand::expand_envvar'
    L = ctx.loc(P)
    n = 0
    for o in outs_of(ctx, P):
        if not real(o):
            continue
        v = o.value
        rx = v[2] if v[0] == 'call' and v[1] == 'regex::Regex::replace_all' else None
        ok = rx is not None and rx[1] == ('root', 'arg0') and rx[0][0] == 'fld' and rx[0][1][0] == 'call' and rx[0][1][1] == 'regex::Regex::new' and rx[0][1][2][0][0] == 'str'
        if not ctx.ob(ok, 'expand:replaces', 'expand_envvar returns %s, not the text with every reference replaced' % sh(v, 200), L):
            continue
        ctx.ob(rx[0][1][2][0][1].replace('(?P<name>', '(') in (r'\$(\w+|\{\w+\})', r'\$(\{\w+\}|\w+)'), 'expand:reference', 'references are recognised by %s, not as $NAME or ${NAME}' % rx[0][1][2][0][1], L)
        n += 1
        c = rx[2]
        if ctx.ob(c[0] == 'closure', 'expand:value', 'references are replaced by %s' % sh(c), L):
            eng = ctx.engine(max_steps=100000)
            from engine import St
            st = St()
            r = cmd.Rename()
            for s, k, x in eng.invoke(st, c, [('root', 'caps')]):
                if k == 'panic' and any(q[0] == 'inbounds' and q[2] == ('int', 1) and v is False for q, v in s.facts.items()):
                    continue        # the first group takes part in every match
                x = r(eng.deep(s, x)) if k == 'ret' else x
                var = [q for q in s.facts if q[0] == 'is' and mentions(q, ('root', 'caps'))]
                good = False
                if k == 'ret' and len(var) == 1 and var[0][1][0] == 'call' and var[0][1][1] == 'std::env::var':
                    want = ('fld', var[0][1], 'Ok.0') if s.facts[var[0]] == 'Ok' else ('str', '')
                    good = x == want and named(ctx, var[0][1][2][0])
                ctx.ob(good, 'expand:variable', 'a reference is replaced by %s' % (sh(x, 200) if k == 'ret' else k), L)
            ctx.saw(eng, 2)
    ctx.floor('expansions', n, 1)


def braces(ctx, p):
    """the pattern matches nothing but braces"""
    if p[0] == 'str':
        return p[1] in ('{', '}')
    if p[0] in ('int', 'char'):
        return p[1] in ('{', '}', 123, 125)
    if p[0] in ('array', 'list'):
        return all(braces(ctx, x[1] if x[0] == 'one' else x) for x in p[1])
    if p[0] == 'ref':
        return braces(ctx, p[1])
    if p[0] == 'closure':
        eng = ctx.engine(max_steps=20000)
        from engine import St
        outs = list(eng.invoke(St(), p, [('root', 'c')]))
        for s, k, x in outs:
            if k != 'ret':
                return False
            x = eng.deep(s, x)
            hit = any(v is True and q[0] == 'eq' and ('root', 'c') in q[1:] and any(y in BRACE for y in q[1:]) for q, v in s.facts.items())
            if x == ('bool', True) and not hit or x[0] not in ('bool', 'eq'):
                return False
            if x[0] == 'eq' and not (('root', 'c') in x[1:] and any(y in BRACE for y in x[1:])):
                return False
        return bool(outs)
    return False


BRACE = (('char', '{'), ('char', '}'), ('int', 123), ('int', 125), ('str', '{'), ('str', '}'))


def named(ctx, t):
    """the name inside a reference: the captured text without its braces"""
    while t[0] == 'call' and last(t[1]) in ('trim_matches', 'trim_start_matches', 'trim_end_matches'):
        if not braces(ctx, t[2][1]):
            return False
        t = t[2][0]
    if any(has_call(t, x) for x in ('to_lowercase', 'to_uppercase', 'trim', 'replace', 'to_ascii_lowercase', 'to_ascii_uppercase')):
        return False
    return mentions(t, ('root', 'caps')) and mentions(t, ('int', 1)) or mentions(t, ('str', 'name'))


def use(ctx):
    """every command works on the project found from the current directory and the profile it was given"""
    n = 0
    for c in cmd.COMMANDS:
        if c == 'init':
            continue
        L = loc(ctx, c)
        for o in cmd.command(ctx, c):
            what = '%s when %s' % (c, cond(o))
            for k, v in o.facts.items():
                if k[0] == 'has' and k[1][0] == 'fld' and k[1][2] == 'profiles':
                    n += 1
                    ctx.ob(k[1][1] == ('project', ('cwd',)) and k[3] == ('root', 'arg0'), '%s:profile' % c, '%s: uses the profile %s of %s' % (what, sh(k[3]), sh(k[1][1])), L)
            if o.ok:
                ctx.ob(any(k[0] == 'has' and v is True and k[3] == ('root', 'arg0') for k, v in o.facts.items() if len(k) == 4), '%s:unknown profile' % c, '%s: succeeds without the profile' % what, L)
    ctx.floor('profile lookups', n, 100)
