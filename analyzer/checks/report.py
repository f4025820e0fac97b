"""C29: what the commands show.

The summaries of the commands with the console as one more effect: every line shown is a text of constant pieces and
holes, and every hole is a term over what was read, recorded, sent or written. They are compared with the effects of the same outcome."""
import re
from checks import cmd, hist
from checks.hist import DIR, DEFS, STAGE, sh, loc, statement, mentions, is_snap, cond, fields, saves, one_call, up_range, is_db, last

SQLOF = 'snapshot::changes::Change::render_sql'
NONE_LEFT = re.compile(r'\b(no changes|no migrations|no versions|nothing|up to date|up-to-date)\b', re.I)
NOT_STAGED = re.compile(r'\b(not( yet)? staged|unstaged)\b', re.I)
STAGED = re.compile(r'\bstaged\b', re.I)


def outs(ctx, c):
    return cmd.outcomes(ctx, cmd.cmd_fn(ctx, c), 'shown:' + c, printed=True)


def tree(ss):
    """('text', parts) | ('run', statement) | (kind, source, element, [(facts, tree)])"""
    out = []
    for s in ss:
        if s[0] == 'one':
            e = s[1]
            if e[0] != 'event':
                continue
            if e[1] == 'print':
                out += text(e[2][0])
            elif e[1].startswith('std::io::Write::write') and len(e[2]) > 1 and hist.console(e[2][0], ('std::io::stdout',)):
                out += text(hist.content(e[2][1]))
            elif is_db(e) and last(e[1]) in cmd.SEND:
                st = statement(e)
                if st[0] == 'run':
                    out.append(('run', st[1]))
        elif len(s) > 3:
            alts = [(f, tree(x)) for f, x in s[3]]
            if any(x for _, x in alts):
                out.append((s[0], s[1], s[2], alts))
    return out


def text(t):
    parts = t[1] if t[0] == 'cat' else (t,)
    out, cur = [], []
    for p in parts:
        if p[0] == 'join' and p[1][0] == 'list':
            if cur:
                out.append(('text', cur))
                cur = []
            for s in p[1][1]:
                if s[0] == 'one':
                    out.append(('text', [s[1]]))
                elif s[0] == 'all':
                    out.append(('rep', s[1], ('elem', s[1], 0), [(frozenset(), [('text', [('elem', s[1], 0)])])]))
                elif len(s) > 3:
                    out.append((s[0], s[1], s[2], [(f, [n for x in y if x[0] == 'one' for n in text(x[1])]) for f, y in s[3]]))
        else:
            cur.append(p)
    if cur:
        out.append(('text', cur))
    return out


def holes(nodes):
    """what is shown at this level, without the loops inside"""
    return [p for n in nodes if n[0] == 'text' for p in n[1] if p[0] != 'str']


def words(nodes):
    return ''.join(p[1] if p[0] == 'str' else '\0' for n in nodes if n[0] == 'text' for p in n[1])


def constants(nodes):
    """lines that are the same whatever was found"""
    return [l.strip() for l in words(nodes).split('\n') if l.strip() and '\0' not in l]


def loops(nodes):
    return [n for n in nodes if n[0] not in ('text', 'run')]


def all_words(nodes):
    out = constants(nodes)
    for n in loops(nodes):
        for _, x in n[3]:
            out += all_words(x)
    return out


def all_holes(nodes):
    out = holes(nodes)
    for n in loops(nodes):
        for _, x in n[3]:
            out += all_holes(x)
    return out


def shows_sql(ctx, key, what, n, L, lists=()):
    """every element of the loop is shown by its SQL, once"""
    ok = ctx.ob(n[0] == 'rep', key + ':order', '%s does not show %s in order' % (what, sh(n[1], 80)), L)
    for f, x in n[3]:
        h = all_holes(x)
        mine = [t for t in h if t == n[2] and n[1] in lists or one_call(t, SQLOF, (n[2],))]
        ok &= ctx.ob(len(mine) == 1, key + ':sql', '%s shows the SQL of a change %d times (%s)' % (what, len(mine), [sh(t, 80) for t in h]), L)
        # what else is shown of it belongs to it
        ok &= ctx.ob(all(mentions(t, n[2]) for t in h), key + ':other', '%s shows with a change what is not of it: %s' % (what, [sh(t, 80) for t in h if not mentions(t, n[2])]), L)
    return ok


def known_empty(o, x):
    return any(k[0] == 'empty' and k[1] == x and v is True for k, v in o.facts.items())


def known_some(o, x):
    return any(k[0] == 'empty' and k[1] == x and v is False for k, v in o.facts.items())


def comparison(t):
    """the comparison of the staged state with the definitions"""
    return isinstance(t, tuple) and len(t) > 2 and t[0] == 'call' and t[1] == 'snapshot::diff::compare_diff' and t[2][1] == ('defined', DEFS) and is_snap(t[2][0]) is None


def run(ctx):
    run_status(ctx)
    run_stage(ctx)
    run_migrate(ctx)
    run_make(ctx)
    for c in ('status', 'stage', 'up', 'down', 'make'):
        ctx.sample('%s: %d outcomes with what they show' % (c, len(outs(ctx, c))))


def run_status(ctx):
    L = loc(ctx, 'status')
    staged = ('fld', ('ver', DIR, STAGE), 'changes')
    twin = ('fld', ('ver', DIR, STAGE), 'up')
    cases, whole = {}, {}
    n = 0
    for o in outs(ctx, 'status'):
        if not o.ok:
            continue
        n += 1
        what = 'status when %s' % cond(o)
        t = tree(o.events)
        # the version of the database, or why it cannot be told
        h = all_holes(t)
        name = any(x[0] == 'col' and hist.current(x[1]) and x[2] == 'name' for x in h)
        lost = [k[1] for k, v in o.facts.items() if k[0] == 'is' and v == 'Err' and k[1][0] == 'call']
        reason = any(x[0] == 'struct' and x[1].endswith('Error') or any(mentions(x, ('fld', c, 'Err.0')) for c in lost) for x in h)
        unset = any(k[0] == 'exists' and v is False for k, v in o.facts.items())
        if not lost and not unset:
            ctx.ob(name, 'status:version', '%s does not show the version the database is at' % what, L)
        else:
            ctx.ob(name or reason, 'status:reason', '%s shows neither the version of the database nor why it cannot be told' % what, L)
        # both lists
        comp = {k[1] for k in o.facts if k[0] == 'empty' and comparison(k[1])} | {x[1] for x in loops(t) if comparison(x[1])}
        seen, heads, before = {}, {}, []
        for x in t:
            if x[0] == 'text':
                before.append(x)
                continue
            if x[0] == 'run':
                continue
            which = 'staged' if x[1] in (staged, twin) else 'unstaged' if comparison(x[1]) else None
            if not ctx.ob(which is not None, 'status:shows', '%s shows %s, which is neither the staged changes nor those from the staged state to the definitions' % (what, sh(x[1], 300)), L):
                continue
            seen[which] = seen.get(which, 0) + 1
            shows_sql(ctx, 'status:' + which, what, x, L, (twin,))
            heads[which] = constants(before)
            before = []
        for which, srcs, label in (('staged', (staged, twin), 'the staged changes'), ('unstaged', tuple(comp), 'the changes that are not staged')):
            if any(known_empty(o, s) for s in srcs):
                continue
            ctx.ob(seen.get(which, 0) == 1, 'status:%s:shown' % which, '%s shows %s %d times' % (what, label, seen.get(which, 0)), L)
        if 'staged' in seen and 'unstaged' in seen:
            ctx.ob(bool(heads['staged']) and bool(heads['unstaged']) and heads['staged'] != heads['unstaged'], 'status:headings', '%s does not tell the staged changes from the others' % what, L)
        ctx.ob(not any(NOT_STAGED.search(w) for w in heads.get('staged', ())), 'status:heading of staged', '%s shows the staged changes under %s' % (what, heads.get('staged')), L)
        ctx.ob(not any(STAGED.search(w) and not NOT_STAGED.search(w) for w in heads.get('unstaged', ())), 'status:heading of unstaged', '%s shows the changes that are not staged under %s' % (what, heads.get('unstaged')), L)
        # what is said in words
        s = True if known_some(o, staged) or known_some(o, twin) else False if known_empty(o, staged) or known_empty(o, twin) else None
        u = True if any(known_some(o, x) for x in comp) else False if any(known_empty(o, x) for x in comp) else None
        if None not in (s, u):
            for w in set(all_words(t)):
                cases.setdefault(w, {}).setdefault((s, u), 0)
                cases[w][(s, u)] += 1
            whole[(s, u)] = whole.get((s, u), 0) + 1
    both = [(True, True), (True, False), (False, True), (False, False)]
    if len(whole) == 4:
        said = False
        for w, by in sorted(cases.items()):
            if any(by.get(c, 0) not in (0, whole[c]) for c in both):
                continue            # depends on something else
            at = frozenset(c for c in both if by.get(c))
            if NONE_LEFT.search(w):
                ctx.ob(at <= {(False, False)} or STAGED.search(w) is not None, 'status:nothing', 'status says "%s" when there are changes' % w, L)
                said |= (False, False) in at
            if NOT_STAGED.search(w) and not NONE_LEFT.search(w):
                ctx.ob(all(u for _, u in at), 'status:heading without changes', 'status says "%s" when every change is staged' % w, L)
            elif STAGED.search(w) and not NONE_LEFT.search(w):
                ctx.ob(all(s for s, _ in at), 'status:heading without changes', 'status says "%s" when no change is staged' % w, L)
            if at == {(False, False)}:
                said = True
        ctx.ob(said, 'status:silent', 'status says nothing when there is no change, staged or not', L)
    ctx.floor('outcomes of status', n, 8)


def run_stage(ctx):
    L = loc(ctx, 'stage')
    n = 0
    for o in outs(ctx, 'stage'):
        if not o.ok:
            continue
        what = 'stage when %s' % cond(o)
        t = tree(o.events)
        comp = {k[1] for k in o.facts if k[0] == 'empty' and comparison(k[1])}
        got = []
        for x in loops(t):
            if ctx.ob(comparison(x[1]), 'stage:shows', '%s shows %s, which are not the changes it stages' % (what, sh(x[1], 300)), L):
                got.append(x)
                shows_sql(ctx, 'stage', what, x, L)
        if not any(known_empty(o, x) for x in comp):
            n += 1
            ctx.ob(len(got) == 1, 'stage:shown', '%s shows the changes it stages %d times' % (what, len(got)), L)
            bad = [w for w in all_words(t) if NONE_LEFT.search(w)]
            ctx.ob(not bad, 'stage:nothing', '%s says %s although changes are staged' % (what, bad), L)
    ctx.floor('outcomes of stage that show changes', n, 1)


def run_migrate(ctx):
    for c in ('up', 'down'):
        L = loc(ctx, c)
        n = 0
        for o in outs(ctx, c):
            if not o.ok:
                continue
            what = '%s when %s' % (c, cond(o))
            t = tree(o.events)
            top = holes(t)
            now = any(x[0] == 'col' and hist.current(x[1]) and x[2] == 'name' for x in top)
            ctx.ob(now, c + ':version', '%s does not show the version the database is at' % what, L)
            if not ran(t):
                ctx.ob(not loops(t), c + ':shows', '%s shows %s although nothing is run' % (what, [sh(x[1], 80) for x in loops(t)]), L)
                continue
            n += 1
            to = target(o, c)
            ctx.ob(to is None or to in top, c + ':target', '%s does not show the version it leads to' % what, L)
            bad = [w for w in all_words(t) if NONE_LEFT.search(w)]
            ctx.ob(not bad, c + ':nothing', '%s says %s although statements are run' % (what, bad), L)
            level(ctx, c, what, t, L, False)
        ctx.floor('outcomes of %s that run statements' % c, n, 2)


def target(o, c):
    if c == 'up':
        return up_range(o)
    arg = dict((k[1], v) for k, v in o.facts.items() if k[0] == 'is').get(('root', 'arg1'))
    if arg == 'Some':
        return ('fld', ('root', 'arg1'), 'Some.0')
    for k in o.facts:
        if k[0] == 'is' and k[1][0] == 'col' and hist.current(k[1][1]) and k[1][2] == 'previous':
            return ('fld', k[1], 'Some.0')
    return None


def ran(nodes):
    return any(n[0] == 'run' or n[0] != 'text' and any(ran(x) for _, x in n[3]) for n in nodes)


def statements_of(x):
    return x[0] in ('fld', 'col') and x[2] in ('up', 'down')


def level(ctx, c, what, nodes, L, inside):
    """at every level: the statements run are the statements shown"""
    run_, show = {}, {}
    for n in loops(nodes):
        for f, x in n[3]:
            h = [y for y in holes(x) if mentions(y, n[2])]
            if any(y[0] == 'run' for y in x):
                run_[n[1]] = n[0]
            if not statements_of(n[1]) and ran(x):
                ctx.ob(bool(h), c + ':name', '%s does not show which version a statement belongs to' % what, L)
            level(ctx, c, what, x, L, True)
        if statements_of(n[1]) and any(holes(x) for f, x in n[3]):
            show.setdefault(n[1], []).append((n[0], [holes(x) for f, x in n[3]], n[2]))
    for src, kind in run_.items():
        got = show.get(src, [])
        ctx.ob(len(got) == 1, c + ':statement', '%s shows the statements it runs (%s) %d times' % (what, sh(src, 120), len(got)), L)
        for k, hs, e in got:
            for h in hs:
                ctx.ob(h == [e] and k == kind, c + ':text', '%s shows a statement as %s' % (what, [sh(y, 120) for y in h]), L)
    for src in show:
        ctx.ob(src in run_, c + ':not run', '%s shows statements it does not run (%s)' % (what, sh(src, 160)), L)


def run_make(ctx):
    L = loc(ctx, 'make')
    n = 0
    for o in outs(ctx, 'make'):
        what = 'make when %s' % cond(o)
        t = tree(o.events)
        d, vs = saves(ctx, 'make', o, what)
        said = all_holes(t)
        if o.ok and vs:
            n += 1
            N = fields(vs[0][1]).get('name')
            ctx.ob(N in said or N[0] == 'cat' and has_pieces(t, N), 'make:name', '%s does not show the name of the version it makes' % what, L)
            bad = [w for w in all_words(t) if NONE_LEFT.search(w)]
            ctx.ob(not bad, 'make:nothing', '%s says %s although a version is made' % (what, bad), L)
        elif not o.ok and o.kind == 'ret' and not (vs and vs[0][0] != STAGE):
            ctx.ob(not said and not words(t).replace('\0', ''), 'make:said too early', '%s has said that it made a version: %s' % (what, words(t).replace('\0', '<version>').strip()), L)
    ctx.floor('outcomes of make that make a version', n, 1)
    L = loc(ctx, 'init')
    for o in outs(ctx, 'init'):
        t = tree(o.events)
        if o.ok and any(k == ('is', ('call', 'project::discover_project', (('cwd',),), 0)) and v == 'Ok' for k, v in o.facts.items()):
            ctx.ob(any(x[0] == 'fld' and x[2] == 'base_dir' for x in all_holes(t)), 'init:where', 'init does not show where the project is that is already there', L)


def has_pieces(t, N):
    """the name is shown as part of a longer text"""
    ids = {}

    def flat(ps):
        return ''.join(p[1] if p[0] == 'str' else chr(0xE000 + ids.setdefault(p, len(ids))) for p in ps)
    want = flat(N[1])
    return any(want in flat(n[1]) for n in t if n[0] == 'text')
