"""C10: the command line runs the command that was named.

The part of main after the arguments are parsed is analysed abstractly (the
commands themselves are opaque); the part that declares the arguments is a
flow of clap builders, followed over MIR."""
import re
from checks import cmd
from engine import *
from pp import short, fs
from interp import *

GET = 'clap::Command::get_matches'
SUB = 'clap::ArgMatches::subcommand'
ONE = 'clap::ArgMatches::get_one'
WITH_PROFILE = ('status', 'stage', 'reset', 'make', 'up', 'down', 'clone')
WITH_VERSION = ('make', 'up', 'down')
# what every documented command takes
TAKES = {'init': (), 'status': ('profile',), 'stage': ('profile',), 'reset': ('profile',), 'clone': ('profile',), 'sync': ('profile',),
         'make': ('profile', 'version'), 'up': ('profile', 'version'), 'down': ('profile', 'version')}


def base(p):
    return re.sub(r'::<[^:]*>', '', p)


def dispatch(ctx):
    """[(facts, kind, value, events)] of main once the arguments are parsed"""
    prog = ctx.prog
    fid = ctx.fn('main')
    reached, _ = cmd.reach(ctx, fid)
    holders = [prog.fns[prog.find(n)] for n in sorted(reached) if has_fn(prog, n) and any(b and b['t'] and b['t']['k'] == 'call' and base(b['t'].get('f', {}).get('path', '')) == GET for b in prog.fns[prog.find(n)].get('blocks') or [])]
    if len(holders) != 1:
        raise AnalysisError('the arguments are parsed in %d places' % len(holders))
    h = holders[0]
    commands = [prog.np(f['path']) for f in prog.fns if re.match(r'^cmd::(\w+)::\1$', prog.np(f['path']))]
    stop = set(commands) | ({prog.np(h['path'])} if prog.np(h['path']) != 'main' else set())
    eng = ctx.engine(effects=lambda p: p in commands or cmd.EXTERNAL.match(p) is not None, log_print=True, opaque_fns=stop, max_steps=400000)
    if prog.np(h['path']) != 'main':
        outs = eng.call_fn(St(), fid, [])
    else:
        t = [b['t'] for b in h['blocks'] if b and b['t'] and b['t']['k'] == 'call' and base(b['t'].get('f', {}).get('path', '')) == GET][0]
        fn = eng.p.fn(fid)
        st = St()
        d = st.push()
        st.setl(d, t['d'][0], ('root', 'matches'))
        eng.stack.append((fid, None))
        outs, _ = eng.run(fn, d, [(t['t'], st)], frozenset())
        eng.stack.pop()
        eng.fns_seen.add(fid)
    ctx.saw(eng, len(outs))
    res = []
    for s, k, v in outs:
        ev = eng.deep(s, s.glob.get(('ev',), ('list', ())))
        res.append((dict(s.facts), k, eng.deep(s, v) if k in ('ret', 'exit') else v, list(cmd.events(ev[1]))))
    return commands, res


def has_fn(prog, n):
    try:
        return bool(prog.fns[prog.find(n)].get('blocks'))
    except Exception:
        return False


def named(facts):
    """(subcommand name or None, the call that gave it) of a path"""
    for a, v in facts.items():
        if a[0] == 'eq' and v is True:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] == 'str' and x[0] == 'fld' and x[2] == '0' and x[1][0] == 'fld' and x[1][2] == 'Some.0' and x[1][1][0] == 'call' and base(x[1][1][1]) == SUB:
                    return y[1], x[1]
    return None, None


def argument(v, pay):
    """'profile' if v is what was given for --profile to the chosen subcommand"""
    opt = False
    for _ in range(6):
        if v[0] == 'fld' and v[2] == 'Some.0':
            v, opt = v[1], False
        elif v[0] == 'struct' and v[2] == 'Some':
            v = v[3][0][1]
        elif v[0] == 'call' and base(v[1]).rsplit('::', 1)[-1] in ('as_str', 'as_ref', 'as_deref', 'map', 'clone', 'cloned', 'to_string', 'as_deref'):
            v = v[2][0]
        else:
            break
    if v[0] == 'call' and base(v[1]) == ONE and v[2][1][0] == 'str' and v[2][0] == ('fld', pay, '1'):
        return v[2][1][1], v
    return None, None


def run_cli(ctx):
    prog = ctx.prog
    commands, outs = dispatch(ctx)
    known = {c.split('::')[1] for c in commands}
    seen = {}
    at = ctx.loc('main')
    for facts, k, v, ev in outs:
        name, pay = named(facts)
        called = [e for pre, e in ev if e[1] in commands]
        said = [e for pre, e in ev if e[1] not in commands]
        if name is None:
            ctx.ob(not called, 'default:runs', 'without a known command, %s is run' % [e[1] for e in called], at)
            continue
        fail = k == 'panic' and not called
        if fail:
            # a missing value: the declarations decide whether it can happen
            seen.setdefault(name, [])
            continue
        ok = len(called) == 1 and called[0][1].split('::')[1] == name
        ctx.ob(ok, 'runs:%s' % name, '`%s` runs %s' % (name, [e[1] for e in called] or 'nothing'), at)
        seen.setdefault(name, []).append(called[0][1] if called else None)
        if not ok:
            continue
        e = called[0]
        want = TAKES.get(name, ())
        if not ctx.ob(len(e[2]) == len(want), 'args:%s' % name, '`%s` passes %d arguments' % (name, len(e[2])), at):
            continue
        for w, a in zip(want, e[2]):
            if w == 'profile':
                got, _ = argument(a, pay)
                ctx.ob(got == 'profile', 'profile:%s' % name, '`%s` does not get the value of --profile (but %s)' % (name, short(a)[:120]), at)
            else:
                src = a
                none = a[0] == 'struct' and a[2] == 'None'
                if none:
                    one = [x for x, val in facts.items() if x[0] == 'is' and val == 'None' and argument(x[1], pay)[0] == 'version']
                    ctx.ob(bool(one), 'version:%s' % name, '`%s` gets no version although one may be given' % name, at)
                else:
                    got, _ = argument(a, pay)
                    ctx.ob(got == 'version', 'version:%s' % name, '`%s` does not get the value of --version (but %s)' % (name, short(a)[:120]), at)
        call = ('call', e[1], e[2], e[3])
        r = facts.get(('is', call))
        if r == 'Err' or (r is None and k == 'ret' and v == call):
            ctx.ob(k == 'exit' and v[0] == 'int' and v[1] != 0, 'status:%s' % name, '`%s` fails but the exit status is not an error (%s)' % (name, k + ' ' + short(v)[:40]), at)
            msg = [x for x in said if (x[1] == 'eprint' or 'stderr' in str(x[2])) and any(mentions(y, ('fld', call, 'Err.0')) for y in x[2])]
            ctx.ob(bool(msg), 'message:%s' % name, '`%s` fails and the error is not shown on standard error' % name, at)
        elif r == 'Ok':
            ctx.ob(k == 'ret' or k == 'exit' and v == ('int', 0), 'success:%s' % name, '`%s` succeeds but the exit status is an error (%s)' % (name, k), at)
        else:
            ctx.ob(False, 'result:%s' % name, 'the result of `%s` is not looked at' % name, at)
        ctx.sample('%s -> %s(%s) %s' % (name, e[1], ', '.join(want), r))
    for name in TAKES:
        ctx.ob(any(seen.get(name, [])), 'missing:%s' % name, '`%s` runs no command' % name, at)
    ctx.floor('commands', len([n for n in seen if any(seen[n])]), 9)
    subs, required = declared(ctx)
    bare = [v for facts, k, v, ev in outs if k == 'panic' and any(a[0] == 'is' and v2 == 'None' and a[1][0] == 'call' and base(a[1][1]) == SUB for a, v2 in facts.items())]
    ctx.ob(required or not bare, 'none', 'running podo without a command panics', at)
    for name in sorted(subs):
        ctx.ob(any(seen.get(name, [])), 'undispatched:%s' % name, 'the command `%s` is offered but running it panics' % name, at)
    for name, want in TAKES.items():
        if not ctx.ob(name in subs, 'undeclared:%s' % name, 'there is no command `%s`' % name, at):
            continue
        for w in want:
            a = subs[name].get(w)
            if not ctx.ob(a is not None, 'undeclared:%s:%s' % (name, w), '`%s` has no argument --%s' % (name, w), at):
                continue
            if w == 'profile':
                ctx.ob(a.get('default') == 'database', 'default:%s' % name, 'the profile of `%s` is %s when none is given, not `database`' % (name, a.get('default')), at)
            else:
                ctx.ob(not a.get('default'), 'optional:%s:%s' % (name, w), '--%s of `%s` has a default value' % (w, name), at)
            ctx.ob(a.get('long', w) == w, 'long:%s:%s' % (name, w), 'the value of --%s of `%s` is read under the name %s' % (a.get('long'), name, w), at)
    # a command that can only panic
    for c in commands:
        name = c.split('::')[1]
        if name in subs:
            f = prog.fns[prog.find(c)]
            returns = any(b and b['t'] and b['t']['k'] == 'ret' for b in f['blocks'])
            ctx.ob(returns, 'unimplemented:%s' % name, 'the command `%s` is offered but only panics' % name, ctx.loc(c))


def declared(ctx):
    """{subcommand: {argument: {long, default, required}}} from the flow of builders"""
    prog = ctx.prog
    reached, _ = cmd.reach(ctx, ctx.fn('main'))
    objs = {}        # id -> {'kind', 'name', 'args': set(ids), 'subs': set(ids)}
    val = {}         # (fn, local) -> set of ids
    fns = [n for n in sorted(set(reached) | {'main'}) if has_fn(prog, n)]
    uses = []
    for n in fns:
        f = prog.fns[prog.find(n)]
        if any(b and b['t'] and b['t']['k'] == 'call' and b['t'].get('f', {}).get('path', '').startswith('clap::') for b in f['blocks']):
            uses.append((n, f))
    ctx.functions.update(n for n, _ in uses)

    def const(f, o, depth=0):
        if o[0] == 'k':
            c = o[2] if len(o) > 2 else None
            if isinstance(c, dict):
                return c.get('str', c.get('int'))
            return None
        if o[0] in ('c', 'm') and depth < 6:
            src = [s[1] for b in f['blocks'] if b for s in b['s'] if s[0] == [o[1][0], []] and isinstance(s[1], dict)]
            if len(src) == 1:
                r = src[0]
                if r.get('k') == 'use':
                    return const(f, r['o'], depth + 1)
                if r.get('k') == 'ref':
                    return const(f, ['c', r['p']], depth + 1)
            calls = [b['t'] for b in f['blocks'] if b and b['t'] and b['t']['k'] == 'call' and b['t'].get('d') == [o[1][0], []]]
            if not src and len(calls) == 1 and calls[0]['a'] and base(calls[0].get('f', {}).get('path', '')).rsplit('::', 1)[-1] in ('into', 'from', 'clone', 'to_string', 'deref', 'to_owned'):
                return const(f, calls[0]['a'][0], depth + 1)
        return None
    changed = True
    rounds = 0
    while changed and rounds < 60:
        changed = False
        rounds += 1

        def add(k, ids):
            nonlocal changed
            h = val.setdefault(k, set())
            if not ids <= h:
                h |= ids
                changed = True

        def get(n, o):
            return val.get((n, o[1][0]), set()) if o[0] in ('c', 'm') else set()

        def link(ids, field, what):
            nonlocal changed
            for i in ids:
                h = objs[i].setdefault(field, set())
                if not what <= h:
                    h |= what
                    changed = True
        for n, f in uses:
            for bi, b in enumerate(f['blocks']):
                if not b:
                    continue
                for s in b['s']:
                    if not (isinstance(s[1], dict) and s[0]):
                        continue
                    for o in operands(s[1]):
                        add((n, s[0][0]), get(n, o))
                t = b['t']
                if not t or t['k'] != 'call' or not isinstance(t.get('d'), list):
                    continue
                p = base(t.get('f', {}).get('path', ''))
                a = t['a']
                d = (n, t['d'][0])
                m = p.rsplit('::', 1)[-1]
                fresh_arg = p == 'clap::Arg::new' or p == 'std::default::Default::default' and prog.types[t['dty']].get('path', '').split('::')[-1] == 'Arg'
                if p == 'clap::Command::new' or fresh_arg:
                    i = (n, bi)
                    if i not in objs:
                        objs[i] = {'kind': 'cmd' if p == 'clap::Command::new' else 'arg', 'name': {const(f, a[0])} if a else set()}
                        changed = True
                    add(d, {i})
                elif p.startswith('clap::Command::') and a:
                    me = get(n, a[0])
                    add(d, me)
                    if m in ('arg', 'args') and len(a) > 1:
                        link(me, 'args', get(n, a[1]))
                    elif m in ('subcommand_required', 'arg_required_else_help') and len(a) > 1:
                        link(me, 'needs', {const(f, a[1])})
                    elif m in ('subcommand', 'subcommands') and len(a) > 1:
                        link(me, 'subs', get(n, a[1]))
                elif p.startswith('clap::Arg::') and a:
                    me = get(n, a[0])
                    add(d, me)
                    if m == 'id':
                        link(me, 'name', {const(f, a[1])})
                    elif m in ('long', 'default_value', 'required') and len(a) > 1:
                        link(me, m, {const(f, a[1])})
                elif t.get('f', {}).get('fn') is not None or p in dict(uses):
                    for m2, g in uses:
                        if p == m2 or prog.np(t.get('f', {}).get('path', '')) == m2:
                            for j, x in enumerate(a):
                                add((m2, j + 1), get(n, x))
                            add(d, val.get((m2, 0), set()))
                else:
                    for x in a:
                        add(d, get(n, x))
    out = {}
    top = [o for o in objs.values() if o['kind'] == 'cmd' and o.get('subs')]
    if len(top) != 1:
        raise AnalysisError('the declaration of the commands is not understood (%d commands with subcommands)' % len(top))
    for i in top[0]['subs']:
        o = objs[i]
        for name in o['name']:
            args = {}
            for j in o.get('args', ()):
                x = objs[j]
                names = {y for y in x['name'] if y} or {y for y in x.get('long', ()) if y}
                for y in names:
                    args[y] = {'default': pick(x.get('default_value')), 'long': pick(x.get('long')) or y, 'required': pick(x.get('required'))}
            out[name] = args
    ctx.floor('declared commands', len(out), 9)
    return out, bool({1, True} & set(top[0].get('needs', ())))


def pick(s):
    return sorted(s, key=repr)[0] if s else None


def operands(r):
    """operands of an rvalue"""
    out = []
    for k, v in r.items():
        if k == 'o' and isinstance(v, list):
            out.append(v)
        elif k == 'p' and isinstance(v, list):
            out.append(['c', v])
        elif k == 'fs' and isinstance(v, list):
            out.extend(x for x in v if isinstance(x, list))
    return [o for o in out if len(o) > 1 and o[0] in ('c', 'm') and isinstance(o[1], list)]
