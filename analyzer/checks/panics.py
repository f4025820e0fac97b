"""C27: no input makes a command panic.

The places that can panic are found over the call graph from main: calls that never return, unwrap and expect, indexing and
slicing, arithmetic assertions. Every function that contains one, and every caller it leaves a condition to, is analysed with
unknown arguments; what is left at a command is a violation."""
import re
from checks import cmd
from engine import *
from interp import Budget
from pp import short

try:
    from re import _parser as sre, _constants as sc
except ImportError:
    import sre_parse as sre, sre_constants as sc

SITE = re.compile(r'(::|^)(unwrap|expect|unwrap_err|expect_err|unwrap_none)$|panicking::|unwrap_failed|expect_failed|ops::Index(Mut)?::index(_mut)?$|'
                  r'^std::vec::Vec::(remove|insert|swap_remove|drain|split_off|splice)$|^core::slice::.*(copy_from_slice|clone_from_slice|split_at(_mut)?|swap|chunks|chunks_exact|windows|rotate_left|rotate_right|copy_within)$|'
                  r'^(std|core)::str::.*split_at(_mut)?$|^std::string::String::(remove|insert|insert_str|drain|split_off|truncate|replace_range)$|^std::cell::RefCell::(borrow|borrow_mut|replace|swap)$|'
                  r'std::process::abort|^std::iter::Iterator::step_by$|char::from_digit|to_digit|std::env::(args|vars)$|std::rt::begin_panic|VecDeque::(insert|swap|drain|split_off)|std::time::Instant::duration_since')
# read by other rules: main and the arguments of the command line by C10, the columns of database rows by C20 and C23
ELSEWHERE = re.compile(r'^(main|get_profile|get_version)$')
SAFE = ('regex::Regex::new', 'regex::Regex::captures', 'regex::Regex::is_match', 'regex::Regex::replace_all', 'regex::Regex::replace', 'regex::Regex::replacen', 'regex::Captures::name', 'regex::Captures::get')


def groups(pattern):
    """(number and names of the groups of a regular expression that take part in every match) or None if it is not well-formed"""
    if re.search(r'\(\?(=|!|<=|<!|P=|\(|>)|\\[1-9]|\\[ZG]|\(\?#', pattern):
        return None
    try:
        t = sre.parse(re.sub(r'\(\?<(\w+)>', r'(?P<\1>', pattern))
    except Exception:
        return None
    must = {0}

    def walk(items, sure):
        for op, a in items:
            if op == sc.SUBPATTERN:
                if a[0] is not None and sure:
                    must.add(a[0])
                walk(a[3], sure)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                walk(a[2], sure and a[0] > 0)
            elif op == sc.BRANCH:
                for x in a[1]:
                    walk(x, False)
    walk(t, True)
    names = {n for n, g in t.state.groupdict.items() if g in must}
    return must | names


def pattern_of(v):
    """the regular expression of a term that stands for captures, or for the expression itself"""
    if v[0] == 'call' and v[1] == 'regex::Regex::new' and v[2][0][0] == 'str':
        return v[2][0][1]
    if v[0] == 'fld' and v[1][0] == 'call' and v[1][1] in ('regex::Regex::captures', 'regex::Regex::new'):
        return pattern_of(v[1][2][0]) if v[1][1] == 'regex::Regex::captures' else pattern_of(v[1])
    return None


def regex_contracts(ctx, eng):
    def new(e, st, a):
        p = e.deep(st, a[0])
        t = ('call', 'regex::Regex::new', (p,), 0)
        if p[0] == 'str':
            ctx.patterns[p[1]] = groups(p[1]) is not None
            if ctx.patterns[p[1]]:
                return [(st, 'ret', ok(t))]
            return [(st, 'ret', err(('root', 'not a regular expression')))]
        return None

    def captures(e, st, a):
        re_, s = e.deep(st, a[0]), e.deep(st, a[1])
        t = ('call', 'regex::Regex::captures', (re_, s), 0)
        out = []
        for st2, v in e.fork_variant(st, t, ('Some', 'None')):
            out.append((st2, 'ret', some(('fld', t, 'Some.0')) if v == 'Some' else NONE))
        return out

    def group(e, st, a):
        c, n = e.deep(st, a[0]), e.deep(st, a[1])
        p = pattern_of(c)
        if p is not None and n[0] in ('int', 'str') and n[1] in (groups(p) or ()):
            return [(st, 'ret', some(('call', 'group', (c, n), 0)))]
        return None

    def index(e, st, a):
        ty = e.p.types[e.callee['targs'][0]]
        if ty.get('path') == 'regex::Captures':
            c, n = e.deep(st, a[0]), e.deep(st, a[1])
            p = pattern_of(c)
            r = [(st.fork(), 'ret', vref(('call', 'group', (c, n), 0)))]
            if not (p is not None and n[0] in ('int', 'str') and n[1] in (groups(p) or ())):
                r.append((st, 'panic', ('Captures::index', 'group %s need not take part in a match' % short(n)[:40], e.site())))
            return r
        if ty.get('s') in ('str', 'std::string::String') or ty.get('k') == 'str':
            return text_index(e, st, a)
        return None

    def replace(e, st, a):
        re_, s, f = e.deep(st, a[0]), e.deep(st, a[1]), e.peel(st, a[-1])
        if f[0] not in ('closure', 'fnref'):
            return None
        caps = ('fld', ('call', 'regex::Regex::captures', (re_, s), 0), 'Some.0')
        out = []
        for s2, k, v in e.invoke(st, a[-1], [vref(caps)]):
            out.append((s2, k, v if k != 'ret' else ('call', 'regex::Regex::replace_all', (re_, s, e.deep(s2, v)), 0)))
        return out
    def number(e, st, a):
        # what is said to be an f64 (i64, u64) can be read as one
        n = e.deep(st, a[0])
        m = e.p.np(e.callee['path'])
        t = ('call', m, (n,), 0)
        if e.decide(st, ('call', m.replace('as_', 'is_'), (n,), 0)) is True:
            return [(st, 'ret', some(('fld', t, 'Some.0')))]
        return None

    def value(e, st, a):
        n = e.deep(st, e.peel(st, a[0]))
        m = e.p.np(e.callee['path'])
        if e.decide(st, ('call', m.replace('as_str', 'as_string').replace('as_', 'is_'), (n,), 0)) is True:
            return [(st, 'ret', some(('fld', ('call', m, (n,), 0), 'Some.0')))]
        return None
    for k in ('str', 'bool', 'sequence', 'mapping'):
        eng.contracts['serde_yaml::Value::as_%s' % k] = value

    def positional(e, st, a):
        # by position: the position was found in this very list, or is a constant below its length
        import models
        m = e.p.np(e.callee['path']).rsplit('::', 1)[-1]
        i = e.peel(st, a[1]) if len(a) > 1 else I(0)
        l = models.as_list(e, st, a[0]) if not m.startswith('str') and e.p.np(e.callee['path']).startswith('std::vec::') else None
        if l is not None:
            if i[0] == 'posof' and i[1] == e.deep(st, l):
                return None
            if m == 'insert' and (i == I(0) or e.deep(st, i) == ('len', e.deep(st, l))):
                return None
            if i[0] == 'int' and i[1] < len(l[1]) and all(x[0] == 'one' for x in l[1][:i[1] + 1]):
                return None
            if m in ('drain', 'splice') and i[0] == 'struct' and (i[1] == 'std::ops::RangeFull' or i[1] == 'std::ops::RangeFrom' and i[3][0][1] == I(0)):
                return None
            d, di = e.deep(st, l), e.deep(st, i)
            if e.decide(st, ('inbounds', d, di)) is True:
                return None
            if di == I(0) and e.decide(st, mk_empty(d)) is False:
                return None
        s2 = st.fork()
        return [(s2, 'panic', (m, 'nothing says that the position exists', e.site()))] + e.opaque_call(st, e.p.np(e.callee['path']), e.callee, a, e.callterm)
    for k in ('remove', 'swap_remove', 'insert', 'drain', 'split_off', 'splice'):
        eng.contracts['std::vec::Vec::' + k] = positional
    for k in ('remove', 'insert', 'insert_str', 'drain', 'split_off', 'replace_range'):
        eng.contracts['std::string::String::' + k] = positional
    for k in ('copy_from_slice', 'clone_from_slice', 'split_at', 'split_at_mut', 'swap', 'chunks', 'chunks_exact', 'windows', 'rotate_left', 'rotate_right', 'copy_within'):
        eng.contracts['core::slice::<impl [T]>::' + k] = eng.contracts['std::slice::<impl [T]>::' + k] = positional
    for k in ('split_at', 'split_at_mut'):
        eng.contracts['core::str::<impl str>::' + k] = eng.contracts['std::str::<impl str>::' + k] = positional

    def written(e, st, a):
        return [(st, 'ret', ok(('call', 'serde_yaml::to_string', (e.deep(st, a[0]),), 0)))]
    for k in ('f64', 'i64', 'u64'):
        for m in ('serde_yaml::Number', 'serde_yaml::Value', 'serde_json::Number', 'serde_json::Value'):
            eng.contracts['%s::as_%s' % (m, k)] = number
    eng.contracts['serde_yaml::to_string'] = written
    eng.contracts.update({'regex::Regex::new': new, 'regex::Regex::captures': captures, 'regex::Captures::name': group, 'regex::Captures::get': group,
                          'std::ops::Index::index': index, 'regex::Regex::replace_all': replace, 'regex::Regex::replace': replace, 'regex::Regex::replacen': replace})


def text_index(e, st, a):
    """a text may be cut where `get` has already found a boundary, or where a prefix or suffix ends"""
    d, i = e.deep(st, a[0]), e.deep(st, a[1])
    if i[0] == 'struct' and len(i[3]) == 1 and i[1] in ('std::ops::RangeFrom', 'std::ops::RangeTo'):
        n = i[3][0][1]
        if n == I(0) and i[1] == 'std::ops::RangeFrom' or n == ('len', d):
            return [(st, 'ret', sref(('op', 'slice', d, i)))]
        for k, v in st.facts.items():
            if v == 'Some' and k[0] == 'is' and k[1][0] == 'call' and k[1][1].rsplit('::', 1)[-1] == 'get' and k[1][2][0] == d and k[1][2][1][0] == 'struct' and k[1][2][1][3][-1:] and k[1][2][1][3][-1][1] == n:
                return [(st, 'ret', sref(('op', 'slice', d, i)))]
    return None


def in_its_schema(a):
    """the schema a relation or function says it is in is the one it is listed in: so do the parsers (C08) and introspection (C20) make it"""
    if a[0] != 'eq':
        return False
    for x, y in ((a[1], a[2]), (a[2], a[1])):
        m = re.fullmatch(r'(e\d+)\{(.*)\.(relations|functions)\}(\.\w+\.0)?\.schema_name', short(x))
        if m and re.search(r'(^|schema_name: )' + re.escape(m.group(2)) + r'\.name\b', short(y)):
            return True
    return False


class Panics:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        ctx.patterns = {}
        names, self.ext = cmd.reach(ctx, ctx.fn('main'))
        names = set(names)
        self.ids = [i for i, g in enumerate(self.prog.fns) if self.np(i) in names and g.get('blocks')]
        self.by = {}
        for i in self.ids:
            self.by.setdefault(self.np(i), []).append(i)
        self.sites = {}
        self.calls = {}
        for i in self.ids:
            f = self.prog.fns[i]
            for n, b in enumerate(f['blocks']):
                t = b and b['t']
                if not t:
                    continue
                if t['k'] == 'assert':
                    self.sites.setdefault(i, []).append((n, str(t.get('m', 'assert'))))
                elif t['k'] == 'call' and 'path' in t.get('f', {}):
                    p = self.prog.np(t.get('f', {})['path'])
                    if SITE.search(p):
                        self.sites.setdefault(i, []).append((n, p.rsplit('::', 1)[-1]))
        self.conds = {}          # function -> conditions under which it panics
        self.status = {}

    def np(self, i):
        return self.prog.np(self.prog.fns[i]['path'])

    def summary(self, i):
        """a call of a function whose panics depend on its arguments: they are decided where it is called"""
        conds = self.conds[i]
        name = self.np(i)
        n = self.prog.fns[i]['argc']

        def contract(e, st, a):
            da = [e.deep(st, e.peel(st, x)) for x in a]
            m = {('root', 'arg%d' % j): da[j] for j in range(min(n, len(da)))}
            out = []
            for facts, why in conds:
                cur = [st.fork()]
                for at, v in facts:
                    if not any(mentions(at, r) for r in m):
                        continue
                    nxt = []
                    for s in cur:
                        try:
                            if at[0] == 'is':
                                nxt.extend(s2 for s2, w in e.fork_variant(s, subst(at[1], m), (v,) if isinstance(v, str) else ('Some', 'None')) if w == v)
                            else:
                                nxt.extend(e.assume(s, subst(at, m), v))
                        except (AnalysisError, KeyError, TypeError, IndexError):
                            nxt.append(s)
                    cur = nxt
                for s in cur[:1]:
                    out.append((s, 'panic', why))
            c, t = e.callee, e.callterm
            return out + e.opaque_call(st, name, c, a, t, local=True)
        return contract

    def analyse(self, i, small):
        ctx = self.ctx
        mine = self.np(i)
        opaque = set(cmd.OPAQUE) - {mine} if hasattr(cmd, 'OPAQUE') else set()
        for j in self.ids:
            p = self.np(j)
            if small and j != i and p != mine and not self.conds.get(j) and len(self.prog.fns[j]['blocks']) > small and not p.startswith(mine + '::{'):
                opaque.add(p)
        eng = ctx.engine(opaque_fns=opaque, max_steps=150000)
        eng.rec_limit = 1 if small else 2
        eng.join_max = 4
        regex_contracts(ctx, eng)
        for j, c in self.conds.items():
            if c and j != i:
                eng.contracts[self.np(j)] = self.summary(j)
        outs = eng.call_fn(St(), i, [('root', 'arg%d' % n) for n in range(self.prog.fns[i]['argc'])])
        ctx.saw(eng, len(outs))
        bad = {}
        for s, k, v in outs:
            if k == 'panic' and not any(b is False and in_its_schema(a) for a, b in s.facts.items()):
                facts = tuple(sorted(((a, b) for a, b in s.facts.items()), key=repr))
                why = v if isinstance(v, tuple) else (str(v),)
                bad.setdefault((tuple(f for f in facts if 'arg' in repr(f)), why[-1]), why)
        return [(f, why) for (f, _), why in bad.items()], len(outs), eng.visited


def order(P):
    """callees before callers; functions that call each other are taken in any order"""
    prog = P.prog
    callees = {}
    for i in P.ids:
        f, out = prog.fns[i], set()

        def walk(x):
            if isinstance(x, dict):
                if 'fn' in x and isinstance(x['fn'], int):
                    out.add(x['fn'])
                for y in x.values():
                    walk(y)
            elif isinstance(x, (list, tuple)):
                if len(x) >= 2 and x[0] == 'k' and isinstance(x[1], int):
                    t = prog.types[x[1]]
                    if t['k'] == 'fndef' and 'callee' in t:
                        walk(t['callee'])
                for y in x:
                    walk(y)
        walk(f['blocks'])
        for t in f['locals']:
            t = prog.types[t]
            if t['k'] == 'closure' and 'fn' in t:
                out.add(t['fn'])
        callees[i] = sorted(x for x in out if x in set(P.ids) and x != i)
    res, seen = [], set()

    def visit(i):
        if i in seen:
            return
        seen.add(i)
        for j in callees[i]:
            visit(j)
        res.append(i)
    for i in P.ids:
        visit(i)
    callers = {}
    for i, js in callees.items():
        for j in js:
            callers.setdefault(j, set()).add(i)
    return res, callers


def run(ctx):
    P = Panics(ctx)
    prog = P.prog
    ids, callers = order(P)
    rank = {i: n for n, i in enumerate(ids)}
    nsites = sum(len(v) for i, v in P.sites.items() if not ELSEWHERE.match(P.np(i)))
    todo = {i for i in P.sites if not ELSEWHERE.match(P.np(i))}
    visited, done, nouts = set(), {}, 0
    rounds = 0
    while todo:
        i = min(todo, key=lambda x: rank[x])
        todo.discard(i)
        p = P.np(i)
        rounds += 1
        if ELSEWHERE.match(p):
            continue
        ctx.functions.add(p)
        conds, n, eng = None, 0, None
        for small in (0, 12, 1):
            try:
                conds, n, seen = P.analyse(i, small)
                break
            except (Budget, AnalysisError) as e:
                why = str(e)
        if conds is None:
            ctx.bad('panic:%s:analysed' % p, 'whether %s panics could not be decided: %s' % (p, why[:150]), ctx.loc(p))
            continue
        visited |= seen
        nouts += n
        done[i] = (n, small)
        old = P.conds.get(i)
        P.conds[i] = conds
        if conds and conds != old:
            up = [c for c in callers.get(i, ())]
            if '{closure' in p:
                up += [j for j in P.ids if P.np(j) == p.split('::{closure#')[0]]
            up = [c for c in up if not ELSEWHERE.match(P.np(c))]
            if old is None or rounds < 400:
                todo.update(up)
            if not up:
                for facts, why in conds:
                    ctx.bad('panic:%s' % where(why), '%s panics (%s) when %s' % (p, describe(why), ', '.join('%s=%s' % (short(a)[:80], b) for a, b in facts)[:200] or 'run'), ctx.loc(p))
        if conds:
            ctx.sample('%s leaves %d conditions to its callers' % (p, len(conds)))
        if len(ctx.viol) > 30:
            break
    # each place was reached by the analysis of the function it is in, or of one that runs it
    for i, ss in sorted(P.sites.items()):
        if ELSEWHERE.match(P.np(i)):
            continue
        for n, what in ss:
            ctx.ob((i, n) in visited or not prog.fns[i]['blocks'][n], 'panic:%s:reached' % P.np(i), 'a place in %s that can panic (%s) was not analysed' % (P.np(i), what), ctx.loc(P.np(i)))
    for x, okay in sorted(ctx.patterns.items()):
        ctx.ob(okay, 'regex:%s' % x, 'the regular expression %s is not well-formed' % x, '')
    ctx.info['places_that_can_panic'] = nsites
    ctx.info['functions_analysed'] = len(done)
    ctx.info['outcomes'] = nouts
    ctx.floor('places that can panic', nsites, 10)


def where(why):
    w = why[-1]
    return prog_name(w[0]) if isinstance(w, tuple) else str(w)


def prog_name(p):
    from interp import norm_path
    return norm_path(p)


def describe(why):
    return ' '.join(str(x) for x in why[:2])[:120]
