"""Texts known in part: literals and atoms (values of which some things are assumed).

eng.texts(v) -> None or a dict {'no': characters it does not contain,
'trimmed': no white space at its ends and not empty}."""
import re
try:
    from re import _parser as sre, _constants as C
except ImportError:       # older pythons
    import sre_parse as sre, sre_constants as C
from engine import *

WS = ' \t\n\r\x0b\x0c'


class Unknown(Exception):
    pass


def atom(eng, v):
    f = getattr(eng, 'texts', None)
    return f(v) if f else None


def pieces(v):
    """list of literals (str) and atoms (tuples)"""
    out = []
    for x in (v[1] if v[0] == 'cat' else (v,)):
        if x[0] in ('str', 'char'):
            if x[1]:
                out.append(x[1])
        else:
            out.append(x)
    return out


def whole(ps):
    return mk_cat([S(p) if isinstance(p, str) else p for p in ps])


def known(eng, v):
    """is this a text made of a literal and atoms, or of an atom?"""
    ps = pieces(v)
    return any(isinstance(p, str) for p in ps) or all(atom(eng, p) is not None for p in ps)


def cut(eng, ps, c):
    """(before, after) the first c, None if there is none"""
    for i, p in enumerate(ps):
        if isinstance(p, str):
            j = p.find(c)
            if j >= 0:
                return ps[:i] + ([p[:j]] if j else []), ([p[j + len(c):]] if p[j + len(c):] else []) + ps[i + 1:]
        else:
            a = atom(eng, p)
            if a is None or not set(c) & set(a.get('no', '')):
                raise Unknown()
    return None


def rcut(eng, ps, c):
    for i in range(len(ps) - 1, -1, -1):
        p = ps[i]
        if isinstance(p, str):
            j = p.rfind(c)
            if j >= 0:
                return ps[:i] + ([p[:j]] if j else []), ([p[j + len(c):]] if p[j + len(c):] else []) + ps[i + 1:]
        else:
            a = atom(eng, p)
            if a is None or not set(c) & set(a.get('no', '')):
                raise Unknown()
    return None


def split(eng, v, c):
    ps = pieces(v)
    out = []
    while True:
        r = cut(eng, ps, c)
        if r is None:
            out.append(whole(ps))
            return out
        out.append(whole(r[0]))
        ps = r[1]


def trim(eng, v, start=True, end=True):
    ps = pieces(v)
    if start:
        while ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip(WS)
            if ps[0]:
                break
            ps.pop(0)
        else:
            if ps and not trimmed(eng, ps[0]):
                raise Unknown()
    if end:
        while ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip(WS)
            if ps[-1]:
                break
            ps.pop()
        else:
            if ps and not trimmed(eng, ps[-1]):
                raise Unknown()
    return whole(ps)


def trimmed(eng, p):
    a = atom(eng, p)
    return bool(a and a.get('trimmed'))


def starts(eng, ps, lit, at=0):
    """does the text start with this literal? (after at characters of the first literal)"""
    if not lit:
        return True
    if not ps:
        return False
    p = ps[0]
    if isinstance(p, str):
        n = min(len(p), len(lit))
        if p[:n] != lit[:n]:
            return False
        return True if n == len(lit) else starts(eng, ps[1:], lit[n:])
    a = atom(eng, p)
    if a and a.get('trimmed') and (lit[0] in a.get('no', '') or lit[0] in WS):
        return False
    raise Unknown()


def ends(eng, ps, lit):
    if not lit:
        return True
    if not ps:
        return False
    p = ps[-1]
    if isinstance(p, str):
        n = min(len(p), len(lit))
        if p[-n:] != lit[-n:]:
            return False
        return True if n == len(lit) else ends(eng, ps[:-1], lit[:-n])
    a = atom(eng, p)
    if a and a.get('trimmed') and (lit[-1] in a.get('no', '') or lit[-1] in WS):
        return False
    raise Unknown()


def contains(eng, ps, lit):
    return cut(eng, ps, lit) is not None


def head(ps, n):
    """the first n bytes, if they are known"""
    out = ''
    for p in ps:
        if not isinstance(p, str):
            raise Unknown()
        out += p
        if len(out.encode()) >= n:
            b = out.encode()
            try:
                return b[:n].decode()
            except UnicodeDecodeError:
                return None
    return None


def tail(ps, n):
    """the text after n known bytes"""
    ps = list(ps)
    while n and ps:
        if not isinstance(ps[0], str):
            raise Unknown()
        b = ps[0].encode()
        if len(b) > n:
            ps[0] = b[n:].decode()
            return ps
        n -= len(b)
        ps.pop(0)
    if n:
        raise Unknown()
    return ps


# ------------------------------------------------------------ regular expressions
def in_class(av, ch):
    """is the literal character matched by this single-character item?"""
    op, arg = av
    if op is C.LITERAL:
        return ord(ch) == arg
    if op is C.NOT_LITERAL:
        return ord(ch) != arg
    if op is C.ANY:
        return ch != '\n'
    if op is C.IN:
        neg, r = False, False
        for o, x in arg:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                r = r or ord(ch) == x
            elif o is C.RANGE:
                r = r or x[0] <= ord(ch) <= x[1]
            elif o is C.CATEGORY:
                r = r or category(x, ch)
            else:
                raise Unknown()
        return r != neg
    raise Unknown()


def category(x, ch):
    n = str(x)
    pos = {'DIGIT': ch.isdigit(), 'SPACE': ch in WS, 'WORD': ch.isalnum() or ch == '_'}
    for k, v in pos.items():
        if n.endswith('NOT_' + k):
            return not v
        if n.endswith(k):
            return v
    raise Unknown()


def atom_in(eng, av, p, dotall):
    """'all': every character of the atom is matched; 'stop': its first one is not; otherwise not known"""
    a = atom(eng, p) or {}
    no = set(a.get('no', ''))
    op, arg = av
    if op is C.ANY:
        if dotall or '\n' in no:
            return 'all'
        raise Unknown()
    if op is C.NOT_LITERAL:
        if chr(arg) in no:
            return 'all'
        raise Unknown()
    if op is C.LITERAL:
        if a.get('trimmed') and (chr(arg) in no or chr(arg) in WS):
            return 'stop'
        raise Unknown()
    if op is C.IN:
        if arg and arg[0][0] is C.NEGATE:
            if all(o is C.LITERAL and chr(x) in no for o, x in arg[1:]):
                return 'all'
            raise Unknown()
        for o, x in arg:
            if o is C.LITERAL and (chr(x) in no or chr(x) in WS) and a.get('trimmed'):
                continue
            if o is C.CATEGORY and str(x).endswith('_SPACE') and 'NOT' not in str(x) and a.get('trimmed'):
                continue
            raise Unknown()
        return 'stop'
    raise Unknown()


def match(eng, pattern, v):
    """first match in priority order, as the regex engine chooses it:
    (start, {group: value}) or None if there is none"""
    pattern = pattern.replace('(?<', '(?P<') if '(?P<' not in pattern else pattern
    try:
        tree = sre.parse(pattern)
    except Exception:
        raise Unknown()
    units = []
    for p in pieces(v):
        if isinstance(p, str):
            units.extend(p)
        else:
            units.append(p)
    names = {v2: k for k, v2 in tree.state.groupdict.items()}

    def seq(items, i, groups, dotall, k):
        if not items:
            return k(i, groups)
        (op, arg), rest = items[0], items[1:]

        def cont(j, g):
            return seq(rest, j, g, dotall, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= len(units):
                return None
            u = units[i]
            if isinstance(u, str):
                ok = in_class((op, arg), u) or (op is C.ANY and dotall)
                return cont(i + 1, groups) if ok else None
            # a single character of an atom
            if atom_in(eng, (op, arg), u, dotall) == 'stop':
                return None
            raise Unknown()
        if op is C.AT:
            n = str(arg)
            if n.endswith('BEGINNING') or n.endswith('BEGINNING_STRING'):
                return cont(i, groups) if i == 0 else None
            if n.endswith('AT_END') or n.endswith('END_STRING'):
                return cont(i, groups) if i == len(units) else None
            raise Unknown()
        if op is C.SUBPATTERN:
            gid, add, sub, body = arg
            da = (dotall or bool(add & sre.SRE_FLAG_DOTALL)) and not sub & sre.SRE_FLAG_DOTALL

            def close(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return cont(j, g)
            return seq(list(body), i, groups, da, close)
        if op is C.BRANCH:
            for b in arg[1]:
                r = seq(list(b), i, groups, dotall, cont)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = arg
            body = list(body)
            single = len(body) == 1 and body[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)
            if single:
                # positions reachable by consuming whole units
                ends_ = [i]
                n = 0
                j = i
                partial = []
                while j < len(units) and (hi is C.MAXREPEAT or n < hi):
                    u = units[j]
                    if isinstance(u, str):
                        if not (in_class(body[0], u) or (body[0][0] is C.ANY and dotall)):
                            break
                        n += 1
                    else:
                        w = atom_in(eng, body[0], u, dotall)
                        if w == 'stop':
                            break
                        if hi is not C.MAXREPEAT:
                            raise Unknown()
                        partial.append(j)
                        n += 1
                    j += 1
                    ends_.append(j)
                order = ends_[::-1] if op is C.MAX_REPEAT else ends_
                for e in order:
                    # consumed at least lo characters?  (an atom may be empty)
                    sure = sum(1 for x in units[i:e] if isinstance(x, str) or trimmed(eng, x))
                    if sure < lo:
                        if e - i > sure:
                            raise Unknown()
                        if op is C.MAX_REPEAT:
                            return None
                        continue
                    r = cont(e, groups)
                    if r is not None:
                        return r
                    # next would be to give back part of an atom
                    if e - 1 in partial:
                        raise Unknown()
                return None
            if (lo, hi) == (0, 1):
                def once():
                    return seq(body, i, groups, dotall, cont)
                if op is C.MAX_REPEAT:
                    r = once()
                    return r if r is not None else cont(i, groups)
                r = cont(i, groups)
                return r if r is not None else once()
            raise Unknown()
        raise Unknown()
    flags = bool(tree.state.flags & sre.SRE_FLAG_DOTALL)
    for start in range(len(units) + 1):
        r = seq(list(tree), start, {}, flags, lambda j, g: (start, j, g))
        if r is not None:
            s, e, g = r
            out = {0: part(units, s, e)}
            for gid, (a, b) in g.items():
                out[gid] = out[names[gid]] if names.get(gid) in out else part(units, a, b)
                if gid in names:
                    out[names[gid]] = out[gid]
            return out
        if start < len(units) and not isinstance(units[start], str):
            raise Unknown()
    return None


def part(units, a, b):
    return mk_cat([S(u) if isinstance(u, str) else u for u in units[a:b]])


def always(pattern, name):
    """does every match of the pattern have this group?"""
    try:
        tree = sre.parse(pattern)
    except Exception:
        return False
    g = tree.state.groupdict.get(name)

    def has(items):
        for op, av in items:
            if op is C.SUBPATTERN and (av[0] == g or has(av[-1])):
                return True
            if op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] > 0 and has(av[2]):
                return True
            if op is C.BRANCH and all(has(b) for b in av[1]):
                return True
        return False
    return g is not None and has(tree)
