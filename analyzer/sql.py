"""SQL text with holes: lexer and a small grammar of the PostgreSQL statements a migration consists of.

A template is the provenance of a string: constant text and holes (input terms).
Lexing tracks quoting, so that a hole is known to stand for an identifier, a
string literal or a raw fragment, and whether embedded quotes are doubled."""
from engine import *
from pp import short

DQ, SQ = ('str', '"'), ('str', "'")


class SqlError(Exception):
    pass


def parts_of(t):
    return t[1] if t[0] == 'cat' else (t,)


def lex(t):
    """tokens: ('w', WORD) ('p', char) ('id', parts) ('lit', parts) ('raw', term) ('list', segs, sep)
       parts: ('esc', term) ('hole', term) ('txt', str)"""
    toks = []
    state = None
    buf = ''
    cur = []
    closed = False       # the previous character closed a quoted token
    after_hole = False

    def flush():
        nonlocal buf
        if buf:
            toks.append(('w', buf))
            buf = ''

    for p in parts_of(t):
        if p[0] in ('str', 'char'):
            for ch in p[1]:
                if state == 'dq' or state == 'sq':
                    q = '"' if state == 'dq' else "'"
                    if ch == q:
                        toks.append(('id' if state == 'dq' else 'lit', tuple(cur)))
                        cur = []
                        state = None
                        closed = True
                        after_hole = False
                    elif cur and cur[-1][0] == 'txt':
                        cur[-1] = ('txt', cur[-1][1] + ch)
                    else:
                        cur.append(('txt', ch))
                    continue
                if ch in '"\'':
                    q = 'dq' if ch == '"' else 'sq'
                    if closed and toks and toks[-1][0] == ('id' if q == 'dq' else 'lit'):
                        # a doubled quote inside the quoted token
                        cur = list(toks.pop()[1]) + [('txt', ch)]
                        state = q
                        closed = False
                        continue
                    if buf or after_hole:
                        raise SqlError('quote glued to %r' % (buf or 'a fragment'))
                    state = q
                    cur = []
                    continue
                closed_now, closed = closed, False
                if ch.isalnum() or ch in '_$':
                    if after_hole or closed_now:
                        raise SqlError('word glued to the preceding fragment at %r' % ch)
                    buf += ch
                    continue
                flush()
                after_hole = False
                if ch.isspace():
                    continue
                toks.append(('p', ch))
        elif state:
            q = DQ if state == 'dq' else SQ
            d = ('str', q[1] * 2)
            if p[0] == 'replace' and p[2] in (q, ('char', q[1])) and p[3] == d:
                cur.append(('esc', p[1]))
            elif p[0] == 'int':
                cur.append(('txt', str(p[1])))
            else:
                cur.append(('hole', p))
        else:
            if buf:
                raise SqlError('fragment %s glued to %r' % (short(p)[:80], buf))
            if after_hole or closed:
                raise SqlError('fragment %s glued to the preceding one' % short(p)[:80])
            if p[0] == 'join':
                toks.append(('list', p[1], p[2]))
            else:
                toks.append(('raw', p))
            after_hole = True
    if state:
        raise SqlError('unterminated quote')
    flush()
    return toks


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('end',)

    def words(self, *ws):
        """accept a sequence of keywords"""
        for n, w in enumerate(ws):
            k = self.peek(n)
            if not (k[0] == 'w' and k[1].upper() == w):
                return False
        self.i += len(ws)
        return True

    def need(self, *ws):
        if not self.words(*ws):
            raise SqlError('expected %s, found %s' % (' '.join(ws), self.descr()))

    def p(self, c):
        if self.peek() == ('p', c):
            self.i += 1
            return True
        return False

    def needp(self, c):
        if not self.p(c):
            raise SqlError('expected %r, found %s' % (c, self.descr()))

    def descr(self):
        k = self.peek()
        return 'the end' if k[0] == 'end' else short(k[1])[:100] if isinstance(k[1], tuple) and k[0] == 'raw' else repr(k[1])[:100]

    def ident(self):
        k = self.peek()
        if k[0] == 'id':
            self.i += 1
            return name_of(k)
        if k[0] == 'w':
            self.i += 1
            return ('str', k[1].lower())
        if k[0] == 'raw':
            self.i += 1
            return k[1]
        raise SqlError('expected a name, found %s' % self.descr())

    def qident(self):
        s = self.ident()
        self.needp('.')
        return s, self.ident()

    def frag(self):
        """a raw SQL fragment: one hole, or constant words"""
        k = self.peek()
        if k[0] == 'raw':
            self.i += 1
            return k[1]
        if k[0] == 'w':
            self.i += 1
            return ('str', k[1])
        raise SqlError('expected an expression, found %s' % self.descr())

    def end(self):
        self.p(';')
        if self.peek()[0] != 'end':
            raise SqlError('unexpected %s' % self.descr())


def name_of(tok):
    ps = tok[1]
    if len(ps) == 1:
        return ('str', ps[0][1]) if ps[0][0] == 'txt' else ps[0][1]
    return ('idparts', ps)


def name_list(tok):
    """the collection of names a list token spells, e.g. the columns of a key"""
    if tok[0] != 'list':
        raise SqlError('expected a list of names')
    if tok[2][0] != 'str' or tok[2][1].strip() != ',':
        raise SqlError('names separated by %s' % short(tok[2]))
    l = tok[1]
    if l[0] != 'list' or len(l[1]) != 1:
        raise SqlError('not a plain list of names: %s' % short(l)[:120])
    s = l[1][0]
    if s[0] == 'all':
        return s[1]
    if s[0] == 'rep' and len(s[3]) == 1 and not s[3][0][0] and len(s[3][0][1]) == 1 and s[3][0][1][0][0] == 'one':
        tk = lex(s[3][0][1][0][1])
        if len(tk) == 1 and tk[0][0] == 'id' and name_of(tk[0]) == s[2]:
            return s[1]
        if len(tk) == 1 and tk[0] == ('raw', s[2]):
            return s[1]
    raise SqlError('not a plain list of names: %s' % short(l)[:160])


def deferral(t):
    d = i = None
    while True:
        if t.words('NOT', 'DEFERRABLE'):
            d = False
        elif t.words('DEFERRABLE'):
            d = True
        elif t.words('INITIALLY', 'DEFERRED'):
            i = True
        elif t.words('INITIALLY', 'IMMEDIATE'):
            i = False
        else:
            break
    if i is None:
        i = False
    if d is None:
        d = i
    return {'deferrable': ('bool', d), 'initially_deferred': ('bool', i)}


def coldef(t):
    """name type [NOT NULL] [DEFAULT x]"""
    a = {'name': t.ident(), 'data_type': t.frag(), 'not_null': ('bool', False), 'default': NONE}
    while True:
        if t.words('NOT', 'NULL'):
            a['not_null'] = ('bool', True)
        elif t.words('NULL'):
            a['not_null'] = ('bool', False)
        elif t.words('DEFAULT'):
            a['default'] = some(t.frag())
        else:
            return a


def new(kind, **a):
    return ('new', kind, tuple(sorted(a.items())))


def function_name(t):
    """[schema.]name(args): the pieces the definition name is spelled with"""
    n = t.ident()
    t.needp('(')
    if t.p(')'):
        return n, None
    a = t.frag()
    t.p(')')
    return n, a


def statement(tmpl, side, kind_hint, notes=None):
    """the effects of one DDL statement, in the vocabulary of snap.spec"""
    t = Toks(lex(tmpl))
    C = lambda level, *keys: ('C', side, level, tuple(keys))
    O = lambda kind, *keys: ('O', side, kind, tuple(keys))
    if t.words('CREATE', 'SCHEMA'):
        n = t.ident()
        t.end()
        return [('ins', C('schema'), n, new('schema', functions=('empty',), name=n, relations=('empty',)))]
    if t.words('DROP', 'SCHEMA'):
        n = t.ident()
        t.words('RESTRICT')
        t.end()
        return [('del', C('schema'), n, 'schema')]
    if t.words('CREATE', 'TABLE'):
        s, n = t.qident()
        t.needp('(')
        k = t.peek()
        if k[0] == 'list':
            t.i += 1
            if k[2][0] != 'str' or k[2][1].strip() != ',':
                raise SqlError('column definitions separated by %s' % short(k[2]))
            cols = ('coldefs', k[1], s, n)
        else:
            raise SqlError('expected column definitions, found %s' % t.descr())
        t.needp(')')
        t.end()
        return [('ins', C('rel', s), n, new('Table', columns=cols, constraints=('empty',), name=n, schema_name=s))]
    for w, k in (('TABLE', 'Table'), ('VIEW', 'View'), ('INDEX', 'Index'), ('SEQUENCE', 'Sequence')):
        if t.words('DROP', w):
            s, n = t.qident()
            t.words('RESTRICT')
            t.end()
            return [('del', C('rel', s), n, k)]
    if t.words('CREATE', 'VIEW'):
        s, n = t.qident()
        t.need('AS')
        q = t.frag()
        t.end()
        return [('ins', C('rel', s), n, new('View', schema_name=s, name=n, query=q))]
    if t.words('CREATE', 'INDEX') or t.words('CREATE', 'UNIQUE', 'INDEX'):
        u = t.t[t.i - 2][1].upper() == 'UNIQUE'
        n = t.ident()
        t.need('ON')
        s, tb = t.qident()
        m = ('str', 'btree')
        if t.words('USING'):
            m = t.frag()
        t.needp('(')
        k = t.peek()
        t.i += 1
        keys = name_list(k)
        t.needp(')')
        t.end()
        return [('ins', C('rel', s), n, new('Index', schema_name=s, name=n, table_name=tb, unique=('bool', u), method=m, key_expressions=keys))]
    if t.words('CREATE', 'SEQUENCE'):
        s, n = t.qident()
        a = {'cycle': ('bool', False)}
        while True:
            if t.words('AS'):
                a['data_type'] = t.frag()
            elif t.words('INCREMENT', 'BY') or t.words('INCREMENT'):
                a['increment'] = t.frag()
            elif t.words('MINVALUE'):
                a['min_value'] = t.frag()
            elif t.words('MAXVALUE'):
                a['max_value'] = t.frag()
            elif t.words('START', 'WITH') or t.words('START'):
                a['start'] = t.frag()
            elif t.words('CACHE'):
                a['cache'] = t.frag()
            elif t.words('NO', 'CYCLE'):
                a['cycle'] = ('bool', False)
            elif t.words('CYCLE'):
                a['cycle'] = ('bool', True)
            else:
                break
        t.end()
        return [('ins', C('rel', s), n, new('Sequence', schema_name=s, name=n, **a))]
    if t.words('CREATE', 'FUNCTION'):
        s = t.ident()
        t.needp('.')
        n = ('fname',) + function_name(t)
        a = {}
        while True:
            if t.words('RETURNS'):
                a['returns'] = t.frag()
            elif t.words('LANGUAGE'):
                a['language'] = t.frag()
            elif t.words('AS'):
                k = t.peek()
                if k[0] == 'lit':
                    t.i += 1
                    a['body'] = name_of(k)
                else:
                    raise SqlError('function body is not a string literal: %s' % t.descr())
            elif t.peek()[0] == 'raw':
                a['volatility'] = t.frag()
            else:
                break
        t.end()
        return [('ins', C('fn', s), n, new('fn', schema_name=s, name=n, **a))]
    if t.words('DROP', 'FUNCTION'):
        s = t.ident()
        t.needp('.')
        n = ('fname',) + function_name(t)
        t.words('RESTRICT')
        t.end()
        return [('del', C('fn', s), n, 'fn')]
    if t.words('ALTER', 'TABLE'):
        s, n = t.qident()
        if t.words('ADD', 'CONSTRAINT'):
            c = t.ident()
            a = {'schema_name': s, 'table_name': n, 'name': c}
            if t.words('PRIMARY', 'KEY') or t.words('UNIQUE'):
                k = 'PrimaryKey' if t.t[t.i - 1][1].upper() == 'KEY' else 'Unique'
                t.needp('(')
                t.i += 1
                a['columns'] = name_list(t.t[t.i - 1])
                t.needp(')')
            elif t.words('CHECK'):
                k = 'Check'
                t.needp('(')
                a['expression'] = t.frag()
                t.needp(')')
            elif t.words('FOREIGN', 'KEY'):
                k = 'ForeignKey'
                t.needp('(')
                t.i += 1
                a['columns'] = name_list(t.t[t.i - 1])
                t.needp(')')
                t.need('REFERENCES')
                a['target_schema'], a['target_table'] = t.qident()
                t.needp('(')
                t.i += 1
                a['target_columns'] = name_list(t.t[t.i - 1])
                t.needp(')')
                while True:
                    if t.words('MATCH'):
                        a['match_option'] = t.frag()
                    elif t.words('ON', 'UPDATE'):
                        a['update_rule'] = t.frag()
                    elif t.words('ON', 'DELETE'):
                        a['delete_rule'] = t.frag()
                    else:
                        break
            else:
                raise SqlError('unknown constraint %s' % t.descr())
            a.update(deferral(t))
            t.end()
            return [('ins', C('con', s, n), c, new(k, **a))]
        if t.words('DROP', 'CONSTRAINT'):
            c = t.ident()
            t.words('RESTRICT')
            t.end()
            return [('del', C('con', s, n), c, kind_hint)]
        if t.words('ALTER', 'CONSTRAINT'):
            c = t.ident()
            if kind_hint != 'ForeignKey' and notes is not None:
                notes.append(('alter-constraint', 'ALTER CONSTRAINT of a %s: PostgreSQL alters foreign keys only' % kind_hint))
            d = deferral(t)
            t.end()
            return [('set', O(kind_hint, s, n, c), f, v) for f, v in sorted(d.items())]
        if t.words('RENAME', 'COLUMN') or t.words('RENAME'):
            a = t.ident()
            t.need('TO')
            b = t.ident()
            t.end()
            return [('ren', C('col', s, n), a, b)]
        if t.words('ALTER', 'COLUMN') or t.words('ALTER'):
            c = t.ident()
            o = O('col', s, n, c)
            if t.words('SET', 'DATA', 'TYPE') or t.words('TYPE'):
                e = ('set', o, 'data_type', t.frag())
            elif t.words('SET', 'DEFAULT'):
                e = ('set', o, 'default', some(t.frag()))
            elif t.words('DROP', 'DEFAULT'):
                e = ('set', o, 'default', NONE)
            elif t.words('SET', 'NOT', 'NULL'):
                e = ('set', o, 'not_null', ('bool', True))
            elif t.words('DROP', 'NOT', 'NULL'):
                e = ('set', o, 'not_null', ('bool', False))
            else:
                raise SqlError('unknown column alteration %s' % t.descr())
            t.end()
            return [e]
        if t.words('ADD', 'COLUMN') or t.words('ADD'):
            a = coldef(t)
            t.end()
            return [('ins', C('col', s, n), a['name'], new('col', schema_name=s, table_name=n, **a))]
        if t.words('DROP', 'COLUMN') or t.words('DROP'):
            c = t.ident()
            t.words('RESTRICT')
            t.end()
            return [('del', C('col', s, n), c, 'col')]
    raise SqlError('unknown statement %s' % t.descr())


def all_tokens(toks):
    """tokens including those inside lists"""
    for k in toks:
        yield k
        if k[0] == 'list':
            l = k[1]
            if l[0] == 'list':
                for s in l[1]:
                    if s[0] == 'one':
                        yield from all_tokens(lex(s[1]))
                    elif s[0] == 'all':
                        yield ('raw', ('elem', s[1], 0))
                    elif s[0] in ('rep', 'rrep'):
                        for f, x in s[3]:
                            for y in x:
                                if y[0] == 'one':
                                    yield from all_tokens(lex(y[1]))
                                else:
                                    yield ('raw', y)
                    else:
                        yield ('raw', s)
            else:
                yield ('raw', l)
