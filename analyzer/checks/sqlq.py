"""SELECT statements over the PostgreSQL catalog: a parser and a canonical form in which every
column is a path of references from the one catalog row the statement is about.

    ('col', ('connamespace', 'nspname'))     the name of the schema a pg_constraint row refers to
    ('keyed', 'pg_attribute', (A, B), name)  a column of the pg_attribute row with the key (A, B)
"""
import re

TOK = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<qid>"(?:[^"]|"")*")|(?P<num>\d+(?:\.\d+)?)|(?P<par>\$\d+)
    |(?P<id>[A-Za-z_][A-Za-z_0-9$]*)|(?P<op>::|<>|!=|<=|>=|\|\||[-+*/%&|<>=(),.;\[\]])""", re.X | re.S)


class QError(Exception):
    pass


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise QError('unreadable text at %r' % s[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k == 'str':
            out.append(('str', m.group()[1:-1].replace("''", "'")))
        elif k == 'qid':
            out.append(('id', m.group()[1:-1].replace('""', '"'), True))
        elif k == 'id':
            out.append(('id', m.group().lower(), False))
        elif k:
            out.append((k, m.group()))
    while out and out[-1] == ('op', ';'):
        out.pop()
    out.append(('end', ''))
    return out


RESERVED = set('''select from where join left right inner outer full cross on and or not as order group by having limit
    when then else end case is in any array distinct union with null true false exists using asc desc'''.split())


class P:
    def __init__(self, s):
        self.t = lex(s)
        self.i = 0

    def pk(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def kw(self, *ws):
        for n, w in enumerate(ws):
            k = self.pk(n)
            if k[0] != 'id' or k[2] or k[1] != w:
                return False
        self.i += len(ws)
        return True

    def op(self, *os):
        k = self.pk()
        if k[0] == 'op' and k[1] in os:
            self.i += 1
            return k[1]
        return None

    def need(self, o):
        if not self.op(o):
            raise QError('expected %s, found %s' % (o, self.pk()[1]))

    def needkw(self, w):
        if not self.kw(w):
            raise QError('expected %s, found %s' % (w, self.pk()[1]))

    def name(self):
        k = self.pk()
        if k[0] != 'id' or not k[2] and k[1] in RESERVED:
            raise QError('expected a name, found %s' % k[1])
        self.i += 1
        return k[1]

    def is_name(self):
        k = self.pk()
        return k[0] == 'id' and (k[2] or k[1] not in RESERVED)

    # ------------------------------------------------------------ queries
    def query(self):
        self.needkw('select')
        distinct = self.kw('distinct')
        items = [self.item()]
        while self.op(','):
            items.append(self.item())
        frm = None
        if self.kw('from'):
            frm = self.tref()
            while self.op(','):
                frm = ('join', 'inner', frm, self.tref(), None)
        where = self.expr() if self.kw('where') else None
        order = self.order() if self.kw('order', 'by') else ()
        if self.kw('limit'):
            raise QError('LIMIT')
        return ('query', tuple(items), frm, where, order, distinct)

    def order(self):
        out = []
        while True:
            e = self.expr()
            d = 'desc' if self.kw('desc') else 'asc'
            self.kw('asc')
            out.append((e, d))
            if not self.op(','):
                return tuple(out)

    def item(self):
        if self.op('*'):
            return (('star',), None)
        e = self.expr()
        n = None
        if self.kw('as'):
            k = self.pk()
            if k[0] != 'id':
                raise QError('expected a name, found %s' % k[1])
            self.i += 1
            n = k[1]
        elif self.is_name():
            n = self.name()
        return (e, n)

    def tref(self):
        l = self.tprim()
        while True:
            k = None
            if self.kw('left', 'outer', 'join') or self.kw('left', 'join'):
                k = 'left'
            elif self.kw('inner', 'join') or self.kw('join'):
                k = 'inner'
            elif self.kw('cross', 'join'):
                l = ('join', 'inner', l, self.tprim(), None)
                continue
            elif self.pk()[0] == 'id' and self.pk()[1] in ('right', 'full', 'natural') and not self.pk()[2]:
                raise QError('%s JOIN' % self.pk()[1])
            else:
                return l
            r = self.tprim()
            self.needkw('on')
            l = ('join', k, l, r, self.expr())

    def tprim(self):
        if self.op('('):
            if self.pk()[:2] == ('id', 'select'):
                raise QError('a query in FROM')
            r = self.tref()
            self.need(')')
            return r
        n = self.name()
        while self.op('.'):
            n = self.name()
        args = None
        if self.op('('):
            args = self.args()
        ordi = self.kw('with', 'ordinality')
        alias, cols = n, ()
        if self.kw('as') or self.is_name():
            alias = self.name()
            if self.op('('):
                cols = [self.name()]
                while self.op(','):
                    cols.append(self.name())
                self.need(')')
        if args is not None:
            return ('func', n, args, alias, tuple(cols), ordi)
        if cols:
            raise QError('renamed columns')
        return ('rel', n, alias)

    def args(self):
        out = []
        if self.op(')'):
            return ()
        while True:
            out.append(self.expr())
            if self.op(')'):
                return tuple(out)
            self.need(',')

    # -------------------------------------------------------- expressions
    def expr(self):
        l = [self.conj()]
        while self.kw('or'):
            l.append(self.conj())
        return l[0] if len(l) == 1 else ('or', tuple(l))

    def conj(self):
        l = [self.neg()]
        while self.kw('and'):
            l.append(self.neg())
        return l[0] if len(l) == 1 else ('and', tuple(l))

    def neg(self):
        if self.kw('not'):
            return ('not', self.neg())
        return self.test()

    def test(self):
        l = self.cmp()
        while self.kw('is'):
            n = self.kw('not')
            if self.kw('null'):
                l = ('isnull', l)
            elif self.kw('true'):
                l = ('istrue', l)
            elif self.kw('false'):
                l = ('isfalse', l)
            elif self.kw('distinct', 'from'):
                l = ('op', 'distinct', l, self.cmp())
            else:
                raise QError('IS %s' % self.pk()[1])
            if n:
                l = ('not', l)
        return l

    def cmp(self):
        l = self.other()
        while True:
            o = self.op('=', '<>', '!=', '<', '>', '<=', '>=')
            if o:
                o = '<>' if o == '!=' else o
                if self.pk()[:2] in (('id', 'any'), ('id', 'some'), ('id', 'all')) and self.pk(1) == ('op', '('):
                    q = 'all' if self.pk()[1] == 'all' else 'any'
                    self.i += 2
                    a = self.query() if self.pk()[:2] == ('id', 'select') else self.expr()
                    self.need(')')
                    l = ('quant', o, q, l, a)
                else:
                    l = ('op', o, l, self.other())
                continue
            n = self.kw('not', 'in')
            if n or self.kw('in'):
                self.need('(')
                if self.pk()[:2] == ('id', 'select'):
                    l = ('insub', l, self.query())
                    self.need(')')
                else:
                    l = ('quant', '=', 'any', l, ('array', self.args()))
                l = ('not', l) if n else l
                continue
            if self.kw('like'):
                l = ('op', 'like', l, self.other())
                continue
            return l

    def other(self):
        l = self.add()
        while True:
            o = self.op('||', '&', '|')
            if not o:
                return l
            l = ('op', o, l, self.add())

    def add(self):
        l = self.mul()
        while True:
            o = self.op('+', '-')
            if not o:
                return l
            l = ('op', o, l, self.mul())

    def mul(self):
        l = self.una()
        while True:
            o = self.op('*', '/', '%')
            if not o:
                return l
            l = ('op', o, l, self.una())

    def una(self):
        if self.op('-'):
            x = self.una()
            return ('num', '-' + x[1]) if x[0] == 'num' else ('op', 'neg', x, ('null',))
        self.op('+')
        return self.post()

    def post(self):
        l = self.prim()
        while True:
            if self.op('::'):
                l = ('cast', l, self.type())
            elif self.op('['):
                l = ('call', 'subscript', (l, self.expr()), ())
                self.need(']')
            else:
                return l

    def type(self):
        n = self.name()
        while self.op('.'):
            n = self.name()
        if n in ('character', 'double', 'bit') and self.pk()[:2] in (('id', 'varying'), ('id', 'precision')):
            n += ' ' + self.name()
        if self.op('('):
            self.args()
        while self.op('['):
            self.op('[')
            if self.pk()[0] == 'num':
                self.i += 1
            self.need(']')
            n += '[]'
        return n

    def prim(self):
        k = self.pk()
        if k[0] == 'str':
            self.i += 1
            return ('lit', k[1])
        if k[0] == 'num':
            self.i += 1
            return ('num', k[1])
        if k[0] == 'par':
            self.i += 1
            return ('param', int(k[1][1:]))
        if self.op('('):
            if self.pk()[:2] == ('id', 'select'):
                q = self.query()
                self.need(')')
                return ('sub', q)
            e = self.expr()
            self.need(')')
            return e
        if self.kw('null'):
            return ('null',)
        if self.kw('true'):
            return ('bool', True)
        if self.kw('false'):
            return ('bool', False)
        if self.kw('exists'):
            self.need('(')
            q = self.query()
            self.need(')')
            return ('exists', q)
        if self.kw('array'):
            if self.op('('):
                q = self.query()
                self.need(')')
                return ('arraysub', q)
            self.need('[')
            out = []
            if not self.op(']'):
                while True:
                    out.append(self.expr())
                    if self.op(']'):
                        break
                    self.need(',')
            return ('array', tuple(out))
        if self.kw('case'):
            x = None if self.pk()[:2] == ('id', 'when') else self.expr()
            alts = []
            while self.kw('when'):
                c = self.expr()
                self.needkw('then')
                alts.append((c if x is None else ('op', '=', x, c), self.expr()))
            els = self.expr() if self.kw('else') else ('null',)
            self.needkw('end')
            return ('case', tuple(alts), els)
        if self.kw('cast') and self.op('('):
            e = self.expr()
            self.needkw('as')
            t = self.type()
            self.need(')')
            return ('cast', e, t)
        if k[:2] in (('id', 'left'), ('id', 'right')) and self.pk(1) == ('op', '('):
            self.i += 1
            n = [k[1]]
        else:
            n = [self.name()]
        while self.op('.'):
            n.append(self.name())
        if self.op('('):
            f = n[-1]
            if self.op('*'):
                self.need(')')
                return ('call', f, (), ())
            if self.op(')'):
                return ('call', f, (), ())
            if self.kw('distinct'):
                raise QError('DISTINCT')
            a = [self.expr()]
            od = ()
            while True:
                if self.op(','):
                    a.append(self.expr())
                elif self.kw('from'):
                    a.append(self.expr())
                    f += ' from'
                elif self.kw('for'):
                    a.append(self.expr())
                    f += ' for'
                elif self.kw('order', 'by'):
                    od = self.order()
                else:
                    self.need(')')
                    break
            if self.kw('filter'):
                raise QError('FILTER')
            return ('call', f, tuple(a), od)
        return ('ref', '.'.join(n[:-1]), n[-1]) if len(n) > 1 else ('ref', None, n[0])


def parse(s):
    p = P(s)
    q = p.query()
    if p.pk()[0] != 'end':
        raise QError('unexpected %s' % p.pk()[1])
    return q


# ---------------------------------------------------------------- canonical form
KEYS = {'pg_attribute': ('attrelid', 'attnum'), 'pg_attrdef': ('adrelid', 'adnum'), 'pg_index': ('indexrelid',), 'pg_sequence': ('seqrelid',)}
# where a column is found when it is not qualified
PREFIX = {'pg_namespace': 'nsp', 'pg_class': 'rel', 'pg_constraint': 'con', 'pg_attribute': 'att', 'pg_type': 'typ', 'pg_proc': 'pro', 'pg_index': 'ind',
          'pg_sequence': 'seq', 'pg_language': 'lan', 'pg_am': 'am', 'pg_attrdef': 'ad', 'pg_trigger': 'tg'}
FLIP = {'=': '=', '<>': '<>', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
DOMAIN = {'contype': 'cfnptux', 'relkind': 'rpvmiIStcf', 'provolatile': 'isv', 'confmatchtype': 'fps', 'confupdtype': 'arcnd', 'confdeltype': 'arcnd',
          'prokind': 'fpaw', 'attgenerated': ('', 's', 'v'), 'attidentity': ('', 'a', 'd'), 'typtype': 'bcdepr'}


def conjuncts(e):
    if e is None:
        return []
    if e[0] == 'and':
        return [y for x in e[1] for y in conjuncts(x)]
    if e[0] == 'not' and e[1][0] == 'or':
        return [y for x in e[1][1] for y in conjuncts(('not', x))]
    return [e]


class Scope:
    """the relations of one query, with the path of each"""
    def __init__(self, up, prefix=''):
        self.up = up
        self.rels = {}           # alias -> relation name
        self.paths = {}          # alias -> path
        self.funcs = {}          # alias -> (column names, canonical source)
        self.left = {}           # alias -> canonical conditions of its outer join
        self.level = up.level + 1 if up else 0
        self.pre = prefix

    def find(self, alias, name):
        if alias is None:
            own = [a for a, r in self.rels.items() if name.startswith(PREFIX.get(r, r)) or name == 'oid' and len(self.rels) == 1]
            own += [a for a, (c, _) in self.funcs.items() if name in c or name == a]
            if len(own) == 1:
                return self, own[0]
            if len(own) > 1:
                raise QError('ambiguous column %s' % name)
        elif alias in self.rels or alias in self.funcs:
            return self, alias
        if self.up:
            return self.up.find(alias, name)
        raise QError('unknown column %s' % name)


def refs(e, out=None):
    """column references of an expression, not those inside queries"""
    out = [] if out is None else out
    if isinstance(e, tuple):
        if e and e[0] == 'ref':
            out.append(e)
        elif e and e[0] == 'query':
            pass
        else:
            for x in e:
                refs(x, out)
    return out


class Canon:
    def __init__(self, root):
        self.root = root

    def query(self, q, up=None):
        """-> (items [(expr, name)], filters, order, scope)"""
        sc = Scope(up)
        conds = []               # (conjunct, aliases of the outer joins it is in)

        def add(f, outer):
            if f[0] == 'rel':
                if f[2] in sc.rels or f[2] in sc.funcs:
                    raise QError('alias %s twice' % f[2])
                sc.rels[f[2]] = f[1]
                return [f[2]]
            if f[0] == 'func':
                cols = list(f[4]) + (['ordinality'] if f[5] and len(f[4]) < 2 else [])
                sc.funcs[f[3]] = (cols or [f[3]], f[1], f[2])
                return [f[3]]
            l = add(f[2], outer)
            r = add(f[3], outer)
            o = None
            if f[1] == 'left':
                o = frozenset(r)
                for a in r:
                    sc.left.setdefault(a, o)
                # conditions inside an outer joined group hold only inside it
                for i, (c, x) in enumerate(conds):
                    if x is None and all(y[1] in o for y in refs(c) if y[1]) and refs(c):
                        conds[i] = (c, o)
            for c in conjuncts(f[4]):
                conds.append((c, o))
            return l + r
        if q[2] is not None:
            add(q[2], None)
        for c in conjuncts(q[3]):
            conds.append((c, None))
        for a, x in sc.funcs.items():
            sc.funcs[a] = (x[0], ('call', x[1]) + (tuple(self.expr(y, sc) for y in x[2]),))
        # the root row
        if up is None:
            rs = [a for a, r in sc.rels.items() if r == self.root and a not in sc.left]
            if len(rs) != 1:
                raise QError('%d occurrences of %s' % (len(rs), self.root))
            sc.paths[rs[0]] = ()
        # rows found by a key
        rest = list(conds)
        while True:
            hit = False
            for a, r in sc.rels.items():
                if a in sc.paths:
                    continue
                ks = KEYS.get(r, ('oid',))
                for keys in {ks, ('oid',)}:
                    found = []
                    for k in keys:
                        for c in rest:
                            if sc.left.get(a) is not None and c[1] != sc.left[a] and not (c[1] and a in c[1]):
                                continue
                            if sc.left.get(a) is None and c[1] is not None:
                                continue
                            v = self.keyed(c[0], a, k, sc)
                            if v is not None:
                                found.append((c, v))
                                break
                    if len(found) == len(keys):
                        vs = tuple(v for _, v in found)
                        sc.paths[a] = vs[0][1] if len(vs) == 1 and vs[0][0] == 'col' else ('keyed', r, vs)
                        for c, _ in found:
                            rest.remove(c)
                        hit = True
                        break
            if not hit:
                break
        # rows of which there may be several: named by their conditions
        for a in sc.rels:
            if a not in sc.paths:
                sc.paths[a] = ('some', sc.rels[a], a if up is None else '%s.%d' % (a, sc.level))
        # rows keyed by those (e.g. the column a dependency refers to)
        for a, r in sc.rels.items():
            if sc.paths[a][:1] == ('some',):
                ks = KEYS.get(r)
                if not ks:
                    continue
                found = []
                for k in ks:
                    for c in rest:
                        v = self.keyed(c[0], a, k, sc)
                        if v is not None:
                            found.append((c, v))
                            break
                if len(found) == len(ks):
                    sc.paths[a] = ('keyed', r, tuple(v for _, v in found))
                    for c, _ in found:
                        rest.remove(c)
        filters, outer = [], {}
        for c, o in rest:
            x = self.cond(c, sc)
            if o is None:
                filters.append(x)
            else:
                outer.setdefault(o, []).append(x)
        self.outer = getattr(self, 'outer', {})
        sc.outer = {o: frozenset(self.self_(x, sc, o) for x in v) for o, v in outer.items()}
        filters = [self.anti(x, sc) for x in filters]
        items = []
        for e, n in q[1]:
            items.append((self.expr(e, sc), n or self.default_name(e)))
        order = tuple((self.expr(e, sc, items), d) for e, d in q[4])
        sc.filters = tuple(filters)
        return items, filters, order, sc

    def default_name(self, e):
        while e[0] == 'cast':
            e = e[1]
        if e[0] == 'ref':
            return e[2]
        if e[0] == 'call':
            return e[1].split()[0]
        if e[0] == 'case':
            return 'case'
        return '?column?'

    def keyed(self, c, a, k, sc):
        """the value c says column k of alias a has"""
        if c[0] != 'op' or c[1] != '=':
            return None
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x[0] == 'ref' and x[2] == k:
                s, al = sc.find(x[1], k)
                if s is sc and al == a:
                    for r in refs(y):
                        s2, a2 = sc.find(r[1], r[2])
                        if a2 not in s2.paths and a2 not in s2.funcs:
                            return None
                        if s2 is sc and a2 == a:
                            return None
                    v = self.expr(y, sc)
                    return v
        return None

    def self_(self, x, sc, o):
        """conditions on the rows of an outer join, without their alias"""
        ids = [sc.paths[a] for a in o if sc.paths[a][:1] == ('some',)]

        def go(t):
            if t in ids:
                return ('some', t[1])
            return tuple(go(y) for y in t) if isinstance(t, tuple) else frozenset(go(y) for y in t) if isinstance(t, frozenset) else t
        return go(x)

    def anti(self, x, sc):
        """outer join and IS NULL, or NOT EXISTS: there is no such row"""
        if x[0] == 'isnull' and x[1][0] == 'keyed' and x[1][2][:1] == ('some',) and x[1][3] in ('oid', 'conindid'):
            p = x[1][2]
            for o in set(sc.left.values()):
                if any(sc.paths[a] == p for a in o) and len(o) == 1:
                    return ('none', p[1], sc.outer.get(o, frozenset()))
        return x

    # -------------------------------------------------------------- expressions
    def ref(self, e, sc):
        s, a = sc.find(e[1], e[2])
        if a in s.funcs:
            cols, src = s.funcs[a]
            i = cols.index(e[2]) if e[2] in cols else 0
            return ('each', src) if i == 0 else ('ordinal', src)
        p = s.paths.get(a)
        if p is None:
            raise QError('%s is used before it is known' % a)
        if p and p[0] == 'keyed':
            return ('keyed', p[1], p[2], e[2])
        if p and p[0] == 'some':
            return ('keyed', p[1], p, e[2])
        if e[2] == 'oid':
            return ('col', p) if p else ('col', ('oid',))
        return ('col', p + (e[2],))

    def expr(self, e, sc, items=None):
        k = e[0]
        if k == 'ref':
            if items is not None and e[1] is None:
                for x, n in items:
                    if n == e[2]:
                        return x
            return self.ref(e, sc)
        if k == 'num' and items is not None:
            return items[int(e[1]) - 1][0]
        if k in ('lit', 'num', 'param', 'null', 'bool'):
            return e
        if k == 'cast':
            x = self.expr(e[1], sc)
            if e[2] in ('regclass', 'oid') and x[0] == 'lit':
                return x
            return x if x[0] in ('lit', 'num', 'null') else ('cast', x, e[2])
        if k in ('and', 'or', 'not', 'isnull', 'istrue', 'isfalse', 'quant', 'exists', 'insub') or k == 'op' and e[1] in FLIP:
            return self.cond(e, sc)
        if k == 'op' and e[1] == '||':
            l = []
            for x in e[2:]:
                x = self.expr(x, sc)
                l += x[1] if x[0] == 'concat' else (x,)
            return ('concat', tuple(l))
        if k == 'op':
            return ('op', e[1], self.expr(e[2], sc), self.expr(e[3], sc))
        if k == 'case':
            return self.case([(self.cond(c, sc), self.expr(v, sc)) for c, v in e[1]], self.expr(e[2], sc))
        if k == 'call':
            if e[1] == 'coalesce':
                a = []
                for x in e[2]:
                    x = self.expr(x, sc)
                    a += x[2] if x[:2] == ('call', 'coalesce') else [x]
                return ('call', 'coalesce', tuple(a), ())
            return ('call', {'btrim': 'trim', 'substr': 'substring'}.get(e[1], e[1]), tuple(self.expr(x, sc) for x in e[2]),
                    tuple((self.expr(x, sc), d) for x, d in e[3]))
        if k == 'array':
            return ('array', tuple(self.expr(x, sc) for x in e[1]))
        if k in ('sub', 'arraysub'):
            items, filters, order, s = self.query(e[1], sc)
            if len(items) != 1:
                raise QError('a query of several columns')
            x = items[0][0]
            if k == 'arraysub':
                x = ('call', 'array_agg', (x,), order)
            if filters or any(p[:1] == ('some',) for p in s.paths.values()):
                if not (k == 'arraysub' or x[:2] == ('call', 'array_agg')) or any(p[:1] == ('some',) for p in s.paths.values()):
                    return ('pick', x, frozenset(filters), tuple(sorted(r for r in s.rels.values())))
                return ('filtered', x, frozenset(filters))
            return x
        raise QError('expression %s' % k)

    def case(self, alts, els):
        """nested and constant cases flattened; a case over one column becomes a table"""
        col = None
        m = []
        for c, v in alts:
            if c[0] == 'in' and all(isinstance(x, str) for x in c[2]) and (col is None or c[1] == col):
                col = c[1]
                m.append((c[2], v))
            else:
                return self.bools(('case', tuple(alts), els))
        d = {}
        for s, v in m:
            for x in s:
                d.setdefault(x, v)
        dom = DOMAIN.get(col[-1][-1] if col[0] == 'col' else None)
        if dom:
            for x in dom:
                d.setdefault(x, els)
            els = ('none',)
        return ('table', col, tuple(sorted(d.items(), key=str)), els)

    def bools(self, e):
        if len(e[1]) == 1 and e[1][0][1] == ('bool', True) and e[2] == ('bool', False):
            return e[1][0][0]
        return e

    def cond(self, e, sc):
        k = e[0]
        if k in ('and', 'or'):
            xs = []
            for x in e[1]:
                x = self.cond(x, sc)
                xs += x[1] if x[0] == k else [x]
            if k == 'or':
                ins = {}
                for x in list(xs):
                    if x[0] == 'in':
                        ins.setdefault(x[1], set()).update(x[2])
                        xs.remove(x)
                xs += [self.mkin(c, s) for c, s in ins.items()]
            s = frozenset(xs)
            return next(iter(s)) if len(s) == 1 else (k, s)
        if k == 'not':
            x = self.cond(e[1], sc)
            if x[0] == 'not':
                return x[1]
            if x[0] == 'in' and x[2] and all(isinstance(v, str) for v in x[2]):
                d = DOMAIN.get(x[1][1][-1] if x[1][0] == 'col' else x[1][3] if x[1][0] == 'keyed' else None)
                if d:
                    return ('in', x[1], frozenset(d) - x[2])
            if x[0] == 'some row':
                return ('none',) + x[1:]
            return ('not', x)
        if k == 'isnull':
            return ('isnull', self.expr(e[1], sc))
        if k in ('istrue', 'isfalse'):
            x = self.cond(e[1], sc)
            return x if k == 'istrue' else ('not', x)
        if k == 'quant':
            x = self.bare(self.expr(e[3], sc))
            a = e[4]
            while a[0] == 'cast':
                a = a[1]
            if a[0] == 'array':
                vs = [self.const(self.expr(y, sc)) for y in a[1]]
                if None not in vs:
                    if (e[1], e[2]) == ('=', 'any'):
                        return self.mkin(x, vs)
                    if (e[1], e[2]) == ('<>', 'all'):
                        return self.cond(('not', ('quant', '=', 'any', e[3], a)), sc)
            if a[0] == 'query':
                return ('insub',)
            return ('quant', e[1], e[2], x, self.bare(self.expr(a, sc)))
        if k == 'op' and e[1] in FLIP:
            x, y = self.bare(self.expr(e[2], sc)), self.bare(self.expr(e[3], sc))
            for u, v, o in ((x, y, e[1]), (y, x, FLIP[e[1]])):
                c = self.const(v)
                if c is not None and self.const(u) is None:
                    if o == '=':
                        return self.mkin(u, [c])
                    if o == '<>':
                        return self.cond(('not', ('op', '=', e[2], e[3])), sc)
                    return ('op', o, u, v)
            if e[1] in ('>', '>='):
                return ('op', FLIP[e[1]], y, x)
            if e[1] in ('=', '<>'):
                s = ('eq', frozenset((x, y)))
                return s if e[1] == '=' else ('not', s)
            return ('op', e[1], x, y)
        if k == 'exists':
            q = e[1]
            items, filters, order, s = self.query(('query', ((('num', '1'), None),)) + q[2:4] + ((), False), sc)
            if len(s.rels) == 1:
                (a, r), = s.rels.items()
                return ('some row', r, frozenset(self.self_(x, s, {a}) for x in filters))
            return ('some row', tuple(sorted(s.rels.values())), frozenset(filters))
        if k == 'insub':
            return ('insub',)
        x = self.bare(self.expr(e, sc))
        return x

    def mkin(self, x, vs):
        vs = set(vs)
        if vs <= {'true', True} and vs:
            return x
        return ('in', x, frozenset(vs))

    def bare(self, x):
        while x[0] == 'cast':
            x = x[1]
        return x

    def const(self, x):
        x = self.bare(x)
        return x[1] if x[0] in ('lit', 'num') else str(x[1]).lower() if x[0] == 'bool' else None


def strip(x):
    """without casts"""
    if isinstance(x, tuple):
        if x and x[0] == 'cast':
            return strip(x[1])
        return tuple(strip(y) for y in x)
    if isinstance(x, frozenset):
        return frozenset(strip(y) for y in x)
    return x
