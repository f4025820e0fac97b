"""The statements of the version bookkeeping table, parsed: which rows and columns they touch."""
from sql import lex, Toks, SqlError, name_of

OPS = {'=': '=', '<': '<', '>': '>', '<=': '<=', '>=': '>=', '<>': '<>', '!=': '<>'}
FLIP = {'=': '=', '<>': '<>', '<': '>', '>': '<', '<=': '>=', '>=': '<='}


def cast(t):
    ty = []
    while t.peek() == ('p', ':') and t.peek(1) == ('p', ':'):
        t.i += 2
        ty += type_name(t)
    return tuple(ty)


def type_name(t):
    w = t.ident()[1].upper()
    if t.p('('):
        t.ident()
        t.needp(')')
    if t.p('['):
        t.needp(']')
        w += '[]'
    return (w,)


def operand(t):
    k = t.peek()
    if k[0] == 'w' and k[1].startswith('$'):
        t.i += 1
        r = ('param', int(k[1][1:]))
    elif k[0] == 'w' and k[1].isdigit():
        t.i += 1
        r = ('num', int(k[1]))
    elif k[0] == 'lit':
        t.i += 1
        r = ('lit', name_of(k))
    elif t.p('('):
        r = operand(t)
        t.needp(')')
    elif t.words('CAST') and t.p('('):
        r, c = operand(t)
        if not t.words('AS'):
            raise SqlError('expected AS, found %s' % t.descr())
        c += type_name(t)
        t.needp(')')
        return r, c + cast(t)
    else:
        r = ('col', t.ident()[1])
        if t.p('.'):
            r = ('col', t.ident()[1])
    return r, cast(t)


def op(t):
    s = ''
    while t.peek()[0] == 'p' and t.peek()[1] in '<>=!':
        s += t.peek()[1]
        t.i += 1
    if s not in OPS:
        raise SqlError('expected a comparison, found %s' % (s or t.descr()))
    return OPS[s]


def where(t):
    out = set()
    if not t.words('WHERE'):
        return frozenset()
    while True:
        paren = t.p('(')
        a, ca = operand(t)
        if t.words('BETWEEN'):
            lo, _ = operand(t)
            t.need('AND')
            hi, _ = operand(t)
            out |= {('>=', a, lo), ('<=', a, hi)}
        else:
            o = op(t)
            b, cb = operand(t)
            if a[0] != 'col':
                a, b, o = b, a, FLIP[o]
            out.add((o, a, b))
        if paren:
            t.needp(')')
        if not t.words('AND'):
            return frozenset(out)


def table(t):
    """(schema, table) or (None, table)"""
    a = t.ident()
    if t.p('.'):
        b = t.ident()
        r = (a, b[1] if b[0] == 'str' else b)
    else:
        r = (None, a[1] if a[0] == 'str' else a)
    if t.words('AS') or t.peek()[0] == 'w' and t.peek()[1].upper() not in ('WHERE', 'ORDER', 'LIMIT', 'FOR', 'GROUP', 'HAVING', 'OFFSET', 'RETURNING', 'JOIN', 'UNION', 'FETCH'):
        t.ident()
    return r


def parse(tmpl):
    t = Toks(lex(tmpl))
    r = stmt(t)
    t.end()
    return r


def stmt(t):
    if t.words('SELECT'):
        return select(t)
    if t.words('INSERT', 'INTO'):
        tb = table_plain(t)
        cols, vals = [], []
        t.needp('(')
        while True:
            cols.append(t.ident()[1])
            if not t.p(','):
                break
        t.needp(')')
        t.need('VALUES')
        t.needp('(')
        while True:
            vals.append(operand(t))
            if not t.p(','):
                break
        t.needp(')')
        if len(cols) != len(vals):
            raise SqlError('%d columns but %d values' % (len(cols), len(vals)))
        return ('insert', tb, tuple((c,) + v for c, v in zip(cols, vals)))
    if t.words('DELETE', 'FROM'):
        tb = table(t)
        return ('delete', tb, where(t))
    if t.words('UPDATE'):
        raise SqlError('UPDATE is not part of the bookkeeping')
    if t.words('CREATE', 'SCHEMA'):
        ine = t.words('IF', 'NOT', 'EXISTS')
        return ('create schema', t.ident(), ine)
    if t.words('CREATE', 'TABLE'):
        ine = t.words('IF', 'NOT', 'EXISTS')
        return ('create table', table_plain(t), columns(t), ine)
    raise SqlError('unexpected %s' % t.descr())


def table_plain(t):
    a = t.ident()
    if t.p('.'):
        b = t.ident()
        return (a, b[1] if b[0] == 'str' else b)
    return (None, a[1] if a[0] == 'str' else a)


def columns(t):
    """column definitions: name -> (type, frozenset of constraint words)"""
    t.needp('(')
    cols = []
    depth = 0
    cur = []
    while True:
        k = t.peek()
        if k[0] == 'end':
            raise SqlError('unterminated column list')
        t.i += 1
        if k == ('p', '('):
            depth += 1
        if k == ('p', ')'):
            if depth == 0:
                cols.append(cur)
                break
            depth -= 1
        if k == ('p', ',') and depth == 0:
            cols.append(cur)
            cur = []
            continue
        cur.append(k)
    out = []
    for c in cols:
        u = Toks(c)
        n = u.ident()
        ws = [x[1].upper() if x[0] == 'w' else x[1] if x[0] == 'p' else name_of(x) if x[0] == 'id' else x[1] for x in c[u.i:]]
        out.append((n[1], tuple(ws)))
    return tuple(out)


def select(t):
    if t.words('EXISTS'):
        t.needp('(')
        t.need('SELECT')
        inner = select(t)
        t.needp(')')
        return ('exists', inner)
    cols = []
    while True:
        if t.p('*'):
            cols.append(('*', ()))
        else:
            a, c = operand(t)
            if t.words('AS'):
                t.ident()
            cols.append((a[1] if a[0] == 'col' else a, c))
        if not t.p(','):
            break
    t.need('FROM')
    tb = table(t)
    w = where(t)
    order, limit = [], None
    if t.words('ORDER', 'BY'):
        while True:
            a, _ = operand(t)
            d = 'DESC' if t.words('DESC') else 'ASC'
            if d == 'ASC':
                t.words('ASC')
            order.append((a[1], d))
            if not t.p(','):
                break
    if t.words('LIMIT'):
        limit = operand(t)[0]
    return ('select', tb, tuple(cols), w, tuple(order), limit)
