"""C03: applying a change to a snapshot does exactly what the change describes.
C04: the reverse recorded for a change restores the state it was taken from."""
from engine import *
from snap import *
from pp import short, fs

APPLY = 'snapshot::changes::Change::apply'
REVERT = 'snapshot::changes::Change::revert'


def outcomes(ctx, path):
    key = ('outs', path)
    if key not in ctx.cache:
        eng = ctx.engine()
        st = St()
        outs = eng.call_fn(st, ctx.fn(path), [('ref', ('S', ('root', 'c')), ()), ('ref', ('S', ('root', 'P')), ())])
        ctx.saw(eng, len(outs))
        ctx.cache[key] = (eng, outs)
    return ctx.cache[key]


def F_of(variant):
    return lambda f: ('fld', ('fld', ('root', 'c'), variant + '.0'), f)


class Val:
    """a valuation of the places a change talks about"""

    def __init__(self):
        self.present = {}    # ('C',..), key -> bool
        self.kind = {}       # ('O', side, rel/con, keys) -> variant

    def atom(self, a):
        if a[0] == 'has' and len(a) == 3:
            return self.present.get((a[1], a[2]))
        if a[0] == 'has' and a[1][0] in ('list', 'map'):
            return self.edited(a)
        if a[0] == 'is' and a[1][0] == 'O':
            return self.kind.get(a[1])
        if a[0] == 'not':
            r = self.atom(a[1])
            return None if r is None else not r
        if a[0] == 'eq':
            if a[1] == a[2]:
                return True
        if a[0] == 'empty' and a[1][0] == 'C':
            return None
        return None

    def edited(self, a):
        """membership in a locally edited copy of a collection"""
        segs, key = a[1][1], a[3]
        r = False
        for s in segs:
            if s[0] == 'all' and s[1][0] == 'C':
                r = self.present.get((s[1], key))
            elif s[0] == 'del':
                k = s[1][3][-1] if s[1][0] == 'O' else s[1]
                if k == key:
                    r = False
            elif s[0] == 'ins' and s[1] == key:
                r = True
            elif s[0] in ('part', 'rep') and key[0] == 'fld' and key[1][0] == 'elem' and key[1][1] == s[1]:
                pass   # the described objects have distinct names
            else:
                return None
        return r

    def consistent(self, facts):
        for a, v in facts:
            r = self.atom(a)
            if r is not None and r != v:
                return False
        return True


def place(coll, key):
    return ('O', coll[1], coll[2], coll[3] + (key,))


def base_val(prog, variant, F, side):
    v = Val()
    for level, keys, kind in parents(variant, F, prog, side):
        v.present[(('C', side, level, keys[:-1]), keys[-1])] = True
        if kind:
            v.kind[('O', side, level, keys)] = kind
    return v


def scenario(prog, variant, F, side):
    """(valuation of an applicable state, [(name, valuation) where not applicable])"""
    v = base_val(prog, variant, F, side)
    bad = []
    for e in spec(variant, F, prog, side):
        if e[0] == 'ins':
            v.present[(e[1], e[2])] = False
        elif e[0] == 'del':
            v.present[(e[1], e[2])] = True
            if e[3] in REL + CON:
                v.kind[place(e[1], e[2])] = e[3]
        elif e[0] == 'set':
            o = e[1]
            c = ('C', side, strip(o[2]), o[3][:-1])
            v.present[(c, o[3][-1])] = True
            if o[2] in CON + REL:
                v.kind[('O', side, strip(o[2]), o[3])] = o[2]
        elif e[0] == 'ren':
            v.present[(e[1], e[2])] = True
            v.present[(e[1], e[3])] = False
    for k in list(v.present):
        w = Val()
        w.present = dict(v.present)
        w.kind = dict(v.kind)
        w.present[k] = not w.present[k]
        tgt = place(*k)
        if not w.present[k]:
            w.kind.pop(tgt, None)
            # nothing below a missing place
            for k2 in list(w.present):
                if k2 != k and k2[0][3][:len(tgt[3])] == tgt[3] and len(k2[0][3]) >= len(tgt[3]):
                    del w.present[k2]
        bad.append(('%s %s' % (k[0][2], 'missing' if not w.present[k] else 'already there'), w))
    return v, bad


def fields_name(t):
    return short(t)


def run_apply(ctx):
    prog = ctx.prog
    eng, outs = outcomes(ctx, APPLY)
    canon = Canon({'P': 'P'})
    vs = variants(prog)
    ctx.floor('change kinds', len(vs), 30)
    byv = {}
    for s, k, v in outs:
        which = s.facts.get(('is', ('root', 'c')))
        byv.setdefault(which, []).append((s, k, v))
    for V in vs:
        F = F_of(V)
        loc = 'Change::%s.apply' % V
        try:
            sp = spec(V, F, prog, 'P')
        except KeyError as e:
            raise AnalysisError('%s: %s' % (V, e))
        good, bads = scenario(prog, V, F, 'P')
        mine = byv.get(V, []) + byv.get(None, [])
        ctx.ob(bool(mine), '%s:none' % V, 'no analysed path applies a %s' % V, loc)
        n = 0
        for s, k, v in mine:
            facts = canon.facts(frozenset(s.facts.items()))
            rv = canon(eng.deep(s, v)) if k == 'ret' else v
            res = rv[2] if k == 'ret' and rv[0] == 'struct' else None
            cond = fs({a: b for a, b in s.facts.items()})[:300]
            try:
                eff = effects(canon, {a: eng.deep(s, b) if a[0] != 'ev' else b for a, b in s.glob.items()}, 'P')
            except Effects as e:
                eff = [('odd', str(e))]
            if good.consistent(facts):
                n += 1
                if k != 'ret' or res != 'Ok':
                    ctx.ob(False, '%s:rejects' % V, 'an applicable %s is not applied (%s) when %s' % (V, k if k != 'ret' else short(rv)[:200], cond), loc)
                    continue
                check_effects(ctx, V, sp, eff, loc, dict(facts).get)
            for name, b in bads:
                if b.consistent(facts):
                    ctx.ob(k == 'ret' and res == 'Err', '%s:%s:accepted' % (V, name), '%s succeeds or panics (%s) although: %s' % (V, k if k != 'ret' else res, name), loc)
        ctx.ob(n > 0, '%s:never' % V, 'no path applies %s in a state where it is applicable' % V, loc)
        for name, b in bads:
            m = sum(1 for s, k, v in mine if b.consistent(canon.facts(frozenset(s.facts.items()))))
            ctx.ob(m > 0, '%s:%s:unreached' % (V, name), 'no outcome for: %s' % name, loc)
        ctx.sample('%s: %s' % (V, '; '.join(descr(e) for e in sp))[:220])


def descr(e):
    if e[0] == 'ins':
        return 'adds %s %s' % (e[1][2], short(e[2]) if e[2] else '?')
    if e[0] == 'del':
        return 'removes %s %s' % (e[1][2], short(e[2]))
    if e[0] == 'set':
        return 'sets %s of a %s to %s' % (e[2], e[1][2], short(e[3]))
    if e[0] == 'ren':
        return 'renames %s %s to %s' % (e[1][2], short(e[2]), short(e[3]))
    return str(e)


def moved(e, eff):
    """the added value has every property of an object that is removed, except the name: index of the removal"""
    v = e[3]
    if v[0] != 'struct' or e[1][0] != 'C':
        return None
    fs = dict(v[3])
    for j, y in enumerate(eff):
        if y[0] != 'del' or y[1] != e[1]:
            continue
        path = tuple(e[1][3]) + (y[2],)
        where = dict(zip(('schema_name', 'table_name'), path))
        if 'name' in fs and all(f == 'name' or x == ('A', e[1][1], e[1][2], path, f) or x == where.get(f) for f, x in fs.items()):
            return j
    return None


def norm_effects(eff):
    """bring observed effects into the vocabulary of the documented ones"""
    out = []
    i = 0
    eff = list(eff)
    used = set()
    for i, e in enumerate(eff):
        if i in used:
            continue
        if e[0] == 'ins':
            old = moved(e, eff)
            if old is not None:
                used.add(old)
                out = [y for y in out if y is not eff[old]]
                out.append(('ren', e[1], eff[old][2], dict(e[3][3])['name']))
                continue
            val = norm_new(e[3])
            key = e[2]
            if key is None and val[0] == 'new':
                key = dict(val[2]).get('name')
            if key is None and val[0] == 'upd' and val[1][0] == 'O' and len(val[2]) == 1 and val[2][0][0] == 'name':
                # the same object under a new name: a rename, if the old one goes
                old = val[1][3][-1]
                j = [x for x, y in enumerate(eff) if y[0] == 'del' and y[1] == e[1] and y[2] == old and x not in used]
                if j:
                    used.add(j[0])
                    out = [y for y in out if not (y[0] == 'del' and y[1] == e[1] and y[2] == old)]
                    out.append(('ren', e[1], old, val[2][0][1]))
                    continue
            out.append(('ins', e[1], key, val))
        elif e[0] == 'set' and e[1][0] == 'O' and e[2] == 'name':
            out.append(('ren', ('C', e[1][1], strip(e[1][2]), e[1][3][:-1]), e[1][3][-1], e[3]))
        elif e[0] == 'set' and e[1][0] == 'A':
            out.append(('set', ('O',) + e[1][1:4], e[1][4] + '.' + e[2], e[3]))
        else:
            out.append(e)
    return out


def check_effects(ctx, V, sp, eff, loc, known=lambda a: None):
    got = norm_effects(eff)
    rest = list(got)
    for e in sp:
        if e[0] == 'ins':
            m = [g for g in rest if g[0] == 'ins' and g[1] == e[1] and g[2] == e[2]]
            if not ctx.ob(bool(m), '%s:add' % V, '%s does not add the %s it describes under its name (does: %s)' % (V, e[1][2], [descr(g) for g in got]), loc):
                continue
            rest.remove(m[0])
            gv = m[0][3]
            if not ctx.ob(gv[0] == 'new' and gv[1] == e[3][1], '%s:kind' % V, '%s adds %s instead of a %s' % (V, short(gv)[:100], e[3][1]), loc):
                continue
            gd, ed = dict(gv[2]), dict(e[3][2])
            for f in sorted(set(gd) | set(ed)):
                if ed.get(f) == ('undescribed',):
                    ed[f] = NONE
                ctx.ob(eq_under(known, gd.get(f), ed.get(f)), '%s:%s' % (V, f), '%s: the added %s gets %s = %s, described is %s' % (
                    V, e[3][1], f, short(gd.get(f))[:160], short(ed.get(f))[:160]), loc)
        elif e[0] == 'set':
            m = [g for g in rest if g[0] == 'set' and g[1] == e[1] and g[2] == e[2]]
            if not m and e[1][0] in ('O', 'A'):
                cur = ('A',) + e[1][1:4] + ((e[1][4] + '.' if e[1][0] == 'A' else '') + e[2],)
                if eq_under(known, cur, e[3]):
                    ctx.good()      # on this path it has been found to be so already
                    continue
            if not ctx.ob(bool(m), '%s:%s' % (V, e[2]), '%s does not set %s' % (V, e[2]), loc):
                continue
            rest.remove(m[0])
            ctx.ob(eq_under(known, m[0][3], e[3]), '%s:%s' % (V, e[2]), '%s sets %s to %s instead of %s' % (V, e[2], short(m[0][3])[:160], short(e[3])), loc)
        elif e[0] == 'del':
            m = [g for g in rest if g[:3] == e[:3]]
            if ctx.ob(bool(m), '%s:remove' % V, '%s does not remove the %s it names (does: %s)' % (V, e[1][2], [descr(g) for g in got]), loc):
                rest.remove(m[0])
        elif e[0] == 'ren':
            m = [g for g in rest if g[:4] == e[:4]]
            if ctx.ob(bool(m), '%s:rename' % V, '%s does not rename the column it names to the new name (does: %s)' % (V, [descr(g) for g in got]), loc):
                rest.remove(m[0])
    for g in rest:
        ctx.ob(False, '%s:extra' % V, '%s also: %s' % (V, descr(g)[:200]), loc)


def run_revert(ctx):
    prog = ctx.prog
    eng, outs = outcomes(ctx, REVERT)
    canon = Canon({'P': 'P'})
    vs = variants(prog)
    ctx.floor('change kinds', len(vs), 30)
    byv = {}
    for s, k, v in outs:
        byv.setdefault(s.facts.get(('is', ('root', 'c'))), []).append((s, k, v))
    for V in vs:
        F = F_of(V)
        loc = 'Change::%s.revert' % V
        good, bads = scenario(prog, V, F, 'P')
        sp = spec(V, F, prog, 'P')
        n = 0
        for s, k, v in byv.get(V, []) + byv.get(None, []):
            facts = canon.facts(frozenset(s.facts.items()))
            if not good.consistent(facts):
                continue
            n += 1
            rv = canon(eng.deep(s, v)) if k == 'ret' else None
            if not ctx.ob(k == 'ret' and rv[0] == 'struct' and rv[2] == 'Ok', '%s:irreversible' % V,
                          'no reverse for an applicable %s: %s when %s' % (V, short(rv)[:160] if rv else k, fs(s.facts)[:300]), loc):
                continue
            W, fields = change_of(rv[3][0][1])
            if not ctx.ob(W is not None, '%s:shape' % V, 'the reverse of %s is not a change value: %s' % (V, short(rv)[:200]), loc):
                continue
            check_inverse(ctx, V, W, fields, sp, good, prog, loc, dict(facts).get)
            extra = [a for a in s.glob if a[0] == 'S']
            ctx.ob(not extra, '%s:mutates' % V, 'computing the reverse of %s changes the snapshot' % V, loc)
        ctx.ob(n > 0, '%s:never' % V, 'no path computes a reverse for %s' % V, loc)


def check_inverse(ctx, V, W, fields, sp, good, prog, loc, known=lambda a: None):
    missing = [f for f in change_struct(prog, W) if f not in fields]
    F2 = lambda f: fields[f]
    try:
        sp2 = spec(W, F2, prog, 'P')
    except KeyError as e:
        ctx.ob(False, '%s:%s' % (V, W), 'the reverse of %s is a %s without %s' % (V, W, e), loc)
        return
    st = Store(good.present, good.kind)
    try:
        for e in sp:
            st.apply(e)
        for e in sp2:
            st.apply(e)
    except Bad as e:
        ctx.ob(False, '%s:%s' % (V, W), 'after a %s, its reverse %s %s' % (V, W, e), loc)
        return
    for (coll, key), v in sorted(st.now.items(), key=repr):
        v0 = st.init(coll, key)
        if v0 == ABSENT or v == ABSENT:
            ctx.ob(v0 == v, '%s:%s' % (V, W), 'after a %s and its reverse %s, %s %s is %s' % (
                V, W, coll[2], short(key), 'left over' if v0 == ABSENT else 'gone'), loc)
            continue
        kind = v0[1][2]
        if not ctx.ob(kind_of(v) == kind, '%s:%s' % (V, W), 'the reverse of %s restores a %s' % (V, kind_of(v)), loc):
            continue
        d = [f for (k2, f) in NAMES if k2 == kind] + attrs(prog, kind) + [f for (k2, f) in COLLS if k2 == kind]
        for f in d:
            got, want = field_of(v, f), field_of(v0, f)
            if (kind, f) in COLLS:
                # what is inside a dropped schema or table has been dropped, with reverses of its own, before
                if (got == ('empty',) and f != 'columns') or got == want:
                    ctx.good()
                    continue
                if got and got[0] == 'cols':
                    src = cols_source(got[1])
                    ctx.ob(src == want, '%s:%s:%s' % (V, W, f), 'the reverse of %s restores columns from %s' % (V, short(src)[:200]), loc)
                    continue
            if got == ('undescribed',):
                ctx.ob(False, '%s.%s:undescribed' % (kind, f), 'the reverse of %s cannot restore %s: a %s has no such field' % (V, f, W), loc)
                continue
            ctx.ob(eq_under(known, got, want), '%s:%s:%s' % (V, W, f), 'after a %s and its reverse %s, %s of the %s is %s, was %s' % (
                V, W, f, kind, short(got)[:160], short(want)[:160]), loc)
