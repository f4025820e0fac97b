"""Names the checks know, for a tree in which they have been changed.

The checks speak of functions, types and fields by the names they have on the reference tree (names.json: every name with
its signature, and the functions it calls). When such a name is missing and there is exactly one new one in its place -- the
same module or the same last name, the same signature, and mostly the same calls; for a field, the same type -- the facts are
rewritten to the old name before they are analysed. Only names are restored: what is analysed is the code as it is now. A
name that cannot be matched stays missing, and the check that needs it fails.

python3 names.py   writes names.json from build/facts.json (done once, on the reference tree)"""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, 'names.json')


def last(p):
    return p.rsplit('::', 1)[-1]


def parent(p):
    return p.rsplit('::', 1)[0] if '::' in p else ''


def calls(f):
    out = set()
    for b in f.get('blocks') or ():
        t = (b or {}).get('t')
        if t and t.get('k') == 'call' and 'f' in t:
            out.add(last(t['f']['path']))
    return out


def functions(d):
    out = {}
    for f in d['fns']:
        p = f['path']
        if f['kind'] != 'fn' or not f.get('local') or f.get('derived') or '<' in p or '{' in p:
            continue
        sig = [d['types'][t]['s'] for t in f['locals'][:f['argc'] + 1]]
        out[p] = [sig, sorted(calls(f))]
    return out


def adts(d):
    return {a['path']: [a['kind'], [[v['name'], [[x['name'], d['types'][x['ty']]['s']] for x in v['fields']]] for v in a['variants']]]
            for a in d['adts'] if a.get('local') and '<' not in a['path'] and '{' not in a['path']}


def alike(a, b):
    """share of common calls"""
    a, b = set(a), set(b)
    return 1.0 if not a and not b else len(a & b) / len(a | b)


def match(ref, here, same):
    """missing name -> the one new name in its place"""
    missing = [p for p in ref if p not in here]
    new = [p for p in here if p not in ref]
    cand = {}
    for m in missing:
        near = [n for n in new if parent(n) == parent(m) and same(m, n)] or [n for n in new if last(n) == last(m) and same(m, n)]
        cand[m] = near
    out = {}
    for m, near in cand.items():
        if len(near) == 1 and sum(near[0] in c for c in cand.values()) == 1:
            out[m] = near[0]
    return out


def rewrite(text, table):
    """replace paths (and what is below them)"""
    if not table:
        return text
    back = {n: m for m, n in table.items()}
    rx = re.compile(r'(?<![\w:])(?:%s)(?!\w)' % '|'.join(sorted(map(re.escape, back), key=len, reverse=True)))
    return rx.sub(lambda m: back[m.group(0)], text)


def restore(text):
    """facts as JSON text -> facts with the names of the reference tree"""
    d = json.loads(text)
    if not os.path.exists(REF):
        return d
    with open(REF) as f:
        ref = json.load(f)
    ra, ha = ref['adts'], adts(d)

    def same_type(m, n):
        a, b = ra[m], ha[n]
        shape = lambda x: [[v[0] if x[0] == 'enum' else '', [y[0] for y in v[1]]] for v in x[1]]
        return a[0] == b[0] and shape(a) == shape(b)
    table = match(ra, ha, same_type)
    if table:
        text = rewrite(text, table)
        d = json.loads(text)
        for a in d['adts']:
            if a['kind'] == 'struct' and a['path'] in table and len(a['variants']) == 1:
                a['variants'][0]['name'] = last(a['path'])
        text = json.dumps(d)
    rf, hf = ref['fns'], functions(d)
    if set(rf) - set(hf):
        moved = {last(p) for p in set(rf) ^ set(hf)}      # calls of what may have been renamed as well say nothing
        table = match(rf, hf, lambda m, n: rf[m][0] == hf[n][0] and alike(set(rf[m][1]) - moved, set(hf[n][1]) - moved) >= 0.5)
        if table:
            d = json.loads(rewrite(text, table))
    fields(d, ra)
    return d


def persisted(d):
    """the types given to a serializer or a deserializer, and those they consist of (all that could be, when one is generic)"""
    todo = [x for f in d['fns'] if '<impl serde::' not in f['path'] for b in f.get('blocks') or () for t in [(b or {}).get('t') or {}]
            if t.get('k') == 'call' and t.get('f', {}).get('path', '').startswith('serde') for x in t['f'].get('targs') or ()]
    fields = {}
    for a in d['adts']:
        fields[a['path']] = [x['ty'] for v in a['variants'] for x in v['fields'] if 'ty' in x]
    out, seen = set(), set()
    while todo:
        i = todo.pop()
        if i in seen or not isinstance(i, int):
            continue
        seen.add(i)
        t = d['types'][i]
        if t['k'] in ('param', 'other', 'dyn'):
            return {m.group(1) for f in d['fns'] for m in [re.search(r"<impl serde::(?:Deserialize<'de>|Serialize) for ([\w:]+)", f['path'])] if m}
        if t['k'] == 'adt':
            out.add(t['path'])
            todo += fields.get(t['path'], []) if t['path'].split('::')[0] not in ('std', 'core', 'alloc', 'serde_yaml', 'serde_json') else []
        todo += (t.get('args') or []) + ([t['inner']] if 'inner' in t else [])
    return out


def fields(d, ref):
    """fields of types that are not written to a file or read from one: there the name is part of the format"""
    kept = persisted(d)
    back = {}
    for a in d['adts']:
        r = ref.get(a['path'])
        if r is None or a['path'] in kept:
            continue
        known = dict((v[0], v[1]) for v in r[1])
        for v in a['variants']:
            want = known.get(v['name'])
            if want is None or len(want) != len(v['fields']):
                continue
            have = {x['name'] for x in v['fields']}
            names = {n for n, _ in want}
            lost = [(n, t) for n, t in want if n not in have]
            new = [(i, x['name'], d['types'][x['ty']]['s']) for i, x in enumerate(v['fields']) if x['name'] not in names]
            for i, n, t in new:
                c = [m for m, u in lost if u == t]
                if len(c) == 1 and sum(u == t for _, _, u in new) == 1:
                    back[(a['path'], v['name'], i, n)] = c[0]
    for a in d['adts']:
        for v in a['variants']:
            for i, x in enumerate(v['fields']):
                x['name'] = back.get((a['path'], v['name'], i, x['name']), x['name'])
    by = {(p, i, n): m for (p, _, i, n), m in back.items()}

    def walk(x):
        if isinstance(x, list):
            if len(x) == 4 and x[0] == 'f' and isinstance(x[1], int):       # the type the field is of is only needed here
                of = x.pop()
                x[2] = by.get((of, x[1], x[2]), x[2])
            for y in x:
                if isinstance(y, (list, dict)):
                    walk(y)
        else:
            if x.get('k') == 'agg' and 'names' in x:
                x['names'] = [back.get((x['path'], x['variant'], i, n), n) for i, n in enumerate(x['names'])]
            for y in x.values():
                if isinstance(y, (list, dict)):
                    walk(y)
    for f in d['fns']:
        walk(f.get('blocks') or [])
        walk(f.get('names') or [])
    return d


if __name__ == '__main__':
    with open(os.path.join(HERE, '..', 'build', 'facts.json')) as f:
        d = json.load(f)
    ref = {'fns': functions(d), 'adts': adts(d)}
    with open(REF, 'w') as f:
        json.dump(ref, f, indent=0, sort_keys=True)
        f.write('\n')
