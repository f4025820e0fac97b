"""pretty printing of abstract values"""
def short(v):
    if not isinstance(v,tuple): return str(v)
    if not v: return '()'
    k=v[0]
    if k=='str': return repr(v[1])
    if k in('int','bool'): return str(v[1])
    if k=='root': return v[1]
    if k=='fld': return short(v[1])+'.'+v[2]
    if k=='elem': return 'e%d{%s}'%(v[2],short(v[1]))
    if k=='struct': return '%s%s{%s}'%(v[1].split('::')[-1],'::'+v[2] if v[2] else '',', '.join(n+': '+short(x) for n,x in v[3]))
    if k=='tuple': return '(%s)'%', '.join(map(short,v[1]))
    if k=='cat': return 'cat(%s)'%' '.join(map(short,v[1]))
    if k=='ref': return '&%s%s'%(short(v[1][1]) if v[1][0] in'SV' else v[1],v[2] or '')
    if k=='list': return '[%s]'%', '.join(map(short,v[1]))
    if k=='one': return short(v[1])
    if k=='all': return '*'+short(v[1])
    if k in('rep','part','rrep'): return '%s(%s in %s: %s)'%(k,short(v[2]),short(v[1]),' | '.join('{%s}=>[%s]'%(fs(f),', '.join(map(short,x))) for f,x in v[3]))
    if k=='eq': return '%s==%s'%(short(v[1]),short(v[2]))
    if k=='not': return '!'+short(v[1])
    return '%s(%s)'%(k,', '.join(short(x) if isinstance(x,tuple) else str(x) for x in v[1:]))
def fs(f):
    items=f.items() if isinstance(f,dict) else f
    return ', '.join('%s=%s'%(short(k),short(v) if isinstance(v,tuple) else v) for k,v in items)
