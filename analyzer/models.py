"""Models of the standard library routines the analysed program uses.
Each model: f(engine, st, args, callee, term) -> [(st, kind, value)] | value | None(fall through)."""
from engine import *

MODELS = {}


def model(*paths):
    def deco(f):
        def g(eng, st, args, c, t):
            r = f(eng, st, args, c, t)
            if r is None or isinstance(r, list):
                return r
            return [(st, 'ret', r)]
        for p in paths:
            MODELS[p] = g
        return f
    return deco


STRINGS = ('std::string::String', 'std::path::PathBuf', 'std::path::Path', 'std::ffi::OsString', 'std::ffi::OsStr')


# ------------------------------------------------------------ identities
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
       'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut',
       'std::string::String::as_str', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::path::PathBuf::as_path',
       'std::hint::must_use', 'std::boxed::Box::new', 'std::string::String::into_boxed_str', 'std::vec::Vec::into_boxed_slice',
       'std::path::Path::to_path_buf', 'std::iter::Iterator::by_ref', 'std::string::String::as_mut_str',
       'std::string::String::into_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes',
       'std::convert::identity', 'std::rc::Rc::new', 'std::sync::Arc::new', 'std::borrow::Cow::into_owned',
       'std::slice::<impl [T]>::into_vec', 'std::str::<impl str>::into_string', 'std::path::Path::new',
       'std::ffi::OsStr::to_os_string', 'std::path::Path::as_os_str', 'std::path::PathBuf::into_os_string',
       'std::vec::Vec::shrink_to_fit', 'std::iter::Iterator::peekable', 'std::iter::Iterator::fuse',
       'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice',
       'std::io::BufReader::new')
def m_id(eng, st, args, c, t):
    return args[0]


@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_owned',
       'std::str::<impl str>::to_owned')
def m_clone(eng, st, args, c, t):
    v = eng.deref1(st, args[0])
    if v[0] == 'ref':
        # clone of a reference stays a reference unless the owned type is asked for
        if c and c.get('targs') and eng.p.types[c['targs'][0]]['k'] == 'ref':
            return v
        v = eng.peel(st, v)
    return freeze_iter(eng, st, v)


def freeze_iter(eng, st, v):
    return v


@model('std::string::ToString::to_string')
def m_to_string(eng, st, args, c, t):
    if 'fmt' in c:
        return run_display(eng, st, args[0], c['fmt'])
    v = eng.peel(st, args[0])
    if v[0] == 'fmtargs':
        return render_fmt(eng, st, v)
    return to_str(eng, st, v)


def to_str(eng, st, v):
    v = eng.peel(st, v)
    if v[0] in ('int', 'bool', 'char'):
        return mk_cat([v])
    return eng.deep(st, v)


@model('std::convert::Into::into', 'std::convert::From::from')
def m_into(eng, st, args, c, t):
    rp = c.get('rpath', '')
    ty = eng.p.types
    src = ty[c['targs'][0]]
    dst = ty[c['targs'][1]] if len(c['targs']) > 1 else None
    is_from = c['path'].endswith('::from')
    to = src if is_from else dst
    frm = dst if is_from else src
    if not is_from and 'fn' in c:
        return None      # blanket impl: inline, reaches From::from
    if to is not None and to['k'] == 'adt' and to['path'] in STRINGS + ('std::boxed::Box', 'std::borrow::Cow', 'std::rc::Rc'):
        return eng.peel(st, args[0]) if frm and frm['k'] == 'ref' else args[0]
    if to is not None and to.get('path') == 'std::vec::Vec':
        v = eng.peel(st, args[0])
        return v if v[0] == 'list' else ('op', 'tovec', eng.deep(st, v))
    if to is not None and to.get('path') in MAPS:
        it = iter_of_value(eng, st, args[0])
        return collect_map(eng, st, it[1])
    if to is not None and frm is not None and to['s'] == frm['s']:
        return args[0]
    if to is not None and frm is not None and to.get('path') in ('serde_yaml::Value', 'serde_json::Value'):
        return yaml_value(eng, st, to['path'], frm, args[0])
    if to is not None and to['k'] == 'adt' and to['path'] == OPT:
        return None
    if to is not None and to['k'] in ('int', 'float') :
        v = args[0]
        return v if v[0] == 'int' else ('op', 'as', eng.deep(st, v), S(to['s']))
    return None


def yaml_value(eng, st, path, frm, v):
    """a text, number, list or mapping as a value"""
    x = eng.peel(st, v) if frm['k'] == 'ref' else v
    last = frm.get('path', frm['s'].lstrip('&')).rsplit('::', 1)[-1]
    var = {'String': 'String', 'str': 'String', 'bool': 'Bool', 'Mapping': 'Mapping', 'Number': 'Number', 'Cow': 'String'}.get(last)
    if last == 'Vec' and 'serde_' in frm['s']:
        var = 'Sequence'
    if var is None:
        return None
    return ('struct', path, var, (('0', eng.deep(st, x)),))


MAPS = ('std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::HashSet', 'std::collections::BTreeSet',
        'indexmap::IndexMap', 'serde_yaml::Mapping')


@model('std::mem::drop', 'std::mem::forget')
def m_drop(eng, st, args, c, t):
    return UNIT


@model('std::mem::take')
def m_take(eng, st, args, c, t):
    r = args[0]
    v = eng.read(st, r[1], r[2])
    ty = eng.p.types[c['targs'][0]]
    eng.write(st, r[1], r[2], default_of(eng, ty))
    return v


@model('std::mem::replace')
def m_replace(eng, st, args, c, t):
    r = args[0]
    v = eng.read(st, r[1], r[2])
    eng.write(st, r[1], r[2], args[1])
    return v


@model('std::mem::swap')
def m_swap(eng, st, args, c, t):
    a, b = args
    x, y = eng.read(st, a[1], a[2]), eng.read(st, b[1], b[2])
    eng.write(st, a[1], a[2], y)
    eng.write(st, b[1], b[2], x)
    return UNIT


def default_of(eng, ty):
    k = ty['k']
    if k == 'int':
        return I(0)
    if k == 'bool':
        return FALSE
    if k == 'tuple' and not ty.get('args'):
        return UNIT
    if k == 'adt':
        if ty['path'] in ('std::string::String', 'std::path::PathBuf'):
            return S('')
        if ty['path'] == 'std::vec::Vec':
            return ('list', ())
        if ty['path'] in MAPS:
            return ('map', ())
        if ty['path'] == OPT:
            return NONE
    if k == 'ref' and ty.get('s', '').split()[-1].lstrip('&') == 'str':
        return vref(S(''))
    return ('op', 'default', S(ty['s']))


@model('std::default::Default::default')
def m_default(eng, st, args, c, t):
    ty = eng.p.types[c['targs'][0]]
    v = default_of(eng, ty)
    if v[0] == 'op' and 'fn' in c:
        return None
    return v


@model('core::intrinsics::discriminant_value', 'std::intrinsics::discriminant_value', 'std::mem::discriminant')
def m_discr(eng, st, args, c, t):
    v = eng.peel(st, args[0])
    return eng.discr(st, v, c['targs'][0])


# ------------------------------------------------------------ equality / order
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', 'core::str::<impl str>::eq')
def m_eq(eng, st, args, c, t):
    neg = c['path'].endswith('::ne')
    a, b = eng.peel(st, args[0]), eng.peel(st, args[1])
    ty = eng.p.types[eng.p.peel_ty(c['targs'][0])]
    if ty['k'] == 'adt' and eng.p.adts.get(ty['path'], {}).get('local'):
        if neg and 'fn' in c:
            return None      # default ne: inline, reaches the local eq
        if 'fn' in c and not c.get('local'):
            return None      # &A == &B forwards
        if not c.get('local'):
            a, b = eng.deep(st, a), eng.deep(st, b)
            r = mk_eq(a, b)
            return mk_not(r) if neg else r
        return None
    a, b = eng.deep(st, a), eng.deep(st, b)
    if a[0] == 'char' and b[0] == 'str' or a[0] == 'str' and b[0] == 'char':
        pass
    if a[0] == 'list' and b[0] == 'list' and all(s[0] == 'one' for s in a[1] + b[1]):
        r = FALSE if len(a[1]) != len(b[1]) else mk_and([mk_eq(x[1], y[1]) for x, y in zip(a[1], b[1])])
    elif a[0] == 'struct' and b[0] == 'struct' and a[1] not in (OPT, RES):
        r = mk_eq(a, b)
    else:
        r = mk_eq(a, b)
    return mk_not(r) if neg else r


@model('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def m_ord(eng, st, args, c, t):
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c['path'].rsplit('::', 1)[1]]
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    return eng.binop(st, op, a, b)


@model('std::cmp::Ord::cmp', 'std::cmp::PartialOrd::partial_cmp')
def m_cmp(eng, st, args, c, t):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    return ('op', 'cmp', a, b)


# ------------------------------------------------------------ formatting
@model('core::fmt::rt::Argument::new_display', 'std::fmt::rt::Argument::new_display', "core::fmt::rt::Argument::<'_>::new_display")
def m_arg(eng, st, args, c, t):
    return ('arg', 'display', args[0], c.get('fmt'))


@model('core::fmt::rt::Argument::new_debug', "core::fmt::rt::Argument::<'_>::new_debug", 'core::fmt::rt::Argument::new_pointer')
def m_argd(eng, st, args, c, t):
    return ('arg', 'debug', args[0], None)


@model("std::fmt::Arguments::<'a>::new", 'std::fmt::Arguments::new', "std::fmt::Arguments::<'_>::new")
def m_args(eng, st, args, c, t):
    tpl = eng.peel(st, args[0])
    lst = eng.peel(st, args[1])
    if tpl[0] != 'bytes' or lst[0] != 'list':
        raise AnalysisError('unreadable format template in ' + eng.where())
    return ('fmtargs', parse_template(tpl[1], [s[1] for s in lst[1]]))


@model("std::fmt::Arguments::<'a>::from_str", 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst',
       "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_args_str(eng, st, args, c, t):
    return ('fmtargs', (eng.peel(st, args[0]),))


def parse_template(b, args):
    parts = []
    i = 0
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(S(b[i:i + n].decode('utf-8', 'replace')))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            parts.append(S(b[i:i + ln].decode('utf-8', 'replace')))
            i += ln
        elif n >= 0xC0:
            spec = []
            if n & 1:
                spec.append(('flags', int.from_bytes(b[i:i + 4], 'little')))
                i += 4
            if n & 2:
                spec.append(('width', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            if n & 4:
                spec.append(('prec', int.from_bytes(b[i:i + 2], 'little')))
                i += 2
            idx = nxt
            if n & 8:
                idx = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            nxt = idx + 1
            if idx >= len(args):
                raise AnalysisError('format template argument out of range')
            parts.append(('ph', tuple(spec), args[idx]))
        else:
            raise AnalysisError('unknown format template byte %d' % n)
    return tuple(parts)


def render_fmt(eng, st, fa):
    """-> outcomes with the string value"""
    cur = [(st, 'ret', ())]
    for p in fa[1]:
        nxt = []
        for s, k, v in cur:
            if k != 'ret':
                nxt.append((s, k, v))
                continue
            if p[0] != 'ph':
                nxt.append((s, 'ret', v + (eng.deep(s, p),)))
                continue
            a = p[2]
            if a[0] != 'arg':
                nxt.append((s, 'ret', v + (('op', 'display', eng.deep(s, a)),)))
                continue
            if a[1] == 'debug':
                nxt.append((s, 'ret', v + (('op', 'debug', eng.deep(s, a[2])),)))
                continue
            if a[3] is not None:
                for s2, k2, v2 in run_display(eng, s, a[2], a[3]):
                    nxt.append((s2, k2, v + (v2,) if k2 == 'ret' else v2))
                continue
            x = eng.peel(s, a[2])
            if x[0] == 'fmtargs':
                for s2, k2, v2 in render_fmt(eng, s, x):
                    nxt.append((s2, k2, v + (v2,) if k2 == 'ret' else v2))
                continue
            x = to_str(eng, s, x)
            if p[1] and not (len(p[1]) == 1 and p[1][0][0] == 'flags' and p[1][0][1] in (0, 0x20, 0xE0000020)):
                x = ('op', 'fmtspec', S(repr(p[1])), x)
            nxt.append((s, 'ret', v + (x,)))
        cur = nxt
    return [(s, k, mk_cat(v) if k == 'ret' else v) for s, k, v in cur]


def run_display(eng, st, ref, fid):
    """execute a local Display impl against an abstract sink"""
    v = ref
    # Display on &&T: peel to a single reference
    while v[0] == 'ref':
        x = eng.read(st, v[1], v[2])
        if x[0] != 'ref':
            break
        v = x
    if v[0] != 'ref':
        v = vref(v) if not opaque(v) else sref(v)
    if sum(1 for f, _ in eng.stack if f == fid) >= eng.rec_limit:
        return [(st, 'ret', ('op', 'display', eng.deep(st, v)))]
    loc = ('K', len(st.frames))
    old = st.glob.get(loc)
    st.setg(loc, S(''))
    outs = eng.call_fn(st, fid, [v, ('ref', loc, ())])
    res = []
    for s, k, r in outs:
        txt = s.glob.get(loc, S(''))
        if old is None:
            s.delg(loc)
        else:
            s.setg(loc, old)
        res.append((s, k, txt if k == 'ret' else r))
    return res


def sink_append(eng, st, ref, v):
    while ref[0] == 'ref':
        x = eng.read(st, ref[1], ref[2])
        if x[0] == 'ref':
            ref = x
        else:
            break
    if ref[0] == 'ref':
        eng.write(st, ref[1], ref[2], mk_cat([eng.read(st, ref[1], ref[2]), v]))


@model("std::fmt::Formatter::<'a>::write_str", 'std::fmt::Formatter::write_str', 'std::fmt::Write::write_str', 'std::fmt::Formatter::pad',
       "std::fmt::Formatter::<'a>::pad")
def m_write_str(eng, st, args, c, t):
    sink_append(eng, st, args[0], eng.deep(st, args[1]))
    return ok(UNIT)


@model('std::fmt::Write::write_char')
def m_write_char(eng, st, args, c, t):
    sink_append(eng, st, args[0], eng.deep(st, args[1]))
    return ok(UNIT)


@model('std::io::Write::write_fmt')
def m_io_write_fmt(eng, st, args, c, t):
    res = []
    for s, k, v in render_fmt(eng, st, eng.peel(st, args[1])):
        if k != 'ret':
            res.append((s, k, v))
        else:
            res.extend(eng.opaque_call(s, 'std::io::Write::write_all', c, [args[0], v], t))
    return res


@model("std::fmt::Formatter::<'a>::write_fmt", 'std::fmt::Formatter::write_fmt', 'std::fmt::Write::write_fmt')
def m_write_fmt(eng, st, args, c, t):
    fa = eng.peel(st, args[1])
    res = []
    for s, k, v in render_fmt(eng, st, fa):
        if k == 'ret':
            sink_append(eng, s, args[0], v)
            v = ok(UNIT)
        res.append((s, k, v))
    return res


@model('std::fmt::Display::fmt')
def m_display_fmt(eng, st, args, c, t):
    v = eng.peel(st, args[0])
    if v[0] == 'fmtargs':
        res = []
        for s, k, x in render_fmt(eng, st, v):
            if k == 'ret':
                sink_append(eng, s, args[1], x)
                x = ok(UNIT)
            res.append((s, k, x))
        return res
    sink_append(eng, st, args[1], to_str(eng, st, v))
    return ok(UNIT)


@model('std::fmt::Debug::fmt')
def m_debug_fmt(eng, st, args, c, t):
    sink_append(eng, st, args[1], ('op', 'debug', eng.deep(st, args[0])))
    return ok(UNIT)


@model('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner')
def m_format(eng, st, args, c, t):
    return render_fmt(eng, st, eng.peel(st, args[0]))


@model('std::io::_print', 'std::io::_eprint')
def m_print(eng, st, args, c, t):
    err_ = c['path'].endswith('_eprint')
    res = []
    for s, k, v in render_fmt(eng, st, eng.peel(st, args[0])):
        if k == 'ret':
            if eng.log_print:
                log = s.glob.get(('ev',), ('list', ()))
                s.setg(('ev',), ('list', log[1] + (('one', ('event', 'eprint' if err_ else 'print', (v,), 0)),)))
            v = UNIT
        res.append((s, k, v))
    return res


# ------------------------------------------------------------ strings
@model('std::string::String::new', 'std::path::PathBuf::new')
def m_snew(eng, st, args, c, t):
    return S('')


@model('std::string::String::with_capacity')
def m_scap(eng, st, args, c, t):
    return S('')


@model('std::string::String::push_str', 'std::string::String::push')
def m_push_str(eng, st, args, c, t):
    r = args[0]
    eng.write(st, r[1], r[2], mk_cat([eng.deep(st, eng.read(st, r[1], r[2])), eng.deep(st, args[1])]))
    return UNIT


@model('std::ops::Add::add')
def m_add(eng, st, args, c, t):
    ty = eng.p.types[c['targs'][0]]
    if ty.get('path') == 'std::string::String':
        return mk_cat([eng.deep(st, args[0]), eng.deep(st, args[1])])
    return eng.binop(st, 'Add', args[0], args[1])


@model('std::ops::AddAssign::add_assign')
def m_addassign(eng, st, args, c, t):
    r = args[0]
    ty = eng.p.types[c['targs'][0]]
    cur = eng.read(st, r[1], r[2])
    if ty.get('path') == 'std::string::String':
        eng.write(st, r[1], r[2], mk_cat([eng.deep(st, cur), eng.deep(st, args[1])]))
    else:
        eng.write(st, r[1], r[2], eng.binop(st, 'Add', cur, args[1]))
    return UNIT


@model('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat', 'std::slice::Join::join')
def m_join(eng, st, args, c, t):
    l = eng.deep(st, args[0])
    sep = eng.deep(st, args[1]) if len(args) > 1 else S('')
    return mk_join(l, sep)


def split_source(l):
    """(text, separator) if the list is the parts of a text split at a separator"""
    if l[0] == 'list' and len(l[1]) == 1 and l[1][0][0] == 'all':
        x = l[1][0][1]
        if x[0] == 'call' and x[1].endswith('str>::split') and len(x[2]) == 2 and x[2][1][0] in ('str', 'char') and x[2][1][1]:
            return x[2][0], S(x[2][1][1])
    return None


def char_map(l):
    """(text, {char: replacement}) if the list is the characters of a text, some of them replaced by constants"""
    if not (l[0] == 'list' and len(l[1]) == 1 and l[1][0][0] == 'rep'):
        return None
    _, src, e, alts = l[1][0]
    if not (src[0] == 'call' and src[1].endswith('str>::chars')):
        return None
    to = {}
    other = []
    for f, ys in alts:
        if any(y[0] != 'one' for y in ys):
            return None
        yes = [(k, v) for k, v in f if k[0] == 'eq' and e in k[1:] and v is True]
        no = [(k, v) for k, v in f if k[0] == 'eq' and e in k[1:] and v is False]
        if len(yes) + len(no) + len([1 for k, v in f if k == ('val', e)]) != len(f) or len(yes) > 1:
            return None
        if yes:
            c = [x for x in yes[0][0][1:] if x != e][0]
            if c[0] not in ('char', 'str', 'int'):
                return None
            c = chr(c[1]) if c[0] == 'int' else c[1]
            w = mk_cat([S(c) if x == e else x for y in ys for x in (y[1][1] if y[1][0] == 'cat' else (y[1],))])
            if w[0] == 'char':
                w = S(w[1])
            if w[0] != 'str':
                return None
            to[c] = w
        else:
            other.append(([x for k, v in no for x in k[1:] if x != e], tuple(y[1] for y in ys)))
    if len(other) != 1 or other[0][1] != (e,):
        return None
    if {x[1] if x[0] != 'int' else chr(x[1]) for x in other[0][0]} != set(to):
        return None
    return src[2][0], to


def mk_join(l, sep):
    if l[0] == 'list':
        sp = split_source(l)
        if sp is not None and sep[0] == 'str':
            return ('replace', sp[0], sp[1], sep)
        if sep == S(''):
            cm = char_map(l)
            if cm is not None and len(cm[1]) == 1:
                (k, w), = cm[1].items()
                return ('replace', cm[0], S(k), w)
        if all(s[0] == 'one' for s in l[1]):
            out = []
            for i, s in enumerate(l[1]):
                if i:
                    out.append(sep)
                out.append(s[1])
            return mk_cat(out)
        if sep == S(''):
            out = []
            for s in l[1]:
                out.append(s[1] if s[0] == 'one' else ('join', ('list', (s,)), sep))
            return mk_cat(out)
        return ('join', l, sep)
    return ('join', ('list', (('all', l),)), sep)


@model('std::str::<impl str>::replace', 'std::str::<impl str>::replacen')
def m_replace_s(eng, st, args, c, t):
    a = [eng.deep(st, x) for x in args]
    norm = [S(x[1]) if x[0] == 'char' else x for x in a]
    if all(x[0] == 'str' for x in norm[:3]):
        return S(norm[0][1].replace(norm[1][1], norm[2][1]))
    return ('replace',) + tuple(norm)


@model('std::string::String::is_empty', 'core::str::<impl str>::is_empty', 'std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty',
       'std::collections::HashMap::is_empty', 'std::collections::BTreeMap::is_empty', 'serde_yaml::Mapping::is_empty',
       'std::iter::ExactSizeIterator::is_empty')
def m_is_empty(eng, st, args, c, t):
    return mk_empty(eng.deep(st, args[0]))


@model('std::string::String::len', 'core::str::<impl str>::len', 'std::vec::Vec::len', 'core::slice::<impl [T]>::len',
       'std::collections::HashMap::len', 'std::collections::BTreeMap::len', 'serde_yaml::Mapping::len', 'std::iter::ExactSizeIterator::len')
def m_len(eng, st, args, c, t):
    v = eng.deep(st, args[0])
    if v[0] == 'iter':
        v = ('list', v[1])
    return eng.length(st, v)


def _const_str(f):
    return f


@model('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase', 'core::str::<impl str>::to_ascii_lowercase',
       'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase')
def m_case(eng, st, args, c, t):
    v = eng.deep(st, args[0])
    low = 'lowercase' in c['path']
    if v[0] == 'str':
        return S(v[1].lower() if low else v[1].upper())
    return ('op', 'lower' if low else 'upper', v)


@model('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
def m_starts(eng, st, args, c, t):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    k = c['path'].rsplit('::', 1)[1]
    if a[0] == 'str' and b[0] in ('str', 'char'):
        return ('bool', {'starts_with': a[1].startswith, 'ends_with': a[1].endswith, 'contains': a[1].__contains__}[k](b[1]))
    return ('strtest', k, a, b)


@model('core::str::<impl str>::strip_suffix', 'core::str::<impl str>::strip_prefix')
def m_strip(eng, st, args, c, t):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    k = c['path'].rsplit('::', 1)[1]
    if b[0] not in ('str', 'char'):
        return None
    if a[0] == 'str':
        if k == 'strip_suffix':
            return some(vref(S(a[1][:len(a[1]) - len(b[1])]))) if a[1].endswith(b[1]) else NONE
        return some(vref(S(a[1][len(b[1]):]))) if a[1].startswith(b[1]) else NONE
    out = []
    for s, f in eng.fork_bool(st, ('strtest', 'ends_with' if k == 'strip_suffix' else 'starts_with', a, b)):
        out.append((s, 'ret', some(sref(('op', k, a, b))) if f else NONE))
    return out


@model('core::str::<impl str>::find')
def m_sfind(eng, st, args, c, t):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    if b[0] not in ('str', 'char'):
        return None
    if a[0] == 'str':
        n = a[1].find(b[1])
        return NONE if n < 0 else some(I(len(a[1][:n].encode())))
    x = ('call', 'core::str::<impl str>::split_once', (a, b), 0)
    return [(s, 'ret', some(('findpos', x)) if v == 'Some' else NONE) for s, v in eng.fork_variant(st, x, ['None', 'Some'])]


@model('core::str::<impl str>::rfind')
def m_srfind(eng, st, args, c, t):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    if b[0] not in ('str', 'char') or a[0] != 'str':
        return None
    n = a[1].rfind(b[1])
    return NONE if n < 0 else some(I(len(a[1][:n].encode())))


@model('core::str::<impl str>::splitn', 'core::str::<impl str>::rsplitn')
def m_splitn(eng, st, args, c, t):
    a, n, b = eng.deep(st, args[0]), eng.deep(st, args[1]), eng.deep(st, args[2])
    left = not c['path'].endswith('rsplitn')
    if b[0] not in ('str', 'char') or not b[1] or n[0] != 'int':
        return None
    if a[0] == 'str':
        parts = a[1].split(b[1], n[1] - 1) if left else a[1].rsplit(b[1], n[1] - 1)[::-1]
        return ('iter', tuple(('one', vref(S(x))) for x in parts)) if n[1] else None
    if n[1] != 2:
        return None
    x = ('call', 'core::str::<impl str>::%s' % ('split_once' if left else 'rsplit_once'), (a, b), 0)
    out = []
    for s, v in eng.fork_variant(st, x, ['None', 'Some']):
        pay = ('fld', x, 'Some.0')
        two = [('one', sref(('fld', pay, k))) for k in ('01' if left else '10')]
        out.append((s, 'ret', ('iter', tuple(two) if v == 'Some' else (('one', vref(a)),))))
    return out


@model('std::sync::OnceLock::get_or_init', 'std::cell::OnceCell::get_or_init')
def m_once(eng, st, args, c, t):
    return [(s, k, vref(v) if k == 'ret' else v) for s, k, v in eng.invoke(st, args[1], [])]


@model('std::boxed::Box::new_uninit')
def m_boxnew(eng, st, args, c, t):
    # one box cell per allocation site of the current frame
    site = eng.stack[-1][1] if eng.stack else '?'
    n = 0
    d = len(st.frames) - 1
    while ('B', d, n) in st.glob:
        n += 1
    loc = ('B', d, n)
    st.setg(loc, UNDEF)
    return ('boxptr', loc)


@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(eng, st, args, c, t):
    b = args[0]
    if b[0] == 'boxptr':
        v = st.glob.get(b[1], UNDEF)
        st.delg(b[1])
        if v[0] == 'list':
            return v
        if v[0] == 'op' and v[1] == 'repeat':
            return v
    raise AnalysisError('vec! literal not understood in ' + eng.where())


@model('std::slice::<impl [T]>::into_vec')
def m_intovec(eng, st, args, c, t):
    return eng.peel(st, args[0])


# ------------------------------------------------------------ vectors
@model('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
def m_vnew(eng, st, args, c, t):
    return ('list', ())


def as_list(eng, st, v):
    v = eng.peel(st, v)
    if v[0] == 'list':
        return v
    if v[0] == 'iter':
        return ('list', v[1])
    return ('list', (('all', v),))


def rlist(eng, st, r):
    v = eng.read(st, r[1], r[2])
    while v[0] == 'ref':
        r = v
        v = eng.read(st, r[1], r[2])
    if v[0] != 'list':
        v = ('list', (('all', v),))
    return r, v


@model('std::vec::Vec::push')
def m_push(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    eng.write(st, r[1], r[2], mk_list(l[1] + (('one', args[1]),)))
    return UNIT


@model('std::vec::Vec::insert')
def m_vinsert(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    if args[1] == I(0):
        eng.write(st, r[1], r[2], mk_list((('one', args[2]),) + l[1]))
    else:
        eng.write(st, r[1], r[2], ('op', 'vinsert', eng.deep(st, l), eng.deep(st, args[1]), eng.deep(st, args[2])))
    return UNIT


@model('std::vec::Vec::append')
def m_append(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    r2, l2 = rlist(eng, st, args[1])
    eng.write(st, r[1], r[2], mk_list(l[1] + l2[1]))
    eng.write(st, r2[1], r2[2], ('list', ()))
    return UNIT


@model('std::iter::Extend::extend', 'std::vec::Vec::extend_from_slice')
def m_extend(eng, st, args, c, t):
    r = args[0]
    cur = eng.peel(st, r)
    it = iter_of_value(eng, st, args[1], owned=True)
    if c['path'].endswith('extend_from_slice'):
        it = ('iter', as_list(eng, st, args[1])[1])
    while True:
        v = eng.read(st, r[1], r[2])
        if v[0] == 'ref':
            r = v
        else:
            break
    if cur[0] in ('map',) or (c.get('targs') and eng.p.types[c['targs'][0]].get('path') in MAPS):
        m = as_map(cur)
        eng.write(st, r[1], r[2], ('map', m[1] + collect_map(eng, st, it[1])[1]))
        return UNIT
    if cur[0] in ('str', 'cat') or (c.get('targs') and eng.p.types[c['targs'][0]].get('path') == 'std::string::String'):
        eng.write(st, r[1], r[2], mk_cat([cur, mk_join(('list', eng.deep(st, it[1])), S(''))]))
        return UNIT
    r, l = rlist(eng, st, args[0])
    segs = it[1]
    # extending with references copies the elements
    segs = unref_segs(eng, st, segs) if elem_is_ref(c, eng) else segs
    eng.write(st, r[1], r[2], mk_list(l[1] + segs))
    return UNIT


def elem_is_ref(c, eng):
    return any(eng.p.types[x]['k'] == 'ref' for x in c.get('targs', [])[1:2])


def unref_segs(eng, st, segs):
    out = []
    for s in segs:
        if s[0] == 'one':
            out.append(('one', eng.deref1(st, s[1])))
        elif s[0] in ('rep', 'rrep', 'part'):
            out.append(s[:3] + (tuple((f, unref_segs(eng, st, x)) for f, x in s[3]),))
        else:
            out.append(s)
    return mk_list(tuple(out))[1]


@model('std::vec::Vec::clear', 'std::collections::HashMap::clear', 'std::collections::BTreeMap::clear', 'std::string::String::clear')
def m_clear(eng, st, args, c, t):
    r = args[0]
    p = c['path']
    eng.write(st, r[1], r[2], ('list', ()) if 'vec' in p else ('map', ()) if 'Map' in p else S(''))
    return UNIT


@model('std::vec::Vec::truncate')
def m_truncate(eng, st, args, c, t):
    if args[1] != I(0):
        return None
    r, l = rlist(eng, st, args[0])
    eng.write(st, r[1], r[2], ('list', ()))
    return UNIT


@model('core::slice::<impl [T]>::reverse', 'std::slice::<impl [T]>::reverse')
def m_reverse(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    eng.write(st, r[1], r[2], ('list', reverse_segs(l[1])))
    return UNIT


@model('std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort_by',
       'std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::sort_unstable_by_key',
       'std::slice::<impl [T]>::sort_by_cached_key')
def m_sort(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    if len(l[1]) == 1 and l[1][0][0] == 'one' or not l[1]:
        return UNIT
    by = ('closure', eng.deep(st, args[1])) if len(args) > 1 else UNIT
    if eng.sort_maps and all(x[0] == 'one' for x in l[1]) and separated_by(eng, st, args, c, l):
        # which of the elements is the smaller does not matter, only that the order is their own
        eng.write(st, r[1], r[2], ('list', tuple(sorted(l[1], key=lambda x: repr(eng.deep(st, x[1]))))))
        return UNIT
    if 'unstable' in c['path']:
        by = ('unstable', by)
    eng.write(st, r[1], r[2], ('list', (('sorted', l[1], by),)))
    return UNIT


def separated_by(eng, st, args, c, l):
    """are no two of the elements equal for this sort?"""
    def apart(x, y):
        return eng.decide(st, mk_eq(x, y)) is False
    if len(args) == 1:
        return True           # equal elements cannot be told apart
    compare = not ('_key' in c['path'])
    for i, (_, x) in enumerate(l[1]):
        for _, y in l[1][i + 1:]:
            s = st.fork()
            if compare:
                outs = eng.invoke(s, args[1], [vref(x), vref(y)])
                for s2, k, v in outs:
                    v = eng.deep(s2, v)
                    while v[0] == 'op' and v[1] in ('reverse',):
                        v = v[2]
                    if k != 'ret' or not (v[:2] == ('op', 'cmp') and apart(eng.deep(s2, eng.peel(s2, v[2])), eng.deep(s2, eng.peel(s2, v[3])))):
                        return False
            else:
                ks = []
                for z in (x, y):
                    outs = eng.invoke(st.fork(), args[1], [vref(z)])
                    if len(outs) != 1 or outs[0][1] != 'ret':
                        return False
                    ks.append(eng.deep(outs[0][0], eng.peel(outs[0][0], outs[0][2])))
                if not apart(ks[0], ks[1]):
                    return False
    return True


@model('std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def m_vremove(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    i = eng.peel(st, args[1])
    if i[0] == 'posof' and i[1] == eng.deep(st, l):
        eng.write(st, r[1], r[2], ('list', l[1] + (('del', i[2]),)) if c['path'].endswith('::remove') else ('op', 'swapdel', l, i[2]))
        return i[2]
    if i[0] == 'int' and i[1] < len(l[1]) and all(s[0] == 'one' for s in l[1][:i[1] + 1]):
        eng.write(st, r[1], r[2], ('list', l[1][:i[1]] + l[1][i[1] + 1:]))
        return l[1][i[1]][1]
    v = ('idx', eng.deep(st, l), eng.deep(st, i))
    eng.write(st, r[1], r[2], ('op', 'vremove', eng.deep(st, l), eng.deep(st, i)))
    return v


@model('std::vec::Vec::pop')
def m_vpop(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    if not l[1]:
        return NONE
    if l[1][-1][0] == 'one':
        eng.write(st, r[1], r[2], ('list', l[1][:-1]))
        return some(l[1][-1][1])
    out = []
    d = eng.deep(st, l)
    for s, b in eng.fork_bool(st, mk_empty(d)):
        if b:
            out.append((s, 'ret', NONE))
        else:
            eng.write(s, r[1], r[2], ('op', 'popped', d))
            out.append((s, 'ret', some(('last', d))))
    return out


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut',
       'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0]) if args[0][0] == 'ref' else (None, as_list(eng, st, args[0]))
    k = c['path'].rsplit('::', 1)[1].replace('_mut', '')
    segs = l[1]
    if k == 'get':
        i = eng.peel(st, args[1])
        if i[0] == 'int':
            if i[1] < len(segs) and all(s[0] == 'one' for s in segs[:i[1] + 1]):
                return some(vref(segs[i[1]][1]))
            if all(s[0] == 'one' for s in segs):
                return NONE
            if i[1] == 0:
                k = 'first'
        elif i == ('ixprobe',) and eng.probing:
            from interp import ProbeHit
            raise ProbeHit(('len', eng.deep(st, l)))
        elif i[0] == 'ix' and same_list(eng.deep(st, l), i[1]):
            return some(mkref(i[2]))
        elif i[0] == 'len' and same_list(eng.deep(st, l), i[1]):
            return NONE
        if k == 'get':
            d, di = eng.deep(st, l), eng.deep(st, i)
            out = []
            for s, b in eng.fork_bool(st, ('inbounds', d, di)):
                out.append((s, 'ret', some(sref(('idx', d, di))) if b else NONE))
            return out
    if not segs:
        return NONE
    e = segs[0] if k == 'first' else segs[-1]
    if e[0] == 'one':
        return some(vref(e[1]))
    d = eng.deep(st, l)
    out = []
    for s, b in eng.fork_bool(st, mk_empty(d)):
        out.append((s, 'ret', NONE if b else some(sref((k, d)))))
    return out


@model('core::slice::<impl [T]>::contains')
def m_contains(eng, st, args, c, t):
    l = eng.deep(st, as_list(eng, st, args[0]))
    x = eng.deep(st, args[1])
    if all(s[0] == 'one' for s in l[1]):
        return mk_or([mk_eq(s[1], x) for s in l[1]]) if l[1] else FALSE
    if len(l[1]) == 1 and l[1][0][0] == 'all':
        return ('has', l[1][0][1], ('by', ('it',)), x)
    return ('has', l, ('by', ('it',)), x)


@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def m_index(eng, st, args, c, t):
    ty = eng.p.types[c['targs'][0]]
    i = eng.peel(st, args[1])
    if ty.get('path') in MAPS:
        out = []
        for s, found, v in map_lookup(eng, st, args[0], eng.deep(st, i)):
            if found:
                out.append((s, 'ret', v))
            else:
                out.append((s, 'panic', ('map index', 'missing key', eng.site())))
        return out
    if ty.get('path') == 'regex::Captures' and getattr(eng, 'texts', None):
        m, n = eng.deep(st, eng.peel(st, args[0])), eng.deep(st, i)
        if m[0] == 'caps' and n[0] in ('str', 'int'):
            r = dict(m[1]).get(n[1])
            return [(st, 'panic', ('index', 'no such group', eng.site()))] if r is None else vref(r)
        if n[0] == 'str' and m[0] == 'fld' and m[1][:2] == ('call', 'regex::Regex::captures') and m[1][2][0][0] == 'regex' and T.always(m[1][2][0][1], n[1]):
            return ('call', 'regex::Match::as_str', (('fld', ('call', 'regex::Captures::name', (m, n), 0), 'Some.0'),), 0)
    if i[0] == 'ix' and same_list(eng.deep(st, as_list(eng, st, args[0])), i[1]):
        return mkref(i[2])
    if i[0] in ('int', 'posof') or i[0] == 'idxvar' or opaque(i):
        r = args[0]
        while r[0] == 'ref':
            v = eng.read(st, r[1], r[2])
            if v[0] == 'ref':
                r = v
            else:
                break
        l = as_list(eng, st, args[0])
        if i[0] == 'int' and i[1] < len(l[1]) and all(s[0] == 'one' for s in l[1][:i[1] + 1]):
            return ('ref', r[1], r[2] + (('i', i),))
        d, di = eng.deep(st, l), eng.deep(st, i)
        out = []
        for s, b in eng.fork_bool(st, ('inbounds', d, di)):
            if b:
                out.append((s, 'ret', sref(('idx', d, di))))
            else:
                out.append((s, 'panic', ('index', 'out of bounds', eng.site())))
        return out
    # range indexing
    if i[0] == 'struct' and i[1] == 'std::ops::RangeFull':
        return [(st, 'ret', args[0])]
    d = eng.deep(st, args[0])
    for k, b in st.facts.items():
        # cutting off a text that is known to be there
        if k[0] == 'strtest' and b is True and k[2] == d and k[3][0] == 'str' and i[0] == 'struct':
            n = I(len(k[3][1].encode()))
            if k[1] == 'ends_with' and i[1] == 'std::ops::RangeTo' and eng.deep(st, i[3][0][1]) == ('op', 'Sub', ('len', d), n):
                return sref(('op', 'strip_suffix', d, k[3]))
            if k[1] == 'starts_with' and i[1] == 'std::ops::RangeFrom' and eng.deep(st, i[3][0][1]) == n:
                return sref(('op', 'strip_prefix', d, k[3]))
    if i[0] == 'struct' and len(i[3]) == 1 and getattr(eng, 'texts', None):
        n = eng.deep(st, i[3][0][1])
        try:
            if n[0] == 'int' and i[1] == 'std::ops::RangeFrom':
                return vref(T.whole(T.tail(T.pieces(d), n[1])))
            if n[0] == 'int' and i[1] == 'std::ops::RangeTo' and T.head(T.pieces(d), n[1]) is not None:
                return vref(S(T.head(T.pieces(d), n[1])))
        except T.Unknown:
            pass
    if i[0] == 'struct' and len(i[3]) == 1:
        # cutting at a place that was found
        n = eng.deep(st, i[3][0][1])
        f, k = n, 0
        if n[:2] == ('op', 'Add') and n[3][0] == 'int':
            f, k = n[2], n[3][1]
        if f[0] == 'findpos' and f[1][2][0] == d:
            pat, pay = S(f[1][2][1][1]), ('fld', f[1], 'Some.0')
            if i[1] == 'std::ops::RangeTo' and not k:
                return sref(('fld', pay, '0'))
            if i[1] == 'std::ops::RangeFrom' and k == 0:
                return vref(mk_cat([pat, ('fld', pay, '1')]))
            if i[1] == 'std::ops::RangeFrom' and k == len(pat[1].encode()):
                return sref(('fld', pay, '1'))
    v = ('op', 'slice', d, eng.deep(st, i))
    out = []
    for s, b in eng.fork_bool(st, ('slice_ok', d, eng.deep(st, i))):
        if b:
            out.append((s, 'ret', sref(v)))
        else:
            out.append((s, 'panic', ('slice index', 'out of range or not a char boundary', eng.site())))
    return out


@model('std::vec::Vec::retain', 'std::collections::HashMap::retain', 'std::collections::BTreeMap::retain')
def m_retain(eng, st, args, c, t):
    r = args[0]
    v = eng.peel(st, r)
    cur = eng.deep(st, v)
    eng.write(st, r[1], r[2], ('op', 'retain', cur, eng.deep(st, args[1])))
    return UNIT


# ------------------------------------------------------------ maps
def as_map(v):
    if v[0] == 'map':
        return v
    return ('map', (('all', v),))


@model('std::collections::HashMap::new', 'std::collections::BTreeMap::new', 'std::collections::HashMap::with_capacity',
       'serde_yaml::Mapping::new', 'serde_yaml::Mapping::with_capacity', 'std::collections::HashSet::new', 'std::collections::BTreeSet::new')
def m_mnew(eng, st, args, c, t):
    return ('map', ())


def rmap(eng, st, r):
    v = eng.read(st, r[1], r[2]) if r[0] == 'ref' else r
    while v[0] == 'ref':
        r = v
        v = eng.read(st, r[1], r[2])
    return r, as_map(v)


@model('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert', 'serde_yaml::Mapping::insert')
def m_minsert(eng, st, args, c, t):
    r, m = rmap(eng, st, args[0])
    k = eng.deep(st, args[1])
    if not result_used(eng, t):
        eng.write(st, r[1], r[2], inserted(eng, st, m, k, args[2]))
        return ('op', 'oldval', eng.deep(st, m), k)
    out = []
    for s, f, v in map_lookup(eng, st, args[0], k):
        old = some(eng.deref1(s, v)) if f else NONE
        r, m = rmap(eng, s, args[0])
        eng.write(s, r[1], r[2], inserted(eng, s, m, k, args[2]))
        out.append((s, 'ret', old))
    return out


def inserted(eng, st, m, k, v):
    segs = m[1] + (('ins', k, v),)
    if eng.sort_maps and all(x[0] == 'ins' for x in segs) and all(eng.decide(st, mk_eq(x[1], k)) is False for x in m[1]):
        segs = tuple(sorted(segs, key=repr))      # entries of different keys: the order of insertion does not matter
    return ('map', segs)


def result_used(eng, t):
    """the result of this call is looked at (not just dropped)"""
    if t is None or not eng.stack or t['d'][1]:
        return t is not None and bool(eng.stack)
    f = eng.stack[-1][0]
    uses = eng.p.__dict__.setdefault('result_uses', {})
    if f not in uses:
        seen = set()

        def go(x):
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    seen.add(x[0])
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                for y in x.values():
                    go(y)
        for b in eng.p.fns[f]['blocks']:
            if not b:
                continue
            for q in b['s']:
                go(q[1:])
            if b['t'] and b['t']['k'] != 'drop':
                go([v for k, v in b['t'].items() if k not in ('d', 'sp', 'k')])
        uses[f] = seen
    return t['d'][0] in uses[f] or t['d'][0] == 0


@model('std::collections::HashSet::insert', 'std::collections::BTreeSet::insert')
def m_sinsert(eng, st, args, c, t):
    r, m = rmap(eng, st, args[0])
    k = eng.deep(st, args[1])
    out = []
    for s, found, v in map_lookup(eng, st, args[0], k):
        if not found:
            r2, m2 = rmap(eng, s, args[0])
            eng.write(s, r2[1], r2[2], ('map', m2[1] + (('ins', k, UNIT),)))
        out.append((s, 'ret', ('bool', not found)))
    return out


KEY = ('by', ('#key',))


def map_lookup(eng, st, ref, key):
    """-> [(st, found, ref to value)]"""
    r, m = rmap(eng, st, ref)
    segs = list(m[1])
    out = []
    cur = [st]
    for idx in range(len(segs) - 1, -1, -1):
        s = segs[idx]
        nxt = []
        for x in cur:
            if s[0] in ('ins', 'del'):
                for y, b in eng.fork_bool(x, mk_eq(eng.deep(x, s[1]), key)):
                    if b:
                        if s[0] == 'ins':
                            if r[0] == 'ref':
                                out.append((y, True, ('ref', r[1], r[2] + (('mv', idx),))))
                            else:
                                out.append((y, True, vref(s[2])))
                        else:
                            out.append((y, False, None))
                    else:
                        nxt.append(y)
            else:
                src = s[1] if s[0] == 'all' else ('map', (eng.deep(x, s),))
                for y, b in eng.fork_bool(x, ('has', src, KEY, key)):
                    if b:
                        out.append((y, True, sref(('lookup', src, KEY, key))))
                    else:
                        nxt.append(y)
        cur = nxt
    for x in cur:
        out.append((x, False, None))
    return out


@model('std::collections::HashMap::get', 'std::collections::BTreeMap::get', 'std::collections::HashMap::get_mut',
       'std::collections::BTreeMap::get_mut', 'serde_yaml::Mapping::get', 'std::collections::HashSet::get')
def m_mget(eng, st, args, c, t):
    key = eng.deep(st, args[1])
    return [(s, 'ret', some(v) if f else NONE) for s, f, v in map_lookup(eng, st, args[0], key)]


@model('std::collections::HashMap::contains_key', 'std::collections::BTreeMap::contains_key', 'serde_yaml::Mapping::contains_key',
       'std::collections::HashSet::contains', 'std::collections::BTreeSet::contains')
def m_mhas(eng, st, args, c, t):
    key = eng.deep(st, args[1])
    r, m = rmap(eng, st, args[0])
    if len(m[1]) == 1 and m[1][0][0] == 'all':
        return ('has', m[1][0][1], KEY, key)
    return [(s, 'ret', ('bool', f)) for s, f, v in map_lookup(eng, st, args[0], key)]


@model('std::collections::HashMap::remove', 'std::collections::BTreeMap::remove', 'serde_yaml::Mapping::remove')
def m_mremove(eng, st, args, c, t):
    key = eng.deep(st, args[1])
    out = []
    for s, f, v in map_lookup(eng, st, args[0], key):
        if f:
            r, m = rmap(eng, s, args[0])
            val = eng.deref1(s, v)
            eng.write(s, r[1], r[2], ('map', m[1] + (('del', key),)))
            out.append((s, 'ret', some(val)))
        else:
            out.append((s, 'ret', NONE))
    return out


@model('std::collections::HashMap::entry', 'std::collections::BTreeMap::entry')
def m_entry(eng, st, args, c, t):
    key = eng.deep(st, args[1])
    out = []
    for s, f, v in map_lookup(eng, st, args[0], key):
        r, m = rmap(eng, s, args[0])
        e = ('entry', r, key, v if f else UNIT, ('bool', f))
        p = 'std::collections::%s::Entry' % ('btree_map' if 'BTree' in c['path'] else 'hash_map')
        out.append((s, 'ret', ('struct', p, 'Occupied' if f else 'Vacant', (('0', e),))))
    return out


def entry_insert(eng, st, e, val):
    r = e[1]
    r, m = rmap(eng, st, r)
    new = inserted(eng, st, m, e[2], val)
    eng.write(st, r[1], r[2], new)
    return ('ref', r[1], r[2] + (('mv', next(i for i in reversed(range(len(new[1]))) if new[1][i] == ('ins', e[2], val))),))


def the_entry(eng, st, e):
    e = eng.peel(st, e)
    if e[0] == 'struct' and e[1].endswith('::Entry'):
        e = e[3][0][1]
    return e if e[0] == 'entry' else None


def entry_paths(kind, *names):
    return ['std::collections::%s::%s%s::%s' % (m, kind, g, n) for m in ('hash_map', 'btree_map') for g in ('', "::<'a, K, V>", "::<'a, K, V, A>") for n in names]


@model(*entry_paths('Entry', 'or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'))
def m_or_insert(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    if e is None:
        return None
    if e[4] == TRUE:
        return e[3]
    p = c['path']
    if '::or_insert_with' in p:
        out = []
        for s, k, v in eng.invoke(st, args[1], [vref(e[2])] if p.endswith('_key') else []):
            out.append((s, k, entry_insert(eng, s, e, v) if k == 'ret' else v))
        return out
    if len(args) > 1:
        v = args[1]
    else:
        ts = [x for x in c.get('targs', []) if isinstance(x, int)]
        v = default_of(eng, ts[1]) if len(ts) > 1 else None
        if v is None:
            v = ('op', 'default')
    return entry_insert(eng, st, e, v)


@model(*entry_paths('Entry', 'and_modify'))
def m_and_modify(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    if e is None:
        return None
    if e[4] != TRUE:
        return args[0]
    return [(s, k, args[0] if k == 'ret' else v) for s, k, v in eng.invoke(st, args[1], [e[3]])]


@model(*entry_paths('OccupiedEntry', 'get', 'get_mut', 'into_mut'))
def m_entry_get(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    return None if e is None else e[3]


@model(*(entry_paths('OccupiedEntry', 'key') + entry_paths('VacantEntry', 'key') + entry_paths('Entry', 'key')))
def m_entry_key(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    return None if e is None else vref(e[2])


@model(*entry_paths('VacantEntry', 'into_key'))
def m_entry_into_key(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    return None if e is None else e[2]


@model(*(entry_paths('VacantEntry', 'insert') + entry_paths('VacantEntry', 'insert_entry')))
def m_vacant_insert(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    return None if e is None else entry_insert(eng, st, e, args[1])


@model(*entry_paths('OccupiedEntry', 'insert', 'remove'))
def m_occupied_insert(eng, st, args, c, t):
    e = the_entry(eng, st, args[0])
    if e is None:
        return None
    old = eng.deref1(st, e[3])
    if c['path'].endswith('insert'):
        entry_insert(eng, st, e, args[1])
    else:
        r, m = rmap(eng, st, e[1])
        eng.write(st, r[1], r[2], ('map', m[1] + (('del', e[2]),)))
    return old


# ------------------------------------------------------------ iterators
E0 = 'elem'


def fresh(src):
    return ('elem', src, 0)


def same_list(x, y):
    return as_segs(x) == as_segs(y)


def as_segs(x):
    return x[1] if x[0] in ('list', 'map') else (('all', x),)


def index_segs(x, back=False):
    """iteration over the indices of a list: each element v stands for its index ('ix', list, v)"""
    def ixs(segs):
        out = []
        for s in expand(segs):
            if s[0] == 'one':
                out.append(('one', ('ixr' if back else 'ix', x, s[1])))
            else:
                out.append(s[:3] + (tuple((f, ixs(y)) for f, y in s[3]),))
        return tuple(out)
    segs = as_segs(x)
    if back:
        segs = reverse_segs(segs)
    return ixs(segs)


def range_iter(eng, st, x):
    f = dict(x[3])
    a, b = eng.peel(st, f['start']), eng.peel(st, f['end'])
    if a[0] == 'int' and b[0] == 'int' and b[1] - a[1] <= 64:
        return ('iter', tuple(('one', I(n)) for n in range(a[1], b[1])))
    if a == I(0) and b[0] == 'len':
        return ('iter', index_segs(b[1]))
    return ('iter', expand((('all', x),)))


def iter_of_value(eng, st, v, owned=False, mut=False):
    """iterator over a value (IntoIterator)"""
    ref = None
    x = v
    while x[0] == 'ref':
        ref = x
        x = eng.read(st, x[1], x[2])
    if x[0] == 'iter':
        return x
    if x[0] == 'struct' and x[1] == OPT:
        return ('iter', ((('one', x[3][0][1] if ref is None else vref(x[3][0][1])),) if x[2] == 'Some' else ()))
    if x[0] == 'map':
        return ('iter', map_iter(eng, st, x, ref, 'kv'))
    if x[0] == 'struct' and x[1] == 'std::ops::Range':
        return range_iter(eng, st, x)
    if x[0] == 'list':
        segs = x[1]
    else:
        segs = (('all', x),)
    if ref is None:
        return ('iter', expand(segs))
    return ('iter', ref_segs(expand(segs), ref))


def expand(segs):
    out = []
    for s in segs:
        if s[0] == 'all':
            e = fresh(s[1])
            out.append(('rep', s[1], e, ((frozenset(), (('one', e),)),)))
        elif s[0] == 'rall':
            src = ('rev', s[1])
            e = fresh(src)
            out.append(('rep', src, e, ((frozenset(), (('one', e),)),)))
        elif s[0] == 'rrep':
            src = ('rev', s[1])
            e = fresh(src)
            out.append(('rep', src, e, subst(s[3], {s[2]: e})))
        elif s[0] in ('part', 'rpart', 'sorted', 'prev', 'rprev', 'restof', 'del'):
            src = ('list', (s,))
            e = fresh(src)
            out.append(('rep', src, e, ((frozenset(), (('one', e),)),)))
        else:
            out.append(s)
    return tuple(out)


def ref_segs(segs, ref=None):
    out = []
    for i, s in enumerate(segs):
        if s[0] == 'one':
            if ref is not None and ref[1][0] != 'V' and all(x[0] == 'one' for x in segs[:i]):
                out.append(('one', ('ref', ref[1], ref[2] + (('i', I(i)),))))
            else:
                out.append(('one', vref(s[1])))
        else:
            out.append(s[:3] + (tuple((f, tuple(('one', mkref(y[1])) if y[0] == 'one' else y for y in expand_in(x))) for f, x in s[3]),))
    return tuple(out)


def expand_in(segs):
    return segs


def mkref(v):
    return sref(v) if opaque(v) else vref(v)


def map_iter(eng, st, m, ref, what):
    out = []
    for s in m[1]:
        if s[0] == 'ins':
            k, v = s[1], s[2]
            if ref is not None:
                k, v = vref(k), vref(v)
            out.append(('one', {'kv': ('tuple', (k, v)), 'k': k, 'v': v}[what]))
        elif s[0] == 'all':
            e = fresh(s[1])
            k, v = ('fld', e, '#key'), e
            if ref is not None:
                k, v = vref(k), sref(v)
            out.append(('rep', s[1], e, ((frozenset(), (('one', {'kv': ('tuple', (k, v)), 'k': k, 'v': v}[what]),)),)))
        elif s[0] == 'rep':
            alts = []
            for f, segs in s[3]:
                alts.append((f, map_iter(eng, st, ('map', segs), ref, what)))
            out.append(s[:3] + (tuple(alts),))
        else:
            src = ('map', m[1])
            e = fresh(src)
            k, v = ('fld', e, '#key'), e
            if ref is not None:
                k, v = vref(k), sref(v)
            return (('rep', src, e, ((frozenset(), (('one', {'kv': ('tuple', (k, v)), 'k': k, 'v': v}[what]),)),)),)
    return tuple(out)


@model('std::iter::IntoIterator::into_iter')
def m_into_iter(eng, st, args, c, t):
    ty = eng.p.types[c['targs'][0]]
    pt = eng.p.types[eng.p.peel_ty(c['targs'][0])]
    v = eng.peel(st, args[0])
    if v[0] == 'iter':
        return args[0]
    if pt.get('path') in MAPS or v[0] == 'map':
        return ('iter', map_iter(eng, st, as_map(v), args[0] if args[0][0] == 'ref' else None, 'kv'))
    if ty['k'] == 'ref' and args[0][0] != 'ref':
        return iter_of_value(eng, st, sref(args[0]))
    if pt['k'] == 'adt' and pt['path'] == OPT:
        out = []
        for s, var in eng.fork_variant(st, v, ['None', 'Some']):
            p = eng.payload(s, v, 'Some') if var == 'Some' else None
            out.append((s, 'ret', ('iter', () if var == 'None' else (('one', p if ty['k'] != 'ref' else mkref(p)),))))
        return out
    return iter_of_value(eng, st, args[0])


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::slice::<impl [T]>::iter')
def m_iter(eng, st, args, c, t):
    return iter_of_value(eng, st, args[0] if args[0][0] == 'ref' else sref(args[0]))


@model('std::option::Option::iter')
def m_opt_iter(eng, st, args, c, t):
    v = eng.peel(st, args[0])
    out = []
    for s, var in eng.fork_variant(st, v, ['None', 'Some']):
        out.append((s, 'ret', ('iter', () if var == 'None' else (('one', mkref(eng.payload(s, v, 'Some'))),))))
    return out


@model('std::collections::HashMap::iter', 'std::collections::BTreeMap::iter', 'std::collections::HashMap::iter_mut', 'std::collections::BTreeMap::iter_mut',
       'serde_yaml::Mapping::iter')
def m_miter(eng, st, args, c, t):
    return ('iter', map_iter(eng, st, as_map(eng.peel(st, args[0])), args[0], 'kv'))


@model('std::collections::HashMap::values', 'std::collections::BTreeMap::values', 'std::collections::HashMap::values_mut',
       'std::collections::BTreeMap::values_mut')
def m_mvals(eng, st, args, c, t):
    return ('iter', map_iter(eng, st, as_map(eng.peel(st, args[0])), args[0], 'v'))


@model('std::collections::HashMap::keys', 'std::collections::BTreeMap::keys', 'std::collections::HashSet::iter', 'std::collections::BTreeSet::iter')
def m_mkeys(eng, st, args, c, t):
    return ('iter', map_iter(eng, st, as_map(eng.peel(st, args[0])), args[0], 'k'))


@model('std::collections::HashMap::into_values', 'std::collections::BTreeMap::into_values')
def m_mivals(eng, st, args, c, t):
    return ('iter', map_iter(eng, st, as_map(eng.peel(st, args[0])), None, 'v'))


@model('std::vec::Vec::drain', 'std::collections::HashMap::drain')
def m_drain(eng, st, args, c, t):
    r, l = rlist(eng, st, args[0])
    eng.write(st, r[1], r[2], ('list', ()))
    return ('iter', expand(l[1]))


@model('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
def m_cloned(eng, st, args, c, t):
    it = eng.as_iter(st, args[0])
    return ('iter', unref_segs2(eng, st, it[1]))


def unref_segs2(eng, st, segs):
    out = []
    for s in segs:
        if s[0] == 'one':
            out.append(('one', eng.deref1(st, s[1])))
        elif s[0] == 'rep':
            out.append(s[:3] + (tuple((f, unref_segs2(eng, st, x)) for f, x in s[3]),))
        else:
            out.append(s)
    return tuple(out)


def over(eng, st, segs, f):
    """run f(st, elem) -> [(st,kind,(yield segs))] over the sequence.
    returns [(st, segs)] , outs"""
    cur = [(st, ())]
    outs = []
    for sg in segs:
        nxt = []
        for s, y in cur:
            if sg[0] == 'one':
                for s2, k, v in f(s, sg[1]):
                    if k == 'ret':
                        nxt.append((s2, y + v))
                    else:
                        outs.append((s2, k, v))
            else:
                g = sg if sg[0] == 'rep' else expand((sg,))[0]

                def body(s1, elem):
                    arr, o = [], []
                    for s2, k, v in f(s1, elem):
                        if k == 'ret':
                            arr.append((s2, v))
                        else:
                            o.append((s2, k, v))
                    return arr, o, {}
                ex, o, _ = eng.summarize(s, g, body, (-1, frozenset()))
                outs.extend(o)
                nxt.extend((x, y + yy) for x, yy in ex)
        cur = nxt
    return cur, outs


def adapter(eng, st, args, f):
    it = eng.as_iter(st, eng.peel(st, args[0]) if args[0][0] == 'ref' else args[0])
    cur, outs = over(eng, st, it[1], f)
    return [(s, 'ret', ('iter', y)) for s, y in cur] + outs


def spread(eng, st, fn, v):
    return eng.invoke(st, fn, [v])


@model('std::iter::Iterator::map')
def m_map(eng, st, args, c, t):
    def f(s, x):
        return [(s2, k, (('one', v),) if k == 'ret' else v) for s2, k, v in spread(eng, s, args[1], x)]
    return adapter(eng, st, args, f)


@model('std::iter::Iterator::inspect', 'std::iter::Iterator::for_each')
def m_foreach(eng, st, args, c, t):
    insp = c['path'].endswith('inspect')

    def f(s, x):
        return [(s2, k, ((('one', x),) if insp else ()) if k == 'ret' else v) for s2, k, v in spread(eng, s, args[1], x)]
    r = adapter(eng, st, args, f)
    if insp:
        return r
    return [(s, k, UNIT if k == 'ret' else v) for s, k, v in r]


@model('std::iter::Iterator::try_for_each')
def m_tryforeach(eng, st, args, c, t):
    def f(s, x):
        out = []
        for s2, k, v in spread(eng, s, args[1], x):
            if k != 'ret':
                out.append((s2, k, v))
                continue
            for s3, var in eng.fork_variant(s2, v, ['Ok', 'Err']):
                if var in ('Ok', 'Some', 'Continue'):
                    out.append((s3, 'ret', ()))
                else:
                    out.append((s3, 'brk', v if v[0] == 'struct' else err(eng.payload(s3, v, var))))
        return out
    r = adapter(eng, st, args, f)
    return [(s, 'ret' if k in ('ret', 'brk') else k, ok(UNIT) if k == 'ret' else v) for s, k, v in r]


@model('std::iter::Iterator::filter')
def m_filter(eng, st, args, c, t):
    def f(s, x):
        out = []
        for s2, k, v in spread(eng, s, args[1], vref(x)):
            if k != 'ret':
                out.append((s2, k, v))
                continue
            for s3, b in eng.fork_bool(s2, v):
                out.append((s3, 'ret', (('one', x),) if b else ()))
        return out
    return adapter(eng, st, args, f)


@model('std::iter::Iterator::filter_map', 'std::iter::Iterator::map_while')
def m_filter_map(eng, st, args, c, t):
    def f(s, x):
        out = []
        for s2, k, v in spread(eng, s, args[1], x):
            if k != 'ret':
                out.append((s2, k, v))
                continue
            for s3, var in eng.fork_variant(s2, v, ['None', 'Some']):
                out.append((s3, 'ret', (('one', eng.payload(s3, v, 'Some')),) if var == 'Some' else ()))
        return out
    return adapter(eng, st, args, f)


@model('std::iter::Iterator::flat_map', 'std::iter::Iterator::flatten')
def m_flat_map(eng, st, args, c, t):
    fl = c['path'].endswith('flatten')

    def f(s, x):
        out = []
        rs = [(s, 'ret', x)] if fl else spread(eng, s, args[1], x)
        for s2, k, v in rs:
            if k != 'ret':
                out.append((s2, k, v))
                continue
            pv = eng.peel(s2, v)
            is_res = pv[0] == 'struct' and pv[1] in (OPT, RES)
            if is_res:
                out.append((s2, 'ret', (('one', pv[3][0][1]),) if pv[2] in ('Some', 'Ok') else ()))
            else:
                out.append((s2, 'ret', iter_of_value(eng, s2, v)[1]))
        return out
    return adapter(eng, st, args, f)


@model('std::iter::Iterator::chain')
def m_chain(eng, st, args, c, t):
    a = eng.as_iter(st, args[0])
    b = iter_of_value(eng, st, args[1])
    return ('iter', a[1] + b[1])


@model('std::iter::Iterator::rev')
def m_rev(eng, st, args, c, t):
    a = eng.as_iter(st, args[0])
    return ('iter', expand(reverse_segs(a[1])))


@model('std::iter::Iterator::enumerate')
def m_enum(eng, st, args, c, t):
    it = eng.as_iter(st, args[0])
    out = []
    n = 0
    concrete = True
    for s in it[1]:
        if s[0] == 'one':
            out.append(('one', ('tuple', (I(n) if concrete else ('op', 'count', I(n)), s[1]))))
            n += 1
        else:
            whole = len(it[1]) == 1 and len(s[3]) == 1 and not s[3][0][0] and len(s[3][0][1]) == 1

            def en(segs, e):
                # the position in what is enumerated is that in the source only if nothing comes before or is left out
                i = ('idxvar', e) if whole else ('op', 'count', e, ('list', tuple(out)))
                return tuple(('one', ('tuple', (i, x[1]))) if x[0] == 'one' else x for x in segs)
            concrete = False
            out.append(s[:3] + (tuple((f, en(x, s[2])) for f, x in s[3]),))
    return ('iter', tuple(out))


@model('std::iter::Iterator::zip', 'std::iter::zip')
def m_zip(eng, st, args, c, t):
    a = iter_of_value(eng, st, args[0])
    b = iter_of_value(eng, st, args[1])
    if all(s[0] == 'one' for s in a[1] + b[1]):
        return ('iter', tuple(('one', ('tuple', (x[1], y[1]))) for x, y in zip(a[1], b[1])))
    src = ('zip', eng.deep(st, ('list', a[1])), eng.deep(st, ('list', b[1])))
    e = fresh(src)

    def form(it, name):
        v = ('fld', e, name)
        isref = any(y[0] == 'one' and y[1][0] == 'ref' for s in it[1] for y in ([s] if s[0] == 'one' else [z for f, x in s[3] for z in x]))
        return sref(v) if isref else v
    return ('iter', (('rep', src, e, ((frozenset(), (('one', ('tuple', (form(a, '0'), form(b, '1')))),)),)),))


@model('std::iter::Iterator::skip', 'std::iter::Iterator::take', 'std::iter::Iterator::step_by', 'std::iter::Iterator::skip_while',
       'std::iter::Iterator::take_while')
def m_skip(eng, st, args, c, t):
    it = eng.as_iter(st, args[0])
    k = c['path'].rsplit('::', 1)[1]
    n = eng.peel(st, args[1])
    if n[0] == 'int' and all(s[0] == 'one' for s in it[1]):
        return ('iter', it[1][n[1]:] if k == 'skip' else it[1][:n[1]])
    if n == I(0) and k == 'skip':
        return it
    src = (k, eng.deep(st, ('list', it[1])), eng.deep(st, n))
    e = fresh(src)
    isref = any(y[0] == 'one' and y[1][0] == 'ref' for s in it[1] for y in ([s] if s[0] == 'one' else [z for f, x in s[3] for z in x]))
    return ('iter', (('rep', src, e, ((frozenset(), (('one', sref(e) if isref else e),)),)),))


@model('std::iter::Iterator::count')
def m_count(eng, st, args, c, t):
    it = eng.as_iter(st, args[0])
    return eng.length(st, ('list', it[1]))


@model('std::iter::Iterator::last', 'std::iter::Iterator::nth', 'std::iter::Iterator::max', 'std::iter::Iterator::min',
       'std::iter::Iterator::max_by_key', 'std::iter::Iterator::min_by_key')
def m_last(eng, st, args, c, t):
    it = eng.as_iter(st, args[0])
    k = c['path'].rsplit('::', 1)[1]
    segs = it[1]
    if not segs:
        return NONE
    if k == 'last' and segs[-1][0] == 'one':
        return some(segs[-1][1])
    if k == 'nth':
        n = eng.peel(st, args[1])
        if n[0] == 'int' and n[1] < len(segs) and all(s[0] == 'one' for s in segs[:n[1] + 1]):
            return some(segs[n[1]][1])
    d = eng.deep(st, ('list', segs))
    isref = any(y[0] == 'one' and y[1][0] == 'ref' for s in segs for y in ([s] if s[0] == 'one' else [z for f, x in s[3] for z in x]))
    out = []
    for s, b in eng.fork_bool(st, mk_empty(d)):
        x = (k, d) + tuple(eng.deep(s, a) for a in args[1:])
        out.append((s, 'ret', NONE if b else some(sref(x) if isref else x)))
    return out


@model('std::iter::Iterator::fold', 'std::iter::Iterator::try_fold')
def m_fold(eng, st, args, c, t):
    tryf = c['path'].endswith('try_fold')
    it = eng.as_iter(st, eng.peel(st, args[0]) if args[0][0] == 'ref' else args[0])
    key = ('F', len(st.frames), len(eng.active))
    st.setg(key, args[1])

    def f(s, x):
        out = []
        for s2, k, v in eng.invoke(s, args[2], [s.glob[key], x]):
            if k != 'ret':
                out.append((s2, k, v))
                continue
            if tryf:
                for s3, var in eng.fork_variant(s2, v, ['Ok', 'Err']):
                    if var in ('Ok', 'Some', 'Continue'):
                        s3.setg(key, eng.payload(s3, v, var))
                        out.append((s3, 'ret', ()))
                    else:
                        out.append((s3, 'brk', v if v[0] == 'struct' else err(eng.payload(s3, v, var))))
            else:
                s2.setg(key, v)
                out.append((s2, 'ret', ()))
        return out
    cur, outs = over(eng, st, it[1], f)
    res = []
    for s, y in cur:
        v = s.glob[key]
        s.delg(key)
        res.append((s, 'ret', ok(v) if tryf else v))
    for s, k, v in outs:
        s.delg(key)
        res.append((s, 'ret' if k == 'brk' else k, v))
    return res


def search(eng, st, args, pred):
    """first element satisfying pred(s, x)->[(s,k,boolvalue, payload)].
    returns [(st, kind, payload-or-None)]: kind 'hit','miss', other"""
    r = args[0]
    it = eng.as_iter(st, eng.peel(st, r) if r[0] == 'ref' else r)
    outs = []
    cur = [st]
    for sg in it[1]:
        nxt = []
        for s in cur:
            if sg[0] == 'one':
                for s2, k, b, pl in pred(s, sg[1]):
                    if k != 'ret':
                        outs.append((s2, k, pl))
                        continue
                    for s3, hit in eng.fork_bool(s2, b):
                        if hit:
                            outs.append((s3, 'hit', pl))
                        else:
                            nxt.append(s3)
                if s is cur[-1] and len(nxt) > 1:
                    nxt = [o[0] for o in eng.merge([(x, 'ret', UNIT) for x in nxt])]
                continue
            g = sg if sg[0] == 'rep' else expand((sg,))[0]
            src, e, alts = g[1], g[2], g[3]
            n = sum(1 for a in eng.active if a[:2] == e[:2])
            e2 = e[:2] + (n,)
            if e2 != e:
                alts = subst(alts, {e: e2})
                e = e2
            eng.active.append(e)
            hits, misses = [], []
            base = s.fork()
            for facts, segs in alts:
                s1 = base.fork()
                okk = True
                for a, val in sorted(facts, key=repr):
                    if a[0] in ('is', 'val'):
                        s1.setf(a, val)
                    else:
                        r1 = eng.assume(s1, a, val)
                        if not r1:
                            okk = False
                            break
                        s1 = r1[0]
                if not okk:
                    continue
                c1 = [s1]
                for y in segs:
                    c2 = []
                    for s2 in c1:
                        if y[0] != 'one':
                            raise AnalysisError('search over nested sequence in ' + eng.where())
                        for s3, k, b, pl in pred(s2, y[1]):
                            if k != 'ret':
                                outs.append((s3, k, pl))
                                continue
                            for s4, hit in eng.fork_bool(s3, b):
                                if hit:
                                    hits.append((s4, pl))
                                else:
                                    c2.append(s4)
                    c1 = c2
                misses.extend(c1)
            eng.active.pop()
            # membership atom from the hit conditions
            if not hits:
                nxt.append(s)
                continue
            conds = merge_dnf([frozenset(eng.delta(base, h)) for h, _ in hits])
            if len(conds) == 1:
                cond = conds[0]
                atom = eng.has_atom(src, e, cond) if cond else mk_not(mk_empty(('list', (g,))))
                look = ('lookup', atom[1], atom[2], atom[3]) if atom[0] == 'has' else ('first', ('list', (g,)))
                m = {e: look}
                for s5 in eng.assume(base.fork(), atom, True):
                    pls = {subst(pl, m) for _, pl in hits}
                    if len(pls) == 1:
                        outs.append((s5, 'hit', list(pls)[0]))
                    else:
                        for h, pl in hits:
                            s6 = s5.fork()
                            for a, val in eng.delta(base, h):
                                s6.setf(subst(a, m), subst(val, m) if isinstance(val, tuple) else val)
                            outs.append((s6, 'hit', subst(pl, m)))
                nxt.extend(eng.assume(base.fork(), atom, False))
            else:
                fs = frozenset(frozenset(subst(tuple(x), {e: ('it',)}) for x in cnd) for cnd in conds)
                atom = ('has', src, ('pred', fs), UNIT)
                look = ('lookup', src, ('pred', fs), UNIT)
                m = {e: look}
                for s5 in eng.assume(base.fork(), atom, True):
                    for h, pl in hits:
                        s6 = s5.fork()
                        for a, val in eng.delta(base, h):
                            s6.setf(subst(a, m), subst(val, m) if isinstance(val, tuple) else val)
                        outs.append((s6, 'hit', subst(pl, m)))
                nxt.extend(eng.assume(base.fork(), atom, False))
        cur = nxt
    for s in cur:
        outs.append((s, 'miss', None))
    return outs


def boolpred(eng, fn, byref):
    def pred(s, x):
        arg = vref(x) if byref else x
        return [(s2, k, v, x if k == 'ret' else v) for s2, k, v in eng.invoke(s, fn, [arg])]
    return pred


@model('std::iter::Iterator::find')
def m_find(eng, st, args, c, t):
    r = search(eng, st, args, boolpred(eng, args[1], True))
    return [(s, 'ret' if k in ('hit', 'miss') else k, some(v) if k == 'hit' else NONE if k == 'miss' else v) for s, k, v in r]


@model('std::iter::Iterator::any')
def m_any(eng, st, args, c, t):
    r = search(eng, st, args, boolpred(eng, args[1], False))
    return [(s, 'ret' if k in ('hit', 'miss') else k, TRUE if k == 'hit' else FALSE if k == 'miss' else v) for s, k, v in eng_dedupe(eng, r)]


def eng_dedupe(eng, r):
    return r


@model('std::iter::Iterator::all')
def m_all(eng, st, args, c, t):
    base = boolpred(eng, args[1], False)

    def pred(s, x):
        return [(s2, k, mk_not(b) if k == 'ret' else b, pl) for s2, k, b, pl in base(s, x)]
    r = search(eng, st, args, pred)
    return [(s, 'ret' if k in ('hit', 'miss') else k, FALSE if k == 'hit' else TRUE if k == 'miss' else v) for s, k, v in r]


@model('std::iter::Iterator::position')
def m_position(eng, st, args, c, t):
    r0 = args[0]
    it = eng.as_iter(st, eng.peel(st, r0) if r0[0] == 'ref' else r0)
    l = eng.deep(st, ('list', it[1]))
    # normalise: iteration over `all coll`
    if len(l[1]) == 1 and l[1][0][0] == 'rep' and len(l[1][0][3]) == 1 and l[1][0][3][0][1] == (('one', l[1][0][2]),):
        l = ('list', (('all', l[1][0][1]),))
    r = search(eng, st, args, boolpred(eng, args[1], False))
    return [(s, 'ret' if k in ('hit', 'miss') else k,
             some(('posof', l, eng.deep(s, v))) if k == 'hit' else NONE if k == 'miss' else v) for s, k, v in r]


@model('std::iter::Iterator::find_map')
def m_find_map(eng, st, args, c, t):
    def pred(s, x):
        out = []
        for s2, k, v in eng.invoke(s, args[1], [x]):
            if k != 'ret':
                out.append((s2, k, v, v))
                continue
            for s3, var in eng.fork_variant(s2, v, ['None', 'Some']):
                out.append((s3, 'ret', ('bool', var == 'Some'), eng.payload(s3, v, 'Some') if var == 'Some' else None))
        return out
    r = search(eng, st, args, pred)
    return [(s, 'ret' if k in ('hit', 'miss') else k, some(v) if k == 'hit' else NONE if k == 'miss' else v) for s, k, v in r]


def collect_map(eng, st, segs):
    out = []
    for s in segs:
        if s[0] == 'one':
            kv = s[1]
            if kv[0] == 'tuple' and len(kv[1]) == 2:
                out.append(('ins', eng.deep(st, kv[1][0]), kv[1][1]))
            else:
                out.append(('ins', eng.deep(st, kv), UNIT))
        elif s[0] == 'rep':
            out.append(s[:3] + (tuple((f, collect_map(eng, st, x)[1]) for f, x in s[3]),))
        else:
            out.append(s)
    return ('map', tuple(out))


def collect_to(eng, st, segs, ty):
    """-> outcomes"""
    path = ty.get('path')
    if path in (RES, OPT):
        good, bad = ('Ok', 'Err') if path == RES else ('Some', 'None')
        inner = eng.p.types[ty['args'][0]]

        def f(s, x):
            out = []
            for s2, var in eng.fork_variant(s, eng.peel(s, x), [good, bad]):
                if var == good:
                    out.append((s2, 'ret', (('one', eng.payload(s2, eng.peel(s2, x), good)),)))
                else:
                    xx = eng.peel(s2, x)
                    out.append((s2, 'brk', (xx if xx[0] == 'struct' else (err(eng.payload(s2, xx, bad)) if bad == 'Err' else NONE))))
            return out
        cur, outs = over(eng, st, segs, f)
        res = []
        for s, y in cur:
            for s2, k, v in collect_to(eng, s, y, inner):
                res.append((s2, k, ('struct', path, good, (('0', v),)) if k == 'ret' else v))
        return res + [(s, 'ret' if k == 'brk' else k, v) for s, k, v in outs]
    if path in MAPS:
        return [(st, 'ret', collect_map(eng, st, segs))]
    if path == 'std::string::String':
        return [(st, 'ret', mk_join(('list', eng.deep(st, compact(segs))), S('')))]
    return [(st, 'ret', mk_list(compact(segs)))]


def compact(segs):
    return tuple(segs)


@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(eng, st, args, c, t):
    it = iter_of_value(eng, st, args[0])
    if c['path'].endswith('from_iter'):
        ty = eng.p.types[c['targs'][0]]
    else:
        ty = eng.p.types[c['targs'][1]]
    return collect_to(eng, st, it[1], ty)


# ------------------------------------------------------------ paths
@model('std::path::Path::join')
def m_pjoin(eng, st, args, c, t):
    return ('pathjoin', eng.deep(st, args[0]), eng.deep(st, args[1]))


@model('std::path::PathBuf::push')
def m_ppush(eng, st, args, c, t):
    r = args[0]
    eng.write(st, r[1], r[2], ('pathjoin', eng.deep(st, eng.read(st, r[1], r[2])), eng.deep(st, args[1])))
    return UNIT


@model('std::path::Path::display', 'std::path::Path::to_string_lossy', 'std::ffi::OsStr::to_string_lossy')
def m_pdisplay(eng, st, args, c, t):
    return eng.deep(st, args[0])


# colored: the text is what matters
_COLOURS = ('black', 'red', 'green', 'yellow', 'blue', 'magenta', 'purple', 'cyan', 'white')
for _n in tuple(p + c for p in ('', 'bright_', 'on_', 'on_bright_') for c in _COLOURS) + (
        'dimmed', 'bold', 'underline', 'italic', 'normal', 'clear', 'color', 'on_color', 'truecolor', 'on_truecolor', 'custom_color', 'reverse', 'reversed', 'blink', 'strikethrough'):
    def _mk():
        def f(eng, st, args, c, t):
            return [(st, 'ret', to_str(eng, st, args[0]))]
        return f
    MODELS['colored::Colorize::' + _n] = _mk()


@model('std::iter::once')
def m_iter_once(eng, st, args, c, t):
    return ('iter', (('one', args[0]),))


@model('std::iter::empty')
def m_iter_empty(eng, st, args, c, t):
    return ('iter', ())


@model('std::slice::from_ref', 'core::slice::from_ref')
def m_from_ref(eng, st, args, c, t):
    return vref(('list', (('one', eng.deref1(st, args[0])),)))


@model('postgres::Client::build_transaction')
def m_build_tx(eng, st, args, c, t):
    return ('struct', 'txbuilder', None, (('0', args[0]),))


@model('postgres::TransactionBuilder::start', "postgres::TransactionBuilder::<'a>::start")
def m_start_tx(eng, st, args, c, t):
    b = eng.peel(st, args[0])
    if b[0] != 'struct' or b[1] != 'txbuilder':
        return None
    return eng.opaque_call(st, 'postgres::Client::transaction', c, [b[3][0][1]], t)


@model('std::clone::Clone::clone_from', 'std::borrow::ToOwned::clone_into')
def m_clone_from(eng, st, args, c, t):
    d, v = (args[1], args[0]) if c['path'].endswith('clone_into') else (args[0], args[1])
    v = eng.peel(st, v)
    while d[0] == 'ref':
        x = eng.read(st, d[1], d[2])
        if x[0] != 'ref':
            break
        d = x
    if d[0] != 'ref':
        return None
    eng.write(st, d[1], d[2], v)
    return UNIT


# ------------------------------------------------------------ texts known in part
import text as T


def text_model(*names):
    """a model that answers only when the text is known well enough; otherwise the plain model does"""
    def deco(f):
        for n in names:
            old = MODELS.get(n)

            def g(eng, st, args, c, t, old=old, k=n.rsplit('::', 1)[1]):
                if getattr(eng, 'texts', None):
                    a = [eng.deep(st, x) for x in args]
                    try:
                        if a and (a[0][0] in ('caps', 'match', 'regex', 'texthead') or a[0][0] == 'fld' and k == 'name' or T.known(eng, a[0])):
                            r = f(eng, st, a, k)
                            if r is not None:
                                return [(st, 'ret', r)]
                    except T.Unknown:
                        pass
                return old(eng, st, args, c, t) if old else None
            MODELS[n] = g
        return f
    return deco


STR = 'core::str::<impl str>::'
CH = ('str', 'char')


@text_model(STR + 'split')
def t_split(eng, st, a, k):
    if a[1][0] in CH and a[1][1]:
        return ('iter', tuple(('one', vref(x)) for x in T.split(eng, a[0], a[1][1])))


@text_model(STR + 'split_once', STR + 'rsplit_once')
def t_split_once(eng, st, a, k):
    if a[1][0] in CH and a[1][1]:
        r = (T.cut if k == 'split_once' else T.rcut)(eng, T.pieces(a[0]), a[1][1])
        return NONE if r is None else some(('tuple', (vref(T.whole(r[0])), vref(T.whole(r[1])))))


@text_model(STR + 'trim', STR + 'trim_start', STR + 'trim_end')
def t_trim(eng, st, a, k):
    return vref(T.trim(eng, a[0], k != 'trim_end', k != 'trim_start'))


@text_model(STR + 'starts_with', STR + 'ends_with', STR + 'contains')
def t_test(eng, st, a, k):
    if a[1][0] in CH:
        return ('bool', {'starts_with': T.starts, 'ends_with': T.ends, 'contains': T.contains}[k](eng, T.pieces(a[0]), a[1][1]))
    p = char_test(eng, a[1])
    if p and k != 'contains':
        ps = T.pieces(a[0])
        if not ps:
            return FALSE
        x = ps[0] if k == 'starts_with' else ps[-1]
        if isinstance(x, str):
            return ('bool', p(x[0] if k == 'starts_with' else x[-1]))
        if p is str.isspace and T.trimmed(eng, x):
            return FALSE


CHAR_TESTS = {'is_whitespace': str.isspace, 'is_alphabetic': str.isalpha, 'is_alphanumeric': str.isalnum, 'is_numeric': str.isnumeric,
              'is_uppercase': str.isupper, 'is_lowercase': str.islower}


def char_test(eng, v):
    """the test of single characters a function item stands for"""
    if v[0] != 'fn':
        return None
    n = eng.p.np(eng.p.types[v[1]]['callee']['path'])
    return CHAR_TESTS.get(n.rsplit('::', 1)[1]) if 'char' in n else None


@text_model(STR + 'strip_prefix', STR + 'strip_suffix')
def t_strip(eng, st, a, k):
    if a[1][0] not in CH:
        return None
    ps, lit = T.pieces(a[0]), a[1][1]
    if k == 'strip_prefix':
        return some(vref(T.whole(T.tail(ps, len(lit.encode()))))) if T.starts(eng, ps, lit) else NONE
    if not T.ends(eng, ps, lit):
        return NONE
    while lit:
        n = min(len(ps[-1]), len(lit))
        ps[-1], lit = ps[-1][:len(ps[-1]) - n], lit[:len(lit) - n]
        if not ps[-1]:
            ps.pop()
    return some(vref(T.whole(ps)))


@text_model(STR + 'get')
def t_get(eng, st, a, k):
    i = a[1]
    if i[0] != 'struct':
        return None
    f = dict(i[3])
    n = f.get('start') or f.get('end')
    if n is None or n[0] != 'int' or 'start' in f and 'end' in f and n != I(0):
        return None
    if i[1].endswith('RangeTo'):
        try:
            h = T.head(T.pieces(a[0]), n[1])
        except T.Unknown:
            return some(vref(('texthead', a[0], n)))      # may also be too short: no answer differs then
        return NONE if h is None else some(vref(S(h)))
    if i[1].endswith('RangeFrom'):
        return some(vref(T.whole(T.tail(T.pieces(a[0]), n[1]))))


@text_model(STR + 'eq_ignore_ascii_case')
def t_eqi(eng, st, a, k):
    if a[0][0] in CH and a[1][0] in CH:
        return ('bool', low(a[0][1]) == low(a[1][1]))
    if a[0][0] == 'texthead' and a[1][0] in CH:
        lit = ''
        for p in T.pieces(a[0][1]):
            if not isinstance(p, str):
                break
            lit += p
        n = min(len(lit), len(a[1][1]))
        if low(lit[:n]) != low(a[1][1][:n]):
            return FALSE
        at = T.atom(eng, T.pieces(a[0][1])[0]) if not lit else None
        if at and set(a[1][1].lower()) & set(at.get('no', '').lower()):
            return FALSE


def low(s):
    return ''.join(chr(ord(ch) + 32) if 'A' <= ch <= 'Z' else ch for ch in s)


@text_model(STR + 'len', 'std::string::String::len')
def t_len(eng, st, a, k):
    if a[0][0] == 'str':
        return I(len(a[0][1].encode()))


@text_model(STR + 'to_lowercase', STR + 'to_ascii_lowercase')
def t_low(eng, st, a, k):
    if a[0][0] == 'str':
        return S(low(a[0][1]))


@text_model('regex::Regex::new')
def t_regex(eng, st, a, k):
    if a[0][0] == 'str':
        return ok(('regex', a[0][1]))


@text_model('regex::Regex::captures', 'regex::Regex::is_match')
def t_caps(eng, st, a, k):
    if a[0][0] == 'regex' and T.known(eng, a[1]):
        r = T.match(eng, a[0][1], a[1])
        if k == 'is_match':
            return ('bool', r is not None)
        return NONE if r is None else some(('caps', tuple(sorted(r.items(), key=repr))))


@text_model('regex::Captures::name', 'regex::Captures::get')
def t_name(eng, st, a, k):
    if a[0][0] == 'caps' and a[1][0] in ('str', 'int'):
        r = dict(a[0][1]).get(a[1][1])
        return NONE if r is None else some(('match', r))


    if a[0][0] == 'fld' and a[0][1][:2] == ('call', 'regex::Regex::captures') and a[0][1][2][0][0] == 'regex' and a[1][0] == 'str':
        # a group that every match has
        if T.always(a[0][1][2][0][1], a[1][1]):
            return some(('fld', ('call', 'regex::Captures::name', (a[0], a[1]), 0), 'Some.0'))


@text_model('regex::Match::as_str')
def t_asstr(eng, st, a, k):
    if a[0][0] == 'match':
        return vref(a[0][1])


@text_model(STR + 'chars')
def t_chars(eng, st, a, k):
    segs = []
    ps = T.pieces(a[0])
    for i, p in enumerate(ps):
        if isinstance(p, str):
            segs += [('one', ('char', ch)) for ch in p]
            continue
        if i == 0 and T.trimmed(eng, p):
            segs.append(('one', ('fld', p, 'first char')))
        segs.append(('all', ('call', STR + 'chars', (T.whole([p]),), 0)))
    return ('iter', expand(tuple(segs)))


def is_char(name, test):
    @model('std::char::methods::<impl char>::' + name, 'core::char::methods::<impl char>::' + name)
    def f(eng, st, args, c, t):
        v = eng.deep(st, args[0])
        while v[0] == 'ref':
            v = eng.deep(st, eng.peel(st, v))
        if v[0] == 'char':
            return [(st, 'ret', ('bool', test(v[1])))]
        if test is str.isspace and v[0] == 'fld' and v[2] == 'first char':
            return [(st, 'ret', FALSE)]
        return None


for n_, t_ in CHAR_TESTS.items():
    is_char(n_, t_)


def generic_result(name, on):
    """Result::map and friends where the error type is a parameter, so that there is no instance to inline"""
    @model('std::result::Result::' + name)
    def m(eng, st, args, c, t):
        if 'fn' in c:
            return None
        out = []
        for s, w in eng.fork_variant(st, args[0], ['Ok', 'Err']):
            if w != on:
                p = eng.payload(s, args[0], w)
                out.append((s, 'ret', ok(p) if w == 'Ok' else err(p)))
                continue
            for s2, k, v in eng.invoke(s, args[1], [eng.payload(s, args[0], w)]):
                if k == 'ret' and name != 'and_then':
                    v = ok(v) if w == 'Ok' else err(v)
                out.append((s2, k, v))
        return out
    return m


for _n, _on in (('map', 'Ok'), ('map_err', 'Err'), ('and_then', 'Ok')):
    generic_result(_n, _on)
