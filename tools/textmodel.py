"""Models of paths and text: PathBuf/OsString/String values are sequences of text pieces.

A text is a 'q' value whose segments are ('s', literal) and ('x', data, len) where data is
('op', args...) with args texts or plain values.  `evaltext` gives the text for chosen values
of the symbolic pieces; `slashfree` proves a piece is a single path component."""
import terms as T
from terms import const, is_const, addc, sub
import models as M
from models import model, deref, get, put, window, subseq, usz, boolv, some, ok, err, NONE
from absint import UNIT

TEXTY = ('String', 'str', 'PathBuf', 'Path', 'OsString', 'OsStr')


def lit(s):
    return ('q', (('s', s),)) if s else ('q', ())


def mk(*data):
    return ('q', (('x', tuple(data), T.fresh('tlen', 0, 1 << 40, 'str')),))


def is_lit(q):
    return all(s[0] == 's' for s in q[1])


def litval(q):
    return ''.join(s[1] for s in q[1])


def norm_text(q):
    """Merge literal pieces and constant bytes; None if the sequence is not text."""
    out = []
    buf = bytearray()
    for s in q[1]:
        if s[0] == 's':
            buf += s[1].encode()
            continue
        if s[0] == 'v' and s[1][0] == 'n' and is_const(s[1][1]):
            buf.append(s[1][1][0] & 255)
            continue
        if buf:
            out.append(('s', buf.decode('utf8', 'replace'))); buf = bytearray()
        if s[0] == 'x':
            out.append(s)
        elif s[0] == 'n' or s[0] == 'v' or s[0] == 'g':
            out.append(('x', ('any', s[1]), s[1] if s[0] != 'v' else T.ONE))
        else:
            return None
    if buf:
        out.append(('s', buf.decode('utf8', 'replace')))
    return ('q', tuple(out))


def text(ip, st, v, depth=0):
    """The text denoted by a value (by value, by reference, Display wrapper, Cow...)."""
    if v[0] == 'q':
        return norm_text(v)
    if v[0] == 't':
        return None
    if v[0] == 'e' and depth < 6:
        if len(v[1]) == 1 and v[1][0][1]:
            return text(ip, st, v[1][0][1][0], depth + 1)
        return None
    if v[0] == 's' and v[1] and depth < 6:
        return text(ip, st, v[1][0], depth + 1)
    if v[0] == 'r':
        if v[3] is not None and v[3][0] == 'w':
            q = get(ip, st, v)
            if q[0] == 'q':
                return norm_text(subseq(ip, st, q, v[3][1], v[3][2]))
            return None
        x = get(ip, st, v)
        if depth < 6:
            return text(ip, st, x, depth + 1)
    return None


def ref_to(ip, st, q):
    oid = ip.new_obj(st, q, 'txt')
    return ('r', oid, (), ('w', T.ZERO, ip.seq_len(q)))


def give(ip, st, q, dty):
    """q as a value of type dty (owned, reference or Cow)."""
    t = ip.types[dty]
    if t['k'] in ('ref', 'ptr'):
        return ref_to(ip, st, q)
    if t['k'] == 'adt' and t['name'].rsplit('::', 1)[-1] == 'Cow':
        return ('e', ((0, (ref_to(ip, st, q),)),), None)
    return q


# ---------------------------------------------------------------- component reasoning
NUMERIC = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64', 'bool')


def slashfree(q, names=False):
    """The text certainly holds no '/'."""
    for s in q[1]:
        if s[0] == 's':
            if '/' in s[1]:
                return False
        elif not sf_piece(s[1], names):
            return False
    return True


def sf_piece(d, names):
    op = d[0]
    if op in ('file_name', 'file_stem', 'extension', 'component'):
        return True
    if op == 'codecname':
        return names
    if op == 'fmt':
        return d[3] in NUMERIC
    if op == 'setext':
        return slashfree(d[1], names) and slashfree(d[2], names)
    if op in ('lower', 'upper', 'lossy', 'trim', 'sub', 'debug'):
        return isinstance(d[1], tuple) and d[1][0] == 'q' and slashfree(d[1], names)
    if op == 'replace':
        return (slashfree(d[1], names) or d[2] == '/') and slashfree(d[3], names)
    if op == 'char':
        v = d[1]
        return v[0] == 'n' and is_const(v[1]) and v[1][0] != 47
    return False


def nonempty(q, names=False):
    for s in q[1]:
        if s[0] == 's' and s[1]:
            return True
        if s[0] == 'x' and (s[1][0] in ('file_name', 'file_stem', 'component') or s[1][0] == 'fmt' and s[1][3] in NUMERIC or s[1][0] == 'codecname' and names or s[1][0] == 'setext'):
            return True
    return False


def split_last(q):
    """(directory pieces incl. '/', last component pieces) when the split is certain, else None."""
    for i in range(len(q[1]) - 1, -1, -1):
        s = q[1][i]
        if s[0] == 's':
            j = s[1].rfind('/')
            if j >= 0:
                return q[1][:i] + ((('s', s[1][:j + 1]),)), ((('s', s[1][j + 1:]),) if s[1][j + 1:] else ()) + q[1][i + 1:]
        elif not sf_piece(s[1], True):
            return None
    return (), q[1]


def push(base, comp):
    """Text of base.join(comp)."""
    if not base[1]:
        return comp
    if not comp[1]:
        return ('q', base[1] + (('s', '/'),)) if not (base[1][-1][0] == 's' and base[1][-1][1].endswith('/')) else base
    first = comp[1][0]
    rel = first[0] == 's' and not first[1].startswith('/') or first[0] == 'x' and sf_piece(first[1], True)
    if first[0] == 's' and first[1].startswith('/'):
        return comp
    if rel and (is_lit(base) or nonempty(base, True)):
        sep = () if base[1][-1][0] == 's' and base[1][-1][1].endswith('/') else (('s', '/'),)
        return norm_text(('q', base[1] + sep + comp[1]))
    return mk('push', base, comp)


def setext(p, ext):
    sp = split_last(p)
    if sp is not None:
        d, last = sp
        if all(s[0] == 's' for s in last):
            l = litval(('q', last))
            if is_lit(ext):
                return norm_text(('q', d + (('s', py_setext(l, litval(ext))),)))
            stem = py_stem(l)
            return norm_text(('q', d + (('s', stem + '.'),) + ext[1]))
        return norm_text(('q', d + mk('setext', ('q', last), ext)[1]))
    return mk('setext', p, ext)


# ---------------------------------------------------------------- concrete semantics of the path operations
class NoValue(Exception):
    """The operation has no result on this text (None)."""


class Unk(Exception):
    pass


def py_comps(p):
    """(absolute, components)"""
    a = p.startswith('/')
    out = []
    for i, c in enumerate(p.split('/')):
        if c == '' or c == '.' and (a or i > 0):
            continue
        out.append(c)
    return a, out


def py_file_name(p):
    a, c = py_comps(p)
    if not c or c[-1] in ('..', '.'):
        raise NoValue()
    return c[-1]


def py_stem(n):
    if n == '..':
        return n
    i = n.rfind('.')
    return n if i <= 0 else n[:i]


def py_ext(n):
    if n == '..':
        return None
    i = n.rfind('.')
    return None if i <= 0 else n[i + 1:]


def py_setext(p, e):
    try:
        n = py_file_name(p)
    except NoValue:
        return p
    i = p.rstrip('/').rfind(n)
    stem = py_stem(n)
    return p[:i] + stem + ('.' + e if e else '')


def py_push(a, b):
    if b.startswith('/'):
        return b
    return a + ('/' if a and not a.endswith('/') else '') + b


def py_parent(p):
    a, c = py_comps(p)
    if not c:
        raise NoValue()
    return ('/' if a else '') + '/'.join(c[:-1])


def fmt_float(x, opts, tn='f64'):
    import math
    prec = None
    if opts:
        prec = parse_opts(opts)
    if x != x:
        return 'NaN'
    if math.isinf(x):
        return 'inf' if x > 0 else '-inf'
    if prec is not None:
        return '%.*f' % (prec, x)
    from decimal import Decimal
    s = format(Decimal(repr(x)), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return s


def parse_opts(opts):
    """Precision of a formatting spec; Unk for anything else that changes the text."""
    hx, fl = opts.split('/')
    b = bytes.fromhex(hx)
    c = int(fl, 16)
    i = 0
    if c & 1:
        flags = int.from_bytes(b[:4], 'little'); i = 4
    if c & 2:
        raise Unk('width')
    prec = None
    if c & 4:
        prec = b[i] | b[i + 1] << 8; i += 2
        if c & 0x20:
            raise Unk('runtime precision')
    return prec


def evaltext(q, env):
    out = ''
    for s in q[1]:
        if s[0] == 's':
            out += s[1]
        elif s[0] == 'x':
            out += evpiece(s[1], env)
        else:
            raise Unk(s[0])
    return out


def ev_arg(x, env):
    if isinstance(x, str):
        return x
    return evaltext(x, env)


def evpiece(d, env):
    op = d[0]
    if op in env:
        r = env[op]
        return r(d) if callable(r) else r
    if op == 'file_name':
        return py_file_name(ev_arg(d[1], env))
    if op == 'file_stem':
        return py_stem(py_file_name(ev_arg(d[1], env)))
    if op == 'extension':
        e = py_ext(py_file_name(ev_arg(d[1], env)))
        if e is None:
            raise NoValue()
        return e
    if op == 'parent':
        return py_parent(ev_arg(d[1], env))
    if op == 'push':
        return py_push(ev_arg(d[1], env), ev_arg(d[2], env))
    if op == 'setext':
        return py_setext(ev_arg(d[1], env), ev_arg(d[2], env))
    if op == 'lossy':
        return ev_arg(d[1], env)
    if op == 'lower':
        return ev_arg(d[1], env).lower()
    if op == 'upper':
        return ev_arg(d[1], env).upper()
    if op == 'trim':
        return ev_arg(d[1], env).strip()
    if op == 'replace':
        return ev_arg(d[1], env).replace(ev_arg(d[2], env), ev_arg(d[3], env))
    if op == 'fmt':
        kind, opts, tn, v = d[1:5]
        if v[0] == 'q':
            t = evaltext(norm_text(v), env)
            if kind == 'debug':
                return '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'
            if not opts:
                return t
            raise Unk('text format')
        e = env.get('#ev')
        if e is None:
            raise Unk('fmt')
        if v[0] == 'f':
            x = e.fl(v[1])
            if kind == 'display':
                return fmt_float(x, opts)
            if kind == 'debug' and not opts:
                s = fmt_float(x, '')
                if x == x and abs(x) != float('inf'):
                    if x != 0 and (abs(x) >= 1e16 or abs(x) < 1e-4):
                        raise Unk('exponent form')
                    if '.' not in s:
                        s += '.0'
                return s
        if v[0] == 'n':
            x = e.term(v[1])
            if opts:
                parse_opts(opts)
            if kind in ('display', 'debug'):
                if tn == 'bool':
                    return 'true' if x else 'false'
                if tn == 'char':
                    return chr(x)
                return str(x)
            if kind == 'hex':
                return '%x' % x
            if kind == 'binary':
                return bin(x)[2:]
        raise Unk('fmt')
    if op == 'sub':
        e = env.get('#ev')
        t = evaltext(norm_text(d[1]), env)
        raise Unk('sub')
    if op == 'char':
        e = env.get('#ev')
        if e is not None and d[1][0] == 'n':
            return chr(e.term(d[1][1]))
    raise Unk(op)


# ---------------------------------------------------------------- models
@model('PathBuf as From::from', 'OsString as From::from', 'PathBuf as FromStr::from_str')
def t_from(ip, st, f, a, atys, dty, act, t):
    q = text(ip, st, a[0])
    if q is None:
        q = mk('any')
    return [(ok(q) if f['path'].endswith('from_str') else q, st)]


@model('PathBuf::new', 'OsString::new', 'PathBuf::with_capacity')
def t_new(ip, st, f, a, atys, dty, act, t):
    return [(('q', ()), st)]


@model('Path::new', 'OsStr::new', 'PathBuf as Deref::deref', 'PathBuf as AsRef::as_ref', 'PathBuf::as_path', 'OsString as Deref::deref', 'OsString as AsRef::as_ref', 'OsString::as_os_str', 'Path as AsRef::as_ref',
       'OsStr as AsRef::as_ref', 'Path::as_os_str', 'PathBuf::as_os_str', 'PathBuf as Borrow::borrow', 'str as AsRef::as_ref', 'String as AsRef::as_ref', 'Path::as_path')
def t_asref(ip, st, f, a, atys, dty, act, t):
    p = ip.p.pointee(dty)
    if p is None:
        return None
    x = ip.types[p]
    nm = x['name'].rsplit('::', 1)[-1] if x['k'] == 'adt' else x['k']
    if nm not in TEXTY and nm not in ('slice',):
        return None
    r = a[0]
    for _ in range(4):
        w = window(ip, st, r)
        if w is not None:
            return [(('r', w[0][1], w[0][2], ('w', w[1], w[2])), st)]
        y = M.load_ref(ip, st, r)
        if y is None or y[0] not in ('r', 's'):
            break
        r = y
    q = text(ip, st, a[0])
    return [(ref_to(ip, st, q if q is not None else mk('any')), st)]


@model('Path::to_path_buf', 'OsStr::to_os_string', 'Path as ToOwned::to_owned', 'OsStr as ToOwned::to_owned', 'PathBuf as Clone::clone', 'OsString as Clone::clone', 'PathBuf::into_os_string', 'Path::into_path_buf', 'Cow::into_owned',
       'OsString::into_string', 'PathBuf::into_boxed_path')
def t_owned(ip, st, f, a, atys, dty, act, t):
    q = text(ip, st, a[0])
    if q is None:
        if 'Cow' in f['path']:
            return None
        q = mk('any')
    return [(ok(q) if f['path'].endswith('into_string') and 'OsString' in f['path'] else q, st)]


@model('PathBuf::push', 'OsString::push')
def t_push(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    b, c = text(ip, st, a[0]), text(ip, st, a[1])
    if r is None:
        return None
    if b is None or c is None:
        put(ip, st, r, mk('any'))
    elif 'OsString' in f['path']:
        put(ip, st, r, norm_text(('q', b[1] + c[1])))
    else:
        put(ip, st, r, push(b, c))
    return [(UNIT, st)]


@model('Path::join')
def t_join(ip, st, f, a, atys, dty, act, t):
    b, c = text(ip, st, a[0]), text(ip, st, a[1])
    return [(push(b, c) if b is not None and c is not None else mk('any'), st)]


@model('PathBuf::set_extension', 'PathBuf::set_file_name', 'PathBuf::add_extension')
def t_setext(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    b, c = text(ip, st, a[0]), text(ip, st, a[1])
    if r is None:
        return None
    if b is None or c is None:
        put(ip, st, r, mk('any'))
    elif f['path'].endswith('set_extension'):
        put(ip, st, r, setext(b, c))
    elif f['path'].endswith('add_extension'):
        put(ip, st, r, norm_text(('q', b[1] + (('s', '.'),) + c[1])))
    else:
        put(ip, st, r, with_name(b, c))
        return [(UNIT, st)]
    return [(boolv(T.ONE), st)]


def with_name(b, c):
    sp = split_last(b)
    if sp is not None:
        return push(norm_text(('q', sp[0])), c)
    return push(mk('parent', b), c)


@model('Path::with_extension', 'Path::with_file_name', 'Path::with_added_extension')
def t_withext(ip, st, f, a, atys, dty, act, t):
    b, c = text(ip, st, a[0]), text(ip, st, a[1])
    if b is None or c is None:
        return [(mk('any'), st)]
    if f['path'].endswith('with_extension'):
        return [(setext(b, c), st)]
    if f['path'].endswith('added_extension'):
        return [(norm_text(('q', b[1] + (('s', '.'),) + c[1])), st)]
    return [(with_name(b, c), st)]


@model('Path::file_name', 'Path::file_stem', 'Path::extension', 'Path::parent', 'Path::to_str', 'OsStr::to_str', 'Path::strip_prefix')
def t_part(ip, st, f, a, atys, dty, act, t):
    nm = f['path'].rsplit('::', 1)[-1]
    q = text(ip, st, a[0])
    if q is None:
        q = mk('any')
    if nm == 'to_str':
        certain = True          # every text of the program comes from a String
        res = q
    elif nm == 'strip_prefix':
        return [(ok(ref_to(ip, st, mk('any'))), st.copy()), (err(('o',)), st)]
    else:
        try:
            if is_lit(q):
                certain = True
                l = litval(q)
                res = lit({'file_name': py_file_name, 'file_stem': lambda p: py_stem(py_file_name(p)), 'parent': py_parent, 'extension': lambda p: py_ext(py_file_name(p))}[nm](l) or '')
            else:
                certain = False
                sp = split_last(q)
                if nm == 'file_name' and sp is not None and len(sp[1]) and nonempty(('q', sp[1]), True):
                    res = ('q', sp[1])
                elif nm == 'parent' and sp is not None and sp[0]:
                    res = norm_text(('q', sp[0]))
                else:
                    res = mk(nm, q)
        except NoValue:
            return [(NONE, st)]
    outs = [(some(ref_to(ip, st, res)), st)]
    if not certain:
        outs.append((NONE, st.copy()))
    return outs


@model('Path::to_string_lossy', 'OsStr::to_string_lossy', 'Path::display', 'OsStr::display')
def t_lossy(ip, st, f, a, atys, dty, act, t):
    q = text(ip, st, a[0])
    if q is None:
        q = mk('any')
    if 'display' in f['path']:
        return [(('s', (ref_to(ip, st, q),)), st)]
    return [(give(ip, st, q, dty), st)]


@model('Path::is_absolute', 'Path::is_relative', 'Path::exists', 'Path::is_file', 'Path::is_dir', 'Path::has_root', 'Path::starts_with', 'Path::ends_with', 'PathBuf::pop', 'PathBuf::as_mut_os_string', 'Path::try_exists')
def t_pred(ip, st, f, a, atys, dty, act, t):
    if f['path'].endswith('::pop'):
        r = deref(ip, st, a[0]); q = text(ip, st, a[0])
        sp = split_last(q) if q is not None else None
        put(ip, st, r, norm_text(('q', sp[0])) if sp is not None else mk('parent', q if q is not None else mk('any')))
    return [(ip.top(dty), st)]


def str_op(op, nargs=1):
    def h(ip, st, f, a, atys, dty, act, t):
        qs = [text(ip, st, x) for x in a[:nargs]]
        if any(q is None for q in qs):
            qs = [q if q is not None else mk('any') for q in qs]
        if all(is_lit(q) for q in qs):
            return [(give(ip, st, lit(evpiece((op,) + tuple(qs), {})), dty), st)]
        return [(give(ip, st, mk(op, *qs), dty), st)]
    return h


for _n in ('str::to_lowercase', 'str::to_ascii_lowercase', '[T]::to_ascii_lowercase', 'OsStr::to_ascii_lowercase'):
    M.TABLE[_n] = str_op('lower')
for _n in ('str::to_uppercase', 'str::to_ascii_uppercase'):
    M.TABLE[_n] = str_op('upper')
M.TABLE['str::trim'] = str_op('trim')


@model('str::replace')
def t_replace(ip, st, f, a, atys, dty, act, t):
    q = text(ip, st, a[0])
    p = a[1]
    if p[0] == 'n':
        pat = lit(chr(p[1][0])) if is_const(p[1]) else None
    else:
        pat = text(ip, st, p)
    r = text(ip, st, a[2])
    if q is None or pat is None or r is None or not is_lit(pat):
        return [(mk('any'), st)]
    if is_lit(q) and is_lit(r):
        return [(lit(litval(q).replace(litval(pat), litval(r))), st)]
    return [(mk('replace', q, litval(pat), r), st)]
