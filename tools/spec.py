"""Abstract interpretation of codec-specification parsing (C16, C17).

A specification is analysed by its shape: the sequence of its punctuation marks ( ) , with an arbitrary text
(a "word": any characters but these, of any length, maybe none) before, between and after them. Every string
with at most N marks has exactly one shape. Byte offsets are sums of symbolic word lengths, so a slice is
either at a piece boundary or not; tests of texts (regular expressions, comparisons, number parsing) fork and
are recorded on the path. What the recorded tests say about concrete texts is evaluated in Python.
"""
import re, itertools, warnings
import ana, drive, models as M, terms as T
import textmodel as X
from models import norm, some, ok, err, usz, boolv, NONE, UNIT, deref, get, put, window
from absint import Interp, State, Stuck, Budget
from teval import Ev, Unknown
from terms import const, addc, sub, is_const

warnings.simplefilter('ignore')
PUNCT = '(),'
NUMS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64')


# ---------------------------------------------------------------- regular expressions
def pyre(p):
    """The pattern in Python's syntax (or None)."""
    out = ''
    i = 0
    while i < len(p):
        c = p[i]
        if c == '\\' and i + 1 < len(p):
            d = p[i + 1]
            if d == 'z':
                out += '\\Z'
            elif d in 'pPxuK':
                return None
            else:
                out += c + d
            i += 2
            continue
        if c == '[':
            j = i + 1
            if j < len(p) and p[j] == '^':
                j += 1
            if j < len(p) and p[j] == ']':
                j += 1
            while j < len(p) and p[j] != ']':
                j += 2 if p[j] == '\\' else 1
            cl = p[i:j + 1]
            if '[:' in cl or '&&' in cl or '--' in cl or '~~' in cl:
                return None
            out += cl
            i = j + 1
            continue
        if c == '$':
            out += '\\Z'
        elif c == '^':
            out += '\\A'
        elif c == '(' and p[i:i + 3] in ('(?i', '(?m', '(?s', '(?x', '(?U', '(?u'):
            if p[i:i + 4] == '(?i)' and i == 0:
                out += '(?i)'
                i += 4
                continue
            return None
        else:
            out += c
        i += 1
    return out


_RE = {}


def compiled(p):
    if p not in _RE:
        q = pyre(p)
        try:
            _RE[p] = re.compile(q) if q is not None else None
        except re.error:
            _RE[p] = 'bad'
    return _RE[p]


def tree(p):
    import re._parser as sp
    q = pyre(p)
    return sp.parse(q) if q is not None else None


def anchored(p):
    """Does every match span the whole text?"""
    t = tree(p)
    return t is not None and begins(list(t)) and ends(list(t))


def begins(ops):
    for op, av in ops:
        n = str(op)
        if n == 'AT':
            return 'BEGINNING' in str(av)
        if n == 'SUBPATTERN':
            return begins(list(av[3]))
        if n == 'BRANCH':
            return all(begins(list(x)) for x in av[1])
        return False
    return False


def ends(ops):
    if not ops:
        return False
    op, av = ops[-1]
    n = str(op)
    if n == 'AT':
        return 'END' in str(av)
    if n == 'SUBPATTERN':
        return ends(list(av[3]))
    if n == 'BRANCH':
        return all(ends(list(x)) for x in av[1])
    return False


def groups(p):
    r = compiled(p)
    return r.groups if r not in (None, 'bad') else None


def always(p, g):
    """Does group g take part in every match?"""
    def has(ops):
        for op, av in ops:
            n = str(op)
            if n == 'SUBPATTERN':
                if av[0] == g or has(list(av[3])):
                    return True
            elif n in ('MAX_REPEAT', 'MIN_REPEAT') and av[0] >= 1 and has(list(av[2])):
                return True
            elif n == 'BRANCH' and all(has(list(x)) for x in av[1]):
                return True
        return False
    t = tree(p)
    return t is not None and has(list(t))


def example(p, pick=0):
    """A text the pattern matches."""
    def gen(ops):
        o = ''
        for op, av in ops:
            n = str(op)
            if n == 'LITERAL':
                o += chr(av)
            elif n == 'IN':
                o += cls(av)
            elif n == 'ANY':
                o += 'q'
            elif n == 'NOT_LITERAL':
                o += 'q' if av != ord('q') else 'w'
            elif n == 'SUBPATTERN':
                o += gen(list(av[3]))
            elif n == 'BRANCH':
                o += gen(list(av[1][pick % len(av[1])]))
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                o += gen(list(av[2])) * max(av[0], min(av[1], pick))
        return o

    def cls(items):
        if str(items[0][0]) == 'NEGATE':
            return 'q'
        n, av = str(items[0][0]), items[0][1]
        if n == 'LITERAL':
            return chr(av)
        if n == 'RANGE':
            return chr(av[0])
        if 'DIGIT' in str(av):
            return '7'
        return 'q'
    t = tree(p)
    return gen(list(t)) if t is not None else None


# ---------------------------------------------------------------- the abstract text
def mk(op, *a):
    return ('q', (('x', (op,) + a, T.fresh('tl', 0, 1 << 40, 'str')),))


class Hk:
    peel = 0

    def __init__(self, shape):
        self.shape = shape          # punctuation marks, or ('lit', text)
        self.words = []
        self.bnd = []               # slices at offsets not known to be character boundaries: (state, offset)
        self.unknown = []           # tests that are not followed

    def drop(self, *a):
        return None

    def prepare(self, ip, st, args, f):
        segs = []
        if self.shape and self.shape[0] == 'lit':
            segs = [('s', self.shape[1])]
        else:
            for i in range(len(self.shape) + 1):
                L = T.fresh('len%d' % i, 0, 1 << 40, 'str')
                self.words.append((('word', i), L))
                segs.append(('x', ('word', i), L))
                if i < len(self.shape):
                    segs.append(('s', self.shape[i]))
        self.input = tuple(segs)
        oid = ip.new_obj(st, ('q', self.input), 'spec')
        self.oid = oid
        return [('r', oid, (), ('w', T.ZERO, ip.seq_len(('q', self.input))))]

    # ---- tests
    def test(self, st, kind, arg, q, outcomes):
        """Fork on a test of a text: [(outcome flag, value)] -> [(value, state)]."""
        out = []
        for flag, v in outcomes:
            s = st.copy()
            s.g['!t'] = s.g.get('!t', ()) + ((kind, arg, q[1], flag),)
            out.append((v, s))
        return out

    def known(self, st, kind, arg, q):
        """An earlier outcome of the same test on this path, or that of a literal text."""
        for k, a, t, fl in st.g.get('!t', ()):
            if (k, a, t) == (kind, arg, q[1]):
                return fl
        if X.is_lit(q):
            return holds(kind, arg, X.litval(q))
        return None

    def boundary(self, ip, st, r, x):
        q = get(ip, st, r)
        off = r[3][1] if r[3] is not None and r[3][0] == 'w' else T.ZERO
        a = T.add(off, x)
        if at_edge(ip, st, q, a):
            return True
        self.bnd.append((st, a, q[1]))
        return True

    def str_eq(self, ip, st, p, q, f):
        return self.cmp(ip, st, 'eq', p, q)

    def cmp(self, ip, st, kind, p, q):
        p, q = X.norm_text(p), X.norm_text(q)
        if p is None or q is None:
            return None
        if X.is_lit(p):
            p, q = q, p
        if not X.is_lit(q):
            return None
        if X.is_lit(p):
            a, b = X.litval(p), X.litval(q)
            return [(boolv(T.ONE if (a == b if kind == 'eq' else a.lower() == b.lower()) else T.ZERO), st)]
        lit = X.litval(q)
        k = self.known(st, kind, lit, p)
        if k is not None:
            return [(boolv(T.ONE if k else T.ZERO), st)]
        n = len(lit.encode())
        out = []
        s1 = st.assume(('eq', addc(ip.seq_len(p), -n)))
        if s1 is not None and not impossible(p, lit, kind):
            out += self.test(s1, kind, lit, p, [(True, boolv(T.ONE))])
        return out + self.test(st, kind, lit, p, [(False, boolv(T.ZERO))])

    # ---- calls
    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        if f['crate'] == 'cniic':
            return None
        n = norm(f['path'])
        h = CALLS.get(n)
        if h is not None:
            return h(self, ip, st, f, args, atys, dty, act, t)
        return None


def impossible(p, lit, kind):
    """Can the text not be lit because of its punctuation?"""
    if not all(s[0] == 's' or s[0] == 'x' and s[1][0] == 'word' for s in p[1]):
        return False
    a = ''.join(s[1] for s in p[1] if s[0] == 's')
    return a != ''.join(c for c in lit if c in PUNCT)


def at_edge(ip, st, q, a):
    """Is the byte offset a certainly at a character boundary of q?"""
    pos = T.ZERO
    for s in q[1]:
        d = sub(a, pos)
        if d == T.ZERO or st.decide(('eq', d)) is True:
            return True
        if s[0] == 's':
            b = s[1].encode()
            if is_const(d) and 0 < d[0] < len(b):
                return b[d[0]] & 0xC0 != 0x80
            pos = addc(pos, len(b))
        elif s[0] == 'x':
            pos = T.add(pos, s[2])
        else:
            pos = addc(pos, 1) if s[0] == 'v' else T.add(pos, s[1])
    d = sub(a, pos)
    return d == T.ZERO or st.decide(('eq', d)) is True


CALLS = {}


def on(*names):
    def deco(fn):
        for n in names:
            CALLS[n] = fn
        return fn
    return deco


def tx(ip, st, v):
    q = X.text(ip, st, v)
    return q


@on('str::char_indices', 'str::chars', 'str::bytes')
def c_chars(hk, ip, st, f, a, atys, dty, act, t):
    q = tx(ip, st, a[0])
    if q is None:
        raise Stuck('characters of a text that is not followed')
    mode = f['path'].rsplit('::', 1)[-1]
    return [(('m', 'chars', (q[1], T.ZERO, mode)), st)]


def step(hk, ip, st, v):
    """[(item, rest, number of characters, state)] of a character iterator."""
    segs, pos, mode = v[2]
    if not segs:
        return [(None, v, T.ZERO, st)]
    s = segs[0]
    if s[0] == 's':
        c = s[1][0]
        if mode == 'bytes' and ord(c) > 127:
            raise Stuck('bytes of a character')
        rest = ((('s', s[1][1:]),) if s[1][1:] else ()) + segs[1:]
        return [(item(mode, pos, ('n', const(ord(c)), 'u8' if mode == 'bytes' else 'char')), ('m', 'chars', (rest, addc(pos, len(c.encode())), mode)), T.ONE, st)]
    if s[0] == 'x' and s[1][0] == 'word':
        out = []
        for more, s1 in M.fork(ip, st, ('ge', addc(s[2], -1)), True, False):
            if not more:
                out += step(hk, ip, s1, ('m', 'chars', (segs[1:], pos, mode)))
                continue
            c = T.op('wchar', [const(s[1][1])], 0, 0x10ffff if mode != 'bytes' else 255)
            s1 = s1.copy()
            for p in PUNCT:
                s2 = s1.assume(('ne', addc(c, -ord(p))), record=False)
                s1 = s2 or s1
            k = s[2] if mode == 'bytes' else T.op('wcount', [const(s[1][1])], 1, 1 << 40)
            out.append((item(mode, pos, ('n', c, 'u8' if mode == 'bytes' else 'char')), ('m', 'chars', (segs[1:], T.add(pos, s[2]), mode)), k, s1))
        return out
    raise Stuck('characters of a derived text')


def item(mode, pos, c):
    return ('s', (usz(pos), c)) if mode == 'char_indices' else c


@on('CharIndices as Iterator::next', 'Chars as Iterator::next', 'Bytes as Iterator::next')
def c_next(hk, ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 'm' or v[1] != 'chars':
        return None
    out = []
    for it, rest, k, s in step(hk, ip, st, v):
        s = s.copy()
        put(ip, s, r, rest)
        out.append((NONE if it is None else some(it), s))
    return out


@on('Enumerate as Iterator::next')
def c_enum(hk, ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) != 2 or v[1][0][0] != 'm' or v[1][0][1] != 'chars':
        return None
    out = []
    for it, rest, k, s in step(hk, ip, st, v[1][0]):
        s = s.copy()
        n = v[1][1][1]
        put(ip, s, r, ('s', (rest, usz(T.add(n, k)))))
        out.append((NONE if it is None else some(('s', (usz(n), it))), s))
    return out


@on('str::eq_ignore_ascii_case', '[T]::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case')
def c_ieq(hk, ip, st, f, a, atys, dty, act, t):
    p, q = tx(ip, st, a[0]), tx(ip, st, a[1])
    if p is None or q is None:
        return None
    r = hk.cmp(ip, st, 'ieq', p, q)
    if r is None:
        hk.unknown.append('comparison ignoring case')
    return r


@on('Regex::new', 'RegexBuilder::new')
def c_re_new(hk, ip, st, f, a, atys, dty, act, t):
    q = tx(ip, st, a[0])
    if q is None or not X.is_lit(q):
        hk.unknown.append('a pattern that is not a constant')
        return None
    p = X.litval(q)
    c = compiled(p)
    if c == 'bad':
        return [(err(('o',)), st)]
    return [(ok(('m', 'regex', (p,))), st)]


def regex_of(ip, st, v):
    for _ in range(5):
        if v[0] == 'm' and v[1] == 'regex':
            return v[2][0]
        if v[0] != 'r':
            return None
        v = get(ip, st, v)
    return None


def re_test(hk, ip, st, a, yes, no):
    p = regex_of(ip, st, a[0])
    q = tx(ip, st, a[1])
    if p is None or q is None or compiled(p) is None:
        hk.unknown.append('a regular expression that is not followed')
        return None
    k = hk.known(st, 're', p, q)
    outs = []
    if k is not False:
        outs.append((True, yes(p, q)))
    if k is not True:
        outs.append((False, no))
    return hk.test(st, 're', p, q, outs)


@on('Regex::captures')
def c_captures(hk, ip, st, f, a, atys, dty, act, t):
    return re_test(hk, ip, st, a, lambda p, q: some(('m', 'caps', (p, q))), NONE)


@on('Regex::is_match')
def c_is_match(hk, ip, st, f, a, atys, dty, act, t):
    return re_test(hk, ip, st, a, lambda p, q: boolv(T.ONE), boolv(T.ZERO))


@on('Regex::find')
def c_find(hk, ip, st, f, a, atys, dty, act, t):
    return re_test(hk, ip, st, a, lambda p, q: some(('m', 'match', (p, q, 0))), NONE)


def caps_of(ip, st, v):
    for _ in range(5):
        if v[0] == 'm' and v[1] == 'caps':
            return v[2]
        if v[0] != 'r':
            return None
        v = get(ip, st, v)
    return None


@on('Captures::len')
def c_caps_len(hk, ip, st, f, a, atys, dty, act, t):
    c = caps_of(ip, st, a[0])
    return [(usz(const(groups(c[0]) + 1)), st)] if c is not None else None


@on('Captures::get')
def c_caps_get(hk, ip, st, f, a, atys, dty, act, t):
    c = caps_of(ip, st, a[0])
    if c is None or a[1][0] != 'n' or not is_const(a[1][1]):
        return None
    g = a[1][1][0]
    if g > groups(c[0]):
        return [(NONE, st)]
    m = some(('m', 'match', (c[0], c[1], g)))
    if g == 0 or always(c[0], g):
        return [(m, st)]
    return hk.test(st, 'group', (c[0], g), c[1], [(True, m), (False, NONE)])


@on('Captures as Index::index', 'Captures::extract')
def c_caps_index(hk, ip, st, f, a, atys, dty, act, t):
    c = caps_of(ip, st, a[0])
    if c is None or not f['path'].endswith('index') or a[1][0] != 'n' or not is_const(a[1][1]):
        return None
    g = a[1][1][0]
    if g > groups(c[0]):
        ip.panic(act, st, t, 'no group', None, False)
        return []
    q = cap_text(c[0], c[1], g)
    if g and not always(c[0], g):
        bad = hk.test(st, 'group', (c[0], g), c[1], [(False, None)])
        ip.panic(act, bad[0][1], t, 'no group', None, None)
        st = hk.test(st, 'group', (c[0], g), c[1], [(True, None)])[0][1]
    return [(X.ref_to(ip, st, q), st)]


def cap_text(p, q, g):
    if g == 0 and anchored(p):
        return q
    return mk('cap', p, g, q)


def match_of(ip, st, v):
    for _ in range(5):
        if v[0] == 'm' and v[1] == 'match':
            return v[2]
        if v[0] != 'r':
            return None
        v = get(ip, st, v)
    return None


@on('Match::as_str')
def c_as_str(hk, ip, st, f, a, atys, dty, act, t):
    m = match_of(ip, st, a[0])
    if m is None:
        return None
    st = st.copy()
    return [(X.ref_to(ip, st, cap_text(m[0], m[1], m[2])), st)]


@on('Match::len', 'Match::start', 'Match::end')
def c_match_pos(hk, ip, st, f, a, atys, dty, act, t):
    m = match_of(ip, st, a[0])
    if m is None:
        return None
    what = f['path'].rsplit('::', 1)[-1]
    if m[2] == 0 and anchored(m[0]):
        return [(usz(T.ZERO if what == 'start' else ip.seq_len(m[1])), st)]
    hk.unknown.append('the position of a match')
    return [(ip.fresh_num('mpos', 'usize', 'str'), st)]


def num_parse(ty):
    def h(hk, ip, st, f, a, atys, dty, act, t):
        q = tx(ip, st, a[0])
        if q is None:
            hk.unknown.append('a number parsed from a text that is not followed')
            return None
        tt = ip.types[dty]
        v = ip.top(tt['v'][0]['f'][0][1], 'spec')
        if X.is_lit(q):
            k = holds('num', ty, X.litval(q))
        else:
            k = hk.known(st, 'num', ty, q)
        outs = []
        if k is not False:
            outs.append((True, ok(v)))
        if k is not True:
            outs.append((False, err(('o',))))
        return hk.test(st, 'num', ty, q, outs)
    return h


for _t in NUMS:
    CALLS['%s as FromStr::from_str' % _t] = num_parse(_t)


def pred(kind):
    def h(hk, ip, st, f, a, atys, dty, act, t):
        q = tx(ip, st, a[0])
        if a[1][0] == 'n' and is_const(a[1][1]):
            l = X.lit(chr(a[1][1][0]))
        else:
            l = tx(ip, st, a[1])
        if q is None or l is None or not X.is_lit(l):
            hk.unknown.append(kind)
            return None
        arg = X.litval(l)
        k = hk.known(st, kind, arg, q)
        outs = [(True, None)] if k is not False else []
        if k is not True:
            outs.append((False, None))
        res = []
        for fl, _ in outs:
            for _, s in hk.test(st, kind, arg, q, [(fl, None)]):
                if kind == 'starts' or kind == 'ends':
                    res.append((boolv(T.ONE if fl else T.ZERO), s))
                else:
                    res.append((some(X.ref_to(ip, s, mk('strip_' + kind, q, arg))) if fl else NONE, s))
        return res
    return h


CALLS['str::starts_with'] = pred('starts')
CALLS['str::ends_with'] = pred('ends')
CALLS['str::strip_prefix'] = pred('sprefix')
CALLS['str::strip_suffix'] = pred('ssuffix')


def derive(op):
    def h(hk, ip, st, f, a, atys, dty, act, t):
        q = tx(ip, st, a[0])
        if q is None:
            return None
        if X.is_lit(q):
            return [(X.give(ip, st, X.lit(apply_op(op, X.litval(q))), dty), st)]
        st = st.copy()
        return [(X.give(ip, st, mk(op, q), dty), st)]
    return h


for _n, _o in (('str::trim', 'trim'), ('str::trim_start', 'trim_start'), ('str::trim_end', 'trim_end'), ('str::to_lowercase', 'lower'), ('str::to_ascii_lowercase', 'lower'),
               ('str::to_uppercase', 'upper'), ('str::to_ascii_uppercase', 'upper'), ('[T]::to_ascii_lowercase', 'lower')):
    CALLS[_n] = derive(_o)


@on('str::is_char_boundary')
def c_isb(hk, ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is not None and at_edge(ip, st, get(ip, st, w[0]), T.add(w[1], a[1][1])):
        return [(boolv(T.ONE), st)]
    return None


UNFOLLOWED = re.compile(r'^(str|String|OsStr)::(?!len$|is_empty$|as_bytes$|as_str$|to_owned$|to_string$|new$|from$|push|chars$|char_indices$)|^(Regex|Captures|Match|RegexBuilder|RegexSet)::|^(Split|SplitN|RSplit|Matches|SplitWhitespace|Lines)')


# ---------------------------------------------------------------- what tests mean for concrete texts
def apply_op(op, s):
    return {'trim': s.strip, 'trim_start': s.lstrip, 'trim_end': s.rstrip, 'lower': s.lower, 'upper': s.upper}[op]()


def holds(kind, arg, s):
    if kind == 'eq':
        return s == arg
    if kind == 'ieq':
        return s.lower() == arg.lower() and s.isascii()
    if kind == 're':
        r = compiled(arg)
        return r.search(s) is not None
    if kind == 'group':
        m = compiled(arg[0]).search(s)
        return m is not None and m.group(arg[1]) is not None
    if kind in ('starts', 'sprefix'):
        return s.startswith(arg)
    if kind in ('ends', 'ssuffix'):
        return s.endswith(arg)
    if kind == 'num':
        if arg in ('f32', 'f64'):
            return re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)', s, re.I) is not None and s.isascii()
        w = 64 if arg.endswith('size') else int(arg[1:])
        if not re.fullmatch(r'\+?[0-9]+' if arg[0] == 'u' else r'[+-]?[0-9]+', s):
            return False
        lo, hi = (0, 2 ** w - 1) if arg[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        return lo <= int(s) <= hi
    raise Unknown(kind)


CUR = []


class Out(Exception):
    pass


def conc(segs, words):
    o = ''
    for s in segs:
        if s[0] == 's':
            o += s[1]
        elif s[0] == 'x':
            d = s[1]
            if d[0] == 'word':
                o += words[d[1]]
            elif d[0] == 'cap':
                m = compiled(d[1]).search(conc(d[3][1], words))
                if m is None or m.group(d[2]) is None:
                    raise Out()
                o += m.group(d[2])
            elif d[0] in ('trim', 'trim_start', 'trim_end', 'lower', 'upper'):
                o += apply_op(d[0], conc(d[1][1], words))
            elif d[0] == 'strip_sprefix':
                o += conc(d[1][1], words)[len(d[2]):]
            elif d[0] == 'strip_ssuffix':
                b = conc(d[1][1], words)
                o += b[:len(b) - len(d[2])]
            elif d[0] == 'sub' and CUR:
                e = SEv(CUR[0], words, ())
                a, n = e.term(d[2]), e.term(d[3])
                b = conc(d[1], words).encode()
                if a < 0 or n < 0 or a + n > len(b):
                    raise Out()
                try:
                    o += b[a:a + n].decode()
                except UnicodeDecodeError:
                    raise Out()
            else:
                raise Unknown(d[0])
        else:
            raise Unknown(s[0])
    return o


class SEv(Ev):
    """Evaluates terms for concrete words."""

    def __init__(self, hk, words, texts):
        import random
        Ev.__init__(self, random.Random(1))
        self.words = words
        for d, L in hk.words:
            self.v[L[1][0][0]] = len(words[d[1]].encode())
        for segs, L in texts:
            if len(L[1]) == 1 and L[0] == 0:
                self.v.setdefault(L[1][0][0], len(conc(segs, words).encode()))

    def calc(self, s):
        if s.kind == 'op' and s.data[0] == 'wchar':
            w = self.words[s.data[1][0]]
            if len(set(w)) != 1:
                raise Unknown('characters of a longer word')
            return ord(w[0])
        if s.kind == 'op' and s.data[0] == 'wcount':
            return len(self.words[s.data[1][0]])
        if s.kind == 'free':
            raise Unknown(s.name)
        return Ev.calc(self, s)


def texts_of(st):
    """All symbolic pieces the path's tests mention: (piece, length)."""
    out = []

    def walk(segs):
        for s in segs:
            if s[0] == 'x':
                out.append(((s,), s[2]))
                for y in s[1][1:]:
                    if isinstance(y, tuple) and y and y[0] == 'q':
                        walk(y[1])
    for k, a, segs, fl in st.g.get('!t', ()):
        walk(segs)
    return out


def consistent(hk, st, words, extra=()):
    """Does the string of these words take the path of st (tests and conditions)?"""
    try:
        for k, a, segs, fl in st.g.get('!t', ()):
            if holds(k, a, conc(segs, words)) != fl:
                return False
        e = SEv(hk, words, texts_of(st))
        for c in list(st.pc.full()) + list(extra):
            if wild(c, words):
                # comparisons of a character with a constant: decided for each character of the word
                if not each_char(hk, st, c, words):
                    return False
                continue
            if not e.cond(c):
                return False
    except (Out, Unknown, KeyError):
        return False
    return True


def wild(c, words):
    for s in T.all_syms(c[1]):
        y = T.SYMS[s]
        if y.kind == 'op' and y.data[0] == 'wchar' and len(set(words[y.data[1][0]])) > 1:
            return True
    return False


def each_char(hk, st, c, words):
    ss = [s for s in T.all_syms(c[1]) if T.SYMS[s].kind == 'op' and T.SYMS[s].data[0] == 'wchar']
    i = T.SYMS[ss[0]].data[1][0]
    for ch in set(words[i]):
        w = list(words)
        w[i] = ch
        e = SEv(hk, w, [])
        if not e.cond(c):
            return False
    return True


def pools(hk, st, junk):
    """Candidate texts for every word, from the literals the path's tests mention."""
    n = len(hk.words)
    base = [set() for _ in range(n)]
    for i in range(n):
        base[i] |= {'', 'é', 'a'}
    for k, a, segs, fl in st.g.get('!t', ()):
        ex = []
        if k == 're':
            ex = [example(a, 0), example(a, 1)]
        elif k == 'group':
            ex = [example(a[0], 0), example(a[0], 1)]
        elif k in ('eq', 'ieq', 'starts', 'ends', 'sprefix', 'ssuffix'):
            ex = [a]
        elif k == 'num':
            ex = ['7', '0.5'] if a in ('f32', 'f64') else ['7', '0', '9' * 25]
        ws = words_in(segs)
        for x in ex:
            if x is None:
                continue
            parts = re.split('[(),]', x)
            if len(parts) == len(ws):
                for w, p in zip(ws, parts):
                    base[w].add(p)
            else:
                for w in ws:
                    for p in parts:
                        base[w].add(p)
    out = []
    for i in range(n):
        b = sorted(base[i], key=lambda z: (z not in ('',), z in ('a', 'é'), z))
        if junk is not None and i in junk:
            j = []
            for z in b:
                if z in ('', 'a', 'é'):
                    continue
                j += ['zz' + z, z + 'zz', ' ' + z, z + ' ', z + '\n']
            b = ['zz', 'q'] + j
        out.append(b)
    return out


def words_in(segs):
    out = []
    for s in segs:
        if s[0] == 'x':
            if s[1][0] == 'word':
                out.append(s[1][1])
            elif s[1][0] == 'sub':
                out += words_in(s[1][1])
            else:
                for y in s[1][1:]:
                    if isinstance(y, tuple) and y and y[0] == 'q':
                        out += words_in(y[1])
    return out


LIMIT = 40000
FAILED = {}


def witness(hk, st, extra=(), junk=None, final=None, what=None):
    """A concrete string on the path of st (with one of the words in junk carrying foreign text).

    Repeated failures for the same construct (what) shorten the search."""
    limit = max(500, LIMIT >> FAILED.get(what, 0))
    w = search(hk, st, extra, junk, final, limit)
    if w is None:
        FAILED[what] = FAILED.get(what, 0) + 1
    return w


def search(hk, st, extra, junk, final, LIMIT):
    ps = pools(hk, st, None)
    js = [None] if junk is None else list(junk)
    n = 0
    for j in js:
        pp = list(ps)
        if j is not None:
            pp[j] = pools(hk, st, {j})[j]
        # words only constrained together are few: plain product, pruned by single-word tests
        pp = [prune(st, i, p) for i, p in enumerate(pp)]
        for w in itertools.product(*pp):
            n += 1
            if n > LIMIT:
                return None
            if consistent(hk, st, w, extra) and (final is None or final(w)):
                return conc(hk.input, w) if hk.words else hk.shape[1]
    return None


def prune(st, i, pool):
    out = []
    for p in pool:
        okk = True
        for k, a, segs, fl in st.g.get('!t', ()):
            if words_in(segs) == [i]:
                ws = {i: p}
                try:
                    if holds(k, a, conc(segs, ws)) != fl:
                        okk = False
                        break
                except (Out, Unknown, KeyError):
                    okk = False
                    break
        if okk:
            out.append(p)
    return out


# ---------------------------------------------------------------- coverage (C17)
COVER = ('eq', 'ieq', 'num')


def covered(hk, st):
    """Indices of the input pieces that a positive test constrains as a whole."""
    inp = hk.input
    mark = set()
    for k, a, segs, fl in st.g.get('!t', ()):
        if not fl or not (k in COVER or k == 're' and anchored(a)):
            continue
        segs = tuple(segs)
        while k != 're' and len(segs) == 1 and segs[0][0] == 'x' and segs[0][1][0] in ('lower', 'upper'):
            segs = tuple(segs[0][1][1][1])
        for i in range(len(inp) - len(segs) + 1):
            if inp[i:i + len(segs)] == segs:
                mark |= set(range(i, i + len(segs)))
    return mark


def skeleton(hk, st):
    """(skeleton text, words not constrained)."""
    mark = covered(hk, st)
    o, loose = '', []
    for i, s in enumerate(hk.input):
        if i in mark:
            if not o.endswith('T'):
                o += 'T'
        elif s[0] == 's':
            o += s[1]
        elif st.decide(('eq', s[2])) is not True:
            loose.append(s[1][1])
    return o, loose


def wellformed(o):
    while True:
        n = re.sub(r'T\((T(,T)*)?\)', 'T', o)
        if n == o:
            return o == 'T'
        o = n


# ---------------------------------------------------------------- running
def shapes(n):
    for k in range(n + 1):
        for x in itertools.product(PUNCT, repeat=k):
            yield ''.join(x)


LITERALS = ['a' + '(' * 300, 'a(' + ',' * 300, 'a(b' + ')' * 300, 'é(é,é)', 'zip(é)', 'hilbert(é', 'ééé)', 'a(' * 300, '"\\', '\u0000', 'zip(dict)\n', '\U0001F600(']


def run_shape(P, shape, steps=200000):
    hk = Hk(shape)
    CUR[:] = [hk]
    T.reset()
    ip = Interp(P, hk, steps=steps)
    hk.ip = ip
    ip.keepapart = True
    ip.MAXSTATES = 200
    ip.bounded = (len(shape) if not (shape and shape[0] == 'lit') else len(shape[1]) + 2) * 2 + 40
    st = State()
    fid = ana.root(P, 'from_str')
    f = P.fns[fid]
    args = hk.prepare(ip, st, [], f)
    why, outs = None, []
    try:
        outs = ip.exec_fn(fid, args, st)
    except Stuck as e:
        why = 'analysis stopped: %s in %s' % (e, (getattr(e, 'trace', None) or ['?'])[-1])
    except Budget:
        why = 'analysis stopped: step budget exhausted'
    except (IndexError, KeyError, TypeError, ValueError, AttributeError, RecursionError, Unknown) as e:
        why = 'analysis stopped: internal error %s %s' % (type(e).__name__, e)
    return hk, ip, outs, why
