"""Models of standard-library and third-party functions for the abstract interpreter.

Collections are sequences of segments ('q', ...), slice iterators are
(base pointer, position, end) triples, maps are sequences of pairs in an
unspecified order.
"""
import math
import re
import terms as T
import hilbert_table
from terms import const, add, sub, addc, is_const, interval, SYMS

NONE = ('e', ((0, ()),), None)
UNIT = ('s', ())


def some(v):
    return ('e', ((1, (v,)),), None)


def ok(v):
    return ('e', ((0, (v,)),), None)


def err(v):
    return ('e', ((1, (v,)),), None)


def usz(t):
    return ('n', t, 'usize')


def boolv(t):
    return ('n', t, 'bool')


# ---------------------------------------------------------------- names
def split_top(s, sep):
    out = []; d = 0; cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] != '-'):
            d -= 1
        if d == 0 and s.startswith(sep, i):
            out.append(cur); cur = ''; i += len(sep); continue
        cur += c; i += 1
    out.append(cur)
    return out


def short(s):
    s = s.strip()
    s = re.sub(r"'\w+ ?", '', s)
    if s.startswith('&mut '):
        return '&mut ' + short(s[5:])
    if s.startswith('&'):
        return '&' + short(s[1:])
    if s.startswith('[') or s.startswith('(') or s.startswith('*'):
        return s
    parts = [p for p in split_top(s, '::') if not p.startswith('<')]
    last = parts[-1]
    i = last.find('<')
    return last[:i] if i > 0 else last


_norm = {}


def norm(path):
    r = _norm.get(path)
    if r is None:
        r = _norm[path] = norm1(path)
    return r


def norm1(path):
    comps = split_top(path, '::')
    last = comps[-1]
    if last.startswith('{'):
        return '::'.join(c for c in comps)
    comps2 = []
    for c in comps[:-1]:
        if c.startswith('<impl '):
            inner = c[6:-1]
            p = split_top(inner, ' for ')
            comps2.append(short(p[1]) + ' as ' + short(p[0]) if len(p) == 2 else short(inner))
        elif c.startswith('<') and len(split_top(c[1:-1], ' as ')) == 2:
            p = split_top(c[1:-1], ' as ')
            comps2.append(short(p[0]) + ' as ' + short(p[1]) if len(p) == 2 else c)
        elif c.startswith('<'):
            continue
        else:
            i = c.find('<')
            comps2.append(c[:i] if i > 0 else c)
    if not comps2:
        return last
    return comps2[-1] + '::' + last


class Table(dict):
    def get(self, path, d=None):
        return dict.get(self, norm(path), d)


TABLE = Table()
PREFIX = []


def model(*names):
    def deco(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return deco


# ---------------------------------------------------------------- helpers
def deref(ip, st, v):
    """Target object/path/meta of a pointer value."""
    while v[0] == 's' and v[1]:
        v = v[1][0]
    return v if v[0] == 'r' else None


def get(ip, st, r):
    return ip.load(st, r[1], r[2])


def put(ip, st, r, v):
    ip.store(st, r[1], r[2], v)


def load_ref(ip, st, v, ty=None):
    r = deref(ip, st, v)
    if r is None:
        return None
    x = get(ip, st, r)
    return x


def getq(ip, st, v):
    """Sequence behind a pointer (whole, ignoring windows)."""
    r = deref(ip, st, v)
    if r is None:
        return None, None
    x = get(ip, st, r)
    if x[0] != 'q':
        return r, None
    return r, x


def window(ip, st, v):
    """(ref, offset, len) of a slice pointer."""
    r = deref(ip, st, v)
    if r is None:
        return None
    if r[3] is not None and r[3][0] == 'w':
        return r, r[3][1], r[3][2]
    x = get(ip, st, r)
    if x[0] == 'q':
        return r, T.ZERO, ip.seq_len(x)
    return None


def subseq(ip, st, q, off, ln):
    """Copy of q[off..off+ln]."""
    total = ip.seq_len(q)
    if off == T.ZERO and (ln == total or st.decide(('eq', sub(ln, total))) is True):
        return q
    if is_const(off) and is_const(ln):
        segs = []
        pos = 0; lo = off[0]; hi = off[0] + ln[0]
        okk = True
        for s in q[1]:
            if s[0] == 'v':
                if lo <= pos < hi:
                    segs.append(s)
                pos += 1
            elif s[0] == 's':
                b = s[1].encode()
                a = max(lo - pos, 0); e = min(hi - pos, len(b))
                if a < e:
                    segs.append(('s', b[a:e].decode('utf8', 'replace')))
                pos += len(b)
            else:
                L = s[1] if s[0] != 'x' else s[2]
                if pos >= hi:
                    break
                if s[0] in ('n',) :
                    # inside one summarised run
                    l0 = st.iv(L)[0]
                    a = max(lo - pos, 0)
                    if l0 is not None and pos + l0 >= hi:
                        segs.append(('n', const(hi - max(lo, pos)), s[2]))
                        pos = hi
                        continue
                    if is_const(L):
                        a = max(lo - pos, 0); e = min(hi - pos, L[0])
                        if a < e:
                            segs.append(('n', const(e - a), s[2]))
                        pos += L[0]
                        continue
                okk = False
                break
        if okk:
            return ('q', tuple(segs))
    if any(s[0] in ('s', 'x') for s in q[1]):
        c = pieces(ip, st, q, off, ln)
        if c is not None:
            return c
        return ('q', (('x', ('sub', q[1], off, ln), ln),))
    el = ip.seq_summary(st, q)
    if el is None:
        return ('q', ())
    return ('q', (('n', ln, el),))


def pieces(ip, st, q, off, ln):
    """q[off..off+ln] of a text when both ends lie at piece boundaries or at known places of literal pieces."""
    def cut(segs, a):
        pos = T.ZERO
        for i, s in enumerate(segs):
            d = sub(a, pos)
            if d == T.ZERO or st.decide(('eq', d)) is True:
                return segs[:i], segs[i:]
            if s[0] == 's':
                b = s[1].encode()
                if is_const(d) and 0 < d[0] < len(b):
                    try:
                        return segs[:i] + (('s', b[:d[0]].decode()),), (('s', b[d[0]:].decode()),) + segs[i + 1:]
                    except UnicodeDecodeError:
                        return None
                pos = addc(pos, len(b))
            else:
                pos = addc(pos, 1) if s[0] == 'v' else add(pos, s[2] if s[0] == 'x' else s[1])
        d = sub(a, pos)
        if d == T.ZERO or st.decide(('eq', d)) is True:
            return segs, ()
        return None
    x = cut(tuple(q[1]), off)
    if x is None:
        return None
    y = cut(x[1], ln)
    return ('q', y[0]) if y is not None else None


def push_back(q, x):
    return ('q', q[1] + (('v', x),))


def concat(ip, st, a, b):
    segs = a[1] + b[1]
    return compact(ip, st, ('q', tuple(s for s in segs if not (s[0] == 'n' and s[1] == T.ZERO))))


def compact(ip, st, q):
    if len(q[1]) > 300 and not any(s[0] in ('s', 'x') for s in q[1]):
        el = ip.seq_summary(st, q)
        return ('q', (('n', ip.seq_len(q), el),))
    return q


def pops(ip, st, q, front):
    """Outcomes of removing one element: [(elem or None, newq, state)]."""
    out = []
    segs = list(q[1])
    while True:
        if not segs:
            out.append((None, ('q', ()), st))
            return out
        s = segs[0] if front else segs[-1]
        rest = segs[1:] if front else segs[:-1]
        if s[0] == 'v':
            out.append((s[1], ('q', tuple(rest)), st))
            return out
        if s[0] == 's':
            b = s[1].encode()
            if not b:
                segs = rest; continue
            c = b[0] if front else b[-1]
            nb = b[1:] if front else b[:-1]
            ns = ('s', nb.decode('latin1')) if nb else None
            out.append((('n', const(c), 'u8'), ('q', tuple(([ns] if ns else []) + rest if front else rest + ([ns] if ns else []))), st))
            return out
        L = s[2] if s[0] == 'x' else s[1]
        ne = st.decide(('ge', addc(L, -1)))
        if ne is not False:
            s1 = st if ne is True else st.assume(('ge', addc(L, -1)))
            if s1 is not None:
                if ne is not True and s1 is st:
                    s1 = st.copy()
                if s[0] == 'x':
                    el = ip.fresh_num('ch', 'u8', 'str')
                    ns = ('x', ('rest', s[1]), addc(L, -1))
                elif s[0] == 'g':
                    k = T.ZERO if front else addc(L, -1)
                    el = ip.inst_elem(s1, s, k)
                    if front:
                        ns = ('g', addc(L, -1), ip.subst_val(s[2], {s[3]: addc((0, ((s[3], 1),)), 1)}), s[3])
                    else:
                        ns = ('g', addc(L, -1), s[2], s[3])
                else:
                    el = ip.freshen(s[2], s1)
                    ns = ('n', addc(L, -1), s[2])
                nl = ns[2] if ns[0] == 'x' else ns[1]
                keep = [] if nl == T.ZERO else [ns]
                out.append((el, ('q', tuple(keep + rest if front else rest + keep)), s1))
        if ne is True:
            return out
        s0 = st if ne is False else st.assume(('eq', L))
        if s0 is None:
            return out
        if ne is not False and s0 is st:
            s0 = st.copy()
        st = s0
        segs = rest


def call_closure(ip, st, clo, cty, args, act, t, dty=None, kind='FnMut'):
    """Call a closure value with the given argument values."""
    ty = ip.types[cty]
    if clo[0] == 'fn':
        cty = clo[1]; clo = clo[2]; ty = ip.types[cty]
    if ty['k'] == 'ref':
        inner = ip.load(st, *deref(ip, st, clo)[1:3])
        return call_closure(ip, st, inner, ty['e'], args, act, t, dty, kind)
    inst = ty.get('inst') or {}
    fid = None
    for k in (kind, 'FnMut', 'Fn', 'FnOnce'):
        if k in inst:
            fid = inst[k]; kk = k
            break
    if fid is None:
        return None
    f = ip.p.fns[fid]
    tup = ('s', tuple(args))
    if ty['k'] == 'fndef':
        dt = dty
        return ip.invoke(act, st, fid, list(args), [None] * len(args), dt, t)
    if kk == 'FnOnce':
        env = clo
    else:
        oid = ip.new_obj(st, clo, 'env')
        env = ('r', oid, (), None)
    return ip.enter(act, st, fid, [env, tup], dty)


def panic_here(ip, act, st, t, kind, cond=None):
    ip.panic(act, st, t, kind, cond, None)
    return []


# ---------------------------------------------------------------- type expansion
def expand_adt(ip, v, st, t):
    n = t['name'].rsplit('::', 1)[-1]
    ty, pv = v[1], v[2]
    cr = t.get('crate')
    if cr == 'cniic':
        return None
    if n == 'DynamicImage':
        return ('s', (ip.fresh_num('w', 'u32', pv), ip.fresh_num('h', 'u32', pv), ('m', 'pix', (('id', T._fresh_n[0]),))))
    if n == 'ImageBuffer':
        return ('s', (ip.fresh_num('w', 'u32', pv), ip.fresh_num('h', 'u32', pv), ('m', 'pix', (('id', T._fresh_n[0]),))))
    if n in ('Rgb', 'Rgba', 'Luma', 'LumaA') and t['v']:
        return ('s', (('t', t['v'][0]['f'][0][1], pv),))
    if n in ('HashMap', 'HashSet', 'BTreeMap'):
        return ('s', (('q', (('n', T.fresh('len', 0, (1 << 63) - 1, pv), ('s', tuple(('t', a, pv) for a in t['args'][:2] if isinstance(a, int)))),)),))
    if n == 'Cell' or n == 'UnsafeCell' or n == 'RefCell':
        return ('s', (('t', t['args'][0], pv),))
    if n in ('PhantomData',):
        return UNIT
    return None


def decode_adt(ip, c, off, ty, st):
    t = ip.types[ty]
    n = t['name'].rsplit('::', 1)[-1]
    if t.get('crate') == 'cniic':
        return None
    if n in ('Vec', 'VecDeque', 'String', 'BinaryHeap', 'HashMap'):
        return ('q', ()) if n != 'HashMap' else ('s', (('q', ()),))
    return None


def project(ip, st, v, path, i):
    return ('o',)


def discr(ip, st, v, ty):
    return ('n', T.fresh('discr', None, None), 'isize')


def compat(ip, x, y):
    return False


def join(ip, p, q, ctx):
    return None


def transmute(ip, st, a, src, dst):
    """Byte arrays <-> integers."""
    ts, td = ip.types[src], ip.types[dst]
    if ts['k'] == 'array' and td['k'] in ('uint', 'int') and a[0] == 'q' and all(s[0] == 'v' for s in a[1]):
        bits = []
        okk = True
        for s in a[1]:
            x = s[1]
            if x[0] == 't':
                x = ip.expand(x, st)
            b = T.to_bits(x[1], 8) if x[0] == 'n' else None
            if b is None:
                okk = False
                break
            bits += b
        tn = td['n']
        if okk and len(bits) == td['w']:
            r = T.from_bits(bits)
            if td['k'] == 'int':
                return ip.cast(st, 'IntToInt', ('n', r, 'u%d' % td['w']), ip.p.bykey['u%d' % td['w']], dst)
            return ('n', r, tn)
        return ip.fresh_num('bytes', tn, 'opaque')
    if td['k'] == 'array' and ts['k'] in ('uint', 'int') and a[0] == 'n':
        w = ts['w']
        t = a[1]
        if ts['k'] == 'int':
            t = ip.cast(st, 'IntToInt', a, src, ip.p.bykey['u%d' % w])[1]
        b = T.to_bits(ip.known_bits(st, t, w), w)
        if b is not None:
            return ('q', tuple(('v', ('n', T.from_bits(b[i:i + 8]), 'u8')) for i in range(0, w, 8)))
        return ('q', tuple(('v', ('n', T.op('byte%d' % i, [t], 0, 255), 'u8')) for i in range(w // 8)))
    if ts['k'] == 'float' or td['k'] == 'float':
        return ('t', dst, 'opaque')
    if a[0] in ('s', 'q', 'e', 'm'):
        return a
    return ('t', dst, 'opaque')


# ---------------------------------------------------------------- floats
def fprov(e):
    if e[0] == 'c':
        return frozenset()
    if e[0] == 'i':
        return T.prov(e[1])
    if e[0] == 'sym':
        return frozenset([e[2]])
    out = set()
    for x in e[2:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out |= fprov(x)
    return frozenset(out)


def fsubst(e, m):
    if e[0] == 'i':
        return ('i', T.subst(e[1], m))
    if e[0] == 'op':
        return e[:2] + tuple(fsubst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e[2:])
    return e


def fjoin(ip, a, b, ctx):
    if a == b:
        return a
    if ctx.cond is not None:
        return fcap(('op', 'ite', ('i', T.cond_term(ctx.cond)), a, b))
    k = ('f', a, b)
    if k not in ctx.cache:
        T._fresh_n[0] += 1
        return ctx.fcache.setdefault(k, ('sym', T._fresh_n[0], 'phi')) if hasattr(ctx, 'fcache') else ('sym', T._fresh_n[0], 'phi')
    return ('sym', 0, 'phi')


FLIMIT = 300


def fsize(e, lim):
    n = 1
    if e[0] == 'op':
        for x in e[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                n += fsize(x, lim - n)
                if n > lim:
                    return n
    return n


def fcap(e):
    """Float expressions are kept exact up to a size; beyond it only what they depend on."""
    if fsize(e, FLIMIT) <= FLIMIT:
        return e
    T._fresh_n[0] += 1
    ps = fprov(e)
    return ('sym', T._fresh_n[0], 'ind' if not ps else '|'.join(sorted(ps)))


def fneg(e):
    if e[0] == 'c':
        return ('c', -e[1])
    return ('op', 'neg', e)


def fexpr(ip, st, v, tn):
    if v[0] == 'f':
        return v[1]
    T._fresh_n[0] += 1
    return ('sym', T._fresh_n[0], v[2] if v[0] == 't' else 'opaque')


def float_bin(ip, st, op, a, b, tn):
    x = fexpr(ip, st, a, tn); y = fexpr(ip, st, b, tn)
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        if x[0] == 'c' and y[0] == 'c':
            p, q = x[1], y[1]
            r = {'Eq': p == q, 'Ne': p != q, 'Lt': p < q, 'Le': p <= q, 'Gt': p > q, 'Ge': p >= q}[op]
            return boolv(T.ONE if r else T.ZERO)
        neg = op == 'Ne'
        if op in ('Gt', 'Ge'):
            x, y = y, x
            op = 'Lt' if op == 'Gt' else 'Le'
        if ip.total and op in ('Lt', 'Le'):
            # no NaN, no infinite operands but constants
            if op == 'Le':
                x, y, op, neg = y, x, 'Lt', True
            if x == y or x == ('c', math.inf) or y == ('c', -math.inf):
                return boolv(T.ONE if neg else T.ZERO)
            if y == ('c', math.inf) and x[0] != 'c' or x == ('c', -math.inf) and y[0] != 'c':
                return boolv(T.ZERO if neg else T.ONE)
        if op in ('Eq', 'Ne'):
            x, y = sorted((x, y), key=repr)
            op = 'Eq'
        t = T.op('f' + op, [x, y], 0, 1, fprov(x) | fprov(y))
        return boolv(sub(T.ONE, t) if neg else t)
    if x[0] == 'c' and y[0] == 'c':
        try:
            p, q = x[1], y[1]
            return ('f', ('c', {'Add': lambda: p + q, 'Sub': lambda: p - q, 'Mul': lambda: p * q, 'Div': lambda: p / q, 'Rem': lambda: p % q}[op]()), tn)
        except (ZeroDivisionError, OverflowError):
            pass
    return ('f', fcap(('op', op.lower(), x, y)), tn)


def float_cast(ip, st, kind, a, src, dst):
    from absint import RANGES
    if kind.startswith('IntToFloat'):
        if a[0] == 'n':
            if is_const(a[1]) and abs(a[1][0]) < (1 << 53):
                return ('f', ('c', float(a[1][0])), dst)
            return ('f', ('i', a[1]), dst)
        return ('t', ip.p.bykey[dst], 'opaque')
    if kind.startswith('FloatToFloat'):
        e = fexpr(ip, st, a, src)
        if e[0] == 'c' or (src == 'f32' and dst == 'f64'):
            return ('f', e, dst)
        return ('f', ('op', 'to_' + dst, e), dst)
    e = fexpr(ip, st, a, src)
    lo, hi = RANGES[dst]
    if e[0] == 'c':
        v = e[1]
        if v != v:
            return ('n', T.ZERO, dst)
        return ('n', const(int(max(lo, min(hi, v)))), dst)
    if e[0] == 'i' and ip.fit(st, e[1], dst):
        return ('n', e[1], dst)
    return ('n', T.op('ftoi:' + dst, [e], lo, hi, fprov(e)), dst)


FUN1 = {'sqrt': 'sqrt', 'sqrtf64': 'sqrt', 'sqrtf32': 'sqrt', 'fabs': 'abs', 'fabsf64': 'abs', 'round': 'round', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc'}


# ---------------------------------------------------------------- intrinsics
def intrinsic(ip, st, f, args, atys, dty, act, t):
    from absint import RANGES, WIDTH
    n = f['path'].rsplit('::', 1)[-1]
    n = re.sub(r'_?f(32|64)$', '', n) if n not in ('fabs',) else n
    if n in ('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'assume'):
        return [(UNIT, st)]
    if n in ('likely', 'unlikely', 'black_box'):
        return [(args[0], st)]
    if n == 'is_val_statically_known':
        return [(boolv(T.ZERO), st)]
    if n == 'ub_checks':
        return [(boolv(T.ZERO), st)]
    if n in ('size_of', 'min_align_of', 'align_of', 'size_of_val', 'pref_align_of', 'needs_drop', 'type_id'):
        return [(ip.top(dty), st)]
    if n in ('sqrt', 'fabs', 'round', 'floor', 'ceil', 'trunc', 'round_ties_even'):
        e = fexpr(ip, st, args[0], 'f64')
        tn = args[0][2] if args[0][0] == 'f' else 'f64'
        if e[0] == 'c':
            import math
            v = e[1]
            r = {'sqrt': lambda: math.sqrt(v) if v >= 0 else float('nan'), 'fabs': lambda: abs(v), 'round': lambda: float(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1),
                 'floor': lambda: float(math.floor(v)), 'ceil': lambda: float(math.ceil(v)), 'trunc': lambda: float(math.trunc(v))}.get(n)
            if r and v == v and abs(v) != float('inf'):
                return [(('f', ('c', r()), tn), st)]
        return [(('f', ('op', FUN1.get(n, n), e), tn), st)]
    if n == 'powi':
        e = fexpr(ip, st, args[0], 'f64')
        p = args[1][1] if args[1][0] == 'n' else None
        if p is not None and is_const(p) and 0 <= p[0] <= 8:
            r = ('c', 1.0)
            for i in range(p[0]):
                r = e if i == 0 else ('c', r[1] * e[1]) if r[0] == e[0] == 'c' else ('op', 'mul', r, e)
            return [(('f', r, args[0][2] if args[0][0] == 'f' else 'f64'), st)]
        return [(('f', ('op', 'powi', e, ('i', p) if p is not None else ('c', 0.0)), 'f64'), st)]
    x = args[0] if args else None
    if n in ('rotate_left', 'rotate_right') and x[0] == 'n':
        w = WIDTH[x[2]]
        k = args[1][1]
        b = T.to_bits(ip.known_bits(st, x[1], w), w)
        if b is not None and is_const(k):
            s = k[0] % w
            if n == 'rotate_left':
                s = (w - s) % w
            b = b[s:] + b[:s]
            return [(('n', T.from_bits(b), x[2]), st)]
        if args[1][0] == 'n':
            return [(('n', T.op('%s:%s' % ('rotl' if n == 'rotate_left' else 'rotr', x[2]), [x[1], k], 0, (1 << w) - 1), x[2]), st)]
        return [(ip.fresh_num('rot', x[2], 'x'), st)]
    if n == 'bswap' and x[0] == 'n':
        w = WIDTH[x[2]]
        b = T.to_bits(ip.known_bits(st, x[1], w), w)
        if b is not None:
            ch = [b[i:i + 8] for i in range(0, w, 8)][::-1]
            return [(('n', T.from_bits([z for c in ch for z in c]), x[2]), st)]
        return [(('n', T.op('bswap', [x[1]], *RANGES[x[2]]), x[2]), st)]
    if n in ('saturating_sub', 'saturating_add'):
        a, b = args[0], args[1]
        if a[0] == 'n' and b[0] == 'n':
            lo, hi = RANGES[a[2]]
            r = sub(a[1], b[1]) if n.endswith('sub') else add(a[1], b[1])
            ff = ip.fit(st, r, a[2])
            if ff is True:
                return [(('n', r, a[2]), st)]
            if n.endswith('sub') and lo == 0:
                return [(('n', T.ite(('ge', r), r, T.ZERO), a[2]), st)]
            return [(('n', T.op('sat:' + a[2], [r], lo, hi), a[2]), st)]
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul', 'exact_div', 'unchecked_div', 'unchecked_rem', 'unchecked_shl', 'unchecked_shr'):
        o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}[n.rsplit('_', 1)[-1]]
        if n.startswith('unchecked') and o in ('Add', 'Sub', 'Mul'):
            o += 'Unchecked'
        return [(ip.binop(st, o, args[0], args[1], atys[0] if atys[0] is not None else dty, atys[1] if atys[1] is not None else dty), st)]
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        return [(ip.checked(st, {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[0]], args[0], args[1], atys[0]), st)]
    if n in ('transmute', 'transmute_unchecked'):
        return [(ip.cast(st, 'Transmute', args[0], atys[0], dty), st)]
    if n in ('integer_min', 'integer_max') and args[0][0] == 'n' and args[1][0] == 'n':
        return [(nminmax(ip, st, args[0], args[1], n.endswith('max')), st)]
    if n in ('read_via_copy', 'volatile_load', 'unaligned_volatile_load'):
        r = deref(ip, st, args[0])
        if r is not None:
            return [(get(ip, st, r), st)]
    if n in ('write_via_move', 'volatile_store'):
        r = deref(ip, st, args[0])
        if r is not None:
            put(ip, st, r, args[1])
            return [(UNIT, st)]
    if n in ('ctpop', 'ctlz', 'cttz', 'ctlz_nonzero', 'cttz_nonzero', 'bitreverse') and x[0] == 'n':
        if n == 'bitreverse':
            w = WIDTH[x[2]]
            b = T.to_bits(ip.known_bits(st, x[1], w), w)
            if b is not None:
                return [(('n', T.from_bits(b[::-1]), x[2]), st)]
            return [(ip.fresh_num('rev', x[2]), st)]
        if is_const(x[1]) and n == 'ctlz' or is_const(x[1]) and n == 'ctlz_nonzero':
            return [(('n', const(WIDTH[x[2]] - x[1][0].bit_length()), 'u32'), st)]
        return [(('n', T.op(n, [x[1]], 0, WIDTH[x[2]]), 'u32'), st)]
    if n == 'typed_swap_nonoverlapping':
        a, b = deref(ip, st, args[0]), deref(ip, st, args[1])
        if a is not None and b is not None:
            x, y = get(ip, st, a), get(ip, st, b)
            put(ip, st, a, y); put(ip, st, b, x)
            return [(UNIT, st)]
    if n in ('discriminant_value',):
        r = deref(ip, st, args[0])
        if r is not None:
            pt = ip.p.pointee(atys[0])
            return [(ip.discr(st, get(ip, st, r), pt), st)]
    if n in ('abort', 'unreachable'):
        return []
    if n == 'three_way_compare':
        return [(ip.binop(st, 'Cmp', args[0], args[1], atys[0], atys[1]), st)]
    return None


def nminmax(ip, st, a, b, mx):
    d = sub(a[1], b[1])
    c = st.decide(('ge', d))
    if c is not None:
        return a if c == mx else b
    r = T.op('max' if mx else 'min', sorted([a[1], b[1]]), *mmiv(st.iv(a[1]), st.iv(b[1]), mx))
    for x in (a[1], b[1]):
        st.learn(('ge', sub(r, x) if mx else sub(x, r)))
    return ('n', r, a[2])


def mmiv(p, q, mx):
    def f(x, y, op, keep):
        if x is None or y is None:
            return (x if y is None else y) if keep else None
        return op(x, y)
    if mx:
        return f(p[0], q[0], max, True), f(p[1], q[1], max, False)
    return f(p[0], q[0], min, False), f(p[1], q[1], min, True)


# ---------------------------------------------------------------- mem, cell, box
@model('mem::replace')
def m_replace(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    if r is None:
        return None
    v = get(ip, st, r)
    put(ip, st, r, a[1])
    return [(v, st)]


@model('mem::take')
def m_take(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    if r is None:
        return None
    v = get(ip, st, r)
    ty = ip.types[dty]
    n = ty['name'].rsplit('::', 1)[-1] if ty['k'] == 'adt' else ''
    if n in ('Vec', 'VecDeque', 'String', 'BinaryHeap'):
        d = ('q', ())
    elif n == 'Option':
        d = NONE
    elif n in ('HashMap',):
        d = ('s', (('q', ()),))
    elif ty['k'] in ('uint', 'int', 'bool'):
        d = ('n', T.ZERO, ip.p.tyname(dty))
    else:
        return None
    put(ip, st, r, d)
    return [(v, st)]


@model('mem::swap')
def m_swap(ip, st, f, a, atys, dty, act, t):
    x, y = deref(ip, st, a[0]), deref(ip, st, a[1])
    if x is None or y is None:
        return None
    p, q = get(ip, st, x), get(ip, st, y)
    put(ip, st, x, q); put(ip, st, y, p)
    return [(UNIT, st)]


@model('Option::take')
def m_opt_take(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    if r is None:
        return None
    v = get(ip, st, r)
    put(ip, st, r, NONE)
    return [(v, st)]


@model('Option::replace', 'Option::insert')
def m_opt_replace(ip, st, f, a, atys, dty, act, t):
    if f['path'].endswith('insert'):
        return None
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    put(ip, st, r, some(a[1]))
    return [(v, st)]


@model('ptr::read', 'ptr::read_unaligned')
def m_read(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    return [(get(ip, st, r), st)] if r is not None else None


@model('ptr::write')
def m_write(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    if r is None:
        return None
    put(ip, st, r, a[1])
    return [(UNIT, st)]


@model('Box::new', 'boxed::box_new', 'Rc::new', 'Arc::new')
def m_box(ip, st, f, a, atys, dty, act, t):
    oid = ip.new_obj(st, a[0], 'box')
    return [(('r', oid, (), None), st)]


@model('Box as From::from')
def m_box_from(ip, st, f, a, atys, dty, act, t):
    el = ip.p.pointee(dty)
    if el is not None and atys[0] == el:
        return m_box(ip, st, f, a, atys, dty, act, t)
    return [(ip.top(dty), st)]


@model('Box as AsRef::as_ref', 'Box as AsMut::as_mut', 'Box as Deref::deref', 'Box as DerefMut::deref_mut')
def m_box_ref(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    if r is None:
        return None
    v = get(ip, st, r)
    r2 = deref(ip, st, v)
    if r2 is None:
        if v[0] == 't':
            r2 = ip.new_ref(ip.p.pointee(ip.p.pointee(atys[0])), v[2], st)
            put(ip, st, r, r2)
        else:
            return [(ip.top(dty), st)]
    return [(r2, st)]


@model('Box::leak', 'Box::into_raw', 'Box::from_raw', 'Box::into_inner_raw')
def m_box_id(ip, st, f, a, atys, dty, act, t):
    return [(a[0], st)]


@model('Cell::new', 'RefCell::new', 'UnsafeCell::new', 'ManuallyDrop::new')
def m_cell_new(ip, st, f, a, atys, dty, act, t):
    return [(('s', (a[0],)), st)]


@model('Cell::get')
def m_cell_get(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    return [(ip.load(st, r[1], r[2] + (0,)), st)]


@model('Cell::set', 'Cell::replace')
def m_cell_set(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = ip.load(st, r[1], r[2] + (0,))
    ip.store(st, r[1], r[2] + (0,), a[1])
    return [(v if f['path'].endswith('replace') else UNIT, st)]


# ---------------------------------------------------------------- Vec / VecDeque / String / BinaryHeap
@model('Vec::new', 'VecDeque::new', 'String::new', 'BinaryHeap::new', 'Vec::with_capacity', 'VecDeque::with_capacity', 'String::with_capacity', 'BinaryHeap::with_capacity',
       'Vec as Default::default', 'VecDeque as Default::default', 'String as Default::default', 'BinaryHeap as Default::default', 'Vec::with_capacity_in', 'Vec::new_in')
def m_vnew(ip, st, f, a, atys, dty, act, t):
    if f['path'].endswith('with_capacity') and a and a[0][0] == 'n':
        st = room(ip, st, f, a[0][1], dty, act, t)
        if st is None:
            return []
    return [(('q', ()), st)]


def room(ip, st, f, n, ty, act, t):
    """Asking for more than isize::MAX bytes panics."""
    el = ip.p.seq_elem(ty)
    if el is not None and min_size(ip, el) < 1:
        return st
    c = ('ge', T.addc(T.scale(n, -1), (1 << 63) - 1))
    d = st.decide(c)
    if d is not True:
        ip.panic(act, st, t, 'capacity', c, d)
        st = st.assume(c)
    return st


def min_size(ip, ty):
    """A lower bound of the size of a type: 0 or 1."""
    y = ip.types[ty]
    k = y['k']
    if k in ('uint', 'int', 'bool', 'char', 'float', 'ref', 'ptr'):
        return 1
    if k == 'tuple':
        return max([min_size(ip, x) for x in y['a']] or [0])
    if k == 'array':
        return min_size(ip, y['e']) if y['n'] else 0
    if k == 'adt' and y.get('v') and len(y['v']) == 1:
        return max([min_size(ip, x[1]) for x in y['v'][0]['f']] or [0])
    return 0


@model('Vec::len', 'VecDeque::len', 'String::len', 'BinaryHeap::len', '[T]::len', 'str::len')
def m_len(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return [(ip.fresh_num('len', 'usize'), st)]
    return [(usz(w[2]), st)]


@model('Vec::is_empty', 'VecDeque::is_empty', 'String::is_empty', 'BinaryHeap::is_empty', '[T]::is_empty', 'str::is_empty')
def m_empty(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return [(ip.fresh_num('e', 'bool'), st)]
    return [(ip.binop(st, 'Eq', usz(w[2]), usz(T.ZERO), dty, dty), st)]


@model('Vec::capacity', 'VecDeque::capacity', 'String::capacity')
def m_cap(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    v = ip.fresh_num('cap', 'usize')
    st.narrow(v[1][1][0][0], 0, (1 << 63) - 1)
    if w is not None:
        st.learn(('ge', sub(v[1], w[2])))
    return [(v, st)]


@model('Vec::push', 'VecDeque::push_back', 'BinaryHeap::push', 'Vec::push_mut')
def m_push(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if q is None:
        return [(UNIT, st)]
    put(ip, st, r, compact(ip, st, push_back(q, a[1])))
    return [(UNIT, st)]


@model('VecDeque::push_front')
def m_pushf(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if q is None:
        return [(UNIT, st)]
    put(ip, st, r, ('q', (('v', a[1]),) + q[1]))
    return [(UNIT, st)]


def pop_model(front, wild=False):
    def m(ip, st, f, a, atys, dty, act, t):
        r, q = getq(ip, st, a[0])
        if q is None:
            return [(ip.top(dty), st)]
        if wild and len(q[1]) > 1:
            el = ip.seq_summary(st, q)
            q = ('q', (('n', ip.seq_len(q), el),))
        out = []
        for el, nq, s in pops(ip, st, q, front):
            if len(out) and s is out[-1][1]:
                s = s.copy()
            put(ip, s, r, nq)
            out.append((NONE if el is None else some(el), s))
        return out
    return m


TABLE['Vec::pop'] = pop_model(False)
TABLE['VecDeque::pop_back'] = pop_model(False)
TABLE['VecDeque::pop_front'] = pop_model(True)
TABLE['BinaryHeap::pop'] = pop_model(True, True)


@model('Vec::clear', 'VecDeque::clear', 'String::clear', 'BinaryHeap::clear')
def m_clear(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    put(ip, st, r, ('q', ()))
    return [(UNIT, st)]


@model('Vec::reserve', 'Vec::shrink_to_fit', 'VecDeque::reserve', 'String::reserve', 'Vec::reserve_exact', 'Vec::dedup')
def m_nop(ip, st, f, a, atys, dty, act, t):
    if 'reserve' in f['path'].rsplit('::', 1)[-1] and len(a) > 1 and a[1][0] == 'n':
        st = room(ip, st, f, a[1][1], ip.p.pointee(atys[0]) if ip.p.pointee(atys[0]) is not None else atys[0], act, t)
        if st is None:
            return []
    return [(UNIT, st)]


@model('Vec::truncate', 'VecDeque::truncate')
def m_trunc(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if q is None or a[1][0] != 'n':
        return None
    n = nminmax(ip, st, usz(ip.seq_len(q)), a[1], False)[1]
    put(ip, st, r, subseq(ip, st, q, T.ZERO, n))
    return [(UNIT, st)]


@model('Vec::append', 'VecDeque::append')
def m_append(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0]); r2, q2 = getq(ip, st, a[1])
    if q is None or q2 is None:
        return None
    put(ip, st, r, concat(ip, st, q, q2))
    put(ip, st, r2, ('q', ()))
    return [(UNIT, st)]


@model('Vec::extend_from_slice', 'String::push_str', 'Vec::append_elements')
def m_extend_slice(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0]); w = window(ip, st, a[1])
    if q is None:
        return [(UNIT, st)]
    if w is None:
        q2 = ('q', (('x', ('opaque', T._fresh_n[0]), T.fresh('len', 0, (1 << 63) - 1)),)) if 'String' in f['path'] else None
        if q2 is None:
            return None
    else:
        q2 = subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
    put(ip, st, r, concat(ip, st, q, q2))
    return [(UNIT, st)]


@model('String::push')
def m_spush(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if a[1][0] == 'n' and is_const(a[1][1]):
        sg = ('s', chr(a[1][1][0]))
    else:
        sg = ('x', ('char', a[1]), T.fresh('clen', 1, 4))
    put(ip, st, r, ('q', q[1] + (sg,)))
    return [(UNIT, st)]


@model('Vec as Deref::deref', 'Vec as DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String as Deref::deref', 'String::as_str', 'Vec as AsRef::as_ref', 'String as AsRef::as_ref',
       'Vec as Borrow::borrow', 'str as AsRef::as_ref', 'str::as_bytes', 'String::as_bytes', 'String as Borrow::borrow', 'slice::as_slice', 'String as DerefMut::deref_mut', 'VecDeque::make_contiguous', '[T]::as_ref', 'array::as_slice', '[T; N]::as_slice')
def m_vderef(ip, st, f, a, atys, dty, act, t):
    td = ip.types[ip.p.pointee(dty)]['k'] if ip.p.pointee(dty) is not None else None
    if td not in ('slice', 'str'):
        return None
    w = window(ip, st, a[0])
    if w is None:
        return [(ip.top(dty), st)]
    return [(('r', w[0][1], w[0][2], ('w', w[1], w[2])), st)]


@model('String::into_bytes', 'String::from_utf8_unchecked', 'Vec::into_boxed_slice', '[T]::into_vec', 'str::into_string', 'String::into_boxed_str')
def m_same(ip, st, f, a, atys, dty, act, t):
    if a[0][0] == 'q':
        if ip.types[dty]['k'] == 'adt' and ip.types[dty].get('box'):
            return [(('r', ip.new_obj(st, a[0], 'box'), (), ('w', T.ZERO, ip.seq_len(a[0]))), st)]
        return [(a[0], st)]
    if a[0][0] == 'r':
        q = get(ip, st, a[0])
        return [(q, st)]
    return None


@model('boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(ip, st, f, a, atys, dty, act, t):
    v = a[0]
    for _ in range(4):
        if v[0] == 'r':
            v = get(ip, st, v)
        elif v[0] == 's' and len(v[1]) >= 1:
            v = v[1][-1] if v[1][0][0] in ('u', 's') and len(v[1]) > 1 else v[1][0]
        else:
            break
    return [(v if v[0] == 'q' else ip.top(dty), st)]


@model('Box::new_uninit')
def m_uninit(ip, st, f, a, atys, dty, act, t):
    return [(('r', ip.new_obj(st, ('u',), 'box'), (), None), st)]


def bounds(ip, act, st, t, idx, ln, kind='index'):
    """State in which idx < ln holds, recording the possible panic."""
    c = ('ge', addc(sub(ln, idx), -1))
    d = st.decide(c)
    if d is not True:
        ip.panic(act, st, t, kind, c, d)
    if d is False:
        return None
    return st if d is True else st.assume(c, record=False)


@model('Vec as Index::index', 'Vec as IndexMut::index_mut', '[T] as Index::index', '[T] as IndexMut::index_mut', '[T; N] as Index::index', '[T; N] as IndexMut::index_mut', 'str as Index::index', 'String as Index::index',
       'VecDeque as Index::index', 'VecDeque as IndexMut::index_mut')
def m_index(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    ity = ip.types[atys[1]]
    if w is None:
        return None
    r, off, ln = w
    if ity['k'] == 'uint':
        s = bounds(ip, act, st, t, a[1][1], ln)
        if s is None:
            return []
        return [(('r', r[1], r[2] + (('i', add(off, a[1][1])),), None), s)]
    rg = rng_bounds(ip, st, a[1], ity, ln)
    if rg is None:
        return None
    lo, hi = rg
    for c in (('ge', sub(hi, lo)), ('ge', sub(ln, hi))):
        d = st.decide(c)
        if d is not True:
            ip.panic(act, st, t, 'slice', c, d)
        if d is False:
            return []
        if d is None:
            st = st.assume(c, record=False)
            if st is None:
                return []
    if 'str' == norm(f['path'])[:3] or 'String' in norm(f['path']):
        for x in (lo, hi):
            if not (x == T.ZERO or x == ln or boundary(ip, st, r, x)):
                ip.panic(act, st, t, 'char boundary', ('eq', T.op('notbnd', [x], 0, 1)), None)
    return [(('r', r[1], r[2], ('w', add(off, lo), sub(hi, lo))), st)]


def boundary(ip, st, r, x):
    h = ip.hooks
    if h is not None and hasattr(h, 'boundary'):
        return h.boundary(ip, st, r, x)
    return True


def rng_bounds(ip, st, v, ity, ln):
    if ity['k'] != 'adt':
        return None
    n = ity['name'].rsplit('::', 1)[-1]
    if v[0] == 't':
        v = ip.expand(v, st)
    try:
        if n == 'Range':
            return v[1][0][1], v[1][1][1]
        if n == 'RangeFrom':
            return v[1][0][1], ln
        if n == 'RangeTo':
            return T.ZERO, v[1][0][1]
        if n == 'RangeFull':
            return T.ZERO, ln
        if n == 'RangeInclusive':
            return v[1][0][1], addc(v[1][1][1], 1)
        if n == 'RangeToInclusive':
            return T.ZERO, addc(v[1][0][1], 1)
    except (IndexError, TypeError):
        pass
    return None


@model('[T]::get', '[T]::get_mut', 'VecDeque::get', 'VecDeque::get_mut', 'str::get')
def m_get(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return [(ip.top(dty), st)]
    r, off, ln = w
    ity = ip.types[atys[1]]
    if ity['k'] == 'uint':
        c = ('ge', addc(sub(ln, a[1][1]), -1))
        ref = some(('r', r[1], r[2] + (('i', add(off, a[1][1])),), None))
    else:
        rg = rng_bounds(ip, st, a[1], ity, ln)
        if rg is None:
            return [(ip.top(dty), st)]
        lo, hi = rg
        ref = some(('r', r[1], r[2], ('w', add(off, lo), sub(hi, lo))))
        d1 = st.decide(('ge', sub(hi, lo)))
        if d1 is not True:
            out = []
            b = st.assume(('ge', addc(sub(lo, hi), -1)))
            if b is not None:
                out.append((NONE, b.copy() if b is st else b))
            s = st.assume(('ge', sub(hi, lo)))
            if s is not None:
                out += fork(ip, s, ('ge', sub(ln, hi)), ref, NONE)
            return out
        c = ('ge', sub(ln, hi))
    return fork(ip, st, c, ref, NONE)


def fork(ip, st, c, yes, no):
    d = st.decide(c)
    if d is True:
        return [(yes, st)]
    if d is False:
        return [(no, st)]
    out = []
    a = st.assume(c)
    b = st.assume(T.neg(c))
    if a is not None:
        out.append((yes, a if a is not st else st.copy()))
    if b is not None:
        out.append((no, b if b is not st else st.copy()))
    return out


@model('[T]::get_unchecked', '[T]::get_unchecked_mut')
def m_get_unchecked(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None or ip.types[atys[1]]['k'] != 'uint':
        return None
    r, off, ln = w
    return [(('r', r[1], r[2] + (('i', add(off, a[1][1])),), None), st)]


def firstlast(first):
    def m(ip, st, f, a, atys, dty, act, t):
        w = window(ip, st, a[0])
        if w is None:
            return [(ip.top(dty), st)]
        r, off, ln = w
        i = off if first else addc(add(off, ln), -1)
        return fork(ip, st, ('ge', addc(ln, -1)), some(('r', r[1], r[2] + (('i', i),), None)), NONE)
    return m


for _n in ('[T]::first', '[T]::first_mut', 'VecDeque::front', 'VecDeque::front_mut'):
    TABLE[_n] = firstlast(True)
for _n in ('[T]::last', '[T]::last_mut', 'VecDeque::back', 'VecDeque::back_mut', 'BinaryHeap::peek'):
    TABLE[_n] = firstlast(False)


@model('[T]::to_vec', '[T] as ToOwned::to_owned', 'str as ToOwned::to_owned', 'str::to_owned', 'str as ToString::to_string', 'slice::to_vec', '[T]::into_vec')
def m_tovec(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return [(ip.top(dty), st)]
    return [(subseq(ip, st, get(ip, st, w[0]), w[1], w[2]), st)]


@model('Vec as Clone::clone', 'String as Clone::clone', 'VecDeque as Clone::clone', 'Rgb as Clone::clone', 'HashMap as Clone::clone')
def m_vclone(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    return [(get(ip, st, r), st)] if r is not None else None


@model('String as From::from', 'String as FromStr::from_str', 'T as ToString::to_string', 'String as ToString::to_string', '&T as ToString::to_string')
def m_string_from(ip, st, f, a, atys, dty, act, t):
    x = a[0]
    at = ip.types[atys[0]] if atys[0] is not None else {'k': ''}
    res = None
    if x[0] == 'q':
        res = x
    elif at['k'] == 'ref' and ip.types[at['e']]['k'] == 'str' or at['k'] == 'ref' and ip.p.tyname(at['e']).endswith('String'):
        w = window(ip, st, x)
        if w is not None:
            res = subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
    if res is None and f['path'].endswith('to_string') and at['k'] == 'ref':
        res = ('q', display_segs(ip, st, x, at['e'], 'display', ''))
    if res is None:
        res = ip.top(ip.p.bykey.get('String', dty), 'opaque')
        if f['path'].endswith('from_str'):
            return [(ip.top(dty), st)]
    if f['path'].endswith('from_str'):
        res = ok(res)
    return [(res, st)]


@model('[T]::reverse')
def m_reverse(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return None
    r, off, ln = w
    q = get(ip, st, r)
    if q[0] == 'q' and off == T.ZERO and ln == ip.seq_len(q):
        put(ip, st, r, ('q', tuple(reversed(q[1]))))
    return [(UNIT, st)]


@model('[T]::sort', '[T]::sort_unstable', '[T]::sort_by', '[T]::sort_unstable_by', '[T]::sort_by_key', '[T]::sort_unstable_by_key', '[T]::swap')
def m_sort(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return None
    r, off, ln = w
    q = get(ip, st, r)
    if q[0] == 'q' and len(q[1]) > 1:
        el = ip.seq_summary(st, q)
        put(ip, st, r, ('q', (('n', ip.seq_len(q), el),)))
    return [(UNIT, st)]


@model('[T]::split_at', '[T]::split_at_mut')
def m_split_at(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return None
    r, off, ln = w
    m = a[1][1]
    c = ('ge', sub(ln, m))
    d = st.decide(c)
    if d is not True:
        ip.panic(act, st, t, 'slice', c, d)
        if d is False:
            return []
        st = st.assume(c, record=False)
    return [(('s', (('r', r[1], r[2], ('w', off, m)), ('r', r[1], r[2], ('w', add(off, m), sub(ln, m))))), st)]


@model('Vec::split_off')
def m_split_off(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if q is None:
        return None
    ln = ip.seq_len(q); m = a[1][1]
    c = ('ge', sub(ln, m))
    d = st.decide(c)
    if d is not True:
        ip.panic(act, st, t, 'split_off', c, d)
        if d is False:
            return []
        st = st.assume(c, record=False)
    tail = subseq(ip, st, q, m, sub(ln, m))
    put(ip, st, r, subseq(ip, st, q, T.ZERO, m))
    return [(tail, st)]


@model('Vec::drain', 'VecDeque::drain')
def m_drain(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if q is None:
        return None
    ln = ip.seq_len(q)
    rg = rng_bounds(ip, st, a[1], ip.types[atys[1]], ln)
    if rg is None:
        return None
    lo, hi = rg
    for c in (('ge', sub(hi, lo)), ('ge', sub(ln, hi))):
        d = st.decide(c)
        if d is not True:
            ip.panic(act, st, t, 'drain', c, d)
            if d is False:
                return []
            st = st.assume(c, record=False)
    out = subseq(ip, st, q, lo, sub(hi, lo))
    rest = concat(ip, st, subseq(ip, st, q, T.ZERO, lo), subseq(ip, st, q, hi, sub(ln, hi))) if not (lo == T.ZERO and hi == ln) else ('q', ())
    put(ip, st, r, rest)
    return [(('s', (out,)), st)]


@model('Vec::remove', 'Vec::swap_remove')
def m_remove(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0])
    if q is None:
        return None
    ln = ip.seq_len(q)
    s = bounds(ip, act, st, t, a[1][1], ln, 'remove')
    if s is None:
        return []
    st = s
    v = ip.load(st, r[1], r[2] + (('i', a[1][1]),))
    if a[1][1] == T.ZERO and f['path'].endswith('::remove'):
        for el, nq, s2 in pops(ip, st, q, True):
            if el is not None:
                put(ip, s2, r, nq)
                return [(el, s2)]
    el = ip.seq_summary(st, q)
    put(ip, st, r, ('q', (('n', addc(ln, -1), el),)))
    return [(v, st)]


@model('Vec as SpecFromElem::from_elem', 'T as SpecFromElem::from_elem', 'vec::from_elem')
def m_from_elem(ip, st, f, a, atys, dty, act, t):
    v, n = a[0], a[1][1]
    if is_const(n) and n[0] <= 64:
        return [(('q', tuple(('v', v) for _ in range(n[0]))), st)]
    return [(('q', (('n', n, v),)), st)]


@model('[T] as PartialEq::eq', 'Vec as PartialEq::eq', 'str as PartialEq::eq', 'String as PartialEq::eq', 'SlicePartialEq::equal', '[T] as SlicePartialEq::equal')
def m_seq_eq(ip, st, f, a, atys, dty, act, t):
    x, y = window(ip, st, a[0]), window(ip, st, a[1])
    if x is None or y is None:
        # &str == &str: one more level of pointers
        p, q = load_ref(ip, st, a[0]), load_ref(ip, st, a[1])
        if p is not None and p[0] == 'r' and q is not None and q[0] == 'r':
            x, y = window(ip, st, p), window(ip, st, q)
        elif y is None and q is not None and q[0] == 'r':
            y = window(ip, st, q)
        elif x is None and p is not None and p[0] == 'r':
            x = window(ip, st, p)
    if x is None or y is None:
        return [(ip.fresh_num('eq', 'bool'), st)]
    p = subseq(ip, st, get(ip, st, x[0]), x[1], x[2]); q = subseq(ip, st, get(ip, st, y[0]), y[1], y[2])
    if p == q:
        return [(boolv(T.ONE), st)]
    if all(s[0] == 's' for s in p[1] + q[1]):
        return [(boolv(T.ONE if ''.join(s[1] for s in p[1]) == ''.join(s[1] for s in q[1]) else T.ZERO), st)]
    h = getattr(ip.hooks, 'str_eq', None) if ip.hooks else None
    if h is not None:
        r = h(ip, st, p, q, f)
        if r is not None:
            return r
    c = st.decide(('eq', sub(x[2], y[2])))
    if c is False:
        return [(boolv(T.ZERO), st)]
    pv = set()
    if len(p[1]) == len(q[1]) and all(s[0] == 'v' and s[1][0] == 'n' for s in p[1] + q[1]):
        # element-wise
        cs = [('eq', sub(u[1][1], v[1][1])) for u, v in zip(p[1], q[1])]
        ts = []
        for c in cs:
            d = st.decide(c)
            if d is False:
                return [(boolv(T.ZERO), st)]
            if d is None:
                ts.append(T.cond_term(c))
        if not ts:
            return [(boolv(T.ONE), st)]
        r = ts[0]
        for z in ts[1:]:
            r = ip.bool_op(st, 'and', r, z)
        return [(boolv(r), st)]
    for s in p[1] + q[1]:
        if s[0] == 'v' and s[1][0] == 'n':
            pv |= T.prov(s[1][1])
        elif s[0] == 'x':
            pv |= T.prov(s[2])
    t2 = T.op('seqeq', [str(p), str(q)], 0, 1, pv or ('opaque',))
    return [(boolv(t2), st)]


# ---------------------------------------------------------------- slice iterators
def it3(r, a, b):
    return ('s', (r, usz(a), usz(b)))


@model('[T]::iter', '[T]::iter_mut', '&[T] as IntoIterator::into_iter', '&mut [T] as IntoIterator::into_iter', '&Vec as IntoIterator::into_iter', '&mut Vec as IntoIterator::into_iter',
       'VecDeque::iter', 'VecDeque::iter_mut', '&[T; N] as IntoIterator::into_iter', '&mut [T; N] as IntoIterator::into_iter', '&VecDeque as IntoIterator::into_iter', '&mut VecDeque as IntoIterator::into_iter', 'Iter::new', 'IterMut::new', 'BinaryHeap::iter')
def m_iter(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None:
        return [(ip.top(dty), st)]
    r, off, ln = w
    return [(it3(('r', r[1], r[2], None), off, add(off, ln)), st)]


def slice_next(back):
    def m(ip, st, f, a, atys, dty, act, t):
        r = deref(ip, st, a[0])
        v = get(ip, st, r)
        if v[0] != 's' or len(v[1]) != 3 or v[1][0][0] != 'r':
            return [(ip.top(dty), st)]
        base, i, e = v[1]
        i, e = i[1], e[1]
        c = ('ge', addc(sub(e, i), -1))
        d = st.decide(c)
        out = []
        if d is not False:
            s = st if d is True else st.assume(c)
            if s is not None:
                if s is st and d is None:
                    s = st.copy()
                if back:
                    put(ip, s, r, it3(base, i, addc(e, -1)))
                    p = addc(e, -1)
                else:
                    put(ip, s, r, it3(base, addc(i, 1), e))
                    p = i
                out.append((some(('r', base[1], base[2] + (('i', p),), None)), s))
        if d is not True:
            s = st if d is False else st.assume(T.neg(c))
            if s is not None:
                out.append((NONE, s if s is not st or d is False else st.copy()))
        return out
    return m


for _n in ('Iter as Iterator::next', 'IterMut as Iterator::next', 'Iter as ExactSizeIterator::next'):
    TABLE[_n] = slice_next(False)
for _n in ('Iter as DoubleEndedIterator::next_back', 'IterMut as DoubleEndedIterator::next_back'):
    TABLE[_n] = slice_next(True)


@model('Iter as ExactSizeIterator::len', 'IterMut as ExactSizeIterator::len', 'IntoIter as ExactSizeIterator::len', 'ExactSizeIterator::len')
def m_iter_len(ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    if v is not None and v[0] == 's' and len(v[1]) == 3:
        return [(usz(sub(v[1][2][1], v[1][1][1])), st)]
    if v is not None and v[0] == 's' and len(v[1]) == 1 and v[1][0][0] == 'q':
        return [(usz(ip.seq_len(v[1][0])), st)]
    return [(ip.fresh_num('len', 'usize'), st)]


@model('Iter as Iterator::size_hint', 'IntoIter as Iterator::size_hint', 'Iterator::size_hint', 'Map as Iterator::size_hint', 'Zip as Iterator::size_hint', 'Chain as Iterator::size_hint')
def m_hint(ip, st, f, a, atys, dty, act, t):
    return [(ip.top(dty), st)]


@model('Iter as Clone::clone')
def m_iter_clone(ip, st, f, a, atys, dty, act, t):
    return [(load_ref(ip, st, a[0]), st)]


@model('[T]::chunks', '[T]::chunks_exact', '[T]::windows', '[T]::chunks_mut')
def m_chunks(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    if w is None or a[1][0] != 'n':
        return [(ip.top(dty), st)]
    r, off, ln = w
    n = a[1][1]
    d = st.decide(('ge', addc(n, -1)))
    if d is not True:
        ip.panic(act, st, t, 'chunk size', ('ge', addc(n, -1)), d)
        if d is False:
            return []
    return [(('s', (('r', r[1], r[2], None), usz(off), usz(add(off, ln)), usz(n))), st)]


@model('Chunks as Iterator::next', 'ChunksMut as Iterator::next')
def m_chunks_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) != 4:
        return [(ip.top(dty), st)]
    base, i, e, n = v[1][0], v[1][1][1], v[1][2][1], v[1][3][1]
    out = []
    for val, s in fork(ip, st, ('ge', addc(sub(e, i), -1)), True, False):
        if not val:
            out.append((NONE, s)); continue
        m = nminmax(ip, s, usz(n), usz(sub(e, i)), False)[1]
        # a chunk is never empty
        s.learn(('ge', addc(m, -1)))
        put(ip, s, r, ('s', (base, usz(add(i, m)), usz(e), usz(n))))
        out.append((some(('r', base[1], base[2], ('w', i, m))), s))
    return out


@model('ChunksExact as Iterator::next')
def m_chunks_exact_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) != 4:
        return [(ip.top(dty), st)]
    base, i, e, n = v[1][0], v[1][1][1], v[1][2][1], v[1][3][1]
    out = []
    for val, s in fork(ip, st, ('ge', sub(sub(e, i), n)), True, False):
        if not val:
            out.append((NONE, s)); continue
        put(ip, s, r, ('s', (base, usz(add(i, n)), usz(e), usz(n))))
        out.append((some(('r', base[1], base[2], ('w', i, n))), s))
    return out


@model('ChunksExact::remainder', 'ChunksExact::into_remainder')
def m_chunks_remainder(ip, st, f, a, atys, dty, act, t):
    v = get(ip, st, deref(ip, st, a[0])) if a[0][0] == 'r' else a[0]
    if v[0] != 's' or len(v[1]) != 4:
        return [(ip.top(dty), st)]
    base, i, e, n = v[1][0], v[1][1][1], v[1][2][1], v[1][3][1]
    ln = sub(e, i)
    if not is_const(ln) or not is_const(n) or n[0] <= 0:
        return [(ip.top(dty), st)]
    m = const(ln[0] % n[0])
    return [(('r', base[1], base[2], ('w', sub(e, m), m)), st)]


@model('array::from_fn')
def m_array_from_fn(ip, st, f, a, atys, dty, act, t):
    ty = ip.types[dty]
    if ty['k'] != 'array' or not isinstance(ty['n'], int) or ty['n'] > 64:
        return [(ip.top(dty), st)]
    env = ip.new_obj(st, a[0], 'env')
    outs = [((), st)]
    for k in range(ty['n']):
        nxt = []
        for acc, s in outs:
            rs = call_env(ip, s, env, atys[0], [usz(const(k))], act, t, ty['e'])
            if rs is None:
                return [(ip.top(dty), st)]
            nxt += [(acc + (('v', x),), s2) for x, s2 in rs]
        if len(nxt) > 512:
            return [(ip.top(dty), st)]
        outs = nxt
    return [(('q', acc), s) for acc, s in outs]


# owning iterators
@model('Vec as IntoIterator::into_iter', 'VecDeque as IntoIterator::into_iter', '[T; N] as IntoIterator::into_iter', 'BinaryHeap as IntoIterator::into_iter')
def m_into_iter(ip, st, f, a, atys, dty, act, t):
    v = a[0]
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] != 'q':
        return [(ip.top(dty), st)]
    return [(('s', (v,)), st)]


def owned_next(front):
    def m(ip, st, f, a, atys, dty, act, t):
        r = deref(ip, st, a[0])
        v = get(ip, st, r)
        if v[0] != 's' or not v[1] or v[1][0][0] != 'q':
            return [(ip.top(dty), st)]
        out = []
        for el, nq, s in pops(ip, st, v[1][0], front):
            put(ip, s, r, ('s', (nq,) + v[1][1:]))
            out.append((NONE if el is None else some(el), s))
        return out
    return m


for _n in ('IntoIter as Iterator::next', 'Drain as Iterator::next'):
    TABLE[_n] = owned_next(True)
for _n in ('IntoIter as DoubleEndedIterator::next_back', 'Drain as DoubleEndedIterator::next_back'):
    TABLE[_n] = owned_next(False)


# once / repeat
@model('iter::once')
def m_once(ip, st, f, a, atys, dty, act, t):
    return [(('s', (some(a[0]),)), st)]


@model('Once as Iterator::next')
def m_once_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] == 's' and v[1][0][0] == 'e':
        put(ip, st, r, ('s', (NONE,)))
        return [(v[1][0], st)]
    return [(ip.top(dty), st)]


# ranges
def range_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) < 2 or v[1][0][0] not in ('n', 't'):
        return None
    i = ip.load(st, r[1], r[2] + (0,)); e = ip.load(st, r[1], r[2] + (1,))
    if i[0] != 'n' or e[0] != 'n':
        return None
    out = []
    for val, s in fork(ip, st, ('ge', addc(sub(e[1], i[1]), -1)), True, False):
        if val:
            ip.store(s, r[1], r[2] + (0,), ('n', addc(i[1], 1), i[2]))
            out.append((some(i), s))
        else:
            out.append((NONE, s))
    return out


TABLE['Range as Iterator::next'] = range_next
TABLE['Range as RangeIteratorImpl::spec_next'] = range_next


def range_next_back(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    i = ip.load(st, r[1], r[2] + (0,)); e = ip.load(st, r[1], r[2] + (1,))
    if i[0] != 'n' or e[0] != 'n':
        return None
    out = []
    for val, s in fork(ip, st, ('ge', addc(sub(e[1], i[1]), -1)), True, False):
        if val:
            ip.store(s, r[1], r[2] + (1,), ('n', addc(e[1], -1), e[2]))
            out.append((some(('n', addc(e[1], -1), e[2])), s))
        else:
            out.append((NONE, s))
    return out


TABLE['Range as DoubleEndedIterator::next_back'] = range_next_back
TABLE['Range as RangeIteratorImpl::spec_next_back'] = range_next_back


def rangeinc_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) != 3 or any(x[0] != 'n' for x in v[1]):
        return None
    i, e, ex = v[1]
    out = []
    for exh, s in fork(ip, st, T.as_cond(ex[1]), True, False):
        if exh:
            out.append((NONE, s)); continue
        for lt, s2 in fork(ip, s, ('ge', addc(sub(e[1], i[1]), -1)), 'lt', 'ge'):
            if lt == 'lt':
                put(ip, s2, r, ('s', (('n', addc(i[1], 1), i[2]), e, ex)))
                out.append((some(i), s2))
                continue
            for eq, s3 in fork(ip, s2, ('eq', sub(e[1], i[1])), True, False):
                if eq:
                    put(ip, s3, r, ('s', (i, e, boolv(T.ONE))))
                    out.append((some(i), s3))
                else:
                    out.append((NONE, s3))
    return out


TABLE['RangeInclusive as Iterator::next'] = rangeinc_next
TABLE['RangeInclusive as RangeInclusiveIteratorImpl::spec_next'] = rangeinc_next


@model('RangeInclusive::new')
def m_ri_new(ip, st, f, a, atys, dty, act, t):
    return [(('s', (a[0], a[1], boolv(T.ZERO))), st)]


# Take / StepBy etc. are interpreted from their bodies.

# ---------------------------------------------------------------- arrays
@model('[T; N]::map')
def m_arr_map(ip, st, f, a, atys, dty, act, t):
    v = a[0]
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] != 'q':
        return [(ip.top(dty), st)]
    el_ty = ip.types[dty]['e']
    env = ip.new_obj(st, a[1], 'env')
    outs = [((), st)]
    if not all(s[0] == 'v' for s in v[1]):
        el = ip.seq_summary(st, v)
        rs = call_env(ip, st, env, atys[1], [el], act, t, el_ty)
        if rs is None:
            return [(ip.top(dty), st)]
        return [(('q', (('n', ip.seq_len(v), x),)), s) for x, s in rs]
    for sg in v[1]:
        nxt = []
        for acc, s in outs:
            rs = call_env(ip, s, env, atys[1], [sg[1]], act, t, el_ty)
            if rs is None:
                return [(ip.top(dty), st)]
            for x, s2 in rs:
                nxt.append((acc + (('v', x),), s2))
        if len(nxt) > 8:
            break
        outs = nxt
    if len(nxt) > 8 if v[1] else False:
        return [(ip.top(dty), st)]
    return [(('q', acc), s) for acc, s in outs]


def call_env(ip, st, env, cty, args, act, t, dty):
    ty = ip.types[cty]
    if ty['k'] == 'fndef':
        fid = (ty.get('inst') or {}).get('FnOnce', ty.get('fn'))
        if fid is None:
            return None
        return ip.invoke(act, st, fid, list(args), [None] * len(args), dty, t)
    inst = ty.get('inst') or {}
    for k in ('Fn', 'FnMut'):
        if k in inst:
            return ip.enter(act, st, inst[k], [('r', env, (), None), ('s', tuple(args))], dty)
    if 'FnOnce' in inst:
        return ip.enter(act, st, inst['FnOnce'], [st.objs[env], ('s', tuple(args))], dty)
    if ty['k'] == 'ref':
        v = get(ip, st, deref(ip, st, st.objs[env]))
        e2 = ip.new_obj(st, v, 'env')
        return call_env(ip, st, e2, ty['e'], args, act, t, dty)
    return None


@model('&[T; N] as TryFrom::try_from', '&mut [T; N] as TryFrom::try_from')
def m_arr_ref_try(ip, st, f, a, atys, dty, act, t):
    w = window(ip, st, a[0])
    okty = ip.types[dty]['v'][0]['f'][0][1]
    n = ip.types[ip.p.pointee(okty)]['n']
    if w is None:
        return [(ip.top(dty), st)]
    r, off, ln = w
    q = get(ip, st, r)
    out = []
    for yes, s in fork(ip, st, ('eq', addc(ln, -n)), True, False):
        if yes:
            if off == T.ZERO and ip.seq_len(q) == const(n):
                ref = ('r', r[1], r[2], None)
            else:
                ref = ('r', ip.new_obj(s, subseq(ip, s, q, off, const(n)), 'sub'), (), None)
            out.append((ok(ref), s))
        else:
            out.append((err(UNIT), s))
    return out


@model('[T; N] as TryFrom::try_from')
def m_arr_try(ip, st, f, a, atys, dty, act, t):
    okty = ip.types[dty]['v'][0]['f'][0][1]
    n = ip.types[okty]['n']
    v = a[0]
    if v[0] == 't':
        v = ip.expand(v, st)
    src = ip.types[atys[0]]
    if v[0] == 'r':
        w = window(ip, st, v)
        if w is None:
            return [(ip.top(dty), st)]
        v = subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
        e = UNIT
    else:
        e = v
    if v[0] != 'q':
        return [(ip.top(dty), st)]
    out = []
    for yes, s in fork(ip, st, ('eq', addc(ip.seq_len(v), -n)), True, False):
        if yes:
            q = v
            if not all(x[0] == 'v' for x in v[1]):
                q = norm_array(ip, s, v, n)
            out.append((ok(q), s))
        else:
            out.append((err(e), s))
    return out


def norm_array(ip, st, v, n):
    if n <= 16:
        # the summarised part has as many elements as are missing
        fixed = sum(1 for s in v[1] if s[0] == 'v')
        ns = [s for s in v[1] if s[0] in ('n', 'g')]
        if len(ns) == 1:
            out = []
            for s in v[1]:
                if s[0] == 'v':
                    out.append(s)
                elif s[0] == 'g':
                    out += [('v', ip.inst_elem(st, s, const(i))) for i in range(n - fixed)]
                else:
                    out += [('v', ip.freshen(s[2], st)) for _ in range(n - fixed)]
            return ('q', tuple(out))
    el = ip.seq_summary(st, v)
    return ('q', (('n', const(n), el),))


@model('[T; N] as PartialEq::eq', 'Rgb as PartialEq::eq', 'SpecArrayEq::spec_eq')
def m_arr_eq(ip, st, f, a, atys, dty, act, t):
    x, y = load_ref(ip, st, a[0]), load_ref(ip, st, a[1])
    return [(boolv(val_eq(ip, st, x, y)), st)]


def val_eq(ip, st, x, y):
    """0/1 term for structural equality."""
    if x is None or y is None:
        return T.fresh('eq', 0, 1)
    if x[0] == 't' and x[1] is not None:
        x = ip.expand(x, st)
    if y[0] == 't' and y[1] is not None:
        y = ip.expand(y, st)
    if x == y and x[0] in ('n', 's', 'q'):
        return T.ONE
    if x[0] == 'n' and y[0] == 'n':
        c = ('eq', sub(x[1], y[1]))
        d = st.decide(c)
        return T.cond_term(c) if d is None else T.ONE if d else T.ZERO
    if x[0] == 's' and y[0] == 's' and len(x[1]) == len(y[1]):
        r = T.ONE
        for p, q in zip(x[1], y[1]):
            r = ip.bool_op(st, 'and', r, val_eq(ip, st, p, q))
        return r
    if x[0] == 'q' and y[0] == 'q' and len(x[1]) == len(y[1]) and all(s[0] == 'v' for s in x[1] + y[1]):
        r = T.ONE
        for p, q in zip(x[1], y[1]):
            r = ip.bool_op(st, 'and', r, val_eq(ip, st, p[1], q[1]))
        return r
    return T.fresh('eq', 0, 1)


# ---------------------------------------------------------------- hash maps: s(q of s(k, v))
@model('HashMap::new', 'HashMap::with_hasher', 'HashMap::with_capacity', 'HashMap as Default::default', 'HashSet::new', 'HashMap::with_capacity_and_hasher')
def m_hnew(ip, st, f, a, atys, dty, act, t):
    return [(('s', (('q', ()),)), st)]


@model('RandomState as Default::default', 'RandomState::new', 'Global as Clone::clone')
def m_rs(ip, st, f, a, atys, dty, act, t):
    return [(UNIT, st)]


def hq(ip, st, v):
    r = deref(ip, st, v)
    if r is None:
        return None, None
    m = get(ip, st, r)
    if m[0] == 's' and m[1] and m[1][0][0] == 'q':
        return r, m[1][0]
    return r, None


@model('HashMap::insert')
def m_hinsert(ip, st, f, a, atys, dty, act, t):
    r, q = hq(ip, st, a[0])
    if q is None:
        return [(ip.top(dty), st)]
    pair = ('s', (a[1], a[2]))
    segs = q[1]
    if len(segs) and segs[-1][0] == 'v' and all(s[0] == 'v' for s in segs) and len(segs) < 300 and a[1][0] == 'n' and is_const(a[1][1]) and all(s[1][0] == 's' and s[1][1][0][0] == 'n' and is_const(s[1][1][0][1]) for s in segs):
        for i, s in enumerate(segs):
            if s[1][1][0][1] == a[1][1]:
                put(ip, st, r, ('s', (('q', segs[:i] + (('v', pair),) + segs[i + 1:]),)))
                return [(some(s[1][1][1]), st)]
        put(ip, st, r, ('s', (('q', segs + (('v', pair),)),)))
        return [(NONE, st)]
    put(ip, st, r, ('s', (compact(ip, st, ('q', segs + (('v', pair),))),)))
    if not segs:
        return [(NONE, st)]
    return [(ip.top(dty), st)]


@model('HashMap::get', 'HashMap::get_mut')
def m_hget(ip, st, f, a, atys, dty, act, t):
    r, q = hq(ip, st, a[0])
    if q is None:
        return [(ip.top(dty), st)]
    if not q[1]:
        return [(NONE, st)]
    k = load_ref(ip, st, a[1])
    outs = []
    el = ip.seq_summary(st, q)
    val = el[1][1] if el[0] == 's' else el
    h = getattr(ip.hooks, 'map_get', None) if ip.hooks else None
    if h is not None:
        x = h(ip, st, r, q, k, dty)
        if x is not None:
            return x
    s1 = st.copy()
    pv = T.prov(k[1]) if k is not None and k[0] == 'n' else ('opaque',)
    hit = T.op('mapget', [str(r), k[1] if k is not None and k[0] == 'n' else str(k), T._fresh_n[0]], 0, 1, pv)
    s1 = st.assume(('eq', addc(hit, -1)))
    s2 = st.assume(('eq', hit))
    oid = ip.new_obj(s1, val, 'mv')
    return [(some(('r', oid, (), None)), s1), (NONE, s2)]


@model('HashMap::contains_key', 'HashSet::contains')
def m_hcontains(ip, st, f, a, atys, dty, act, t):
    return [(ip.fresh_num('has', 'bool'), st)]


@model('HashMap::len')
def m_hlen(ip, st, f, a, atys, dty, act, t):
    r, q = hq(ip, st, a[0])
    return [(usz(ip.seq_len(q)) if q is not None else ip.fresh_num('len', 'usize'), st)]


@model('HashMap::is_empty')
def m_hempty(ip, st, f, a, atys, dty, act, t):
    r, q = hq(ip, st, a[0])
    if q is None:
        return [(ip.fresh_num('e', 'bool'), st)]
    return [(ip.binop(st, 'Eq', usz(ip.seq_len(q)), usz(T.ZERO), dty, dty), st)]


@model('HashMap::clear')
def m_hclear(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    put(ip, st, r, ('s', (('q', ()),)))
    return [(UNIT, st)]


@model('HashMap::remove')
def m_hremove(ip, st, f, a, atys, dty, act, t):
    r, q = hq(ip, st, a[0])
    if q is not None and q[1]:
        el = ip.seq_summary(st, q)
        n = T.fresh('len', 0, (1 << 63) - 1)
        put(ip, st, r, ('s', (('q', (('n', n, el),)),)))
    return [(ip.top(dty), st)]


@model('HashMap as IntoIterator::into_iter')
def m_hinto(ip, st, f, a, atys, dty, act, t):
    v = a[0]
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] == 's' and v[1] and v[1][0][0] == 'q':
        return [(v, st)]
    return [(ip.top(dty), st)]


@model('HashMap::iter', '&HashMap as IntoIterator::into_iter', 'HashMap::keys', 'HashMap::values', 'HashMap::iter_mut', 'HashMap::values_mut', 'HashMap::drain', 'HashMap::into_keys', 'HashMap::into_values')
def m_hiter(ip, st, f, a, atys, dty, act, t):
    return [(ip.top(dty), st)]


# Entry: s(ref to map, key)
@model('HashMap::entry')
def m_entry(ip, st, f, a, atys, dty, act, t):
    r, q = hq(ip, st, a[0])
    if q is None:
        return [(ip.top(dty), st)]
    if not q[1]:
        return [(('s', (r, a[1], boolv(T.ZERO))), st)]
    return [(('s', (r, a[1], ip.fresh_num('occ', 'bool'))), st)]


@model('Entry::and_modify')
def m_and_modify(ip, st, f, a, atys, dty, act, t):
    e = a[0]
    if e[0] != 's' or len(e[1]) != 3 or e[1][0][0] != 'r':
        return [(e if e[0] != 's' else ip.top(dty), st)]
    r = e[1][0]
    m = get(ip, st, r)
    out = []
    for occ, s in fork(ip, st, T.as_cond(e[1][2][1]), True, False):
        e2 = ('s', (r, e[1][1], boolv(T.ONE if occ else T.ZERO)))
        if not occ:
            out.append((e2, s)); continue
        q = m[1][0]
        el = ip.seq_summary(s, q)
        if el is None:
            continue
        cell = ip.new_obj(s, el[1][1], 'mv')
        rs = call_closure(ip, s, a[1], atys[1], [('r', cell, (), None)], act, t, ip.p.unit_ty() if hasattr(ip.p, 'unit_ty') else dty, 'FnOnce')
        if rs is None:
            out.append((e2, s)); continue
        for _, s2 in rs:
            nv = s2.objs.get(cell, el[1][1])
            n = ip.seq_len(q)
            from absint import JoinCtx
            pair = ip.join_val(el, ('s', (el[1][0], nv)), JoinCtx(ip, None, s2, s2))
            put(ip, s2, r, ('s', (('q', (('n', n, pair),)),)))
            out.append((e2, s2))
    return out


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def m_or_insert(ip, st, f, a, atys, dty, act, t):
    e = a[0]
    if e[0] != 's' or len(e[1]) != 3 or e[1][0][0] != 'r':
        return [(ip.top(dty), st)]
    r = e[1][0]
    out = []
    for occ, s in fork(ip, st, T.as_cond(e[1][2][1]), True, False):
        m = get(ip, s, r)
        q = m[1][0]
        if occ:
            el = ip.seq_summary(s, q)
            if el is None:
                continue
            out.append((('r', ip.new_obj(s, el[1][1], 'mv'), (), None), s))
            continue
        if f['path'].endswith('or_insert'):
            vs = [(a[1], s)]
        elif f['path'].endswith('or_default'):
            vs = [(ip.top(ip.p.pointee(dty)), s)]
        else:
            vs = call_closure(ip, s, a[1], atys[1], [], act, t, ip.p.pointee(dty), 'FnOnce') or [(ip.top(ip.p.pointee(dty)), s)]
        for v, s2 in vs:
            q2 = compact(ip, s2, ('q', q[1] + (('v', ('s', (e[1][1], v))),)))
            put(ip, s2, r, ('s', (q2,)))
            oid = ip.new_obj(s2, v, 'mv')
            out.append((('r', oid, (), None), s2))
    return out


# ---------------------------------------------------------------- panics, printing, formatting
def m_panic(ip, st, f, args, atys, dty, act, t):
    ip.panic(act, st, t, 'panic:' + f['path'].rsplit('::', 1)[-1], None, None)
    return []


for _n in ('rt::panic_fmt', 'panicking::panic', 'panicking::panic_fmt', 'panicking::panic_display', 'rt::panic_display', 'panicking::panic_explicit', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed',
           'panicking::assert_failed', 'panicking::assert_failed_inner', 'panicking::unreachable_display', 'index::slice_index_fail', 'panicking::panic_nounwind', 'rt::begin_panic', 'panicking::panic_str_2015', 'unwrap_failed::unwrap_failed_inner',
           'panicking::panic_bounds_check', 'overflow_panic::pow', 'RangeError::report', 'str::slice_error_fail', 'panic_const::panic_const_div_by_zero', 'panicking::assert_matches_failed', 'process::abort', 'intrinsics::abort', 'alloc::handle_alloc_error',
           'overflow_panic::add', 'overflow_panic::mul', 'overflow_panic::sub', 'num::from_str_radix_panic', 'int_log10::panic_for_nonpositive_argument', 'slice::copy_from_slice_impl::len_mismatch_fail', 'vec::remove::assert_failed'):
    TABLE[_n] = m_panic


@model('io::_print', 'io::_eprint')
def m_print(ip, st, f, a, atys, dty, act, t):
    return [(UNIT, st)]


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp', 'Argument::new_binary', 'Argument::new_octal', 'Argument::new_pointer', 'Argument::new_upper_exp')
def m_arg(ip, st, f, a, atys, dty, act, t):
    return [(('s', (a[0], ('m', 'fmtkind', (f['path'].rsplit('_', 1)[-1] if 'hex' not in f['path'] else 'hex', atys[0])))), st)]


@model('Argument::from_usize', 'Argument::none')
def m_arg2(ip, st, f, a, atys, dty, act, t):
    return [(('s', (a[0] if a else UNIT, ('m', 'fmtkind', ('usize', None)))), st)]


@model('Arguments::new', 'Arguments::new_v1', 'Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def m_args(ip, st, f, a, atys, dty, act, t):
    tmpl = None
    if f['path'].endswith('from_str') or f['path'].endswith('nonconst'):
        w = window(ip, st, a[0])
        q = subseq(ip, st, get(ip, st, w[0]), w[1], w[2]) if w else None
        return [(('s', (q if q is not None else ('o',), ('m', 'fmtstr', ()))), st)]
    r = deref(ip, st, a[0])
    if r is not None:
        q = get(ip, st, r)
        if q[0] == 'q' and all(s[0] == 'v' and s[1][0] == 'n' and is_const(s[1][1]) for s in q[1]):
            tmpl = bytes(s[1][1][0] for s in q[1])
    args = ()
    r = deref(ip, st, a[1]) if len(a) > 1 else None
    if r is not None:
        q = get(ip, st, r)
        if q[0] == 'q':
            args = q
    return [(('s', (args if args else ('q', ()), ('m', 'fmt', (('tmpl', tmpl),)))), st)]


def parse_template(b):
    """[('lit', text) | ('arg', index, plain)]"""
    out = []
    i = 0; nxt = 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(('lit', b[i + 1:i + 1 + c].decode('utf8', 'replace'))); i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(('lit', b[i + 3:i + 3 + n].decode('utf8', 'replace'))); i += 3 + n
        elif c & 0xC0 == 0xC0:
            i += 1
            opts = b''
            if c & 1:
                opts += b[i:i + 4]; i += 4
            if c & 2:
                opts += b[i:i + 2]; i += 2
            if c & 4:
                opts += b[i:i + 2]; i += 2
            idx = nxt
            if c & 8:
                idx = b[i] | b[i + 1] << 8; i += 2
            nxt = idx + 1
            out.append(('arg', idx, '' if not (c & 0x37) else opts.hex() + '/%x' % c))
        else:
            break
    return out


def fmt_segs(ip, st, args):
    """Segments of the text produced by format arguments, or None."""
    if args[0] != 's' or len(args[1]) != 2 or args[1][1][0] != 'm':
        return None
    m = args[1][1]
    if m[1] == 'fmtstr':
        return args[1][0][1] if args[1][0][0] == 'q' else None
    if m[1] != 'fmt' or m[2][0][1] is None:
        return None
    q = args[1][0]
    out = ()
    for p in parse_template(m[2][0][1]):
        if p[0] == 'lit':
            out += (('s', p[1]),)
            continue
        if p[1] >= len(q[1]) or q[1][p[1]][0] != 'v':
            return None
        av = q[1][p[1]][1]
        if av[0] != 's' or len(av[1]) != 2 or av[1][1][0] != 'm':
            return None
        kind, rty = av[1][1][2]
        pt = ip.p.pointee(rty) if rty is not None else None
        out += display_segs(ip, st, av[1][0], pt, kind, p[2])
    return out


def display_segs(ip, st, ref, ty, kind, opts):
    """Text of one displayed value."""
    for _ in range(4):
        if ty is not None and ip.types[ty]['k'] == 'ref':
            r = deref(ip, st, ref)
            if r is None:
                break
            ref = get(ip, st, r) if ip.types[ip.types[ty]['e']]['k'] != 'never' else ref
            ty = ip.types[ty]['e']
        else:
            break
    tn = ip.p.tyname(ty) if ty is not None else '?'
    r = deref(ip, st, ref)
    v = None
    if r is not None:
        if tn in ('str',) or tn.endswith('String'):
            w = window(ip, st, r)
            if w is not None:
                q = subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
                if kind == 'display' and not opts:
                    return q[1]
                return (('x', ('fmt', kind, opts, tn, q), T.fresh('flen', 0, 1 << 40, 'str')),)
        v = get(ip, st, r)
        if v[0] == 't':
            v = ip.expand(v, st)
        if v[0] == 'n' and is_const(v[1]) and kind == 'display' and not opts:
            return (('s', str(v[1][0]) if v[2] not in ('char', 'bool') else chr(v[1][0]) if v[2] == 'char' else ('true' if v[1][0] else 'false')),)
    return (('x', ('fmt', kind, opts, tn, v), T.fresh('flen', 0, 1 << 40, 'str')),)


@model('fmt::format', 'fmt::format::format_inner')
def m_format(ip, st, f, a, atys, dty, act, t):
    s = fmt_segs(ip, st, a[0])
    if s is None:
        return [(('q', (('x', ('opaque', T._fresh_n[0]), T.fresh('flen', 0, 1 << 40, 'str')),)), st)]
    return [(('q', tuple(s)), st)]


@model('hint::must_use')
def m_must_use(ip, st, f, a, atys, dty, act, t):
    return [(a[0], st)]


@model('Error::new', 'Error::other', 'Error::from', 'Error as From::from')
def m_ioerr(ip, st, f, a, atys, dty, act, t):
    if 'io' not in ip.p.tyname(dty) and 'io' not in f['path']:
        return None
    return [(ip.top(dty, 'opaque'), st)]


@model('alloc_impl_runtime::x', 'ByteSize::b', 'rand::thread_rng')
def m_top(ip, st, f, a, atys, dty, act, t):
    return [(ip.top(dty), st)]


def skip_check(ip, st, f, a, atys, dty, act, t):
    return [(UNIT, st)]


PREFIX_SUFFIX = '::precondition_check'


# ---------------------------------------------------------------- integers
@model('u8::rotate_left')
def _unused(ip, st, f, a, atys, dty, act, t):
    return None


def absdiff(ip, st, f, a, atys, dty, act, t):
    x, y = a
    if x[0] != 'n' or y[0] != 'n':
        return None
    d = sub(x[1], y[1])
    tn = ip.p.tyname(dty)
    c = st.decide(('ge', d))
    if c is True:
        return [(('n', d, tn), st)]
    if c is False:
        return [(('n', T.scale(d, -1), tn), st)]
    lo, hi = st.iv(d)
    m = None if lo is None or hi is None else max(abs(lo), abs(hi))
    if d[1][0][1] < 0:
        d = T.scale(d, -1)
    return [(('n', T.op('abs', [d], 0, m), tn), st)]


def absv(ip, st, f, a, atys, dty, act, t):
    x = a[0]
    if x[0] != 'n':
        return None
    c = st.decide(('ge', x[1]))
    if c is True:
        return [(x, st)]
    lo, hi = st.iv(x[1])
    from absint import RANGES
    if not f['path'].endswith('unsigned_abs') and (lo is None or lo <= RANGES[x[2]][0]):
        ip.panic(act, st, t, 'overflow', ('ge', addc(x[1], -RANGES[x[2]][0] - 1)), None)
    d = x[1]
    if is_const(d):
        return [(('n', const(abs(d[0])), ip.p.tyname(dty)), st)]
    if d[1][0][1] < 0:
        d = T.scale(d, -1)
    return [(('n', T.op('abs', [d], 0, None if lo is None or hi is None else max(abs(lo), abs(hi))), ip.p.tyname(dty)), st)]


def intpow(ip, st, f, a, atys, dty, act, t):
    x, n = a
    if x[0] != 'n' or n[0] != 'n' or not is_const(n[1]) or n[1][0] > 6:
        return [(ip.fresh_num('pow', ip.p.tyname(dty)), st)]
    r = const(1)
    tn = x[2]
    for i in range(n[1][0]):
        r = x[1] if i == 0 else ip.exact(st, 'Mul', r, x[1], tn)
    ff = ip.fit(st, r, tn)
    if ff is not True:
        from absint import RANGES
        lo, hi = RANGES[tn]
        if f['path'].endswith('::pow'):
            ip.panic(act, st, t, 'overflow', ('ge', addc(T.scale(r, -1), hi)), ff)
        else:
            r = T.op('wrap:' + tn, [r], lo, hi)
    return [(('n', r, tn), st)]


def wrapping(op):
    def m(ip, st, f, a, atys, dty, act, t):
        return [(ip.binop(st, op, a[0], a[1], atys[0] if atys[0] is not None else dty, atys[1] if atys[1] is not None else dty), st)]
    return m


def saturating(ip, st, f, a, atys, dty, act, t):
    n = f['path'].rsplit('::', 1)[-1]
    if n in ('saturating_sub', 'saturating_add') and a[0][0] == 'n' and a[1][0] == 'n':
        return intrinsic(ip, st, f, a, atys, dty, act, t)
    return None


def checked(op):
    def m(ip, st, f, a, atys, dty, act, t):
        if a[0][0] != 'n' or a[1][0] != 'n':
            return None
        tn = a[0][2]
        r = ip.exact(st, op, a[0][1], a[1][1], tn)
        from absint import RANGES
        lo, hi = RANGES[tn]
        out = []
        for c1, s in fork(ip, st, ('ge', addc(r, -lo)), True, False):
            if not c1:
                out.append((NONE, s)); continue
            for c2, s2 in fork(ip, s, ('ge', addc(T.scale(r, -1), hi)), True, False):
                out.append((some(('n', r, tn)) if c2 else NONE, s2))
        return out
    return m


def nextpow2(ip, st, f, a, atys, dty, act, t):
    x = a[0]
    lo, hi = st.iv(x[1])
    if not x[1][1]:
        return [(('n', const(1 if x[1][0] <= 1 else 1 << (x[1][0] - 1).bit_length()), x[2]), st)]
    return [(('n', T.op('npow2', [x[1]], 1, 1 << max(0, (hi - 1).bit_length()) if hi else 1), x[2]), st)]


def try_int(ip, st, f, a, atys, dty, act, t):
    from absint import RANGES
    x = a[0]
    okty = ip.types[dty]['v'][0]['f'][0][1]
    tn = ip.p.tyname(okty)
    if x[0] == 't':
        x = ip.expand(x, st)
    if x[0] != 'n' or tn not in RANGES:
        return None
    lo, hi = RANGES[tn]
    out = []
    e = ip.top(ip.types[dty]['v'][1]['f'][0][1])
    for c1, s in fork(ip, st, ('ge', addc(x[1], -lo)), True, False):
        if not c1:
            out.append((err(e), s)); continue
        for c2, s2 in fork(ip, s, ('ge', addc(T.scale(x[1], -1), hi)), True, False):
            out.append((ok(('n', x[1], tn)) if c2 else err(e), s2))
    return out


INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
for _t in INTS:
    TABLE[_t + '::abs_diff'] = absdiff
    TABLE[_t + '::abs'] = absv
    TABLE[_t + '::unsigned_abs'] = absv
    TABLE[_t + '::pow'] = intpow
    TABLE[_t + '::wrapping_add'] = wrapping('AddWrapping')
    TABLE[_t + '::wrapping_sub'] = wrapping('SubWrapping')
    TABLE[_t + '::wrapping_mul'] = wrapping('MulWrapping')
    TABLE[_t + '::saturating_sub'] = saturating
    TABLE[_t + '::saturating_add'] = saturating
    TABLE[_t + '::checked_add'] = checked('Add')
    TABLE[_t + '::checked_sub'] = checked('Sub')
    TABLE[_t + '::checked_mul'] = checked('Mul')
    TABLE[_t + '::next_power_of_two'] = nextpow2
    TABLE[_t + ' as TryFrom::try_from'] = try_int


def clone_prim(ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    return [(v, st)] if v is not None else None


for _t in INTS + ['bool', 'char', 'f32', 'f64']:
    TABLE[_t + ' as Clone::clone'] = clone_prim


def f1(name):
    def m(ip, st, f, a, atys, dty, act, t):
        return intrinsic(ip, st, {'path': name}, a, atys, dty, act, t)
    return m


for _t in ('f64', 'f32'):
    for _m in ('sqrt', 'round', 'floor', 'ceil', 'trunc', 'powi'):
        TABLE['%s::%s' % (_t, _m)] = f1(_m)
    TABLE[_t + '::abs'] = f1('fabs')


def f_isfinite(ip, st, f, a, atys, dty, act, t):
    if ip.total:
        return [(boolv(T.ONE), st)]
    e = fexpr(ip, st, a[0], 'f64')
    return [(boolv(T.op('finite', [e], 0, 1, fprov(e))), st)]


TABLE['f64::is_finite'] = f_isfinite
TABLE['f32::is_finite'] = f_isfinite
TABLE['f64::is_nan'] = lambda ip, st, f, a, atys, dty, act, t: [(boolv(T.op('nan', [fexpr(ip, st, a[0], 'f64')], 0, 1, fprov(fexpr(ip, st, a[0], 'f64')))), st)]


def f_pcmp(ip, st, f, a, atys, dty, act, t):
    if ip.total:
        x, y = load_ref(ip, st, a[0]), load_ref(ip, st, a[1])
        if x is not None and y is not None:
            tn = 'f64' if 'f64' in f['path'] else 'f32'
            lt, gt = float_bin(ip, st, 'Lt', x, y, tn)[1], float_bin(ip, st, 'Lt', y, x, tn)[1]
            out = []
            for k, cs in ((0, (T.as_cond(lt),)), (1, (T.neg(T.as_cond(lt)), T.neg(T.as_cond(gt)))), (2, (T.neg(T.as_cond(lt)), T.as_cond(gt)))):
                s = st
                for c in cs:
                    s = s.assume(c) if s is not None else None
                if s is not None:
                    o = ('e', ((k, ()),), None)
                    out.append((some(o) if 'partial' in f['path'] else o, s.copy() if s is st else s))
            return out
    return [(ip.top(dty), st)]


TABLE['f64 as PartialOrd::partial_cmp'] = f_pcmp
TABLE['f64::total_cmp'] = f_pcmp
TABLE['f64::max'] = lambda ip, st, f, a, atys, dty, act, t: [(('f', ('op', 'fmax', fexpr(ip, st, a[0], 'f64'), fexpr(ip, st, a[1], 'f64')), 'f64'), st)]
TABLE['f64::min'] = lambda ip, st, f, a, atys, dty, act, t: [(('f', ('op', 'fmin', fexpr(ip, st, a[0], 'f64'), fexpr(ip, st, a[1], 'f64')), 'f64'), st)]


# ---------------------------------------------------------------- image crate
def img_parts(ip, st, v):
    """(ref, w, h, pix) of an image behind a pointer (any number of references)."""
    r = deref(ip, st, v)
    for _ in range(4):
        if r is None:
            return None
        x = get(ip, st, r)
        if x[0] == 's' and len(x[1]) == 3 and x[1][0][0] == 'n':
            return r, x[1][0][1], x[1][1][1], x[1][2]
        if x[0] == 'r':
            r = x
            continue
        return None
    return None


def pixel_val(ip, st, pix, x, y, n=4):
    """Channel values at (x, y)."""
    if pix[0] == 'm' and pix[1] == 'pix':
        chs = [('n', T.op('px', [pix[2][0][1], x, y, c], 0, 255, ('img',)), 'u8') for c in range(3)]
    elif pix[0] == 'm' and pix[1] == 'pixf':
        v = ip.subst_val(pix[2][0], {pix[2][1][1]: x, pix[2][2][1]: y})
        if v[0] == 's' and v[1] and v[1][0][0] == 'q' and len(v[1][0][1]) >= 3 and all(s[0] == 'v' for s in v[1][0][1]):
            chs = [s[1] for s in v[1][0][1][:3]]
        else:
            chs = [ip.fresh_num('ch', 'u8', 'opaque') for c in range(3)]
    else:
        chs = [ip.fresh_num('ch', 'u8', 'opaque') for c in range(3)]
    if n == 4:
        chs = chs + [('n', T.op('alpha', [x, y], 0, 255), 'u8')]
    return ('s', (('q', tuple(('v', c) for c in chs)),))


@model('DynamicImage as GenericImageView::dimensions', 'ImageBuffer as GenericImageView::dimensions', 'ImageBuffer::dimensions', 'GenericImageView::dimensions')
def m_dims(ip, st, f, a, atys, dty, act, t):
    p = img_parts(ip, st, a[0])
    if p is None:
        return [(ip.top(dty), st)]
    return [(('s', (('n', p[1], 'u32'), ('n', p[2], 'u32'))), st)]


@model('DynamicImage::width', 'ImageBuffer::width', 'GenericImageView::width', 'DynamicImage as GenericImageView::width')
def m_width(ip, st, f, a, atys, dty, act, t):
    p = img_parts(ip, st, a[0])
    return [(('n', p[1], 'u32') if p else ip.top(dty), st)]


@model('DynamicImage::height', 'ImageBuffer::height', 'GenericImageView::height', 'DynamicImage as GenericImageView::height')
def m_height(ip, st, f, a, atys, dty, act, t):
    p = img_parts(ip, st, a[0])
    return [(('n', p[2], 'u32') if p else ip.top(dty), st)]


@model('DynamicImage as GenericImageView::get_pixel', 'ImageBuffer as GenericImageView::get_pixel')
def m_get_pixel(ip, st, f, a, atys, dty, act, t):
    p = img_parts(ip, st, a[0])
    if p is None or a[1][0] != 'n' or a[2][0] != 'n':
        return [(ip.top(dty), st)]
    r, w, h, pix = p
    for v, b in ((a[1][1], w), (a[2][1], h)):
        s = bounds(ip, act, st, t, v, b, 'pixel')
        if s is None:
            return []
        st = s
    return [(pixel_val(ip, st, pix, a[1][1], a[2][1]), st)]


@model('GenericImageView::pixels', 'DynamicImage as GenericImageView::pixels')
def m_pixels(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    return [(('s', (r, usz(T.ZERO))), st)]


def prod(ip, st, w, h):
    return ip.exact(st, 'Mul', w, h, 'u64')


def row_pos(ip, st, w, h, k):
    if not w[1] and not k[1] and w[0] > 0:
        return const(k[0] % w[0]), const(k[0] // w[0])
    x = T.op('rowx', [w, h, k], 0, max(0, (st.iv(w)[1] or 1) - 1))
    y = T.op('rowy', [w, h, k], 0, max(0, (st.iv(h)[1] or 1) - 1))
    st.learn(('ge', addc(sub(w, x), -1)))
    st.learn(('ge', addc(sub(h, y), -1)))
    return x, y


def hil_pos(ip, st, w, h, k):
    if not w[1] and not h[1] and not k[1]:
        c = hilbert_table.at(w[0], h[0], k[0])
        if c is None:
            raise Stuck('the curve of a %dx%d rectangle is not tabulated' % (w[0], h[0]))
        return const(c[0]), const(c[1])
    x = T.op('hx', [w, h, k], 0, max(0, (st.iv(w)[1] or 1) - 1))
    y = T.op('hy', [w, h, k], 0, max(0, (st.iv(h)[1] or 1) - 1))
    st.learn(('ge', addc(sub(w, x), -1)))
    st.learn(('ge', addc(sub(h, y), -1)))
    return x, y


@model('Pixels as Iterator::next')
def m_pixels_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) != 2 or v[1][0][0] != 'r':
        return [(ip.top(dty), st)]
    p = img_parts(ip, st, v[1][0])
    if p is None:
        return [(ip.top(dty), st)]
    ir, w, h, pix = p
    k = v[1][1][1]
    out = []
    item = ip.types[dty]['v'][1]['f'][0][1]
    tup = ip.types[item]['k'] == 'tuple'
    for more, s in fork(ip, st, ('ge', addc(sub(prod(ip, st, w, h), k), -1)), True, False):
        if not more:
            event(ip, s, 'pixend'); out.append((NONE, s)); continue
        x, y = row_pos(ip, s, w, h, k)
        put(ip, s, r, ('s', (v[1][0], usz(addc(k, 1)))))
        px = pixel_val(ip, s, pix, x, y)
        event(ip, s, 'pixread', x, y)
        if tup:
            out.append((some(('s', (('n', x, 'u32'), ('n', y, 'u32'), px))), s))
        else:
            out.append((some(px), s))
    return out


def event(ip, st, kind, *data):
    h = ip.hooks
    if h is not None and hasattr(h, 'event'):
        h.event(ip, st, kind, data)


@model('Rgba as Pixel::to_rgb', 'Rgb as Pixel::to_rgb', 'Pixel::to_rgb')
def m_to_rgb(ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    if v is None:
        return [(ip.top(dty), st)]
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] == 's' and v[1]:
        q = v[1][0]
        if q[0] == 't':
            q = ip.expand(q, st)
        if q[0] == 'q' and len(q[1]) >= 3 and all(s[0] == 'v' for s in q[1]):
            return [(('s', (('q', q[1][:3]),)), st)]
    return [(ip.top(dty), st)]


@model('Rgb as From::from', 'Rgba as From::from')
def m_rgb_from(ip, st, f, a, atys, dty, act, t):
    if atys[0] is not None and ip.types[atys[0]]['k'] == 'array':
        return [(('s', (a[0],)), st)]
    return None


@model('Rgb as Index::index', 'Rgba as Index::index', 'Rgb as IndexMut::index_mut', 'Rgba as IndexMut::index_mut')
def m_rgb_index(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    n = 4 if 'Rgba' in norm(f['path']) else 3
    s = bounds(ip, act, st, t, a[1][1], const(n))
    if s is None:
        return []
    return [(('r', r[1], r[2] + (0, ('i', a[1][1])), None), s)]


@model('Rgb as Pixel::channels', 'Rgba as Pixel::channels', 'Pixel::channels')
def m_channels(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    return [(('r', r[1], r[2] + (0,), ('w', T.ZERO, const(3 if 'Rgb ' in f['path'] or 'Rgb<' in f['path'] else 4))), st)]


@model('ImageBuffer::new')
def m_ib_new(ip, st, f, a, atys, dty, act, t):
    return [(('s', (a[0], a[1], ('m', 'pixz', ()))), st)]


@model('ImageBuffer::from_fn')
def m_from_fn(ip, st, f, a, atys, dty, act, t):
    w, h = a[0], a[1]
    X = T.fresh('X', 0, max(0, (st.iv(w[1])[1] or 1) - 1), 'pos')
    Y = T.fresh('Y', 0, max(0, (st.iv(h[1])[1] or 1) - 1), 'pos')
    # empty image: the closure is never called
    out = []
    s0 = st.assume(('ge', addc(prod(ip, st, w[1], h[1]), -1)))
    s1 = st.assume(('ge', T.scale(prod(ip, st, w[1], h[1]), -1)))
    if s1 is not None:
        out.append((('s', (w, h, ('m', 'pixo', ()))), s1))
    if s0 is None:
        return out
    s = s0.copy()
    okk = s.learn(('ge', addc(sub(w[1], X), -1))) and s.learn(('ge', addc(sub(h[1], Y), -1)))
    env = ip.new_obj(s, a[2], 'env')
    pt = ip.types[dty]['args'][0]
    rs = call_env(ip, s, env, atys[2], [('n', X, 'u32'), ('n', Y, 'u32')], act, t, pt)
    if not rs:
        return out
    vals = [v for v, _ in rs]
    v = vals[0] if all(x == vals[0] for x in vals) else None
    base = rs[0][1]
    if len(rs) > 1:
        g = ip.merge_group([x for _, x in rs])
        base = g[0]
    pix = ('m', 'pixf', (v, ('x', X[1][0][0]), ('y', Y[1][0][0]))) if v is not None else ('m', 'pixo', ())
    return out + [(('s', (w, h, pix)), base)]


@model('DynamicImage as From::from', 'ImageBuffer as From::from', 'DynamicImage::ImageRgb8')
def m_dyn_from(ip, st, f, a, atys, dty, act, t):
    return [(a[0], st)]


@model('DynamicImage::to_rgb8', 'DynamicImage::into_rgb8')
def m_to_rgb8(ip, st, f, a, atys, dty, act, t):
    if a[0][0] == 'r':
        p = img_parts(ip, st, a[0])
        if p is not None:
            return [(('s', (('n', p[1], 'u32'), ('n', p[2], 'u32'), p[3])), st)]
        return [(ip.top(dty), st)]
    return [(a[0], st)]


def pixcell(ip, st, r, x, y, how):
    """A fresh cell standing for the pixel at (x, y); a store to it is reported to the client."""
    el = ('s', (('q', tuple(('v', ip.fresh_num('old', 'u8', 'opaque')) for _ in range(3))),))
    oid = ip.new_obj(st, el, 'pixel')
    event(ip, st, 'pixcell', oid, x, y, how)
    return ('r', oid, (), None)


@model('ImageBuffer::get_pixel_mut', 'ImageBuffer as GenericImage::get_pixel_mut')
def m_get_pixel_mut(ip, st, f, a, atys, dty, act, t):
    p = img_parts(ip, st, a[0])
    if p is None:
        return [(ip.top(dty), st)]
    for v, b in ((a[1][1], p[1]), (a[2][1], p[2])):
        s = bounds(ip, act, st, t, v, b, 'pixel')
        if s is None:
            return []
        st = s
    return [(pixcell(ip, st, p[0], a[1][1], a[2][1], 'xy'), st)]


@model('ImageBuffer::put_pixel', 'DynamicImage as GenericImage::put_pixel', 'ImageBuffer as GenericImage::put_pixel')
def m_put_pixel(ip, st, f, a, atys, dty, act, t):
    p = img_parts(ip, st, a[0])
    if p is None:
        return [(UNIT, st)]
    for v, b in ((a[1][1], p[1]), (a[2][1], p[2])):
        s = bounds(ip, act, st, t, v, b, 'pixel')
        if s is None:
            return []
        st = s
    c = pixcell(ip, st, p[0], a[1][1], a[2][1], 'xy')
    put(ip, st, c, a[3])
    event(ip, st, 'pixput', c[1], a[1][1], a[2][1], a[3])
    return [(UNIT, st)]


@model('ImageBuffer::pixels_mut', 'ImageBuffer::enumerate_pixels_mut', 'ImageBuffer::pixels', 'ImageBuffer::enumerate_pixels')
def m_pixels_mut(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    return [(('s', (r, usz(T.ZERO))), st)]


@model('PixelsMut as Iterator::next', 'EnumeratePixelsMut as Iterator::next')
def m_pixels_mut_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    p = img_parts(ip, st, v[1][0]) if v[0] == 's' and len(v[1]) == 2 else None
    if p is None:
        return [(ip.top(dty), st)]
    ir, w, h, pix = p
    k = v[1][1][1]
    out = []
    for more, s in fork(ip, st, ('ge', addc(sub(prod(ip, st, w, h), k), -1)), True, False):
        if not more:
            out.append((NONE, s)); continue
        x, y = row_pos(ip, s, w, h, k)
        put(ip, s, r, ('s', (v[1][0], usz(addc(k, 1)))))
        c = pixcell(ip, s, ir, x, y, 'row')
        if 'Enumerate' in f['path']:
            out.append((some(('s', (('n', x, 'u32'), ('n', y, 'u32'), c))), s))
        else:
            out.append((some(c), s))
    return out


# zhang_hilbert: s(w, h, k)
@model('ArbHilbertScanCore::new')
def m_hil_new(ip, st, f, a, atys, dty, act, t):
    v = a[0]
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] != 'q' or len(v[1]) != 2:
        return [(ip.top(dty), st)]
    return [(('s', (v[1][0][1], v[1][1][1], usz(T.ZERO))), st)]


@model('ArbHilbertScanCore as Iterator::next')
def m_hil_next(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 's' or len(v[1]) != 3 or v[1][0][0] != 'n':
        return [(ip.top(dty), st)]
    w, h, k = v[1][0][1], v[1][1][1], v[1][2][1]
    out = []
    for more, s in fork(ip, st, ('ge', addc(sub(prod(ip, st, w, h), k), -1)), True, False):
        if not more:
            event(ip, s, 'pixend'); out.append((NONE, s)); continue
        x, y = hil_pos(ip, s, w, h, k)
        put(ip, s, r, ('s', (v[1][0], v[1][1], usz(addc(k, 1)))))
        event(ip, s, 'hilread', x, y)
        out.append((some(('q', (('v', ('n', x, 'u32')), ('v', ('n', y, 'u32'))))), s))
    return out


# ---------------------------------------------------------------- the abstract reader and sink
def reader_next(ip, st, f, a, atys, dty, act, t):
    h = getattr(ip.hooks, 'reader_next', None) if ip.hooks else None
    if h is not None:
        return h(ip, st, a, act, t)
    return [(some(ip.fresh_num('in', 'u8', 'input')), st.copy()), (NONE, st)]


def sink_write(ip, st, f, a, atys, dty, act, t):
    h = getattr(ip.hooks, 'sink', None) if ip.hooks else None
    if h is not None:
        return h(ip, st, f['path'].rsplit('::', 1)[-1], a, dty, act, t)
    return [(ip.top(dty, 'sink'), st)]


TABLE['__vp::vp_reader_next'] = reader_next
TABLE['__vp::vp_sink_write'] = sink_write
TABLE['__vp::vp_sink_write_all'] = sink_write
TABLE['__vp::vp_sink_flush'] = sink_write


def source_next(ip, st, f, a, atys, dty, act, t):
    h = getattr(ip.hooks, 'source_next', None) if ip.hooks else None
    if h is not None:
        return h(ip, st, a, dty, act, t)
    return [(ip.top(dty, 'source'), st)]


TABLE['__vp::vp_source_next'] = source_next


@model('VecDeque as Write::write_all', 'Vec as Write::write_all')
def m_vd_write_all(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0]); w = window(ip, st, a[1])
    if q is None or w is None:
        return None
    put(ip, st, r, concat(ip, st, q, subseq(ip, st, get(ip, st, w[0]), w[1], w[2])))
    return [(ok(UNIT), st)]


@model('VecDeque as Write::write', 'Vec as Write::write')
def m_vd_write(ip, st, f, a, atys, dty, act, t):
    r, q = getq(ip, st, a[0]); w = window(ip, st, a[1])
    if q is None or w is None:
        return None
    put(ip, st, r, concat(ip, st, q, subseq(ip, st, get(ip, st, w[0]), w[1], w[2])))
    return [(ok(usz(w[2])), st)]


@model('VecDeque as Write::flush', 'Vec as Write::flush')
def m_vd_flush(ip, st, f, a, atys, dty, act, t):
    return [(ok(UNIT), st)]


@model('slice::from_ref', 'slice::from_mut', 'array::from_ref')
def m_from_ref(ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    # a one-element view; writes through from_mut are not tracked back
    oid = ip.new_obj(st, ('q', (('v', v),)), 'one')
    return [(('r', oid, (), ('w', T.ZERO, T.ONE)), st)]
