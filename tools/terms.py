"""Numeric terms: linear polynomials over interned symbols, bit vectors, conditions."""
import sys
INF = None  # unbounded


class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'data', 'prov', 'args')

    def __repr__(self):
        return self.name


SYMS = []
_derived = {}
_fresh_n = [0]


def reset():
    SYMS.clear(); _derived.clear(); _fresh_n[0] = 0


def new_sym(name, lo, hi, kind='free', data=None, prov=frozenset()):
    s = Sym(); s.id = len(SYMS); s.name = name if len(name) < 100 else '%s..%d' % (name[:12], len(SYMS)); s.lo = lo; s.hi = hi; s.kind = kind; s.data = data; s.args = None
    s.prov = frozenset([prov]) if isinstance(prov, str) else frozenset(prov)
    SYMS.append(s)
    return s


def fresh(name, lo, hi, prov='opaque', kind='free', data=None):
    _fresh_n[0] += 1
    s = new_sym('%s#%d' % (name, _fresh_n[0]), lo, hi, kind, data, prov)
    return (0, ((s.id, 1),))


# term: (const, ((symid, coef), ...)) sorted by symid
ZERO = (0, ())
ONE = (1, ())


def const(n):
    return (int(n), ())


def of_sym(s):
    return (0, ((s.id, 1),))


def is_const(t):
    return not t[1]


def add(a, b, kb=1):
    if not b[1]:
        return (a[0] + kb * b[0], a[1])
    if not a[1] and kb == 1:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k * kb
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + kb * b[0], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def addc(a, n):
    return (a[0] + n, a[1])


def syms_of(t):
    return [s for s, _ in t[1]]


def all_syms(t, seen=None):
    """Every symbol a term depends on, transitively through derived symbols."""
    if seen is None:
        seen = set()
    for s, _ in t[1]:
        if s not in seen:
            seen.add(s)
            for sub_t in sym_args(SYMS[s]):
                all_syms(sub_t, seen)
    return seen


def is_float_expr(a):
    return isinstance(a, tuple) and len(a) >= 2 and isinstance(a[0], str) and a[0] in ('c', 'i', 'sym', 'op')


def float_terms(e, out):
    if e[0] == 'i':
        out.append(e[1])
    elif e[0] == 'op':
        for x in e[2:]:
            if is_float_expr(x):
                float_terms(x, out)
    return out


def float_syms(e, out):
    if e[0] == 'sym':
        out.add(e)
    elif e[0] == 'op':
        for x in e[2:]:
            if is_float_expr(x):
                float_syms(x, out)
    return out


def float_subst(e, m):
    if e[0] == 'i':
        return ('i', subst(e[1], m))
    if e[0] == 'op':
        return e[:2] + tuple(float_subst(x, m) if is_float_expr(x) else x for x in e[2:])
    return e


def sym_args(s):
    if s.args is None:
        s.args = sym_args1(s)
    return s.args


def sym_args1(s):
    if s.kind == 'op':
        out = []
        for a in s.data[1:]:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) and isinstance(a[0], int):
                out.append(a)
            elif is_float_expr(a):
                float_terms(a, out)
        return list(dict.fromkeys(out))
    if s.kind == 'bv':
        return [(0, ((b[0], 1),)) for b in s.data if isinstance(b, tuple)]
    if s.kind == 'ite':
        return [s.data[0][1], s.data[1], s.data[2]]
    if s.kind == 'phi':
        return list(s.data)
    return []


def prov(t):
    out = set()
    for s, _ in t[1]:
        out |= SYMS[s].prov
    return frozenset(out)


def subst(t, m):
    """Substitute symbols (dict id -> term), also inside derived symbols."""
    if not t[1]:
        return t
    out = (t[0], ())
    for s, k in t[1]:
        out = add(out, scale(_subst_sym(s, m), k))
    return out


def _subst_sym(sid, m):
    if sid in m:
        return m[sid]
    s = SYMS[sid]
    if s.kind == 'free':
        return (0, ((sid, 1),))
    if not any(x in m for x in all_syms((0, ((sid, 1),)))):
        return (0, ((sid, 1),))
    if s.kind == 'op':
        args = [subst(a, m) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) and isinstance(a[0], int) else float_subst(a, m) if is_float_expr(a) else a for a in s.data[1:]]
        return op(s.data[0], args, s.lo, s.hi)
    if s.kind == 'bv':
        # substitute bit by bit
        bits = []
        for b in s.data:
            if isinstance(b, tuple) and b[0] in m:
                bb = to_bits(m[b[0]], b[1] + 1)
                bits.append(bb[b[1]] if bb else None)
            else:
                bits.append(b)
        if any(b is None for b in bits):
            return op('bvsub', [(0, ((sid, 1),))] + [m[x] for x in sorted(m)], s.lo, s.hi)
        return from_bits(bits)
    if s.kind == 'ite':
        c, a, b = s.data
        return ite((c[0], subst(c[1], m)), subst(a, m), subst(b, m))
    return op('subst', [(0, ((sid, 1),))] + [m[x] for x in sorted(m)], s.lo, s.hi)


def arg_name(a):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) and isinstance(a[0], int):
        return show(a) if len(a[1]) <= 6 else 'lin%d' % len(a[1])
    if isinstance(a, tuple):
        return '<%s>' % (a[0] if a and isinstance(a[0], str) and a[0] != 'op' else a[1] if len(a) > 1 else '')
    return str(a)[:40]


def op(name, args, lo, hi, extra_prov=()):
    key = (name,) + tuple(args)
    s = _derived.get(key)
    if s is None:
        pv = set(extra_prov)
        for a in args:
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) and isinstance(a[0], int):
                pv |= prov(a)
        s = new_sym('%s(%s)' % (name, ','.join(arg_name(a) for a in args)), lo, hi, 'op', key, pv)
        _derived[key] = s
    else:
        loosen(s, lo, hi)
    return of_sym(s)


def loosen(s, lo, hi):
    """The same expression met with wider bounds: bounds are those of every context."""
    if s.lo is not None and (lo is None or lo < s.lo):
        s.lo = lo
    if s.hi is not None and (hi is None or hi > s.hi):
        s.hi = hi


# ---- bits ----

def to_bits(t, width):
    """List of `width` bits (LSB first), each 0, 1 or (symid, i); None if unknown."""
    if not t[1]:
        n = t[0]
        return [(n >> i) & 1 for i in range(width)]
    if len(t[1]) == 1 and t[0] == 0:
        sid, k = t[1][0]
        s = SYMS[sid]
        sh = 0
        if k > 0 and (k & (k - 1)) == 0:
            sh = k.bit_length() - 1
        elif k != 1:
            return None
        if s.lo is None or s.lo < 0 or s.hi is None:
            return None
        n = s.hi.bit_length()
        if s.kind == 'bv':
            src = list(s.data)
        else:
            src = [(sid, i) for i in range(n)]
        r = [0] * sh + src
        r = r[:width] + [0] * (width - len(r))
        return r
    # sum of terms with disjoint bits
    acc = [0] * width
    parts = [((t[0]), ())] if t[0] else []
    parts += [(0, (p,)) for p in t[1]]
    for p in parts:
        b = to_bits(p, width)
        if b is None:
            return None
        for i in range(width):
            if b[i] != 0:
                if acc[i] != 0:
                    return None
                acc[i] = b[i]
    return acc


def from_bits(bits):
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    if all(b in (0, 1) for b in bits):
        return const(sum(b << i for i, b in enumerate(bits)))
    syms = [b for b in bits if isinstance(b, tuple)]
    sid = syms[0][0]
    s = SYMS[sid]
    if s.kind != 'bv' and s.hi is not None and all(b == (sid, i) for i, b in enumerate(bits)) and s.hi.bit_length() == len(bits):
        return of_sym(s)
    key = ('bv', tuple(bits))
    d = _derived.get(key)
    if d is None:
        lo = sum(1 << i for i, b in enumerate(bits) if b == 1)
        hi = sum(1 << i for i, b in enumerate(bits) if b != 0)
        pv = set()
        for b in bits:
            if isinstance(b, tuple):
                pv |= SYMS[b[0]].prov
        d = new_sym('bv%d' % len(SYMS) if len(syms) > 8 else 'bits[%s]' % ''.join(str(b) if not isinstance(b, tuple) else '%s.%d ' % (SYMS[b[0]].name, b[1]) for b in reversed(bits)), lo, hi, 'bv', tuple(bits), pv)
        _derived[key] = d
    return of_sym(d)


def bitop(name, a, b, width):
    x = to_bits(a, width); y = to_bits(b, width)
    if x is None or y is None:
        return None
    out = []
    for p, q in zip(x, y):
        if name == 'and':
            if p == 0 or q == 0:
                r = 0
            elif p == 1:
                r = q
            elif q == 1:
                r = p
            elif p == q:
                r = p
            else:
                return None
        elif name == 'or':
            if p == 1 or q == 1:
                r = 1
            elif p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == q:
                r = p
            else:
                return None
        else:  # xor
            if p == 0:
                r = q
            elif q == 0:
                r = p
            elif p == q:
                r = 0
            elif p == 1 and q == 1:
                r = 0
            else:
                return None
        out.append(r)
    return from_bits(out)


# ---- conditions: ('ge', t) t>=0 ; ('eq', t) t==0 ; ('ne', t) t!=0 ----
TRUE = ('ge', ZERO)
FALSE = ('ge', (-1, ()))


def neg(c):
    k, t = c
    if k == 'ge':
        return ('ge', (-t[0] - 1, tuple((s, -n) for s, n in t[1])))
    return ('ne' if k == 'eq' else 'eq', t)


def norm_cond(c):
    k, t = c
    if k in ('eq', 'ne') and t[1] and t[1][0][1] < 0:
        return (k, scale(t, -1))
    return c


def cond_term(c):
    """0/1-valued term for a condition."""
    c = norm_cond(c)
    k, t = c
    if not t[1]:
        v = (t[0] >= 0) if k == 'ge' else (t[0] == 0) if k == 'eq' else (t[0] != 0)
        return ONE if v else ZERO
    b = single_bit(c)
    if b is not None:
        return b
    if k == 'ne':
        x = cond_term(('eq', t))
        return sub(ONE, x)
    if k == 'ge':
        n = neg(c)
        # canonical orientation
        if t[1][0][1] < 0:
            x = _cond_sym(n)
            return sub(ONE, x)
    return _cond_sym(c)


def _cond_sym(c):
    key = ('cond', c)
    s = _derived.get(key)
    if s is None:
        s = new_sym('[%s]' % show_cond(c), 0, 1, 'op', ('cond:' + c[0], c[1]), prov(c[1]))
        _derived[key] = s
    return of_sym(s)


def anyof(alts):
    """The condition that all conditions of one of the lists hold."""
    if any(not a for a in alts):
        return ('eq', ZERO)
    ts = []
    for a in alts:
        cs = [_cond_sym(c) for c in a]
        ts.append(cs[0] if len(cs) == 1 else op('allof', cs, 0, 1))
    return ('ne', op('anyof', ts, 0, 1))


def single_bit(c):
    """If the condition is equivalent to one bit of a symbol, that bit as a 0/1 term."""
    k, t = c
    if len(t[1]) != 1:
        return None
    sid, coef = t[1][0]
    s = SYMS[sid]
    if s.lo is None or s.hi is None:
        return None
    lo, hi = s.lo, s.hi
    if s.kind == 'bv':
        nb = [(i, b) for i, b in enumerate(s.data) if isinstance(b, tuple)]
        if len(nb) != 1:
            return None
        i, b = nb[0]
        base = sum(1 << j for j, q in enumerate(s.data) if q == 1)
        v0, v1 = base, base + (1 << i)
        bit = from_bits([b])
    elif lo == 0 and hi == 1:
        v0, v1 = 0, 1
        bit = of_sym(s)
    else:
        return None

    def holds(v):
        x = t[0] + coef * v
        return x >= 0 if k == 'ge' else x == 0 if k == 'eq' else x != 0
    h0, h1 = holds(v0), holds(v1)
    if h0 and h1:
        return ONE
    if not h0 and not h1:
        return ZERO
    return bit if h1 else sub(ONE, bit)


def as_cond(t):
    """Condition equivalent to a 0/1 term being 1."""
    if not t[1]:
        return TRUE if t[0] else FALSE
    if len(t[1]) == 1:
        sid, k = t[1][0]
        s = SYMS[sid]
        if s.kind == 'op' and s.data[0].startswith('cond:'):
            c = (s.data[0][5:], s.data[1])
            if k == 1 and t[0] == 0:
                return c
            if k == -1 and t[0] == 1:
                return neg(c)
    return ('eq', sub(t, ONE))


def ite(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if not c[1][1]:
        return a if cond_term(c) == ONE else b
    if a == ONE and b == ZERO:
        return cond_term(c)
    if a == ZERO and b == ONE:
        return sub(ONE, cond_term(c))
    if is_const(a) and is_const(b):
        ct = cond_term(c)
        return add(b, scale(ct, a[0] - b[0]))
    c = norm_cond(c)
    if c[0] == 'ne':
        c = ('eq', c[1]); a, b = b, a
    # bitwise ite against the same bit is left symbolic
    key = ('ite', c, a, b)
    s = _derived.get(key)
    la, ha = interval(a); lb, hb = interval(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    if s is not None:
        loosen(s, lo, hi)
    else:
        s = new_sym('ite(%s,%s,%s)' % (show_cond(c), show(a), show(b)), lo, hi, 'ite', (c, a, b), prov(a) | prov(b) | prov(c[1]))
        _derived[key] = s
    return of_sym(s)


def interval(t, rng=None):
    lo = hi = t[0]
    for sid, k in t[1]:
        s = SYMS[sid]
        if rng is not None and sid in rng:
            a, b = rng[sid]
        else:
            a, b = s.lo, s.hi
        if k > 0:
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        else:
            lo, hi = (None if lo is None or b is None else lo + k * b), (None if hi is None or a is None else hi + k * a)
    return lo, hi


def show(t):
    if not isinstance(t, tuple) or len(t) != 2:
        return str(t)
    parts = []
    for s, k in t[1]:
        n = SYMS[s].name
        parts.append(n if k == 1 else '%d*%s' % (k, n))
    if t[0] or not parts:
        parts.append(str(t[0]))
    return '+'.join(parts)


def show_cond(c):
    return show(c[1]) + {'ge': '>=0', 'eq': '==0', 'ne': '!=0'}[c[0]]
