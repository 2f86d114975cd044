"""Evaluate extracted closed-form terms at given values of their free symbols."""
import math, random, struct
import terms as T
from absint import RANGES


class Unknown(Exception):
    pass


def wrap(v, tn):
    lo, hi = RANGES[tn]
    n = hi - lo + 1
    return (v - lo) % n + lo


class Ev:
    def __init__(self, rng=None, pick=None):
        self.v = {}
        self.f = {}
        self.rng = rng or random.Random(1)
        self.pick = pick

    def sym(self, sid):
        r = self.v.get(sid)
        if r is None:
            r = self.v[sid] = self.calc(T.SYMS[sid])
        return r

    def term(self, t):
        n = t[0]
        for s, k in t[1]:
            n += k * self.sym(s)
        return n

    def cond(self, c):
        x = self.term(c[1])
        return x >= 0 if c[0] == 'ge' else x == 0 if c[0] == 'eq' else x != 0

    def calc(self, s):
        k = s.kind
        if k == 'free':
            if self.pick:
                r = self.pick(s)
                if r is not None:
                    return r
            lo = s.lo if s.lo is not None else -(1 << 40)
            hi = s.hi if s.hi is not None else 1 << 40
            return self.rng.choice((lo, hi, self.rng.randint(lo, hi), self.rng.randint(lo, hi)))
        if k == 'bv':
            n = 0
            for i, b in enumerate(s.data):
                if b == 1:
                    n |= 1 << i
                elif isinstance(b, tuple):
                    n |= ((self.sym(b[0]) >> b[1]) & 1) << i
            return n
        if k == 'ite':
            c, a, b = s.data
            return self.term(a) if self.cond(c) else self.term(b)
        if k != 'op':
            raise Unknown(k)
        nm = s.data[0]
        a = s.data[1:]
        base, _, tn = nm.partition(':')
        if base == 'cond':
            return 1 if self.cond((tn, a[0])) else 0
        if base in ('anyof', 'allof'):
            # decided by the first part that settles it, even if others cannot be evaluated
            why = None
            for y in a:
                try:
                    if (self.term(y) != 0) == (base == 'anyof'):
                        return int(base == 'anyof')
                except Unknown as e:
                    why = e
            if why is not None:
                raise why
            return int(base == 'allof')
        if nm[0] == 'f' and nm[1:] in ('Eq', 'Lt', 'Le'):
            x, y = self.fl(a[0]), self.fl(a[1])
            return int(x == y if nm == 'fEq' else x < y if nm == 'fLt' else x <= y)
        if base == 'ftoi':
            x = self.fl(a[0])
            lo, hi = RANGES[tn]
            if x != x:
                return 0
            return lo if x <= lo else hi if x >= hi else int(x)
        if nm in ('nan', 'finite'):
            x = self.fl(a[0])
            return int(x != x) if nm == 'nan' else int(math.isfinite(x))
        if not all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) for x in a):
            raise Unknown(nm)
        x = [self.term(y) for y in a]
        if base == 'mul':
            return x[0] * x[1]
        if base in ('wrap', 'trunc'):
            return wrap(x[0], tn)
        if base == 'sat':
            lo, hi = RANGES[tn]
            return min(max(x[0], lo), hi)
        if base == 'ovf':
            lo, hi = RANGES[tn]
            return int(not lo <= x[0] <= hi)
        if base in ('and', 'band'):
            return x[0] & x[1]
        if base in ('or', 'bor'):
            return x[0] | x[1]
        if base in ('xor', 'bxor'):
            return x[0] ^ x[1]
        if base == 'shl':
            return wrap(x[0] << x[1], tn) if tn else x[0] << x[1]
        if base == 'shr':
            return x[0] >> x[1]
        if base in ('rotl', 'rotr'):
            lo, hi = RANGES[tn]
            w = (hi - lo + 1).bit_length() - 1
            k = x[1] % w if base == 'rotl' else -x[1] % w
            y = x[0] & ((1 << w) - 1)
            return wrap(y << k | y >> (w - k), tn)
        if base == 'shl1':
            return 1 << x[0]
        if base == 'div':
            if x[1] == 0:
                raise Unknown('div0')
            q = abs(x[0]) // abs(x[1])
            return q if (x[0] < 0) == (x[1] < 0) else -q
        if base == 'rem':
            if x[1] == 0:
                raise Unknown('rem0')
            q = abs(x[0]) % abs(x[1])
            return q if x[0] >= 0 else -q
        if base == 'abs':
            return abs(x[0])
        if base == 'min':
            return min(x)
        if base == 'max':
            return max(x)
        if base == 'npow2':
            return 1 if x[0] <= 1 else 1 << (x[0] - 1).bit_length()
        if base.startswith('byte'):
            return (x[0] >> (8 * int(base[4:]))) & 255
        raise Unknown(nm)

    def fl(self, e):
        if e[0] == 'c':
            return float(e[1])
        if e[0] == 'i':
            return float(self.term(e[1]))
        if e[0] == 'sym':
            r = self.f.get(e[1])
            if r is None:
                r = self.f[e[1]] = self.rng.choice((0.0, 255.0, float(self.rng.randint(0, 255)), self.rng.uniform(0, 255)))
            return r
        op = e[1]
        try:
            if op == 'ite':
                return self.fl(e[3]) if self.term(e[2][1]) == 1 else self.fl(e[4])
            if op == 'powi':
                return self.fl(e[2]) ** (self.term(e[3][1]) if e[3][0] == 'i' else self.fl(e[3]))
            x = [self.fl(y) for y in e[2:]]
            if op == 'add':
                return x[0] + x[1]
            if op == 'sub':
                return x[0] - x[1]
            if op == 'mul':
                return x[0] * x[1]
            if op == 'div':
                return x[0] / x[1] if x[1] else (math.nan if not x[0] or x[0] != x[0] else math.copysign(math.inf, x[0]))
            if op == 'rem':
                return math.fmod(x[0], x[1])
            if op == 'neg':
                return -x[0]
            if op == 'sqrt':
                return math.sqrt(x[0]) if x[0] >= 0 else math.nan
            if op == 'abs' or op == 'fabs':
                return abs(x[0])
            if op == 'floor':
                return float(math.floor(x[0]))
            if op == 'ceil':
                return float(math.ceil(x[0]))
            if op == 'trunc':
                return float(math.trunc(x[0]))
            if op == 'round':
                return math.copysign(math.floor(abs(x[0]) + 0.5), x[0])
            if op == 'fmax':
                return max(x)
            if op == 'fmin':
                return min(x)
            if op == 'to_f32':
                return struct.unpack('f', struct.pack('f', x[0]))[0]
            if op == 'to_f64':
                return x[0]
        except (ValueError, OverflowError):
            return math.nan
        raise Unknown(op)


# ---------------------------------------------------------------- polynomial normal form
# polynomial: {monomial: coefficient}, monomial: sorted tuple of (atom, exponent)
def pconst(c):
    return {(): c} if c else {}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            key, extra = simp(e)
            t = {key: c * d}
            for q, k in extra:
                for _ in range(k):
                    t = pmul(t, q)
            r = padd(r, t)
    return r


def simp(e):
    """sqrt(p)^2 -> p and |p|^2 -> p^2."""
    out = []
    extra = []
    for x, k in e.items():
        if isinstance(x, tuple) and x[0] in ('sqrt', 'abs') and k >= 2:
            q = dict(x[1])
            extra.append((q, (k // 2) * (1 if x[0] == 'sqrt' else 2)))
            k %= 2
        if k:
            out.append((x, k))
    return tuple(sorted(out, key=repr)), extra


def tpoly(t):
    r = pconst(t[0])
    for s, k in t[1]:
        r = padd(r, spoly(s), k)
    return r


def spoly(sid):
    s = T.SYMS[sid]
    if s.kind == 'op' and s.data[0] == 'mul':
        return pmul(tpoly(s.data[1]), tpoly(s.data[2]))
    if s.kind == 'op' and s.data[0] == 'abs':
        return {((('abs', tuple(sorted(tpoly(s.data[1]).items(), key=repr))), 1),): 1}
    if s.kind == 'ite':
        # ite(d >= 0, d, -d) is |d|
        c, a, b = s.data
        if T.add(a, b) == T.ZERO and c[0] == 'ge' and c[1] in (a, b, T.addc(a, -1), T.addc(b, -1)):
            return {((('abs', tuple(sorted(tpoly(a).items(), key=repr))), 1),): 1}
    return {((('s', sid), 1),): 1}


def fpoly(e):
    if e[0] == 'c':
        if e[1] != int(e[1]):
            raise Unknown('constant')
        return pconst(int(e[1]))
    if e[0] == 'i':
        return tpoly(e[1])
    if e[0] == 'sym':
        return {((('f', e[1]), 1),): 1}
    op = e[1]
    if op in ('add', 'sub'):
        return padd(fpoly(e[2]), fpoly(e[3]), 1 if op == 'add' else -1)
    if op == 'mul':
        return pmul(fpoly(e[2]), fpoly(e[3]))
    if op == 'neg':
        return padd({}, fpoly(e[2]), -1)
    if op == 'sqrt':
        p = fpoly(e[2])
        if not p:
            return p
        return {((('sqrt', tuple(sorted(p.items(), key=repr))), 1),): 1}
    if op in ('abs', 'fabs'):
        return {((('abs', tuple(sorted(fpoly(e[2]).items(), key=repr))), 1),): 1}
    if op == 'powi' and e[3][0] == 'i' and not e[3][1][1] and 0 <= e[3][1][0] <= 4:
        r = pconst(1)
        for _ in range(e[3][1][0]):
            r = pmul(r, fpoly(e[2]))
        return r
    raise Unknown(op)
