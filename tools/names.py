"""The names codec configurations give their result files."""
import ana, drive, terms as T
import textmodel as X
from absint import Interp, State, Stuck, Budget
from run import Hooks
from teval import Ev, Unknown

INTS = sorted(set(list(range(0, 34)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 300, 999, 1000, 1001, 1024, 4095, 4096, 4097, 9999, 10000, 65535, 65536, 65537, 65538, 100000, 1000000, 1 << 24, (1 << 24) + 1, (1 << 24) + 2,
                                           (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 1 << 53, (1 << 53) + 1, 10 ** 18, 10 ** 18 + 1, (1 << 63), (1 << 64) - 2, (1 << 64) - 1]))
FLOATS = [0.0, 0.001, 0.0011, 0.01, 0.011, 0.1, 0.1 + 1e-9, 0.1 + 1e-15, 0.12, 0.125, 0.1251, 0.25, 0.3, 0.5, 0.51, 0.75, 0.9, 0.99, 0.999, 1.0, 1.0 + 1e-12, 1.01, 1.04, 1.1, 1.25, 1.49, 1.5, 1.51, 1.75, 1.9, 1.99, 2.0, 2.4, 2.5, 2.6, 3.0, 3.14, 3.14159,
          5.0, 5.5, 7.0, 10.0, 10.5, 12.5, 15.0, 15.5, 16.0, 20.0, 25.0, 25.5, 50.0, 99.0, 99.5, 99.9, 100.0, 100.5, 128.0, 200.0, 255.0, 256.0, 300.0, 441.0, 441.5, 1e-3, 1e-5, 1.1e-5, 1e-7, 2e-7]
SEPS = ('.', '_', '-', '(', ')', ',')


def leaves(v):
    """Symbolic parameters of a configuration value."""
    if v[0] == 'n' and not T.is_const(v[1]):
        return [v]
    if v[0] == 'f' and v[1][0] == 'sym':
        return [v]
    if v[0] == 's':
        return [x for y in v[1] for x in leaves(y)]
    if v[0] == 'e':
        return [x for a in v[1] for y in a[1] for x in leaves(y)]
    return []


_C = {}


def collect(P):
    """[(label, configuration value, name text or None, state)] for every path of name()"""
    if 'c' in _C:
        return _C['c']
    out = []
    T.reset()
    h = Hooks()
    ip = Interp(P, h, steps=400000)
    h.ip = ip
    ip.nomerge = True
    ip.MAXSTATES = 200
    fid = ana.root(P, 'name')
    for lab, build in ana.configs(ip, ana.codec_ty(P)):
        st = State()
        v = build(st)
        a = [('r', ip.new_obj(st, v, 'codec'), (), None)]
        try:
            outs = ip.exec_fn(fid, a, st)
        except (Stuck, Budget) as e:
            out.append((lab, v, None, None))
            continue
        for o, s in outs:
            out.append((lab, v, X.text(ip, s, o), s))
    _C['c'] = out
    _C['ip'] = ip
    return out


class NEv(Ev):
    def sym(self, i):
        if i not in self.v and T.SYMS[i].kind == 'free':
            raise Unknown('free')
        return Ev.sym(self, i)

    def fl(self, e):
        if e[0] == 'sym' and e[1] not in self.f:
            raise Unknown('float')
        return Ev.fl(self, e)


def choices(v):
    if v[0] == 'f':
        return FLOATS
    if v[2] == 'bool':
        return (0, 1)
    from absint import RANGES
    lo, hi = RANGES[v[2]]
    return [x for x in INTS if lo <= x <= hi]


def concrete(lab, v, text, st):
    """[(name, parameters)] for sample parameters that take this path."""
    import itertools
    ps = leaves(v)
    out = []
    for vals in itertools.islice(itertools.product(*[choices(p) for p in ps]), 6000):
        e = NEv()
        for p, x in zip(ps, vals):
            if p[0] == 'f':
                e.f[p[1][1]] = x
            else:
                e.v[p[1][1][0][0]] = x
        try:
            if not all(e.cond(c) for c in st.pc.conds()):
                continue
            out.append((X.evaltext(text, {'#ev': e}), vals))
        except (Unknown, X.Unk, X.NoValue, KeyError):
            continue
    return out


def shape(text, ps):
    """(literal prefix, ...) pieces with parameters replaced by their index, or None if the name is not
    built from literals and the plain display of parameters."""
    out = []
    for s in text[1]:
        if s[0] == 's':
            out.append(('s', s[1]))
            continue
        d = s[1]
        if d[0] != 'fmt' or d[1] not in ('display', 'debug') or d[2]:
            return None
        k = [i for i, p in enumerate(ps) if (p[0], p[1]) == (d[4][0], d[4][1])]
        if not k:
            return None
        out.append(('p', k[0]))
    return out


def injective(sh, ps, pinned):
    """Does the name determine every parameter?"""
    used = [x[1] for x in sh if x[0] == 'p']
    for i in range(len(ps)):
        if i not in used and i not in pinned:
            return False
    for a, b in zip(sh, sh[1:]):
        if a[0] == b[0] == 'p':
            return False
        if a[0] == 'p' and (b[1][0].isalnum() or b[1][0] in '.-+'):
            if any(x[0] == 'p' for x in sh[sh.index(b):]):
                return False
    return True


def disjoint(a, b):
    """Can the two shapes never spell the same name? (parameters spell [0-9A-Za-z.+-]+)"""
    la = a[0][1] if a and a[0][0] == 's' else ''
    lb = b[0][1] if b and b[0][0] == 's' else ''
    for x, y in zip(la, lb):
        if x != y:
            return True
    if len(a) == len(b) == 1 and a[0][0] == b[0][0] == 's':
        return la != lb
    if len(a) == 1 and a[0][0] == 's':
        a, b, la, lb = b, a, lb, la
    # b is a literal, a has parameters
    if len(b) == 1 and b[0][0] == 's':
        if len(lb) < len(la):
            return True
        import re
        pat = ''.join(re.escape(x[1]) if x[0] == 's' else '[0-9A-Za-z.+-]+' for x in a)
        return re.fullmatch(pat, lb) is None
    if la != lb:
        s, l = (la, lb) if len(la) < len(lb) else (lb, la)
        c = l[len(s)]
        return not (c.isalnum() or c in '.+-')
    return False
