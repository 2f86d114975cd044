"""Abstract interpreter over the dumped MIR.

Forward abstract interpretation with relational numeric terms, interval and
linear facts, typestate (ghost) components that partition the state, and
fixpoint iteration with induction-variable widening at loop heads.
"""
import sys
import terms as T
from terms import const, add, sub, addc, is_const, interval, SYMS

sys.setrecursionlimit(100000)
DEBUG = False

UNIT = ('s', ())
UNINIT = ('u',)


class Stuck(Exception):
    pass


class Budget(Exception):
    pass


RANGES = {}
for _w in (8, 16, 32, 64, 128):
    RANGES['u%d' % _w] = (0, (1 << _w) - 1)
    RANGES['i%d' % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)
RANGES['usize'] = RANGES['u64']
RANGES['isize'] = RANGES['i64']
RANGES['bool'] = (0, 1)
RANGES['char'] = (0, 0x10ffff)
WIDTH = {k: (int(k[1:]) if k[1:].isdigit() else 64) for k in RANGES if k not in ('bool', 'char')}
WIDTH['bool'] = 8
WIDTH['char'] = 32


class PC:
    """A path condition: a tree node per condition. A node with `alts` stands for merged paths: one of the
    two path conditions (both below `up`) holds."""
    __slots__ = ('up', 'cond', 'depth', 'alts', 'any')

    def __init__(self, up, cond, alts=None):
        self.up = up; self.cond = cond; self.depth = 0 if up is None else up.depth + 1
        self.alts = alts; self.any = None

    def conds(self):
        """The conditions every merged path has."""
        out = []
        p = self
        while p.up is not None:
            if p.alts is None:
                out.append(p.cond)
            p = p.up
        return out[::-1]

    def full(self, stop=None):
        """All conditions, those of merged paths as one `anyof` condition each."""
        out = []
        p = self
        while p.up is not None and p is not stop:
            if p.alts is None:
                out.append(p.cond)
            else:
                if p.any is None:
                    p.any = T.anyof([x.full(p.up) for x in p.alts])
                if p.any[1][1]:
                    out.append(p.any)
            p = p.up
        return out[::-1]


ROOT_PC = PC(None, None)


_FIDX = {}


def fact_index(facts):
    """({symbol: [(fact, coefficient)]} of the inequalities and equations, {term: True if eq / False if ne})"""
    e = _FIDX.get(id(facts))
    if e is not None and e[0] is facts:
        return e[1]
    by, eqs = {}, {}
    for f in facts:
        if f[0] != 'ge':
            eqs.setdefault(f[1], f[0] == 'eq')
        if f[0] != 'ne':
            for s, k in f[1][1]:
                by.setdefault(s, []).append((f, k))
    if len(_FIDX) > 20000:
        _FIDX.clear()
    _FIDX[id(facts)] = (facts, (by, eqs))
    return by, eqs


class State:
    __slots__ = ('objs', 'pc', 'rng', 'facts', 'g')
    splitting = False

    def __init__(self):
        self.objs = {}; self.pc = ROOT_PC; self.rng = {}; self.facts = (); self.g = {}

    def copy(self):
        s = State.__new__(State)
        s.objs = dict(self.objs); s.pc = self.pc; s.rng = self.rng; s.facts = self.facts; s.g = dict(self.g)
        return s

    # ---- numeric knowledge ----
    def iv(self, t):
        return interval(t, self.rng)

    def decide(self, c):
        """True / False / None"""
        r = self.decide1(c)
        if r is None and not State.splitting:
            for s, n in c[1][1]:
                y = SYMS[s]
                if y.kind == 'ite':
                    # decide both arms under the selecting condition
                    State.splitting = True
                    try:
                        cc, a, b = y.data
                        rs = []
                        for cond, v in ((cc, a), (T.neg(cc), b)):
                            x = self.assume(cond, record=False)
                            if x is None:
                                continue
                            rs.append(x.decide((c[0], T.subst(c[1], {s: v}))))
                    finally:
                        State.splitting = False
                    if rs and rs[0] is not None and all(q == rs[0] for q in rs):
                        return rs[0]
                    break
        return r

    def decide1(self, c):
        k, t = c
        if not t[1]:
            return (t[0] >= 0) if k == 'ge' else (t[0] == 0) if k == 'eq' else (t[0] != 0)
        lo, hi = interval(t, self.rng)
        if k == 'ge':
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            if self.implied(t):
                return True
            if self.implied((-t[0] - 1, tuple((s, -n) for s, n in t[1]))):
                return False
            return None
        r = None
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            r = False
        elif lo == 0 and hi == 0:
            r = True
        else:
            c2 = T.norm_cond(('eq', t))
            if self.facts:
                r = fact_index(self.facts)[1].get(c2[1])
            if r is None:
                b = T.single_bit(('eq', t))
                if b is not None and b != t:
                    l2, h2 = interval(b, self.rng)
                    if l2 == h2 and l2 is not None:
                        r = bool(l2)
            if r is None and self.facts:
                m = (-t[0], tuple((s, -n) for s, n in t[1]))
                if self.implied(addc(t, -1)) or self.implied(addc(m, -1)):
                    r = False
                elif self.implied(t) and self.implied(m):
                    r = True
        if r is None:
            return None
        return r if k == 'eq' else not r

    def implied(self, t, depth=2):
        """t >= 0 follows from intervals and recorded linear facts."""
        lo, _ = interval(t, self.rng)
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        if not self.facts:
            return False
        idx = fact_index(self.facts)[0]
        for s, k2 in t[1]:
            for f, k in idx.get(s, ()):
                ft = f[1]
                # t - m*f with m>0 cancelling s (eq facts both signs)
                if k2 % k == 0 or True:
                    m, r = divmod(k2, k)
                    if r == 0:
                        if m > 0 or f[0] == 'eq':
                            if self.implied(add(t, ft, -m), depth - 1):
                                return True
                    else:
                        # scale: |k|*t - m'*f
                        kk = abs(k)
                        m2 = k2 * kk // k
                        if m2 > 0 or f[0] == 'eq':
                            if self.implied(add(T.scale(t, kk), ft, -m2), depth - 1):
                                return True
        return False

    def assume(self, c, record=True):
        """Returns a state with c assumed (self may be returned), or None if contradictory."""
        d = self.decide(c)
        if d is False:
            return None
        if d is True:
            return self
        s = self.copy()
        if record:
            s.pc = PC(s.pc, T.norm_cond(c))
        if not s.learn(c):
            return None
        return s

    def learn(self, c):
        c = T.norm_cond(c)
        k, t = c
        if c not in self.facts:
            self.facts = self.facts + (c,)
        if k == 'ne':
            lo, hi = interval(t, self.rng)
            if lo == 0:
                return self.learn(('ge', addc(t, -1)))
            m = (-t[0] - 1, tuple((s, -n) for s, n in t[1]))
            if hi == 0:
                return self.learn(('ge', m))
            if self.facts:
                if self.implied(t, 1):
                    return self.learn(('ge', addc(t, -1)))
                if self.implied(addc(m, 1), 1):
                    return self.learn(('ge', m))
        # bits
        b = T.single_bit(c)
        if b is not None and b[1]:
            v = None
            if b[0] == 0 and b[1][0][1] == 1:
                v = (b[1][0][0], 1)
            elif b[0] == 1 and b[1][0][1] == -1:
                v = (b[1][0][0], 0)
            if v is not None and v[0] not in [s for s, _ in t[1]]:
                if not self.narrow(v[0], v[1], v[1]):
                    return False
        # interval propagation
        if k in ('ge', 'eq'):
            for sid, co in t[1]:
                rest = (t[0], tuple(x for x in t[1] if x[0] != sid))
                lo, hi = interval(rest, self.rng)
                # co*s + rest >= 0
                if hi is not None:
                    if co > 0:
                        # s >= -hi/co
                        if not self.narrow(sid, -(hi // co), None):
                            return False
                    else:
                        if not self.narrow(sid, None, hi // -co):
                            return False
                if k == 'eq' and lo is not None:
                    # co*s + rest <= 0
                    if co > 0:
                        if not self.narrow(sid, None, (-lo) // co):
                            return False
                    else:
                        if not self.narrow(sid, -((-lo) // -co), None):
                            return False
        # definitional propagation: ite / cond symbols fixed to a value
        if k == 'eq' and len(t[1]) == 1:
            sid, co = t[1][0]
            s = SYMS[sid]
            if t[0] % co == 0:
                v = -t[0] // co
                if s.kind == 'op' and s.data[0].startswith('cond:'):
                    cc = (s.data[0][5:], s.data[1])
                    if v == 0:
                        cc = T.neg(cc)
                    if self.decide(cc) is False:
                        return False
                    if cc not in self.facts:
                        return self.learn(cc)
                if s.kind == 'ite':
                    cc, a, bb = s.data
                    da = self.decide(('eq', addc(a, -v))); db = self.decide(('eq', addc(bb, -v)))
                    if da is False and db is False:
                        return False
                    if da is False and T.neg(cc) not in self.facts:
                        if self.decide(cc) is True:
                            return False
                        return self.learn(T.neg(cc)) and self.learn(('eq', addc(bb, -v)))
                    if db is False and cc not in self.facts:
                        if self.decide(cc) is False:
                            return False
                        return self.learn(cc) and self.learn(('eq', addc(a, -v)))
        return True

    def narrow(self, sid, lo, hi):
        a, b = self.rng.get(sid, (SYMS[sid].lo, SYMS[sid].hi))
        na = a if lo is None or (a is not None and a >= lo) else lo
        nb = b if hi is None or (b is not None and b <= hi) else hi
        if (na, nb) != (a, b):
            if na is not None and nb is not None and na > nb:
                return False
            self.rng = dict(self.rng)
            self.rng[sid] = (na, nb)
            s = SYMS[sid]
            if na == nb and s.kind == 'op' and s.data[0].startswith('cond:') and na in (0, 1):
                cc = (s.data[0][5:], s.data[1])
                if na == 0:
                    cc = T.neg(cc)
                d = self.decide(cc)
                if d is False:
                    return False
                if d is None:
                    return self.learn(cc)
            if na == nb and s.kind == 'op' and (s.data[0] == 'band' and na == 1 or s.data[0] == 'bor' and na == 0):
                for x in s.data[1:]:
                    if self.decide(('eq', addc(x, -na))) is None and not self.learn(('eq', addc(x, -na))):
                        return False
        return True


class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.fns = d['fns']
        self.allocs = d['allocs']
        self.next_for = {a: b for a, b in d['next_for']}
        self._cfg = {}
        self.by_path = {}
        for i, f in enumerate(self.fns):
            self.by_path.setdefault(f['path'], []).append(i)
        self._seqty = {}
        self.bykey = {}
        for i, t in enumerate(self.types):
            if t['k'] in ('uint', 'int', 'float'):
                self.bykey[t['n']] = i
            elif t['k'] in ('bool', 'char', 'str'):
                self.bykey[t['k']] = i

    def tyname(self, ty):
        t = self.types[ty]
        k = t['k']
        if k in ('uint', 'int', 'float'):
            return t['n']
        if k in ('bool', 'char', 'str', 'never'):
            return k
        if k == 'adt':
            a = [self.tyname(x) if isinstance(x, int) else str(x.get('const')) for x in t['args']]
            n = t['name']
            return n + ('<%s>' % ', '.join(a) if a else '')
        if k == 'ref':
            return '&' + self.tyname(t['e'])
        if k == 'ptr':
            return '*' + self.tyname(t['e'])
        if k == 'slice':
            return '[%s]' % self.tyname(t['e'])
        if k == 'array':
            return '[%s; %s]' % (self.tyname(t['e']), t['n'])
        if k == 'tuple':
            return '(%s)' % ', '.join(self.tyname(x) for x in t['a'])
        if k == 'closure':
            return t['name']
        if k == 'fndef':
            return 'fn ' + t['name']
        return k

    def adt(self, ty, *names):
        t = self.types[ty]
        return t['k'] == 'adt' and t['name'].rsplit('::', 1)[-1] in names and t.get('crate') != 'cniic'

    def pointee(self, ty):
        t = self.types[ty]
        if t['k'] in ('ref', 'ptr'):
            return t['e']
        if t['k'] == 'adt' and (t.get('box') or t['name'].rsplit('::', 1)[-1] in ('Box', 'NonNull', 'Unique', 'Rc', 'Arc')):
            return t['args'][0]
        return None

    def cfg(self, fid):
        c = self._cfg.get(fid)
        if c is None:
            c = self._cfg[fid] = CFG(self, self.fns[fid])
        return c

    def seq_elem(self, ty):
        t = self.types[ty]
        if t['k'] in ('array', 'slice'):
            return t['e']
        if t['k'] == 'str':
            return self.bykey['u8']
        if t['k'] == 'adt' and t.get('crate') in ('alloc', 'core', 'std'):
            n = t['name'].rsplit('::', 1)[-1]
            if n in ('Vec', 'VecDeque', 'BinaryHeap'):
                return t['args'][0]
            if n == 'String':
                return self.bykey['u8']
            if n in ('PathBuf', 'OsString', 'Path', 'OsStr'):
                return self.bykey['u8']
        return None


class CFG:
    def __init__(self, prog, f):
        b = f['body']
        self.blocks = b['blocks']
        n = len(self.blocks)
        self.succ = []
        for bl in self.blocks:
            t = bl['t']; k = t['k']
            if k == 'goto':
                s = [t['t']]
            elif k == 'switch':
                s = [x[1] for x in t['b']] + [t['o']]
            elif k in ('drop', 'assert'):
                s = [t['t']]
            elif k == 'call':
                s = [t['t']] if t['t'] is not None else []
            else:
                s = []
            self.succ.append(list(dict.fromkeys(s)))
        # RPO
        order = []; seen = set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(self.succ[v]))); break
            else:
                order.append(u); st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for u in order:
            for v in self.succ[u]:
                pred[v].append(u)
        self.pred = pred
        # dominators
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                new = None
                for p in pred[u]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while self.rpo[a] > self.rpo[c]:
                                    a = idom[a]
                                while self.rpo[c] > self.rpo[a]:
                                    c = idom[c]
                            new = a
                if idom.get(u) != new:
                    idom[u] = new; ch = True
        self.idom = idom
        # blocks from which a normal return is reachable
        self.returns = set(u for u in order if self.blocks[u]['t']['k'] == 'ret')
        stk = list(self.returns)
        while stk:
            for q in pred[stk.pop()]:
                if q not in self.returns:
                    self.returns.add(q); stk.append(q)
        self.loops = {}
        for u in order:
            for v in self.succ[u]:
                # back edge if v dominates u
                x = u
                while x != v and idom[x] != x:
                    x = idom[x]
                if x == v:
                    body = self.loops.setdefault(v, {v})
                    stk = [u]
                    while stk:
                        w = stk.pop()
                        if w not in body:
                            body.add(w); stk.extend(pred[w])
        # liveness of never-borrowed locals
        self.liveness(prog, f, order)

    def liveness(self, prog, f, order):
        b = f['body']
        nl = len(b['locals'])
        borrowed = set()
        use = {}; kill = {}

        def pl_uses(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i':
                    acc.add(e[1])

        def op_uses(o, acc):
            if o[0] in ('c', 'm'):
                pl_uses(o[1], acc)

        def walk_rv(r, acc):
            k = r[0]
            if k in ('ref', 'addr'):
                pl_uses(r[1], acc)
                if '*' not in r[1][1]:
                    borrowed.add(r[1][0])
            elif k in ('discr', 'len'):
                pl_uses(r[1], acc)
            elif k in ('bin', 'cbin'):
                op_uses(r[2], acc); op_uses(r[3], acc)
            elif k in ('un', 'cast'):
                op_uses(r[2], acc)
            elif k in ('use', 'rep'):
                op_uses(r[1], acc)
            elif k == 'agg':
                for o in r[2]:
                    op_uses(o, acc)
        info = {}
        for u in order:
            U = set(); K = set()
            for s in self.blocks[u]['s']:
                if s[0] == '=':
                    a = set(); walk_rv(s[2], a)
                    if s[1][1]:
                        pl_uses(s[1], a)
                    U |= (a - K)
                    if not s[1][1]:
                        K.add(s[1][0])
                elif s[0] == 'sd':
                    a = set(); pl_uses(s[1], a); U |= a - K
                elif s[0] in ('assume',):
                    a = set(); op_uses(s[1], a); U |= a - K
                elif s[0] == 'cpy':
                    a = set()
                    for o in s[1:4]:
                        op_uses(o, a)
                    U |= a - K
            t = self.blocks[u]['t']
            a = set()
            if t['k'] == 'switch':
                op_uses(t['d'], a)
            elif t['k'] == 'call':
                op_uses(t['f'], a)
                for o in t['a']:
                    op_uses(o, a)
                if t['d'][1]:
                    pl_uses(t['d'], a)
            elif t['k'] == 'assert':
                op_uses(t['c'], a)
                for o in t['m'][1:]:
                    if isinstance(o, list):
                        op_uses(o, a)
            elif t['k'] == 'drop':
                pl_uses(t['p'], a)
            elif t['k'] == 'ret':
                a.add(0)
            U |= a - K
            info[u] = (U, K, t['d'][0] if t['k'] == 'call' and not t['d'][1] else None)
        live = {u: set() for u in order}
        ch = True
        while ch:
            ch = False
            for u in reversed(order):
                U, K, dst = info[u]
                out = set()
                for v in self.succ[u]:
                    out |= live[v]
                if dst is not None:
                    out = out - {dst}
                n = U | (out - K)
                if n != live[u]:
                    live[u] = n; ch = True
        self.live = {u: live[u] | borrowed for u in order}
        self.borrowed = borrowed


class Act:
    """One activation of a function."""
    __slots__ = ('fid', 'fr', 'f', 'cfg', 'up', 'types', 'site')

    def __init__(self, fid, fr, f, cfg, up):
        self.fid = fid; self.fr = fr; self.f = f; self.cfg = cfg; self.up = up
        self.types = f['body']['locals']
        self.site = None


def counters(body):
    """Locals of a body that something is added to in place."""
    c = body.get('!counters')
    if c is None:
        sums, c = {}, set()
        for b in body['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] in ('bin', 'cbin') and not s[1][1]:
                    for x in s[2][1:]:
                        if type(x) is list and x and x[0] in ('c', 'm') and not x[1][1]:
                            sums.setdefault(s[1][0], set()).add(x[1][0])
                            if x[1][0] == s[1][0]:
                                c.add(s[1][0])
        for b in body['blocks']:
            for s in b['s']:
                if s[0] == '=' and not s[1][1] and s[2][0] == 'use' and s[2][1][0] in ('c', 'm') and s[1][0] in sums.get(s[2][1][1][0], ()):
                    c.add(s[1][0])
        body['!counters'] = c
    return c


class Interp:
    RECUR = 2
    UNROLL = 34
    MAXSTATES = 10
    keepapart = False       # keep states whose references or texts differ apart
    total = False           # floating-point values that are not constants are finite numbers
    dedupe = 0              # with nomerge: merge states alike but for floating-point values; counters too beyond so many states
    nomerge = False         # never merge states (short programs with few paths)
    MAXOUT = 12

    def __init__(self, prog, hooks=None, steps=400000, unroll=None):
        self.p = prog
        self.types = prog.types
        self.frames = 0
        self.collector = []          # events, rolled back when a loop iteration is redone
        self.discharged = 0
        self.peel = 0
        self.peel_floor = 0
        self.first = []              # panic events of first loop iterations, before any widening
        self.steps = steps
        self.hooks = hooks
        self.merge_id = 0
        self.stack = []
        self.shapes = {}, {}
        self.bounded = 0             # > 0: loops that do not unroll are followed for so many iterations only
        self.imprecise = {}
        self.analysed = set()
        self.callsites = 0
        if unroll is not None:
            self.UNROLL = unroll
        import models
        self.models = models.TABLE
        self.m = models

    # ---------- values ----------
    def num(self, t, ty):
        return ('n', t, ty)

    def note(self, what):
        self.imprecise[what] = self.imprecise.get(what, 0) + 1

    def fresh_num(self, name, tyn, prov='opaque'):
        lo, hi = RANGES[tyn]
        return ('n', T.fresh(name, lo, hi, prov), tyn)

    def top(self, ty, prov='opaque'):
        return ('t', ty, prov)

    def expand(self, v, st):
        """Materialise one level of an unknown value."""
        ty, pv = v[1], v[2]
        t = self.types[ty]
        k = t['k']
        if k in ('uint', 'int'):
            return self.fresh_num('v', t['n'], pv)
        if k == 'bool':
            return self.fresh_num('b', 'bool', pv)
        if k == 'char':
            return self.fresh_num('c', 'char', pv)
        if k == 'float':
            return ('f', ('sym', T._fresh_n.__setitem__(0, T._fresh_n[0] + 1) or T._fresh_n[0], pv), t['n'])
        if k == 'tuple':
            return ('s', tuple(('t', x, pv) for x in t['a']))
        if k in ('ref', 'ptr'):
            return self.new_ref(t['e'], pv, st)
        el = self.p.seq_elem(ty)
        if el is not None:
            if k == 'array':
                n = t['n']
                if n is not None and n <= 64:
                    return ('q', tuple(('v', ('t', el, pv)) for _ in range(n)))
                return ('q', (('n', const(n or 0), ('t', el, pv)),))
            return ('q', (('n', T.fresh('len', 0, (1 << 63) - 1, pv), ('t', el, pv)),))
        if k == 'adt':
            h = self.m.expand_adt(self, v, st, t)
            if h is not None:
                return h
            if t.get('box') or t['name'].rsplit('::', 1)[-1] in ('Unique', 'NonNull'):
                return self.new_ref(t['args'][0], pv, st)
            if t['ak'] == 'struct':
                return ('s', tuple(('t', f[1], pv) for f in t['v'][0]['f']))
            if t['ak'] == 'enum':
                alts = []
                for i, vv in enumerate(t['v']):
                    if any(self.types[f[1]]['k'] == 'never' or (self.types[f[1]]['k'] == 'adt' and self.types[f[1]]['name'].endswith('Infallible')) for f in vv['f']):
                        continue
                    alts.append((i, tuple(('t', f[1], pv) for f in vv['f'])))
                if len(alts) == 1:
                    return ('e', tuple(alts), None)
                ds = [a[0] for a in alts]
                if len(ds) == 2 and set(ds) == {0, 1}:
                    d = T.fresh('discr', 0, 1, pv)
                else:
                    d = T.fresh('discr', min(ds), max(ds), pv)
                return ('e', tuple(alts), d)
            return ('t', ty, pv)
        if k == 'closure':
            up = t.get('up')
            if up is not None:
                return ('s', tuple(('t', x, pv) for x in self.types[up]['a']))
            return ('s', ())
        if k == 'fndef':
            return ('s', ())
        return v

    def new_ref(self, pointee, pv, st):
        oid = self.new_obj(st, ('t', pointee, pv))
        return ('r', oid, (), None)

    def new_obj(self, st, val, tag='h'):
        n = st.g.get('#n', 0) + 1
        st.g['#n'] = n
        oid = (tag, n) if not self.stack else (tag, n, self.stack[-1].fr)
        while oid in st.objs:
            n += 1
            st.g['#n'] = n
            oid = (tag, n, self.stack[-1].fr if self.stack else 0)
        st.objs[oid] = val
        return oid

    # ---------- memory ----------
    def load(self, st, oid, path):
        root = st.objs.get(oid)
        if root is None:
            raise Stuck('dangling object %r' % (oid,))
        if not path and root[0] != 't':
            return root
        v, new = self._load(st, root, path, 0)
        if new is not root:
            st.objs[oid] = new
        return v

    def _load(self, st, v, path, i):
        if v[0] == 't':
            v2 = self.expand(v, st)
            if v2 is v or v2[0] == 't':
                if i == len(path):
                    return v, v
                return self.opaque_proj(v, path, i), v
            v = v2
        if i == len(path):
            return v, v
        e = path[i]
        k = v[0]
        if k == 's':
            if not isinstance(e, int) or e >= len(v[1]):
                if isinstance(e, tuple) and e[0] == 'd':
                    return self._load(st, v, path, i + 1)
                raise Stuck('bad projection %r on struct of %d' % (e, len(v[1])))
            f = v[1][e]
            r, nf = self._load(st, f, path, i + 1)
            if nf is not f:
                v = ('s', v[1][:e] + (nf,) + v[1][e + 1:])
            return r, v
        if k == 'e':
            if isinstance(e, tuple) and e[0] == 'd':
                for j, (a, fs) in enumerate(v[1]):
                    if a == e[1]:
                        if i + 1 == len(path):
                            return ('s', fs), v
                        fi = path[i + 1]
                        f = fs[fi]
                        r, nf = self._load(st, f, path, i + 2)
                        if nf is not f:
                            nfs = fs[:fi] + (nf,) + fs[fi + 1:]
                            v = ('e', v[1][:j] + ((a, nfs),) + v[1][j + 1:], v[2])
                        return r, v
                raise Stuck('downcast to absent variant')
            raise Stuck('field of enum without downcast')
        if k == 'q':
            if isinstance(e, tuple) and e[0] == 'i':
                return self.seq_load(st, v, e[1], path, i)
            raise Stuck('bad projection %r on sequence' % (e,))
        if k == 'r':
            # Box/Unique/NonNull wrappers are represented by the pointer itself
            if isinstance(e, int):
                if e == 0:
                    return self._load(st, v, path, i + 1)
                return UNIT, v
            raise Stuck('bad projection %r on pointer' % (e,))
        if k == 'u':
            return UNINIT, v
        if k == 'm':
            return self.m.project(self, st, v, path, i), v
        if k == 'o':
            return v, v
        raise Stuck('projection %r on %s' % (e, k))

    def opaque_proj(self, v, path, i):
        return ('o',)

    def seq_find(self, st, v, idx):
        """Locate index term in segments: (segment number, kind) or None."""
        off = T.ZERO
        for j, s in enumerate(v[1]):
            ln = T.ONE if s[0] == 'v' else s[1]
            d = sub(idx, off)
            ge = st.decide(('ge', d))
            lt = st.decide(('ge', addc(sub(ln, d), -1)))
            if ge and lt:
                return j, d
            if not (ge and lt is False):
                return None, None
            off = add(off, ln)
        return None, None

    def seq_load(self, st, v, idx, path, i):
        j, d = self.seq_find(st, v, idx)
        if j is not None:
            s = v[1][j]
            if s[0] == 'v':
                r, n = self._load(st, s[1], path, i + 1)
                if n is not s[1]:
                    v = ('q', v[1][:j] + (('v', n),) + v[1][j + 1:])
                return r, v
            if s[0] == 'g':
                el = self.inst_elem(st, s, d)
            else:
                el = self.freshen(s[2], st)
            r, n = self._load(st, el, path, i + 1)
            return r, v
        # unknown position: join of everything
        el = self.seq_summary(st, v)
        if el is None:
            raise Stuck('index into empty sequence')
        r, n = self._load(st, el, path, i + 1)
        return r, v

    def inst_elem(self, st, seg, idx):
        return self.subst_val(seg[2], {seg[3]: idx})

    def subst_val(self, v, m):
        k = v[0]
        if k == 'n':
            t = T.subst(v[1], m)
            return v if t == v[1] else ('n', t, v[2])
        if k == 's':
            return ('s', tuple(self.subst_val(x, m) for x in v[1]))
        if k == 'e':
            return ('e', tuple((a, tuple(self.subst_val(x, m) for x in fs)) for a, fs in v[1]), None if v[2] is None else T.subst(v[2], m))
        if k == 'q':
            out = []
            for s in v[1]:
                if s[0] == 'v':
                    out.append(('v', self.subst_val(s[1], m)))
                elif s[0] == 'n':
                    out.append(('n', T.subst(s[1], m), self.subst_val(s[2], m)))
                elif s[0] == 'g':
                    out.append(('g', T.subst(s[1], m), self.subst_val(s[2], m), s[3]))
                else:
                    out.append(s)
            return ('q', tuple(out))
        if k == 'r':
            return ('r', v[1], self.subst_path(v[2], m), None if v[3] is None else (v[3][0],) + tuple(T.subst(x, m) for x in v[3][1:]) if v[3] and v[3][0] == 'w' else v[3])
        if k == 'm':
            return ('m', v[1], tuple(self.subst_attr(x, m) for x in v[2]))
        if k == 'f':
            return ('f', self.m.fsubst(v[1], m), v[2])
        return v

    def subst_attr(self, x, m):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x[1]):
            return T.subst(x, m)
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('n', 's', 'e', 'q', 'r', 'm', 'f', 't', 'u', 'o'):
            return self.subst_val(x, m)
        return x

    def subst_path(self, p, m):
        return tuple(('i', T.subst(e[1], m)) if isinstance(e, tuple) and e[0] == 'i' else e for e in p)

    def seq_summary(self, st, v):
        el = None
        for s in v[1]:
            x = s[1] if s[0] == 'v' else self.freshen(s[2], st) if s[0] in ('n', 'g') else None
            if x is None:
                continue
            el = x if el is None else self.join_val(el, x, JoinCtx(self, None, st, st))
        return el

    def freshen(self, v, st, cache=None):
        if cache is None:
            cache = {}
        k = v[0]
        if k == 'n':
            if is_const(v[1]):
                return v
            lo, hi = interval(v[1], st.rng)
            key = v[1]
            if key not in cache:
                pv = T.prov(v[1])
                cache[key] = T.fresh('el', lo, hi, 'x', 'free')
                SYMS[cache[key][1][0][0]].prov = pv
            return ('n', cache[key], v[2])
        if k == 's':
            return ('s', tuple(self.freshen(x, st, cache) for x in v[1]))
        if k == 'e':
            d = v[2]
            if d is not None and not is_const(d):
                lo, hi = interval(d, st.rng)
                if d not in cache:
                    cache[d] = T.fresh('eld', lo, hi, 'x')
                    SYMS[cache[d][1][0][0]].prov = T.prov(d)
                d = cache[d]
            return ('e', tuple((a, tuple(self.freshen(x, st, cache) for x in fs)) for a, fs in v[1]), d)
        if k == 'q':
            out = []
            for s in v[1]:
                if s[0] == 'v':
                    out.append(('v', self.freshen(s[1], st, cache)))
                elif s[0] in ('n', 'g'):
                    ln = s[1]
                    if not is_const(ln):
                        if ln not in cache:
                            lo, hi = interval(ln, st.rng)
                            cache[ln] = T.fresh('eln', max(lo or 0, 0), hi, 'x')
                            SYMS[cache[ln][1][0][0]].prov = T.prov(ln)
                        ln = cache[ln]
                    out.append((s[0], ln) + s[2:])
                else:
                    out.append(s)
            return ('q', tuple(out))
        if k == 'f' and v[1][0] != 'c':
            if v not in cache:
                T._fresh_n[0] += 1
                cache[v] = ('f', ('sym', T._fresh_n[0], 'x'), v[2])
            return cache[v]
        return v

    def store(self, st, oid, path, val):
        if not path:
            st.objs[oid] = val
            return
        root = st.objs.get(oid)
        if root is None:
            raise Stuck('dangling object %r' % (oid,))
        st.objs[oid] = self._store(st, root, path, 0, val)

    def _store(self, st, v, path, i, val):
        if i == len(path):
            return val
        if v[0] == 't':
            v = self.expand(v, st)
        e = path[i]
        k = v[0]
        if k == 'u':
            if isinstance(e, int):
                return self._store(st, ('s', (UNINIT,) * (e + 1)), path, i, val)
            self.note('store into uninitialised aggregate')
            return v
        if k == 's':
            if isinstance(e, tuple) and e[0] == 'd':
                return self._store(st, v, path, i + 1, val)
            f = v[1]
            while len(f) <= e:
                f = f + (UNINIT,)
            return ('s', f[:e] + (self._store(st, f[e], path, i + 1, val),) + f[e + 1:])
        if k == 'e':
            for j, (a, fs) in enumerate(v[1]):
                if a == e[1]:
                    fi = path[i + 1]
                    nfs = fs[:fi] + (self._store(st, fs[fi], path, i + 2, val),) + fs[fi + 1:]
                    return ('e', v[1][:j] + ((a, nfs),) + v[1][j + 1:], v[2])
            raise Stuck('store to absent variant')
        if k == 'q':
            idx = e[1]
            j, d = self.seq_find(st, v, idx)
            if j is not None:
                s = v[1][j]
                if s[0] == 'v':
                    return ('q', v[1][:j] + (('v', self._store(st, s[1], path, i + 1, val)),) + v[1][j + 1:])
            # weak update of every candidate segment
            out = []
            for jj, s in enumerate(v[1]):
                if j is not None and jj != j:
                    out.append(s); continue
                if s[0] == 'v':
                    new = self._store(st, s[1], path, i + 1, val)
                    out.append(('v', self.join_val(s[1], new, JoinCtx(self, None, st, st))))
                elif s[0] in ('n', 'g'):
                    el = self.freshen(s[2], st)
                    new = self._store(st, el, path, i + 1, val)
                    out.append(('n', s[1], self.join_val(s[2], new, JoinCtx(self, None, st, st))))
                else:
                    out.append(s)
            return ('q', tuple(out))
        if k == 'r':
            if isinstance(e, int) and e == 0:
                return self._store(st, v, path, i + 1, val)
            return v
        if k in ('m', 'o', 't'):
            self.note('store into opaque value')
            return v
        raise Stuck('store %r into %s' % (e, k))

    # ---------- places ----------
    def place(self, st, act, p):
        """Resolve to (oid, path, type, meta)."""
        oid = (act.fr, p[0])
        ty = act.types[p[0]]
        path = ()
        meta = None
        down = None
        for e in p[1]:
            if e == '*':
                v = self.load(st, oid, path)
                pt = self.p.pointee(ty)
                if pt is None:
                    raise Stuck('deref of %s' % self.p.tyname(ty))
                v = self.as_ref(st, v, oid, path, pt)
                oid, path, meta = v[1], v[2], v[3]
                ty = pt
            elif e[0] == 'f':
                if meta is not None and meta[0] == 'w':
                    raise Stuck('field of window')
                path = path + (e[1],)
                ty = e[2]
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                iv = self.load(st, (act.fr, e[1]), ())
                idx = iv[1]
                if meta is not None and meta[0] == 'w':
                    idx = add(meta[1], idx)
                    meta = None
                path = path + (('i', idx),)
                ty = self.p.seq_elem(ty)
            elif e[0] == 'c':
                if e[3]:
                    ln = self.place_len(st, oid, path, ty, meta)
                    idx = addc(ln, -e[1])
                else:
                    idx = const(e[1])
                if meta is not None and meta[0] == 'w':
                    idx = add(meta[1], idx); meta = None
                path = path + (('i', idx),)
                ty = self.p.seq_elem(ty)
            elif e[0] == 's':
                ln = self.place_len(st, oid, path, ty, meta)
                off = meta[1] if meta is not None and meta[0] == 'w' else T.ZERO
                end = addc(ln, -e[2]) if e[3] else const(e[2])
                meta = ('w', addc(off, e[1]), addc(end, -e[1]))
            elif e[0] == 'o':
                ty = e[1]
        return oid, path, ty, meta

    def as_ref(self, st, v, oid, path, pt):
        while v[0] == 's' and len(v[1]) >= 1:
            v = v[1][0]
        if v[0] == 'r':
            return v
        if v[0] in ('o', 'u', 't'):
            self.note('deref of unknown pointer')
            r = self.new_ref(pt, 'opaque', st)
            return r
        raise Stuck('deref of %s' % v[0])

    def place_len(self, st, oid, path, ty, meta):
        if meta is not None and meta[0] == 'w':
            return meta[2]
        t = self.types[ty]
        if t['k'] == 'array' and t['n'] is not None:
            return const(t['n'])
        v = self.load(st, oid, path)
        if v[0] == 'q':
            return self.seq_len(v)
        return T.fresh('len', 0, (1 << 63) - 1)

    def seq_len(self, v):
        n = T.ZERO
        for s in v[1]:
            if s[0] == 'v':
                n = addc(n, 1)
            elif s[0] == 's':
                n = addc(n, len(s[1].encode()))
            elif s[0] in ('n', 'g'):
                n = add(n, s[1])
            else:
                n = add(n, s[2])
        return n

    def read(self, st, act, p):
        oid, path, ty, meta = self.place(st, act, p)
        return self.load(st, oid, path)

    def write(self, st, act, p, val):
        if not p[1]:
            st.objs[(act.fr, p[0])] = val
            return
        # a pointer-wrapper being initialised field by field
        oid, path, ty, meta = self.place(st, act, p)
        cur = st.objs.get(oid)
        if cur is not None and cur[0] == 'u' and path:
            n = path[0]
            st.objs[oid] = ('s', tuple(UNINIT for _ in range((n if isinstance(n, int) else 0) + 1)))
        self.store(st, oid, path, val)

    # ---------- operands ----------
    def operand(self, st, act, o):
        if o[0] == 'k':
            return self.constant(o[1], st)
        if o[0] == 'rt':
            return ('n', T.ONE if o[1] == 'OverflowChecks' else T.ZERO, 'bool')
        v = self.read(st, act, o[1])
        if o[0] == 'm' and not o[1][1]:
            oid = (act.fr, o[1][0])
            if o[1][0] not in act.cfg.borrowed:
                st.objs[oid] = UNINIT
        return v

    def op_ty(self, act, o):
        if o[0] == 'k':
            return o[1]['ty']
        if o[0] == 'rt':
            return self.p.bykey['bool']
        return self.place_ty(act, o[1])

    def place_ty(self, act, p):
        ty = act.types[p[0]]
        for e in p[1]:
            if e == '*':
                ty = self.p.pointee(ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = self.p.seq_elem(ty)
            elif e[0] == 's':
                pass
            elif e[0] == 'o':
                ty = e[1]
        return ty

    def constant(self, c, st):
        ty = c['ty']
        if 'b' in c:
            return self.decode(c, 0, ty, st)
        if 'z' in c:
            t = self.types[ty]
            if t['k'] in ('adt', 'tuple', 'array'):
                v = self.decode({'b': '', 'p': []}, 0, ty, st)
                if v[0] != 't':
                    return v
            return UNIT
        return ('t', ty, 'opaque')

    def bytes_of(self, c, off, n):
        h = c['b'][2 * off:2 * off + 2 * n]
        if '_' in h:
            return None
        return int.from_bytes(bytes.fromhex(h), 'little')

    def decode(self, c, off, ty, st):
        t = self.types[ty]; k = t['k']
        lay = t.get('lay')
        try:
            if k in ('uint', 'int'):
                w = t['w'] // 8
                n = self.bytes_of(c, off, w)
                if n is None:
                    return UNINIT
                if k == 'int' and n >= 1 << (t['w'] - 1):
                    n -= 1 << t['w']
                return ('n', const(n), t['n'])
            if k == 'bool':
                return ('n', const(self.bytes_of(c, off, 1)), 'bool')
            if k == 'char':
                return ('n', const(self.bytes_of(c, off, 4)), 'char')
            if k == 'float':
                import struct
                w = 8 if t['n'] == 'f64' else 4
                h = bytes.fromhex(c['b'][2 * off:2 * off + 2 * w])
                return ('f', ('c', struct.unpack('<d' if w == 8 else '<f', h)[0]), t['n'])
            if k == 'tuple':
                offs = lay['off'] if lay and lay['off'] else [0] * len(t['a'])
                return ('s', tuple(self.decode(c, off + offs[i], x, st) for i, x in enumerate(t['a'])))
            if k == 'array':
                es = self.types[t['e']]['lay']['sz']
                if t['n'] > 300:
                    return ('t', ty, 'opaque')
                return ('q', tuple(('v', self.decode(c, off + i * es, t['e'], st)) for i in range(t['n'])))
            if k in ('ref', 'ptr') or (k == 'adt' and self.p.pointee(ty) is not None and t['name'].rsplit('::', 1)[-1] in ('NonNull', 'Unique')):
                pt = self.p.pointee(ty)
                for po, ai in c['p']:
                    if po == off:
                        return self.const_ref(ai, pt, c, off, st, self.bytes_of(c, off, 8) or 0)
                pk = self.types[pt]['k']
                oid = self.new_obj(st, ('q', ()) if pk in ('slice', 'str') else ('t', pt, 'opaque'), 'c')
                return ('r', oid, (), ('w', T.ZERO, T.ZERO) if pk in ('slice', 'str') else None)
            if k == 'adt':
                h = self.m.decode_adt(self, c, off, ty, st)
                if h is not None:
                    return h
                if t['ak'] == 'struct':
                    fs = t['v'][0]['f']
                    offs = lay['off'] if lay and lay['off'] else [0] * len(fs)
                    return ('s', tuple(self.decode(c, off + offs[i], f[1], st) for i, f in enumerate(fs)))
                if t['ak'] == 'enum' and lay and lay['var']:
                    var = lay['var']
                    if 'one' in var:
                        vi = var['one']; offs = lay['off'] or [0] * 16
                    else:
                        to = lay['off'][var['tf']] if lay['off'] else 0
                        tag = self.bytes_of(c, off + to, var['tsz'])
                        vi = None
                        if var['enc'] == 'direct':
                            for i, v in enumerate(t['v']):
                                if int(v['d']) % (1 << (8 * var['tsz'])) == tag:
                                    vi = i
                        else:
                            e = var['enc']
                            if any(po == off + to for po, _ in c['p']):
                                vi = e['u']
                            else:
                                rel = (tag - int(e['n'])) % (1 << (8 * var['tsz']))
                                vi = e['s'] + rel if rel <= e['e'] - e['s'] else e['u']
                        offs = var['vo'][vi]
                    fs = t['v'][vi]['f']
                    return ('e', ((vi, tuple(self.decode(c, off + offs[i], f[1], st) for i, f in enumerate(fs))),), None)
        except (TypeError, ValueError, KeyError, IndexError):
            pass
        return ('t', ty, 'opaque')

    def const_ref(self, ai, pt, c, off, st, addend=0):
        a = self.p.allocs[ai]
        oid = ('c', ai, addend)
        t = self.types[pt]
        meta = None
        if t['k'] == 'str':
            n = self.bytes_of(c, off + 8, 8)
            txt = bytes.fromhex(a['b'][2 * addend:2 * (addend + n)]).decode('utf8', 'replace') if 'b' in a else ''
            oid = ('c', ai, addend, n)
            st.objs[oid] = ('q', (('s', txt),))
            return ('r', oid, (), ('w', T.ZERO, const(len(txt.encode()))))
        if t['k'] == 'slice':
            n = self.bytes_of(c, off + 8, 8)
            es = self.types[t['e']]['lay']['sz']
            oid = ('c', ai, addend, n)
            if n <= 300 and 'b' in a:
                st.objs[oid] = ('q', tuple(('v', self.decode(a, addend + i * es, t['e'], st)) for i in range(n)))
            else:
                st.objs[oid] = ('q', (('n', const(n), ('t', t['e'], 'opaque')),))
            return ('r', oid, (), ('w', T.ZERO, const(n)))
        if t['k'] == 'dyn' or 'b' not in a:
            st.objs[oid] = ('t', pt, 'opaque')
            return ('r', oid, (), None)
        st.objs[oid] = self.decode(a, addend, pt, st)
        return ('r', oid, (), None)

    # ---------- rvalues ----------
    def rvalue(self, st, act, r, dst):
        k = r[0]
        if k == 'use':
            return self.operand(st, act, r[1])
        if k == 'ref' or k == 'addr':
            oid, path, ty, meta = self.place(st, act, r[1])
            if meta is None:
                tk = self.types[ty]['k']
                if tk in ('slice', 'str'):
                    v = self.load(st, oid, path)
                    if v[0] == 'q':
                        meta = ('w', T.ZERO, self.seq_len(v))
            return ('r', oid, path, meta)
        if k == 'discr':
            oid, path, ty, meta = self.place(st, act, r[1])
            v = self.load(st, oid, path)
            return self.discr(st, v, ty)
        if k == 'agg':
            kind = r[1]
            vals = tuple(self.operand(st, act, o) for o in r[2])
            if kind[0] == 'array':
                return ('q', tuple(('v', x) for x in vals))
            if kind[0] == 'adt':
                t = self.types[kind[1]]
                if t['ak'] == 'enum':
                    return ('e', ((kind[2], vals),), None)
                if t['ak'] == 'union':
                    return ('t', kind[1], 'opaque')
                if t.get('box') or t['name'].rsplit('::', 1)[-1] in ('NonNull', 'Unique', 'Box'):
                    return vals[0]
                return ('s', vals)
            if kind[0] == 'rawptr':
                p = vals[0]
                if p[0] == 'r' and vals[1][0] == 'n':
                    return ('r', p[1], p[2], ('w', T.ZERO, vals[1][1]))
                return p
            return ('s', vals)
        if k == 'bin':
            a = self.operand(st, act, r[2]); b = self.operand(st, act, r[3])
            return self.binop(st, r[1], a, b, self.op_ty(act, r[2]), self.op_ty(act, r[3]))
        if k == 'cbin':
            a = self.operand(st, act, r[2]); b = self.operand(st, act, r[3])
            return self.checked(st, r[1], a, b, self.op_ty(act, r[2]))
        if k == 'un':
            a = self.operand(st, act, r[2])
            return self.unop(st, r[1], a, self.op_ty(act, r[2]))
        if k == 'cast':
            a = self.operand(st, act, r[2])
            return self.cast(st, r[1], a, self.op_ty(act, r[2]), r[3])
        if k == 'rep':
            a = self.operand(st, act, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return ('q', tuple(('v', a) for _ in range(n)))
            return ('q', (('n', const(n or 0), a),))
        if k == 'len':
            oid, path, ty, meta = self.place(st, act, r[1])
            return ('n', self.place_len(st, oid, path, ty, meta), 'usize')
        if k == 'tls':
            oid = ('tls', r[1])
            self.collector.append(('tls', r[1]))
            return ('o',)
        raise Stuck('rvalue ' + k)

    def discr(self, st, v, ty):
        t = self.types[ty]
        if v[0] == 'e':
            tn = 'isize'
            ds = [int(x['d']) for x in t['v']]
            if len(v[1]) == 1:
                return ('n', const(ds[v[1][0][0]]), tn)
            off = ds[v[1][0][0]] - v[1][0][0]
            if all(ds[a[0]] - a[0] == off for a in v[1]):
                return ('n', addc(v[2], off), tn)
            r = const(ds[v[1][-1][0]])
            for a in v[1][:-1]:
                r = T.ite(('eq', addc(v[2], -a[0])), const(ds[a[0]]), r)
            return ('n', r, tn)
        if v[0] == 'm':
            return self.m.discr(self, st, v, ty)
        self.note('discriminant of %s %s' % (v[0], self.p.tyname(ty)))
        return ('n', T.fresh('discr', None, None), 'isize')

    def opnum(self, st, v, ty):
        """Numeric view of a scalar value."""
        if v[0] == 'n':
            return v
        tn = self.p.tyname(ty)
        if v[0] == 'e':
            return self.discr(st, v, ty)
        if tn in RANGES:
            return self.fresh_num('u', tn)
        return None

    def cmp_cond(self, op, a, b):
        d = sub(a, b)
        if op == 'Eq':
            return ('eq', d)
        if op == 'Ne':
            return ('ne', d)
        if op == 'Lt':
            return ('ge', addc(sub(b, a), -1))
        if op == 'Le':
            return ('ge', sub(b, a))
        if op == 'Gt':
            return ('ge', addc(d, -1))
        if op == 'Ge':
            return ('ge', d)

    def binop(self, st, op, a, b, ta, tb):
        if a[0] == 'f' or b[0] == 'f' or self.types[ta]['k'] == 'float':
            return self.m.float_bin(self, st, op, a, b, self.p.tyname(ta))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp') and (a[0] == 'r' or b[0] == 'r'):
            self.note('pointer comparison')
            if op in ('Eq', 'Ne') and a[0] == 'r' and b[0] == 'r' and a[:3] == b[:3]:
                return ('n', T.ONE if op == 'Eq' else T.ZERO, 'bool')
            return self.fresh_num('pcmp', 'bool')
        if op == 'Offset':
            return a
        x = self.opnum(st, a, ta); y = self.opnum(st, b, tb)
        if x is None or y is None:
            tn = self.p.tyname(ta)
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.fresh_num('cmp', 'bool')
            if tn in RANGES:
                return self.fresh_num('arith', tn)
            return ('o',)
        ax, bx = x[1], y[1]
        tn = x[2] if x[2] in RANGES else self.p.tyname(ta)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            c = self.cmp_cond(op, ax, bx)
            d = st.decide(c)
            if d is not None:
                return ('n', T.ONE if d else T.ZERO, 'bool')
            return ('n', T.cond_term(c), 'bool')
        if op == 'Cmp':
            # Ordering: Less=-1
            lt = st.decide(('ge', addc(sub(bx, ax), -1)))
            eq = st.decide(('eq', sub(ax, bx)))
            gt = st.decide(('ge', addc(sub(ax, bx), -1)))
            alts = []
            if lt is not False:
                alts.append((0, ()))
            if eq is not False:
                alts.append((1, ()))
            if gt is not False:
                alts.append((2, ()))
            if len(alts) == 1:
                return ('e', tuple(alts), None)
            clt = ('ge', addc(sub(bx, ax), -1)); ceq = ('eq', sub(ax, bx))
            if lt is False:
                d = T.ite(ceq, T.ONE, const(2))
            elif eq is False:
                d = T.ite(clt, T.ZERO, const(2))
            elif gt is False:
                d = T.ite(clt, T.ZERO, T.ONE)
            else:
                d = T.ite(clt, T.ZERO, T.ite(ceq, T.ONE, const(2)))
            return ('e', tuple(alts), d)
        return ('n', self.arith(st, op, ax, bx, tn), tn)

    def fit(self, st, t, tn):
        """True if the exact value is within the type's range."""
        lo, hi = RANGES[tn]
        a, b = interval(t, st.rng)
        if a is not None and b is not None and a >= lo and b <= hi:
            return True
        if (a is not None and a > hi) or (b is not None and b < lo):
            return False
        okl = a is not None and a >= lo or st.decide(('ge', addc(t, -lo))) is True
        okh = b is not None and b <= hi or st.decide(('ge', addc(T.scale(t, -1), hi))) is True
        return True if okl and okh else None

    def exact(self, st, op, a, b, tn):
        """Exact mathematical result, or None."""
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mul':
            if is_const(a):
                return T.scale(b, a[0])
            if is_const(b):
                return T.scale(a, b[0])
            la, ha = st.iv(a); lb, hb = st.iv(b)
            lo = hi = None
            if None not in (la, ha, lb, hb):
                ps = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(ps), max(ps)
            if a == b and lo is not None and lo < 0:
                lo = 0
            x, y = sorted((a, b))
            return T.op('mul', [x, y], lo, hi)
        return None

    def arith(self, st, op, a, b, tn):
        w = WIDTH[tn]; lo, hi = RANGES[tn]
        base = op.replace('Unchecked', '').replace('Wrapping', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = self.exact(st, base, a, b, tn)
            if 'Unchecked' in op:
                return r
            f = self.fit(st, r, tn)
            if f is True:
                return r
            if is_const(r):
                n = r[0] & ((1 << w) - 1)
                if tn[0] == 'i' and n >= 1 << (w - 1):
                    n -= 1 << w
                return const(n)
            return T.op('wrap:%s' % tn, [r], lo, hi)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            nm = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[base]
            la, _ = st.iv(a); lb, _ = st.iv(b)
            if is_const(a) and is_const(b):
                x = a[0] & ((1 << w) - 1); y = b[0] & ((1 << w) - 1)
                n = x & y if nm == 'and' else x | y if nm == 'or' else x ^ y
                if tn[0] == 'i' and n >= 1 << (w - 1):
                    n -= 1 << w
                return const(n)
            if tn == 'bool':
                return self.bool_op(st, nm, a, b)
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                r = T.bitop(nm, self.known_bits(st, a, w), self.known_bits(st, b, w), w)
                if r is not None:
                    return r
                ia, ib = st.iv(a), st.iv(b)
                if nm == 'and':
                    return T.op('and', sorted([a, b]), 0, min(ia[1], ib[1]))
                m = (1 << max(ia[1].bit_length(), ib[1].bit_length())) - 1
                return T.op(nm, sorted([a, b]), 0, m)
            return T.op(nm + ':' + tn, sorted([a, b]), lo, hi)
        if base in ('Shl', 'Shr'):
            if is_const(b):
                n = b[0]
                if 'Unchecked' not in op:
                    n &= (w - 1)
                ia = st.iv(a)
                if base == 'Shl':
                    if ia[0] is not None and ia[0] >= 0:
                        bits = T.to_bits(self.known_bits(st, a, w), w)
                        if bits is not None and tn[0] != 'i':
                            return T.from_bits(([0] * n + bits)[:w])
                    r = T.scale(a, 1 << n)
                    if self.fit(st, r, tn):
                        return r
                    return T.op('shl:%s' % tn, [a, b], lo, hi)
                if ia[0] is not None and ia[0] >= 0:
                    bits = T.to_bits(self.known_bits(st, a, w), w)
                    if bits is not None:
                        return T.from_bits(bits[n:])
                    return T.op('shr', [a, b], ia[0] >> n, None if ia[1] is None else ia[1] >> n)
                return T.op('shr:%s' % tn, [a, b], lo, hi)
            if base == 'Shr' and tn[0] != 'i':
                return T.op('shr', [a, b], 0, st.iv(a)[1])
            if base == 'Shl' and is_const(a) and a[0] == 1 and tn[0] != 'i':
                ib = st.iv(b)
                h = hi
                if ib[1] is not None and ib[1] < w:
                    h = 1 << ib[1]
                return T.op('shl1', [b], 1 if ib[1] is not None and ib[1] < w else 0, h)
            return T.op(base.lower() + ':' + tn, [a, b], lo, hi)
        if base in ('Div', 'Rem'):
            la, ha = st.iv(a); lb, hb = st.iv(b)
            if is_const(a) and is_const(b) and b[0] != 0:
                q = abs(a[0]) // abs(b[0])
                q = q if (a[0] < 0) == (b[0] < 0) else -q
                return const(q if base == 'Div' else a[0] - q * b[0])
            if base == 'Div':
                if is_const(b) and b[0] == 1:
                    return a
                if is_const(b) and b[0] > 0 and all(k % b[0] == 0 for _, k in a[1]) and a[0] % b[0] == 0:
                    return (a[0] // b[0], tuple((s, k // b[0]) for s, k in a[1]))
                if la is not None and la >= 0 and lb is not None and lb >= 0:
                    if is_const(b) and b[0] & (b[0] - 1) == 0 and b[0] > 0:
                        bits = T.to_bits(self.known_bits(st, a, w), w)
                        if bits is not None:
                            return T.from_bits(bits[b[0].bit_length() - 1:])
                    m = max(lb, 1)
                    r = T.op('div', [a, b], 0 if hb is None or la is None else la // max(hb, 1), None if ha is None else ha // m)
                    return r
                return T.op('div:' + tn, [a, b], lo, hi)
            if la is not None and la >= 0 and lb is not None and lb >= 0:
                if is_const(b) and b[0] & (b[0] - 1) == 0 and b[0] > 0:
                    bits = T.to_bits(self.known_bits(st, a, w), w)
                    if bits is not None:
                        return T.from_bits(bits[:b[0].bit_length() - 1])
                m = hi if hb is None else max(hb - 1, 0)
                if ha is not None:
                    m = min(m, ha)
                return T.op('rem', [a, b], 0, m)
            return T.op('rem:' + tn, [a, b], lo, hi)
        raise Stuck('binop ' + op)

    def known_bits(self, st, t, w):
        """Fold symbols whose value is fixed in this state into constants."""
        if not t[1]:
            return t
        out = (t[0], ())
        for s, k in t[1]:
            r = st.rng.get(s)
            if r is not None and r[0] is not None and r[0] == r[1]:
                out = addc(out, k * r[0])
            elif SYMS[s].kind == 'bv' and any(isinstance(b, tuple) and b[0] in st.rng and st.rng[b[0]][0] == st.rng[b[0]][1] for b in SYMS[s].data):
                bits = []
                for b in SYMS[s].data:
                    if isinstance(b, tuple) and b[0] in st.rng and st.rng[b[0]][0] == st.rng[b[0]][1] and st.rng[b[0]][0] is not None:
                        bits.append((st.rng[b[0]][0] >> b[1]) & 1)
                    else:
                        bits.append(b)
                out = add(out, T.from_bits(bits), k)
            else:
                out = add(out, (0, ((s, k),)))
        return out

    def bool_op(self, st, nm, a, b):
        ia, ib = st.iv(a), st.iv(b)
        if nm == 'and':
            if ia == (1, 1):
                return b
            if ib == (1, 1):
                return a
            if ia == (0, 0) or ib == (0, 0):
                return T.ZERO
        if nm == 'or':
            if ia == (0, 0):
                return b
            if ib == (0, 0):
                return a
            if ia == (1, 1) or ib == (1, 1):
                return T.ONE
        if nm == 'xor':
            if ia == (0, 0):
                return b
            if ib == (0, 0):
                return a
            if ia == (1, 1):
                return sub(T.ONE, b)
            if ib == (1, 1):
                return sub(T.ONE, a)
        if a == b:
            return T.ZERO if nm == 'xor' else a
        return T.op('b' + nm, sorted([a, b]), 0, 1)

    def checked(self, st, op, a, b, ta):
        if a[0] == 'f':
            raise Stuck('checked float')
        x = self.opnum(st, a, ta); y = self.opnum(st, b, ta)
        tn = self.p.tyname(ta)
        if x is None or y is None:
            return ('s', (self.fresh_num('arith', tn), self.fresh_num('ovf', 'bool')))
        if op in ('Shl', 'Shr'):
            return ('s', (('n', self.arith(st, op, x[1], y[1], tn), tn), ('n', T.ZERO, 'bool')))
        op = op.replace('WithOverflow', '')
        r = self.exact(st, op, x[1], y[1], tn)
        f = self.fit(st, r, tn)
        if f is True:
            return ('s', (('n', r, tn), ('n', T.ZERO, 'bool')))
        lo, hi = RANGES[tn]
        if f is False:
            return ('s', (('n', self.arith(st, op, x[1], y[1], tn), tn), ('n', T.ONE, 'bool')))
        ge = ('ge', addc(r, -lo)); le = ('ge', addc(T.scale(r, -1), hi))
        gl, gh = st.decide(ge), st.decide(le)
        if gl is True:
            ov = T.sub(T.ONE, T.cond_term(le))
        elif gh is True:
            ov = T.sub(T.ONE, T.cond_term(ge))
        else:
            ov = T.op('ovf:' + tn, [r], 0, 1)
        # value after the check: exact result (the overflow branch diverges)
        return ('s', (('n', r, tn), ('n', ov, 'bool')))

    def unop(self, st, op, a, ty):
        if a[0] == 'f':
            return ('f', self.m.fneg(a[1]), a[2])
        if op == 'PtrMetadata':
            if a[0] == 'r' and a[3] is not None and a[3][0] == 'w':
                return ('n', a[3][2], 'usize')
            if a[0] == 'r':
                pt = self.p.pointee(ty)
                if pt is not None and self.types[pt]['k'] in ('slice', 'str'):
                    v = self.load(st, a[1], a[2])
                    if v[0] == 'q':
                        return ('n', self.seq_len(v), 'usize')
            return ('n', T.fresh('meta', 0, (1 << 63) - 1), 'usize')
        x = self.opnum(st, a, ty)
        if x is None:
            return ('o',)
        t = x[1]; tn = x[2]
        if op == 'Not':
            if tn == 'bool':
                return ('n', sub(T.ONE, t), 'bool')
            w = WIDTH[tn]; lo, hi = RANGES[tn]
            if tn[0] == 'i':
                return ('n', addc(T.scale(t, -1), -1), tn)
            return ('n', addc(T.scale(t, -1), hi), tn)
        if op == 'Neg':
            r = T.scale(t, -1)
            if self.fit(st, r, tn) is not True:
                lo, hi = RANGES[tn]
                r = T.op('wrap:' + tn, [r], lo, hi)
            return ('n', r, tn)
        raise Stuck('unop ' + op)

    def cast(self, st, kind, a, src, dst):
        td = self.types[dst]; ts = self.types[src]
        if kind.startswith('IntToInt') or kind.startswith('IntToInt') or (td['k'] in ('uint', 'int', 'char', 'bool') and ts['k'] in ('uint', 'int', 'bool', 'char', 'adt') and 'Transmute' not in kind):
            x = self.opnum(st, a, src)
            if x is None:
                return self.fresh_num('cast', self.p.tyname(dst))
            tn = self.p.tyname(dst)
            t = x[1]
            if self.fit(st, t, tn) is True:
                return ('n', t, tn)
            lo, hi = RANGES[tn]
            w = WIDTH[tn]
            if is_const(t):
                n = t[0] & ((1 << w) - 1)
                if tn[0] == 'i' and n >= 1 << (w - 1):
                    n -= 1 << w
                return ('n', const(n), tn)
            if tn[0] == 'u':
                ia = st.iv(t)
                if ia[0] is not None and ia[0] >= 0 and ia[1] is not None:
                    bits = T.to_bits(self.known_bits(st, t, 128), max(ia[1].bit_length(), w))
                    if bits is not None:
                        return ('n', T.from_bits(bits[:w]), tn)
            if len(t[1]) == 1 and t[0] == 0 and t[1][0][1] == 1:
                sy = SYMS[t[1][0][0]]
                if sy.kind == 'op' and sy.data[0].startswith('trunc:') and WIDTH.get(sy.data[0][6:], 0) >= w:
                    # low bits are unchanged by the earlier truncation
                    return self.cast(st, kind, ('n', sy.data[1], x[2]), src, dst)
            return ('n', T.op('trunc:' + tn, [t], lo, hi), tn)
        if kind.startswith('FloatToInt') or kind.startswith('IntToFloat') or kind.startswith('FloatToFloat'):
            return self.m.float_cast(self, st, kind, a, self.p.tyname(src), self.p.tyname(dst))
        if 'Unsize' in kind:
            if a[0] == 'r' or a[0] == 's':
                v = a
                while v[0] == 's' and v[1]:
                    v = v[1][0]
                if v[0] != 'r':
                    return a
                sp = self.p.pointee(src); dp = self.p.pointee(dst)
                if sp is not None and dp is not None and self.types[sp]['k'] == 'array' and self.types[dp]['k'] == 'slice':
                    return ('r', v[1], v[2], ('w', T.ZERO, const(self.types[sp]['n'])))
                return ('r', v[1], v[2], ('dyn', sp))
            return a
        if kind == 'Transmute' or 'Transmute' in kind or kind.startswith('PtrToPtr') or kind.startswith('FnPtrToPtr') or 'PointerCoercion' in kind or 'Pointer' in kind or kind == 'Subtype':
            if a[0] == 'r':
                dp = self.p.pointee(dst)
                if td['k'] in ('uint', 'int'):
                    return self.fresh_num('addr', td['n'])
                if dp is not None and a[3] is not None and a[3][0] == 'w' and self.types[dp]['k'] not in ('slice', 'str'):
                    # thin pointer to the first element / array
                    if self.types[dp]['k'] == 'array':
                        return ('r', a[1], a[2], None) if a[3][1] == T.ZERO else ('r', a[1], a[2] + (('sub', a[3][1], a[3][2]),), None)
                    return ('r', a[1], a[2] + (('i', a[3][1]),), None)
                return a
            if a[0] == 'n' and td['k'] in ('uint', 'int', 'bool', 'char'):
                tn = self.p.tyname(dst)
                if self.fit(st, a[1], tn):
                    return ('n', a[1], tn)
                return ('n', T.op('trunc:' + tn, [a[1]], *RANGES[tn]), tn)
            if a[0] in ('s',) and td['k'] in ('tuple', 'closure', 'adt', 'fndef', 'fnptr') and ts['k'] == td['k']:
                return a
            if a[0] == 'fn' or (ts['k'] in ('fndef', 'closure') and td['k'] == 'fnptr'):
                return ('fn', src, a)
            if a[0] == 's' and len(a[1]) == 1 and a[1][0][0] in ('r', 'n'):
                return self.cast(st, kind, a[1][0], src, dst)
            if a[0] in ('t', 'o', 'u'):
                return ('t', dst, 'opaque')
            if a[0] in ('q',) and ts['k'] == td['k']:
                return a
            return self.m.transmute(self, st, a, src, dst)
        return ('t', dst, 'opaque')

    # ---------- statements / blocks ----------
    def exec_block(self, act, b, st):
        """Returns list of (target, state); target may be 'ret'."""
        self.steps -= 1
        if self.steps < 0:
            raise Budget()
        bl = act.cfg.blocks[b]
        for s in bl['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st, act, s[2], s[1])
                self.write(st, act, s[1], v)
            elif k == 'dead':
                st.objs.pop((act.fr, s[1]), None)
            elif k == 'live':
                st.objs[(act.fr, s[1])] = UNINIT
            elif k == 'assume':
                v = self.operand(st, act, s[1])
                if v[0] == 'n':
                    st2 = st.assume(T.as_cond(v[1]), record=False)
                    if st2 is None:
                        return []
                    st = st2
            elif k == 'sd':
                oid, path, ty, meta = self.place(st, act, s[1])
                self.store(st, oid, path, ('e', ((s[2], ()),), None))
            elif k == 'cpy':
                self.note('copy_nonoverlapping')
        t = bl['t']; k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'ret':
            return [('ret', st)]
        if k == 'switch':
            return self.switch(act, b, st, t)
        if k == 'drop':
            return self.drop(act, b, st, t)
        if k == 'assert':
            return self.assertion(act, b, st, t)
        if k == 'call':
            return self.call(act, b, st, t)
        if k == 'unreachable':
            return []
        return []

    def switch(self, act, b, st, t):
        v = self.operand(st, act, t['d'])
        ty = self.op_ty(act, t['d'])
        n = self.opnum(st, v, ty)
        out = []
        if n is None:
            self.note('switch on unknown')
            n = ('n', T.fresh('sw', None, None), 'isize')
        d = n[1]
        tn = self.p.tyname(ty)
        rest = st
        decided = is_const(d)
        w = self.types[ty].get('w', 128)
        for val, tgt in t['b']:
            val = int(val)
            if tn[0] == 'i' and tn in RANGES and val >= 1 << (w - 1):
                val -= 1 << w
            if rest is None:
                break
            c = ('eq', addc(d, -val))
            s1 = rest.assume(c)
            if s1 is not None:
                s1 = s1 if s1 is not rest else rest.copy()
                self.refine(s1, act, t, d, val)
                out.append((tgt, s1))
            rest = rest.assume(('ne', addc(d, -val)))
        if rest is not None:
            ob = act.cfg.blocks[t['o']]
            if not (ob['t']['k'] == 'unreachable' and not ob['s']):
                rest = rest if rest is not st else st.copy()
                self.refine_rest(rest, act, t, d)
                out.append((t['o'], rest))
        self.taken.setdefault((act.fr, b), set()).update(x for x, _ in out)
        return out

    taken = {}

    def refine(self, st, act, t, d, val):
        """Narrow multi-variant enum values whose discriminant term is d to the variant with discriminant val."""
        if is_const(d):
            return
        self.narrow_enums(st, d)

    def refine_rest(self, st, act, t, d):
        if not is_const(d):
            self.narrow_enums(st, d)

    def narrow_enums(self, st, d):
        sy = set(s for s, _ in d[1])

        def walk(v):
            k = v[0]
            if k == 'e':
                ch = False
                alts = v[1]
                if len(alts) > 1 and v[2] is not None and any(s in sy for s, _ in v[2][1]):
                    t = self.enum_of(v)
                    na = []
                    for a in alts:
                        if st.decide(('eq', addc(v[2], -self.vdiscr(v, a[0])))) is not False:
                            na.append(a)
                    if len(na) < len(alts) and na:
                        alts = tuple(na); ch = True
                new = []
                for a, fs in alts:
                    nf = tuple(walk(x) for x in fs)
                    if any(x is not y for x, y in zip(nf, fs)):
                        ch = True
                        new.append((a, nf))
                    else:
                        new.append((a, fs))
                if ch:
                    return ('e', tuple(new), v[2] if len(new) > 1 else None)
                return v
            if k == 's':
                n = tuple(walk(x) for x in v[1])
                if any(x is not y for x, y in zip(n, v[1])):
                    return ('s', n)
                return v
            if k == 'q':
                if any(s[0] == 'v' and s[1][0] in ('e', 's') for s in v[1]):
                    n = tuple(('v', walk(s[1])) if s[0] == 'v' else s for s in v[1])
                    if any(x[1] is not y[1] for x, y in zip(n, v[1])):
                        return ('q', n)
                return v
            return v
        for o, v in list(st.objs.items()):
            if v[0] in ('e', 's', 'q'):
                n = walk(v)
                if n is not v:
                    st.objs[o] = n

    def enum_of(self, v):
        return None

    def vdiscr(self, v, variant):
        """Discriminant terms of abstract enums hold the variant index."""
        return variant

    def vdiscr0(self, v):
        return v[1][0][0]

    def drop(self, act, b, st, t):
        h = self.hooks.drop(self, act, st, t) if self.hooks else None
        if type(h) is list:
            return [(t['t'], s) for s in h]
        if h is not None:
            return [(t['t'], h)]
        return [(t['t'], st)]

    def assertion(self, act, b, st, t):
        v = self.operand(st, act, t['c'])
        x = self.opnum(st, v, self.p.bykey['bool'])
        c = T.as_cond(x[1])
        if not t['e']:
            c = T.neg(c)
        d = st.decide(c)
        m = t['m']
        if m[0] == 'other':
            # null/alignment checks on pointers derived from references
            return [(t['t'], st)]
        if d is not True:
            self.panic(act, st, t, m[0], c, d)
        else:
            self.discharged += 1
        if d is False:
            return []
        if d is None:
            ok = st.assume(c, record=False)
            if ok is None:
                return []
            # overflow: also learn that the exact result is in range
            if m[0] == 'overflow' and ok is not None:
                try:
                    tn = self.p.tyname(self.op_ty(act, m[2]))
                    if tn in RANGES and m[1] in ('Add', 'Sub', 'Mul'):
                        a = self.operand(ok, act, ['c', m[2][1]] if m[2][0] != 'k' else m[2])
                        bb = self.operand(ok, act, ['c', m[3][1]] if m[3][0] != 'k' else m[3])
                        if a[0] == 'n' and bb[0] == 'n':
                            r = self.exact(ok, m[1], a[1], bb[1], tn)
                            lo, hi = RANGES[tn]
                            o2 = ok.assume(('ge', addc(r, -lo)), record=False)
                            if o2 is None:
                                return []
                            o2 = o2.assume(('ge', addc(T.scale(r, -1), hi)), record=False)
                            if o2 is None:
                                return []
                            ok = o2
                except Stuck:
                    pass
            st = ok
        return [(t['t'], st)]

    def panic(self, act, st, t, kind, cond, decided):
        """A panic that may happen here. cond: condition that must hold to avoid it (or None)."""
        site = self.site(act, t)
        self.collector.append(('panic', kind, site, cond, decided, st, [a.fid for a in self.stack]))

    def site(self, act, t):
        f = act.f
        return (f['path'], f['file'] if 'file' not in t else t['file'], t['l'])

    # ---------- calls ----------
    def callee(self, st, act, f):
        if f[0] == 'k' and 'fn' in f[1]:
            return f[1]['fn'], None
        v = self.operand(st, act, f)
        ty = self.op_ty(act, f)
        if v[0] == 'fn':
            return self.fnval(v)
        t = self.types[ty]
        if t['k'] == 'fndef' and t.get('fn') is not None:
            return t['fn'], None
        return None, v

    def fnval(self, v):
        ty = v[1]
        t = self.types[ty]
        if t['k'] == 'fndef':
            return t.get('fn'), None
        if t['k'] == 'closure':
            return t['inst'].get('Fn', t['inst'].get('FnMut', t['inst'].get('FnOnce'))), v[2]
        return None, None

    def call(self, act, b, st, t):
        self.callsites += 1
        fid, extra = self.callee(st, act, t['f'])
        args = [self.operand(st, act, o) for o in t['a']]
        atys = [self.op_ty(act, o) for o in t['a']]
        dty = self.place_ty(act, t['d'])
        if fid is None:
            self.note('call through function pointer in '+act.f['path']+' '+str(extra)[:80]+' '+self.p.tyname(self.op_ty(act, t['f'])))
            self.havoc_args(st, args)
            outs = [(self.top(dty), st)]
        else:
            outs = self.invoke(act, st, fid, args, atys, dty, t)
        if t['t'] is None:
            return []
        res = []
        for v, s in outs:
            self.write(s, act, t['d'], v)
            res.append((t['t'], s))
        return res

    def invoke(self, act, st, fid, args, atys, dty, t):
        f = self.p.fns[fid]
        if self.hooks:
            r = self.hooks.call(self, act, st, fid, f, args, atys, dty, t)
            if r is not None:
                return r
        if f['kind'] == 'intrinsic' or f['intr']:
            r = self.m.intrinsic(self, st, f, args, atys, dty, act, t)
            if r is not None:
                return r
        h = None
        if f['crate'] != 'cniic' or '__vp::vp_' in f['path']:
            if f['path'].endswith('precondition_check'):
                return [(UNIT, st)]
            h = self.models.get(f['path'])
        if h is not None:
            r = h(self, st, f, args, atys, dty, act, t)
            if r is not None:
                return r
        if f['body'] is None:
            return self.opaque_call(act, st, f, args, dty, t)
        return self.enter(act, st, fid, args, dty)

    def opaque_call(self, act, st, f, args, dty, t):
        if self.types[dty]['k'] == 'never':
            return []
        self.note('opaque ' + f['path'])
        self.collector.append(('opaque', f['path']))
        self.havoc_args(st, args)
        return [(self.top(dty), st)]

    def havoc_args(self, st, args):
        """Anything reachable through pointers handed to unknown code may change."""
        seen = set()

        def visit(v):
            if v[0] == 'r':
                key = (v[1], v[2])
                if key in seen:
                    return
                seen.add(key)
                self.note('havoc')
            elif v[0] == 's':
                for x in v[1]:
                    visit(x)
        for a in args:
            visit(a)

    def is_closure_body(self, f):
        return f['kind'] == 'item' and f['path'].endswith('}') and '{closure#' in f['path'].rsplit('::', 1)[-1]

    def enter(self, act, st, fid, args, dty):
        f = self.p.fns[fid]
        body = f['body']
        if self.is_closure_body(f) and len(args) == 2 and body['spread'] is None:
            if body['nargs'] != 2 or (args[1][0] in ('s',) and self.is_arg_tuple(f, args)):
                tup = args[1]
                if tup[0] == 't':
                    tup = self.expand(tup, st)
                if tup[0] == 's':
                    args = [args[0]] + list(tup[1])
        if len(args) != body['nargs']:
            if body['spread'] is not None and len(args) == body['nargs']:
                pass
            else:
                raise Stuck('arity of %s: %d vs %d' % (f['path'], len(args), body['nargs']))
        depth = sum(1 for a in self.stack if a.fid == fid)
        if depth >= self.RECUR or len(self.stack) > 90:
            return self.recursive(act, st, f, args, dty)
        return self.exec_fn(fid, args, st)

    def is_arg_tuple(self, f, args):
        # nargs == 2: closure taking one argument; the tuple always wraps it
        return len(args[1][1]) == 1

    def recursive(self, act, st, f, args, dty):
        self.note('recursion ' + f['path'])
        self.havoc_args(st, args)
        # a value rebuilt from the byte stream can be any value the stream can spell
        rd = any('__vp::Reader' in self.p.tyname(f['body']['locals'][i + 1]) for i in range(f['body']['nargs']))
        return [(self.top(dty, 'input' if rd else 'opaque'), st)]

    def exec_fn(self, fid, args, st):
        f = self.p.fns[fid]
        self.analysed.add(fid)
        self.frames += 1
        fr = self.frames
        cfg = self.p.cfg(fid)
        act = Act(fid, fr, f, cfg, self.stack[-1] if self.stack else None)
        for i, a in enumerate(args):
            st.objs[(fr, i + 1)] = a
        st.objs[(fr, 0)] = UNINIT
        for i in range(len(args) + 1, len(act.types)):
            st.objs[(fr, i)] = UNINIT
        self.stack.append(act)
        try:
            exits = self.run_cfg(act, 0, [st], None, None)
        except Stuck as e:
            if not getattr(e, 'trace', None):
                e.trace = [a.f['path'] for a in self.stack]
            raise
        finally:
            self.stack.pop()
        outs = []
        sts = []
        for tgt, s in exits:
            rv = s.objs.pop((fr, 0))
            for o in [o for o in s.objs if o[0] == fr]:
                # keep objects whose address escaped through the return value / heap? locals cannot escape
                del s.objs[o]
            s.objs['ret'] = rv
            sts.append(s)
        sts = self.merge_all(sts, None)
        for s in sts:
            rv = s.objs.pop('ret')
            outs.append((rv, s))
        return outs

    # ---------- CFG walking ----------
    def run_cfg(self, act, start, states, region, head):
        cfg = act.cfg
        pend = {start: list(states)}
        exits = []
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            sts = pend.pop(b)
            sts = self.prune(act, b, sts)
            sts = self.merge_all(sts, act)
            if b in cfg.loops and not (b == head and first):
                res = self.run_loop(act, b, sts)
            else:
                res = []
                for s in sts:
                    res.extend(self.exec_block(act, b, s))
            first = False
            for tgt, s in res:
                if tgt == 'ret':
                    exits.append((tgt, s))
                elif tgt == head and head is not None:
                    exits.append(('back', s))
                elif region is not None and tgt not in region:
                    exits.append((tgt, s))
                else:
                    pend.setdefault(tgt, []).append(s)
        return exits

    def prune(self, act, b, sts):
        live = act.cfg.live[b]
        fr = act.fr
        for s in sts:
            for o in [o for o in s.objs if o[0] == fr and o[1] not in live]:
                s.objs[o] = UNINIT
        return sts

    # ---------- merging ----------
    def gkey(self, st):
        g = st.g
        return tuple(sorted((k, v) for k, v in g.items() if k[0] == '!'))

    def merge_all(self, sts, act):
        if len(sts) <= 1:
            return sts
        if self.nomerge:
            if self.dedupe:
                sts = self.alike(sts)
            if len(sts) > self.MAXSTATES:
                raise Stuck('too many paths')
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(self.gkey(s), []).append(s)
        out = []
        for k, g in groups.items():
            out.extend(self.merge_group(g))
        return out

    def alike(self, sts):
        """Merge the states whose live objects are the same but for floating-point values (and, once there are many, counters)."""
        for loose in (0, 1, 2):
            groups = {}
            for s in sts:
                groups.setdefault(self.shape(s, loose), []).append(s)
            if len(groups) < len(sts):
                sts = []
                for g in groups.values():
                    m = g[0]
                    for s in g[1:]:
                        m = self.join(m, s)
                    sts.append(m)
            if len(sts) <= self.dedupe:
                break
        return sts

    def shape(self, st, loose):
        frames = {a.fr: a for a in self.stack}
        seen = {}
        todo = [o for o, v in st.objs.items() if v is not UNINIT and (o == 'ret' or o[0] in frames)]

        memo, names = self.shapes

        def walk(v):
            k = id(v)
            m = memo.get(k)
            if m is None:
                if v[0] == 'f':
                    m = (v, 0, ())
                else:
                    refs = (v[1],) if v[0] == 'r' and len(v) == 4 else ()
                    parts = []
                    for x in v:
                        if type(x) is tuple and x:
                            w = walk(x)
                            parts.append((w[1],))
                            refs += w[2]
                        else:
                            parts.append(x)
                    m = (v, names.setdefault(tuple(parts), len(names) + 1), refs)
                memo[k] = m
            return m
        if len(memo) > 2000000:
            memo.clear()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            v = st.objs.get(o)
            if v is None or v[0] == 'u':
                seen[o] = None
            elif loose and v[0] == 'n' and o != 'ret' and o[0] in frames and o[1] in counters(frames[o[0]].f['body']):
                seen[o] = 'n'
            elif loose > 1 and v[0] == 'q' and v[1] and all(x[0] == 'v' and x[1][0] == 'n' for x in v[1]):
                seen[o] = -len(v[1])
            else:
                m = walk(v)
                seen[o] = m[1]
                if m[2]:
                    todo.extend(m[2])
        return frozenset((o, v) for o, v in seen.items() if v is not None), self.gkey(st)

    def merge_group(self, g):
        changed = True
        while changed and len(g) > 1:
            changed = False
            # merge states with the deepest common path condition first
            best = None
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    c = lca(g[i].pc, g[j].pc)
                    sc = c.depth
                    if best is None or sc > best[0]:
                        if self.compatible(g[i], g[j]):
                            best = (sc, i, j)
            if best is not None:
                _, i, j = best
                m = self.join(g[i], g[j])
                g = [x for k, x in enumerate(g) if k not in (i, j)] + [m]
                changed = True
        while len(g) > self.MAXSTATES:
            m = self.join(g[-1], g[-2])
            g = g[:-2] + [m]
        return g

    def compatible(self, a, b):
        for o in a.objs:
            x = a.objs[o]; y = b.objs.get(o)
            if y is None or x is y:
                continue
            if not self.compat_val(x, y):
                return False
        for k, v in a.g.items():
            w = b.g.get(k)
            if w is not v and v != w and isinstance(v, tuple) and v and v[0] == 'log':
                return False
        return True

    def compat_val(self, x, y):
        if x is y:
            return True
        if x[0] != y[0]:
            if 'u' in (x[0], y[0]):
                return True
            return 't' in (x[0], y[0]) or 'o' in (x[0], y[0])
        k = x[0]
        if k == 'e':
            ax = tuple(a for a, _ in x[1]); ay = tuple(a for a, _ in y[1])
            if ax != ay:
                payload = any(fs for _, fs in x[1]) or any(fs for _, fs in y[1])
                if payload:
                    return False
                return True
            return all(self.compat_val(p, q) for (_, fx), (_, fy) in zip(x[1], y[1]) for p, q in zip(fx, fy))
        if k == 's':
            return len(x[1]) == len(y[1]) and all(self.compat_val(p, q) for p, q in zip(x[1], y[1]))
        if k == 'q':
            if len(x[1]) != len(y[1]):
                return False
            return all(p[0] == q[0] and (p[0] != 'v' or self.compat_val(p[1], q[1])) and (p[0] not in ('s', 'x') or p == q or p[0] == 'x' and not self.keepapart) for p, q in zip(x[1], y[1]))
        if k == 'r':
            if self.keepapart:
                return x == y
            return x[1] == y[1] and len(x[2]) == len(y[2])
        if k == 'm':
            return x[1] == y[1] and (x == y or self.m.compat(self, x, y))
        return True

    def join(self, a, b):
        c = lca(a.pc, b.pc)
        cond = None
        x = child_on_path(a.pc, c); y = child_on_path(b.pc, c)
        if x is not None and y is not None and x.alts is None and y.alts is None and T.norm_cond(T.neg(x.cond)) == T.norm_cond(y.cond):
            cond = x.cond
        ctx = JoinCtx(self, cond, a, b)
        s = State()
        whole = x is None or y is None or cond is not None and x is a.pc and y is b.pc
        s.pc = c if whole else PC(c, None, (a.pc, b.pc))
        s.rng = {}
        for k in a.rng:
            if k in b.rng:
                la, ha = a.rng[k]; lb, hb = b.rng[k]
                s.rng[k] = (None if la is None or lb is None else min(la, lb), None if ha is None or hb is None else max(ha, hb))
        fb = set(b.facts)
        s.facts = tuple(f for f in a.facts if f in fb or b.decide(f) is True)
        have = set(s.facts)
        s.facts += tuple(f for f in b.facts if f not in have and f not in a.facts and a.decide(f) is True)
        for o in a.objs:
            p = a.objs[o]
            q = b.objs.get(o)
            if q is None:
                s.objs[o] = p
            elif p is q or p == q:
                s.objs[o] = p
            else:
                s.objs[o] = self.join_val(p, q, ctx)
        for o in b.objs:
            if o not in a.objs:
                s.objs[o] = b.objs[o]
        for o, v in ctx.newobjs.items():
            s.objs[o] = v
        s.g = {}
        for k in set(a.g) | set(b.g):
            p, q = a.g.get(k), b.g.get(k)
            if p is q or p == q:
                s.g[k] = p
            elif k == '#n':
                s.g[k] = max(p or 0, q or 0)
            else:
                s.g[k] = self.join_ghost(k, p, q, ctx)
        # relations between joined cells
        ctx.finish(s)
        return s

    def join_ghost(self, k, p, q, ctx):
        if self.hooks and hasattr(self.hooks, 'join_ghost'):
            r = self.hooks.join_ghost(self, k, p, q, ctx)
            if r is not None:
                return r
        if p is None or q is None:
            return p if q is None else q
        if is_term(p) and is_term(q):
            return ctx.num(p, q, None)
        return p

    def join_val(self, p, q, ctx):
        if p is q or p == q:
            return p
        a, b = p[0], q[0]
        if a == 'u' or b == 'u':
            return UNINIT
        if a == 't' or b == 't':
            t = p if a == 't' else q
            return ('t', t[1], 'opaque' if 'opaque' in (p[2] if a == 't' else '', q[2] if b == 't' else '') else t[2])
        if a == 'o' or b == 'o':
            return ('o',)
        if a != b:
            if (a, b) in (('r', 's'), ('s', 'r')):
                return ('o',)
            return ('o',)
        if a == 'n':
            return ('n', ctx.num(p[1], q[1], p[2]), p[2])
        if a == 's':
            if len(p[1]) != len(q[1]):
                return ('o',)
            return ('s', tuple(self.join_val(x, y, ctx) for x, y in zip(p[1], q[1])))
        if a == 'e':
            return self.join_enum(p, q, ctx)
        if a == 'q':
            return self.join_seq(p, q, ctx)
        if a == 'r':
            return self.join_ref(p, q, ctx)
        if a == 'f':
            return ('f', self.m.fjoin(self, p[1], q[1], ctx), p[2])
        if a == 'm':
            r = self.m.join(self, p, q, ctx)
            return r if r is not None else ('o',)
        return ('o',)

    def join_enum(self, p, q, ctx):
        pa = dict(p[1]); qa = dict(q[1])
        alts = []
        for v in sorted(set(pa) | set(qa)):
            if v in pa and v in qa:
                alts.append((v, tuple(self.join_val(x, y, ctx) for x, y in zip(pa[v], qa[v]))))
            else:
                alts.append((v, pa.get(v, qa.get(v))))
        if len(alts) == 1:
            return ('e', tuple(alts), None)
        dp = p[2] if p[2] is not None else const(self.vd(p, p[1][0][0]))
        dq = q[2] if q[2] is not None else const(self.vd(q, q[1][0][0]))
        return ('e', tuple(alts), ctx.num(dp, dq, None))

    def vd(self, v, variant):
        return variant

    def join_seq(self, p, q, ctx):
        if len(p[1]) == len(q[1]) and all(x[0] == y[0] and x[0] in ('v', 'n') for x, y in zip(p[1], q[1])):
            out = []
            for x, y in zip(p[1], q[1]):
                if x[0] == 'v':
                    out.append(('v', self.join_val(x[1], y[1], ctx)))
                else:
                    out.append(('n', ctx.num(x[1], y[1], 'usize'), self.join_val(x[2], y[2], ctx)))
            return ('q', tuple(out))
        strs = any(s[0] in ('s', 'x') for s in p[1] + q[1])
        n = ctx.num(self.seq_len(p), self.seq_len(q), 'usize')
        if strs:
            return ('q', (('x', ('join', p[1], q[1]), n),))
        ep = self.seq_summary(ctx.a, p); eq = self.seq_summary(ctx.b, q)
        if ep is None:
            el = eq
        elif eq is None:
            el = ep
        else:
            el = self.join_val(ep, eq, ctx)
        if el is None:
            return ('q', ())
        return ('q', (('n', n, el),))

    def join_ref(self, p, q, ctx):
        if p[1] == q[1] and len(p[2]) == len(q[2]):
            path = []
            ok = True
            for x, y in zip(p[2], q[2]):
                if x == y:
                    path.append(x)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'i' and y[0] == 'i':
                    path.append(('i', ctx.num(x[1], y[1], 'usize')))
                else:
                    ok = False
                    break
            if ok:
                mp, mq = p[3], q[3]
                if mp != mq:
                    if mp and mq and mp[0] == 'w' and mq[0] == 'w':
                        mp = ('w', ctx.num(mp[1], mq[1], 'usize'), ctx.num(mp[2], mq[2], 'usize'))
                    else:
                        mp = None
                return ('r', p[1], tuple(path), mp)
        key = (p, q)
        if key in ctx.refs:
            return ctx.refs[key]
        self.note('join of different pointers')
        try:
            vp = self.load(ctx.a, p[1], p[2]); vq = self.load(ctx.b, q[1], q[2])
        except Stuck:
            return ('o',)
        oid = ('j', self.next_id())
        mp, mq = p[3], q[3]
        if mp is not None and mq is not None and mp[0] == 'w' and mq[0] == 'w':
            meta = mp if mp == mq else ('w', ctx.num(mp[1], mq[1], 'usize'), ctx.num(mp[2], mq[2], 'usize'))
        else:
            meta = mp if mp == mq else None
        r = ('r', oid, (), meta)
        ctx.refs[key] = r
        ctx.newobjs[oid] = UNINIT
        if len(ctx.refs) > 40:
            ctx.newobjs[oid] = ('o',)
        else:
            ctx.newobjs[oid] = self.join_val(vp, vq, ctx)
        return r

    def next_id(self):
        self.merge_id += 1
        return self.merge_id

    # ---------- loops ----------
    def run_loop(self, act, h, sts):
        cfg = act.cfg
        body = cfg.loops[h]
        out = []
        pending = []
        for s in sts:
            r = self.try_unroll(act, h, body, s.copy())
            if r is not None:
                out.extend(r)
            else:
                pending.append(s)
        if not pending:
            return out
        if self.bounded:
            return out + self.bounded_loop(act, h, body, pending)
        groups = {}
        for s in pending:
            k = self.gkey(s)
            groups[k] = self.join(groups[k], s) if k in groups else s
        out.extend(self.fixpoint(act, h, body, groups))
        return out

    def try_unroll(self, act, h, body, st):
        mark = len(self.collector)
        save_steps = self.steps
        exits = []
        cur = [st]
        prev = None
        for it in range(self.UNROLL):
            self.taken = {}
            backs = []
            try:
                for s in cur:
                    for tgt, x in self.run_cfg(act, h, [s], body, h):
                        if tgt == 'back':
                            backs.append(x)
                        else:
                            exits.append((tgt, x))
            except Budget:
                raise
            if not backs:
                return self.group_exits(exits, act)
            backs = self.merge_all(self.prune(act, h, backs), act)
            if len(backs) > 4:
                break
            # an exit test of this loop that every path passed in the same direction
            dec = any(fr == act.fr and b in body and tg <= body and any(x not in body and x in act.cfg.returns for x in act.cfg.succ[b])
                      for (fr, b), tg in self.taken.items())
            if not dec and it >= 0:
                break
            if prev is not None and not self.progress(prev, backs[0]):
                break
            prev = backs[0].copy()
            cur = backs
        self.first.extend(e for e in self.collector[mark:] if e[0] == 'panic')
        del self.collector[mark:]
        return None

    def bounded_loop(self, act, h, body, sts):
        exits = []
        seen = {}
        cur = sts
        for it in range(self.bounded + 1):
            backs = []
            for s in cur:
                for tgt, x in self.run_cfg(act, h, [s], body, h):
                    if tgt == 'back':
                        backs.append(x)
                    else:
                        exits.append((tgt, x))
            if not backs:
                break
            cur = self.merge_all(self.prune(act, h, backs), act)
            if self.dedupe:
                cur = self.unseen(seen, cur)
                if not cur:
                    break
        else:
            self.note('loop left')
            if DEBUG:
                print('left', act.f['path'], h, len(cur), [self.shape(x, 1) for x in cur][:1])
        return self.group_exits(exits, act)

    def unseen(self, seen, sts):
        """States a loop head has not seen yet, each widened by what it has seen."""
        out = []
        for s in sts:
            k = self.shape(s, 1)
            old = seen.get(k)
            if old is not None:
                if self.covers(old, s):
                    continue
                m = self.join(old, s)
                for a in self.stack:
                    for i in counters(a.f['body']):
                        v, w = m.objs.get((a.fr, i)), old.objs.get((a.fr, i))
                        if v and w and v[0] == 'n' and v != w:
                            m.objs[(a.fr, i)] = self.fresh_num('n', v[2])
                s = m
            seen[k] = s
            out.append(s)
        return out

    def covers(self, old, s):
        def walk(p, q):
            if p == q:
                return True
            if p and p[0] == 'f' and q and q[0] == 'f':
                return p[1][0] == 'sym'
            if p and p[0] == 'n' and q and q[0] == 'n':
                lo, hi = RANGES[p[2]]
                return len(p[1][1]) == 1 and p[1][1][0][1] == 1 and p[1][0] == 0 and old.iv(p[1]) == (lo, hi)
            return type(p) is tuple and type(q) is tuple and len(p) == len(q) and all(walk(x, y) if type(x) is tuple and type(y) is tuple else x == y for x, y in zip(p, q))
        for o in {o for o, _ in self.shape(old, 1)[0]}:
            v, w = old.objs[o], s.objs.get(o)
            if v is not w and v != w and v[0] != 'u' and (w is None or not walk(v, w)):
                return False
        return all(s.decide(c) is True for c in old.pc.conds()) and all(s.decide(c) is True for c in old.facts)


    def group_exits(self, exits, act):
        by = {}
        for t, s in exits:
            by.setdefault(t, []).append(s)
        out = []
        for t, ss in by.items():
            for s in self.merge_all(ss, act):
                out.append((t, s))
        return out

    def progress(self, a, b):
        """Some constant differs between consecutive iterations."""
        def walk(x, y):
            if x is y:
                return False
            if x[0] != y[0]:
                return True
            if x[0] == 'n':
                return x[1] != y[1] and is_const(x[1]) and is_const(y[1])
            if x[0] == 's':
                return any(walk(p, q) for p, q in zip(x[1], y[1]))
            if x[0] == 'e':
                return tuple(a for a, _ in x[1]) != tuple(a for a, _ in y[1]) or any(walk(p, q) for (_, f), (_, g) in zip(x[1], y[1]) for p, q in zip(f, g))
            if x[0] == 'q':
                return len(x[1]) != len(y[1]) or any(walk(p[1], q[1]) for p, q in zip(x[1], y[1]) if p[0] == 'v' and q[0] == 'v')
            if x[0] == 'r':
                return x != y
            if x[0] == 'm':
                return x != y
            return False
        for o in a.objs:
            if o in b.objs and walk(a.objs[o], b.objs[o]):
                return True
        return False

    def peel_loop(self, act, h, body, groups):
        """Look at the first iterations exactly, only to see which panic sites they reach."""
        mark = len(self.collector)
        sts = [s.copy() for s in groups.values()]
        save = self.peel
        try:
            for it in range(save):
                self.peel = 0 if it == 0 else save - 1
                nxt = []
                for s in sts:
                    for tgt, x in self.run_cfg(act, h, [s.copy()], body, h):
                        if tgt == 'back':
                            nxt.append(x)
                sts = self.merge_all(self.prune(act, h, nxt), act)[:4]
                if not sts:
                    break
        except Stuck:
            pass
        finally:
            self.peel = save
            self.first.extend(e for e in self.collector[mark:] if e[0] == 'panic')
            del self.collector[mark:]

    def fixpoint(self, act, h, body, groups):
        """groups: ghost key -> entry state. Returns exits of the stable iteration."""
        from widen import Widener
        if self.peel and self.steps > self.peel_floor:
            self.peel_loop(act, h, body, groups)
        w = Widener(self, act, h, groups)
        mark = len(self.collector)
        for rnd in range(14):
            if rnd == 1:
                self.first.extend(e for e in self.collector[mark:] if e[0] == 'panic')
            del self.collector[mark:]
            exits = []
            backs = []
            stable = True
            w.start_round()
            for key in list(w.heads):
                st = w.head_state(key)
                for tgt, x in self.run_cfg(act, h, [st], body, h):
                    if tgt == 'back':
                        backs.append((key, x))
                    else:
                        exits.append((tgt, x))
            self.prune(act, h, [x for _, x in backs])
            stable = w.absorb(backs)
            if DEBUG:
                print('loop', act.f['path'], 'bb%d' % h, 'round', rnd, 'backs', len(backs), 'stable', stable, w.why[:6])
            if stable:
                return self.group_exits(exits, act)
        self.note('loop did not stabilise in ' + act.f['path'])
        raise Stuck('loop did not stabilise in ' + act.f['path'])


def cfg_succ(cfg, b):
    return cfg.succ[b]


def is_term(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple)


def lca(a, b):
    while a is not b:
        if a.depth >= b.depth and a.up is not None and a.depth > 0 and a.depth >= b.depth:
            if a.depth == b.depth:
                if a is b:
                    return a
                a = a.up; b = b.up
            else:
                a = a.up
        else:
            b = b.up
    return a


def child_on_path(p, anc):
    if p is anc:
        return None
    while p.up is not anc:
        p = p.up
    return p


class JoinCtx:
    def __init__(self, ip, cond, a, b):
        self.ip = ip; self.cond = cond; self.a = a; self.b = b
        self.cache = {}
        self.refs = {}
        self.newobjs = {}
        self.pairs = []
        self.ites = {}

    def num(self, x, y, tn):
        if x == y:
            return x
        if self.cond is not None:
            r = T.ite(self.cond, x, y)
            if r[1] and r not in self.ites:
                self.ites[r] = (x, y)
            return r
        k = (x, y)
        r = self.cache.get(k)
        if r is None:
            # x - y constant with an earlier pair: share the symbol
            for (p, q), z in self.cache.items():
                dx = sub(x, p); dy = sub(y, q)
                if dx == dy:
                    r = add(z, dx)
                    self.cache[k] = r
                    return r
            la, ha = interval(x, self.a.rng); lb, hb = interval(y, self.b.rng)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            s = T.fresh('phi', lo, hi, 'x', 'phi', (x, y))
            SYMS[s[1][0][0]].prov = T.prov(x) | T.prov(y)
            r = s
            self.cache[k] = r
            self.pairs.append((x, y, r))
        return r

    def finish(self, s):
        # keep bounds that each arm had on its own side
        for r, (x, y) in self.ites.items():
            la, ha = interval(x, self.a.rng); lb, hb = interval(y, self.b.rng)
            lo, hi = interval(r, s.rng)
            if la is not None and lb is not None and (lo is None or min(la, lb) > lo):
                s.facts += (('ge', addc(r, -min(la, lb))),)
            if ha is not None and hb is not None and (hi is None or max(ha, hb) < hi):
                s.facts += (('ge', addc(T.scale(r, -1), max(ha, hb))),)
        # keep facts that held for the individual values
        if not self.pairs:
            return
        extra = []
        for x, y, r in self.pairs:
            for f in self.a.facts:
                # facts about x alone, re-expressed on r if the analogue holds for y
                if f[0] in ('ge', 'ne') and x[1] and len(x[1]) == 1 and x[1][0][1] == 1:
                    sid = x[1][0][0]
                    if any(q == sid for q, _ in f[1][1]):
                        fx = T.subst(f[1], {sid: addc(r, -x[0])})
                        fy = T.subst(f[1], {sid: addc(y, -x[0])})
                        if self.b.decide((f[0], fy)) is True:
                            extra.append((f[0], fx))
        for f in extra:
            if f not in s.facts:
                s.facts += (f,)
