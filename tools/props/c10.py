"""C10: look-back symbols always fit their wire format and can be replayed."""
import re
import ana, drive, panics
import absint, models as M, terms as T, teval
from absint import Interp, State, Stuck, Budget, UNIT
from models import NONE, some
from run import Hooks

RULE = ('The history type (a program struct with a large byte array) is treated as an abstract data type: the closed form of its write operation gives the reachable values of its counters and the slot each stream position is stored in. '
        'The search of the encoder is followed for an arbitrary index entry and history state, the decoder for an arbitrary (length, distance): every distance the search reports must lie within the history, and the slots the decoder copies for it must be those the search compared; '
        'every emitted length must be one the packed header carries and gives back (composition of serialize and deserialize); both sides must keep exactly what is emitted.')


class Table:
    """The symbols of one run, put back while its terms are evaluated."""

    def keep(self):
        self.table = list(T.SYMS)

    def __enter__(self):
        self.saved = list(T.SYMS)
        T.SYMS[:] = self.table

    def __exit__(self, *a):
        T.SYMS[:] = self.saved


def rings(P):
    """[(type id, field index of the array, length)]"""
    out = []
    for i, t in enumerate(P.types):
        if t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct':
            for j, f in enumerate(t['v'][0]['f']):
                a = P.types[f[1]]
                if a['k'] == 'array' and a['n'] >= 1024 and P.types[a['e']]['k'] == 'uint':
                    out.append((i, j, a['n']))
    return out


def holds(P, ty, R, d=0):
    """ty contains R by value."""
    if ty == R:
        return True
    t = P.types[ty]
    if d < 5 and t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct':
        return any(holds(P, f[1], R, d + 1) for f in t['v'][0]['f'])
    return False


class Ring:
    def __init__(self, P, ty, arr, n):
        self.P, self.ty, self.arr, self.n = P, ty, arr, n
        self.fields = P.types[ty]['v'][0]['f']
        self.nums = [j for j, f in enumerate(self.fields) if P.types[f[1]]['k'] == 'uint']

    def value(self, ip, st):
        syms, out = {}, []
        for j, f in enumerate(self.fields):
            if j in self.nums:
                s = T.fresh('ring.' + f[0], 0, (1 << 63) - 1, 'ring')
                syms[j] = s
                out.append(('n', s, ip.p.types[f[1]]['n'] if 'n' in ip.p.types[f[1]] else 'usize'))
            else:
                out.append(ip.expand(('t', f[1], 'ringdata'), st))
        return ('s', tuple(out)), syms

    def embed(self, ip, st, ty, tag='enc'):
        """A value of ty that contains the ring, symbolic otherwise; path of the ring in it."""
        if ty == self.ty:
            v, syms = self.value(ip, st)
            return v, (), syms
        t = self.P.types[ty]
        out, at, sy = [], None, None
        for j, f in enumerate(t['v'][0]['f']):
            if at is None and holds(self.P, f[1], self.ty):
                v, p, sy = self.embed(ip, st, f[1], tag)
                at = (j,) + p
                out.append(v)
            else:
                out.append(self.opaque(ip, st, f[1], tag))
        return ('s', tuple(out)), at, sy

    def opaque(self, ip, st, ty, tag):
        t = self.P.types[ty]
        if t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct':
            return ('s', tuple(self.opaque(ip, st, f[1], tag) for f in t['v'][0]['f']))
        if t.get('box'):
            return ('r', ip.new_obj(st, ip.expand(('t', t['args'][0], tag), st), 'box'), (), None)
        return ('t', ty, tag)


class Hist(Interp):
    """The bytes of the history are terms slot(i) of their place; stores are kept as a log."""
    watch = None        # (object, path of the array)

    def at(self, oid, path):
        w = self.watch
        if w and w[0] == oid and len(path) == len(w[1]) + 1 and path[:-1] == w[1] and isinstance(path[-1], tuple) and path[-1][0] != 'd':
            return path[-1][1]
        return None

    def load(self, st, oid, path):
        i = self.at(oid, path)
        if i is None or not absint.is_term(i):
            return Interp.load(self, st, oid, path)
        v = T.op('slot', [i], 0, 255)
        for j, x in st.g.get('!st', ()):
            v = T.ite(('eq', T.sub(i, j)), x, v)
        return ('n', v, 'u8')

    def store(self, st, oid, path, val):
        i = self.at(oid, path)
        if i is None or not absint.is_term(i):
            return Interp.store(self, st, oid, path, val)
        if val[0] == 't':
            val = self.expand(val, st)
        if val[0] != 'n':
            raise Stuck('byte of another form stored in the history')
        st.g['!st'] = st.g.get('!st', ()) + ((i, val[1]),)


def writes(P, ring):
    out = []
    for i, f in enumerate(P.fns):
        b = f['body']
        if f['crate'] != 'cniic' or b is None or b['nargs'] != 2 or '__vp' in f['path']:
            continue
        L = b['locals']
        if P.types[L[1]]['k'] in ('ref', 'ptr') and P.pointee(L[1]) == ring.ty and L[2] == P.types[ring.fields[ring.arr][1]]['e']:
            out.append(i)
    return out


def inits(P, ring):
    return [i for i, f in enumerate(P.fns) if f['crate'] == 'cniic' and f['body'] and f['body']['nargs'] == 0 and f['body']['locals'][0] == ring.ty]


class Step(Table):
    """The write operation in closed form: counters and slot."""

    def __init__(self, P, ring, fid):
        T.reset()
        ip = Hist(P, Hooks(), steps=20000)
        ip.hooks.ip = ip
        ip.nomerge = True
        st = State()
        v, syms = ring.value(ip, st)
        o = ip.new_obj(st, v, 'ring')
        ip.watch = (o, (ring.arr,))
        outs = ip.exec_fn(fid, [('r', o, (), None), ip.fresh_num('x', 'u8')], st)
        self.ring = ring
        self.syms = {j: s[1][0][0] for j, s in syms.items()}
        self.cases = []
        for _, s in outs:
            w = ip.load(s, o, ())
            self.cases.append((s.pc.conds(), {j: w[1][j][1] for j in ring.nums}, [x[0] for x in s.g.get('!st', ())]))
        self.panics = [(e[3], e[5].pc.conds()) for e in panics.events(ip)]
        self.fns = [P.fns[x]['path'] for x in ip.analysed]
        self.keep()

    def ev(self, cnt):
        e = teval.Ev()
        for j, s in self.syms.items():
            e.v[s] = cnt[j]
        return e

    def next(self, cnt):
        """(counters, slot) after a write, or ('panic', cond)."""
        e = self.ev(cnt)
        for cond, pcs in self.panics:
            if all(e.cond(c) for c in pcs) and (cond is None or not e.cond(cond)):
                return 'panic', cond
        for pcs, new, slots in self.cases:
            if all(e.cond(c) for c in pcs):
                if len(slots) != 1:
                    raise teval.Unknown('write stores %d elements' % len(slots))
                return {j: e.term(t) for j, t in new.items()}, e.term(slots[0])
        raise teval.Unknown('no case of write applies')

    def orbit(self, cnt, upto, want):
        """States after n writes, for n in want: {n: (counters, slot of position)}; or (n, why) of a failing write."""
        pos, out = {}, {}
        slots = []
        for n in range(upto + 1):
            if n in want:
                out[n] = (dict(cnt), dict(pos))
            r = self.next(cnt)
            if r[0] == 'panic':
                return out, (n, r[1])
            cnt, s = r
            pos[s] = n
        return out, None


# ---- symbols

def flat(P, ty, d=0):
    """Number fields of a struct, in order: [(name, path)]; None if it has others."""
    t = P.types[ty]
    if t['k'] == 'uint':
        return [('', ())]
    if d < 3 and t['k'] == 'adt' and t['ak'] == 'struct' and t.get('crate') == 'cniic':
        out = []
        for j, f in enumerate(t['v'][0]['f']):
            x = flat(P, f[1], d + 1)
            if x is None:
                return None
            out += [((f[0] if not nm else nm), (j,) + p) for nm, p in x]
        return out
    return None


class Sym:
    """The symbol enum: variant of bytes, variant of (length, distance)."""

    def __init__(self, P, ty):
        self.P, self.ty = P, ty
        self.ex = self.lb = None
        for a, v in enumerate(P.types[ty]['v']):
            if len(v['f']) == 1 and P.seq_elem(v['f'][0][1]) is not None:
                self.ex = a
                continue
            nums = []
            for j, f in enumerate(v['f']):
                x = flat(P, f[1])
                if x is None:
                    nums = None
                    break
                nums += [((f[0] if not nm else nm), (j,) + p) for nm, p in x]
            if nums and len(nums) == 2:
                self.lb = a
                self.nums = nums
        self.good = False
        if self.ex is not None and self.lb is not None:
            ln = [i for i, (nm, _) in enumerate(self.nums) if 'len' in nm.lower()]
            if len(ln) == 1:
                self.li, self.bi = ln[0], 1 - ln[0]
                self.good = True
            self.inner = None
            fs = P.types[ty]['v'][self.lb]['f']
            if len(fs) == 1 and P.types[fs[0][1]]['k'] == 'adt':
                self.inner = fs[0][1]

    def struct(self, ty, vals):
        t = self.P.types[ty]
        if t['k'] == 'uint':
            return vals.pop(0)
        return ('s', tuple(self.struct(f[1], vals) for f in t['v'][0]['f']))

    def look(self, ln, back):
        v = [None, None]
        v[self.li], v[self.bi] = ('n', ln, 'usize'), ('n', back, 'usize')
        return ('e', ((self.lb, tuple(self.struct(f[1], v) for f in self.P.types[self.ty]['v'][self.lb]['f'])),), None)

    def explicit(self, q):
        return ('e', ((self.ex, (q,)),), None)

    def split(self, v, inner=False):
        """(length term, distance term) of a look-back payload."""
        ls = []

        def go(x):
            if x[0] == 'n':
                ls.append(x[1])
            elif x[0] == 's':
                for y in x[1]:
                    go(y)
            else:
                ls.append(None)
        for x in (v if isinstance(v, tuple) and v and isinstance(v[0], tuple) else (v,)):
            go(x)
        if len(ls) != 2 or None in ls:
            return None
        return ls[self.li], ls[self.bi]


def symbol_types(P):
    out = []
    for i, t in enumerate(P.types):
        if t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'enum' and len(t['v']) >= 2:
            s = Sym(P, i)
            if s.good:
                out.append(s)
    return out


def option_of(P, ty):
    t = P.types[ty]
    return t['args'][0] if t['k'] == 'adt' and t['name'].endswith('option::Option') else None


def takes(P, f, ty):
    L = f['body']['locals']
    return any(P.types[L[j]]['k'] in ('ref', 'ptr') and holds(P, P.pointee(L[j]), ty) for j in range(1, f['body']['nargs'] + 1))


def searches(P, ring, sym):
    """Functions of the encoder giving an optional look-back: [fid]."""
    return [i for i, f in enumerate(P.fns) if f['crate'] == 'cniic' and f['body'] and '__vp' not in f['path'] and sym.inner is not None
            and option_of(P, f['body']['locals'][0]) == sym.inner and takes(P, f, ring.ty)]


# ---- evaluation with a history of n bytes

BASE = 1 << 20


class Val(teval.Ev):
    """Counters of the history at one moment; slot(i) stands for the stream position stored there."""

    def __init__(self, ring_syms, cnt, pos):
        teval.Ev.__init__(self)
        self.pos = pos
        for j, s in ring_syms.items():
            self.v[s] = cnt[j]

    def calc(self, s):
        if s.kind == 'op' and s.data[0] == 'slot':
            i = self.term(s.data[1])
            if i not in self.pos:
                return BASE - 1 - i
            return BASE + self.pos[i]
        if s.kind == 'free':
            raise teval.Unknown(s.name)
        return teval.Ev.calc(self, s)


def slot_syms(t, out=None):
    out = [] if out is None else out
    for s in T.all_syms(t):
        y = T.SYMS[s]
        if y.kind == 'op' and y.data[0] == 'slot' and s not in out:
            out.append(s)
    return out


class Look(Hooks):
    """One arbitrary entry of the index; inner searches and updates replaced when asked."""
    entry = None
    cut = ()
    sym = None
    P = None

    def map_get(self, ip, st, r, q, k, dty):
        key = '!map%r' % (r,)
        got = st.g.get('!maps', ())
        for kk, o in got:
            if kk == key:
                return [(some(('r', o, (), None)), st)] if o is not None else [(NONE, st)]
        s1 = st.copy()
        outs = []
        if not any(o is not None for _, o in got):
            o = ip.new_obj(s1, ('q', (('v', ('n', self.entry, 'usize')),)), 'entries')
            s1.g['!maps'] = got + ((key, o),)
            outs.append((some(('r', o, (), None)), s1))
        s2 = st.copy()
        s2.g['!maps'] = got + ((key, None),)
        outs.append((NONE, s2))
        return outs

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        if fid in self.cut:
            return self.cut[fid](ip, st, args, dty)
        return None


def machine(P, ring, fid, hooks, steps=60000, bounded=2, states=3000, length=8):
    """(interp, outcomes, ring symbols, entry): one function of the encoder on an arbitrary history."""
    ip = Hist(P, hooks, steps=steps)
    hooks.ip, hooks.P = ip, P
    ip.nomerge = True
    ip.keepapart = True
    ip.bounded = bounded
    ip.MAXSTATES = states
    st = State()
    hooks.entry = T.fresh('entry', 0, (1 << 62), 'entry')
    f = P.fns[fid]
    args, syms, watch = [], None, None
    for j in range(f['body']['nargs']):
        ty = f['body']['locals'][j + 1]
        if P.types[ty]['k'] in ('ref', 'ptr') and holds(P, P.pointee(ty), ring.ty) and syms is None:
            v, at, syms = ring.embed(ip, st, P.pointee(ty))
            o = ip.new_obj(st, v, 'self')
            watch = (o, at + (ring.arr,))
            args.append(('r', o, (), None))
        else:
            args.append(('t', ty, 'arg%d' % j))
    ip.watch = watch
    outs = ip.exec_fn(fid, args, st)
    return ip, outs, {j: s[1][0][0] for j, s in syms.items()}, hooks.entry, watch


# ---- the search of the encoder

def generic(P, fid):
    return P.fns[fid]['path']


def split_conds(conds):
    """(conditions on counters and entry, [(slot index term, byte symbol, equal?)], others)"""
    plain, cmp_, other = [], [], []
    for c in conds:
        if not slot_syms(c[1]):
            plain.append(c)
            continue
        c2 = c
        t = c[1]
        if len(t[1]) == 1 and c[0] in ('eq', 'ne'):
            y = T.SYMS[t[1][0][0]]
            if y.kind == 'op' and y.data[0].startswith('cond:'):
                one = (c[0] == 'eq') == (t[0] * t[1][0][1] == -1)
                k = y.data[0][5:]
                c2 = (k, y.data[1]) if one else T.neg((k, y.data[1]))
        t = c2[1]
        ss = [(s, k) for s, k in t[1] if T.SYMS[s].kind == 'op' and T.SYMS[s].data[0] == 'slot']
        bs = [(s, k) for s, k in t[1] if T.SYMS[s].kind == 'free']
        if c2[0] in ('eq', 'ne') and len(ss) == 1 and len(bs) == 1 and len(t[1]) == 2 and t[0] == 0 and ss[0][1] == -bs[0][1]:
            cmp_.append((T.SYMS[ss[0][0]].data[1], bs[0][0], c2[0] == 'eq'))
        else:
            other.append(c2)
    return plain, cmp_, other


def holds_all(e, conds):
    """Conditions that can be evaluated all hold; the others are about the arbitrary input."""
    for c in conds:
        try:
            if not e.cond(c):
                return False
        except teval.Unknown:
            pass
    return True


def moments(N, orbit):
    """[(n, p)]: bytes written and index entries that can be there."""
    out = []
    for n in sorted(orbit):
        lo = max(0, n - N)
        ps = {lo, lo + 1, lo + 2, (lo + n) // 2, n - 6, n - 7} | {q + d for q in (N, 2 * N) for d in (-2, -1, 0, 1)}
        out += [(n, p) for p in sorted(ps) if lo <= p <= n - 6]
        if n == 2 * N:
            out += [(n, N - 1), (n, N - 2)]
    return out


class Found:
    """What the search reports: rows (n, p, len, back, slots compared)."""

    def __init__(self):
        self.rows, self.stale, self.seen = [], [], 0


def search_part(P, r, ring, sym, orbit, fid, purge):
    name = generic(P, fid)
    T.reset()
    try:
        ip, outs, syms, entry, w = machine(P, ring, fid, Look())
    except (Stuck, Budget) as e:
        r.undecide('%s: %s' % (name, e if isinstance(e, Stuck) else 'step budget exhausted'))
        return None
    r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
    N = ring.n
    es = entry[1][0][0]
    found = Found()
    cases = []
    for v, s in outs:
        if v[0] != 'e':
            r.undecide('%s returns an unrecognised value' % name)
            return None
        pl, cm, ot = split_conds(s.pc.conds())
        for a, fs in v[1]:
            lb = sym.split(fs) if a == 1 else None
            if a == 1 and lb is None:
                r.undecide('%s: form of the look-back not recognised' % name)
                return None
            cases.append((pl, cm, ot, lb, s))
    evs = [(kind, site, cond, split_conds(s.pc.conds())[0]) for _, kind, site, cond, dec, s, stack in panics.events(ip)]
    for n, p in moments(N, orbit):
        stale = p < n - N
        if stale and purge:
            continue
        cnt, pos = orbit[n]

        def ev():
            e = Val(syms, cnt, pos)
            e.v[es] = p
            return e
        for kind, site, cond, pcs in evs:
            e = ev()
            try:
                bad = cond is not None and not e.cond(cond)
            except teval.Unknown:
                continue
            if bad and all(c_known(e, c) for c in pcs):
                r.violation('the search can abort', '%s: %s in %s when %d bytes have been compressed and the index has an entry for position %d (needs %s)' % (name, kind, site[0], n, p, T.show_cond(cond)[:160]))
                return None
        for pl, cm, ot, lb, s in cases:
            if lb is None:
                continue
            e = ev()
            if ot:
                found.seen = -1
                continue
            if not holds_all(e, pl):
                continue
            try:
                ln, back = e.term(lb[0]), e.term(lb[1])
                sl = [(e.term(i), eq) for i, b, eq in cm]
            except teval.Unknown:
                found.seen = -1
                continue
            if ln <= 0:
                continue
            found.rows.append((n, p, ln, back, [i for i, q in sl if q]))
    return found


def c_known(e, c):
    try:
        return e.cond(c)
    except teval.Unknown:
        return False


def judge_rows(r, ring, name, found, copied):
    """Every reported look-back is in range and what is copied for it is what was compared."""
    N = ring.n
    for n, p, ln, back, slots in found.rows:
        have = min(n, N)
        where = '%s: with %d bytes compressed and an index entry for position %d' % (name, n, p)
        if not 1 <= back <= have:
            r.violation('a copy distance outside the history', '%s it reports the distance %d, the history holds %d bytes' % (where, back, have))
            return False
        if len(slots) < ln:
            r.undecide('%s: %d comparisons for a repetition of %d bytes' % (name, len(slots), ln))
            return False
        c = copied(n, ln, back)
        if c is None:
            continue
        if c != slots[:ln] and sorted(c) != sorted(slots[:ln]):
            r.violation('the copy differs from what was found', '%s it compares the input with elements %s of the history, for the distance %d the decoder copies elements %s' % (where, slots[:ln], back, c))
            return False
    return True


# ---- wire format

class Wire(Table):
    """accepts(len, back) of serialize + deserialize, in closed form."""

    def __init__(self, P, r, sym, steps=60000):
        import props.c04 as c04
        self.ok = False
        ps, _ = c04.pairs(P)
        ps = [x for x in ps if x[2] == sym.ty]
        if len(ps) != 1:
            r.undecide('serialize and deserialize of %s not found' % P.tyname(sym.ty))
            return
        name, sf, sty, df, dty = ps[0]
        self.name = name
        T.reset()
        hooks = c04.H()
        ip = Interp(P, hooks, steps=steps)
        hooks.ip = ip
        ip.nomerge = True
        st = State()
        st.g['log'] = ()
        self.L = T.fresh('len', 0, 1 << 40, 'val')
        self.B = T.fresh('back', 0, 1 << 40, 'val')
        try:
            v = sym.look(self.L, self.B)
            outs = ip.exec_fn(sf, [('r', ip.new_obj(st, v, 'val'), (), None), ip.new_ref(P.pointee(P.fns[sf]['body']['locals'][2]), 'sink', st)], st)
            self.panics = [(e[3], e[5].pc.conds()) for e in panics.events(ip)]
            self.cases = []
            for rv, s in outs:
                good = any(a[0] == 0 for a in rv[1])
                if not good:
                    self.cases.append((s.pc.conds(), None, None))
                    continue
                rd = ip.new_ref(P.pointee(P.fns[df]['body']['locals'][1]), 'rd', s)
                for w, s2 in ip.exec_fn(df, [rd], s.copy()):
                    n = len(s2.g.get('log', ())) - s2.g.get('!pos', 0)
                    for a, fs in w[1]:
                        s3 = s2.assume(ip.vdiscr(w, a)) if len(w[1]) > 1 else s2
                        if s3 is None:
                            continue
                        pay = None
                        if a == 1:
                            x = fs[0]
                            if x[0] == 'e' and len(x[1]) == 1:
                                pay = (x[1][0][0], sym.split(x[1][0][1]) if x[1][0][0] == sym.lb else None)
                            else:
                                pay = '?'
                        self.cases.append((s3.pc.conds(), pay, n if not s2.g.get('!extra') else -1))
        except (Stuck, Budget) as e:
            r.undecide('%s: %s' % (name, e if isinstance(e, Stuck) else 'step budget exhausted'))
            return
        r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
        self.sym = sym
        self.keep()
        self.ok = True

    def ask(self, ln, back):
        with self:
            return self.ask_(ln, back)

    def ask_(self, ln, back):
        """'ok', 'abort', 'fail' (reported), ('other', what comes back), or None (not known)."""
        e = teval.Ev()
        e.v[self.L[1][0][0]], e.v[self.B[1][0][0]] = ln, back
        try:
            for cond, pcs in self.panics:
                if all(e.cond(c) for c in pcs) and (cond is None or not e.cond(cond)):
                    return 'abort'
            for pcs, pay, left in self.cases:
                if all(e.cond(c) for c in pcs):
                    if left is None:
                        return 'fail'
                    if pay is None:
                        return 'other', 'nothing'
                    if pay == '?':
                        return None
                    if pay[0] != self.sym.lb:
                        return 'other', 'another kind of symbol'
                    a, b = e.term(pay[1][0]), e.term(pay[1][1])
                    if (a, b) != (ln, back):
                        return 'other', 'length %d, distance %d' % (a, b)
                    return 'ok' if left == 0 else ('other', 'it with %d bytes left over' % left)
        except (teval.Unknown, TypeError):
            return None
        return None


def longest(wire, back=1):
    """The longest length the header carries and gives back."""
    lo, hi = 0, 1 << 20
    if wire.ask(1, back) != 'ok':
        return 0
    while lo + 1 < hi:
        m = (lo + hi) // 2
        if wire.ask(m, back) == 'ok':
            lo = m
        else:
            hi = m
    return lo


# ---- the decoder

class Give(Hooks):
    """Symbols read from the stream: the given one, then the end."""
    give = None
    sym = None

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        P = ip.p
        if f['crate'] == 'cniic' and f['body'] and '__vp' not in f['path'] and option_of(P, f['body']['locals'][0]) == self.sym.ty:
            s = st.copy()
            if s.g.get('!gave'):
                return [(NONE, s)]
            s.g['!gave'] = 1
            return [(some(self.give(ip, s)), s)]
        return None


def decoders(P, ring):
    """[(next fn, constructor fn)] of the iterators that hold a history."""
    out = []
    for i, f in enumerate(P.fns):
        b = f['body']
        if f['crate'] != 'cniic' or b is None or b['nargs'] != 1 or not f['path'].endswith('Iterator>::next'):
            continue
        if P.types[b['locals'][1]]['k'] != 'ref':
            continue
        ty = P.pointee(b['locals'][1])
        if ty != ring.ty and holds(P, ty, ring.ty):
            new = [j for j, g in enumerate(P.fns) if g['crate'] == 'cniic' and g['body'] and g['body']['nargs'] == 1 and g['body']['locals'][0] == ty and '__vp' not in g['path']]
            out.append((i, new[0] if new else None))
    return out


def path_to(P, ty, R):
    if ty == R:
        return ()
    for j, f in enumerate(P.types[ty]['v'][0]['f']):
        if holds(P, f[1], R):
            return (j,) + path_to(P, f[1], R)


def exact(ip, st, v, ty, d=0):
    """The number of items an iterator of this structure gives, as a term; None: not known."""
    P = ip.p
    t = P.types[ty]
    nm = P.tyname(ty).split('<', 1)[0].rsplit('::', 1)[-1]
    if d > 8 or t['k'] != 'adt':
        return None
    if v[0] == 'e' and nm == 'Option' and len(v[1]) == 1:
        a, fs = v[1][0]
        return exact(ip, st, fs[0], t['args'][0], d + 1) if a == 1 else T.const(0)
    if v[0] == 'r' and nm == 'Iter':
        w = M.window(ip, st, v)
        return w[2] if w is not None else None
    if v[0] != 's':
        return None
    if nm == 'Iter':
        x = v[1][0]
        if x[0] == 'r' and len(v[1]) == 1:
            w = M.window(ip, st, x)
            return w[2] if w is not None else None
        if x[0] == 'r' and len(v[1]) == 3 and v[1][1][0] == 'n' and v[1][2][0] == 'n':
            return T.sub(v[1][2][1], v[1][1][1])
    fs = t['v'][0]['f'] if t['v'] else []
    if len(fs) != len(v[1]):
        return None
    inner = [exact(ip, st, x, f[1], d + 1) if nm in ('Take', 'Skip', 'Chain', 'Cloned', 'Copied', 'Map') else None for x, f in zip(v[1], fs)]
    if nm == 'Take' and len(fs) == 2 and inner[0] is not None and v[1][1][0] == 'n':
        return T.op('min', [inner[0], v[1][1][1]], 0, 1 << 63)
    if nm == 'Skip' and len(fs) == 2 and inner[0] is not None and v[1][1][0] == 'n':
        return T.op('max', [T.sub(inner[0], v[1][1][1]), T.const(0)], 0, 1 << 63)
    if nm == 'Chain' and None not in inner:
        return T.add(inner[0], inner[1])
    if nm in ('Cloned', 'Copied', 'Map'):
        return inner[0]
    return None


class Long(Give):
    """Copies of any length: what is collected has the length the structure of the iterator gives."""

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        P = ip.p
        if st.g.get('!gave') and f['path'].endswith('::collect') and P.seq_elem(dty) is not None:
            n = exact(ip, st, args[0], atys[0])
            if n is None:
                raise Stuck('number of copied bytes: %s %s' % (ip.p.tyname(atys[0])[:200], str(args[0])[:300]))
            return [(('q', (('n', n, ('t', P.seq_elem(dty), 'copied')),)), st)]
        if st.g.get('!gave') and f['path'].endswith('::extend') and len(args) == 2 and args[0][0] == 'r' and args[0][3] is None:
            old = ip.load(st, args[0][1], args[0][2])
            x = args[1]
            if x[0] == 'r':
                w = M.window(ip, st, x)
                n = w[2] if w is not None else None
            else:
                n = ip.seq_len(x) if x[0] == 'q' else exact(ip, st, x, atys[1])
            if old[0] != 'q' or n is None:
                raise Stuck('number of copied bytes')
            s = st.copy()
            ip.store(s, args[0][1], args[0][2], ('q', old[1] + (('n', n, ('t', P.seq_elem(P.pointee(atys[0])), 'copied')),)))
            return [(UNIT, s)]
        if f['crate'] == 'cniic' and f['body'] and f['body']['nargs'] == 2 and P.types[f['body']['locals'][0]]['k'] == 'tuple' and P.types[f['body']['locals'][1]]['k'] == 'ref' and holds(P, P.pointee(f['body']['locals'][1]), self.ring.ty):
            w = M.window(ip, st, args[1]) if args[1][0] == 'r' else None
            s = st.copy()
            s.g['!hist'] = s.g.get('!hist', ()) + ((w[2] if w is not None else None),)
            return [(UNIT, s)]
        return Give.call(self, ip, act, st, fid, f, args, atys, dty, t)


class Play(Table):
    """The decoder on a history in any state: what it gives for one symbol, what it keeps."""

    def __init__(self, P, ring, sym, nxt, new, give, times, h=None):
        T.reset()
        h = h or Give()
        h.sym, h.give, h.ring = sym, None, ring
        ip = Hist(P, h, steps=120000)
        h.ip = ip
        st = State()
        ty = P.pointee(P.fns[nxt]['body']['locals'][1])
        if new is not None:
            outs = ip.exec_fn(new, [('t', P.fns[new]['body']['locals'][1], 'input')], st)
            if len(outs) != 1:
                raise Stuck('constructor of the decoder has several outcomes')
            v, st = outs[0]
        else:
            v = None
        at = path_to(P, ty, ring.ty)
        ip.nomerge = True
        ip.keepapart = True
        ip.bounded = 4
        ip.MAXSTATES = 3000
        if v is None or v[0] != 's':
            raise Stuck('constructor of the decoder not recognised')
        o = ip.new_obj(st, v, 'decoder')
        rv, syms = ring.value(ip, st)
        Interp.store(ip, st, o, at, rv)
        ip.watch = (o, at + (ring.arr,))
        self.syms = {j: s[1][0][0] for j, s in syms.items()}
        self.B = T.fresh('back', 0, 1 << 40, 'val')
        self.N = T.fresh('length', 0, 1 << 40, 'val')
        h.give = lambda ip, s: give(ip, s, (self.N, self.B) if isinstance(h, Long) else self.B)
        live = [(st, ())]
        self.runs = []
        base = st.pc.conds()
        new_conds = lambda x: [c for c in x.pc.conds() if c not in base]
        ip.collector = type(ip.collector)()
        for k in range(times):
            nl = []
            for s, got in live:
                for v, s2 in ip.exec_fn(nxt, [('r', o, (), None)], s):
                    if v[0] != 'e':
                        raise Stuck('next returns an unrecognised value')
                    for a, fs in v[1]:
                        s3 = s2.assume(ip.vdiscr(v, a)) if len(v[1]) > 1 else s2
                        if s3 is not None:
                            nl.append((s3, got + ((fs[0][1] if a == 1 else None),)))
            live = nl
        for s, got in live:
            w = Interp.load(ip, s, o, at)
            if isinstance(h, Long):
                whole = Interp.load(ip, s, o, ())
                qs = [ip.seq_len(x) for x in whole[1] if x[0] == 'q']
                if len(qs) != 1:
                    raise Stuck('pending bytes of the decoder not recognised')
                self.runs.append((new_conds(s), got, qs[0], s.g.get('!hist', ())))
                continue
            self.runs.append((new_conds(s), got, {j: w[1][j][1] for j in ring.nums}, s.g.get('!st', ())))
        self.panics = [(e[1], e[2], e[3], new_conds(e[5])) for e in panics.events(ip)]
        self.fns = [P.fns[x]['path'] for x in ip.analysed]
        self.keep()

    def ask_long(self, cnt, ln, back):
        """(bytes given, bytes kept) for one copy."""
        with self:
            e = Val(self.syms, cnt, {})
            e.v[self.B[1][0][0]], e.v[self.N[1][0][0]] = back, ln
            for pcs, got, left, hist in self.runs:
                try:
                    if holds_all(e, pcs):
                        return e.term(left) + (got[0] is not None), None if None in hist else sum(e.term(x) for x in hist)
                except teval.Unknown:
                    return None
        return None

    def ask(self, cnt, pos, back):
        with self:
            return self.ask_(cnt, back)

    def ask_(self, cnt, back):
        """('abort', why) | ('got', values, counters, stores) | None; values are element numbers or given bytes."""
        e = Val(self.syms, cnt, {})
        e.v[self.B[1][0][0]] = back
        for kind, site, cond, pcs in self.panics:
            try:
                if all(e.cond(c) for c in pcs) and (cond is None or not e.cond(cond)):
                    return 'abort', '%s in %s' % (kind, site[0])
            except teval.Unknown:
                continue
        for pcs, got, new, log in self.runs:
            try:
                if all(e.cond(c) for c in pcs):
                    return 'got', [None if g is None else BASE - 1 - e.term(g) for g in got], {j: e.term(t) for j, t in new.items()}, [(e.term(i), BASE - 1 - e.term(x)) for i, x in log]
            except teval.Unknown:
                return None
        return None


# ---- what the encoder emits

def emitters(P, ring, sym):
    out = []
    for i, f in enumerate(P.fns):
        b = f['body']
        if f['crate'] != 'cniic' or b is None or '__vp' in f['path'] or b['nargs'] != 2:
            continue
        L = b['locals']
        if P.types[L[1]]['k'] == 'ref' and holds(P, P.pointee(L[1]), ring.ty) and P.types[L[2]]['k'] == 'ref' and P.seq_elem(P.pointee(L[2])) == sym.ty:
            out.append(i)
    return out


class Emit(Look):
    """Searches give an arbitrary look-back; the history and the input are not followed; symbols pushed are recorded."""

    def __init__(self, P, ring, sym, found, total=None, most=None):
        self.P, self.ring, self.sym, self.total = P, ring, sym, total
        self.found = set(found)
        self.nth = None
        self.out = []
        self.most = most

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        P = self.P
        if f['path'].endswith('Vec::<T, A>::push') or f['path'].endswith('Vec::push') or f['path'].endswith('VecDeque::push_back'):
            if P.seq_elem(P.pointee(atys[0])) == self.sym.ty:
                self.out.append((args[1], st))
            return None
        if self.total is not None and f['path'].endswith('::collect') and 'Take<' in P.tyname(atys[0]).split('<', 1)[0] + '<' and P.seq_elem(dty) is not None:
            v = args[0]
            if v[0] == 's' and len(v[1]) == 2 and v[1][1][0] == 'n' and T.is_const(v[1][1][1]):
                s1 = st.copy()
                rem = s1.g.get('!rem', self.total)
                n = min(rem, v[1][1][1][0])
                s1.g['!rem'] = rem - n
                return [(('q', (('n', T.const(n), ('t', P.seq_elem(dty), 'in')),) if n else ()), s1)]
        if f['crate'] != 'cniic' or not f['body'] or '__vp' in f['path']:
            return None
        if fid in self.found:
            s1 = st.copy()
            if self.total is not None:
                k = s1.g['!asked'] = s1.g.get('!asked', 0) + 1
                if k == self.nth:
                    return [(some(self.sym.look(T.const(10), T.const(20))[1][0][1][0]), s1)]
                return [(NONE, s1)]
            ln = T.fresh('found.len', 0, self.most, 'found')
            bk = T.fresh('found.back', 1, 65535, 'found')
            lb = self.sym.look(ln, bk)[1][0][1][0]
            return [(some(lb), s1), (NONE, st)]
        L = f['body']['locals']
        n = f['body']['nargs']
        if P.types[L[0]]['k'] == 'tuple' and not P.types[L[0]].get('a') and n and P.types[L[1]]['k'] == 'ref' and (holds(P, P.pointee(L[1]), self.ring.ty) or not self.mentions(L[1:n + 1])) and not self.mentions(L[1:n + 1]):
            s1 = st
            if holds(P, P.pointee(L[1]), self.ring.ty) and self.total is not None:
                s1 = st.copy()
                k = None
                if n == 2 and args[1][0] == 'n':
                    k = args[1][1][0] if P.types[L[2]].get('n') == 'usize' and T.is_const(args[1][1]) else 1 if P.types[L[2]].get('n') == 'u8' else None
                elif n == 2 and args[1][0] == 'r':
                    w = M.window(ip, st, args[1])
                    k = w[2][0] if w is not None and T.is_const(w[2]) else None
                h = s1.g.get('!hist', 0)
                s1.g['!hist'] = h + k if k is not None and h is not None else None
            return [(UNIT, s1)]
        return None

    def mentions(self, tys):
        P = self.P
        for ty in tys:
            t = P.types[ty]
            if t['k'] in ('ref', 'ptr'):
                ty = P.pointee(ty)
                if P.types[ty]['k'] == 'adt' and P.seq_elem(ty) is not None:
                    return True
            if P.seq_elem(ty) == self.sym.ty:
                return True
        return False


def bound(ip, st, v, ty, d=0):
    """The most items an iterator of this structure can give; None: no bound in its structure."""
    P = ip.p
    t = P.types[ty]
    nm = P.tyname(ty).split('<', 1)[0].rsplit('::', 1)[-1]
    if d > 8:
        return None
    if v[0] == 'r' and t['k'] == 'adt' and nm == 'Iter':
        w = M.window(ip, st, v)
        return T_hi(st, w[2]) if w is not None else None
    if v[0] != 's' or t['k'] != 'adt':
        return None
    fs = t['v'][0]['f'] if t['v'] else []
    if len(fs) != len(v[1]):
        return None
    inner = [bound(ip, st, x, f[1], d + 1) for x, f in zip(v[1], fs)]
    if nm == 'Take' and len(fs) == 2:
        n = T_hi(st, v[1][1][1]) if v[1][1][0] == 'n' else None
        return least(inner[0], n)
    if nm == 'Zip':
        return least(inner[0], inner[1])
    if nm in ('TakeWhile', 'Filter', 'Cloned', 'Copied', 'Map', 'Enumerate', 'Inspect', 'Rev', 'Skip', 'SkipWhile', 'Peekable'):
        return inner[0]
    return None


def T_hi(st, t):
    return st.iv(t)[1]


def least(a, b):
    return b if a is None else a if b is None else min(a, b)


class Count(Look):
    """As Look, with `count` of an iterator taken as any number its structure allows."""

    def __init__(self):
        self.most = []

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        if f['path'].endswith('::count') and len(args) == 1 and 'TakeWhile' in ip.p.tyname(atys[0]):
            b = bound(ip, st, args[0], atys[0])
            self.most.append(b)
            return [(('n', T.fresh('count', 0, b if b is not None else 1 << 40, 'count'), 'usize'), st)]
        return Look.call(self, ip, act, st, fid, f, args, atys, dty, t)


def lengths(P, r, ring, sym, fid, limit):
    """'ok', ('viol', length), or 'und': lengths the search can report."""
    T.reset()
    h = Count()
    try:
        ip, outs, syms, entry, w = machine(P, ring, fid, h)
    except (Stuck, Budget):
        return 'und'
    if not h.most:
        return 'und'
    res = 'ok'
    for v, s in outs:
        for a, fs in v[1]:
            if a != 1:
                continue
            lb = sym.split(fs)
            if lb is None:
                return 'und'
            hi = T_hi(s, lb[0])
            if hi is not None and hi <= limit:
                continue
            res = 'und' if res == 'ok' else res
            t = lb[0]
            if t[0] == 0 and len(t[1]) == 1 and t[1][0][1] == 1 and set(T.SYMS[t[1][0][0]].prov or ()) == {'count'}:
                k = t[1][0][0]
                e = teval.Ev(pick=no_pick)
                e.v[k] = limit + 1
                if T.SYMS[k].hi >= limit + 1 and holds_all(e, s.pc.conds()):
                    return 'viol', limit + 1
    return res


def no_pick(s):
    raise teval.Unknown(s.name)


class Blur(Look):
    """Buffers filled from the input get arbitrary contents."""

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        P = ip.p
        if f['path'].endswith('::extend') and args and args[0][0] == 'r' and P.types[atys[0]]['k'] == 'ref' and P.seq_elem(P.pointee(atys[0])) is not None and args[0][3] is None:
            s = st.copy()
            ip.store(s, args[0][1], args[0][2], ip.expand(('t', P.pointee(atys[0]), 'buf'), s))
            return [(UNIT, s)]
        return Look.call(self, ip, act, st, fid, f, args, atys, dty, t)


def outer_part(P, r, ring, sym, fid, fids, limit):
    """A search built on another one passes on what that one found."""
    name = generic(P, fid)
    T.reset()
    h = Blur()
    called = []

    def inner(ip, st, args, dty):
        called.append(1)
        ln = T.fresh('found.len', 0, 1 << 20, 'found')
        bk = T.fresh('found.back', 1, 65535, 'found')
        return [(some(sym.look(ln, bk)[1][0][1][0]), st.copy()), (NONE, st)]
    h.cut = {x: inner for x in fids if generic(P, x) != name}
    if not h.cut:
        return
    try:
        ip, outs, syms, entry, w = machine(P, ring, fid, h)
    except (Stuck, Budget) as e:
        r.undecide('%s: %s' % (name, e if isinstance(e, Stuck) else 'step budget exhausted'))
        return
    if not called:
        return
    r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
    und = False
    for v, s in outs:
        for a, fs in v[1] if v[0] == 'e' else ():
            if a != 1:
                continue
            lb = sym.split(fs)
            t = lb and all(x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 and 'found' in (T.SYMS[x[1][0][0]].prov or ()) for x in lb)
            if t and lb[0] != lb[1]:
                continue
            bad = lb and changed(lb, s, limit)
            if bad:
                r.violation('another look-back is passed on than the one found', '%s: %s' % (name, bad))
                return
            und = True
    if und:
        r.undecide('%s: what it passes on is not recognised' % name)
    else:
        r.ok('%s passes on what the inner search found' % name)


def purges(P):
    """The program removes single entries of an index of positions."""
    for f in P.fns:
        if f['crate'] != 'cniic' and f['path'].rsplit('::', 1)[-1] in ('retain', 'remove', 'drain', 'extract_if', 'truncate', 'swap_remove') and re.search(r'HashMap|Vec<usize>', f['path'] + ' '.join(P.tyname(x) for x in (f['body'] or {}).get('locals', [])[:2])):
            return True
    return False


def emit_part(P, r, ring, sym, wire, limit, found, most):
    fids = emitters(P, ring, sym)
    if not fids:
        r.undecide('the function that emits symbols is not found')
        return
    names = set()
    for fid in fids:
        name = generic(P, fid)
        if name in names:
            continue
        names.add(name)

        def go(total, nth=None, **kw):
            T.reset()
            h = Emit(P, ring, sym, found, total, most)
            h.nth = nth
            ip = Interp(P, h, steps=400000)
            h.ip = ip
            for k, v in kw.items():
                setattr(ip, k, v)
            st = State()
            v, at, syms = ring.embed(ip, st, P.pointee(P.fns[fid]['body']['locals'][1]))
            o, c = ip.new_obj(st, v, 'self'), ip.new_obj(st, ('q', ()), 'chan')
            outs = ip.exec_fn(fid, [('r', o, (), None), ('r', c, (), None)], st)
            h.chan = c
            return ip, h, outs
        try:
            ip, h, outs = go(None)
        except (Stuck, Budget) as e:
            r.undecide('%s: %s' % (name, e if isinstance(e, Stuck) else 'step budget exhausted'))
            continue
        r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
        long_explicit = False
        if kept(P, r, sym, name, go):
            return
        ip, h, outs = go(None)
        nex = nlb = 0
        for v, s in h.out:
            if v[0] != 'e' or len(v[1]) != 1:
                r.undecide('%s: a pushed symbol is not recognised' % name)
                continue
            a, fs = v[1][0]
            if a == sym.ex:
                n = ip.seq_len(fs[0]) if fs[0][0] == 'q' else None
                hi = T_hi(s, n) if n is not None else None
                nex += 1
                if hi is None or hi > limit:
                    long_explicit = True
            else:
                lb = sym.split(fs)
                nlb += 1
                if lb is None:
                    r.undecide('%s: a pushed look-back is not recognised' % name)
                    continue
                hi = T_hi(s, lb[0])
                if hi is None or hi > limit:
                    # lengths above the limit were shown to come from the search
                    t = lb[0]
                    if most > limit and t[0] == 0 and len(t[1]) == 1 and t[1][0][1] == 1 and T.SYMS[t[1][0][0]].name.startswith('found.len'):
                        e = teval.Ev(pick=no_pick)
                        e.v[t[1][0][0]] = limit + 1
                        if holds_all(e, s.pc.conds()):
                            r.violation('a repetition longer than the format carries is emitted', '%s: the search reports a repetition of %d bytes and it is emitted in one symbol; the longest length the header gives back is %d' % (name, limit + 1, limit))
                            return
                    bad = changed(lb, s, limit)
                    if bad:
                        r.violation('another length is emitted than the one found', '%s: %s' % (name, bad))
                        return
                    r.undecide('%s: the length of a pushed look-back is not bounded' % name)
                else:
                    bad = changed(lb, s, limit)
                    if bad:
                        r.violation('another look-back is emitted than the one found', '%s: %s' % (name, bad))
                        return
        if not nex and not nlb:
            r.undecide('%s pushes no symbol' % name)
            continue
        if long_explicit:
            why = None
            for total in (limit + 1, 65535, 65536, 2 * limit + 3, 131072, 200000):
                try:
                    ip, h, outs = go(total, bounded=64, nomerge=True, MAXSTATES=200)
                except (Stuck, Budget):
                    continue
                for v, s in h.out:
                    if v[0] == 'e' and len(v[1]) == 1 and v[1][0][0] == sym.ex and v[1][0][1][0][0] == 'q':
                        n = ip.seq_len(v[1][0][1][0])
                        if T.is_const(n) and n[0] > limit:
                            why = 'a stream of %d bytes without repetition is emitted as a literal of %d bytes' % (total, n[0])
                            break
                if why:
                    break
            if why:
                r.violation('a literal longer than the format carries is emitted', '%s: %s; the longest length the header gives back is %d' % (name, why, limit))
                return
            r.undecide('%s: the length of a literal is not bounded' % name)
        else:
            r.ok('%s: %d places push literals and %d push look-backs, none longer than %d' % (name, nex, nlb, limit))


def kept(P, r, sym, name, go):
    """The encoder's history grows by exactly the bytes of the symbols it emits."""
    n = 0
    for total, nth in ((1, None), (2, None), (3, None), (10, None), (1000, None), (50, 1), (50, 2), (50, 3), (50, 4), (5000, 9)):
        try:
            ip, h, outs = go(total, nth, bounded=64, nomerge=True, MAXSTATES=200)
        except (Stuck, Budget):
            continue
        for v, s in outs:
            q = ip.load(s, h.chan, ())
            tot, ex = 0, 0
            for x in q[1] if q[0] == 'q' else ():
                y = x[1]
                if x[0] != 'v' or y[0] != 'e' or len(y[1]) != 1:
                    tot = None
                    break
                a, fs = y[1][0]
                k = ip.seq_len(fs[0]) if a == sym.ex and fs[0][0] == 'q' else (sym.split(fs) or [None])[0] if a == sym.lb else None
                if k is None or not T.is_const(k):
                    tot = None
                    break
                tot += k[0]
            kept_ = s.g.get('!hist', 0)
            if tot is None or kept_ is None:
                continue
            n += 1
            if tot != kept_:
                r.violation('the history is not what was emitted', '%s: %s emits symbols for %d bytes and puts %d into its history' % (name, 'a stream of %d bytes without repetition' % total if nth is None else 'a repetition of 10 bytes found at attempt %d' % nth, tot, kept_))
                return True
    if n:
        r.ok('%s: %d concrete-length streams put exactly what they emit into the history' % (name, n))
    else:
        r.undecide('%s: bytes put into the history not recognised' % name)
    return False


def changed(lb, s, limit):
    """The emitted (length, distance) differs from the one the search gave: what, or None."""
    syms = {x for t in lb for x in panics.leaves(t)}
    if not syms or any('found' not in (T.SYMS[x].prov or ()) for x in syms):
        return None
    ls = [x for x in syms if T.SYMS[x].name.startswith('found.len')]
    bs = [x for x in syms if T.SYMS[x].name.startswith('found.back')]
    if len(bs) != 1 or len(ls) != 1:
        return None
    for n in (6, 7, 8, 300, limit - 1, limit):
        for b in (1, 2, 6, 300, 65535):
            e = teval.Ev(pick=no_pick)
            e.v[ls[0]], e.v[bs[0]] = n, b
            if n > b or not holds_all(e, s.pc.conds()):
                continue
            try:
                x, y = e.term(lb[0]), e.term(lb[1])
            except teval.Unknown:
                return None
            if (x, y) != (n, b) and (y != b or x > n):
                return 'found length %d at distance %d, emitted length %d at distance %d' % (n, b, x, y)
    return None


def updates_part(P, r, ring, sym, writers):
    """Operations that put given bytes into the history put each of them there once."""
    names = set()
    for i, f in enumerate(P.fns):
        b = f['body']
        if f['crate'] != 'cniic' or b is None or '__vp' in f['path'] or b['nargs'] != 2:
            continue
        L = b['locals']
        if P.types[L[1]]['k'] != 'ref' or not holds(P, P.pointee(L[1]), ring.ty) or P.types[L[0]]['k'] != 'tuple' or P.types[L[0]].get('a'):
            continue
        t2 = P.types[L[2]]
        sl = t2['k'] == 'ref' and P.types[t2['e']]['k'] == 'slice' and P.types[P.types[t2['e']]['e']]['k'] == 'uint'
        num = t2['k'] == 'uint' and t2.get('n') == 'usize'
        byte = t2['k'] == 'uint' and L[2] == P.types[ring.fields[ring.arr][1]]['e']
        if not (sl or num or byte) or i in writers or f['path'] in names:
            continue
        names.add(f['path'])
        k = 1 if byte else 3
        T.reset()

        class C(Look):
            def call(self, ip, act, st, fid, g, args, atys, dty, t):
                if fid in writers:
                    s = st.copy()
                    s.g['!w'] = s.g.get('!w', ()) + (args[1],)
                    return [(UNIT, s)]
                if g['crate'] == 'cniic' and g['body'] and g['body']['nargs'] >= 1 and '__vp' not in g['path']:
                    A = g['body']['locals']
                    x = P.types[A[1]]
                    if x['k'] == 'ref' and not holds(P, P.pointee(A[1]), ring.ty) and P.types[A[0]]['k'] == 'tuple':
                        return [(UNIT, st)]
                    if x['k'] == 'ref' and not holds(P, P.pointee(A[1]), ring.ty) and g['path'].endswith('Iterator>::next'):
                        return [(some(ip.expand(('t', option_of(P, dty), 'in'), st)), st)]
        h = C()
        ip = Interp(P, h, steps=60000)
        h.ip = ip
        ip.nomerge, ip.bounded, ip.MAXSTATES = True, 8, 400
        st = State()
        try:
            v, at, syms = ring.embed(ip, st, P.pointee(L[1]))
            o = ip.new_obj(st, v, 'self')
            bs = [ip.fresh_num('b', 'u8') for _ in range(k)]
            a2 = bs[0] if byte else ('n', T.const(k), 'usize') if num else ('r', ip.new_obj(st, ('q', tuple(('v', x) for x in bs)), 'bytes'), (), ('w', T.const(0), T.const(k)))
            outs = ip.exec_fn(i, [('r', o, (), None), a2], st)
        except (Stuck, Budget) as e:
            r.undecide('%s: %s' % (f['path'], e if isinstance(e, Stuck) else 'step budget exhausted'))
            continue
        r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
        good = True
        for rv, s in outs:
            w = s.g.get('!w', ())
            if not w and not (sl or num or byte):
                continue
            if len(w) != k or not num and [x[1] for x in w] != [x[1] for x in bs]:
                good = False
                if not any(absint.is_term(c) for c in ()) and not ip.imprecise:
                    r.violation('bytes of the stream are not kept in the history', '%s, given %d bytes, puts %d into the history%s' % (f['path'], k, len(w), '' if len(w) != k else ' in another order'))
                    return
        if good:
            r.ok('%s puts each of its bytes into the history once, in order' % f['path'])
        else:
            r.undecide('%s: bytes put into the history not recognised' % f['path'])


def decode_part(P, r, ring, sym, step, orbit, limit):
    """{(n, length, distance): elements copied}; violations of the decoder are reported."""
    N = ring.n
    ds = decoders(P, ring)
    if not ds:
        r.undecide('no decoder with a history found')
        return None, False
    nxt, new = ds[0]
    name = generic(P, nxt)
    out = {}
    sub = {2: {}, 3: {}}
    samples = [n for n in sorted(orbit) if n]
    try:
        for ln in (1, 2, 3):
            pl = Play(P, ring, sym, nxt, new, lambda ip, s, B, ln=ln: sym.look(T.const(ln), B), ln + 1)
            r.funcs.update(pl.fns)
            nq = 0
            for n in samples:
                cnt, pos = orbit[n]
                have = min(n, N)
                for back in sorted({ln, ln + 1, ln + 2, 6, 7, have, have - 1, have - 2, have // 2, n - N + 1, n % N, n % N + 1, n % N + 2, n % N - 1}):
                    if not ln <= back <= have:
                        continue
                    a = pl.ask(cnt, pos, back)
                    if a is None:
                        continue
                    nq += 1
                    if a[0] == 'abort':
                        r.violation('the decoder aborts on a valid look-back', '%s: %s, after %d bytes, for a copy of %d bytes at distance %d' % (name, a[1], n, ln, back))
                        return None, True
                    _, vals, new_cnt, log = a
                    want = orbit_after(step, orbit, n, ln)
                    if vals[:ln].count(None) or vals[ln] is not None:
                        k = len([x for x in vals if x is not None])
                        r.violation('a valid look-back is not copied in full', '%s: after %d bytes, a copy of %d bytes at distance %d gives %d bytes' % (name, n, ln, back, k))
                        return None, True
                    out[(n, ln, back)] = vals[:ln]
                    if want is not None:
                        wc, ws = want
                        if new_cnt != wc or [i for i, _ in log] != ws or [x for _, x in log] != vals[:ln]:
                            r.violation('copied bytes are not kept in the history', '%s: after %d bytes, a copy of %d bytes at distance %d gives elements %s and stores %s' % (name, n, ln, back, vals[:ln], log))
                            return None, True
            r.count('look-backs replayed in closed form', nq)
            if not nq:
                r.undecide('%s: no closed form for a look-back of %d bytes' % (name, ln))
        try:
            pl = Play(P, ring, sym, nxt, new, lambda ip, s, B: sym.look(B[0], B[1]), 1, Long())
        except Stuck as e:
            pl = None
            r.undecide('%s: copies of any length: %s' % (name, e))
        nq = longest_seen = 0
        for n in samples if pl else ():
            for ln in (1, 6, 7, 255, 256, 257, 1000, 4095, 4096, 4097, 16383, 16384, 32766, 32767):
                for back in sorted({ln, ln + 1, min(n, N)}):
                    if ln > limit or not ln <= back <= min(n, N):
                        continue
                    a = pl.ask_long(orbit[n][0], ln, back)
                    if a is None:
                        continue
                    nq += 1
                    if a[0] != ln or a[1] not in (ln, None):
                        r.violation('a valid look-back is not copied in full', '%s: after %d bytes, a copy of %d bytes at distance %d gives %d bytes and keeps %s' % (name, n, ln, back, a[0], a[1]))
                        return None, True
                    longest_seen = max(longest_seen, ln)
        if pl:
            r.count('long look-backs replayed in closed form', nq)
            if longest_seen >= 32767 or longest_seen >= limit:
                r.ok('%s: copies of any length are given in full' % name)
            else:
                r.undecide('%s: no closed form for long look-backs' % name)
        nq = 0
        for n, m in [(n, m) for m in (1, 2, 3) for n in sorted(orbit)]:
            cnt, pos = orbit[n]
            if n == min(orbit):
                pl = Play(P, ring, sym, nxt, new, lambda ip, s, B, m=m: sym.explicit(('q', tuple(('v', ('n', T.fresh('given%d' % k, 0, 255, 'given'), 'u8')) for k in range(m)))), m + 1)
                r.funcs.update(pl.fns)
            with pl:
                e = Val(pl.syms, cnt, {})
                for s in T.SYMS:
                    if s.kind == 'free' and s.name.startswith('given'):
                        e.v[s.id] = BASE - 1 + 1000 + int(s.name[5])
                for pcs, got, nc, log in pl.runs:
                    try:
                        if not all(e.cond(c) for c in pcs):
                            continue
                        vals = [None if g is None else BASE - 1 - e.term(g) for g in got]
                        nc = {j: e.term(t) for j, t in nc.items()}
                        log = [(e.term(i), BASE - 1 - e.term(x)) for i, x in log]
                    except teval.Unknown:
                        continue
                    nq += 1
                    want = orbit_after(step, orbit, n, m)
                    if vals != [-1000 - k for k in range(m)] + [None]:
                        r.violation('a literal is not given back', '%s: after %d bytes, a literal of %d bytes gives %s' % (name, n, m, ['byte %d' % (-1000 - x) if x is not None and x <= -1000 else x for x in vals]))
                        return None, True
                    if want is not None and (nc != want[0] or log != list(zip(want[1], vals))):
                        r.violation('literal bytes are not kept in the history', '%s: after %d bytes, a literal of %d bytes stores %s' % (name, n, m, log))
                        return None, True
        r.count('literals replayed in closed form', nq)
        if not nq:
            r.undecide('%s: no closed form for a literal' % name)
    except (Stuck, Budget) as e:
        r.undecide('%s: %s' % (name, e if isinstance(e, Stuck) else 'step budget exhausted'))
        return None, False
    except teval.Unknown as e:
        r.undecide('%s: not evaluable: %s' % (name, e))
        return None, False
    return (nxt, new, out), False


def orbit_after(step, orbit, n, k):
    """(counters, slots) after k more writes, by the closed form of write."""
    cnt, pos = orbit[n]
    slots = []
    with step:
        for _ in range(k):
            x = step.next(cnt)
            if x[0] == 'panic':
                return None
            cnt, s = x
            slots.append(s)
    return cnt, slots


def check(P, r):
    r.rule = RULE
    r.assume = ['the input of the compressor is arbitrary, so any comparison of an input byte with the history can come out either way',
                'index entries are earlier positions of the stream with a complete key; those that left the history may stay in the index until the map is dropped',
                'the closed forms are compared at sampled history lengths around 0, N and 2N and sampled positions, not for every length',
                'third-party functions behave as modelled in tools/models.py']
    rs = rings(P)
    ss = symbol_types(P)
    if len(rs) != 1 or len(ss) != 1:
        r.undecide('%d history types and %d symbol types found' % (len(rs), len(ss)))
        return
    ring, sym = Ring(P, *rs[0]), ss[0]
    N = ring.n
    # serialisation
    import props.c04 as c04
    ps, _ = c04.pairs(P)
    for name, sf, sty, df, dty in ps:
        if sty == sym.ty:
            for x in c04.run_pair(P, name, sf, sty, df, dty, c04.H):
                drive.apply(r, x)
    wire = Wire(P, r, sym)
    if not wire.ok:
        return
    a = wire.ask(1, 1)
    if a == 'abort' or isinstance(a, tuple):
        r.violation('a symbol does not survive its wire format', 'length 1, distance 1: %s' % ('serialize aborts' if a == 'abort' else 'reading gives ' + a[1]))
        return
    limit = longest(wire)
    if not limit:
        r.undecide('no length is shown to survive the header')
        return
    r.ok('lengths 0 to %d and every distance up to %d are given back by the header' % (limit, N))
    for b in (1, 2, 255, 256, 32767, 32768, N - 1, N):
        for n in (0, 1, 6, limit):
            a = wire.ask(n, b)
            if a == 'abort' or isinstance(a, tuple):
                r.violation('a distance does not fit the wire format', 'length %d, distance %d, which the history of %d bytes allows: %s' % (n, b, N, 'serialize aborts' if a == 'abort' else 'reading gives ' + a[1]))
                return
            if a is None:
                r.undecide('length %d, distance %d: closed form of the wire format not evaluable' % (n, b))
    # history
    ws = writes(P, ring)
    if len({P.fns[i]['path'] for i in ws}) != 1:
        r.undecide('%d write operations of the history found' % len(ws))
        return
    step = Step(P, ring, ws[0])
    r.funcs.update(step.fns)
    init = initial(P, ring)
    if init is None:
        r.undecide('initial state of the history not recognised')
        return
    want = {0, 1, 2, 6, 7, 8, 100, N - 2, N - 1, N, N + 1, N + 2, N + 100, 2 * N - 1, 2 * N, 2 * N + 1, 2 * N + 7}
    with step:
        try:
            orbit, bad = step.orbit(init, 2 * N + 8, want)
        except teval.Unknown as e:
            r.undecide('write operation of the history: %s' % e)
            return
    if bad:
        r.violation('the history cannot be written', '%s: write number %d aborts (%s)' % (P.fns[ws[0]]['path'], bad[0], T.show_cond(bad[1])[:120] if bad[1] else 'always'))
        return
    r.count('history states enumerated', 2 * N + 8)
    dec, stop = decode_part(P, r, ring, sym, step, orbit, limit)
    if stop:
        return
    plays = {}

    def copied(n, ln, back):
        if dec is None or n not in orbit or ln not in (1, 2, 3):
            return None
        if ln not in plays:
            plays[ln] = Play(P, ring, sym, dec[0], dec[1], lambda ip, s, B, ln=ln: sym.look(T.const(ln), B), ln + 1)
        a = plays[ln].ask(orbit[n][0], orbit[n][1], back)
        if a is None or a[0] != 'got' or None in a[1][:ln]:
            return None
        return a[1][:ln]
    # search
    fids = searches(P, ring, sym)
    if not fids:
        r.undecide('the search for repetitions is not found')
        return
    seen = set()
    purge = purges(P)
    inner = []
    most = limit
    for fid in fids:
        name = generic(P, fid)
        if name in seen:
            continue
        seen.add(name)
        outer_part(P, r, ring, sym, fid, fids, limit)
        found = search_part(P, r, ring, sym, orbit, fid, purge)
        if found is None:
            continue
        r.count('look-backs found, in closed form', len(found.rows))
        if found.seen < 0:
            r.undecide('%s: some outcomes are not in closed form' % name)
        if not found.rows:
            continue
        if not judge_rows(r, ring, name, found, copied):
            return
        r.ok('%s: %d sampled look-backs are within the history and copy what was compared' % (name, len(found.rows)))
        x = lengths(P, r, ring, sym, fid, limit)
        if x == 'und':
            r.undecide('%s: no bound found for the length it reports' % name)
        elif x == 'ok':
            r.ok('%s reports no length above %d' % (name, limit))
        else:
            most = 1 << 20
    emit_part(P, r, ring, sym, wire, limit, fids, most)
    updates_part(P, r, ring, sym, ws)


def initial(P, ring):
    """Counters of a new history."""
    for i in inits(P, ring):
        T.reset()
        ip = Interp(P, Hooks(), steps=20000)
        ip.hooks.ip = ip
        try:
            outs = ip.exec_fn(i, [], State())
        except (Stuck, Budget):
            continue
        if len(outs) == 1 and outs[0][0][0] == 's':
            v = outs[0][0]
            if all(v[1][j][0] == 'n' and T.is_const(v[1][j][1]) for j in ring.nums):
                return {j: v[1][j][1][0] for j in ring.nums}
    return None
