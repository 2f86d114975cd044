"""C11: dictionary coder and decoder extend their dictionaries in lock-step."""
import cg, panics
import absint, models as M, terms as T, teval
from absint import Interp, State, Stuck, Budget, UNIT
from models import NONE, some
from run import Hooks

RULE = ('The constructors of compressor and decompressor give their initial dictionaries; one step of each (a pair of symbols) is interpreted for an arbitrary code counter, with the dictionary and the search as cut points, '
        'which gives what is entered under which code and the next counter in closed form. Both transition functions are iterated from the initial counters to the full dictionary: same code, same sequence (first symbol\'s bytes, then the second\'s), same end, '
        'no code twice, never the end-of-stream symbol. The search is interpreted for arbitrary dictionary answers: the symbol is that of the longest entry and unread bytes go back in order.')


def option_of(P, ty):
    t = P.types[ty]
    return t['args'][0] if t['k'] == 'adt' and t['name'].endswith('option::Option') else None


def mine(f):
    return f['crate'] == 'cniic' and f['body'] is not None and '__vp' not in f['path']


def is_uint(P, ty):
    return P.types[ty]['k'] == 'uint'


class Parts:
    """The two machines, found by the types of their functions."""

    def __init__(self, P):
        self.P = P
        self.enc = self.dec = None
        for i, f in enumerate(P.fns):
            if not mine(f) or f['body']['nargs'] != 1:
                continue
            L = f['body']['locals']
            if P.types[L[1]]['k'] != 'ref':
                continue
            o = option_of(P, L[0])
            if o is None:
                continue
            t = P.types[o]
            if t['k'] == 'tuple' and self.enc is None:
                es = elems(P, o)
                if len(es) == 2 and es[0] == es[1] and is_uint(P, es[0]):
                    E = P.pointee(L[1])
                    new = [j for j, g in enumerate(P.fns) if mine(g) and g['body']['nargs'] == 1 and g['body']['locals'][0] == E]
                    if new:
                        self.enc, self.E, self.code, self.enew = i, E, es[0], new[0]
        if self.enc is None:
            return
        self.finds = []
        self.inserts = []
        for i, f in enumerate(P.fns):
            if not mine(f):
                continue
            L, n = f['body']['locals'], f['body']['nargs']
            if n == 1 and P.types[L[1]]['k'] == 'ref' and P.pointee(L[1]) == self.E and P.types[L[0]]['k'] == 'tuple' and i != self.enc:
                es = elems(P, L[0])
                if len(es) == 2 and option_of(P, es[0]) == self.code and P.seq_elem(es[1]) is not None:
                    self.finds.append(i)
            if n == 3 and L[3] == self.code and P.types[L[1]]['k'] == 'ref' and P.pointee(L[1]) != self.E and P.types[L[2]]['k'] == 'ref' and P.types[P.types[L[2]]['e']]['k'] == 'slice' and within(P, self.E, P.pointee(L[1])):
                self.inserts.append(i)
        for i, f in enumerate(P.fns):
            if not mine(f) or f['body']['nargs'] != 1 or not f['path'].endswith('Iterator>::next'):
                continue
            L = f['body']['locals']
            if P.types[L[1]]['k'] != 'ref' or self.dec is not None:
                continue
            D = P.pointee(L[1])
            t = P.types[D]
            if t['k'] != 'adt' or t['ak'] != 'struct':
                continue
            for j, fd in enumerate(t['v'][0]['f']):
                m = P.types[fd[1]]
                if m['k'] == 'adt' and m['name'].endswith('HashMap') and m['args'][0] == self.code and P.seq_elem(m['args'][1]) is not None:
                    new = [k for k, g in enumerate(P.fns) if mine(g) and g['body']['nargs'] == 1 and g['body']['locals'][0] == D]
                    if new:
                        self.dec, self.D, self.dnew, self.map = i, D, new[0], j
        self.good = self.dec is not None and bool(self.finds) and bool(self.inserts)


def elems(P, ty):
    t = P.types[ty]
    return t.get('a') or []


def within(P, ty, inner, d=0):
    if ty == inner:
        return True
    t = P.types[ty]
    return d < 3 and t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct' and any(within(P, f[1], inner, d + 1) for f in t['v'][0]['f'])


def counters(P, ty, code, path=()):
    """Paths of the fields of the code's type."""
    t = P.types[ty]
    if ty == code:
        return [path]
    out = []
    if len(path) < 4 and t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct':
        for j, f in enumerate(t['v'][0]['f']):
            out += counters(P, f[1], code, path + (j,))
    return out


class Dict(Hooks):
    """Dictionary operations recorded; symbols, searches and look-ups given."""
    P = None
    parts = None
    find = None         # results of successive searches
    symbols = None      # symbols read from the stream
    lookup = None       # look-up of the decoder

    def map_get(self, ip, st, r, q, k, dty):
        if self.lookup:
            return self.lookup(ip, st, k)

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        P, p = ip.p, self.parts
        if fid in p.inserts:
            s = st.copy()
            w = M.window(ip, st, args[1])
            q = M.subseq(ip, st, M.get(ip, st, w[0]), w[1], w[2]) if w is not None else None
            s.g['!ins'] = s.g.get('!ins', ()) + ((flat(q), args[2][1]),)
            return [(NONE, s)]
        if f['path'].endswith('HashMap::insert') or (f['path'].rsplit('::', 1)[-1] == 'insert' and 'HashMap' in f['path']):
            s = st.copy()
            s.g['!ins'] = s.g.get('!ins', ()) + ((flat(args[2]), args[1][1] if args[1][0] == 'n' else None),)
            return [(NONE, s)]
        if self.find is not None and fid in p.finds:
            k = st.g.get('!found', 0)
            s = st.copy()
            s.g['!found'] = k + 1
            return self.find(ip, s, k)
        if self.symbols is not None and f['crate'] == 'cniic' and f['path'].endswith('Deserialize>::deserialize') and option_of(P, dty) == p.code:
            k = st.g.get('!read', 0)
            s = st.copy()
            s.g['!read'] = k + 1
            return [(some(('n', self.symbols[k], P.types[p.code]['n'])) if k < len(self.symbols) else NONE, s)]
        return None


def flat(q):
    """Terms of a short explicit sequence; None if it is not one."""
    if q is None or q[0] != 'q':
        return None
    out = []
    for x in q[1]:
        if x[0] == 'v' and x[1][0] == 'n':
            out.append(x[1][1])
        elif x[0] == 'n' and T.is_const(x[1]) and x[1][0] <= 4 and x[2][0] == 'n':
            out += [x[2][1]] * x[1][0]
        elif x[0] == 'n' and not T.is_const(x[1]) and x[2][0] == 'n':
            out.append((x[1], x[2][1]))
        else:
            return None
    return tuple(out)


def start(P, parts, fid, ty, hooks):
    """(interp, state, value of the machine, entries) after construction."""
    T.reset()
    ip = Interp(P, hooks, steps=400000)
    hooks.ip, hooks.parts = ip, parts
    ip.nomerge = True
    ip.keepapart = True
    ip.bounded = 600
    ip.MAXSTATES = 50
    st = State()
    ip.collector = []
    outs = ip.exec_fn(fid, [('t', P.fns[fid]['body']['locals'][1], 'input')], st)
    if not outs and list(panics.events(ip)):
        raise Abort(P.fns[fid]['path'])
    if len(outs) != 1:
        raise Stuck('constructor has %d outcomes' % len(outs))
    v, s = outs[0]
    ip.bounded = 8
    ip.MAXSTATES = 2000
    return ip, s, v


def put(v, path, x):
    if not path:
        return x
    return ('s', tuple(put(y, path[1:], x) if j == path[0] else y for j, y in enumerate(v[1])))


def at(v, path):
    for j in path:
        v = v[1][j]
    return v


class Table:
    def keep(self):
        self.table = list(T.SYMS)

    def __enter__(self):
        self.saved = list(T.SYMS)
        T.SYMS[:] = self.table

    def __exit__(self, *a):
        T.SYMS[:] = self.saved


class Abort(Exception):
    pass


class Machine(Table):
    """One side: initial entries and counters, and a step in closed form."""

    def __init__(self, P, parts, name, new, ty):
        self.P, self.parts, self.name, self.new, self.ty = P, parts, name, new, ty
        self.h = Dict()
        self.ip, self.st, self.v = start(P, parts, new, ty, self.h)
        self.entries = self.st.g.get('!ins', ())
        self.paths = counters(P, ty, parts.code)
        self.init = []
        for p in self.paths:
            x = at(self.v, p)
            if x[0] != 'n' or not T.is_const(x[1]):
                raise Stuck('initial counter not constant')
            self.init.append(x[1][0])
        tn = P.types[parts.code]['n']
        self.tn = tn
        hi = (1 << int(tn[1:])) - 1 if tn[1:].isdigit() else (1 << 63)
        self.syms = [T.fresh('counter', 0, hi, 'counter') for _ in self.paths]
        v = self.v
        for p, s in zip(self.paths, self.syms):
            v = put(v, p, ('n', s, tn))
        self.fresh_v = v
        self.base = self.st.pc.conds()
        self.ip.collector = []
        self.S = [T.fresh('symbol%d' % k, 0, hi, 'symbol') for k in (1, 2)]
        self.B = [T.fresh('byte%d' % k, 0, 255, 'byte') for k in range(3)]
        self.N = [T.fresh('length%d' % k, 0, 1 << 40, 'length') for k in range(2)]
        self.long = False

    def seq(self, k):
        if self.long:
            return ('q', (('v', ('n', self.B[2 * k], 'u8')), ('n', self.N[k], ('n', self.B[1], 'u8'))))
        bs = self.B[:2] if k == 0 else self.B[2:]
        return ('q', tuple(('v', ('n', b, 'u8')) for b in bs))

    def conds(self, s):
        return [c for c in s.pc.conds() if c not in self.base]

    def state(self, extra=None):
        s = self.st.copy()
        s.g['!ins'] = ()
        v = self.fresh_v
        if extra is not None:
            v = put(v, extra[0], extra[1])
        o = self.ip.new_obj(s, v, 'machine')
        return s, o

    def finish(self):
        self.panics = [(e[1], e[2], e[3], self.conds(e[5])) for e in panics.events(self.ip)]
        self.fns = [self.P.fns[x]['path'] for x in self.ip.analysed]
        self.keep()

    def ev(self, cnt, lens=()):
        e = teval.Ev(pick=nothing)
        for s, c in list(zip(self.syms, cnt)) + list(zip(self.N, lens)):
            e.v[s[1][0][0]] = c
        return e

    def after(self, cnt, cases, lens=()):
        """[(result, entries, counters)] of the cases that apply; byte and symbol terms stay terms."""
        out = []
        for conds, res, ins, new in cases:
            e = self.ev(cnt, lens)
            ok = True
            for c in conds:
                try:
                    if not e.cond(c):
                        ok = False
                        break
                except teval.Unknown:
                    pass
            if ok:
                out.append((res, tuple((q, e.term(c)) for q, c in ins), tuple(e.term(x) for x in new)))
        return out

    def aborts(self, cnt):
        for kind, site, cond, conds in self.panics:
            e = self.ev(cnt)
            try:
                if all(e.cond(c) for c in conds) and (cond is None or not e.cond(cond)):
                    return '%s in %s' % (kind, site[0])
            except teval.Unknown:
                pass
        return None


def nothing(s):
    raise teval.Unknown(s.name)


class Enc(Machine):
    def step(self, both=True):
        ip, P = self.ip, self.P

        def find(ip, s, k):
            if k > 1 or k == 1 and not both:
                return [(('s', (NONE, ('q', ()))), s)]
            return [(('s', (some(('n', self.S[k], self.tn)), self.seq(k))), s)]
        self.h.find = find
        s, o = self.state()
        cases = []
        for v, s2 in ip.exec_fn(self.parts.enc, [('r', o, (), None)], s):
            w = ip.load(s2, o, ())
            if v[0] != 'e':
                raise Stuck('pair not recognised')
            for a, fs in v[1]:
                s3 = s2.assume(ip.vdiscr(v, a)) if len(v[1]) > 1 else s2
                if s3 is None:
                    continue
                res = tuple(x[1] for x in fs[0][1]) if a == 1 else None
                cases.append((self.conds(s3), res, s3.g.get('!ins', ()), [at(w, p)[1] for p in self.paths]))
        return cases


class Dec(Machine):
    def step(self, second=None):
        """Bytes given for the two symbols; the second is the end symbol if given."""
        ip, P = self.ip, self.P
        S2 = self.S[1] if second is None else T.const(second)
        self.h.symbols = [self.S[0], S2]

        def lookup(ip, st, k):
            if k[0] != 'n':
                raise Stuck('key of a look-up not recognised')
            s = st.copy()
            if k[1] == self.S[0]:
                o = ip.new_obj(s, self.seq(0), 'entry')
            elif k[1] == S2:
                o = ip.new_obj(s, self.seq(1) if second is None else ('q', ()), 'entry')
            else:
                raise Stuck('look-up of another key than a symbol read')
            return [(some(('r', o, (), None)), s)]
        self.h.lookup = lookup
        s0 = self.st.copy()
        mp = ip.expand(('t', P.types[self.parts.D]['v'][0]['f'][self.parts.map][1], 'map'), s0)
        self.st = s0
        s, o = self.state(((self.parts.map,), mp))
        live = [(s, ())]
        n = 1 if self.long else 4 if second is None else 3
        for k in range(n):
            nl = []
            for s, got in live:
                for v, s2 in ip.exec_fn(self.parts.dec, [('r', o, (), None)], s):
                    if v[0] != 'e':
                        raise Stuck('item not recognised')
                    for a, fs in v[1]:
                        s3 = s2.assume(ip.vdiscr(v, a)) if len(v[1]) > 1 else s2
                        if s3 is not None:
                            nl.append((s3, got + ((fs[0][1] if a == 1 else None),)))
            live = nl
        cases = []
        for s, got in live:
            w = ip.load(s, o, ())
            cases.append((self.conds(s), got, s.g.get('!ins', ()), [at(w, p)[1] for p in self.paths]))
        return cases


def long_part(r, e, elong, d, dlong, en, dn):
    """Sequences of any length are entered alike."""
    ns = [0, 1, 2, 6, 30, 61, 62, 63, 125, 126, 127, 253, 254, 255, 1000, 4094, 4095, 16383, 32766, 32767, 65533, 65534, 65535, 100000, (1 << 32) - 1, 1 << 32]
    pairs = [(a, b) for a in ns for b in (0, 1, 1000)] + [(b, a) for a in ns for b in (0, 1, 1000)] + [(a, a) for a in ns]
    whole = ['byte0', 'length0 times byte1', 'byte2', 'length1 times byte1']
    n = 0
    for k in (0, 1, 300, 20000, 60000):
        for la, lb in pairs:
            with e:
                oe = [[(None if q is None else [label(x) for x in q], c) for q, c in ins] for res, ins, new in e.after([c + k for c in e.init], elong, (la, lb))]
            with d:
                od = [[(None if q is None else [label(x) for x in q], c) for q, c in ins] for got, ins, new in d.after([c + k for c in d.init], dlong, (la, lb))]
            if len(oe) != 1 or len(od) != 1:
                r.undecide('sequences of %d and %d bytes: %d outcomes of the compressor, %d of the decompressor' % (la + 1, lb + 1, len(oe), len(od)))
                return
            if any(q is None for q, c in oe[0] + od[0]):
                r.undecide('sequence entered for %d and %d bytes is not recognised' % (la + 1, lb + 1))
                return
            if oe[0] != od[0]:
                r.violation('the dictionaries diverge', 'for sequences of %d and %d bytes, %s enters %s, %s enters %s' % (la + 1, lb + 1, en, oe[0] or 'nothing', dn, od[0] or 'nothing'))
                return
            for q, c in oe[0]:
                if q != whole:
                    r.violation('another sequence is entered than the pair', 'for sequences of %d and %d bytes (byte0, then byte1s; byte2, then byte1s): %s' % (la + 1, lb + 1, q))
                    return
            n += 1
    r.count('lengths compared', n)
    r.ok('sequences of any length are entered alike on both sides')


# ---- the search

class Search(Hooks):
    """Bytes from the input and answers of the dictionary are arbitrary and recorded."""

    def __init__(self, P, parts, src, downs, nb):
        self.P, self.parts, self.src, self.downs, self.nb = P, parts, src, downs, nb

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        P = ip.p
        if f['path'].endswith('::next') and len(args) == 1 and P.types[atys[0]]['k'] == 'ref' and P.pointee(atys[0]) == self.src:
            k = st.g.get('!in', 0)
            if k < self.nb:
                s = st.copy()
                s.g['!in'] = k + 1
                return [(some(('n', self.bytes[k], 'u8')), s)]
            return [(NONE, st)]
        if fid in self.downs:
            k = st.g.get('!asked', ())
            out = []
            es = elems(P, dty)
            d = self.downs[fid]
            for val in (0, 1) if k else (1,):       # every single byte has a code
                for more in (0, 1):
                    s = st.copy()
                    s.g['!asked'] = k + ((args[1][1], val, more),)
                    vv = NONE
                    if val:
                        vv = some(('r', ip.new_obj(s, ('n', self.vals[len(k)], P.types[self.parts.code]['n']), 'value'), (), None))
                    out.append((('s', (vv, some(args[0]) if more else NONE)), s))
            return out
        return None


def search_part(P, r, parts, E_new, E):
    """The symbol found is the one of the longest entry; bytes after it are read again."""
    fid = parts.finds[0]
    name = P.fns[fid]['path']
    downs = {}
    for i, f in enumerate(P.fns):
        if mine(f) and f['body']['nargs'] == 2:
            L = f['body']['locals']
            if P.types[L[0]]['k'] == 'tuple' and P.types[L[2]]['k'] == 'uint' and P.types[L[2]]['n'] == 'u8':
                es = elems(P, L[0])
                if len(es) == 2 and option_of(P, es[0]) is not None and P.types[option_of(P, es[0])]['k'] == 'ref' and P.pointee(option_of(P, es[0])) == parts.code and option_of(P, es[1]) == L[1]:
                    downs[i] = L[1]
    if not downs:
        r.undecide('%s: the look-up of the dictionary is not recognised' % name)
        return
    src = P.fns[E_new]['body']['locals'][1]
    inputs = [f[1] for f in P.types[E]['v'][0]['f'] if P.types[f[1]]['k'] == 'adt' and P.types[f[1]].get('crate') == 'cniic']
    reads = [i for i, f in enumerate(P.fns) if mine(f) and f['path'].endswith('Iterator>::next') and P.types[f['body']['locals'][1]]['k'] == 'ref' and P.pointee(f['body']['locals'][1]) in inputs]
    if len(reads) != 1:
        r.undecide('%s: its input is not recognised' % name)
        return
    ity = P.pointee(P.fns[reads[0]]['body']['locals'][1])
    ij = [j for j, f in enumerate(P.types[E]['v'][0]['f']) if f[1] == ity][0]
    NB = 4
    h0 = Dict()
    try:
        ip0, st, v = start(P, parts, E_new, E, h0)
        h = Search(P, parts, src, downs, NB)
        ip = Interp(P, h, steps=400000)
        h.ip = ip
        ip.nomerge, ip.keepapart, ip.bounded, ip.MAXSTATES = True, True, 12, 4000
        h.bytes = [T.fresh('in%d' % k, 0, 255, 'in') for k in range(NB)]
        h.vals = [T.fresh('entry%d' % k, 0, 65535, 'entry') for k in range(NB + 1)]
        base = st.pc.conds()
        s0 = st.copy()
        o = ip.new_obj(s0, v, 'machine')
        def search(s, begin, before):
            """Outcomes of one search that starts with byte `begin` of the input: [(state, first byte of the next search)]."""
            s = s.copy()
            s.g['!asked'] = ()
            out = []
            for v, s1 in ip.exec_fn(fid, [('r', o, (), None)], s):
                asked = s1.g.get('!asked', ())
                if v[0] != 's' or v[1][0][0] != 'e' or len(v[1][0][1]) != 1:
                    raise Stuck('result of the search not recognised')
                a, fs = v[1][0][1][0]
                sym = fs[0][1] if a == 1 else None
                q = flat(v[1][1])
                if q is None:
                    raise Stuck('sequence of the search not recognised')
                mine = h.bytes[begin:]
                last = max([i for i, x in enumerate(asked) if x[1]], default=-1)
                said = 'with dictionary answers (%s) for successive bytes%s' % (', '.join('%s%s' % ('entry' if x[1] else 'no entry', '' if x[2] else ', no longer one') for x in asked), before)
                if [x[0] for x in asked] != mine[:len(asked)]:
                    if begin == 0:
                        return 'the search looks up other bytes than it reads', '%s: %s' % (name, said)
                    return 'bytes after the symbol are lost or reordered', '%s: %s it reads %s' % (name, said, ['byte %d' % (h.bytes.index(x[0]) + 1) if x[0] in h.bytes else '?' for x in asked])
                want_sym = h.vals[last] if last >= 0 else None
                if sym != want_sym:
                    return 'the symbol is not that of the longest entry', '%s: %s it gives %s' % (name, said, 'the symbol of entry %d' % h.vals.index(sym) if sym in h.vals else 'no symbol' if sym is None else T.show(sym))
                if list(q) != mine[:last + 1]:
                    return 'the sequence is not that of the symbol', '%s: %s it gives the symbol of the first %d with a sequence of %d' % (name, said, last + 1, len(q))
                if (not asked or asked[-1][2]) and len(asked) < len(mine):
                    return 'the search stops while longer entries exist', '%s: %s' % (name, said)
                out.append((s1, begin + last + 1, ', after a search that kept %d of %d bytes' % (last + 1, len(asked))))
            return out

        def rest(s):
            """Sequences the input gives from here."""
            live = [(s.copy(), ())]
            for _ in range(NB + 1):
                nl = []
                for s1, got in live:
                    for w, s2 in ip.exec_fn(reads[0], [('r', o, (ij,), None)], s1):
                        if w[0] != 'e' or len(w[1]) != 1:
                            raise Stuck('byte of the input not recognised')
                        nl.append((s2, got + ((w[1][0][1][0][1] if w[1][0][0] == 1 else None),)))
                live = nl
            return [g for _, g in live]

        n = 0
        level = [(s0, 0, '')]
        for k in range(2 if r.tier == 'quick' else 3):
            nl = []
            for s, begin, before in level:
                got = search(s, begin, before)
                if isinstance(got, tuple):
                    r.violation(*got)
                    return
                nl += got
            for s, begin, before in nl:
                n += 1
                want = h.bytes[begin:] + [None] * (NB + 1 - len(h.bytes[begin:]))
                for g in rest(s):
                    if list(g) != want:
                        r.violation('bytes after the symbol are lost or reordered', '%s%s: %d of %d bytes belong to symbols, then the input gives %s' % (name, before, begin, NB, ['byte %d' % (h.bytes.index(x) + 1) if x in h.bytes else 'end' for x in g]))
                        return
            level = nl
        r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
        r.count('dictionary answers enumerated', n)
        if n:
            r.ok('%s: symbol, sequence and unread bytes are right for %d sequences of dictionary answers' % (name, n))
        else:
            r.undecide('%s: no outcome' % name)
    except Stuck as e:
        r.undecide('%s: %s' % (name, e))
    except Budget:
        r.undecide('%s: step budget exhausted' % name)


# ---- the dictionary of the encoder

def trie_part(P, r, parts):
    """Entries put into the dictionary are found again by descending along their bytes."""
    ins = parts.inserts[0]
    name = P.fns[ins]['path']
    D = P.pointee(P.fns[ins]['body']['locals'][1])
    news = [i for i, f in enumerate(P.fns) if mine(f) and f['body']['nargs'] == 0 and f['body']['locals'][0] == D]
    downs = [i for i, f in enumerate(P.fns) if mine(f) and f['body']['nargs'] == 2 and P.types[f['body']['locals'][0]]['k'] == 'tuple' and len(elems(P, f['body']['locals'][0])) == 2
             and option_of(P, elems(P, f['body']['locals'][0])[1]) == f['body']['locals'][1] and option_of(P, elems(P, f['body']['locals'][0])[0]) is not None]
    if not news or not downs:
        r.undecide('%s: constructor or descent of the dictionary not recognised' % name)
        return
    dt = P.fns[downs[0]]['body']['locals'][1]
    tops = [i for i, f in enumerate(P.fns) if mine(f) and f['body']['nargs'] == 1 and f['body']['locals'][0] == dt and P.types[f['body']['locals'][1]]['k'] == 'ref' and P.pointee(f['body']['locals'][1]) == D]
    if not tops:
        r.undecide('%s: start of a descent not recognised' % name)
        return
    tn = P.types[parts.code]['n']
    many = [(k * 7) % 256 for k in range(0, 70)]
    families = [('nested sequences', [(1,), (1, 2), (1, 2, 3), (2, 2), (1, 3), (0,), (255, 0), (2,), (1, 2, 4), (255, 0, 255, 7)], [(3,), (1, 2, 5), (2, 2, 2), (0, 0), (255,), (1, 1)]),
                ('long sequences first', [(5, 6, 7, 8), (5, 6), (5,), (5, 6, 7, 9), (6,)], [(5, 6, 7), (7,), (5, 7)]),
                ('70 single bytes', [(b,) for b in many], [(1,), (255,)]),
                ('70 pairs of bytes', [(9, b) for b in many] + [(b, 9) for b in many], [(9,), (9, 1), (1, 9)])]
    for what, seqs, absent in families:
        T.reset()
        ip = Interp(P, Hooks(), steps=900000)
        ip.hooks.ip = ip
        ip.nomerge, ip.keepapart, ip.bounded, ip.MAXSTATES = True, True, 300, 60
        try:
            st = State()
            outs = ip.exec_fn(news[0], [], st)
            if len(outs) != 1:
                raise Stuck('constructor has %d outcomes' % len(outs))
            v, s = outs[0]
            o = ip.new_obj(s, v, 'dict')
            vals = {}
            for k, q in enumerate(seqs):
                x = T.fresh('code%d' % k, 0, 65535, 'code')
                vals[q] = x
                b = ip.new_obj(s, ('q', tuple(('v', ('n', T.const(y), 'u8')) for y in q)), 'seq')
                outs = ip.exec_fn(ins, [('r', o, (), None), ('r', b, (), ('w', T.const(0), T.const(len(q)))), ('n', x, tn)], s)
                if len(outs) != 1:
                    raise Stuck('insertion has %d outcomes' % len(outs))
                s = outs[0][1]
            n = 0
            for q in list(vals) + absent:
                outs = ip.exec_fn(tops[0], [('r', o, (), None)], s.copy())
                if len(outs) != 1:
                    raise Stuck('start of a descent has %d outcomes' % len(outs))
                d, s1 = outs[0]
                got = None
                for b in q:
                    if d is None:
                        got = None
                        break
                    outs = ip.exec_fn(downs[0], [d, ('n', T.const(b), 'u8')], s1)
                    if len(outs) != 1 or outs[0][0][0] != 's':
                        raise Stuck('descent has %d outcomes' % len(outs))
                    w, s1 = outs[0]
                    val, nx = w[1]
                    if val[0] != 'e' or nx[0] != 'e' or len(val[1]) != 1 or len(nx[1]) != 1:
                        raise Stuck('answer of a descent not recognised')
                    got = None
                    if val[1][0][0] == 1:
                        g = val[1][0][1][0]
                        while g[0] == 'r':
                            g = ip.load(s1, g[1], g[2])
                        got = g[1]
                    d = nx[1][0][1][0] if nx[1][0][0] == 1 else None
                n += 1
                if got != vals.get(q):
                    r.violation('the dictionary gives another code than was entered', '%s, %s: after entering %d sequences, looking up %s gives %s' % (name, what, len(seqs), list(q), 'nothing' if got is None else 'the code of another sequence' if q in vals else 'a code, though it was never entered'))
                    return
            r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
            r.ok('%s, %s: %d look-ups give the code entered' % (name, what, n))
        except Stuck as e:
            r.undecide('%s, %s: %s' % (name, what, e))
        except Budget:
            r.undecide('%s, %s: step budget exhausted' % (name, what))


# ---- the stream of symbols

def stream_part(P, r, parts, names):
    """Both symbols of a pair are written, in order, for every pair."""
    import props.c04 as c04
    roots = [i for i, f in enumerate(P.fns) if mine(f) and f['body']['nargs'] == 2 and f['body']['locals'][1] == P.fns[parts.enew]['body']['locals'][1]
             and P.tyname(f['body']['locals'][2]).lstrip('&') == 'cniic::__vp::Sink']
    rd = [i for i, f in enumerate(P.fns) if f['path'].endswith('ser::Deserialize>::deserialize') and f['body'] and option_of(P, f['body']['locals'][0]) == parts.code
          and P.tyname(f['body']['locals'][1]).lstrip('&') == 'cniic::__vp::Reader']
    g = cg.CG(P)
    roots = [i for i in roots if parts.enc in g.reach([i])]
    if len(roots) != 1 or not rd:
        r.undecide('the function that writes the symbols is not recognised')
        return
    fid = roots[0]
    name = P.fns[fid]['path']
    T.reset()
    tn = P.types[parts.code]['n']
    S = [T.fresh('symbol%d' % k, 0, 65535, 'val') for k in range(4)]

    class W(c04.H):
        def call(self, ip, act, st, g, f, args, atys, dty, t):
            if g == parts.enc:
                k = st.g.get('!pair', 0)
                s = st.copy()
                s.g['!pair'] = k + 1
                if k < 2:
                    return [(some(('s', (('n', S[2 * k], tn), ('n', S[2 * k + 1], tn)))), s)]
                return [(NONE, s)]
            if g == parts.enew:
                return [(('t', dty, 'machine'), st)]
            if f['crate'] == 'cniic' and f['body'] and f['body']['nargs'] == 1 and g != fid and P.types[f['body']['locals'][0]]['k'] == 'tuple' and not elems(P, f['body']['locals'][0]) and 'drop' not in f['path']:
                return [(UNIT, st)]
            return None
    h = W()
    ip = Interp(P, h, steps=100000)
    h.ip = ip
    ip.nomerge, ip.bounded, ip.MAXSTATES = True, 8, 200
    st = State()
    st.g['log'] = ()
    try:
        outs = ip.exec_fn(fid, [('t', P.fns[fid]['body']['locals'][1], 'in'), ip.new_ref(P.pointee(P.fns[fid]['body']['locals'][2]), 'sink', st)], st)
        n = 0
        for v, s in outs:
            if v[0] != 'e' or not any(a == 0 for a, _ in v[1]):
                continue
            log = s.g['log']
            if '*' in log:
                raise Stuck('bytes written not recognised')
            got = []
            o = ip.new_ref(P.pointee(P.fns[rd[0]]['body']['locals'][1]), 'rd', s)
            live = s
            for k in range(4):
                outs2 = [(w, s2) for w, s2 in ip.exec_fn(rd[0], [o], live)]
                if len(outs2) != 1 or outs2[0][0][0] != 'e' or len(outs2[0][0][1]) != 1:
                    raise Stuck('symbols read not recognised')
                w, live = outs2[0]
                got.append(w[1][0][1][0][1] if w[1][0][0] == 1 and not live.g.get('!extra') else None)
            n += 1
            if got != S:
                r.violation('symbols are not written in order', '%s: of two pairs, the symbols read back are %s' % (name, ['symbol %d' % (S.index(g) + 1) if g in S else 'none' if g is None else T.show(g)[:40] for g in got]))
                return
            if live.g.get('!pos', 0) != len(log):
                r.violation('more than the symbols is written', '%s: two pairs take %d bytes, %d are read' % (name, len(log), live.g.get('!pos', 0)))
                return
        r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
        if n:
            r.ok('%s writes both symbols of each pair in order' % name)
        else:
            r.undecide('%s: no successful outcome' % name)
    except Stuck as e:
        r.undecide('%s: %s' % (name, e))
    except Budget:
        r.undecide('%s: step budget exhausted' % name)


def label(t):
    if t is None:
        return None
    if isinstance(t[1], tuple) and len(t) == 2 and not isinstance(t[0], int):
        return '%s times %s' % (label(t[0]), label(t[1]))
    if t[0] == 0 and len(t[1]) == 1 and t[1][0][1] == 1:
        return T.SYMS[t[1][0][0]].name.split('#')[0]
    return T.show(t)


def check(P, r):
    r.rule = RULE
    r.assume = ['a pair whose symbols were both found has sequences of arbitrary bytes (two and one bytes are taken)', 'the dictionary of the encoder is followed for 4 families of sequences with arbitrary codes, not for every set of sequences',
                'third-party functions behave as modelled in tools/models.py']
    p = Parts(P)
    if p.enc is None or not p.good:
        r.undecide('compressor or decompressor not recognised')
        return
    en, dn = P.fns[p.enc]['path'], P.fns[p.dec]['path']
    try:
        e = Enc(P, p, en, p.enew, p.E)
        ecases = e.step(True)
        eodd = e.step(False)
        e.long = True
        elong = e.step(True)
        e.finish()
        with e:
            eents = {(q, c) for q, c in e.entries}
            one = {c[0] for q, c in e.entries if q is not None and len(q) == 1 and T.is_const(c)}
        ends = {x[1][1] for x in eodd if x[1] is not None}
        esym = {x[1][0] for x in eodd if x[1] is not None}
    except Abort as x:
        r.violation('the compressor aborts', '%s never returns normally' % x)
        return
    except (Stuck, Budget) as x:
        r.undecide('%s: %s' % (en, x if isinstance(x, Stuck) else 'step budget exhausted'))
        return
    r.funcs.update(e.fns)
    if any(x[1] is None for x in eodd) and not ends:
        r.violation('an odd last symbol is dropped', '%s: when only one symbol is left it gives no pair' % en)
        return
    if len(ends) != 1 or not T.is_const(next(iter(ends))):
        r.undecide('%s: symbol completing an odd stream not constant' % en)
        return
    if esym != {e.S[0]}:
        r.violation('an odd last symbol is not kept', '%s: the pair completed with the end symbol is not headed by the last symbol' % en)
        return
    eof = next(iter(ends))[0]
    try:
        d = Dec(P, p, dn, p.dnew, p.D)
        dcases = d.step(None)
        dodd = d.step(eof)
        d.long = True
        dlong = d.step(None)
        d.finish()
    except Abort as x:
        r.violation('the decompressor aborts', '%s never returns normally' % x)
        return
    except (Stuck, Budget) as x:
        r.undecide('%s: %s' % (dn, x if isinstance(x, Stuck) else 'step budget exhausted'))
        return
    r.funcs.update(d.fns)
    # initial entries
    def table(m):
        out = {}
        for q, c in m.entries:
            if q is None or c is None or not T.is_const(c) or not all(T.is_const(x) for x in q):
                return None
            out.setdefault(tuple(x[0] for x in q), []).append(c[0])
        return out
    et, dt = table(e), table(d)
    if et is None or dt is None:
        r.undecide('initial entries are not constant')
        return
    r.count('initial entries', sum(map(len, et.values())) + sum(map(len, dt.values())))
    for b in range(256):
        x, y = et.get((b,)), dt.get((b,))
        if not x or not y or x[-1] != y[-1]:
            r.violation('the initial dictionaries differ', 'the byte %d starts with code %s in the compressor (%s) and %s in the decompressor (%s)' % (b, x[-1] if x else 'none', P.fns[p.enew]['path'], y[-1] if y else 'none', P.fns[p.dnew]['path']))
            return
    codes = [c for q, cs in et.items() for c in cs[-1:]]
    if len(set(codes)) != len(codes):
        r.violation('two sequences share a code', '%s: initial dictionary' % P.fns[p.enew]['path'])
        return
    if eof in codes:
        r.violation('the end symbol is assigned', '%s: code %d, which ends an odd stream, stands for a byte' % (P.fns[p.enew]['path'], eof))
        return
    by_code = {}
    for q, c in d.entries:
        by_code[c[0]] = tuple(x[0] for x in q)
    if by_code.get(eof) != ():
        r.violation('the end symbol is not read as the end', '%s: the compressor completes an odd stream with %d, which the decompressor reads as %s' % (P.fns[p.dnew]['path'], eof, list(by_code[eof]) if eof in by_code else 'unassigned'))
        return
    for c, q in sorted(by_code.items()):
        if c != eof and et.get(q, [None])[-1] != c:
            r.violation('the initial dictionaries differ', '%s: code %d stands for %s, in the compressor for something else' % (P.fns[p.dnew]['path'], c, list(q)))
            return
    r.ok('both start from the 256 single bytes; %d is reserved for the end' % eof)
    # an odd end
    with d:
        for conds, got, ins, new in dodd:
            if [label(x) for x in got] != ['byte0', 'byte1', None]:
                r.violation('an odd last symbol is not given back', '%s: the last symbol followed by the end symbol gives %s' % (dn, [label(x) for x in got]))
                return
    r.ok('%s: a symbol followed by the end symbol gives its bytes, then the end' % dn)
    # lock-step
    ce, cd = list(e.init), list(d.init)
    assigned = set(codes) | {eof}
    full = False
    n = 0
    while n < 70000:
        with e:
            why = e.aborts(ce)
            oe = [] if why else [(res and [label(x) for x in res], [(None if q is None else [label(x) for x in q], c) for q, c in ins], new) for res, ins, new in e.after(ce, ecases)]
        if why:
            r.violation('the compressor aborts', '%s: %s, after %d pairs' % (en, why, n))
            return
        with d:
            why = d.aborts(cd)
            od = [] if why else [([label(x) for x in got], [(None if q is None else [label(x) for x in q], c) for q, c in ins], new) for got, ins, new in d.after(cd, dcases)]
        if why:
            r.violation('the decompressor aborts', '%s: %s, after %d pairs' % (dn, why, n))
            return
        if len(oe) != 1 or len(od) != 1:
            r.undecide('after %d pairs: %d outcomes of the compressor, %d of the decompressor' % (n, len(oe), len(od)))
            return
        (res, ie, ne), (got, idd, nd) = oe[0], od[0]
        if res != ['symbol1', 'symbol2']:
            r.violation('another pair is written than was found', '%s: %s, after %d pairs' % (en, res, n))
            return
        if got != ['byte0', 'byte1', 'byte2', None]:
            r.violation('a pair does not decode to its sequences', '%s: symbols for (byte0, byte1) and (byte2) give %s, after %d pairs' % (dn, got, n))
            return
        if ie != idd:
            r.violation('the dictionaries diverge', 'after %d pairs %s enters %s, %s enters %s' % (n, en, ie or 'nothing', dn, idd or 'nothing'))
            return
        for q, c in ie:
            if q is None:
                r.undecide('sequence entered after %d pairs is not recognised' % n)
                return
            if q != ['byte0', 'byte1', 'byte2']:
                r.violation('another sequence is entered than the pair', 'after %d pairs the sequence entered for code %d is %s' % (n, c, q))
                return
            if c == eof:
                r.violation('the end symbol is assigned', 'after %d pairs the code %d, which ends an odd stream, is given to a sequence' % (n, c))
                return
            if c in assigned:
                r.violation('two sequences share a code', 'after %d pairs the code %d is given a second time' % (n, c))
                return
            assigned.add(c)
        n += 1
        if list(ne) == ce and list(nd) == cd and not ie:
            full = True
            break
        ce, cd = list(ne), list(nd)
    r.count('steps of the transition functions compared', n)
    if full:
        r.ok('%d steps: same code, same sequence on both sides until both are full' % n)
    else:
        r.undecide('no full dictionary after %d steps' % n)
    long_part(r, e, elong, d, dlong, en, dn)
    search_part(P, r, p, p.enew, p.E)
    stream_part(P, r, p, (en, dn))
    trie_part(P, r, p)
