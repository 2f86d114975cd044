"""C09: bits are read back in the order they were written."""
import cg, panics
import absint, models as M, terms as T, teval
from absint import Interp, State, Stuck, Budget
from props import c04
from run import Hooks

RULE = ('The operations of the bit writer are interpreted once for arbitrary contents of its fields, which gives bytes put out and next contents in closed form; the reader gives the bits of an arbitrary byte the same way. '
        'The product of the writer\'s states with the bits still pending is then explored completely from the constructor: in every reachable state, for each bit and each of the 256 bytes, bytes put out are those the reader takes apart into the pending bits and the new ones, in order.')


def elems(P, ty):
    return P.types[ty].get('a') or []


def option_of(P, ty):
    t = P.types[ty]
    return t['args'][0] if t['k'] == 'adt' and t['name'].endswith('option::Option') else None


def mine(f):
    return f['crate'] == 'cniic' and f['body'] is not None and '__vp' not in f['path']


def flags(P, ty):
    """Is this a type of two values of the program?"""
    t = P.types[ty]
    return t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'enum' and len(t['v']) == 2 and not any(v['f'] for v in t['v'])


def is_result(P, ty):
    t = P.types[ty]
    return t['k'] == 'adt' and t['name'].endswith('result::Result') and P.types[t['args'][0]]['k'] == 'tuple' and not elems(P, t['args'][0])


class Parts:
    def __init__(self, P):
        self.P = P
        self.W = None
        sink = lambda ty: P.tyname(ty).lstrip('&') == 'cniic::__vp::Sink'
        for i, f in enumerate(P.fns):
            if not mine(f) or f['body']['nargs'] != 2:
                continue
            L = f['body']['locals']
            if P.types[L[1]]['k'] != 'ref' or not is_result(P, L[0]) or not flags(P, L[2]):
                continue
            W = P.pointee(L[1])
            t = P.types[W]
            if t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct' and any(sink(x[1]) for x in t['v'][0]['f']):
                self.W, self.bit, self.put = W, L[2], i
                break
        if self.W is None:
            return
        self.whole = False      # padding takes the writer by value
        self.fall = None
        self.byte = self.pad = self.arr = self.new = None
        for i, f in enumerate(P.fns):
            if not mine(f):
                continue
            L, n = f['body']['locals'], f['body']['nargs']
            ref = n and P.types[L[1]]['k'] == 'ref' and P.pointee(L[1]) == self.W
            if ref and is_result(P, L[0]):
                if n == 1:
                    self.pad = i
                if n == 2 and P.types[L[2]]['k'] == 'uint' and P.types[L[2]]['n'] == 'u8':
                    self.byte = i
                if n == 2 and P.types[L[2]]['k'] == 'ref' and P.types[P.pointee(L[2])].get('crate') == 'cniic' and P.types[P.pointee(L[2])].get('ak') == 'struct':
                    self.arr, self.code = i, P.pointee(L[2])
            if n == 1 and L[1] == self.W and is_result(P, L[0]) and self.pad is None:
                self.pad, self.whole = i, True
            if n == 1 and ref and f['path'].endswith('Drop>::drop'):
                self.fall = i
            if L[0] == self.W and n >= 1 and sink(L[1]):
                self.new = i
        if self.pad is None:
            self.pad = self.fall
        self.read = []
        for i, f in enumerate(P.fns):
            if mine(f) and f['body']['nargs'] >= 1 and P.tyname(f['body']['locals'][1]).lstrip('&') == 'cniic::__vp::Reader' and f['body']['nargs'] <= 2:
                R = f['body']['locals'][0]
                nx = [j for j, g in enumerate(P.fns) if g['body'] and g['path'].endswith('Iterator>::next') and g['body']['nargs'] == 1 and P.types[g['body']['locals'][1]]['k'] == 'ref'
                      and P.pointee(g['body']['locals'][1]) == R and option_of(P, g['body']['locals'][0]) == self.bit]
                if nx:
                    self.read.append((i, nx[0]))
        self.pack = None
        if self.arr is not None:
            for i, f in enumerate(P.fns):
                if mine(f) and f['body']['nargs'] >= 1 and f['body']['locals'][0] == self.code:
                    t = P.types[f['body']['locals'][1]]
                    if t['k'] == 'ref' and P.types[t['e']]['k'] == 'slice' and P.types[t['e']]['e'] == self.bit:
                        self.pack = i


def constant_args(P, fid, k):
    """Constants handed to parameter k of a function over the whole program; None among them if one is not a constant."""
    out = set()
    for f in P.fns:
        if not f['body']:
            continue
        for b in f['body']['blocks']:
            t = b['t']
            if t['k'] == 'call' and t['f'][0] == 'k' and t['f'][1].get('fn') == fid:
                out.add(constant(f, t['a'][k]))
    return out


def constant(f, o, d=0):
    """Variant an operand names, through moves of locals assigned once."""
    if o[0] == 'k':
        return int.from_bytes(bytes.fromhex(o[1]['b']), 'little') if 'b' in o[1] else None
    if o[1][1] or d > 4:
        return None
    src = [s[2] for b in f['body']['blocks'] for s in b['s'] if s[0] == '=' and s[1][0] == o[1][0]]
    if len(src) != 1 or o[1][0] <= f['body']['nargs'] or any(b['t']['k'] == 'call' and b['t']['d'][0] == o[1][0] for b in f['body']['blocks']):
        return None
    x = src[0]
    if x[0] == 'agg' and x[1][0] == 'adt' and not x[2]:
        return x[1][2]
    if x[0] == 'use':
        return constant(f, x[1], d + 1)
    return None


def variant(n):
    return ('e', ((n, ()),), None)


def leaves(P, ty, v, path=()):
    """[(path, type name)] of the numbers a writer keeps."""
    t = P.types[ty]
    if t['k'] in ('uint', 'int', 'bool'):
        return [(path, t.get('n') or 'bool')]
    out = []
    if len(path) < 4 and t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct':
        for j, f in enumerate(t['v'][0]['f']):
            out += leaves(P, f[1], v, path + (j,))
    if t['k'] == 'tuple':
        for j, x in enumerate(elems(P, ty)):
            out += leaves(P, x, v, path + (j,))
    return out


from props.c11 import put as put_at, at


class H(c04.H):
    parts = None


def nothing(s):
    raise teval.Unknown(s.name)


RANGE = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1), 'u64': (0, (1 << 64) - 1), 'usize': (0, (1 << 64) - 1), 'bool': (0, 1)}


class Writer:
    def __init__(self, P, p, order):
        self.P, self.p = P, p
        T.reset()
        h = H()
        ip = self.ip = Interp(P, h, steps=400000)
        h.ip = ip
        ip.nomerge, ip.bounded, ip.MAXSTATES = True, 12, 500
        ip.collector = []
        st = State()
        st.g['log'] = ()
        f = P.fns[p.new]
        args = [ip.new_ref(P.pointee(f['body']['locals'][1]), 'sink', st)] + [variant(order)] * (f['body']['nargs'] - 1)
        outs = ip.exec_fn(p.new, args, st)
        if len(outs) != 1:
            raise Stuck('constructor has %d outcomes' % len(outs))
        v, self.st = outs[0]
        self.paths = leaves(P, p.W, v)
        self.init = []
        for q, n in self.paths:
            x = at(v, q)
            if x[0] not in 'nb' or not T.is_const(x[1]):
                raise Stuck('initial contents not constant')
            if n not in RANGE:
                raise Stuck('contents of type ' + n)
            self.init.append(x[1][0])
        self.init = tuple(self.init)
        self.syms = [T.fresh('field%d' % k, *RANGE[n], 'field') for k, (q, n) in enumerate(self.paths)]
        for (q, n), s in zip(self.paths, self.syms):
            v = put_at(v, q, ('n', s, n))
        self.v = v
        self.rest = self.blank(v)
        self.n = T.fresh('byte', 0, 255, 'byte')
        base = self.st.pc.conds()
        self.ops = {}
        for name, fid, args in [('bit 0', p.put, [variant(0)]), ('bit 1', p.put, [variant(1)]), ('byte', p.byte, [('n', self.n, 'u8')]), ('pad', p.pad, [])]:
            if fid is None:
                continue
            s = self.st.copy()
            o = ip.new_obj(s, v, 'writer')
            ip.collector, ip.first = [], []
            cases = []
            for w, s2 in ip.exec_fn(fid, [v if name == 'pad' and p.whole else ('r', o, (), None)] + args, s):
                if w[0] == 'e' and not any(a == 0 for a, _ in w[1]):
                    continue        # the output failed
                x = ip.load(s2, o, ())
                if self.blank(x) != self.rest:
                    raise Stuck('writer changed beyond its numbers')
                log = s2.g['log']
                if '*' in log:
                    raise Stuck('bytes put out not recognised')
                cases.append(([c for c in s2.pc.conds() if c not in base], [y[1] for y in log], [at(x, q)[1] for q, n in self.paths]))
            fails = [(e[1], e[2], e[3], [c for c in e[5].pc.conds() if c not in base]) for e in panics.events(ip)]
            self.ops[name] = (cases, fails, fid)

    def blank(self, v):
        for q, n in self.paths:
            v = put_at(v, q, ('u',))
        return v

    def apply(self, name, state, n=None):
        """(bytes put out, next state) or a text about why not."""
        e = teval.Ev(pick=nothing)
        for s, c in zip(self.syms, state):
            e.v[s[1][0][0]] = c
        if n is not None:
            e.v[self.n[1][0][0]] = n
        cases, fails, fid = self.ops[name]
        for kind, site, cond, conds in fails:
            if all(e.cond(c) for c in conds) and (cond is None or not e.cond(cond)):
                return '%s in %s' % (kind, site[0])
        hit = [(out, new) for conds, out, new in cases if all(e.cond(c) for c in conds)]
        if len(hit) != 1:
            raise Stuck('%s: %d outcomes' % (name, len(hit)))
        out, new = hit[0]
        return tuple(e.term(x) for x in out), tuple(e.term(x) for x in new)


class RH(H):
    def reader_next(self, ip, st, a, act, t):
        log = st.g.get('log', ())
        p = st.g.get('!pos', 0)
        s = st.copy()
        if p < len(log):
            s.g['!pos'] = p + 1
            return [(M.some(log[p]), s)]
        return [(M.NONE, s)]


def reader(P, p, order):
    """Bits of each byte value, in the order they are read; a text if the reader does not take bytes in order."""
    T.reset()
    h = RH()
    ip = Interp(P, h, steps=900000)
    h.ip = ip
    ip.nomerge, ip.bounded, ip.MAXSTATES = True, 12, 2000
    fid, nx = p.read[0]
    f = P.fns[fid]
    n = T.fresh('byte', 0, 255, 'byte')
    SECOND = 0xA3
    st = State()
    st.g['log'] = (('n', n, 'u8'), ('n', T.const(SECOND), 'u8'))
    outs = ip.exec_fn(fid, [ip.new_ref(P.pointee(f['body']['locals'][1]) if P.types[f['body']['locals'][1]]['k'] == 'ref' else f['body']['locals'][1], 'rd', st)] + [variant(order)] * (f['body']['nargs'] - 1), st)
    if len(outs) != 1:
        raise Stuck('reader has %d outcomes' % len(outs))
    v, s = outs[0]
    o = ip.new_obj(s, v, 'bits')
    live = [(s, ())]
    for k in range(17):
        nl = []
        for s, got in live:
            for w, s2 in ip.exec_fn(nx, [('r', o, (), None)], s):
                if w[0] != 'e':
                    raise Stuck('bit not recognised')
                for a, fs in w[1]:
                    s3 = s2.assume(ip.vdiscr(w, a)) if len(w[1]) > 1 else s2
                    if s3 is None:
                        continue
                    if a == 0:
                        nl.append((s3, got + (None,)))
                        continue
                    if fs[0][0] != 'e':
                        raise Stuck('bit not recognised')
                    for b, _ in fs[0][1]:
                        s4 = s3.assume(ip.vdiscr(fs[0], b)) if len(fs[0][1]) > 1 else s3
                        if s4 is not None:
                            nl.append((s4 if s4 is not s3 else s3.copy(), got + (b,)))
        live = nl
    R = {}
    tail = {}
    for x in range(256):
        e = teval.Ev(pick=nothing)
        e.v[n[1][0][0]] = x
        hit = {got for s, got in live if all(e.cond(c) for c in s.pc.conds())}
        if len(hit) != 1:
            raise Stuck('%d readings of a byte' % len(hit))
        got = hit.pop()
        R[x] = got[:8]
        tail[x] = got[8:]
    return R, tail, SECOND, ip


def show(bits):
    return ''.join(map(str, bits)) or 'none'


def explore(r, w, R, names, limit):
    """Product of the writer and the bits it owes."""
    seen = {(w.init, ()): None}
    work = [(w.init, ())]
    n = 0

    def how(x):
        out = []
        while seen[x] is not None:
            x, op = seen[x]
            out.append(op)
        return ', '.join(reversed(out)) or 'nothing'
    for cur in work:
        state, owed = cur
        ops = [('bit 0', None, (0,)), ('bit 1', None, (1,)), ('pad', None, None)] + ([('byte', k, R[k]) for k in range(256)] if 'byte' in w.ops else [])
        for name, k, bits in ops:
            if name not in w.ops:
                continue
            n += 1
            got = w.apply(name, state, k)
            op = 'byte 0x%02x' % k if name == 'byte' else name
            if isinstance(got, str):
                r.violation('the bit writer aborts', '%s, after writing %s' % (got, how(cur)))
                return None
            out, new = got
            due = owed + (bits or ())
            where = '%s, %s after writing %s' % (names[name], op, how(cur))
            for y in out:
                if not 0 <= y <= 255:
                    raise Stuck('byte put out beyond its type')
                b = R[y]
                have = due[:8]
                if name != 'pad' and len(have) < 8:
                    r.violation('bits are written that were not given', '%s: puts out %s when only the bits %s are pending' % (where, show(b), show(have)))
                    return None
                if not have:
                    r.violation('bits are written that were not given', '%s: puts out %s when nothing is pending' % (where, show(b)))
                    return None
                if b[:len(have)] != have:
                    r.violation('other bits are read than were written', '%s: puts out a byte read as %s for the pending bits %s' % (where, show(b), show(have)))
                    return None
                if any(b[len(have):]):
                    r.violation('the padding is not zero', '%s: puts out %s for the pending bits %s' % (where, show(b), show(have)))
                    return None
                due = due[8:]
            if name == 'pad' and due:
                r.violation('pending bits are dropped', '%s: the bits %s are not put out' % (where, show(due)))
                return None
            nxt = (new, due)
            if nxt not in seen and not (name == 'pad' and w.p.whole):
                seen[nxt] = (cur, op)
                work.append(nxt)
                if len(work) > limit:
                    return n, len(work), False
    return n, len(work), True


def check(P, r):
    r.rule = RULE
    r.assume = ['the output accepts what it is given or fails', 'third-party functions behave as modelled in tools/models.py']
    p = Parts(P)
    if p.W is None or p.new is None or not p.read:
        r.undecide('bit writer or reader not recognised')
        return
    orders = set()
    for fid, k in [(p.new, P.fns[p.new]['body']['nargs'])] + [(i, P.fns[i]['body']['nargs']) for i, _ in p.read] + ([(p.pack, P.fns[p.pack]['body']['nargs'])] if p.pack is not None else []):
        orders |= constant_args(P, fid, 1) if k > 1 else set()
    if None in orders:
        r.undecide('bit order is not a constant')
        return
    wo, ro = [constant_args(P, f, 1) if P.fns[f]['body']['nargs'] > 1 else {0} for f in (p.new, p.read[0][0])]
    for a in sorted(wo):
        for b in sorted(ro):
            pair(P, r, p, a, b)
    ends(P, r, p)


def pair(P, r, p, a, b):
    R = None
    rn = P.fns[p.read[0][0]]['path']
    try:
        R, tail, second, ip = reader(P, p, b)
        r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
        for x in range(256):
            if None in R[x] or tail[x] != R[second] + (None,):
                r.violation('the reader does not take bytes in order', '%s: the bytes 0x%02x 0x%02x give the bits %s' % (rn, x, second, ['end' if y is None else y for y in R[x] + tail[x]]))
                return
        if len(set(R.values())) != 256:
            x, y = next((x, y) for x in range(256) for y in range(x) if R[x] == R[y])
            r.violation('two bytes are read alike', '%s: the bytes 0x%02x and 0x%02x both give %s' % (rn, x, y, show(R[x])))
            return
        r.ok('%s gives the 8 bits of each of 256 bytes, then those of the next byte, then the end' % rn)
        w = Writer(P, p, a)
        names = {k: P.fns[v[2]]['path'] for k, v in w.ops.items()}
        got = explore(r, w, R, names, 6000)
        r.funcs.update(P.fns[x]['path'] for x in w.ip.analysed)
        if got is None:
            return
        n, states, whole = got
        r.count('transitions compared', n)
        r.count('states of the writer with pending bits', states)
        if whole:
            r.ok('bit writer: %d transitions from all %d reachable states' % (n, states))
        else:
            r.undecide('bit writer: more than %d reachable states' % states)
    except (Stuck, Budget) as e:
        r.undecide('bit writer: %s' % (e if isinstance(e, Stuck) else 'step budget exhausted'))
    except teval.Unknown as e:
        r.undecide('bit writer: %s not evaluated' % e)
    if R is None:
        return
    if p.pack is None:
        r.undecide('code words not recognised')
        return
    po = constant_args(P, p.pack, 1) if P.fns[p.pack]['body']['nargs'] > 1 else {0}
    for o in sorted(po):
        words(P, r, p, o, a, R, list(range(0, 66)) + ([] if r.tier == 'quick' else list(range(66, 300, 3))))


# ---- code words

class CW(c04.H):
    """Operations of the writer recorded."""
    parts = None
    cut = True

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        p = self.parts
        if self.cut and fid in (p.put, p.byte):
            s = st.copy()
            s.g['!ops'] = s.g.get('!ops', ()) + ((fid, args[1]),)
            return [(('e', ((0, (absint.UNIT,)),), None), s)]
        return None


PRE = (1, 0, 1, 1, 0, 1, 0)


def direct(ip, p, st, wr, word, pre):
    """Outcomes of writing some bits, a code word and the padding."""
    live = [st.copy()]
    for fid, args in [(p.put, [variant(b)]) for b in pre] + [(p.arr, [('r', word, (), None)])] + ([(p.pad, [])] if p.pad is not None else []):
        nl = []
        for s in live:
            for w, s2 in ip.exec_fn(fid, [ip.load(s, wr, ()) if fid == p.pad and p.whole else ('r', wr, (), None)] + args, s):
                if w[0] != 'e' or any(a == 0 for a, _ in w[1]):
                    nl.append((w, s2))
        live = [s for _, s in nl]
    return nl


def words(P, r, p, order, worder, R, lengths):
    """A code word written is the bits it was made of, in order."""
    pn, an = P.fns[p.pack]['path'], P.fns[p.arr]['path']
    done = 0
    for L in lengths:
        T.reset()
        h = CW()
        h.parts = p
        ip = Interp(P, h, steps=900000)
        h.ip = ip
        ip.bounded, ip.MAXSTATES = 2 * L + 40, 2000
        try:
            st = State()
            bits = [ip.expand(('t', p.bit, 'bit%d' % k), st) for k in range(L)]
            o = ip.new_obj(st, ('q', tuple(('v', b) for b in bits)), 'bits')
            outs = ip.exec_fn(p.pack, [('r', o, (), ('w', T.const(0), T.const(L)))] + [variant(order)] * (P.fns[p.pack]['body']['nargs'] - 1), st)
            if len(outs) != 1:
                raise Stuck('%s has %d outcomes' % (pn, len(outs)))
            v, s = outs[0]
            o = ip.new_obj(s, v, 'word')
            ip.nomerge = True
            s.g['log'] = ()
            h.cut = False
            outs = ip.exec_fn(p.new, [ip.new_ref(P.pointee(P.fns[p.new]['body']['locals'][1]), 'sink', s)] + [variant(worder)] * (P.fns[p.new]['body']['nargs'] - 1), s)
            if len(outs) != 1:
                raise Stuck('constructor has %d outcomes' % len(outs))
            v, s = outs[0]
            wr = ip.new_obj(s, v, 'writer')
            h.cut = True
            start = s.copy()
            ip.collector, ip.first = [], []
            outs = ip.exec_fn(p.arr, [('r', wr, (), None), ('r', o, (), None)], s)
            why = [e for e in panics.events(ip) if e[3] is None or e[5].decide(e[3]) is False]
            if not outs and why:
                r.violation('the writer of code words aborts', '%s: %s for every word of %d bits' % (an, why[0][1], L))
                return
            if any(s.g['log'] or ip.load(s, wr, ()) != v for w, s in outs):
                h.cut = False           # it writes by itself: follow it at every alignment
                runs = [(PRE[:m], direct(ip, p, start, wr, o, PRE[:m])) for m in range(8)]
            else:
                runs = [((), outs)]
            ids = [b[2][1][0][0] for b in bits]
            for pre, outs in runs:
                for pat in patterns(L):
                    e = teval.Ev(pick=nothing)
                    for i, b in zip(ids, pat):
                        e.v[i] = b
                    hit = []
                    for w, s in outs:
                        if w[0] != 'e':
                            raise Stuck('result not recognised')
                        if all(e.cond(c) for c in s.pc.conds()):
                            if not any(a == 0 for a, _ in w[1]):
                                raise Stuck('write of a code word fails')
                            hit.append(s)
                    if len(hit) != 1:
                        raise Stuck('%d outcomes' % len(hit))
                    got = ()
                    for fid, x in hit[0].g.get('!ops', ()):
                        if fid == p.byte:
                            y = e.term(x[1])
                            if not 0 <= y <= 255:
                                raise Stuck('byte beyond its type')
                            got += R[y]
                        elif len(x[1]) == 1:
                            got += (x[1][0][0],)
                        else:
                            got += (e.term(x[2]),)
                    for x in hit[0].g['log']:
                        if x == '*':
                            raise Stuck('bytes put out not recognised')
                        got += R[e.term(x[1])]
                    want = pre + pat
                    if hit[0].g['log']:
                        want += (0,) * (-len(want) % 8)
                    if got != want:
                        k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                        r.violation('another code word is written than was given', '%s, %s: of a word of %d bits%s, %d bits come out; bit %d differs for %s' % (pn, an, L, ' after %d others' % len(pre) if pre else '', len(got), k + 1, show(pat)))
                        return
            r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
            done += 1
        except Stuck as e:
            r.undecide('code words of %d bits: %s' % (L, e))
            return
        except Budget:
            r.undecide('code words of %d bits: step budget exhausted' % L)
            return
        except teval.Unknown as e:
            r.undecide('code words of %d bits: %s not evaluated' % (L, e))
            return
    r.count('lengths of code words', done)
    r.ok('%s, %s: words of %d lengths up to %d bits are written as given' % (pn, an, done, max(lengths)))


def patterns(L):
    """Every word up to 8 bits; beyond, the words that fix a map in which every bit goes to at most one place."""
    if L <= 8:
        return [tuple(k >> j & 1 for j in range(L)) for k in range(1 << L)]
    out = [(0,) * L, (1,) * L]
    for k in range(L):
        out.append(tuple(int(j == k) for j in range(L)))
        out.append(tuple(int(j != k) for j in range(L)))
    return out


# ---- the end of a stream

def mentions(P, ty, W, d=0, seen=None):
    t = P.types[ty]
    if ty == W:
        return True
    if d > 4:
        return False
    if t['k'] in ('ref', 'ptr', 'slice', 'array'):
        return mentions(P, t['e'], W, d + 1)
    if t['k'] == 'tuple':
        return any(mentions(P, x, W, d + 1) for x in elems(P, ty))
    if t['k'] == 'closure':
        return t.get('up') is not None and mentions(P, t['up'], W, d + 1)
    if t['k'] == 'adt':
        return any(isinstance(x, int) and mentions(P, x, W, d + 1) for x in t['args'])
    return False


class End(Hooks):
    """Work on anything but the bit writer is skipped; writes and padding are recorded."""
    parts = None

    def drop(self, ip, act, st, t):
        if self.parts.fall is not None and t.get('ty') == self.parts.W:
            s = st.copy()
            s.g['!owed'] = 0
            return s

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        p, P = self.parts, ip.p
        if fid in (p.put, p.byte, p.arr):
            s = st.copy()
            s.g['!wrote'] = st.g.get('!wrote', 0) + 1
            s.g['!owed'] = 1
            return [(('e', ((0, (absint.UNIT,)),), None), s)]
        if fid == p.pad:
            s = st.copy()
            s.g['!owed'] = 0
            return [(('e', ((0, (absint.UNIT,)),), None), s)]
        if f['crate'] == 'cniic' and f['body'] and not any(mentions(P, a, p.W) for a in atys) and not mentions(P, dty, p.W):
            return [(ip.top(dty), st)]
        return None


def ends(P, r, p):
    """Whoever creates a bit writer pads it before reporting success."""
    users = []
    for i, f in enumerate(P.fns):
        if mine(f) and i != p.new and any(b['t']['k'] == 'call' and b['t']['f'][0] == 'k' and b['t']['f'][1].get('fn') == p.new for b in f['body']['blocks']):
            users.append(i)
    for fid in users:
        f = P.fns[fid]
        T.reset()
        h = End()
        h.parts = p
        ip = Interp(P, h, steps=200000)
        h.ip = ip
        ip.nomerge, ip.bounded, ip.MAXSTATES = True, 3, 3000
        try:
            st = State()
            L = f['body']['locals']
            args = [ip.new_ref(P.pointee(L[k]), 'arg', st) if P.types[L[k]]['k'] == 'ref' else ('t', L[k], 'arg') for k in range(1, f['body']['nargs'] + 1)]
            outs = ip.exec_fn(fid, args, st)
            n = 0
            wrote = False
            for v, s in outs:
                if v[0] != 'e' or not any(a == 0 for a, _ in v[1]):
                    continue
                n += 1
                wrote = wrote or s.g.get('!wrote')
                if s.g.get('!owed'):
                    r.violation('pending bits are dropped', '%s: reports success after %d writes to the bit writer without padding it' % (f['path'], s.g['!wrote']))
                    return
            r.funcs.update(P.fns[x]['path'] for x in ip.analysed)
            if n and wrote:
                r.ok('%s pads the bit writer on all %d successful paths' % (f['path'], n))
            else:
                r.undecide('%s: no successful path writes bits' % f['path'])
        except Stuck as e:
            r.undecide('%s: %s' % (f['path'], e))
        except Budget:
            r.undecide('%s: step budget exhausted' % f['path'])
    if not users:
        r.undecide('no user of the bit writer')
