"""C08: run-length coding accounts for every pixel exactly once."""
import re, signal, time
import ana, compose, drive, models, pairs, terms as T
from absint import Interp, State, Stuck, Budget
from models import norm, some, usz, NONE
from terms import addc, const, sub

CALLS = 3
RULE = ('The run iterator of encode (the program function that yields (count, colour)) is driven from the state encode builds, over an image of arbitrary size; each of its loops is summarised by an inductive relation between the run count and the '
        'pixels taken from the source. Whenever the stream of runs ends, the counts must add up to the pixels taken and to the size of the image, each count must lie in 1..255, and the colour must be that of the first pixel of the run. '
        'The run reader of decode is driven with a symbolic count n: with m pixels of a run left it must yield the colour without reading and leave m-1, and read the next run exactly when none is left.')


def opt(P, ty):
    t = P.types[ty]
    if t['k'] == 'adt' and t['name'].rsplit('::', 1)[-1] == 'Option':
        return t['v'][1]['f'][0][1]
    return None


def colourish(P, ty):
    return re.search(r'Rgba?<u8>$', P.tyname(ty)) is not None


def is_runs(P, f):
    """A program iterator of (count, colour)."""
    if f['crate'] != 'cniic' or '__vp' in f['path'] or not f['path'].endswith('Iterator>::next') or f['body'] is None:
        return False
    o = opt(P, f['body']['locals'][0])
    if o is None or P.types[o]['k'] not in ('tuple', 'adt'):
        return False
    t = P.types[o]
    fs = t['a'] if t['k'] == 'tuple' else [x[1] for x in t['v'][0]['f']] if t.get('ak') == 'struct' and t.get('crate') == 'cniic' else []
    return len(fs) == 2 and sum(P.types[x]['k'] == 'uint' for x in fs) == 1 and sum(colourish(P, x) for x in fs) == 1


def is_colours(P, f):
    if f['crate'] != 'cniic' or '__vp' in f['path'] or not f['path'].endswith('Iterator>::next') or f['body'] is None:
        return False
    o = opt(P, f['body']['locals'][0])
    return o is not None and colourish(P, o)


def split(v):
    """(count term, colour leaves) of a yielded (count, colour)."""
    if v[0] != 's' or len(v[1]) != 2:
        return None
    a, b = v[1]
    if a[0] != 'n':
        a, b = b, a
    return (a[1], b) if a[0] == 'n' else None


class Enc:
    """Drives the run iterator of encode."""
    peel = 0

    def __init__(self, pattern=None, fl=None):
        self.on, self.res, self.pattern, self.fl = True, [], pattern, fl
        self.found = {}

    def drop(self, *a):
        return None

    def prepare(self, ip, st, args, f):
        return None

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        if f['crate'] == 'cniic' and (f['path'].endswith('kmeans::cluster') or any(f['path'].endswith('::' + e[0]) for e in compose.STAGES)):
            return []           # a coding stage of another kind
        if self.on:
            if not is_runs(ip.p, f):
                return None
            self.on = False
            try:
                self.drive(ip, act, st, fid, f, args, atys, dty, t)
            finally:
                self.on = True
            return []
        if self.pattern is not None:
            n = norm(f['path'])
            if n == 'ArbHilbertScanCore as Iterator::next':
                k = st.g.get('!n', 0)
                if k >= len(self.pattern):
                    return [(NONE, st)]
                s = st.copy()
                s.g['!n'] = k + 1
                return [(some(('q', (('v', ('n', const(k), 'u32')), ('v', ('n', T.ZERO, 'u32'))))), s)]
            if n.endswith('GenericImageView::get_pixel'):
                x = args[1][1]
                if x[1]:
                    raise Stuck('a pixel at an unknown position')
                c = self.pattern[x[0]]
                return [(('s', (('q', tuple(('v', ('n', const(z), 'u8')) for z in tuple(c) + (255,))),)), st)]
        return None

    def event(self, ip, st, kind, data):
        if kind in ('hilread', 'pixread') and '#in' in st.objs:
            st.objs['#in'] = usz(addc(st.objs['#in'][1], 1))
        if kind == 'pixend':
            st.g['!end'] = 1

    def drive(self, ip, act, st, fid, f, args, atys, dty, t):
        self.found[f['path']] = 1
        st = st.copy()
        st.objs['#in'] = usz(T.ZERO)
        st.g.pop('!end', None)
        cur = [(st, T.ZERO, [])]
        n = CALLS if self.pattern is None else len(self.pattern) + 2
        for k in range(n):
            nxt = []
            for s0, tot, runs in cur:
                for v, s1 in ip.invoke(act, s0.copy(), fid, list(args), list(atys), dty, t):
                    self.one(ip, f['path'], k, v, s0, s1, tot, runs, nxt)
            cur = nxt
            if not cur:
                break
        if cur and self.pattern is not None:
            self.res.append(('long', f['path'], sum(1 for _ in cur)))

    def one(self, ip, fn, k, v, s0, s1, tot, runs, nxt):
        if v[0] != 'e' or len(v[1]) != 1:
            raise Stuck('the runs yielded by %s' % fn)
        d, fs = v[1][0]
        if d == 0:
            self.res.append(('end', fn, tot, s1, runs))
            return
        x = split(fs[0])
        if x is None:
            raise Stuck('the runs yielded by %s' % fn)
        cnt, colour = x
        ls = compose.leafs(ip, s1, colour)
        self.res.append(('run', fn, cnt, tot, ls, s1))
        nxt.append((s1, T.add(tot, cnt), runs + [(cnt, ls)]))


def prove(ip, r):
    """[(kind, what)] obligations of one result that are not met."""
    bad = []
    if r[0] == 'end':
        _, fn, tot, st, runs = r
        got = st.objs['#in'][1]
        if st.decide(('eq', sub(tot, got))) is not True:
            bad.append('the counts of the runs are not shown to add up to the pixels taken (%s, %s)' % (T.show(tot), T.show(got)))
        if not st.g.get('!end'):
            bad.append('the runs end although the source of pixels may not have ended')
    else:
        _, fn, cnt, tot, ls, st = r
        lo, hi = st.iv(cnt)
        if lo < 1 and st.decide(('ge', addc(cnt, -1))) is not True:
            bad.append('a run is not shown to hold at least one pixel')
        if (hi is None or hi > 255) and st.decide(('ge', addc(T.scale(cnt, -1), 255))) is not True:
            bad.append('a run is not shown to hold at most 255 pixels')
        if ls is None:
            bad.append('the colour of a run is not followed')
        elif not any(T.is_float_expr(a) for l in ls for s in T.all_syms(l) for a in (T.SYMS[s].data[1:] if T.SYMS[s].kind == 'op' else ())):
            # exact: the colour of the first pixel not yet accounted for
            for c, l in enumerate(ls[:3]):
                y = T.SYMS[l[1][0][0]] if len(l[1]) == 1 and l[0] == 0 else None
                if y is None or y.kind != 'op' or y.data[0] != 'px' or y.data[4] != c or not at(st, y.data[2], tot):
                    bad.append('the colour of a run is not shown to be that of its first pixel')
                    break
    return bad


def at(st, x, k):
    """Is x the column of the k-th pixel of the curve?"""
    if len(x[1]) != 1:
        return False
    y = T.SYMS[x[1][0][0]]
    if y.kind != 'op' or y.data[0] != 'hx':
        return False
    return st.decide(('eq', sub(y.data[3], k))) is True


A, B, C = (200, 10, 60), (11, 12, 13), (200, 10, 61)
PATTERNS = [[(A, 700)], [(A, 255), (B, 1), (A, 1)], [(A, 256), (B, 2)], [(A, 254), (B, 3)], [(A, 510), (B, 1)], [(A, 511), (B, 1)], [(A, 1), (B, 1), (A, 1), (C, 1), (A, 2), (B, 255)],
            [(B, 128), (A, 127), (B, 1)], [(A, 255)], [(A, 256)], [(A, 765), (C, 3)], [((0, 0, 0), 300)], [((0, 0, 0), 3), (A, 2)], [(A, 1), (C, 1)], [(A, 2), (C, 2), (A, 1)], [], [(A, 1)]]


def expand(p):
    return [c for c, n in p for _ in range(n)]


def fixfl(v, fl):
    """The codec value with its tolerance fixed."""
    if v[0] == 'f':
        return ('f', ('c', fl), v[2])
    if v[0] == 's':
        return ('s', tuple(fixfl(x, fl) for x in v[1]))
    if v[0] == 'e':
        return ('e', tuple((d, tuple(fixfl(x, fl) for x in fs)) for d, fs in v[1]), v[2])
    return v


def confirm(P, i, limit):
    """Constant propagation of fixed pixel sequences through the run iterator: definite mismatches."""
    out = []
    end = time.time() + limit
    for fl in (0.0, 1000.0):
        for p in PATTERNS:
            if time.time() < end:
                out += confirm1(P, i, p, fl, max(1, int(end - time.time())))
        if out:
            break
    return out


def confirm1(P, i, p, fl, limit):
    px = expand(p)
    hk = Enc(px, fl)
    T.reset()
    ip = Interp(P, hk, steps=1000000)
    hk.ip = ip
    ip.bounded = len(px) + 4
    st = State()
    _, b = ana.configs(ip, ana.codec_ty(P))[i]
    fid = ana.root(P, 'encode')
    f = P.fns[fid]
    args = [('r', ip.new_obj(st, fixfl(b(st), fl), 'codec'), (), None)]
    for j in range(1, f['body']['nargs']):
        args.append(('t', f['body']['locals'][j + 1], 'arg%d' % j))
    drive._alarm(min(limit, 20))
    try:
        ip.exec_fn(fid, args, st)
    except (Stuck, Budget, drive.Timeout):
        return []
    finally:
        signal.alarm(0)
    desc = (', '.join('%d x %s' % (n, '/'.join(map(str, c))) for c, n in p) or 'no pixel') + (' and tolerance %s' % fl if fl else '')
    out = []
    ends = [r for r in hk.res if r[0] == 'end']
    if any(r[0] == 'long' for r in hk.res) and not ends:
        out.append(('the run encoder yields more runs than there are pixels', desc))
    for _, fn, tot, st, runs in ends:
        if any(cnt[1] for cnt, ls in runs):
            continue
        vals = [(cnt[0], tuple(l[0] for l in ls[:3]) if ls is not None and all(not l[1] for l in ls[:3]) else None) for cnt, ls in runs]
        if any(not 1 <= n <= 255 for n, _ in vals):
            out.append(('a run of %d pixels is emitted' % [n for n, _ in vals if not 1 <= n <= 255][0], desc))
        elif sum(n for n, _ in vals) != len(px):
            out.append(('the counts of the runs do not add up to the pixels', 'they add up to %d for %s' % (sum(n for n, _ in vals), desc)))
        elif not fl and all(c is not None for _, c in vals) and expand([(c, n) for n, c in vals]) != px:
            out.append(('a run holds pixels of another colour', desc))
    for ev in list(ip.collector) + list(ip.first):
        if ev[0] == 'panic' and ev[4] is False and not ev[5].pc.conds() and ev[2][0] in hk.found:
            out.append(('%s in %s' % (ev[1], ev[2][0]), desc))
    return out


def encoder(P, i, lab):
    hk = Enc()
    why = []

    def post(ip, l, outs, w):
        why.append(w)
        return []
    drive.one(P, 'encode', i, lambda: hk, post, 600000, 200)
    res = [('fn', [P.fns[x]['path'] for x in hk.ip.analysed])]
    if not hk.found and not why[0]:
        return res + [('none', None, None)]
    res.append(('count', 'run iterators of encode', len(hk.found)))
    bad, n = [], 0
    for r in hk.res:
        for m in prove(hk.ip, r):
            bad.append((r[1], m))
        n += 1
    for ev in hk.ip.collector:
        if ev[0] == 'panic' and 'verflow' in ev[1] and ev[4] is not True and ev[2][0] in hk.found:
            bad.append((ev[2][0], 'the count of a run is not shown to stay within its type'))
    if why[0]:
        bad.append((lab, why[0]))
    if not any(r[0] == 'end' for r in hk.res) and not bad:
        bad.append((lab, 'the end of the runs is never reached'))
    res.append(('count', 'runs and ends of the run iterator examined', n))
    for r in hk.res:
        if not prove(hk.ip, r):
            res.append(('ok', '%s: %s' % (lab, 'the counts add up to the pixels taken, and the source is exhausted' if r[0] == 'end' else 'a run of 1..255 pixels, coloured as its first')))
    if bad:
        fs = confirm(P, i, 120)
        seen = set()
        for m, d in fs:
            if m not in seen:
                seen.add(m)
                res.append(('viol', '%s: %s' % (lab, m), '%s: %s; %s (%s: %s)' % (lab, m, d, bad[0][0], bad[0][1])))
        if not fs:
            for fn, m in sorted(set(bad)):
                res.append(('und', lab, '%s: %s' % (fn, m)))
    return res


# ---------------------------------------------------------------- decoder
class Dec:
    peel = 0

    def __init__(self, fixed=None):
        self.on, self.found, self.fixed = True, {}, fixed
        self.ok, self.bad, self.viol = [], [], []

    def drop(self, *a):
        return None

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        if f['crate'] == 'cniic' and any(f['path'].endswith('::' + e[1]) for e in compose.STAGES):
            return []
        if not self.on:
            if f['crate'] == 'cniic' and f['path'].endswith('::deserialize'):
                return self.deser(ip, st, fid, f, dty)
            return None
        if not is_colours(ip.p, f):
            return None
        self.on = False
        try:
            self.found[f['path']] = 1
            if self.fixed is None:
                self.induct(ip, act, st, fid, f, args, atys, dty, t)
            else:
                self.sample(ip, act, st, fid, f, args, atys, dty, t)
        finally:
            self.on = True
        return []

    def reader_next(self, ip, st, a, act, t):
        if self.on:
            return [(some(ip.fresh_num('in', 'u8', 'input')), st.copy()), (NONE, st)]
        s = st.copy()
        s.g['!rd'] = s.g.get('!rd', 0) + 1
        s.g['!raw'] = 1
        if self.fixed is not None:
            raise Stuck('bytes are read without the deserializer')
        return [(some(ip.fresh_num('in', 'u8', 'input')), s), (NONE, s.copy())]

    def deser(self, ip, st, fid, f, dty):
        """Whole counts and colours as the deserializer yields them (C04 covers how)."""
        o = opt(ip.p, dty)
        if o is None:
            return None
        col = colourish(ip.p, o)
        if not col and ip.types[o]['k'] != 'uint':
            return None
        s = st.copy()
        k = s.g.get('!rd', 0)
        s.g['!rd'] = k + 1
        tn = ip.p.tyname(o)
        if self.fixed is not None:
            if k >= len(self.fixed):
                return [(NONE, s)]
            x = self.fixed[k]
            if col != isinstance(x, tuple):
                raise Stuck('another order of count and colour')
            ls = [const(z) for z in x] if col else None
            v = self.mkcol(ls) if col else ('n', const(x), tn)
            return [(some(v), s)]
        if col:
            ls = [ip.fresh_num('in', 'u8', 'input')[1] for _ in range(3)]
            v = self.mkcol(ls)
            log = ('col', tuple(ls))
        else:
            v = ip.fresh_num('in', tn, 'input')
            log = ('cnt', v[1])
        n = s.copy()
        s.g['!got'] = s.g.get('!got', ()) + (log,)
        return [(some(v), s), (NONE, n)]

    def mkcol(self, ls):
        return ('s', (('q', tuple(('v', ('n', z, 'u8')) for z in ls)),))

    def induct(self, ip, act, st, fid, f, args, atys, dty, t):
        st = st.copy()
        st.g.pop('!rd', None)
        fn = f['path']
        outs = ip.invoke(act, st, fid, list(args), list(atys), dty, t)
        for v, s in outs:
            if v[0] != 'e' or len(v[1]) != 1:
                self.bad.append('%s: what it yields is not followed' % fn)
                continue
            if v[1][0][0] == 0:
                continue
            got = s.g.get('!got', ())
            col = compose.leafs(ip, s, v[1][0][1][0])
            if len(got) != 2 or {x[0] for x in got} != {'cnt', 'col'} or col is None or s.g.get('!raw'):
                self.bad.append('%s: what is read of a run is not a count and a colour' % fn)
                continue
            n = dict(got)['cnt']
            if list(col[:3]) != list(dict(got)['col']):
                self.bad.append('%s: the colour of a run is not the one read after its count' % fn)
                continue
            hit = None
            for oid, val in s.objs.items():
                for p in places(val):
                    x = at_path(val, p)
                    if x[0] == 'n' and s.decide(('eq', sub(x[1], addc(n, -1)))) is True and x[1][1]:
                        hit = (oid, p, x) if hit is None else 'many'
            if hit is None or hit == 'many':
                self.bad.append('%s: what is left of a run is not found in its state' % fn)
                continue
            oid, p, x = hit
            s = s.copy()
            m = ip.fresh_num('left', x[2], 'left')
            s.objs[oid] = put_path(s.objs[oid], p, m)
            rd = s.g.get('!rd', 0)
            for v2, s2 in ip.invoke(act, s.copy(), fid, list(args), list(atys), dty, t):
                more = s2.g.get('!rd', 0) - rd
                lo, hi = s2.iv(m[1])
                if more == 0:
                    y = at_path(s2.objs[oid], p)
                    c2 = compose.leafs(ip, s2, v2[1][0][1][0]) if v2[0] == 'e' and len(v2[1]) == 1 and v2[1][0][0] == 1 else None
                    if lo < 1 and s2.decide(('ge', addc(m[1], -1))) is not True:
                        self.bad.append('%s: yields a pixel without reading although none may be left' % fn)
                    elif c2 is None or list(c2[:3]) != list(col[:3]):
                        self.bad.append('%s: a later pixel of a run has another colour' % fn)
                    elif y is None or y[0] != 'n' or s2.decide(('eq', sub(y[1], addc(m[1], -1)))) is not True:
                        self.bad.append('%s: a run of m pixels is not shown to leave m-1 after one' % fn)
                    else:
                        self.ok.append('%s: with m > 0 pixels left, yields the colour of the run, reads nothing and leaves m-1' % fn)
                else:
                    if hi != 0 and s2.decide(('eq', m[1])) is not True:
                        self.bad.append('%s: reads the next run although pixels may be left' % fn)
                    else:
                        self.ok.append('%s: reads the next run exactly when none is left' % fn)

    def sample(self, ip, act, st, fid, f, args, atys, dty, t):
        n = self.fixed[0]
        st = st.copy()
        st.g.pop('!rd', None)
        cur = st
        got = []
        for k in range(n + 2):
            outs = ip.invoke(act, cur.copy(), fid, list(args), list(atys), dty, t)
            if len(outs) != 1 or outs[0][0][0] != 'e' or len(outs[0][0][1]) != 1:
                raise Stuck('a run of known length is not followed')
            v, cur = outs[0]
            if v[1][0][0] == 0:
                break
            col = compose.leafs(ip, cur, v[1][0][1][0])
            if col is None or any(l[1] for l in col):
                raise Stuck('the colour of a run')
            got.append(tuple(l[0] for l in col[:3]))
        want = [self.fixed[1]] * n + [self.fixed[3]] * 2
        if got[:n + 2] != want[:len(got[:n + 2])] or len(got) < n + 2:
            k = next((j for j in range(min(len(got), n + 2)) if got[j] != want[j]), len(got))
            self.viol.append((f['path'], 'a run of %d is reproduced %d times' % (n, k)))


def places(v, d=0):
    if v[0] == 'n':
        yield ()
    elif v[0] == 's' and d < 6:
        for i, x in enumerate(v[1]):
            for p in places(x, d + 1):
                yield (('s', i),) + p
    elif v[0] == 'e' and d < 6 and len(v[1]) == 1:
        for i, x in enumerate(v[1][0][1]):
            for p in places(x, d + 1):
                yield (('e', i),) + p


def at_path(v, p):
    for k, i in p:
        if v[0] != k or (k == 'e' and len(v[1]) != 1):
            return None
        fs = v[1] if k == 's' else v[1][0][1]
        if i >= len(fs):
            return None
        v = fs[i]
    return v


def put_path(v, p, x):
    if not p:
        return x
    k, i = p[0]
    if k == 's':
        fs = list(v[1])
        fs[i] = put_path(fs[i], p[1:], x)
        return ('s', tuple(fs))
    d, fs = v[1][0]
    fs = list(fs)
    fs[i] = put_path(fs[i], p[1:], x)
    return ('e', ((d, tuple(fs)),), v[2])


def decoder(P, i, lab):
    hk = Dec()
    why = []

    def post(ip, l, outs, w):
        why.append(w)
        return []
    drive.one(P, 'decode', i, lambda: hk, post, 300000, 200)
    res = [('fn', [P.fns[x]['path'] for x in hk.ip.analysed])]
    if not hk.found:
        return res + [('und', lab, 'decode has no iterator that yields the colours of runs (%s)' % (why[0] or 'none called'))]
    for m in hk.ok:
        res.append(('ok', '%s: %s' % (lab, m)))
    bad = hk.bad + ([why[0]] if why[0] else [])
    if not hk.ok and not bad:
        bad.append('the first run is never complete')
    if bad:
        hit = False
        for n in (1, 2, 3, 4, 127, 128, 129, 254, 255):
            h2 = Dec([n, (9, 8, 7), 2, (70, 80, 90)])
            drive.one(P, 'decode', i, lambda: h2, post, 300000, 200)
            for fn, m in h2.viol:
                if not hit:
                    res.append(('viol', '%s: %s does not reproduce a run as often as its count' % (lab, fn), '%s: %s: %s' % (lab, fn, m)))
                hit = True
        if not hit:
            for m in sorted(set(bad)):
                res.append(('und', lab, m))
    return res


def judge(R):
    """Images of a few pixels, one by one: the pixels decode stores against the pixels encode read."""
    res = []
    comb = pairs.combines(R)
    for kind, val, st in pairs.paths(R):
        if kind not in ('some', 'none') or comb:
            continue
        vs, us, d = pairs.check_path(R, kind, val, st)
        for i in range(d):
            res.append(('ok', None))
        for asp, key, msg in vs:
            if asp in ('value', 'reject'):
                res.append(('viol', '%s: %s' % (R.label, key), '%s: %s' % (R.label, msg)))
        for u in us:
            res.append(('und', R.label, u))
    return res


def check(P, r):
    r.rule = RULE
    r.assume = ['the pixel source is the Hilbert traversal modelled in tools/models.py', 'third-party functions behave as modelled']
    labs = drive.labels(P)
    one = lambda i: encoder(P, i, labs[i])
    todo = [i for i in range(len(labs))]
    res = drive.pool(todo, one, 240)
    sel = []
    for i in todo:
        x = res[i]
        if any(y[0] == 'none' for y in x):
            continue
        sel.append(i)
        for y in x:
            drive.apply(r, y)
    sel = [i for i in sel if any(y[0] in ('ok', 'viol') or (y[0] == 'count' and 'iterators' in y[1]) for y in res[i])]
    r.count('configurations analysed', len(labs))
    if not sel:
        r.undecide('no configuration of encode builds its stream from an iterator of (count, colour)')
        sel = [i for i in todo if 'RLE' in labs[i].upper()]
    res = drive.pool(sel, lambda i: decoder(P, i, labs[i]), 240)
    for i in sel:
        for y in res[i]:
            drive.apply(r, y)
    pairs.run(P, r, judge, lossless=True, tier=r.tier, only=lambda l: labs.index(l) in sel)
