"""Judging the extracted paths of the benchmark (see bench.py) at sample values of their free quantities."""
import itertools, math
import drive, terms as T
import textmodel as X
from bench import PEv, run_bench
from teval import Unknown
from terms import is_const

PATHS = ('photo/a b.png', '../x.tar.gz')


class Sample:
    """Chosen quantities: dimensions, a way the decoded pixels differ, whether the codec is lossless, the encoded length."""

    def __init__(self, dims, diff, lossless, clen, color=2):
        self.color = color          # ColorType: L8, La8, Rgb8, Rgba8
        self.dims, self.diff, self.lossless, self.clen = dims, diff, lossless, clen

    def src(self, x, y, c):
        return (x * 37 + y * 101 + c * 59 + 20) % 251

    def px(self, kind, x, y, c):
        v = self.src(x, y, c)
        if kind == 'dec' and self.diff is not None:
            (dx, dy), ch = self.diff
            if (x, y) == (dx, dy):
                v = max(0, min(255, v + ch[c])) if 0 <= v + ch[c] <= 255 else v - ch[c]
        return v

    @property
    def differs(self):
        return self.diff is not None

    def mse(self):
        w, h = self.dims
        if self.diff is None:
            return 0.0
        (x, y), ch = self.diff
        return sum((self.px('src', x, y, c) - self.px('dec', x, y, c)) ** 2 for c in range(3)) / (w * h)

    def __repr__(self):
        return 'a %dx%d%s image, %s codec, %s' % (self.dims[0], self.dims[1], {0: ' grey', 3: ' RGBA'}.get(self.color, ''), 'lossless' if self.lossless else 'lossy',
                                              'decoded identically' if self.diff is None else 'one decoded pixel off by %r' % (self.diff[1],))


def samples():
    out = []
    for dims in ((1, 1), (2, 1), (5, 3), (640, 480), (4000, 2000), (65536, 65536), (1, 3000000)):
        diffs = [None]
        at = [(0, 0)]
        if dims == (2, 1):
            at.append((1, 0))
        for p in at:
            for ch in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (9, 14, 200), (60, 60, 60)):
                diffs.append((p, ch))
        for d in diffs:
            for l in (0, 1):
                out.append(Sample(dims, d, l, 12345 + 7 * dims[0]))
                if d is None and dims == (5, 3):
                    out.append(Sample(dims, d, l, 12345, 3))
                    out.append(Sample(dims, d, l, 12345, 0))
    return out


class Judge(PEv):
    def __init__(self, hk, st, s):
        PEv.__init__(self, px=self.pixel)
        self.hk, self.s = hk, s
        self.v[sid(hk.LL)] = s.lossless
        for i, w, h, n in st.g.get('!dims', ()):
            self.v[sid(w)], self.v[sid(h)] = s.dims
        for k, L in enumerate(st.g.get('!clen', ())):
            self.v[sid(L)] = s.clen

    def pixel(self, i, x, y, c):
        kind = self.hk.images.get(i)
        if kind is None:
            raise Unknown('pixel of an unknown image')
        return self.s.px(kind[0], x, y, c)

    def fl(self, e):
        if e[0] == 'sym' and e[1] in self.hk.sums and e[1] not in self.f:
            items, init, st = self.hk.sums[e[1]]
            w, h = self.s.dims
            n = w * h
            acc = self.fl(init)

            def step(it, acc):
                if it[0] == 'acc':
                    self.f[it[1]] = acc
                    return self.fl(it[2])
                return acc + self.fl(it[2])
            acc = step(items[0], acc)
            if n >= 2:
                if len(items) < 2:
                    raise Unknown('one item only')
                b = step(items[1], acc)
                if n > 2:
                    # every further pixel is decoded correctly: it must add what an equal pixel adds
                    if self.s.diff is not None and self.s.diff[0] != (0, 0) or b != acc:
                        raise Unknown('sum over many pixels')
                acc = b
            self.f[e[1]] = acc
        elif e[0] == 'sym' and e[1] not in self.f:
            raise Unknown('float')
        return PEv.fl(self, e)

    def sym(self, i):
        if i not in self.v and T.SYMS[i].kind == 'free':
            y = T.SYMS[i]
            if i in getattr(self.hk, 'colors', ()):
                return self.s.color
            if y.hi is not None and y.lo == y.hi:
                return y.lo
            raise Unknown('free %s' % (i,))
        return PEv.sym(self, i)

    def holds(self, st):
        """Is the path taken under this sample? True / False / None (cannot tell)"""
        unk = False
        for c in st.pc.conds():
            try:
                if not self.cond(c):
                    return False
            except (Unknown, KeyError, OverflowError, IndexError):
                unk = True
        return None if unk else True


def sid(t):
    assert t[0] == 0 and len(t[1]) == 1 and t[1][0][1] == 1
    return t[1][0][0]


# ---------------------------------------------------------------- interleavings
def csvs(v, d=0):
    if not isinstance(v, tuple):
        return []
    if len(v) == 3 and v[0] == 'm' and v[1] == 'csv':
        return [v[2]]
    return [x for y in v for x in csvs(y, d + 1)]


def explore(init, traces, threads=3):
    """All interleavings of some identical elements over their atomic segments.
    Returns (reachable shared values, indices of traces that can complete)."""
    seqs = [t[0] for t in traces]
    done = set()
    values = {init}
    nseg = max([len(s) for s in seqs] + [0])
    if nseg > 4:
        threads = 2
    start = (init, ((frozenset(range(len(seqs))), 0),) * threads)
    todo = [start]
    seen = {start}
    while todo:
        val, ths = todo.pop()
        values.add(val)
        for k, (cand, pos) in enumerate(ths):
            for i in cand:
                if len(seqs[i]) == pos:
                    done.add(i)
            nxt = {}
            for i in cand:
                if len(seqs[i]) > pos and seqs[i][pos][0] == val:
                    nxt.setdefault(seqs[i][pos][1], set()).add(i)
            for a, ii in nxt.items():
                t2 = list(ths)
                t2[k] = (frozenset(ii), pos + 1)
                s2 = (a, tuple(sorted(t2, key=repr)))
                if s2 not in seen:
                    if len(seen) > 200000:
                        return values, done
                    seen.add(s2); todo.append(s2)
    return values, done


# ---------------------------------------------------------------- runs
class Run:
    """One path: events, the state with its conditions, the value returned; par: events of one element only."""

    def __init__(self, ev, st, ret, par, last=''):
        self.ev, self.st, self.ret, self.par, self.last = ev, st, ret, par, last
        self.items = {}
        cur = None
        self.pre = []
        for e in ev:
            if e[0] == 'open':
                cur = e[1] if e[1] is not None else 0
                it = self.items.setdefault(cur, {'ok': True, 'fail': [], 'io': False, 'rows': [], 'prints': [], 'ev': [], 'create': []})
            if cur is None:
                self.pre.append(e)
                continue
            it = self.items[cur]
            it['ev'].append(e)
            if e[0] in ('open', 'encode', 'decode') and e[-1] is False:
                it['ok'] = False
                it['fail'].append(e[0])
            elif e[0] == 'iofail':
                it['io'] = True
            elif e[0] == 'print':
                it['prints'].append(e[1])
            elif e[0] == 'create':
                it['create'].append(e)
            elif e[0] == 'row':
                i = owner(e[2])
                self.items.get(i, it)['rows'].append(e)
        self.late = [e for e in ev if e[0] == 'iofail']


def owner(cols):
    for c in cols:
        if c is not None and c[0] == 'text':
            for s in c[1][1]:
                i = path_in(s)
                if i is not None:
                    return i
    return None


def path_in(s):
    if isinstance(s, tuple):
        if len(s) == 2 and s[0] == 'path' and isinstance(s[1], int):
            return s[1]
        for x in s:
            i = path_in(x)
            if i is not None:
                return i
    return None


def is_err(v):
    return v is not None and v[0] == 'e' and len(v[1]) == 1 and v[1][0][0] == 1


_CACHE = {}


class Bench:
    def __init__(self, P):
        self.P = P
        self.hk, self.ip, self.outs, self.why = run_bench(P)
        hk = self.hk
        self.runs = []
        self.values = []
        self.infeasible = 0
        for init, trs, last in hk.pars:
            vals, done = explore(init, trs)
            self.values.extend(vals)
            for i, (seg, ev, v, s) in enumerate(trs):
                if i in done:
                    self.runs.append(Run(ev, s, v, True, last))
                else:
                    self.infeasible += 1
        self.seq = [Run(s.g.get('!ev', ()), s, v, False) for v, s in self.outs]
        if not hk.pars:
            self.runs += self.seq
        self.opened = any(r.items for r in self.runs)
        self.panics = [e for e in self.ip.collector if e[0] == 'panic']


def get(P):
    if 'b' not in _CACHE:
        _CACHE['b'] = Bench(P)
    return _CACHE['b']


def evaltext(q, extra=None):
    env = {'path': lambda d: PATHS[d[1]], 'codecname': 'codec'}
    if extra:
        env.update(extra)
    return X.evaltext(X.norm_text(q), env)


def verdicts(b):
    """Sample every run; yields (property, key, message) of what is definitely wrong, and counts."""
    out = {}
    stat = {'runs': len(b.runs), 'samples': 0, 'judged': 0, 'unknown': 0, 'rows': 0}
    hk = b.hk

    def bad(pid, key, msg):
        out.setdefault((pid, key), msg)
    S = samples()
    stat['samples'] = len(S)
    usual = set()           # messages printed on paths whose row is written
    mism = []
    errs = {}
    for r in b.runs:
        for s in S:
            j = Judge(hk, r.st, s)
            h = j.holds(r.st)
            if h is False:
                continue
            if h is None:
                stat['unknown'] += 1
                continue
            stat['judged'] += 1
            judge(b, r, s, j, bad, usual, mism, stat)
    for r, s, it, u in mism:
        new = [p for p in it['prints'] if p not in usual]
        n = 1
        if not r.par:
            if not all(x['ok'] and not x['io'] for x in r.items.values()):
                continue
            new = [e[1] for e in r.ev if e[0] == 'print' and e[1] not in usual]
            n = len(r.items)
        if len(new) < n and not is_err(r.ret):
            bad('C13', 'not reported', 'for %r nothing is reported: no message of its own and no error is returned' % (s,))
    return out, stat


def judge(b, r, s, j, bad, usual, mism, stat):
    for i, it in r.items.items():
        who = 'the image'
        n = len(it['rows'])
        if r.late and not it['io'] and not r.par:
            pass
        wrong = s.differs and s.lossless
        if n > 1:
            bad('C12', 'two rows', '%d records are written for one image (%r)' % (n, s))
        if not it['ok']:
            if n:
                bad('C12', 'row of a failed image', 'a record is written for an image whose %s failed' % ' / '.join(it['fail']))
            elif r.last == 'try_for_each' and is_err(r.ret):
                bad('C12', 'failure stops the others', 'an image whose %s failed stops the parallel loop: other images get no record' % ' / '.join(it['fail']))
            continue
        if not any(e[0] == 'decode' for e in it['ev']):
            continue            # not measured on this path
        if it['io'] or r.late:
            continue
        if wrong:
            if n:
                bad('C13', 'row of a mismatch', 'a record is written for %r' % (s,))
            else:
                mism.append((r, s, it, None))
            continue
        if r.par or all(x['ok'] and not x['io'] for x in r.items.values()):
            usual.update(it['prints'])
        if n == 0:
            bad('C12', 'row missing', 'no record is written for %r' % (s,))
            bad('C13', 'row missing', 'no record is written for %r' % (s,))
            continue
        stat['rows'] += 1
        columns(b, r, s, j, i, it['rows'][0], bad)
    if not r.par:
        idx = set(r.items)
        allidx = set(range(b.hk.NPATH))
        if idx and idx != allidx and not any(e[0] == 'iofail' for e in r.ev):
            if any(not it['ok'] for it in r.items.values()) or s.differs:
                bad('C12', 'failure stops the others', 'after an image that failed, the remaining images are not measured')


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300) or a == b


def columns(b, r, s, j, i, row, bad):
    _, path, cols, hdr, u = row
    if hdr is None:
        return
    if len(hdr) != len(cols):
        bad('C14', 'width', 'a record of %d fields is written under a header of %d names %r' % (len(cols), len(hdr), hdr))
        return
    w, h = s.dims
    for name, c in zip(hdr, cols):
        try:
            if c is None:
                raise Unknown('column')
            if c[0] == 'text':
                v = evaltext(c[1], {'#ev': j})
            elif c[0] == 'num':
                v = j.term(c[1])
            else:
                v = j.fl(c[1])
        except (Unknown, X.Unk, X.NoValue, KeyError, OverflowError) as e:
            b.undec = getattr(b, 'undec', set()) | {'column %s is not in closed form' % name}
            continue
        good = None
        if name == 'name':
            good = v == PATHS[i]
            want = PATHS[i]
        elif name == 'compressed_size':
            good = v == s.clen
            want = s.clen
        elif name == 'compression_ratio':
            want = s.clen / (3 * w * h)
            good = not isinstance(v, str) and (close(v, want) or close(v, 100 * want))
            want = '%r (or 100 times that)' % want
        elif name == 'error':
            want = s.mse()
            good = not isinstance(v, str) and close(v, want)
        if good is False:
            bad('C14', name, 'column %s holds %r instead of %s for %r whose encoding has %d bytes' % (name, v, want, s, s.clen))
        elif good:
            b.cols = getattr(b, 'cols', set()) | {name}


def panics(b):
    """Definite panics while an image is being measured: [(key, message)]."""
    out = []
    P = b.P
    S = samples()
    for e in b.panics:
        _, kind, where, cond, decided, st, stack = e[:7]
        ev = st.g.get('!ev', ())
        if not any(x[0] == 'open' for x in ev) or any(x[0] == 'iofail' for x in ev):
            continue
        if cond is not None and decided is not False:
            continue
        fr = [P.fns[i]['path'] for i in reversed(stack)]
        u = drive.user_frame(fr)
        r = Run(ev, st, None, True)
        for s in S:
            j = Judge(b.hk, st, s)
            if j.holds(st) is True:
                what = [it for it in r.items.values() if not it['ok']]
                out.append(('%s in %s' % (kind, u), '%s in %s aborts the whole measurement %s' % (kind, u, 'when an image\'s %s fails' % '/'.join(what[0]['fail']) if what else 'for %r' % (s,))))
                break
    return out
