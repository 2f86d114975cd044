"""Judgements over the encode/decode compositions of compose.py, shared by C05, C06, C07 and C23.

For every pair of an encode path and a decode path the closed forms are compared term by term. Where the
normal forms differ, the difference is reported only if the extracted terms disagree for a concrete small
image that takes this very path (the terms are evaluated, the program is not run).
"""
import random, itertools, time
import compose, drive, terms as T
from absint import Stuck, Budget
from compose import PEv, H
from teval import Unknown
from terms import const, sub, addc

SMALL = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (0, 0), (3, 0), (0, 2), (300, 0), (0, 70000), (70000, 0), (0, (1 << 31) + 5), ((1 << 32) - 1, 0)]
SPREADS = (0.0, 0.25, 1.0, 2.0, 500.0)
COUNTS = (0, 1, 2, 3, 4, 5, 300, 70000, 1 << 40)


class Out(Exception):
    pass


class IEv(PEv):
    """Evaluates extracted terms for one image of given size and colours."""

    def __init__(self, R, w, h, col, codec, fl):
        PEv.__init__(self, random.Random(5))
        for t, n in ((R.w, w), (R.hh, h)):
            if t[1]:
                self.v[t[1][0][0]] = n
        self.w, self.h, self.col = w, h, col
        self.codec, self.flt = codec, fl

    def calc(self, s):
        if s.kind == 'op' and s.data[0] == 'px':
            x, y = (self.term(z) for z in s.data[2:4])
            c = s.data[4]
            if not (0 <= x < self.w and 0 <= y < self.h):
                raise Out()
            return self.col[(x, y)][c]
        if s.kind == 'op' and s.data[0] == 'lut':
            a = tuple(self.term(z) for z in s.data[1:4])
            return recolour(a)[s.data[4]]
        if s.kind == 'op' and s.data[0] == 'alpha':
            return 255
        if s.kind == 'free' and 'codec' in (s.prov or ()):
            return min(max(self.codec, s.lo if s.lo is not None else 0), s.hi if s.hi is not None else 1 << 40)
        if s.kind == 'free':
            raise Unknown('summarised quantity %s' % s.name)
        return PEv.calc(self, s)

    def fl(self, e):
        if e[0] == 'sym':
            if e[2] != 'codec':
                raise Unknown('summarised quantity')
            return self.flt
        return PEv.fl(self, e)


def recolour(c):
    """A stand-in for the colour reduction: some fixed injective recolouring."""
    return ((c[0] * 7 + 13) & 255, (c[1] * 11 + 29) & 255, (c[2] * 5 + 101) & 255)


def images(w, h):
    """Colourings of a w x h image."""
    cells = [(x, y) for y in range(h) for x in range(w)] if 0 < w * h <= 100 else []
    if not cells:
        return [{}]
    out = []
    r = random.Random(w * 31 + h)
    n = len(cells)
    pool = [(250, 3, 128), (10, 200, 60), (77, 78, 79), (0, 255, 1), (255, 0, 254), (160, 20, 210), (31, 141, 239), (128, 90, 0), (63, 222, 180)]
    pool += [((i * 37 + 11) & 255, (i * 91 + 5) & 255, (i * 53) & 255) for i in range(9, n)]
    out.append([pool[i] for i in range(n)])
    out.append([((i * 40 + 5) & 255, (250 - i * 30) & 255, 100 + i) for i in range(n)])
    out.append([pool[0]] * n)
    out.append([(0, 0, 0)] * n)
    out.append([(255, 255, 255) if i % 2 == 0 else (0, 0, 0) for i in range(n)])
    out.append([(0, 0, 255) if i % 2 == 0 else (255, 0, 0) for i in range(n)])
    out.append([(100, 100, 100 + (i & 1)) for i in range(n)])
    out.append([(100 + i, 100, 100) for i in range(n)])
    for pat in ((0, 0, 1, 1, 1), (0, 1, 1, 1, 1), (0, 1, 0, 1, 1), (0, 0, 0, 1, 0), (0, 0, 1, 0, 0), (0, 1, 1, 0, 1), (0, 1, 1, 2, 2), (0, 1, 2, 2, 0), (0, 1, 2, 0, 0), (0, 0, 1, 2, 0), (0, 1, 0, 2, 1)):
        out.append([pool[pat[i % 5]] for i in range(n)])
    # neighbours that share single channels
    out.append([(10, 20, 30), (10, 20, 31), (10, 21, 31), (11, 21, 31), (11, 20, 30)] * 20)
    out[-1] = out[-1][:n]
    out.append([(9, 9, 9), (9, 8, 9), (8, 8, 9), (8, 8, 8), (9, 8, 8)] * 20)
    out[-1] = out[-1][:n]
    seen, res = set(), []
    for o in out:
        if tuple(o) not in seen:
            seen.add(tuple(o))
            res.append(dict(zip(cells, o)))
    return res


def samples(R, conds, far=False):
    """Evaluators of sample images on which all of conds hold."""
    cod = False
    flt = False
    for c in conds:
        for s in T.all_syms(c[1]):
            y = T.SYMS[s]
            if y.kind == 'free' and 'codec' in (y.prov or ()):
                cod = True
            if y.kind == 'op' and any(T.is_float_expr(a) for a in y.data[1:]):
                flt = True
    dims = [c for c in conds if not any(uses(s) for s in T.all_syms(c[1]))]
    rest = [c for c in conds if c not in dims]
    for w, h in SMALL if R.dims is None else [R.dims]:
        e0 = IEv(R, w, h, {}, 0, 0.0)
        try:
            if not all(e0.cond(c) for c in dims):
                continue
        except (Unknown, Out, KeyError):
            continue
        for nc, col in enumerate(images(w, h)):
            if far and nc:
                break
            for n in COUNTS if cod else (1,):
                for f in (SPREADS[:3] if far else SPREADS) if flt else (0.0,):
                    e = IEv(R, w, h, col, n, f)
                    try:
                        if all(e.cond(c) for c in rest):
                            yield e
                    except (Unknown, Out, KeyError):
                        continue


def uses(s):
    y = T.SYMS[s]
    if y.kind == 'op' and (y.data[0] in ('px', 'lut') or any(T.is_float_expr(a) for a in y.data[1:])):
        return True
    return y.kind == 'free' and 'codec' in (y.prov or ())


def show(e):
    s = 'a %dx%d image' % (e.w, e.h)
    if e.col:
        s += ' with pixels ' + ' '.join('(%d,%d)=%s' % (x, y, '/'.join(map(str, c))) for (x, y), c in sorted(e.col.items(), key=lambda z: (z[0][1], z[0][0])))
    return s


# ---------------------------------------------------------------- one path
def image_of(v):
    """(w term, h term) of a decoded image value."""
    if v[0] == 's' and len(v[1]) == 3 and v[1][0][0] == 'n' and v[1][0][2] == 'u32' and v[1][1][0] == 'n':
        return v[1][0][1], v[1][1][1]
    if v[0] in ('s',):
        for x in v[1]:
            r = image_of(x)
            if r is not None:
                return r
    if v[0] == 'e' and len(v[1]) == 1:
        for x in v[1][0][1]:
            r = image_of(x)
            if r is not None:
                return r
    return None


class Path:
    """One encode path followed by one decode path."""


def paths(R):
    for s2, douts, bad in R.pairs:
        for v, s in douts:
            if v[0] != 'e':
                yield None, None, None
                continue
            for i, fs in v[1]:
                s3 = s if len(v[1]) == 1 else s.assume(R.ip.vdiscr(v, i))
                if s3 is None:
                    continue
                yield ('some' if i == 1 else 'none'), (fs[0] if fs else None), s3


def expected(leafs3):
    """The pixel a stored colour is the colour of: (X, Y, 'px'|'lut'), or None if it is something else."""
    if leafs3 is None or len(leafs3) != 3:
        return None
    pos = None
    for c, t in enumerate(leafs3):
        if t[0] != 0 or len(t[1]) != 1 or t[1][0][1] != 1:
            return None
        y = T.SYMS[t[1][0][0]]
        if y.kind != 'op':
            return None
        if y.data[0] == 'px':
            p = (y.data[2], y.data[3], 'px')
            if y.data[4] != c:
                return None
        elif y.data[0] == 'lut':
            q = expected(y.data[1:4])
            if q is None or y.data[4] != c:
                return None
            p = q[:2] + ('lut',)
        else:
            return None
        if pos is not None and pos != p:
            return None
        pos = p
    return pos


def combines(R):
    """Does encode write items that combine several pixels?"""
    for s2, _, _ in R.pairs:
        for x in s2.g['!log']:
            for it in (x[2] if x[0] == 'stage' else (x,)):
                ls = compose.leafs(R.ip, s2, it)
                for t in ls or ():
                    if len(compose.px_leaves(t)) > 1 and not any('ftoi' in T.SYMS[s].data[0] or T.SYMS[s].data[0] == 'lut' for s in T.all_syms(t) if T.SYMS[s].kind == 'op'):
                        return True
    return False


def averaged(R, s2):
    """Does the stream of an encode path hold averaged or recoloured values?"""
    out = set()
    for x in s2.g['!log']:
        for it in (x[2] if x[0] == 'stage' else (x,)):
            for t in compose.leafs(R.ip, s2, it) or ():
                for s in T.all_syms(t):
                    y = T.SYMS[s]
                    if y.kind == 'op' and y.data[0].startswith('ftoi'):
                        out.add('a value converted from floating point')
                    elif y.kind == 'op' and y.data[0] == 'lut':
                        out.add('a colour replaced through a table')
    return out


def stored(st):
    return st.g.get('!puts', ())


def check_path(R, kind, val, st):
    """[(aspect, key, message)] and [undecided]; aspect in 'dims','place','value','reject','over'."""
    conds = st.pc.full()
    viol, und = [], []
    if kind is None:
        return viol, ['decode returns an unrecognised value'], 0
    if kind == 'none':
        for e in samples(R, conds):
            if st.g.get('!over'):
                viol.append(('over', 'decode reads past what encode wrote', show(e)))
            else:
                viol.append(('reject', 'decode rejects what encode wrote', show(e)))
            return viol, und, 1
        und.append('decode may reject what encode wrote (no image found)')
        return viol, und, 1
    d = image_of(val) if val is not None else None
    done = 0
    ok = True
    if d is None:
        und.append('the decoded image is not recognised')
        return viol, und, 0
    ips = R.ip
    for got, want, nm in ((d[0], R.w, 'width'), (d[1], R.hh, 'height')):
        if got == want or st.decide(('eq', sub(got, want))) is True:
            done += 1
            continue
        ok = False
        for e in samples(R, conds):
            try:
                a, b = e.term(got), e.term(want)
            except (Unknown, Out):
                continue
            if a != b:
                viol.append(('dims', 'the decoded image has another %s' % nm, '%s becomes %d pixels in %s' % (show(e), a, nm)))
                break
        else:
            und.append('the decoded %s is not shown equal' % nm)
    puts = stored(st)
    n = len(puts)
    exact = ok and len({p[:2] for p in puts}) == n and complete(R, st, n)
    place, value = True, True
    for x, y, ls in puts:
        p = expected(ls)
        if p is None:
            place = value = False
        else:
            dx, dy = sub(p[0], x), sub(p[1], y)
            if not (p[0] == x or st.decide(('eq', dx)) is True) or not (p[1] == y or st.decide(('eq', dy)) is True):
                # colours equal by the conditions of the path may stand for one another
                if not same_colour(R, st, x, y, ls):
                    place = False
                    far = elsewhere(conds, p, (x, y))
                    if far:
                        viol.append(('place', 'a pixel is stored at another position', far))
    if exact and place and value:
        return viol, und, done + n + 1
    if viol:
        return viol, und, done
    # evaluate
    # averaging: only pixels far apart keep their colours
    far = any(T.SYMS[s].kind == 'op' and T.SYMS[s].data[0].startswith('ftoi') for _, _, ls in puts for t in ls or () for s in T.all_syms(t))
    lut = any(T.SYMS[s].kind == 'op' and T.SYMS[s].data[0] == 'lut' for _, _, ls in puts for t in ls or () for s in T.all_syms(t))
    seen = 0
    bad = False
    for e in samples(R, conds, far and not R.claims):
        try:
            got = {}
            for x, y, ls in puts:
                pos = (e.term(x), e.term(y))
                if not (0 <= pos[0] < e.w and 0 <= pos[1] < e.h):
                    viol.append(('place', 'a pixel is stored outside the image', '%s: at %s' % (show(e), pos)))
                    bad = True
                got[pos] = tuple(e.term(t) for t in ls) if ls is not None else None
        except (Unknown, Out, KeyError):
            continue
        if None in got.values():
            continue
        seen += 1
        want = {k: (recolour(c) if lut else c) for k, c in e.col.items()}
        if bad or got == want:
            if bad:
                break
            continue
        if not got and want:
            und.append('no stores to single pixels were seen')
            bad = True
            break
        miss = sorted(k for k in want if k not in got)
        if miss:
            viol.append(('place', 'a pixel of the decoded image is never stored', '%s: (%d,%d)' % (show(e), miss[0][0], miss[0][1])))
        else:
            k = sorted(k for k in want if got[k] != want[k])[0]
            o = [q for q in want if want[q] == got[k] and want[q] != want[k]]
            distinct = len(set(want.values())) == len(want)
            if o and distinct and sorted(got.values()) == sorted(want.values()):
                viol.append(('place', 'a pixel is stored at another position', '%s: (%d,%d) holds the colour of (%d,%d)' % ((show(e),) + k + o[0])))
            elif o and distinct:
                viol.append(('place', 'a pixel holds another pixel\'s colour', '%s: (%d,%d) holds the colour of (%d,%d)' % ((show(e),) + k + o[0])))
            else:
                viol.append(('value', 'a pixel has another colour', '%s: (%d,%d) becomes %s' % ((show(e),) + k + ('/'.join(map(str, got[k])),))))
        bad = True
        break
    if not bad:
        und.append('colours not shown equal term by term (%d sample images agree)' % seen)
    return viol, und, done


POSOPS = ('rowx', 'rowy', 'hx', 'hy')


def elsewhere(conds, p, q):
    """A position (of any size) for which the position p a colour was read at and the position q it is stored at differ."""
    def ops(t):
        return {s for s in T.all_syms(t) if T.SYMS[s].kind == 'op' and T.SYMS[s].data[0] in POSOPS}
    a, b = ops(p[0]) | ops(p[1]), ops(q[0]) | ops(q[1])
    if not a or a != b:
        return None
    for c in conds:
        direct = {s for s, _ in c[1][1]}
        if direct & a:
            return None
        for s in direct:
            y = T.SYMS[s]
            if y.kind in ('op', 'ite') and y.data[0] not in ('px', 'lut', 'mul') and not uses(s) and T.all_syms((0, ((s, 1),))) & a:
                return None
    r = random.Random(3)
    for n in range(40):
        e = PEv(random.Random(n))
        for s in a:
            e.v[s] = r.choice((0, 1, 2, 3, 254, 255, 256, 257, 300, 65535, 65536, 70000, r.randint(0, 1000), r.randint(0, (1 << 32) - 2)))
        try:
            u = e.term(p[0]), e.term(p[1])
            v = e.term(q[0]), e.term(q[1])
        except Unknown:
            return None
        if u != v:
            return 'the colour read at (%d,%d) is stored at (%d,%d)' % (u + v)
    return None


def complete(R, st, n):
    import models
    q = models.prod(R.ip, st, R.w, R.hh)
    return st.decide(('eq', addc(q, -n))) is True or (n == 0 and st.iv(q)[1] == 0)


def same_colour(R, st, x, y, ls):
    """Is the stored colour, by the conditions of the path, the colour of the pixel it is stored at?"""
    for c, t in enumerate(ls):
        y0 = T.SYMS[t[1][0][0]]
        want = T.op('px', [y0.data[1], x, y, c], 0, 255, ('img',)) if y0.data[0] == 'px' else None
        if want is None or st.decide(('eq', sub(t, want))) is not True:
            return False
    return True


# ---------------------------------------------------------------- all configurations
INSTANCES = [(1, 1), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3), (5, 3), (3, 5), (7, 2), (2, 7), (4, 4)]
MORE = [(8, 8), (10, 3), (3, 10), (9, 7), (10, 10)]


def instances(P, i, lossless, judge, tier):
    """The same judgement for images of fixed small sizes with arbitrary pixels, every pixel followed: what
    the closed forms over any width and height leave undecided is decided here for these sizes."""
    out = []
    t0 = time.time()
    big = 1 << 30
    for d in INSTANCES + (MORE if tier != 'quick' else []):
        if d[0] * d[1] >= big:
            continue
        try:
            R = compose.run_config(P, i, lossless, 120000 if tier == 'quick' else 2000000, d)
            res = judge(R)
        except Budget:
            big = d[0] * d[1]
            continue
        except Stuck:
            break
        out += [x for x in res if x[0] != 'und' and x[0] != 'count']
        out.append(('count', 'image sizes followed completely', 1 if R.pairs else 0))
        if any(x[0] == 'viol' for x in res):
            break
        if time.time() - t0 > (60 if tier == 'quick' else 400):
            break
    return out


def run(P, r, judge, lossless=False, tier='quick', only=None):
    """judge(R) -> results (as in drive.apply) for every configuration."""
    labs = drive.labels(P)

    def one(i):
        plan = [(3, 60000), (1, 2500000)] if tier == 'quick' else [(3, 2000000), (2, 4000000), (1, 2500000)]
        why = None
        for b, steps in plan:
            compose.BOUND = b
            try:
                R = compose.run_config(P, i, lossless, steps)
                R.bound = b
                res = judge(R)
                if not any(x[0] == 'viol' for x in res):
                    res += instances(P, i, lossless, judge, tier)
                res.append(('fn', [P.fns[x]['path'] for x in R.ip.analysed]))
                res.append(('count', 'encode paths', R.encs))
                res.append(('count', 'encode/decode path pairs', sum(len(p[1]) for p in R.pairs)))
                return res
            except Budget:
                why = 'step budget exhausted'
            except Stuck as e:
                why = 'analysis stopped: %s in %s' % (e, (getattr(e, 'trace', None) or ['?'])[-1])
                break
        return [('und', labs[i], why)] + instances(P, i, lossless, judge, tier)
    sel = [i for i in range(len(labs)) if only is None or only(labs[i])]
    res = drive.pool(sel, one, 240 if tier == 'quick' else 800)
    for i in sel:
        for x in res[i]:
            drive.apply(r, x)
    r.count('configurations analysed', len(labs))
    return labs


def panics(R):
    """Panics of encode or decode reached by a sample image: [(key, message)]."""
    out = {}
    for ev in list(R.ip.collector) + list(R.ip.first):
        if ev[0] != 'panic':
            continue
        _, kind, site, cond, decided, st, stack = ev
        fn = site[0]
        key = '%s in %s' % (kind, fn)
        if key in out:
            continue
        cs = st.pc.full() + ([T.neg(cond)] if cond is not None else [])
        for e in samples(R, cs):
            out[key] = show(e)
            break
    return sorted(out.items())
