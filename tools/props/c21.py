"""C21: arithmetic on image sizes and positions never overflows."""
import random
import ana, bench, drive, judge, panics
import absint, models as M, terms as T, teval
from absint import Interp, State, Stuck, Budget
from run import Hooks
from props.c22 import build

RULE = ('Every arithmetic operation on the way from the dimensions of an image to a reported number, and in every Distance and mean implementation and the nearest-centroid search of the Voronoi decoder, is collected with the condition '
        'under which it overflows, as a closed form over width, height, coordinates, channels and counts. An operation is reported when some width and height (of an image that fits the address space), coordinates below 2^32, channels and counts '
        'satisfy the path and the overflow condition; a silent wrap (conversion, wrapping operation) is reported when the extracted closed form agrees with the exact value for small images and differs for a large one.')
LIM = (1 << 63) // 3          # pixels of an image in memory
DIMS = ((1, 1), (3, 2), (640, 480), (40000, 30000), (65536, 65536), (1, 4294967295), (4294967295, 3), (100000, 70000), (1 << 31, 1 << 29))


def check(P, r):
    r.rule = RULE
    r.assume += ['an image whose dimensions are read fits into the address space: 3*w*h < 2^63', 'averages: fewer than 2^32 pixels', 'floating-point rounding is not an overflow']
    bench_part(P, r)
    dist_part(P, r)
    mean_part(P, r)
    key_part(P, r)


# ---------------------------------------------------------------- the benchmark
class Big(judge.Judge):
    def __init__(self, hk, st, dims, clen):
        s = judge.Sample(dims, None, 0, clen)
        judge.Judge.__init__(self, hk, st, s)


def bench_part(P, r):
    b = judge.get(P)
    r.funcs.update(P.fns[i]['path'] for i in b.ip.analysed)
    if b.why:
        r.undecide('benchmark: ' + b.why)
    seen, viol = {}, {}
    for e in b.panics:
        _, kind, site, cond, decided, st, stack = e[:7]
        if 'overflow' not in kind or not st.g.get('!img'):
            continue
        fr = [P.fns[i]['path'] for i in reversed(stack)]
        u = drive.user_frame(fr)
        key = '%s in %s' % (kind, u)
        if key in viol:
            continue
        seen.setdefault(key, 0)
        if cond is None or decided is True:
            continue
        for d in DIMS:
            for clen in (12, 1 << 33):
                for lossless in (0, 1):
                    j = Big(b.hk, st, d, clen)
                    j.v[judge.sid(b.hk.LL)] = lossless
                    try:
                        if j.cond(cond):
                            continue
                    except (teval.Unknown, KeyError, OverflowError, IndexError):
                        seen[key] = 1
                        continue
                    if key not in viol and j.holds(st) is True:
                        viol[key] = '%s overflows for a %dx%d image' % (key, d[0], d[1])
    for k, m in viol.items():
        r.violation(k, m)
    for k, u in seen.items():
        if k in viol:
            continue
        if u:
            r.undecide('%s: the operands are not in closed form' % k)
        else:
            r.ok(k)
    # silent wraps: right for small images, wrong for large ones
    out, st = judge.verdicts(b)
    good, wrong = {}, {}
    n = 0
    for run in b.runs:
        for i, it in run.items.items():
            for row in it['rows']:
                hdr, cols = row[3], row[2]
                if hdr is None or len(hdr) != len(cols):
                    continue
                for d in DIMS:
                    for clen in (12345, (1 << 33) + 17):
                        j = Big(b.hk, run.st, d, clen)
                        if j.holds(run.st) is not True:
                            continue
                        for name, c in zip(hdr, cols):
                            if name not in ('compressed_size', 'compression_ratio', 'error') or c is None or c[0] == 'text':
                                continue
                            try:
                                v = j.term(c[1]) if c[0] == 'num' else j.fl(c[1])
                            except (teval.Unknown, KeyError, OverflowError, ZeroDivisionError):
                                continue
                            want = {'compressed_size': (clen,), 'error': (0.0,), 'compression_ratio': (clen / (3 * d[0] * d[1]), 100 * clen / (3 * d[0] * d[1]))}[name]
                            n += 1
                            if any(judge.close(v, x) for x in want):
                                if d == (3, 2) and clen == 12345:
                                    good[name] = True
                            else:
                                wrong.setdefault(name, 'column %s is %r instead of %r for a %dx%d image encoded in %d bytes, while it is right for small images: the value wrapped' % (name, v, want[-1], d[0], d[1], clen))
    for name, m in wrong.items():
        if good.get(name):
            r.violation('wrapped ' + name, m)
    for name in sorted(good):
        if name not in wrong:
            r.ok('column %s at sizes up to 2^60 pixels' % name)
    r.count('column values evaluated', n)
    # printed sizes
    good, wrong = {}, {}
    for e in b.hk.sizes:
        u, t, st = e
        for d in DIMS:
            j = Big(b.hk, st, d, 12345)
            if j.holds(st) is not True:
                continue
            try:
                v = j.term(t)
            except (teval.Unknown, KeyError, OverflowError):
                continue
            for k, w in (('raw size', 3 * d[0] * d[1]), ('raw size in bits', 24 * d[0] * d[1]), ('number of pixels', d[0] * d[1]), ('compressed size', 12345)):
                if v == w:
                    good.setdefault((u, k, t), set()).add(d)
                else:
                    wrong.setdefault((u, k, t), {})[d] = v
    for k, ds in good.items():
        bad = {d: v for d, v in wrong.get(k, {}).items() if d[0] * d[1] < LIM}
        if {(3, 2), (640, 480)} <= ds and bad:
            d = min(bad, key=lambda d: d[0] * d[1])
            r.violation('wrapped %s' % k[1], 'the %s printed in %s is %d for a %dx%d image: the value wrapped' % (k[1], k[0], bad[d], d[0], d[1]))
        elif {(3, 2), (640, 480)} <= ds:
            r.ok('printed %s' % k[1])


# ---------------------------------------------------------------- overflow events of a function run on symbolic inputs
def events(r, ip, label, ok, extra=None):
    """Judge the arithmetic overflow conditions collected by ip."""
    seen = {}
    for e in panics.events(ip):
        _, kind, site, cond, decided, st, stack = e[:7]
        if 'overflow' not in kind and 'by_zero' not in kind and 'by zero' not in kind:
            continue
        if 'overflow' not in kind:
            continue
        fr = [ip.p.fns[i]['path'] for i in reversed(stack)]
        key = '%s in %s' % (kind, drive.user_frame(fr))
        if seen.get(key) == 'viol':
            continue
        if cond is None or decided is True:
            seen.setdefault(key, 'ok')
            continue
        cs = panics.resolve(st, st.pc.full() + [cond], ok)
        a, why = panics.witness(cs[:-1], cs[-1], ok)
        if a is not None:
            seen[key] = 'viol'
            r.violation('%s: %s' % (label, key), '%s: %s: %s' % (label, key, panics.detail(cs[-1], cs[:-1], a)))
        elif why.startswith('no witness'):
            seen.setdefault(key, 'ok')
        else:
            seen[key] = 'und:' + why
    for k, v in seen.items():
        if v == 'ok':
            r.ok('%s: %s' % (label, k))
        elif v.startswith('und:'):
            r.undecide('%s: %s: %s' % (label, k, v[4:]))
    return seen


def impls(P, method, trait):
    return [i for i, f in enumerate(P.fns) if f['crate'] == 'cniic' and f['body'] and f['path'].endswith('::' + method) and trait in f['path'] and '__vp' not in f['path']]


def dist_part(P, r):
    for i in impls(P, 'dist', 'Distance'):
        f = P.fns[i]
        r.funcs.add(f['path'])
        T.reset()
        ip = Interp(P, Hooks())
        st = State()
        la, lb = [], []
        try:
            args = []
            for j, lv in ((1, la), (2, lb)):
                ty = P.pointee(f['body']['locals'][j])
                args.append(('r', ip.new_obj(st, build(ip, st, ty, '', 'in%d' % j, lv), 'a%d' % j), (), None))
            outs = ip.exec_fn(i, args, st)
        except (Stuck, Budget) as e:
            r.undecide('%s: analysis stopped: %s' % (f['path'], e))
            continue
        r.funcs.update(P.fns[k]['path'] for k in ip.analysed)
        events(r, ip, f['path'], {'in1', 'in2'})
        wraps(r, f['path'], outs, la, lb)
        r.ok('%s evaluated' % f['path'])


def wraps(r, label, outs, la, lb):
    """Exact at nearby points, wrong at distant ones."""
    rng = random.Random(5)
    coords = [(n, x, y) for (n, x, w), (_, y, _) in zip(la, lb) if not w]
    near = far = 0
    bad = None
    for v, s in outs:
        if v[0] != 'f':
            return
        conds = list(s.pc.full())
        for k in range(600):
            ev = teval.Ev(rng)
            for n, x, y in coords:
                if x[0] != 'n':
                    continue
                a, b = T.SYMS[x[1][1][0][0]], T.SYMS[y[1][1][0][0]]
                if k % 2:
                    p = rng.randint(0, 40)
                    ev.v[a.id], ev.v[b.id] = p, rng.randint(0, 40)
                else:
                    ev.v[a.id] = rng.choice((a.lo, a.hi, a.hi // 2, a.hi // 2 + 1, rng.randint(a.lo, a.hi)))
                    ev.v[b.id] = rng.choice((b.lo, b.hi, b.hi // 2, 0, rng.randint(b.lo, b.hi)))
            try:
                if not all(ev.cond(c) for c in conds):
                    continue
                got = ev.fl(v[1])
                want = sum((ev.term(x[1]) - ev.term(y[1])) ** 2 for _, x, y in coords if x[0] == 'n') ** 0.5
            except teval.Unknown:
                return
            fine = abs(got - want) <= 1e-9 * max(1.0, want)
            if k % 2:
                near += 1 if fine else 0
                if not fine:
                    return          # not this distance at all: C22's subject
            elif not fine and bad is None:
                bad = '%s computes %.6g instead of %.6g at %s, while it is exact for nearby points: the value wrapped' % (
                    label, got, want, ' '.join('%s=%s/%s' % (n, ev.term(x[1]), ev.term(y[1])) for n, x, y in coords if x[0] == 'n'))
    if bad and near:
        r.violation('wrapped ' + label, bad)


# ---------------------------------------------------------------- averages
def mean_part(P, r):
    """Sums over points: with a few arbitrary points, and with as many as fewer than 2^32 pixels allow."""
    for i in impls(P, 'mean', 'Point'):
        f = P.fns[i]
        r.funcs.add(f['path'])
        ety = P.types[P.pointee(f['body']['locals'][1])]['e']
        T.reset()
        ip = Interp(P, Hooks())
        ip.bounded = 6
        ip.nomerge = True
        st = State()
        try:
            pts, lv = [], []
            for j in range(3):
                l = []
                pts.append(('v', build(ip, st, ety, 'p%d' % j, 'in1', l)))
                lv.append(l)
            o = ip.new_obj(st, ('q', tuple(pts)), 'points')
            outs = ip.exec_fn(i, [('r', o, (), None)], st)
        except (Stuck, Budget) as e:
            r.undecide('%s: analysis stopped: %s' % (f['path'], e))
            continue
        r.funcs.update(P.fns[k]['path'] for k in ip.analysed)
        events(r, ip, f['path'] + ' of three points', {'in1'})
        r.ok('%s of three points evaluated' % f['path'])
        many(P, r, i, ety)


def many(P, r, i, ety):
    """The accumulators of a sum over arbitrarily many points, against the largest total fewer than 2^32 pixels can give."""
    f = P.fns[i]
    T.reset()
    ip = Interp(P, Hooks())
    st = State()
    try:
        lv = []
        e = build(ip, st, ety, 'p', 'in1', lv)
        pts = [('v', build(ip, st, ety, 'p%d' % j, 'in1', [])) for j in range(3)]
        ip.exec_fn(i, [('r', ip.new_obj(st, ('q', tuple(pts)), 'points'), (), None)], st)
    except (Stuck, Budget) as e:
        r.undecide('%s: analysis stopped: %s' % (f['path'], e))
        return
    weighted = any(w for _, _, w in lv)
    N = (1 << 32) - 1
    seen = set()
    for e in panics.events(ip):
        _, kind, site, cond, decided, s, stack = e[:7]
        if kind != 'overflow' or cond is None or cond[0] != 'ge':
            continue
        C, rest = cond[1]
        acc = [(y, c) for y, c in rest if c == -1 and T.SYMS[y].kind == 'free' and T.SYMS[y].name.startswith('w#') and (T.SYMS[y].hi or 0) >= C]
        if len(acc) != 1 or C <= 0:
            continue
        inc = T.scale((0, tuple(x for x in rest if x != acc[0])), -1)
        if acc[0][0] in T.all_syms(inc):
            continue
        hi = T.interval(inc)[1]
        u = drive.user_frame([P.fns[k]['path'] for k in reversed(stack)])
        if hi is None or hi <= 0:
            continue
        if hi <= 255:
            total, what = hi * ((1 << 24) if weighted else N), 'channels of %d equal %s' % ((1 << 24) if weighted else N, 'weights' if weighted else 'pixels')
        elif hi == N:
            total, what = (N, 'counts of %d pixels' % N) if weighted else (N * (N - 1) // 2, 'positions of a row of %d pixels' % N)
        elif weighted and hi == 255 * N:
            total, what = hi, 'channels of %d white pixels' % N
        else:
            if hi * N > C:
                r.undecide('%s: sum of terms up to %d in an accumulator up to %d' % (u, hi, C))
            continue
        key = (u, C, hi)
        if key in seen:
            continue
        seen.add(key)
        if total > C:
            r.violation('sum in ' + u, '%s adds up to %d over the points of a cluster in an accumulator that holds at most %d: the %s sum to %d' % (u, hi, C, what, total))
        else:
            r.ok('%s: accumulator up to %d holds the %s' % (u, C, what))


class KeyHooks(Hooks):
    """Evaluates the key of a nearest-element search on a symbolic element."""
    def __init__(self):
        self.keys = []

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        if not f['path'].endswith(('__vp::m::min_by_key', '__vp::m::max_by_key')) or len(args) != 2:
            return None
        o = ip.types[dty]
        try:
            item = o['v'][1]['f'][0][1]
            ety = ip.types[item]['e'] if ip.types[item]['k'] == 'ref' else item
            if ip.types[ety]['k'] != 'adt':
                return None
            s = st.copy()
            lv = []
            v = ('r', ip.new_obj(s, build(ip, s, ety, '', 'centroid', lv), 'centroid'), (), None)
            if ety != item:
                v = ('r', ip.new_obj(s, v, 'item'), (), None)
            col = ip.collector
            ip.collector = []
            rs = M.call_closure(ip, s, args[1], atys[1], [v], act, t, f['body']['locals'][0], 'FnMut')
            got, ip.collector = ip.collector, col
            for k, s2 in rs or ():
                if k[0] == 'n':
                    self.keys.append((drive.user_frame(drive.frames(act)), k[1], s2, lv, [e for e in got if e[0] == 'panic']))
        except (KeyError, IndexError, TypeError, Stuck):
            return None
        return None


def key_part(P, r):
    labs = drive.labels(P)
    for i, lab in enumerate(labs):
        if 'Voronoi' not in lab:
            continue

        def post(ip, lab, outs, why):
            if why and not ip.hooks.keys:
                r.undecide('%s decode: %s' % (lab, why))
            r.funcs.update(ip.p.fns[k]['path'] for k in ip.analysed)
            events(r, ip, lab + ' decode', {'input', 'byte', 'bytes', 'reader', 'in1'})
            for u, key, st, lv, pan in ip.hooks.keys:
                order(r, u, key, st, lv)
                for e in pan:
                    overflow_key(r, u, e)
            if not ip.hooks.keys:
                r.undecide('%s: no search for the nearest centroid by key was found in decode' % lab)
            return []
        hk = KeyHooks()
        drive.one(P, 'decode', i, lambda: hk, post, 400000, 120)


def pleaves(t):
    """Free symbols of t, where a pixel's column and row count as such."""
    out = set()
    todo = [y for y, _ in t[1]]
    while todo:
        y = todo.pop()
        if y in out:
            continue
        sy = T.SYMS[y]
        if sy.kind == 'op' and sy.data[0] in ('rowx', 'rowy'):
            out.add(y)
        elif sy.kind == 'free':
            out.add(y)
        else:
            args = T.sym_args(sy)
            if not args:
                return None
            for x in args:
                if isinstance(x, int):
                    todo.append(x)
                else:
                    todo.extend(z for z, _ in x[1])
    return out


def pixel_syms(key, lv):
    mine = set()
    for _, x, _ in lv:
        mine |= T.all_syms(x[1])
    return sorted((pleaves(key) or set()) - mine)


def overflow_key(r, u, e):
    cond = e[3]
    if 'overflow' not in e[1] or cond is None:
        return
    rng = random.Random(3)
    ls = pleaves(cond[1])
    if ls is None or any(T.SYMS[y].hi is None for y in ls):
        return
    for k in range(400):
        ev = teval.Ev(rng)
        for y in ls:
            ev.v[y] = rng.choice((T.SYMS[y].lo, min(T.SYMS[y].hi, (1 << 32) - 2), rng.randint(T.SYMS[y].lo, min(T.SYMS[y].hi, (1 << 32) - 2))))
        try:
            if not ev.cond(cond):
                r.violation('overflow in ' + u, 'the key of the nearest-centroid search in %s overflows: %s fails for %s' % (u, T.show_cond(cond)[:160], ', '.join('%s=%d' % (T.SYMS[y].name, ev.v[y]) for y in ls)))
                return
        except teval.Unknown:
            return
    r.ok('key of the search in ' + u)


def order(r, u, key, st, lv):
    pos = [x for n, x, w in lv if not w and x[0] == 'n' and T.SYMS[x[1][1][0][0]].hi > 255]
    px = pixel_syms(key, lv)
    if len(pos) != 2 or len(px) != 2:
        r.undecide('%s: the key is not a closed form over one centroid and one pixel position' % u)
        return
    cs = [x[1][1][0][0] for x in pos]
    rng = random.Random(9)
    conds = st.pc.full()

    def val(a, p, swap):
        ev = teval.Ev(rng)
        ev.v[cs[0]], ev.v[cs[1]] = a
        ev.v[px[swap]], ev.v[px[1 - swap]] = p
        return ev.term(key)
    for swap in (0, 1):
        ok = True
        bad = None
        try:
            for k in range(600):
                hi = 60 if k % 2 else (1 << 32) - 2
                pt = lambda: tuple(rng.choice((0, hi, hi // 2 + 1, rng.randint(0, hi), rng.randint(0, min(hi, 9)))) for _ in range(2))
                a, b, p = pt(), pt(), pt()
                da, db = ((c[0] - p[0]) ** 2 + (c[1] - p[1]) ** 2 for c in (a, b))
                if da == db or k % 2 == 0 and ok is False:
                    continue
                if (val(a, p, swap) < val(b, p, swap)) != (da < db):
                    if k % 2:
                        ok = False
                    else:
                        bad = bad or (a, b, p)
        except teval.Unknown as e:
            r.undecide('%s: the key is not evaluable: %s' % (u, e))
            return
        if ok:
            if bad:
                r.violation('wrapped key in ' + u, 'the search in %s orders the centroids %s and %s of the pixel %s the wrong way round, while it is right for small positions: the value wrapped' % (u, *bad))
            else:
                r.ok('%s: order of the keys at positions below 2^32' % u)
            return
    r.undecide('%s: the key does not order by Euclidean distance' % u)
