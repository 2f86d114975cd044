"""Composition of encode and decode: what encode hands to the output is the input of decode.

Encode is interpreted over an image of arbitrary width and height with arbitrary pixels, taking images of
0 to BOUND pixels one pixel at a time; the coding stages that the whole stream passes through (Huffman,
dictionary, look-back) are cut points: encode's cut leaves the sequence of items handed to the stage in the
stream, and decode's cut must find that sequence, of the same stage, at the same place. The closed forms of
the pixels decode stores are then compared with the pixels encode read.
"""
import random
import ana, drive, hilbert_table, terms as T
import models
from models import norm, some, ok, NONE, UNIT, deref, get, window, subseq
from absint import Interp, State, Stuck, Budget
from panics import witness
from teval import Ev, Unknown
from terms import const, sub, addc

BOUND = 3          # pixels per image taken one by one
STAGES = [('huf::encode_all', 'huf::decode_all', 'Huffman'),
          ('zip_dict_encode', 'zip_dict_decode', 'dictionary'),
          ('zip_back_encode', 'zip_back_decode', 'look-back')]


class H:
    peel = 0

    def __init__(self):
        self.bad = []
        self.points = []
        self.lossless = False
        self.notes = []
        self.mode = 'encode'

    # ---------------- calls
    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        p = f['path']
        if f['crate'] == 'cniic':
            for e, d, k in STAGES:
                if p.endswith('::' + e):
                    return self.enc_stage(ip, act, st, f, args, atys, dty, t, k)
                if p.endswith('::' + d):
                    return self.dec_stage(ip, act, st, f, args, dty, k)
            if p.endswith('kmeans::cluster'):
                return self.cluster(ip, st, args, dty)
            if p.endswith('utils::count_freqs'):
                return [(ip.top(dty), st)]
            if p.endswith('__vp::m::min_by_key') and self.mode == 'decode':
                return self.min_by_key(ip, act, st, args, atys, dty, t)
        if p.endswith('Iterator>::next') and args:
            r = deref(ip, st, args[0])
            for _ in range(6):
                v = get(ip, st, r) if r is not None else None
                if v is None or v[0] != 'r':
                    break
                r = v
            if v is not None and v[0] == 'm' and v[1] == 'stagein':
                return self.stage_next(ip, st, v, dty)
        n = norm(p)
        if self.mode == 'encode':
            if n in ('HashMap as FromIterator::from_iter',) or (p.endswith('m::from_iter') and 'HashMap' in ip.p.tyname(dty)[:40]) or (p.endswith('m::collect') and 'HashMap' in ip.p.tyname(dty)[:40]):
                return [(('m', 'lut', ()), st)]
            if n in ('HashMap::get', 'HashMap as Index::index'):
                r = deref(ip, st, args[0])
                v = get(ip, st, r) if r is not None else None
                if v is not None and v[0] == 'm' and v[1] == 'lut':
                    return self.lookup(ip, st, args, dty, n)
        return None

    def drop(self, *a):
        return None

    def lookup(self, ip, st, args, dty, n):
        k = args[1]
        while k[0] == 'r':
            k = ip.load(st, k[1], k[2])
        ls = leafs(ip, st, k)
        if ls is None or len(ls) != 3:
            return None
        st = st.copy()
        v = ('s', (('q', tuple(('v', ('n', T.op('lut', list(ls) + [c], 0, 255), 'u8')) for c in range(3))),))
        r = ('r', ip.new_obj(st, v, 'lut'), (), None)
        return [(some(r) if n == 'HashMap::get' else r, st)]

    def cluster(self, ip, st, args, dty):
        pts = args[0]
        t = ip.types[dty]
        if t['k'] != 'adt' or t['ak'] != 'struct':
            return [(ip.top(dty), st)]
        if pts[0] == 'q' and all(x[0] == 'v' for x in pts[1]):
            fs = []
            ely = None
            for nm, ty, *_ in t['v'][0]['f']:
                e = ip.p.seq_elem(ty)
                ee = ip.p.seq_elem(e) if e is not None else None
                if ee is not None:
                    fs.append(('q', tuple(('v', ('q', (x,))) for x in pts[1])))
                    ely = ee
                else:
                    fs.append((ty, e))
            fs = [x if x[0] == 'q' else ('q', pts[1]) if x[1] == ely else ip.top(x[0]) for x in fs]
            self.points.append((pts, st))
            if len(args) > 1 and args[1][0] == 'n':
                # as many clusters as points: every point is a cluster of its own
                s1 = st.assume(('eq', addc(args[1][1], -len(pts[1]))))
                if s1 is None and not self.lossless:
                    return []
                st = s1 or st
            return [(('s', tuple(fs)), st)]
        return [(ip.top(dty), st)]

    def min_by_key(self, ip, act, st, args, atys, dty, t):
        """The first item with the smallest key; which one it is becomes a condition of the path."""
        inst = ip.types[atys[1]].get('inst') or {}
        fid = inst.get('FnMut', inst.get('FnOnce'))
        if fid is None or ip.p.fns[fid]['body'] is None:
            return None
        kty = ip.p.fns[fid]['body']['locals'][0]
        out = []
        for items, s, done in self.drain(ip, act, st, args[0], atys[0], t):
            if not done:
                continue
            if not items:
                out.append((NONE, s))
                continue
            s = s.copy()
            env = ip.new_obj(s, args[1], 'env')
            cur = [([], s)]
            for it in items:
                nxt = []
                for ks, s1 in cur:
                    s1 = s1.copy()
                    r = ('r', ip.new_obj(s1, it, 'item'), (), None)
                    for k, s2 in models.call_env(ip, s1, env, atys[1], [r], act, t, kty):
                        if k[0] != 'n':
                            return None
                        nxt.append((ks + [k[1]], s2))
                cur = nxt
            for ks, s1 in cur:
                for i in range(len(ks)):
                    s2 = s1.copy()
                    for j in range(len(ks)):
                        if j != i and s2 is not None:
                            s2 = s2.assume(('ge', addc(sub(ks[j], ks[i]), 0 if j > i else -1)))
                    if s2 is None:
                        continue
                    s2 = s2.copy()
                    s2.g['!mb'] = s2.g.get('!mb', ()) + (i,)
                    out.append((some(items[i]), s2))
        return out

    # ---------------- stages
    def enc_stage(self, ip, act, st, f, args, atys, dty, t, kind):
        src, sty = args[0], atys[0]
        self.sites.add((kind, 'encode', f['path'], drive.user_frame(drive.frames(act))))
        starts = [(src, sty, st)]
        ty = ip.types[sty]
        if ty['k'] in ('closure', 'fndef') or (ty['k'] == 'ref' and ip.types[ty['e']]['k'] == 'closure'):
            cty = sty if ty['k'] != 'ref' else ty['e']
            if ty['k'] == 'ref':
                env = src[1]
            else:
                env = ip.new_obj(st, src, 'env')
            rty = self.closure_ret(ip, f, cty)
            starts = [(v, rty, s) for v, s in models.call_env(ip, st, env, cty, [], act, t, rty)]
        out = []
        for v, ity, s in starts:
            for items, s2, done in self.drain(ip, act, s, v, ity, t):
                if not done:
                    continue
                s3 = s2.copy()
                s3.g['!log'] = s3.g['!log'] + (('stage', kind, tuple(items)),)
                out.append((ok(UNIT), s3))
        return out

    def closure_ret(self, ip, f, cty):
        for a in f['args']:
            if isinstance(a, int) and ip.types[a]['k'] not in ('closure', 'fndef'):
                if next_fn(ip.p, a) is not None:
                    return a
        raise Stuck('the type of the item stream is not known')

    def drain(self, ip, act, st, v, ity, t):
        if v[0] == 'q':
            if all(x[0] == 'v' for x in v[1]):
                return [([x[1] for x in v[1]], st, True)]
            raise Stuck('a stage input of unknown length')
        fid = next_fn(ip.p, ity)
        if fid is None:
            raise Stuck('no next for %s' % ip.p.tyname(ity))
        f = ip.p.fns[fid]
        oty = f['body']['locals'][0] if f['body'] else None
        st = st.copy()
        oid = ip.new_obj(st, v, 'src')
        cur = [([], st)]
        done = []
        byt = oty is not None and ip.types[ip.types[oty]['v'][1]['f'][0][1]]['k'] == 'uint'
        for n in range(8 + 11 * self.bound + 4 if byt else self.bound + 2):
            nxt = []
            for items, s in cur:
                for o, s2 in ip.invoke(act, s.copy(), fid, [('r', oid, (), None)], [f['body']['locals'][1]], oty, t):
                    if o[0] == 't':
                        o = ip.expand(o, s2)
                    if o[0] != 'e':
                        raise Stuck('a stage input yields an unrecognised value')
                    for i, fs in o[1]:
                        s3 = s2 if len(o[1]) == 1 else s2.assume(ip.vdiscr(o, i))
                        if s3 is None:
                            continue
                        if i == 0:
                            done.append((items, s3, True))
                        else:
                            nxt.append((items + [fs[0]], s3))
            cur = nxt
            if not cur:
                break
        return done

    def dec_stage(self, ip, act, st, f, args, dty, kind):
        self.sites.add((kind, 'decode', f['path'], drive.user_frame(drive.frames(act))))
        s = st.copy()
        p = s.g['!pos']
        log = s.g['!log']
        if p < len(log) and isinstance(log[p], tuple) and log[p][0] == 'stage':
            if log[p][1] != kind:
                self.bad.append(('stage', 'what the %s stage wrote is decoded with the %s stage (in %s)' % (log[p][1], kind, drive.user_frame(drive.frames(act))), s))
                return []
            s.g['!pos'] = p + 1
            s.g['!stg'] = (p, 0)
            v = ('m', 'stagein', (('k', p),))
            return [(some(v) if is_option(ip, dty) else v, s)]
        if p < len(log):
            self.bad.append(('stage', 'the %s stage is decoded where encode wrote plain bytes' % kind, s))
        else:
            self.bad.append(('stage', 'the %s stage is decoded but encode wrote none' % kind, s))
        return []

    def stage_next(self, ip, st, v, dty):
        s = st.copy()
        p = v[2][0][1]
        cur = s.g.get('!stg', (p, 0))
        items = s.g['!log'][p][2]
        k = cur[1]
        s.g['!stg'] = (p, k + 1)
        if k >= len(items):
            s.g['!over'] = 1
            return [(NONE, s)]
        it = items[k]
        want = ip.types[dty]['v'][1]['f'][0][1]
        if not shaped(ip, it, want):
            raise Stuck('items are written and read with different types')
        return [(some(it), s)]

    # ---------------- input and output
    def sink(self, ip, st, name, a, dty, act, t):
        okv = ok(UNIT)
        if name == 'vp_sink_flush':
            return [(okv, st)]
        w = window(ip, st, a[1])
        if w is None:
            raise Stuck('the written bytes are not known')
        q = subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
        new = []
        for x in q[1]:
            if x[0] != 'v':
                raise Stuck('the written bytes are not known one by one')
            new.append(x[1])
        s = st.copy()
        s.g['!log'] = s.g['!log'] + tuple(new)
        return [(okv if name == 'vp_sink_write_all' else ok(('n', const(len(new)), 'usize')), s)]

    def reader_next(self, ip, st, a, act, t):
        log = st.g['!log']
        p = st.g['!pos']
        s = st.copy()
        if p >= len(log):
            s.g['!over'] = 1
            return [(NONE, s)]
        x = log[p]
        if x[0] == 'stage':
            self.bad.append(('stage', 'what the %s stage wrote is read as plain bytes (in %s)' % (x[1], drive.user_frame(drive.frames(act))), s))
            return []
        s.g['!pos'] = p + 1
        return [(some(x), s)]

    def event(self, ip, st, kind, data):
        if self.mode == 'encode' and kind in ('hilread', 'pixread'):
            st.g['!in'] = st.g.get('!in', 0) + 1
        if self.mode == 'encode' and kind == 'pixend':
            st.g['!end'] = 1
        if kind == 'pixcell' and self.mode == 'decode':
            settle(ip, st)
            oid, x, y, how = data
            st.g['!cell'] = (oid, x, y)


def settle(ip, st):
    c = st.g.get('!cell')
    if c is not None:
        v = st.objs.get(c[0])
        st.g['!puts'] = st.g.get('!puts', ()) + ((c[1], c[2], freeze(ip, v, st)),)
        st.g['!cell'] = None


def freeze(ip, v, st):
    if v is None:
        return None
    ls = leafs(ip, st, v)
    return ls


def leafs(ip, st, v, d=0):
    """All numbers of a value, in order; None if some part is not a number."""
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] == 'n':
        return (v[1],)
    if v[0] == 'r' and d < 8:
        return leafs(ip, st, ip.load(st, v[1], v[2]), d + 1)
    if v[0] == 's' and d < 8:
        out = ()
        for x in v[1]:
            l = leafs(ip, st, x, d + 1)
            if l is None:
                return None
            out += l
        return out
    if v[0] == 'q' and d < 8:
        out = ()
        for x in v[1]:
            if x[0] != 'v':
                return None
            l = leafs(ip, st, x[1], d + 1)
            if l is None:
                return None
            out += l
        return out
    return None


def shaped(ip, v, ty, d=0):
    t = ip.types[ty]
    if v[0] == 't':
        return v[1] == ty
    if v[0] == 'n':
        return t['k'] in ('uint', 'int', 'bool', 'char') and (t.get('n') or t['k']) == v[2]
    if v[0] == 's':
        if t['k'] == 'tuple':
            return len(t['a']) == len(v[1]) and all(shaped(ip, x, y, d + 1) for x, y in zip(v[1], t['a']))
        if t['k'] == 'adt' and t.get('v') and len(t['v']) == 1:
            fs = [x[1] for x in t['v'][0]['f']]
            return len(fs) == len(v[1]) and all(shaped(ip, x, y, d + 1) for x, y in zip(v[1], fs))
        return False
    if v[0] == 'q':
        el = ip.p.seq_elem(ty)
        return el is not None and all(x[0] == 'v' and shaped(ip, x[1], el, d + 1) for x in v[1])
    return False


def is_option(ip, ty):
    t = ip.types[ty]
    return t['k'] == 'adt' and t['name'].endswith('option::Option')


_next = {}


def next_fn(P, ty):
    """The Iterator::next instance of an iterator type."""
    if id(P) not in _next:
        m = {}
        for i, f in enumerate(P.fns):
            b = f['body']
            if f['path'].endswith('Iterator>::next') and b is not None and b['nargs'] == 1:
                e = P.pointee(b['locals'][1])
                if e is not None:
                    m.setdefault(e, i)
        _next[id(P)] = m
    return _next[id(P)].get(ty)


# ---------------------------------------------------------------- one configuration
class Result:
    pass


def run_config(P, i, lossless, limit_steps=250000, dims=None):
    """All (encode path, decode path) pairs of configuration i. lossless: only with is_lossless() true.
    dims: an image of this size instead of one of any size, every pixel followed."""
    T.reset()
    h = H()
    h.sites = set()
    h.lossless = lossless
    ip = Interp(P, h, steps=limit_steps)
    h.ip = ip
    ip.RECUR = 6
    st = State()
    R = Result()
    R.ip, R.h = ip, h
    R.label, b = ana.configs(ip, ana.codec_ty(P))[i]
    codec = ('r', ip.new_obj(st, b(st), 'codec'), (), None)
    starts = [st]
    R.claims = False
    if lossless:
        starts = []
        for v, s in ip.exec_fn(ana.root(P, 'is_lossless'), [codec], st):
            s2 = s.assume(('eq', sub(v[1], const(1))))
            if s2 is not None:
                starts.append(s2)
        R.claims = bool(starts)
    enc = P.fns[ana.root(P, 'encode')]['body']['locals']
    R.pairs = []
    R.encs = 0
    w = T.fresh('w', 0, (1 << 32) - 1, 'dim')
    hh = T.fresh('h', 0, (1 << 32) - 1, 'dim')
    R.dims = dims
    if dims is not None:
        w, hh = const(dims[0]), const(dims[1])
        ip.nomerge, ip.MAXSTATES = True, 3000
    R.w, R.hh = w, hh
    pix = ('m', 'pix', (('n', T.fresh('img', 0, 1 << 20, 'img'), 'u64'),))
    ip.bounded = BOUND + 1 if dims is None else 4 * max(dims) ** 2 + 12
    h.bound = BOUND if dims is None else dims[0] * dims[1]
    for s in starts:
        s.g['!log'] = ()
        s.objs['image'] = ('s', (('n', w, 'u32'), ('n', hh, 'u32'), pix))
        img = ('r', 'image', (), None)
        sink = ip.new_ref(P.pointee(enc[3]), 'sink', s)
        h.mode = 'encode'
        for rv, s2 in ip.exec_fn(ana.root(P, 'encode'), [codec, img, sink], s):
            if rv[0] != 'e':
                raise Stuck('encode returns an unrecognised value')
            if not any(a[0] == 0 for a in rv[1]):
                continue
            if len(rv[1]) > 1:
                s2 = s2.assume(ip.vdiscr(rv, 0))
                if s2 is None:
                    continue
            R.encs += 1
            s3 = s2.copy()
            s3.g['!pos'] = 0
            s3.g.pop('!over', None)
            h.mode = 'decode'
            dec = P.fns[ana.root(P, 'decode')]['body']['locals']
            rd = ip.new_ref(P.pointee(dec[2]), 'rd', s3)
            nb = len(h.bad)
            douts = ip.exec_fn(ana.root(P, 'decode'), [codec, rd], s3)
            for _, x in douts:
                settle(ip, x)
            R.pairs.append((s2, douts, h.bad[nb:]))
            h.mode = 'encode'
    return R


# ---------------------------------------------------------------- evaluating what was extracted
class PEv(Ev):
    """Evaluates positions of the two traversals for given dimensions; pixels are arbitrary."""

    def calc(self, s):
        if s.kind == 'op':
            nm = s.data[0]
            if nm in ('rowx', 'rowy'):
                w, h, k = (self.term(x) for x in s.data[1:4])
                if w <= 0:
                    raise Unknown('empty')
                return k % w if nm == 'rowx' else k // w
            if nm in ('hx', 'hy'):
                w, h, k = (self.term(x) for x in s.data[1:4])
                return curve(w, h, k)[nm == 'hy']
            if nm in ('px', 'lut'):
                return self.rng.randint(0, 255)
        return Ev.calc(self, s)


def curve(w, h, k):
    """The k-th position of the space-filling curve; only small rectangles are tabulated."""
    c = hilbert_table.at(w, h, k)
    if c is None:
        raise Unknown('the curve of a %dx%d rectangle' % (w, h))
    return c


DIMS = [(2, 3), (3, 2), (1, 5), (5, 1), (4, 4), (7, 2), (2, 7), (1, 9)]


def positions_differ(R, conds, a, b):
    """Dimensions for which two position terms differ, None if they agree wherever evaluated, or 'unknown'."""
    if a == b:
        return None
    for w, h in DIMS:
        for seed in (1, 2):
            e = PEv(random.Random(seed))
            e.v[R.w[1][0][0]] = w
            e.v[R.hh[1][0][0]] = h
            try:
                x, y = e.term(a), e.term(b)
            except Unknown:
                return 'unknown'
            if x != y:
                return (w, h)
    return None


def px_leaves(t):
    return [s for s in T.all_syms(t) if T.SYMS[s].kind == 'op' and T.SYMS[s].data[0] == 'px']


def differ(R, conds, a, b):
    """Pixel values (and codec parameters) for which two value terms differ: (text|None, why)."""
    if a == b:
        return None, 'equal'
    d = sub(a, b)
    m = {}
    cs = []
    for c in conds:
        l = T.all_syms(c[1])
        if any(x in l for x in (R.w[1][0][0], R.hh[1][0][0])) and not any(T.SYMS[x].kind == 'op' and T.SYMS[x].data[0] in ('px', 'lut') for x in l):
            continue
        cs.append(c)
    for c in cs + [('eq', d)]:
        for s in T.all_syms(c[1]):
            y = T.SYMS[s]
            if y.kind == 'op' and y.data[0] in ('px', 'lut') and s not in m:
                m[s] = T.fresh(y.name, 0, 255, 'val')
    cs = [(k, T.subst(t, m)) for k, t in cs]
    d = T.subst(d, m)
    asg, why = witness(cs, ('eq', d), {'val', 'codec'})
    if asg is None:
        return None, why
    return ', '.join('%s=%d' % (T.SYMS[k].name, v) for k, v in sorted(asg.items())[:6]) or 'any pixel values', ''


def feasible(R, conds):
    """Is there an image on which a path is taken? (text|None, why)"""
    z = T.fresh('z', 0, 0, 'val')
    return differ(R, conds, const(1), z)


def float_ops(t):
    return [s for s in T.all_syms(t) if T.SYMS[s].kind == 'op' and T.SYMS[s].data[0].startswith('ftoi')]
