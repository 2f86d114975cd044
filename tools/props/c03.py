"""C03: every failure of the output reaches the caller of encode."""
import re
import drive, cg, terms as T
from run import Hooks
from models import UNIT, usz, get
from terms import const

RULE = ('Abstract interpretation of Codec::encode for every codec configuration against an output on which any write or flush may fail. A typestate records '
        'whether a call failed, whether the last write left bytes over, and whether bytes sit in a private buffer; encode returning Ok in any of these states, '
        'or panicking once a call failed, is a violation. Functions that cannot reach the output are replaced by an arbitrary result.')

BUF = re.compile(r'\b(BufWriter|LineWriter)(?:::)?<W>(?: as [^>]*>)?::(\w+)$')
ERR = ('m', 'ioerr', ())


def okv(v):
    return ('e', ((0, (v,)),), None)


def errv():
    return ('e', ((1, (ERR,)),), None)


def fail(s):
    s = s.copy()
    s.g['!ioerr'] = 1
    return s


class H(Hooks):
    def __init__(self, P):
        self.P = P
        self.sites = {}
        self.bad = {}
        self.nosink = {}

    def setup(self, P):
        g = cg.CG(P)
        self.g = g
        sinks = {i for i, f in enumerate(P.fns) if '__vp::vp_sink' in f['path']}
        rev = {}
        for i, f in enumerate(P.fns):
            for y, _ in g.callees(i):
                rev.setdefault(y, set()).add(i)
        seen = set(sinks)
        work = list(sinks)
        while work:
            x = work.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        self.reach = seen

    def where(self, act):
        return drive.user_frame(drive.frames(act))

    def sink(self, ip, st, name, a, dty, act, t):
        w = self.where(act)
        self.sites[w] = self.sites.get(w, 0) + 1
        out = []
        bad = fail(st)
        bad.g['where'] = w
        if name == 'vp_sink_write':
            ln = None
            if a[1][0] == 'r' and a[1][3] and a[1][3][0] == 'w':
                ln = a[1][3][2]
            else:
                v = ip.load(st, a[1][1], a[1][2]) if a[1][0] == 'r' else a[1]
                ln = ip.seq_len(v) if v[0] == 'q' else None
            full = st.copy()
            full.g.pop('!short', None)
            out.append((okv(('n', ln, 'usize') if ln is not None else ip.fresh_num('w', 'usize', 'sink')), full))
            s = st.copy()
            if not (ln is not None and ln == T.ZERO):
                s.g['!short'] = 1
                s.g['where'] = w
                if ln is not None:
                    n = T.fresh('wrote', 0, (1 << 63) - 1, 'sink')
                    if s.assume(('ge', T.addc(T.sub(ln, n), -1))) is None:
                        s = None
                    if s is not None:
                        out.append((okv(('n', n, 'usize')), s))
                else:
                    out.append((okv(ip.fresh_num('w', 'usize', 'sink')), s))
            out.append((errv(), bad))
            return out
        if name == 'vp_sink_write_all':
            s = st.copy()
            s.g.pop('!short', None)
            return [(okv(UNIT), s), (errv(), bad)]
        return [(okv(UNIT), st.copy()), (errv(), bad)]

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        p = f['path']
        m = BUF.search(p)
        if m:
            return self.buffered(ip, act, st, m.group(2), args, dty)
        if p.startswith('std::io::Error::') and args and '&' in ip.p.tyname(atys[0])[:1]:
            return [(('t', dty, 'opaque'), st)]
        if f['body'] is None or f['crate'] != 'cniic' or '__vp' in p:
            if f['body'] is not None and fid not in self.reach and '__vp::m::' in p:
                return self.skip(ip, st, fid, f, args, atys, dty)
            return None
        if fid not in self.reach:
            return self.skip(ip, st, fid, f, args, atys, dty)
        return None

    def skip(self, ip, st, fid, f, args, atys, dty):
        if ip.types[dty]['k'] == 'never':
            return []
        if ip.is_closure_body(f) or not self.heavy(ip, fid):
            return None
        s = st.copy()
        seen = set()
        for v, ty in zip(args, atys):
            self.wreck(ip, s, v, ty, seen, 0)
        self.nosink[f['path']] = 1
        return [(('t', dty, 'opaque'), s)]

    def heavy(self, ip, fid):
        """Anything with a loop or calls into its own crate is summarised."""
        f = ip.p.fns[fid]
        return len(f['body']['blocks']) > 12

    def wreck(self, ip, st, v, ty, seen, d):
        """Whatever a callee may reach through a mutable borrow becomes arbitrary."""
        t = ip.types[ty]
        if d > 6:
            return
        if v[0] == 'r' and t['k'] in ('ref', 'ptr'):
            key = (v[1], v[2])
            if key in seen:
                return
            seen.add(key)
            try:
                cur = ip.load(st, v[1], v[2])
            except Exception:
                return
            self.wreck(ip, st, cur, t['e'], seen, d + 1)
            if t.get('mut') and not self.is_sink(ip, t['e']):
                try:
                    ip.store(st, v[1], v[2], ('t', t['e'], 'opaque'))
                except Exception:
                    pass
            return
        if v[0] == 's':
            fs = None
            if t['k'] == 'adt' and t['ak'] == 'struct':
                fs = [x[1] for x in t['v'][0]['f']]
            elif t['k'] == 'tuple':
                fs = t['a']
            if fs:
                for x, y in zip(v[1], fs):
                    self.wreck(ip, st, x, y, seen, d + 1)

    def is_sink(self, ip, ty):
        return '__vp::Sink' in ip.p.tyname(ty)

    def buffered(self, ip, act, st, m, args, dty):
        w = self.where(act)
        if m in ('new', 'with_capacity'):
            return [(('m', 'bufw', (args[-1],)), st)]
        if m in ('write_all', 'write', 'write_all_cold'):
            s = st.copy()
            s.g['!buf'] = 1
            s.g['where'] = w
            if m == 'write':
                v = ip.fresh_num('w', 'usize', 'sink')
            else:
                v = UNIT
            b = fail(st)
            b.g['where'] = w
            return [(okv(v), s), (errv(), b)]
        if m in ('flush', 'flush_buf', 'into_inner'):
            s = st.copy()
            s.g.pop('!buf', None)
            b = fail(st)
            b.g['where'] = w
            b.g.pop('!buf', None)
            if m == 'into_inner':
                return [(('e', ((0, (('t', ip.types[dty]['args'][0], 'opaque'),)),), None), s), (('e', ((1, (('t', ip.types[dty]['args'][1], 'opaque'),)),), None), b)]
            return [(okv(UNIT), s), (errv(), b)]
        if m == 'drop':
            return [(UNIT, st)]
        return None


def mk():
    return H(PROG)


def post(ip, lab, outs, why):
    h = ip.hooks
    res = [('fn', [ip.p.fns[x]['path'] for x in ip.analysed])]
    nv = 0
    for v, s in outs:
        if v[0] != 'e':
            res.append(('und', lab, 'encode returns an unrecognised value'))
            continue
        isok = any(a[0] == 0 for a in v[1])
        if len(v[1]) > 1:
            d = ip.vdiscr(v, 0)
            if s.assume(d) is None:
                isok = False
        if not isok:
            continue
        w = s.g.get('where', '?')
        if s.g.get('!ioerr'):
            res.append(('viol', '%s: failed write in %s is not reported' % (lab, w), 'encode of %s can return Ok although a call on the output made in %s failed' % (lab, w)))
            nv += 1
        elif s.g.get('!short'):
            res.append(('viol', '%s: short write in %s' % (lab, w), 'encode of %s can return Ok although a partial write made in %s was never completed' % (lab, w)))
            nv += 1
        elif s.g.get('!buf'):
            res.append(('viol', '%s: bytes left in a buffer by %s' % (lab, w),
                        'encode of %s can return Ok with bytes still in a buffer filled in %s, whose final write cannot be reported any more' % (lab, w)))
            nv += 1
    for e in ip.collector:
        if e[0] != 'panic':
            continue
        kind, site, cond, decided, st = e[1], e[2], e[3], e[4], e[5]
        if st is not None and st.g.get('!ioerr') and (cond is None or decided is False):
            res.append(('viol', '%s: panic after a failed write' % lab, 'encode of %s panics in %s after a call on the output failed (%s)' % (lab, site[0], st.g.get('where'))))
            nv += 1
    for w, n in sorted(h.sites.items()):
        res.append(('ok', '%s: failure of the output call in %s reaches the caller' % (lab, w)) if not nv else ('ok', None))
    res.append(('count', 'functions without access to the output, summarised', len(h.nosink)))
    if why:
        res.append(('und', lab, why))
    elif not outs:
        res.append(('und', lab, 'no complete encode path found'))
    return res


PROG = None


def check(P, r):
    global PROG
    PROG = P
    r.rule = RULE
    r.assume = ['third-party functions behave as modelled in tools/models.py', 'a failed output call returns Err; the output is not otherwise observed']
    hh = H(P)
    hh.setup(P)

    def mkh():
        h = H(P)
        h.reach = hh.reach
        return h
    drive.all_configs(P, r, 'encode', mkh, post, steps=600000)
