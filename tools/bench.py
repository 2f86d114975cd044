"""Abstract interpretation of the benchmark and of main: what files are created, which rows are written.

The measuring function is interpreted on two images with arbitrary paths; the codec's operations and the
image library are replaced by their contracts (encode: n bytes or an error; decode: an image of the same
size with arbitrary pixels or nothing; open: an image of any size or an error). Every path is kept apart and
its events (images opened, records written, files created, messages printed) are recorded with the closed
forms of the values written. A parallel loop is interpreted for one element whose atomic segments on shared
state are extracted; all interleavings of three such elements are then explored over the extracted segments.
"""
import ana, drive, spec, models as M, terms as T
import textmodel as X
from models import norm, some, ok, err, usz, boolv, NONE, UNIT, deref, get, put, window, load_ref
from absint import Interp, State, Stuck, Budget, UNINIT
from teval import Ev, Unknown
from terms import const, addc, sub, is_const

CREATE = {'File::create': 0, 'File::create_new': 0, 'fs::write': 0, 'image::save_buffer': 0, 'image::save_buffer_with_format': 0,
          'DynamicImage::save': 1, 'DynamicImage::save_with_format': 1, 'ImageBuffer::save': 1, 'ImageBuffer::save_with_format': 1,
          'dynimage::save_buffer': 0, 'dynimage::save_buffer_with_format': 0, 'free_functions::save_buffer': 0}
CREATE2 = {'fs::copy': 1, 'fs::hard_link': 1, 'fs::symlink': 1, 'fs::symlink_file': 1}
REMOVE = ('fs::remove_file', 'fs::remove_dir', 'fs::remove_dir_all', 'fs::rename', 'fs::soft_link', 'fs::set_permissions', 'File::set_len', 'env::set_current_dir')
MKDIR = ('fs::create_dir', 'fs::create_dir_all', 'DirBuilder::create')
SPAWN = ('Command::new',)
LOCKS = ('RwLock', 'Mutex', 'FairMutex', 'ReentrantLock')


class PEv(Ev):
    """Evaluation with chosen pixels: px(id, x, y, c)."""

    def __init__(self, px=None, **k):
        Ev.__init__(self, **k)
        self.px = px

    def calc(self, s):
        if s.kind == 'op':
            nm = s.data[0]
            a = s.data[1:]
            if nm == 'px':
                i = self.term(a[0]) if isinstance(a[0], tuple) else a[0]
                return self.px(i, self.term(a[1]), self.term(a[2]), self.term(a[3]) if isinstance(a[3], tuple) else a[3])
            if nm in ('rowx', 'rowy'):
                w, h, k = (self.term(x) for x in a)
                if w <= 0:
                    raise Unknown('empty')
                return k % w if nm == 'rowx' else k // w
        return Ev.calc(self, s)


class Hk:
    """mode 'bench': the measuring function on given paths; mode 'main': the program's entry."""
    peel = 0
    NPATH = 2

    def __init__(self, mode):
        self.mode = mode
        self.sizes = []             # (user function, term, state) of every size given to ByteSize
        self.created = []           # (text, what, user function, site) of every file created
        self.removed = []
        self.exits = []             # process exits
        self.rows = []              # main: (csv value, columns, user function)
        self.headers = []
        self.sums = {}              # float symbol -> (item expressions, initial expression)
        self.undec = []
        self.locks = {}             # key -> initial value
        self.V = None
        self.sites = set()
        self.traces = []
        self.pars = []
        self.images = {}
        self.nested = 0

    def und(self, why):
        if why not in self.undec:
            self.undec.append(why)

    # ---------------------------------------------------------------- start
    def prepare(self, ip, st, args, f):
        if self.mode != 'bench':
            return args
        self.LL = T.fresh('lossless', 0, 1, 'cfg')
        segs = []
        for i in range(self.NPATH):
            L = T.fresh('plen%d' % i, 1, 4096, 'str')
            segs.append(('v', ('q', (('x', ('path', i), L),))))
        args = list(args)
        args[-1] = ('q', tuple(segs))
        st.g['!ev'] = ()
        return args

    def ev(self, st, *e):
        st.g['!ev'] = st.g.get('!ev', ()) + (e,)

    # ---------------------------------------------------------------- locks
    def contents(self, st):
        return tuple((k, self.peek(st, k)) for k in sorted(self.locks, key=repr))

    def peek(self, st, k):
        return self.ip.load(st, k[0], k[1])

    def setall(self, st, tup):
        for k, v in tup:
            if k[0] in st.objs:
                self.ip.store(st, k[0], k[1], v)

    def begin(self, st, key):
        """Entering an atomic segment: other elements may have changed the shared state."""
        if not st.g.get('!par'):
            return [st]
        if key not in self.locks:
            raise Stuck('shared state %r first seen inside the parallel loop' % (key,))
        if st.g.get('!held', ()):
            return [st]
        out = []
        for v in self.V:
            s = st.copy()
            self.setall(s, v)
            s.g['!before'] = v
            out.append(s)
        return out

    def end(self, st):
        if not st.g.get('!par'):
            return
        if st.g.get('!held', ()):
            return
        v = self.contents(st)
        b = st.g.pop('!before', None)
        if b is None:
            return
        st.g['!seg'] = st.g.get('!seg', ()) + ((b, v),)
        if v not in self.V:
            if len(self.V) > 16:
                raise Stuck('the shared state does not converge')
            self.V.append(v)
            self.grew = True

    def acquire(self, ip, st, key, mode):
        out = []
        for s in self.begin(st, key):
            held = s.g.get('!held', ())
            if any(k == key and (m == 'w' or mode == 'w') for k, m in held) and s.g.get('!par') is not None:
                self.ev(s, 'deadlock')
            if held and s.g.get('!par') is not None:
                for k, m in held:
                    if k != key:
                        self.ev(s, 'order', k, key)
            s.g['!held'] = held + ((key, mode),)
            out.append((('m', 'guard', (key, mode)), s))
        return out

    def release(self, st, key, mode):
        held = list(st.g.get('!held', ()))
        if (key, mode) in held:
            held.remove((key, mode))
        s = st
        s.g['!held'] = tuple(held)
        if not held:
            self.end(s)

    def guards(self, v, d=0):
        if v[0] == 'm' and v[1] == 'guard':
            return [v[2]]
        if d > 5:
            return []
        if v[0] == 's':
            return [g for x in v[1] for g in self.guards(x, d + 1)]
        if v[0] == 'e':
            return [g for a in v[1] for x in a[1] for g in self.guards(x, d + 1)]
        return []

    def drop(self, ip, act, st, t):
        try:
            v = ip.read(st, act, t['p'])
        except Stuck:
            return None
        gs = self.guards(v) if v else []
        if not gs:
            return None
        s = st.copy()
        for k, m in gs:
            self.release(s, k, m)
        return s

    # ---------------------------------------------------------------- parallel loops
    def par_call(self, ip, st, nm, f, args, atys, dty, act, t):
        last = nm.rsplit('::', 1)[-1]
        if last in ('into_par_iter', 'par_iter', 'par_iter_mut', 'par_bridge', 'into_par_iter_mut'):
            v = args[0]
            if v[0] == 'r':
                w = window(ip, st, v)
                if w is None:
                    raise Stuck('parallel iteration over an unknown sequence')
                q = M.subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
                items = [('v', ('r', w[0][1], w[0][2] + (('i', i),), None)) for i in range(len(q[1]))] if False else [('v', ('r', ip.new_obj(st, s[1], 'item'), (), None)) for s in q[1] if s[0] == 'v']
                if len(items) != len(q[1]):
                    raise Stuck('parallel iteration over an unknown sequence')
                return [(('m', 'par', (tuple(x[1] for x in items), ())), st)]
            if v[0] == 's' and v[1] and v[1][0][0] == 'q':
                v = v[1][0]
            if v[0] != 'q':
                # some other iterator: run it dry
                outs = self.drain(ip, st, v, atys[0], act, t)
                return [(('m', 'par', (tuple(xs), ())), s) for xs, s in outs]
            if any(s[0] != 'v' for s in v[1]):
                raise Stuck('parallel iteration over an unknown sequence')
            return [(('m', 'par', (tuple(s[1] for s in v[1]), ())), st)]
        if not args or args[0][0] != 'm' or args[0][1] != 'par':
            return None
        items, ops = args[0][2]
        if last in ('with_max_len', 'with_min_len', 'panic_fuse', 'cloned', 'copied', 'into_par_iter'):
            return [(args[0], st)]
        if last in ('map', 'inspect', 'filter', 'filter_map'):
            return [(('m', 'par', (items, ops + ((last, args[1], atys[1]),))), st)]
        if last == 'enumerate':
            return [(('m', 'par', (items, ops + (('enumerate', None, None),))), st)]
        if last in ('for_each', 'try_for_each'):
            return self.par_each(ip, st, last, items, ops, args, atys, dty, act, t)
        if last == 'collect':
            return self.par_collect(ip, st, items, ops, dty, act, t)
        raise Stuck('parallel operation ' + last)

    def drain(self, ip, st, v, ty, act, t):
        raise Stuck('parallel iteration over an unknown source')

    def element(self, ip, st, x, idx, ops, act, t):
        """One element through the adaptors: [(value or None if filtered out, state)]."""
        cur = [(x, st)]
        for op, clo, cty in ops:
            nxt = []
            for v, s in cur:
                if v is None:
                    nxt.append((v, s)); continue
                if op == 'enumerate':
                    nxt.append((('s', (usz(const(idx)), v)), s)); continue
                a = v
                if op in ('inspect', 'filter'):
                    a = ('r', ip.new_obj(s, v, 'item'), (), None)
                rs = M.call_closure(ip, s, clo, cty, [a], act, t, self.ret_of(ip, cty), 'Fn')
                if rs is None:
                    raise Stuck('closure of a parallel loop')
                for r, s2 in rs:
                    if op == 'map':
                        nxt.append((r, s2))
                    elif op == 'inspect':
                        nxt.append((v, s2))
                    elif op == 'filter':
                        for y, s3 in M.fork(ip, s2, T.as_cond(r[1]), True, False):
                            nxt.append((v if y else None, s3))
                    else:
                        for alt in ip.expand_enum(r) if hasattr(ip, 'expand_enum') else [r]:
                            if alt[0] != 'e' or len(alt[1]) != 1:
                                raise Stuck('filter_map result')
                            nxt.append((alt[1][0][1][0] if alt[1][0][0] == 1 else None, s2))
            cur = nxt
        return cur

    def ret_of(self, ip, cty):
        ty = ip.types[cty]
        if ty['k'] == 'ref':
            ty = ip.types[ty['e']]
        inst = ty.get('inst') or {}
        for k in ('Fn', 'FnMut', 'FnOnce'):
            if k in inst:
                b = ip.p.fns[inst[k]].get('body')
                if b:
                    return b['locals'][0]
        return None

    def par_each(self, ip, st, last, items, ops, args, atys, dty, act, t):
        allops = ops + (('map', args[1], atys[1]),)
        if st.g.get('!par'):
            raise Stuck('nested parallel loops')
        init = self.contents(st)
        self.V = [init]
        for rnd in range(20):
            self.grew = False
            mark = len(ip.collector)
            s = st.copy()
            s.g['!par'] = 1
            s.g['!seg'] = ()
            s.g['!held'] = ()
            s.g['!ev'] = ()
            outs = self.element(ip, s, items[0], 0, allops, act, t)
            if not self.grew:
                break
            del ip.collector[mark:]
        trs = []
        fails = False
        for v, s in outs:
            trs.append((s.g.get('!seg', ()), s.g.get('!ev', ()), v, s))
        self.pars.append((init, trs, last))
        out = []
        # afterwards: any value the shared state can have
        ends = self.V
        for val in ends:
            s = st.copy()
            self.setall(s, val)
            if last == 'for_each':
                out.append((UNIT, s))
            else:
                out.append((ip.top(dty), s))
        return out

    def par_collect(self, ip, st, items, ops, dty, act, t):
        ty = ip.types[dty]
        n = ty['name'].rsplit('::', 1)[-1] if ty['k'] == 'adt' else ''
        cur = [((), st)]
        for i, x in enumerate(items):
            nxt = []
            for vs, s in cur:
                if n in ('Result', 'Option') and vs and vs[-1][0] == 'e' and len(vs[-1][1]) == 1 and vs[-1][1][0][0] == (1 if n == 'Result' else 0):
                    nxt.append((vs, s))     # the remaining elements may be skipped
                    continue
                for v, s2 in self.element(ip, s, x, i, ops, act, t):
                    nxt.append((vs + (() if v is None else (v,)), s2))
            cur = nxt
        if n == 'Vec':
            return [(('q', tuple(('v', v) for v in vs)), s) for vs, s in cur]
        if n in ('Result', 'Option'):
            out = []
            good = 0 if n == 'Result' else 1
            for vs, s in cur:
                bad = None
                xs = []
                for v in vs:
                    if v[0] != 'e' or len(v[1]) != 1:
                        raise Stuck('collected result')
                    if v[1][0][0] == good:
                        xs.append(v[1][0][1][0])
                    elif bad is None:
                        bad = v
                if bad is None:
                    q = ('q', tuple(('v', x) for x in xs))
                    out.append((ok(q) if n == 'Result' else some(q), s))
                else:
                    out.append((bad, s))
            return out
        if n == '' and ty['k'] == 'tuple':
            return [(UNIT, s) for vs, s in cur]
        raise Stuck('parallel collect into ' + n)

    # ---------------------------------------------------------------- calls
    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        p = f['path']
        nm = norm(p)
        if f['crate'] == 'cniic' and '__vp::m::' in p:
            if nm.endswith('::sum') or nm.endswith('::fold'):
                return self.summed(ip, st, fid, f, args, atys, dty, act, t)
            return None
        if f['crate'] == 'cniic':
            return self.own(ip, st, nm, p, f, args, atys, dty, act, t)
        if f['crate'] in ('rayon', 'rayon_core') or 'ParallelIterator' in nm or 'ParallelBridge' in nm or 'ParallelSlice' in nm:
            r = self.par_call(ip, st, nm, f, args, atys, dty, act, t)
            if r is not None:
                return r
        h = HOOKS.get(nm)
        if h is not None:
            return h(self, ip, st, f, args, atys, dty, act, t)
        if nm in CREATE or nm in CREATE2:
            k = CREATE.get(nm, CREATE2.get(nm))
            q = X.text(ip, st, args[k]) if k < len(args) else None
            self.create(ip, st, act, t, q, nm)
            ty = ip.types[dty]
            if ty['k'] == 'adt' and ty['name'].endswith('Result'):
                okty = ty['v'][0]['f'][0][1]
                v = ('m', 'file', (q if q is not None else ('q', ()), False)) if nm.startswith('File::') else UNIT if ip.types[okty]['k'] == 'tuple' else ip.top(okty)
                s2 = st.copy()
                self.ev(s2, 'iofail', nm)
                return [(ok(v), st), (err(('o',)), s2)]
            return [(UNIT, st)]
        if nm in REMOVE:
            self.removed.append((nm, drive.user_frame(drive.frames(act)), X.text(ip, st, args[0]) if args else None))
            return None if f['body'] is None else [(ip.top(dty), st)]
        if nm in MKDIR:
            q = X.text(ip, st, args[-1])
            self.create(ip, st, act, t, q, nm)
            return [(ok(UNIT), st), (err(('o',)), st.copy())]
        if nm in ('process::exit', 'process::abort'):
            self.ev(st, 'exit')
            self.exits.append((st, drive.user_frame(drive.frames(act))))
            return []
        if self.mode == 'main':
            h = spec.CALLS.get(nm)
            if h is not None:
                return h(self.sp, ip, st, f, args, atys, dty, act, t)
        return None

    def create(self, ip, st, act, t, q, what):
        fr = drive.frames(act)
        self.sites.add((act.f['path'], t.get('l')))
        u = drive.user_frame(fr)
        self.created.append((q, what, u, (act.f['path'], t.get('l'))))
        self.ev(st, 'create', q, what, u)

    def own(self, ip, st, nm, p, f, args, atys, dty, act, t):
        if 'AnyCodec as cniic::codec::Codec>::' in p or 'AnyCodec as codec::Codec>::' in p:
            m = p.rsplit('::', 1)[-1]
            if m == 'name' and not getattr(self, 'realname', False):
                if not hasattr(self, 'nlen'):
                    self.nlen = T.fresh('nlen', 1, 4096, 'str')
                return [(('q', (('x', ('codecname',), self.nlen),)), st)]
            if m == 'is_lossless':
                return [(('n', self.LL, 'bool'), st)] if self.mode == 'bench' else None
            if m == 'encode':
                return self.encode(ip, st, args, atys, dty)
            if m == 'decode':
                return self.decode(ip, st, args, atys, dty)
        if self.mode == 'main' and 'AnyCodec as std::str::FromStr>::from_str' in p and '{closure' not in p:
            ty = ip.types[dty]
            return [(ok(ip.top(ty['v'][0]['f'][0][1])), st), (err(ip.top(ty['v'][1]['f'][0][1])), st.copy())]
        if self.mode == 'main' and p.startswith('cniic::bench::measure_all') and '{closure' not in p:
            return [(ok(UNIT), st), (err(('o',)), st.copy())]
        return None

    def encode(self, ip, st, args, atys, dty):
        e = st.copy()
        self.ev(e, 'encode', False)
        self.ev(st, 'encode', True)
        w = args[2]
        r = deref(ip, st, w)
        for _ in range(4):
            v = get(ip, st, r) if r is not None else None
            if v is not None and v[0] == 'r':
                r = v
            elif v is not None and v[0] == 's' and v[1] and (v[1][0][0] in ('q', 'r')):
                r = ('r', r[1], r[2] + (('f', 0),), None) if v[1][0][0] == 'q' else v[1][0]
            else:
                break
        if v is None or v[0] != 'q':
            raise Stuck('encode into an unknown writer')
        img = deref(ip, st, args[1])
        L = T.fresh('clen', 0, 1 << 40, 'clen')
        st.g['!clen'] = st.g.get('!clen', ()) + (L,)
        put(ip, st, r, M.concat(ip, st, v, ('q', (('n', L, ('t', ip.p.bykey['u8'], 'enc')),))))
        return [(ok(UNIT), st), (err(('o',)), e)]

    def decode(self, ip, st, args, atys, dty):
        e = st.copy()
        self.ev(e, 'decode', False)
        self.ev(st, 'decode', True)
        im = st.g.get('!img')
        if im is None:
            raise Stuck('decode before an image is opened')
        w, h, i = im
        n = self.newpix('dec', i)
        st.g['!dec'] = n
        return [(some(('s', (('n', w, 'u32'), ('n', h, 'u32'), ('m', 'pix', (('id', n),))))), st), (NONE, e)]

    def newpix(self, kind, i):
        T.fresh('pixid', 0, 1, 'cfg')
        n = T._fresh_n[0]
        self.images[n] = (kind, i)
        return n

    def open(self, ip, st, f, args, atys, dty, act, t):
        q = X.text(ip, st, args[0])
        i = None
        if q is not None and len(q[1]) == 1 and q[1][0][0] == 'x' and q[1][0][1][0] == 'path':
            i = q[1][0][1][1]
        e = st.copy()
        self.ev(e, 'open', i, False)
        self.ev(st, 'open', i, True)
        w = T.fresh('w', 1, (1 << 32) - 1, 'img')
        h = T.fresh('h', 1, (1 << 32) - 1, 'img')
        n = self.newpix('src', i)
        st.g['!img'] = (w, h, i)
        st.g['!src'] = n
        st.g['!dims'] = st.g.get('!dims', ()) + ((i, w, h, n),)
        return [(ok(('s', (('n', w, 'u32'), ('n', h, 'u32'), ('m', 'pix', (('id', n),))))), st), (err(('o',)), e)]

    # ---------------------------------------------------------------- sums over pixels
    def summed(self, ip, st, fid, f, args, atys, dty, act, t):
        if ip.types[dty]['k'] != 'float':
            return None
        nx = None
        for b in f['body']['blocks']:
            tt = b['t']
            if tt['k'] == 'call' and tt['f'][0] == 'k' and 'fn' in tt['f'][1] and ip.p.fns[tt['f'][1]['fn']]['path'].endswith('::next'):
                nx = tt['f'][1]['fn']
                nty = ip.p.fns[nx]['body']['locals'][0] if ip.p.fns[nx].get('body') else None
        if nx is None:
            return None
        s = st.copy()
        oid = ip.new_obj(s, args[0], 'iter')
        items, ends = [], []
        cur = s
        init = ('c', 0.0)
        if norm(f['path']).endswith('fold'):
            if args[1][0] != 'f':
                return None
            init = args[1][1]
        if nty is None:
            nty = self.opt_ty(ip, f, nx)
            if nty is None:
                return None
        for k in range(2):
            outs = ip.invoke(act, cur, nx, [('r', oid, (), None)], [None], nty, t)
            got = None
            for v, s2 in outs:
                if v[0] != 'e' or len(v[1]) != 1:
                    raise Stuck('sum over an unknown iterator')
                if v[1][0][0] == 1:
                    if got is not None:
                        raise Stuck('sum over a branching iterator')
                    got = (v[1][0][1][0], s2)
                else:
                    ends.append((k, s2))
            if got is None:
                break
            x, cur = got
            if norm(f['path']).endswith('fold'):
                sy = T._fresh_n.__setitem__(0, T._fresh_n[0] + 1) or T._fresh_n[0]
                acc = ('sym', sy, 'acc')
                rs = M.call_closure(ip, cur, args[2], atys[2], [('f', acc, ip.types[dty]['n']), x], act, t, dty, 'FnMut')
                if rs is None or len(rs) != 1 or rs[0][0][0] != 'f':
                    raise Stuck('fold over pixels')
                items.append(('acc', sy, rs[0][0][1]))
                cur = rs[0][1]
            else:
                if x[0] == 'r':
                    x = get(ip, cur, x)
                if x[0] != 'f':
                    raise Stuck('sum of unknown items')
                items.append(('item', None, x[1]))
        if not items:
            return [(('f', init, ip.types[dty]['n']), st)]
        n = T._fresh_n.__setitem__(0, T._fresh_n[0] + 1) or T._fresh_n[0]
        self.sums[n] = (tuple(items), init, cur)
        return [(('f', ('sym', n, 'sum'), ip.types[dty]['n']), cur)]

    def opt_ty(self, ip, f, nx):
        for b in f['body']['blocks']:
            tt = b['t']
            if tt['k'] == 'call' and tt['f'][0] == 'k' and tt['f'][1].get('fn') == nx and not tt['d'].get('p', ()):
                pass
        for b in f['body']['blocks']:
            tt = b['t']
            if tt['k'] == 'call' and tt['f'][0] == 'k' and tt['f'][1].get('fn') == nx:
                d = tt['d']
                if isinstance(d, list):
                    return f['body']['locals'][d[0]]
        return None


HOOKS = {}


def hook(*names):
    def deco(fn):
        for n in names:
            HOOKS[n] = fn
        return fn
    return deco


hook('image::open', 'dynimage::open', 'free_functions::open')(Hk.open)


@hook('DynamicImage::color')
def h_color(hk, ip, st, f, a, atys, dty, act, t):
    d = T.fresh('color', 0, 3, 'color')
    hk.colors = getattr(hk, 'colors', set()) | {d[1][0][0]}
    vs = ip.types[dty].get('v') or []
    if len(vs) < 4 or any(v['f'] for v in vs):
        return None
    return [(('e', tuple((i, ()) for i in range(4)), d), st)]


@hook('ColorType::bytes_per_pixel', 'ColorType::channel_count')
def h_bpp(hk, ip, st, f, a, atys, dty, act, t):
    v = a[0]
    if v[0] in 'rs':
        v = M.load_ref(ip, st, v)
    if v is None or v[0] != 'e':
        return None
    return [(('n', T.addc(v[2], 1)), st)]       # L8, La8, Rgb8, Rgba8: one byte per channel


@hook('DynamicImage::as_bytes', 'DynamicImage::into_bytes', 'DynamicImage::to_bytes')
def h_as_bytes(hk, ip, st, f, a, atys, dty, act, t):
    v = a[0] if a[0][0] == 's' else M.load_ref(ip, st, a[0])
    if v is None or v[0] != 's' or len(v[1]) != 3 or v[1][0][0] != 'n' or v[1][1][0] != 'n':
        return None
    d = T.fresh('color', 0, 3, 'color')
    hk.colors = getattr(hk, 'colors', set()) | {d[1][0][0]}
    n = T.op('mul', [T.op('mul', [v[1][0][1], v[1][1][1]], 1, 1 << 64), T.addc(d, 1)], 1, 1 << 66)
    q = ('q', (('n', n, ('t', ip.p.bykey['u8'], 'raw')),))
    if M.norm(f['path']).endswith('as_bytes'):
        return [(('r', ip.new_obj(st, q, 'raw'), (), None), st)]
    return [(q, st)]


@hook('ByteSize::b', 'ByteSize as From::from')
def h_bytesize(hk, ip, st, f, a, atys, dty, act, t):
    if a and a[0][0] == 'n' and st.g.get('!img'):
        hk.sizes.append((drive.user_frame(drive.frames(act)), a[0][1], st.copy()))
    return None


# ---------------------------------------------------------------- messages
@hook('io::_eprint', 'io::_print')
def h_eprint(hk, ip, st, f, a, atys, dty, act, t):
    s = act
    if hk.mode == 'bench':
        fr = []
        x = act
        while x is not None:
            fr.append(x.f['path'])
            x = x.up
        m = M.fmt_segs(ip, st, a[0]) if a else None
        lits = tuple(x[1] if x[0] == 's' else X.litval(X.norm_text(x[1][4])) if x[0] == 'x' and x[1][0] == 'fmt' and x[1][4][0] == 'q' and X.norm_text(x[1][4]) is not None and X.is_lit(X.norm_text(x[1][4])) else '*' for x in m) if m is not None else ()
        hk.ev(st, 'print', (id(t), lits), drive.user_frame(fr))
    return [(UNIT, st)]


# ---------------------------------------------------------------- csv
def csv_new(q, app=False):
    return ('m', 'csv', (q if q is not None else ('q', ()), None, 0, ()))


@hook('Writer::from_path')
def h_from_path(hk, ip, st, f, a, atys, dty, act, t):
    q = X.text(ip, st, a[0])
    hk.create(ip, st, act, t, q, 'csv')
    e = st.copy()
    hk.ev(e, 'iofail', 'csv')
    return [(ok(csv_new(q)), st), (err(('o',)), e)]


@hook('WriterBuilder::new', 'WriterBuilder as Default::default')
def h_wb(hk, ip, st, f, a, atys, dty, act, t):
    return [(('m', 'wb', ()), st)]


@hook('WriterBuilder::has_headers', 'WriterBuilder::flexible', 'WriterBuilder::buffer_capacity', 'WriterBuilder::delimiter', 'WriterBuilder::terminator', 'WriterBuilder::quote_style')
def h_wbset(hk, ip, st, f, a, atys, dty, act, t):
    return [(a[0], st)]


@hook('WriterBuilder::from_path')
def h_wbfp(hk, ip, st, f, a, atys, dty, act, t):
    q = X.text(ip, st, a[1])
    hk.create(ip, st, act, t, q, 'csv')
    e = st.copy()
    hk.ev(e, 'iofail', 'csv')
    return [(ok(csv_new(q)), st), (err(('o',)), e)]


@hook('Writer::from_writer', 'WriterBuilder::from_writer')
def h_from_writer(hk, ip, st, f, a, atys, dty, act, t):
    v = a[-1]
    for _ in range(3):
        if v[0] == 's' and v[1]:
            v = v[1][0]
    q = v[2][0] if v[0] == 'm' and v[1] == 'file' else ('q', ())
    if v[0] == 'm' and v[1] == 'file' and v[2][1]:
        hk.ev(st, 'append', q)
    return [(csv_new(q), st)]


@hook('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new')
def h_bufw(hk, ip, st, f, a, atys, dty, act, t):
    if a[-1][0] == 'm':
        return [(a[-1], st)]
    return None


@hook('File::options', 'OpenOptions::new')
def h_oo(hk, ip, st, f, a, atys, dty, act, t):
    return [(('m', 'oo', ((),)), st)]


@hook('OpenOptions::append', 'OpenOptions::create', 'OpenOptions::write', 'OpenOptions::truncate', 'OpenOptions::create_new', 'OpenOptions::read')
def h_ooset(hk, ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 'm' or v[1] != 'oo' or a[1][0] != 'n' or not is_const(a[1][1]):
        raise Stuck('file options')
    k = f['path'].rsplit('::', 1)[-1]
    put(ip, st, r, ('m', 'oo', (tuple(x for x in v[2][0] if x != k) + ((k,) if a[1][1][0] else ()),)))
    return [(a[0], st)]


@hook('OpenOptions::open')
def h_ooopen(hk, ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    o = v[2][0] if v and v[0] == 'm' and v[1] == 'oo' else ('create',)
    q = X.text(ip, st, a[1])
    if any(x in o for x in ('create', 'create_new', 'write', 'append', 'truncate')):
        hk.create(ip, st, act, t, q, 'OpenOptions::open')
    e = st.copy()
    hk.ev(e, 'iofail', 'open')
    return [(ok(('m', 'file', (q if q is not None else ('q', ()), 'append' in o or 'truncate' not in o and 'create_new' not in o))), st), (err(('o',)), e)]


def columns(ip, st, v, ty=None, d=0):
    """The fields of one record."""
    if d > 6:
        return None
    if v[0] == 'r':
        if v[3] is not None and v[3][0] == 'w':
            w = window(ip, st, v)
            q = M.subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
            return columns(ip, st, q, None, d + 1)
        return columns(ip, st, get(ip, st, v), None, d + 1)
    if v[0] == 't':
        return columns(ip, st, ip.expand(v, st), None, d + 1)
    if v[0] == 's':
        return list(v[1])
    if v[0] == 'q':
        if any(s[0] != 'v' for s in v[1]):
            return None
        return [s[1] for s in v[1]]
    return None


def column(ip, st, v):
    """('text', q) / ('num', term, type) / ('float', expr) / None"""
    for _ in range(4):
        if v[0] == 't':
            v = ip.expand(v, st)
        q = None
        if v[0] == 'q' or v[0] == 'r' and v[3] is not None and v[3][0] == 'w':
            q = X.text(ip, st, v)
            return ('text', q) if q is not None else None
        if v[0] == 'n':
            return ('num', v[1], v[2])
        if v[0] == 'f':
            return ('float', v[1])
        if v[0] == 'r':
            v = get(ip, st, v)
        elif v[0] == 's' and len(v[1]) == 1:
            v = v[1][0]
        elif v[0] == 'e' and len(v[1]) == 1 and len(v[1][0][1]) == 1:
            v = v[1][0][1][0]
        else:
            return None
    return None


@hook('Writer::write_record')
def h_record(hk, ip, st, f, a, atys, dty, act, t):
    return record(hk, ip, st, a, atys, act, t, False)


@hook('Writer::serialize')
def h_serialize(hk, ip, st, f, a, atys, dty, act, t):
    ty = ip.types[atys[1]] if atys[1] is not None else None
    while ty is not None and ty['k'] == 'ref':
        ty = ip.types[ty['e']]
    if ty is not None and ty['k'] == 'adt' and ty.get('crate') == 'cniic':
        raise Stuck('a record type with its own serializer')
    return record(hk, ip, st, a, atys, act, t, True)


def record(hk, ip, st, a, atys, act, t, ser):
    r = deref(ip, st, a[0])
    for _ in range(3):
        v = get(ip, st, r)
        if v[0] == 'r':
            r = v
    if v[0] != 'm' or v[1] != 'csv':
        raise Stuck('a record written to an unknown writer')
    path, hdr, n, bad = v[2]
    cs = columns(ip, st, a[1])
    if cs is None:
        raise Stuck('record of unknown fields')
    cols = [column(ip, st, c) for c in cs]
    u = drive.user_frame(drive.frames(act))
    if cols and all(c is not None and c[0] == 'text' and X.is_lit(c[1]) for c in cols) and not (ser and False):
        names = tuple(X.litval(c[1]) for c in cols)
        if hdr is not None:
            bad = bad if 'twice' in bad else bad + ('twice',)
        elif n:
            bad = bad if 'late' in bad else bad + ('late',)
        hdr = names
        hk.headers.append((path, names, u))
        hk.ev(st, 'hdr', path, names)
    else:
        if hdr is None:
            bad = bad if 'headless' in bad else bad + ('headless',)
        n = 1
        if hk.mode == 'bench':
            hk.ev(st, 'row', path, tuple(cols), hdr, u)
        else:
            hk.rows.append((path, tuple(cols), hdr, u, st))
    if hk.mode != 'bench':
        n, bad = 0, ()
    put(ip, st, r, ('m', 'csv', (path, hdr, n, bad)))
    return [(ok(UNIT), st)]


@hook('Writer::flush')
def h_flush(hk, ip, st, f, a, atys, dty, act, t):
    e = st.copy()
    hk.ev(e, 'iofail', 'flush')
    return [(ok(UNIT), st), (err(('o',)), e)]


@hook('Writer::into_inner')
def h_inner(hk, ip, st, f, a, atys, dty, act, t):
    return [(ok(('o',)), st)]


# ---------------------------------------------------------------- locks and atomics
@hook('RwLock::new', 'Mutex::new', 'RwLock as From::from', 'Mutex as From::from')
def h_lock_new(hk, ip, st, f, a, atys, dty, act, t):
    oid = ip.new_obj(st, a[0], 'lock')
    hk.locks[(oid, ())] = a[0]
    return [(('m', 'lock', (oid,)), st)]


def lock_of(ip, st, v):
    for _ in range(5):
        if v[0] == 'm' and v[1] == 'lock':
            return v[2][0]
        if v[0] == 'r':
            v = get(ip, st, v)
        elif v[0] == 's' and v[1]:
            v = v[1][0]
        else:
            return None
    return None


@hook('RwLock::write', 'RwLock::read', 'Mutex::lock')
def h_lock(hk, ip, st, f, a, atys, dty, act, t):
    oid = lock_of(ip, st, a[0])
    if oid is None:
        raise Stuck('unknown lock')
    m = 'r' if f['path'].endswith('::read') else 'w'
    outs = hk.acquire(ip, st, (oid, ()), m)
    if ip.types[dty]['name'].endswith('Result'):
        return [(ok(g), s) for g, s in outs]
    return outs


@hook('RwLock::into_inner', 'Mutex::into_inner')
def h_into_inner(hk, ip, st, f, a, atys, dty, act, t):
    oid = lock_of(ip, st, a[0])
    if oid is None:
        raise Stuck('unknown lock')
    return [(ok(ip.load(st, oid, ())), st)]


@hook('RwLock::get_mut', 'Mutex::get_mut')
def h_get_mut(hk, ip, st, f, a, atys, dty, act, t):
    oid = lock_of(ip, st, a[0])
    if oid is None:
        raise Stuck('unknown lock')
    return [(ok(('r', oid, (), None)), st)]


@hook('RwLockWriteGuard as Deref::deref', 'RwLockWriteGuard as DerefMut::deref_mut', 'RwLockReadGuard as Deref::deref', 'MutexGuard as Deref::deref', 'MutexGuard as DerefMut::deref_mut')
def h_guard(hk, ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    if v is None or v[0] != 'm' or v[1] != 'guard':
        raise Stuck('unknown guard')
    k = v[2][0]
    return [(('r', k[0], k[1], None), st)]


@hook('mem::drop')
def h_drop(hk, ip, st, f, a, atys, dty, act, t):
    for k, m in hk.guards(a[0]):
        hk.release(st, k, m)
    return [(UNIT, st)]


@hook('Arc::new', 'Rc::new')
def h_arc(hk, ip, st, f, a, atys, dty, act, t):
    return [(('m', 'arc', (ip.new_obj(st, a[0], 'arc'),)), st)]


@hook('Arc as Clone::clone', 'Rc as Clone::clone', 'Arc::clone')
def h_arcc(hk, ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    return [(v, st)] if v is not None and v[0] == 'm' else None


@hook('Arc as Deref::deref', 'Arc as AsRef::as_ref', 'Rc as Deref::deref')
def h_arcd(hk, ip, st, f, a, atys, dty, act, t):
    v = load_ref(ip, st, a[0])
    return [(('r', v[2][0], (), None), st)] if v is not None and v[0] == 'm' and v[1] == 'arc' else None


@hook('Arc::into_inner', 'Arc::try_unwrap', 'Rc::try_unwrap')
def h_arci(hk, ip, st, f, a, atys, dty, act, t):
    v = a[0]
    if v[0] != 'm' or v[1] != 'arc':
        return None
    x = ip.load(st, v[2][0], ())
    return [(ok(x) if f['path'].endswith('try_unwrap') else some(x), st)]


@hook('AtomicBool::new', 'AtomicUsize::new', 'AtomicU32::new', 'AtomicU64::new', 'Atomic::new')
def h_atomic(hk, ip, st, f, a, atys, dty, act, t):
    oid = ip.new_obj(st, a[0], 'atomic')
    hk.locks[(oid, ())] = a[0]
    return [(('m', 'atomic', (oid,)), st)]


def atomic_of(ip, st, v):
    for _ in range(4):
        if v[0] == 'm' and v[1] == 'atomic':
            return v[2][0]
        if v[0] == 'r':
            v = get(ip, st, v)
        else:
            return None
    return None


ATOM = ('load', 'store', 'swap', 'fetch_or', 'fetch_and', 'fetch_add', 'fetch_sub', 'compare_exchange', 'compare_exchange_weak', 'compare_and_swap', 'into_inner', 'fetch_xor', 'fetch_not')


def h_atomic_op(hk, ip, st, f, a, atys, dty, act, t):
    oid = atomic_of(ip, st, a[0])
    op = f['path'].rsplit('::', 1)[-1]
    if oid is None:
        raise Stuck('unknown atomic')
    if op == 'into_inner':
        return [(ip.load(st, oid, ()), st)]
    key = (oid, ())
    out = []
    for s in hk.begin(st, key):
        old = ip.load(s, oid, ())
        if old[0] != 'n' or not is_const(old[1]):
            raise Stuck('atomic of unknown value')
        o = old[1][0]
        tn = old[2]

        def arg(i):
            if a[i][0] != 'n' or not is_const(a[i][1]):
                raise Stuck('atomic operation with an unknown value')
            return a[i][1][0]
        new = o
        res = old
        if op == 'store':
            new = arg(1); res = UNIT
        elif op == 'swap':
            new = arg(1)
        elif op == 'fetch_or':
            new = o | arg(1)
        elif op == 'fetch_and':
            new = o & arg(1)
        elif op == 'fetch_xor':
            new = o ^ arg(1)
        elif op == 'fetch_not':
            new = 1 - o
        elif op in ('fetch_add', 'fetch_sub'):
            # only whether it was zero matters once it grows
            new = min(o + arg(1), 3) if op == 'fetch_add' else o - arg(1)
        elif op.startswith('compare_exchange'):
            if o == arg(1):
                new = arg(2); res = ok(old)
            else:
                res = err(old)
        elif op == 'compare_and_swap':
            if o == arg(1):
                new = arg(2)
        if new != o:
            ip.store(s, oid, (), ('n', const(new), tn))
        hk.end(s)
        out.append((res, s))
    return out


for _t in ('AtomicBool', 'AtomicUsize', 'AtomicU32', 'AtomicU64', 'AtomicI32', 'Atomic'):
    for _o in ATOM:
        HOOKS['%s::%s' % (_t, _o)] = h_atomic_op


# ---------------------------------------------------------------- arguments of the program
@hook('env::args')
def h_args(hk, ip, st, f, a, atys, dty, act, t):
    return [(('m', 'args', (0,)), st)]


@hook('Args as Iterator::next')
def h_args_next(hk, ip, st, f, a, atys, dty, act, t):
    r = deref(ip, st, a[0])
    v = get(ip, st, r)
    if v[0] != 'm' or v[1] != 'args':
        raise Stuck('program arguments')
    k = v[2][0]
    out = []
    if k > 0:
        out.append((NONE, st.copy()))
    if k < (3 if hk.mode == "bench" else 3):
        put(ip, st, r, ('m', 'args', (k + 1,)))
        d = ('arg0',) if k == 0 else ('command',) if k == 1 else ('path', k - 2)
        if not hasattr(hk, 'argl'):
            hk.argl = {}
        L = hk.argl.get(d)
        if L is None:
            L = hk.argl[d] = T.fresh('alen', 0, 4096, 'str')
        out.append((some(('q', (('x', d, L),))), st))
    return out


@hook('Args as ExactSizeIterator::len', 'Args as Iterator::size_hint')
def h_args_len(hk, ip, st, f, a, atys, dty, act, t):
    return [(ip.top(dty), st)]


@hook('Path::file_name', 'Path::file_stem')
def h_file_name(hk, ip, st, f, a, atys, dty, act, t):
    r = X.t_part(ip, st, f, a, atys, dty, act, t)
    if hk.mode == 'bench' and st.g.get('!img') and len(r) == 2:
        q = X.text(ip, st, a[0])
        if q is not None and len(q[1]) == 1 and q[1][0][0] == 'x' and q[1][0][1][0] == 'path':
            return r[:1]        # a file that was opened has a name
    return r


def run_bench(P, bounded=3):
    """(hooks, interpreter, [(value, state)], reason why it stopped)"""
    hk = Hk('bench')

    def post(ip, lab, outs, why):
        return ip, outs, why

    def prep():
        return hk
    orig = Interp.__init__
    T.reset()
    ip = Interp(P, hk, steps=900000)
    hk.ip = ip
    ip.peel = 0
    ip.bounded = bounded
    ip.nomerge = True
    ip.keepapart = True
    ip.MAXSTATES = 3000
    st = State()
    fid = ana.root(P, 'bench')
    f = P.fns[fid]
    args = [('t', f['body']['locals'][j + 1], 'arg%d' % j) for j in range(f['body']['nargs'])]
    return hk, ip, *guarded(ip, fid, hk.prepare(ip, st, args, f), st)


def run_main(P, bounded=2):
    hk = Hk('main')
    hk.sp = spec.Hk(('lit', ''))
    hk.str_eq = hk.sp.str_eq
    T.reset()
    ip = Interp(P, hk, steps=900000)
    hk.ip = ip
    ip.bounded = bounded
    ip.nomerge = False
    ip.keepapart = True
    ip.MAXSTATES = 24
    st = State()
    st.g['!ev'] = ()
    fid = [i for i, f in enumerate(P.fns) if f['path'] == 'cniic::main' and f.get('body')]
    if len(fid) != 1:
        raise Stuck('main not found')
    return hk, ip, *guarded(ip, fid[0], [], st)


def guarded(ip, fid, args, st):
    import traceback
    outs, why = [], None
    try:
        outs = ip.exec_fn(fid, args, st)
    except Stuck as e:
        why = 'analysis stopped: %s in %s' % (e, (getattr(e, 'trace', None) or ['?'])[-1])
    except Budget:
        why = 'analysis stopped: step budget exhausted'
    except RecursionError:
        why = 'analysis stopped: recursion'
    except drive.Timeout:
        why = 'analysis stopped: time limit'
    except Exception as e:
        why = 'analysis stopped: internal error %s: %s @ %s' % (type(e).__name__, e, traceback.format_exc(limit=-2).split('\n')[-4:-2])
    return outs, why
