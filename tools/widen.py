"""Fixpoint iteration at loop heads: induction variables, symbol classes and
candidate linear invariants.

Every numeric cell of the loop-head state gets a term over head symbols: the
shared iteration count k (for cells that advance by a constant) or a class
symbol (cells that advance together).  A round is stable when, for every back
edge, each cell's value equals its head term with k -> k+1 and class symbols
replaced by their representative's new value, and all bounds and candidate
facts still hold.
"""
import terms as T
from terms import const, add, sub, addc, is_const, interval, SYMS

UNINIT = ('u',)
THRESH = [-32768, -256, -255, -128, -1, 0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 4095, 16383, 32767, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]


def wlo(x):
    if x is None:
        return None
    r = None
    for t in THRESH:
        if t <= x:
            r = t
    return r


def whi(x):
    if x is None:
        return None
    for t in THRESH:
        if t >= x:
            return t
    return None


class Head:
    def __init__(self, entry):
        self.entry = entry          # entry state
        self.st = entry.copy()      # current head state (objs + g)
        self.rec = {}               # cell path -> ('lin', init, d) | ('cls', sid, coef, off) | ('el', sid)
        self.cls = {}               # sid -> [rep path, init term or None, lo, hi, tn, nwiden]
        self.els = {}               # sid -> [lo, hi, tn, n]
        self.fl = {}                # path -> float sym
        self.cand = None            # list of conditions over head symbols
        self.dead = set()           # refuted candidates
        self.roots = set()          # oids that own records
        self.tns = {}               # cell path -> type name
        self.wobj = {}              # path -> widen object id


class Widener:
    def __init__(self, ip, act, h, groups):
        self.uid = ip.next_id()
        self.ip = ip; self.act = act; self.h = h
        self.k = T.fresh('k', 0, (1 << 62), 'ind')
        self.ksid = self.k[1][0][0]
        self.heads = {}
        self.round = 0
        for key, st in groups.items():
            self.heads[key] = Head(st)

    def start_round(self):
        self.round += 1
        self.why = []

    # -------------------------------------------------------------- states
    def head_state(self, key):
        H = self.heads[key]
        s = H.st.copy()
        s.pc = H.entry.pc
        rng = dict(H.entry.rng)
        for sid, c in H.cls.items():
            rng[sid] = (c[2], c[3])
        for sid, c in H.els.items():
            rng[sid] = (c[0], c[1])
        s.rng = rng
        s.facts = self.facts_of(H)
        return s

    def facts_of(self, H):
        import absint
        base = H.entry.facts + tuple(c for c in (H.cand or ()) if c not in H.entry.facts)
        tmp = absint.State()
        tmp.rng = self.hrng(H)
        extra = []
        for path, r in H.rec.items():
            tn = H.tns.get(path)
            if r[0] == 'el' or tn not in absint.RANGES:
                continue
            t = self.term_of(H, path, None)
            if r[0] == 'cls' and H.cls[r[1]][0] == path:
                continue
            lo, hi = absint.RANGES[tn]
            l, h = interval(t, tmp.rng)
            # a stored integer always lies in the range of its type
            if l is None or l < lo:
                extra.append(('ge', addc(t, -lo)))
            if (h is None or h > hi) and hi <= (1 << 32):
                extra.append(('ge', addc(T.scale(t, -1), hi)))
        return base + tuple(c for c in extra if c not in base)

    def head_state_facts(self, H):
        import absint
        s = absint.State()
        s.rng = self.hrng(H)
        s.facts = self.facts_of(H)
        return s

    def head_syms(self, H):
        return set(H.cls) | {self.ksid}

    # -------------------------------------------------------------- absorb
    def absorb(self, backs):
        self.stable = True
        by = {}
        for src, x in backs:
            by.setdefault(self.ip.gkey(x), []).append((src, x))
        for key, xs in by.items():
            if key not in self.heads:
                self.new_head(key, xs)
                self.stable = False
                continue
            self.absorb_key(key, xs)
        return self.stable

    def new_head(self, key, xs):
        src, x = xs[0]
        e = x.copy()
        for _, y in xs[1:]:
            e = self.ip.join(e, y)
        S = self.heads[src]
        # the path taken inside the loop is history: keep what the source knew at the head
        e2 = self.promote(S, e)
        self.heads[key] = e2

    def promote(self, S, e):
        """Head for a ghost state first reached through the loop body."""
        H = Head(e)
        H.entry = e
        H.st = e.copy()
        H.late = True
        return H

    def absorb_key(self, key, xs):
        ip = self.ip
        H = self.heads[key]
        # pass 1: collect numeric pairs for every back state
        pairs = []           # per back: dict path -> (e, h, b, tn)
        for _, x in xs:
            d = {}

            def num(path, e, h, b, tn, d=d):
                d[path] = (e, h, b, tn)
                return h
            self.walk_state(H, x, num, commit=False)
            pairs.append(d)
        sig = []
        for (_, x), d in zip(xs, pairs):
            m = {self.ksid: addc(self.k, 1)}
            for sid, c in H.cls.items():
                p = d.get(c[0])
                if p is not None:
                    m[sid] = addc(p[2], -c[4 + 2]) if c[6] else p[2]
                # representative unchanged: value is its head term (sid itself)
            sig.append(m)
        # verification
        bad = {}
        for i, ((_, x), d) in enumerate(zip(xs, pairs)):
            m = sig[i]
            for path, (e, h, b, tn) in d.items():
                r = H.rec.get(path)
                if r is not None and r[0] == 'cls' and H.cls[r[1]][0] == path:
                    continue
                if 'el' in path:
                    continue
                want = T.subst(h, m) if h[1] else h
                if want == b or x.decide(('eq', sub(want, b))) is True:
                    continue
                bad[path] = True
            # records whose path vanished from the walk (structure changed) are re-made when it settles
        if bad:
            self.stable = False
            self.why.append(('cells', [(p, [(T.show(d[p][1]), T.show(d[p][2])) for d in pairs if p in d]) for p in list(bad)[:4]], [H.rec.get(p) for p in list(bad)[:4]]))
            self.repair(H, xs, pairs, bad)
        # class bounds
        for sid, c in list(H.cls.items()):
            for i, ((_, x), d) in enumerate(zip(xs, pairs)):
                if sid in sig[i]:
                    lo, hi = interval(sig[i][sid], x.rng)
                    self.bound(H, sid, lo, hi, x, sig[i][sid])
        # candidates
        if H.cand is None:
            H.cand = []
        if self.round <= 7:
            self.propose(H, xs, pairs, sig)
        keep = []
        for c in H.cand:
            ok = True
            for i, (_, x) in enumerate(xs):
                if x.decide((c[0], T.subst(c[1], sig[i]))) is not True:
                    ok = False
                    break
            if ok:
                keep.append(c)
            else:
                H.dead.add(c)
                self.stable = False
                self.why.append(('refuted', T.show_cond(c)))
        H.cand = keep
        # structure / pass 2
        self.commit(H, xs)

    def bound(self, H, sid, lo, hi, x, t):
        c = H.cls[sid]
        ch = False
        tl, th = self.trange(c[4])
        if c[2] is not None and (lo is None or lo < c[2]):
            if not x.decide(('ge', addc(t, -c[2]))) is True:
                nl = tl if c[5] > 3 else self.clamp_lo(wlo(lo), tl)
                if nl != c[2]:
                    c[2] = nl; ch = True
        if c[3] is not None and (hi is None or hi > c[3]):
            if not x.decide(('ge', addc(T.scale(t, -1), c[3]))) is True:
                nh = th if c[5] > 3 else self.clamp_hi(whi(hi), th)
                if nh != c[3]:
                    c[3] = nh; ch = True
        if ch:
            c[5] += 1
            self.stable = False
            self.why.append(('bound', c[0], lo, hi))

    def trange(self, tn):
        import absint
        if tn in absint.RANGES:
            return absint.RANGES[tn]
        return (None, None)

    def clamp_lo(self, x, tl):
        if x is None:
            return tl
        return x if tl is None else max(x, tl)

    def clamp_hi(self, x, th):
        if x is None:
            return th
        return x if th is None else min(x, th)

    def repair(self, H, xs, pairs, bad):
        """Give failing cells new records."""
        hs = self.head_syms(H)
        vec = {}
        for path in bad:
            v = []
            inf = None
            for d in pairs:
                p = d.get(path)
                if p is None:
                    v.append(None)
                else:
                    inf = p
                    v.append(sub(p[2], p[1]))
            vec[path] = (v, inf)
        groups = []
        for path, (v, (e, h, b, tn)) in vec.items():
            r = H.rec.get(path)
            root = path[0]
            H.roots.add(root)
            H.tns[path] = tn
            fresh_el = 'el' in path
            if fresh_el:
                continue
            pure_h = not (set(s for s, _ in h[1]) & hs)
            if r is None and e is not None and e == h and pure_h and tn not in ('bool', 'discr') and not getattr(H, 'late', False):
                ds = set(x for x in v if x is not None)
                if len(ds) == 1 and None not in v:
                    d0 = next(iter(ds))
                    if is_const(d0):
                        H.rec[path] = ('lin', e, d0[0])
                        continue
            groups.append((path, v, e, h, b, tn))
        made = []
        for path, v, e, h, b, tn in groups:
            done = False
            if e is not None and None not in v and any(x is not None and x[1] for x in v) | (len(v) > 1):
                for sid, v0, e0 in made:
                    c = self.ratio(v, v0)
                    if c is not None:
                        # cell = c*s + (e - c*e0)
                        off = sub(e, T.scale(e0, c))
                        H.rec[path] = ('cls', sid, c, off)
                        done = True
                        break
            if done:
                continue
            los = []; his = []
            lo, hi = interval(e if e is not None else h, H.entry.rng)
            los.append(lo); his.append(hi)
            old = H.rec.get(path)
            for (s0, x), d in zip(xs, pairs):
                p = d.get(path)
                if p is None:
                    continue
                bt = p[2]
                l2, h2 = interval(bt, x.rng)
                los.append(l2); his.append(h2)
            lo = None if None in los else min(los)
            hi = None if None in his else max(his)
            tl, th = self.trange(tn)
            lo = self.clamp_lo(wlo(lo) if lo is not None and lo != min([x for x in los if x is not None]) else lo, tl)
            hi = self.clamp_hi(hi if hi is None or hi <= 1 else whi(hi), th)
            f = T.fresh('w', None, None, 'ind')
            sid = f[1][0][0]
            pv = {'ind'} | set(T.prov(b)) | set(T.prov(h))
            SYMS[sid].prov = frozenset(pv)
            tl, th = self.trange(tn)
            SYMS[sid].lo, SYMS[sid].hi = tl, th
            H.cls[sid] = [path, e, lo, hi, tn, 0, 0]
            H.rec[path] = ('cls', sid, 1, T.ZERO)
            if e is not None:
                made.append((sid, v, e))

    def ratio(self, v, v0):
        c = None
        for a, b in zip(v, v0):
            if a is None or b is None:
                return None
            if a == T.ZERO and b == T.ZERO:
                continue
            if a == T.ZERO or b == T.ZERO:
                return None
            if b[1]:
                s, k = b[1][0]
                k2 = dict(a[1]).get(s)
                if k2 is None or k2 % k:
                    return None
                q = k2 // k
            else:
                if a[1] or a[0] % b[0]:
                    return None
                q = a[0] // b[0]
            if a != T.scale(b, q):
                return None
            if c is not None and c != q:
                return None
            c = q
        return c

    def term_of(self, H, path, h):
        r = H.rec.get(path)
        if r is None:
            return h
        if r[0] == 'lin':
            return add(r[1], T.scale(self.k, r[2]))
        if r[0] == 'cls':
            return add(T.scale((0, ((r[1], 1),)), r[2]), r[3])
        if r[0] == 'el':
            return (0, ((r[1], 1),))

    # -------------------------------------------------------------- candidates
    def entry_map(self, H):
        m = {self.ksid: T.ZERO}
        for sid, c in H.cls.items():
            if c[1] is None:
                m[sid] = None
            else:
                m[sid] = c[1]
        return m

    def propose(self, H, xs, pairs, sig):
        if getattr(H, 'late', False):
            em = None
        else:
            em = self.entry_map(H)
        new = []
        hs = self.head_syms(H)
        live = set()
        for path, r in H.rec.items():
            if r[0] == 'lin':
                live.add(self.ksid)
            elif r[0] == 'cls':
                live.add(r[1])
        for sid in live:
            if sid == self.ksid:
                continue
            c = H.cls[sid]
            if c[1] is not None and not is_const(c[1]):
                s = (0, ((sid, 1),))
                new.append(('ge', sub(s, c[1])))
                new.append(('ge', sub(c[1], s)))
        # facts of the back state, shifted one iteration back
        for i, (_, x) in enumerate(xs):
            inv = {}
            for sid in live:
                if sid == self.ksid:
                    inv[sid] = addc(self.k, -1)
                else:
                    b = sig[i].get(sid)
                    if b is None:
                        continue
                    d = sub(b, (0, ((sid, 1),)))
                    if is_const(d):
                        inv[sid] = addc((0, ((sid, 1),)), -d[0])
            for f in x.facts:
                if f[0] == 'ne':
                    continue
                ss = set(s for s, _ in f[1][1])
                if not ss & hs:
                    continue
                if f[0] == 'eq':
                    continue
                if all(s in inv or s not in hs for s in ss):
                    new.append((f[0], T.subst(f[1], inv)))
        # differences between classes / k
        ls = sorted(live)
        if len(ls) <= 8:
            for i, a in enumerate(ls):
                for b in ls[i + 1:]:
                    ea = em.get(a) if em else None
                    eb = em.get(b) if em else None
                    if ea is None or eb is None:
                        continue
                    ta = (0, ((a, 1),)); tb = (0, ((b, 1),))
                    d = sub(sub(ta, ea), sub(tb, eb))
                    new.append(('ge', d)); new.append(('ge', T.scale(d, -1)))
        hst = self.head_state_facts(H)
        for c in new:
            c = T.norm_cond(c)
            if c in H.cand or c in H.dead or c in H.entry.facts:
                continue
            if not (set(s for s, _ in c[1][1]) & hs):
                continue
            if em is None:
                continue
            ok = True
            mm = {}
            for s in T.all_syms(c[1]):
                if s in hs:
                    if em.get(s) is None:
                        ok = False
                    else:
                        mm[s] = em[s]
            if not ok:
                H.dead.add(c)
                continue
            if H.entry.decide((c[0], T.subst(c[1], mm))) is not True:
                H.dead.add(c)
                continue
            if hst.decide(c) is True:
                continue
            H.cand.append(c)
            hst.facts = hst.facts + (c,)
            self.stable = False
            self.why.append(('cand', T.show_cond(c)))

    # -------------------------------------------------------------- structure
    def commit(self, H, xs):
        def num(path, e, h, b, tn):
            if 'el' in path:
                return self.el_num(H, path, e, h, b, tn)
            t = self.term_of(H, path, h)
            if path not in H.rec and h != b:
                # a path that appeared while restructuring
                if h[1] or b[1] or h != b:
                    if self.cur.decide(('eq', sub(h, b))) is True:
                        return h
                    self.stable = False
                    self.why.append(('late', path, T.show(h), T.show(b)))
                    f = T.fresh('w', None, None, 'ind')
                    sid = f[1][0][0]
                    SYMS[sid].prov = frozenset({'ind'} | set(T.prov(b)) | set(T.prov(h)))
                    tl, th = self.trange(tn)
                    SYMS[sid].lo, SYMS[sid].hi = tl, th
                    l1, h1 = interval(h, self.hrng(H)); l2, h2 = interval(b, self.cur.rng)
                    lo = None if l1 is None or l2 is None else min(l1, l2)
                    hi = None if h1 is None or h2 is None else max(h1, h2)
                    H.cls[sid] = [path, e, self.clamp_lo(lo, tl), self.clamp_hi(hi, th), tn, 0, 0]
                    H.rec[path] = ('cls', sid, 1, T.ZERO)
                    H.roots.add(path[0])
                    return f
            return t
        for _, x in xs:
            self.cur = x
            self.walk_state(H, x, num, commit=True)

    def hrng(self, H):
        rng = dict(H.entry.rng)
        for sid, c in H.cls.items():
            rng[sid] = (c[2], c[3])
        for sid, c in H.els.items():
            rng[sid] = (c[0], c[1])
        return rng

    def el_num(self, H, path, e, h, b, tn):
        """Element of a summarised sequence: an interval that must cover the new value."""
        if h == b and is_const(h):
            return h
        r = H.rec.get(path)
        lo, hi = interval(b, self.cur.rng)
        if r is None:
            l1, h1 = interval(h, self.hrng(H))
            f = T.fresh('el', None, None, 'ind')
            sid = f[1][0][0]
            SYMS[sid].prov = frozenset({'ind'} | set(T.prov(b)) | set(T.prov(h)))
            tl, th = self.trange(tn)
            SYMS[sid].lo, SYMS[sid].hi = tl, th
            lo = None if lo is None or l1 is None else min(lo, l1)
            hi = None if hi is None or h1 is None else max(hi, h1)
            H.els[sid] = [self.clamp_lo(lo, tl), self.clamp_hi(hi, th), tn, 0]
            H.rec[path] = ('el', sid)
            H.roots.add(path[0])
            self.stable = False
            return f
        sid = r[1]
        c = H.els[sid]
        if b == (0, ((sid, 1),)):
            return b
        tl, th = self.trange(tn)
        ch = False
        if c[0] is not None and (lo is None or lo < c[0]):
            nl = tl if c[3] > 3 else self.clamp_lo(wlo(lo), tl)
            if nl != c[0]:
                c[0] = nl; ch = True
        if c[1] is not None and (hi is None or hi > c[1]):
            nh = th if c[3] > 3 else self.clamp_hi(whi(hi), th)
            if nh != c[1]:
                c[1] = nh; ch = True
        if ch:
            c[3] += 1
            self.stable = False
            self.why.append(('el bound', path, lo, hi))
        return (0, ((sid, 1),))

    def walk_state(self, H, x, num, commit):
        st = H.st
        for o in list(st.objs):
            h = st.objs[o]
            if o not in x.objs:
                continue
            if o[0] == 'w' and o[2] == self.uid:
                continue
            b = x.objs[o]
            if h is b and o not in H.roots:
                continue
            n = self.walk(H, (o,), H.entry.objs.get(o), h, b, num, x, commit)
            if commit and n is not h:
                st.objs[o] = n
        for k in set(st.g) | set(x.g):
            if k[0] == '!':
                continue
            h = st.g.get(k); b = x.g.get(k)
            if k == '#n':
                if commit:
                    st.g[k] = max(h or 0, b or 0)
                continue
            if h == b and ('g', k) not in H.roots:
                continue
            if isinstance(h, tuple) and len(h) == 2 and isinstance(h[0], int) and isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], int):
                e = H.entry.g.get(k)
                n = num((('g', k),), e, h, b, 'ghost')
                if commit:
                    st.g[k] = n
                continue
            hk = self.ip.hooks
            if hk is not None and hasattr(hk, 'widen_ghost'):
                n = hk.widen_ghost(self.ip, k, h, b)
            else:
                n = b if h is None else h
            if n != h:
                if commit:
                    st.g[k] = n
                self.stable = False

    def change(self, commit, why='structure'):
        self.stable = False
        self.why.append(why)

    def walk(self, H, path, e, h, b, num, x, commit):
        if h is b and path[0] not in H.roots:
            return h
        hk = h[0]; bk = b[0]
        if hk == 'u' or bk == 'u':
            if hk != 'u':
                self.change(commit, ('L539', path))
            return UNINIT
        if hk == 't':
            return h
        if hk == 'o':
            return h
        if bk == 't':
            self.change(commit, ('L546', path))
            return ('t', b[1], 'opaque')
        if bk == 'o' or hk != bk:
            self.change(commit, ('L549', path))
            return ('o',)
        if e is not None and e[0] != hk:
            e = None
        if hk == 'n':
            t = num(path, e[1] if e is not None else None, h[1], b[1], h[2])
            return h if t == h[1] else ('n', t, h[2])
        if hk == 's':
            if len(h[1]) != len(b[1]):
                self.change(commit, ('L558', path))
                return ('o',)
            es = e[1] if e is not None and len(e[1]) == len(h[1]) else [None] * len(h[1])
            out = tuple(self.walk(H, path + (i,), es[i], p, q, num, x, commit) for i, (p, q) in enumerate(zip(h[1], b[1])))
            if all(p is q for p, q in zip(out, h[1])):
                return h
            return ('s', out)
        if hk == 'e':
            return self.walk_enum(H, path, e, h, b, num, x, commit)
        if hk == 'q':
            return self.walk_seq(H, path, e, h, b, num, x, commit)
        if hk == 'r':
            return self.walk_ref(H, path, e, h, b, num, x, commit)
        if hk == 'f':
            if h[1] == b[1] and path not in H.fl:
                return h
            s = H.fl.get(path)
            if s is None:
                T._fresh_n[0] += 1
                s = H.fl[path] = ('sym', T._fresh_n[0], 'ind')
                H.roots.add(path[0])
                self.change(commit, ('L579', path))
            return ('f', s, h[2])
        if hk == 'm':
            if h == b:
                return h
            return self.walk_model(H, path, e, h, b, num, x, commit)
        if hk == 'fn':
            if h == b:
                return h
            self.change(commit, ('L588', path))
            return ('o',)
        return h

    def walk_model(self, H, path, e, h, b, num, x, commit):
        if h[1] == b[1] and len(h[2]) == len(b[2]):
            out = []
            ok = True
            for i, (p, q) in enumerate(zip(h[2], b[2])):
                if p == q:
                    out.append(p)
                elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == 2 and p[0] == q[0] and self.isterm(p[1]) and self.isterm(q[1]):
                    et = None
                    if e is not None and e[1] == h[1] and len(e[2]) == len(h[2]) and isinstance(e[2][i], tuple) and len(e[2][i]) == 2 and self.isterm(e[2][i][1]):
                        et = e[2][i][1]
                    out.append((p[0], num(path + (i,), et, p[1], q[1], 'usize')))
                else:
                    ok = False
            if ok:
                n = ('m', h[1], tuple(out))
                return h if n == h else n
        from absint import JoinCtx
        r = self.ip.m.join(self.ip, h, b, JoinCtx(self.ip, None, H.st, x))
        if r is None:
            r = ('o',)
        if r != h:
            self.change(commit, ('L614', path))
        return r

    def isterm(self, t):
        return isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], int) and isinstance(t[1], tuple)

    def walk_enum(self, H, path, e, h, b, num, x, commit):
        ha = dict(h[1]); ba = dict(b[1])
        ea = dict(e[1]) if e is not None else {}
        alts = []
        for v in sorted(set(ha) | set(ba)):
            if v in ha and v in ba:
                hf, bf = ha[v], ba[v]
                if len(hf) != len(bf):
                    self.change(commit, ('L628', path))
                    alts.append((v, tuple(('o',) for _ in hf)))
                    continue
                ef = ea.get(v)
                if ef is None or len(ef) != len(hf):
                    ef = [None] * len(hf)
                alts.append((v, tuple(self.walk(H, path + (('a', v), i), ef[i], p, q, num, x, commit) for i, (p, q) in enumerate(zip(hf, bf)))))
            elif v in ha:
                alts.append((v, ha[v]))
            else:
                self.change(commit, ('L638', path))
                if commit:
                    for p in ba[v]:
                        self.import_val(H, p, x, set())
                H.roots.add(path[0])
                alts.append((v, ba[v]))
        if len(alts) == 1:
            if all(p is q for p, q in zip(alts[0][1], h[1][0][1])):
                return h
            return ('e', tuple(alts), None)
        dh = h[2] if h[2] is not None else const(self.ip.vdiscr0(h))
        db = b[2] if b[2] is not None else const(self.ip.vdiscr0(b))
        de = None
        if e is not None:
            de = e[2] if e[2] is not None else const(self.ip.vdiscr0(e))
        d = num(path + ('d',), de, dh, db, 'discr')
        n = ('e', tuple(alts), d)
        return h if n == h else n

    def import_val(self, H, v, x, seen):
        k = v[0]
        if k == 'r':
            o = v[1]
            if o not in H.st.objs and o in x.objs and o not in seen:
                seen.add(o)
                H.st.objs[o] = x.objs[o]
                H.roots.add(o)
                self.import_val(H, x.objs[o], x, seen)
        elif k == 's':
            for y in v[1]:
                self.import_val(H, y, x, seen)
        elif k == 'e':
            for _, fs in v[1]:
                for y in fs:
                    self.import_val(H, y, x, seen)
        elif k == 'q':
            for s in v[1]:
                if s[0] == 'v':
                    self.import_val(H, s[1], x, seen)
                elif s[0] in ('n', 'g'):
                    self.import_val(H, s[2], x, seen)

    def walk_seq(self, H, path, e, h, b, num, x, commit):
        hs, bs = h[1], b[1]
        es = e[1] if e is not None else None
        if len(hs) == len(bs) and all(p[0] == q[0] and p[0] in ('v', 'n') for p, q in zip(hs, bs)):
            out = []
            for i, (p, q) in enumerate(zip(hs, bs)):
                ee = es[i] if es is not None and len(es) == len(hs) and es[i][0] == p[0] else None
                if p[0] == 'v':
                    out.append(('v', self.walk(H, path + (i,), ee[1] if ee else None, p[1], q[1], num, x, commit)))
                else:
                    el = e_len(self.ip, e) if len(hs) == 1 and e is not None else (ee[1] if ee else None)
                    ln = num(path + ('len',) if len(hs) == 1 else path + (i, 'len'), el, p[1], q[1], 'usize')
                    out.append(('n', ln, self.walk_el(H, path + ('el',) if len(hs) == 1 else path + (i, 'el'), p[2], q[2], num, x, commit)))
            out = tuple(out)
            return h if out == hs else ('q', out)
        if h == b and not any(s[0] == 'x' for s in hs):
            return h
        if any(s[0] in ('s', 'x') for s in hs + bs):
            ln = num(path + ('len',), e_len(self.ip, e), self.ip.seq_len(h), self.ip.seq_len(b), 'usize')
            n = ('q', (('x', ('loop', path), ln),))
            if n != h:
                if not (len(hs) == 1 and hs[0][0] == 'x' and hs[0][1] == ('loop', path)):
                    self.change(commit, ('L702', path))
            H.roots.add(path[0])
            return n
        # summarise
        if not (len(hs) == 1 and hs[0][0] == 'n'):
            self.change(commit, ('L707', path))
        H.roots.add(path[0])
        lh = self.ip.seq_len(h); lb = self.ip.seq_len(b)
        ln = num(path + ('len',), e_len(self.ip, e), lh, lb, 'usize')
        eh = hs[0][2] if len(hs) == 1 and hs[0][0] == 'n' else self.ip.seq_summary(H.st, h)
        vs = []
        for s in bs:
            v = s[1] if s[0] == 'v' else s[2]
            if not any(v is w for w in vs):
                vs.append(v)
        if eh is None and not vs:
            return h
        cur = eh
        for v in vs:
            if cur is None:
                cur = v
                if commit:
                    self.import_val(H, v, x, set())
            else:
                cur = self.walk_el(H, path + ('el',), cur, v, num, x, commit)
        return ('q', (('n', ln, cur),))

    def walk_el(self, H, path, h, b, num, x, commit):
        if h is b:
            return h
        if commit:
            self.import_val(H, b, x, set())
        return self.walk(H, path, None, h, b, num, x, commit)

    def walk_ref(self, H, path, e, h, b, num, x, commit):
        if h[1] == b[1] and len(h[2]) == len(b[2]):
            p = []
            ok = True
            for i, (u, v) in enumerate(zip(h[2], b[2])):
                if isinstance(u, tuple) and isinstance(v, tuple) and u[0] == 'i' and v[0] == 'i':
                    et = None
                    if e is not None and e[1] == h[1] and len(e[2]) == len(h[2]) and isinstance(e[2][i], tuple) and e[2][i][0] == 'i':
                        et = e[2][i][1]
                    p.append(('i', num(path + ('p', i), et, u[1], v[1], 'usize')))
                elif u == v:
                    p.append(u)
                else:
                    ok = False
                    break
            if ok:
                mh, mb = h[3], b[3]
                if mh and mb and mh[0] == 'w' and mb[0] == 'w':
                    me = e[3] if e is not None and e[1] == h[1] and e[3] and e[3][0] == 'w' else None
                    mh = ('w', num(path + ('p', 'off'), me[1] if me else None, mh[1], mb[1], 'usize'),
                          num(path + ('p', 'n'), me[2] if me else None, mh[2], mb[2], 'usize'))
                elif mh != mb:
                    if mh is not None:
                        self.change(commit, ('L759', path))
                    mh = None
                n = ('r', h[1], tuple(p), mh)
                return h if n == h else n
        # different objects
        H.roots.add(path[0])
        if h[1] == ('w', path, self.uid) and h[2] == ():
            oid = h[1]
            try:
                bv = self.ip.load(x, b[1], b[2])
            except Exception:
                bv = ('o',)
            if b[1] != oid:
                cur = H.st.objs[oid]
                H.roots.add(oid)
                n = self.walk(H, (oid,), None, cur, bv, num, x, commit)
                if commit:
                    H.st.objs[oid] = n
                    self.import_val(H, bv, x, set())
            mh = h[3]
            mb = b[3]
            if mh and mb and mh[0] == 'w' and mb[0] == 'w':
                mh = ('w', num(path + ('p', 'off'), None, mh[1], mb[1], 'usize'), num(path + ('p', 'n'), None, mh[2], mb[2], 'usize'))
            elif mh != mb:
                if mh is not None:
                    self.change(commit, ('L784', path))
                mh = None
            n = ('r', oid, (), mh)
            return h if n == h else n
        self.change(commit, ('L788', path))
        self.ip.note('pointer changes in loop')
        if not commit:
            return h
        oid = ('w', path, self.uid)
        try:
            hv = self.ip.load(H.st, h[1], h[2])
        except Exception:
            hv = ('o',)
        H.st.objs[oid] = hv
        H.roots.add(oid)
        mh = h[3]; mb = b[3]
        if mh != mb and not (mh and mb and mh[0] == 'w' and mb[0] == 'w'):
            mh = None
        return ('r', oid, (), mh)


def e_len(ip, e):
    if e is None or e[0] != 'q':
        return None
    return ip.seq_len(e)
