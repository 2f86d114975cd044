"""C04: deserialising what serialize wrote gives the value back and uses exactly those bytes."""
import drive, terms as T
import absint
from run import Hooks
from absint import Interp, State, Stuck, Budget, UNIT
from models import some, NONE, window, subseq, deref, get
from panics import witness, resolve
from terms import const

RULE = ('For every type with both a Serialize and a Deserialize implementation reached by the program, the closed form of the bytes serialize hands to the output is extracted '
        'from its MIR and substituted for the input of deserialize; the value that comes out is compared term by term with the value that went in and the bytes must be consumed exactly. '
        'Scalars are arbitrary; sequences are taken with lengths 0 to 4 element by element and with an arbitrary length up to their length prefix and count; trees to depth 3.')


class H(Hooks):
    peel = 0

    def sink(self, ip, st, name, a, dty, act, t):
        okv = ('e', ((0, (UNIT,)),), None)
        if name == 'vp_sink_flush':
            return [(okv, st)]
        w = window(ip, st, a[1])
        log = st.g['log']
        s = st.copy()
        ln = None
        if log and log[-1] == '*':
            pass
        elif w is None:
            s.g['log'] = log + ('*',)
        else:
            ln = w[2]
            q = subseq(ip, st, get(ip, st, w[0]), w[1], w[2])
            new = []
            for x in q[1]:
                if x[0] == 'v':
                    new.append(x[1])
                elif x[0] == 'n' and T.is_const(x[1]) and x[1][0] <= 16:
                    new += [ip.freshen(x[2], s) for _ in range(x[1][0])]
                else:
                    new.append('*')
                    break
            s.g['log'] = log + tuple(new)
        v = UNIT if name == 'vp_sink_write_all' else ('n', ln, 'usize') if ln is not None else ip.fresh_num('w', 'usize', 'sink')
        return [(('e', ((0, (v,)),), None), s)]

    def reader_next(self, ip, st, a, act, t):
        log = st.g.get('log', ())
        p = st.g.get('!pos', 0)
        s = st.copy()
        if p < len(log) and log[p] != '*':
            s.g['!pos'] = p + 1
            return [(some(log[p]), s)]
        if p >= len(log):
            s.g['!extra'] = 1
        return [(some(ip.fresh_num('in', 'u8', 'beyond')), s)]

    def join_ghost(self, ip, k, p, q, ctx):
        if k == 'log':
            return merge(p, q)

    def widen_ghost(self, ip, k, h, b):
        if k == 'log':
            return merge(h, b)
        return h if h is not None else b


def merge(p, q):
    if p == q:
        return p
    n = 0
    while n < min(len(p), len(q)) and p[n] == q[n] and p[n] != '*':
        n += 1
    return p[:n] + ('*',)


def pairs(P):
    """[(name, serialize fn, deserialize fn)]: same value type, the abstract output and input."""
    ser, de = {}, {}
    for i, f in enumerate(P.fns):
        b = f['body']
        if b is None or b['nargs'] < 1:
            continue
        L = b['locals']
        if f['path'].endswith('ser::Serialize>::serialize') and b['nargs'] == 2 and P.tyname(L[2]).lstrip('&') == 'cniic::__vp::Sink':
            ty = P.pointee(L[1])
            ser.setdefault(key(P, ty), (i, ty))
        if f['path'].endswith('ser::Deserialize>::deserialize') and b['nargs'] == 1 and P.tyname(L[1]).lstrip('&') == 'cniic::__vp::Reader':
            ty = P.types[L[0]]['args'][0]
            de.setdefault(key(P, ty), (i, ty))
    return [(k, ser[k][0], ser[k][1], de[k][0], de[k][1]) for k in sorted(ser) if k in de], sorted(set(ser) ^ set(de))


def key(P, ty):
    """Type name in which slices, references to them and vectors of the same element coincide."""
    t = P.types[ty]
    if t['k'] in ('ref', 'ptr') and P.types[t['e']]['k'] in ('slice', 'array'):
        return key(P, t['e'])
    if t['k'] == 'slice' or (t['k'] == 'adt' and t['name'].endswith('::Vec')):
        return '[%s]' % key(P, P.seq_elem(ty))
    return P.tyname(ty)


MAXN = 14
# sizes carried inside a program type: as far as a two-byte field reaches, either side of its top bit
SIZES = [(0, 32767), (32768, 65535)]


def gen(ip, ty, depth, inner):
    """[(description, builder(st) -> value)] of the shapes of a type."""
    P = ip.p
    t = P.types[ty]
    k = t['k']
    if k in ('uint', 'int', 'bool', 'char'):
        n = t.get('n') if k in ('uint', 'int') else k

        if inner and n == 'usize':
            return [('usize %d..%d' % (lo, hi), (lambda lo, hi: lambda st: ('n', T.fresh('val', lo, hi, 'val'), 'usize'))(lo, hi)) for lo, hi in SIZES]
        return [(n, lambda st: ip.fresh_num('val', n, 'val'))]
    if k in ('ref', 'ptr') or t.get('box'):
        e = t['e'] if k in ('ref', 'ptr') else t['args'][0]
        if P.types[e]['k'] == 'slice':
            return [(d, (lambda bb: lambda st: slice_ref(ip, st, bb(st)))(bb)) for d, bb in gen(ip, e, depth, inner)]
        return [(d, (lambda bb: lambda st: ('r', ip.new_obj(st, bb(st), 'box'), (), None))(bb)) for d, bb in gen(ip, e, depth - (1 if t.get('box') else 0), inner)]
    el = P.seq_elem(ty)
    if el is not None:
        es = gen(ip, el, depth, inner)
        if not es:
            return []
        if k == 'array':
            lens = [t['n']]
        else:
            lens = [0, 1, 2, 3, 4]
        out = []
        for n in lens:
            for d, bb in es[:2]:
                out.append(('%d x %s' % (n, d), (lambda n, bb: lambda st: ('q', tuple(('v', bb(st)) for _ in range(n))))(n, bb)))
        if k != 'array':
            d, bb = es[0]
            for lo, hi in SIZES if inner else [(5, 1 << 40)]:
                out.append(('%d..%d x %s' % (max(lo, 5), hi, d), (lambda lo, hi: lambda st: ('q', (('n', T.fresh('len', max(lo, 5), hi, 'val'), bb(st)),)))(lo, hi)))
        return out
    if k == 'tuple':
        return product(ip, [x for x in t['a']], depth, inner, lambda vs: ('s', tuple(vs)))
    if k == 'adt':
        if t['ak'] == 'struct':
            return product(ip, [f[1] for f in t['v'][0]['f']], depth, inner or t['crate'] == 'cniic', lambda vs: ('s', tuple(vs)), t['v'][0]['n'])
        if t['ak'] == 'enum':
            out = []
            for i, v in enumerate(t['v']):
                fs = [f[1] for f in v['f']]
                if depth <= 0 and any(P.types[x].get('box') for x in fs):
                    continue
                out += product(ip, fs, depth, True, (lambda i: lambda vs: ('e', ((i, tuple(vs)),), None))(i), v['n'])
            return out[:MAXN]
    return []


def slice_ref(ip, st, q):
    return ('r', ip.new_obj(st, q, 'slice'), (), ('w', T.ZERO, ip.seq_len(q)))


def product(ip, tys, depth, inner, mk, name=''):
    combos = [([], [])]
    for ty in tys:
        g = gen(ip, ty, depth, inner)
        nxt = []
        for ds, bs in combos:
            for d, b in g:
                nxt.append((ds + [d], bs + [b]))
        combos = nxt[:40]
    if len(combos) > MAXN:
        step = len(combos) / MAXN
        combos = [combos[int(i * step)] for i in range(MAXN)]
    return [('%s(%s)' % (name, ', '.join(ds)), (lambda bs: lambda st: mk([b(st) for b in bs]))(bs)) for ds, bs in combos]


def compare(ip, st, v, w, s0, out, path=''):
    """Differences between the value written (v, in s0) and the value read (w, in st)."""
    while v[0] == 'r':
        wn = v[3]
        v = ip.load(st, v[1], v[2])
        if wn is not None and wn[0] == 'w' and v[0] == 'q':
            v = subseq(ip, st, v, wn[1], wn[2])
    while w[0] == 'r':
        w = ip.load(st, w[1], w[2])
    if w[0] == 't':
        w = ip.expand(w, st)
        if w[0] == 'r':
            return compare(ip, st, v, w, s0, out, path)
    if w[0] != v[0]:
        out.append(('?', path, None))
        return
    if v[0] == 'n':
        d = T.sub(v[1], w[1])
        if d == T.ZERO or st.decide(('eq', d)) is True:
            return
        out.append(('n', path, ('eq', d)))
    elif v[0] == 's':
        if len(v[1]) != len(w[1]):
            out.append(('?', path, None))
            return
        for i, (x, y) in enumerate(zip(v[1], w[1])):
            compare(ip, st, x, y, s0, out, path + '.%d' % i)
    elif v[0] == 'e':
        if len(w[1]) != 1:
            d = ip.vdiscr(w, v[1][0][0])
            if d is None or st.decide(d) is not True:
                out.append(('?', path, None))
                return
        a = dict(w[1])
        i, fs = v[1][0]
        if i not in a:
            out.append(('v', path, None))
            return
        for j, (x, y) in enumerate(zip(fs, a[i])):
            compare(ip, st, x, y, s0, out, path + '#%d.%d' % (i, j))
    elif v[0] == 'q':
        a, b = ip.seq_len(v), ip.seq_len(w)
        d = T.sub(a, b)
        if not (d == T.ZERO or st.decide(('eq', d)) is True):
            out.append(('n', path + ' length', ('eq', d)))
            return
        if all(x[0] == 'v' for x in v[1]):
            if not all(x[0] == 'v' for x in w[1]):
                if v[1]:
                    out.append(('?', path, None))
                return
            for i, (x, y) in enumerate(zip(v[1], w[1])):
                compare(ip, st, x[1], y[1], s0, out, path + '[%d]' % i)
    else:
        if v != w:
            out.append(('?', path, None))


def run_pair(P, name, sf, sty, df, dty, mkh):
    res = []
    hooks = mkh()
    probe = Interp(P, hooks)
    shapes = gen(probe, sty, 3, False)
    if not shapes:
        return [('und', name, 'no values of the type can be built')]
    nshape = 0
    for d, b in shapes:
        T.reset()
        ip = Interp(P, hooks, steps=200000)
        hooks.ip = ip
        ip.RECUR = 8
        st = State()
        lab = '%s as %s' % (name, d)
        try:
            st.g['log'] = ()
            v = gen_again(ip, sty, d)(st)
            self_ref = ('r', ip.new_obj(st, v, 'val'), (), None)
            sink = ip.new_ref(P.pointee(P.fns[sf]['body']['locals'][2]), 'sink', st)
            outs = ip.exec_fn(sf, [self_ref, sink], st)
            n = 0
            for rv, s in outs:
                if rv[0] != 'e':
                    raise Stuck('serialize returns an unrecognised value')
                if not any(a[0] == 0 for a in rv[1]):
                    continue
                if len(rv[1]) > 1:
                    s2 = s.assume(ip.vdiscr(rv, 0))
                    if s2 is None:
                        continue
                    s = s2
                n += 1
                rd = ip.new_ref(P.pointee(P.fns[df]['body']['locals'][1]), 'rd', s)
                mark = len(ip.collector)
                douts = ip.exec_fn(df, [rd], s.copy())
                res += judge(ip, lab, name, v, s, douts, sf, df)
            nshape += 1
            res.append(('count', 'value shapes composed', 1))
        except Stuck as e:
            res.append(('und', lab, 'analysis stopped: %s' % e))
        except Budget:
            res.append(('und', lab, 'analysis stopped: step budget exhausted'))
        res.append(('fn', [P.fns[x]['path'] for x in ip.analysed]))
    return res


def gen_again(ip, ty, d):
    for dd, b in gen(ip, ty, 3, False):
        if dd == d:
            return b
    raise Stuck('shape')


def judge(ip, lab, name, v, s, douts, sf, df):
    """Results for one path of serialize and all continuations through deserialize."""
    fns = '%s / %s' % (ip.p.fns[sf]['path'], ip.p.fns[df]['path'])
    if not douts:
        if ip.imprecise.get('x'):
            return [('und', lab, 'deserialize has no outcome')]
        return [viol(name, 'deserialize of what was written never returns', lab, fns, '')]
    res = []
    for w, s2 in douts:
        log = s2.g.get('log', ())
        star = bool(log) and log[-1] == '*'
        conds = s2.pc.full()

        def feasible(extra=None):
            a, why = witness(conds, extra, {'val'})
            return a, why
        if w[0] != 'e':
            res.append(('und', lab, 'deserialize returns an unrecognised value'))
            continue
        alts = {a[0] for a in w[1]}
        ww = w
        s3 = s2
        if 0 in alts:
            sn = s2
            if 1 in alts:
                sn = s2.assume(ip.vdiscr(w, 0))
            if sn is not None:
                if star:
                    # the rest of the stream was abstracted: element decoding may fail for arbitrary bytes
                    if s2.g.get('!pos', 0) < len(log) - 1:
                        res.append(('und', lab, 'deserialize fails in the length prefix'))
                else:
                    a, why = witness(sn.pc.full(), None, {'val'})
                    if a is not None:
                        res.append(viol(name, 'deserialize rejects what serialize wrote', lab, fns, show(a)))
                    else:
                        res.append(('und', lab, 'deserialize may fail (%s)' % why))
            if 1 not in alts:
                continue
            s3 = s2.assume(ip.vdiscr(w, 1))
            if s3 is None:
                continue
        payload = dict(w[1])[1][0]
        diffs = []
        compare(ip, s3, v, payload, s, diffs)
        if not star and (s3.g.get('!pos', 0) != len(log) or s3.g.get('!extra')):
            a, why = witness(s3.pc.full(), None, {'val'})
            what = 'read more bytes than were written' if s3.g.get('!extra') else 'leave bytes unread'
            if a is not None:
                res.append(viol(name, 'deserialize can ' + what, lab, fns, show(a)))
                continue
            res.append(('und', lab, 'deserialize may ' + what))
            continue
        bad = False
        for kind, path, c in diffs:
            if kind == 'n':
                cs = resolve(s3, s3.pc.full() + [c], {'val'})
                a, why = witness(cs[:-1], cs[-1], {'val'})
                if a is not None:
                    res.append(viol(name, 'a different value is read back', lab, fns, 'component %s differs when %s' % (path or 'itself', show(a))))
                else:
                    res.append(('und', lab, 'component %s not shown equal (%s: %s)' % (path, why, T.show_cond(c)[:100])))
                bad = True
            elif kind == 'v':
                a, why = witness(s3.pc.full(), None, {'val'})
                if a is not None:
                    res.append(viol(name, 'another variant is read back', lab, fns, 'component %s for %s' % (path, show(a))))
                else:
                    res.append(('und', lab, 'another variant may be read back (%s)' % why))
                bad = True
            else:
                res.append(('und', lab, 'component %s is not comparable' % path))
                bad = True
            if bad:
                break
        if not bad:
            res.append(('ok', '%s: read back equal, %s' % (lab, 'length and prefix' if star else '%d bytes' % len(log))))
    return res


def viol(name, what, lab, fns, detail):
    return ('viol', '%s: %s' % (name, what), '%s: %s (%s) %s' % (lab, what, fns, detail))


def show(a):
    return ', '.join('%s=%d' % (T.SYMS[k].name, x) for k, x in sorted(a.items())[:8]) or 'any value'


def check(P, r):
    r.rule = RULE
    r.assume = ['char is serialised only when it fits one byte (serialize reports an error otherwise)', 'third-party functions behave as modelled in tools/models.py']
    ps, single = pairs(P)
    if not ps:
        r.undecide('no type has both a Serialize and a Deserialize implementation')
    r.count('types with both directions', len(ps))
    r.count('types with one direction only (not in scope)', len(single))
    for name, sf, sty, df, dty in ps:
        for x in run_pair(P, name, sf, sty, df, dty, H):
            drive.apply(r, x)
