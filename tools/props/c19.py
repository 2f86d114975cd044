"""C19: clustering is a rearrangement of the points it is given."""
import itertools
import drive
import absint, models as M, terms as T
from absint import Interp, State, Stuck, Budget, UNIT
from models import NONE, some
from run import Hooks

RULE = ('The clustering function is interpreted for a few points whose fields are unique symbols, with arbitrary distances, averages, sort orders and random choices; the rounds are followed until no new state appears, '
        'so every number of rounds is covered. In every final state, iterating over the result gives each symbol exactly once and nothing else. With all distances zero the initial partition is followed for more sizes.')


def mine(f):
    return f['crate'] == 'cniic' and f['body'] is not None and '__vp' not in f['path']


def vec_of(P, ty):
    t = P.types[ty]
    return P.seq_elem(ty) if t['k'] == 'adt' and t['name'].endswith('Vec') else None


def entries(P):
    """(cluster function, element type): a vector and a count to a structure holding a vector of vectors of the same elements."""
    out = []
    for i, f in enumerate(P.fns):
        if not mine(f) or f['body']['nargs'] != 2 or not f['path'].endswith('kmeans::cluster'):
            continue
        L = f['body']['locals']
        el = vec_of(P, L[1])
        if el is not None and P.types[L[2]]['k'] == 'uint':
            out.append((i, el, L[0]))
    return out


class Points(Hooks):
    P = None
    apart = True
    means = 0           # > 0: paths that average more often are not followed

    def call(self, ip, act, st, fid, f, args, atys, dty, t):
        p = f['path']
        last = p.rsplit('::', 1)[-1]
        if p.endswith('Distance>::dist') or p.endswith('Distance::dist'):
            return [(ip.expand(('t', dty, 'distance'), st) if self.apart else ('f', ('c', 0.0), 'f64'), st)]
        if p.endswith('Point>::mean'):
            w = M.window(ip, st, args[0])
            if w is None:
                return None
            o = self.P.types[dty]['args'][0]
            if self.means:
                n = st.g.get('!means', 0)
                if n >= self.means:
                    return []
                st = st.copy()
                st.g['!means'] = n + 1
            d = st.decide(('ge', T.addc(w[2], -1)))
            if d is True:
                return [(some(('t', o, 'mean')), st)]
            if d is False:
                return [(NONE, st)]
            return None
        if last == 'choose':
            w = M.window(ip, st, args[0])
            if w is None or not T.is_const(w[2]):
                return None
            r, off, n = w[0], w[1], w[2][0]
            out = []
            if n == 0:
                return [(NONE, st)]
            for i in range(n):
                s = st.copy()
                out.append((some(('r', r[1], r[2] + (('i', T.addc(off, i)),), None)), s))
            return out
        if last.startswith('sort') and args:
            w = M.window(ip, st, args[0])
            q = M.get(ip, st, w[0]) if w is not None else None
            if not self.apart:
                return [(UNIT, st)]
            if q is None or q[0] != 'q' or any(x[0] != 'v' for x in q[1]) or not 1 < len(q[1]) <= 3 or w[1] != T.ZERO or w[2] != T.const(len(q[1])):
                return None
            out = []
            for p in itertools.permutations(q[1]):
                s = st.copy()
                M.put(ip, s, w[0], ('q', p))
                out.append((UNIT, s))
            return out
        return None
    def drop(self, ip, act, st, t):
        """Destructors written in the crate run."""
        fid = self.drops.get(t.get('ty'))
        if fid is None:
            return None
        oid, path, ty, meta = ip.place(st, act, t['p'])
        if ip.load(st, oid, path)[0] == 'u':
            return None
        return [s for _, s in ip.exec_fn(fid, [('r', oid, path, None)], st)]

    def __init__(self, P):
        self.P = P
        self.drops = {P.pointee(f['body']['locals'][1]): i for i, f in enumerate(P.fns) if mine(f) and f['path'].endswith('Drop>::drop')}


def tokens(ip, st, el, n):
    return [solid(ip, st, ('t', el, 'point%d' % k)) for k in range(n)]


def solid(ip, st, v, d=0):
    if v[0] == 't' and d < 6:
        v = ip.expand(v, st)
    if v[0] == 's':
        return ('s', tuple(solid(ip, st, x, d + 1) for x in v[1]))
    if v[0] == 'q':
        return ('q', tuple((x[0], solid(ip, st, x[1], d + 1)) if x[0] == 'v' else x for x in v[1]))
    return v


def gather(ip, st, v, ty, el, toks, out, inside=False, d=0):
    """Points in the vectors of vectors (or of a vector beside its centroid) of a value."""
    P = ip.p
    if d > 6:
        raise Stuck('result too deep')
    t = P.types[ty]
    if v[0] == 't':
        v = ip.expand(v, st)
    e = vec_of(P, ty)
    if e is not None:
        if v[0] != 'q':
            raise Stuck('vector not followed')
        for x in v[1]:
            if x[0] != 'v':
                raise Stuck('a vector of unknown length')
            if e != el:
                gather(ip, st, x[1], e, el, toks, out, True, d + 1)
            elif inside:
                out.append(toks.index(x[1]) if x[1] in toks else x[1])
    elif t['k'] == 'tuple' and v[0] == 's':
        for x, y in zip(v[1], t['a']):
            gather(ip, st, x, y, el, toks, out, True, d + 1)
    elif t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct' and ty != el and v[0] == 's':
        for x, y in zip(v[1], t['v'][0]['f']):
            gather(ip, st, x, y[1], el, toks, out, inside, d + 1)


def leaves(v):
    if v[0] in ('s', 'q'):
        for x in v[1]:
            yield from leaves(x[1] if v[0] == 'q' and x[0] == 'v' else x)
    else:
        yield v


def foreign(v):
    """A value that is certainly none of the points: what averaging gave."""
    ls = list(leaves(v))
    return bool(ls) and all(x[0] == 't' and x[2] == 'mean' or x[0] == 'n' and set(T.prov(x[1])) == {'mean'} for x in ls)


def results(ip, st, v, ret, el, toks, k):
    """[(points returned, state)] for a value the cluster function returned: what iterating over it gives."""
    P = ip.p
    it = [i for i, f in enumerate(P.fns) if mine(f) and f['body']['nargs'] == 1 and f['body']['locals'][1] == ret]
    for fid in it:
        R = P.fns[fid]['body']['locals'][0]
        nx = [i for i, f in enumerate(P.fns) if f['body'] is not None and f['body']['nargs'] == 1 and f['path'].endswith('Iterator>::next') and P.types[f['body']['locals'][1]]['k'] == 'ref' and P.pointee(f['body']['locals'][1]) == R]
        if not nx:
            continue
        item = option_of(P, P.fns[nx[0]]['body']['locals'][0])
        out = []
        for w, s in ip.exec_fn(fid, [v], st.copy()):
            o = ip.new_obj(s, w, 'iterator')
            work = [(s, [])]
            for _ in range(k + 2):
                nw = []
                for s, got in work:
                    for x, s2 in ip.exec_fn(nx[0], [('r', o, (), None)], s):
                        if x[0] != 'e' or len(x[1]) != 1:
                            raise Stuck('iteration over the clusters not followed')
                        if x[1][0][0] == 0:
                            out.append((got, s2))
                        else:
                            g = list(got)
                            gather(ip, s2, x[1][0][1][0], item, el, toks, g, False)
                            nw.append((s2, g))
                work = nw
            if work:
                raise Stuck('iteration over the clusters does not end')
        return out
    got = []
    gather(ip, st, v, ret, el, toks, got)
    return [(got, st)]


def option_of(P, ty):
    t = P.types[ty]
    return t['args'][0] if t['k'] == 'adt' and t['name'].endswith('option::Option') else None


def job(P, fid, el, ret, n, k, apart, rounds=0):
    """One number of points and clusters; apart: distances are arbitrary, otherwise they are all zero."""
    T.reset()
    h = Points(P)
    h.apart, h.means = apart, k * (rounds + 2) + n if rounds else 0
    ip = Interp(P, h, steps=1 << 40)
    h.ip = ip
    ip.nomerge = ip.keepapart = ip.total = True
    ip.dedupe, ip.bounded, ip.MAXSTATES = 12, 24, 20000
    where = P.fns[fid]['path']
    size = '%d points, %d clusters%s' % (n, k, '' if apart else ', all at distance zero')
    out = []
    try:
        st = State()
        toks = tokens(ip, st, el, n)
        outs = ip.exec_fn(fid, [('q', tuple(('v', x) for x in toks)), ('n', T.const(k), 'usize')], st)
        ends = 0
        for v, s in outs:
            for got, s2 in results(ip, s, v, ret, el, toks, k):
                ends += 1
                pts = [x for x in got if type(x) is int]
                odd = [x for x in got if type(x) is not int]
                if any(not foreign(x) for x in odd):
                    raise Stuck('a point not followed')
                lost = [x for x in range(n) if x not in pts]
                twice = [x for x in range(n) if pts.count(x) > 1]
                for bad, what in ((twice, 'a point is duplicated'), (lost, 'a point is lost')):
                    if bad:
                        out.append(('viol', what, '%s (%s): given points 0..%d, a path returns the points %s' % (where, size, n - 1, pts)))
                if odd:
                    out.append(('viol', 'a point is invented', '%s (%s): a path returns %d points made by averaging besides %s' % (where, size, len(odd), pts)))
                if out:
                    return out + [('fn', [P.fns[x]['path'] for x in ip.analysed])]
        if not ends:
            out.append(('und', where, '%s: no path returns' % size))
        elif rounds:
            out.append(('ok', '%s, %s, about %d rounds: each point once in all %d final states' % (where, size, rounds, ends)))
        elif 'loop left' in ip.imprecise:
            out.append(('und', where, '%s: the rounds do not repeat' % size))
        else:
            out.append(('ok', '%s, %s, every number of rounds: each point once in all %d final states' % (where, size, ends)))
    except Stuck as e:
        out.append(('und', where, '%s: %s' % (size, e)))
    except Budget:
        out.append(('und', where, '%s: step budget exhausted' % size))
    out.append(('fn', [P.fns[x]['path'] for x in ip.analysed]))
    return out


def check(P, r):
    r.rule = RULE
    r.assume = ['distances are finite numbers (C22 decides their form)',
                'averaging gives a value for a non-empty slice and none for an empty one, and changes nothing',
                'sorting permutes; random choice may give any element',
                'numbers of points and clusters beyond the ones listed behave alike']
    es = entries(P)
    if not es:
        r.undecide('no clustering function')
        return
    full = [(3, 2), (2, 2), (4, 1), (1, 1)]
    limit = 360
    if r.tier == 'thorough':
        full = [(3, 3), (4, 2)] + full
        limit = 780
    early = [(fid, el, ret, n, 2, True, 2) for n in (3, 2) for fid, el, ret in es]
    early += [(fid, el, ret, n, k, False) for n in range(2, 8) for k in range(2, min(n, 6) + 1) for fid, el, ret in es[:1]]
    early += [(fid, el, ret, n, k, False) for n, k in ((10, 3), (11, 4), (12, 5), (12, 7)) for fid, el, ret in es[:1]]
    late = [(fid, el, ret, n, k, True) for n, k in full for fid, el, ret in es]
    jobs = early[:4] + late + early[4:]
    res = drive.pool(jobs, lambda j: job(P, *j), limit, first=True)
    for j in res:
        for x in res[j]:
            drive.apply(r, x)
    r.count('numbers of points and clusters', len(res))
