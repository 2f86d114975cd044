"""C22: every Distance::dist is sqrt of the sum of squared coordinate differences.

The abstract interpreter extracts the closed form each implementation computes
(for all values, every path); it is compared with the Euclidean form by
polynomial normalisation.  A form that does not normalise to it is only
reported when the two forms take different values somewhere."""
import os, random
import ana, terms as T
import teval
from absint import Interp, State, Stuck, Budget
from run import Hooks


def build(ip, st, ty, name, tag, leaves, weight=False):
    """A fully symbolic value of type ty; leaves collects its scalar components."""
    P = ip.p
    t = P.types[ty]
    k = t['k']
    if k in ('uint', 'int', 'float', 'bool', 'char'):
        v = ip.expand(('t', ty, tag), st)
        leaves.append((name, v, weight))
        return v
    if k == 'array':
        return ('q', tuple(('v', build(ip, st, t['e'], '%s.%d' % (name, i), tag, leaves, weight)) for i in range(t['n'])))
    if k == 'tuple':
        return ('s', tuple(build(ip, st, x, '%s.%d' % (name, i), tag, leaves, weight) for i, x in enumerate(t['a'])))
    if k == 'adt' and t['ak'] == 'struct':
        nm = t['name'].rsplit('::', 1)[-1]
        if nm in ('Rgb', 'Rgba', 'Luma', 'LumaA') and t.get('crate') == 'image':
            return ip.expand_pixel(ty, tag, leaves, name) if hasattr(ip, 'expand_pixel') else ('s', tuple(build(ip, st, x[1], name, tag, leaves, weight) for x in t['v'][0]['f']))
        out = []
        for x in t['v'][0]['f']:
            w = weight or any(q in x[0].lower() for q in ('count', 'weight', 'freq'))
            out.append(build(ip, st, x[1], name + '.' + x[0], tag, leaves, w))
        return ('s', tuple(out))
    raise Stuck('cannot build a symbolic ' + P.tyname(ty))


def check(P, r):
    r.rule = ('Closed-form extraction by abstract interpretation of every Distance implementation, polynomial normal form compared with '
              'sqrt(sum over all coordinates of (a_i - b_i)^2); weights (count-like fields) must not occur.')
    r.assume = ['floating-point rounding of sums and squares is not a deviation', 'fields named like a count or weight are not coordinates']
    impls = [i for i, f in enumerate(P.fns) if f['crate'] == 'cniic' and f['body'] and f['path'].endswith('::dist') and 'Distance' in f['path'] and '__vp' not in f['path']]
    for i in impls:
        f = P.fns[i]
        label = f['path']
        r.funcs.add(label)
        T.reset()
        ip = Interp(P, Hooks())
        st = State()
        la, lb = [], []
        try:
            args = []
            for j, lv in ((1, la), (2, lb)):
                ty = P.pointee(f['body']['locals'][j])
                o = ip.new_obj(st, build(ip, st, ty, '', 'in%d' % j, lv), 'a%d' % j)
                args.append(('r', o, (), None))
            outs = ip.exec_fn(i, args, st)
        except (Stuck, Budget) as e:
            r.undecide('%s: analysis stopped: %s' % (label, e))
            continue
        coords = [(n, x, y) for (n, x, w), (_, y, _) in zip(la, lb) if not w]
        ref = {}
        for n, x, y in coords:
            fx, fy = fe(x), fe(y)
            d = padd2(fx, fy)
            ref = teval.padd(ref, teval.pmul(d, d))
        want = {((('sqrt', tuple(sorted(ref.items(), key=repr))), 1),): 1}
        pan = [e for e in ip.collector if e[0] == 'panic']
        for e in pan:
            # overflow or panic inside a distance is C21's subject; a definite one also leaves no value
            r.count('possible panics')
        for v, s in outs:
            what = '%s (%d coordinates)' % (label, len(coords))
            form = None
            if v[0] == 'f':
                try:
                    form = teval.fpoly(v[1])
                except (teval.Unknown, OverflowError, ValueError):
                    form = None
            if form is not None and form == want:
                r.ok(what)
                continue
            w = witness(v, s, coords, la, lb)
            if w is None:
                r.undecide('%s: extracted form %s not reduced to the Euclidean form' % (label, str(v)[:200]))
            else:
                r.violation(label, '%s computes %s where the Euclidean distance over %s is %s (at %s)' % (label, w[0], ', '.join(n for n, _, _ in coords), w[1], w[2]))
    r.count('Distance implementations', len(impls))
    if not impls:
        r.violation('anchor', 'no Distance implementation found')


def fe(v):
    if v[0] == 'n':
        return teval.tpoly(v[1])
    return teval.fpoly(v[1])


def padd2(a, b):
    return teval.padd(a, b, -1)


def witness(v, st, coords, la, lb):
    if v[0] != 'f':
        return None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    rng = random.Random(seed)
    conds = [c for c in st.pc.full()] if st.pc is not None else []
    for n in range(4000):
        ev = teval.Ev(rng)
        if n % 4 == 0:
            # points that differ in few coordinates
            keep = n // 4 % (len(la) + 1)
            for i, ((_, x, _), (_, y, _)) in enumerate(zip(la, lb)):
                if i != keep:
                    if x[0] == 'n':
                        ev.v[y[1][1][0][0]] = ev.term(x[1])
                    else:
                        ev.f[y[1][1]] = ev.fl(x[1])
        elif n % 4 == 1:
            for i, ((_, x, _), (_, y, _)) in enumerate(zip(la, lb)):
                if x[0] == 'n':
                    s = T.SYMS[y[1][1][0][0]]
                    ev.v[s.id] = min(s.hi, max(s.lo, ev.term(x[1]) + rng.randint(-3, 3)))
        try:
            if not all(ev.cond(c) for c in conds):
                continue
            got = ev.fl(v[1])
            s = 0
            for _, x, y in coords:
                a = ev.term(x[1]) if x[0] == 'n' else ev.fl(x[1])
                b = ev.term(y[1]) if y[0] == 'n' else ev.fl(y[1])
                s += (a - b) ** 2
        except teval.Unknown:
            return None
        want = s ** 0.5
        if not abs(got - want) <= 1e-9 * max(1.0, want):
            at = ['%s=%s/%s' % (nm, num(ev, x), num(ev, y)) for (nm, x, _), (_, y, _) in zip(la, lb)]
            return ('%.6g' % got, '%.6g' % want, ' '.join(at))
    return None


def num(ev, x):
    return ev.term(x[1]) if x[0] == 'n' else ev.fl(x[1])
