"""Which panic obligations of an abstract run are definitely reachable."""
import random
import terms as T
from teval import Ev, Unknown

SPEC = (0, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 129, 254, 255)


def leaves(t):
    out = set()
    for s in T.all_syms(t):
        y = T.SYMS[s]
        if y.kind == 'op':
            fl = [a for a in y.data[1:] if T.is_float_expr(a)]
            if fl:
                for a in fl:
                    T.float_syms(a, out)
                continue
        if y.kind == 'phi':
            out.add(s)
        elif not T.sym_args(y):
            out.add(s)
        elif y.kind not in ('op', 'ite', 'bv'):
            out.add(s)
    return out


def known(s, ok):
    if isinstance(s, tuple):
        return s[2] in ok
    y = T.SYMS[s]
    return y.kind == 'free' and y.prov and set(y.prov) <= ok


def witness(conds, fail, ok, tries=4000):
    """Values of input symbols that satisfy the path conditions and violate `fail` (None: any).

    Returns (assignment or None, reason)."""
    main = leaves(fail[1]) if fail is not None else set()
    if any(not known(s, ok) for s in main):
        return None, 'depends on a summarised quantity'
    use = []
    dep = set(main)
    rest = []
    for c in conds:
        l = leaves(c[1])
        if all(known(s, ok) for s in l):
            use.append(c)
            dep |= l
        else:
            rest.append((c, l))
    for c, l in rest:
        if fail is None or l & dep:
            return None, 'path depends on a summarised quantity'
    rng = random.Random(7)
    ls = sorted(dep, key=lambda s: (isinstance(s, tuple), s))
    todo = use + ([T.neg(fail)] if fail is not None else [])
    if not todo:
        return {}, ''
    vals = {}

    def evaluator(a):
        e = Ev(rng)
        for s, v in a.items():
            if isinstance(s, tuple):
                e.f[s[1]] = v
            else:
                e.v[s] = v
        return e

    def pick(s):
        if isinstance(s, tuple):
            return rng.choice((0.0, 0.25, 0.001, 0.5, 1.0, 1.5, 2.0, 5.0, 100.0, 500.0, -1.0, -0.0, 1e300, rng.uniform(0, 10), rng.uniform(0, 450), float('nan')))
        lo, hi = T.SYMS[s].lo, T.SYMS[s].hi
        lo = -(1 << 40) if lo is None else lo
        hi = (1 << 40) if hi is None else hi
        x = rng.random()
        if x < 0.55:
            v = rng.choice(SPEC)
        elif x < 0.7:
            v = rng.choice((lo, hi))
        else:
            v = rng.randint(lo, hi)
        return min(max(v, lo), hi)

    def score(a):
        e = evaluator(a)
        return [i for i, c in enumerate(todo) if not e.cond(c)]
    lv = [leaves(c[1]) for c in todo]
    try:
        best = None
        for n in range(tries):
            if best is None or rng.random() < 0.05:
                a = {s: pick(s) for s in ls}
            else:
                a = dict(best[1])
                bad = best[0][rng.randrange(len(best[0]))]
                cand = sorted(lv[bad], key=lambda s: (isinstance(s, tuple), s)) or ls
                for _ in range(rng.choice((1, 1, 2, 3))):
                    s = rng.choice(cand)
                    a[s] = pick(s)
            b = score(a)
            if not b:
                return a, ''
            if best is None or len(b) <= len(best[0]):
                best = (b, a)
    except Unknown as e:
        return None, 'not evaluable: %s' % e
    return None, 'no witness among the values tried'


def events(ip):
    return sorted((e for e in list(ip.collector) + list(ip.first) if e[0] == 'panic'), key=lambda e: e[5].pc.depth)


def resolve(st, conds, ok):
    """Replace summarised symbols that recorded equalities define in terms of known ones."""
    facts = st.facts
    fs = set(facts)
    eqs = []
    for k, t in facts:
        if k == 'eq' or (k == 'ge' and T.norm_cond(('ge', T.scale(t, -1))) in fs):
            eqs.append(t)
    m = {}
    for _ in range(3):
        for t in eqs:
            t = T.subst(t, m) if m else t
            for s, c in t[1]:
                if s in m or c not in (1, -1):
                    continue
                if known(s, ok) or not (leaves((0, ((s, 1),))) - {s} == set() or True):
                    continue
                y = T.SYMS[s]
                if y.kind not in ('free', 'phi'):
                    continue
                rest = (t[0], tuple(x for x in t[1] if x[0] != s))
                if all(known(x, ok) for x in leaves(rest)):
                    m[s] = T.scale(rest, -c)
                    break
    if not m:
        return conds
    return [None if c is None else (c[0], T.subst(c[1], m)) for c in conds]


def classify(ip, ok, relevant=None):
    """[(key, kind, fn, user fn, status, detail)]: status 'viol' or 'und', one per site."""
    out = {}
    for _, kind, site, cond, decided, st, stack in events(ip):
        fn = site[0]
        u = fn
        if 'cniic' not in fn or '__vp' in fn:
            for fid in reversed(stack):
                p = ip.p.fns[fid]['path']
                if 'cniic' in p and '__vp' not in p:
                    u = p
                    break
        key = (kind, u, fn if u != fn else '')
        if out.get(key, ('',))[0] == 'viol':
            continue
        pcs = st.pc.full()
        n = out.get(key, ('', '', 0))[2]
        if n > 60:
            continue
        cs = resolve(st, pcs + [cond], ok)
        pcs, cond = cs[:-1], cs[-1]
        a, why = witness(pcs, cond, ok)
        if a is not None:
            out[key] = ('viol', detail(cond, pcs, a), n + 1)
        else:
            out[key] = ('und', why + ((': ' + T.show_cond(cond)[:120]) if cond else ''), n + 1)
    return [(k, v[0], v[1]) for k, v in out.items()]


def detail(cond, pcs, a):
    s = ''
    if cond is not None:
        s += 'requires %s' % T.show_cond(cond)[:160]
    if a:
        s += ' which fails for ' + show_asg(a, 12)
    return s or 'on every execution reaching it'


def show_asg(a, n=8):
    ks = sorted(a, key=lambda s: (isinstance(s, tuple), s))[:n]
    return ', '.join('%s=%s' % ('parameter' if isinstance(k, tuple) else T.SYMS[k].name, a[k]) for k in ks)
