"""C18: different codec configurations never share a result file."""
import itertools
import ana, judge, names, terms as T
import textmodel as X
from teval import Unknown

RULE = ('The name of every codec configuration is derived as a text: literals and formatted parameters, with the condition under which it is used. Every parameter must occur, formatted so that different values give different texts '
        '(or be fixed by the condition), and the texts of two configurations must differ in their literal parts. The path of the result file is derived as a text over that name. '
        'What is not of that form is evaluated for sample parameters; a collision of two different configurations is reported.')


def pinned(lab, v, st):
    """Parameters the path condition fixes to one value."""
    out = set()
    ps = names.leaves(v)
    for i, p in enumerate(ps):
        for c in st.pc.full():
            if p[0] == 'n' and c[0] == 'eq' and len(c[1][1]) == 1 and c[1][1][0][0] == p[1][1][0][0]:
                out.add(i)
            if p[0] == 'f' and c[0] in ('eq', 'ne', 'ge') and len(c[1][1]) == 1:
                s = T.SYMS[c[1][1][0][0]]
                if s.kind == 'op' and s.data[0] == 'fEq' and p[1] in s.data[1:] and any(x[0] == 'c' for x in s.data[1:]):
                    e = names.NEv()
                    e.v[c[1][1][0][0]] = 1
                    if e.cond(c):
                        e.v[c[1][1][0][0]] = 0
                        if not e.cond(c):
                            out.add(i)
    return out


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def show(lab, vals):
    return lab + ('(%s)' % ', '.join(repr(x) for x in vals) if vals else '')


def check(P, r):
    r.rule = RULE
    r.assume += ['Rust formats integers and floats so that different values have different texts']
    nm = names.collect(P)
    r.funcs.update(P.fns[i]['path'] for i in names._C['ip'].analysed)
    by = {}
    conc = []
    shapes = []
    for lab, v, t, st in nm:
        if t is None:
            r.undecide('the name of %s is not followed' % lab)
            continue
        cs = names.concrete(lab, v, t, st)
        conc += [(n, lab, vals) for n, vals in cs]
        if not cs and not names.leaves(v):
            r.undecide('the name of %s is not in closed form' % lab)
        sh = names.shape(t, names.leaves(v))
        shapes.append((lab, v, sh, st))
    hit = set()

    def collide(key, lab, vals, what):
        o = by.get(key)
        if o is None:
            by[key] = (lab, vals)
        elif o[0] != lab or not same(o[1], vals):
            k = tuple(sorted((o[0], lab)))
            if (what, k) not in hit:
                hit.add((what, k))
                r.violation('%s of %s' % (what, ' and '.join(sorted(set(k)))), '%s and %s share the %s %r' % (show(*o), show(lab, vals), what, key))
    for n, lab, vals in conc:
        collide(n, lab, vals, 'name')
    if not hit:
        for i, (lab, v, sh, st) in enumerate(shapes):
            if sh is None:
                r.undecide('the name of %s is not built from literals and plain parameters; %d sample parameters do not collide' % (lab, len(conc)))
                continue
            if names.injective(sh, names.leaves(v), pinned(lab, v, st)):
                r.ok('the name of %s determines its parameters' % lab)
            else:
                r.undecide('the name of %s is not shown to determine its parameters' % lab)
            for lab2, v2, sh2, st2 in shapes[i + 1:]:
                if sh2 is None:
                    continue
                if names.disjoint(sh, sh2):
                    r.ok('%s and %s differ in their literal parts' % (lab, lab2))
                else:
                    r.undecide('the names of %s and %s are not shown to differ' % (lab, lab2))
    # the result file
    b = judge.get(P)
    r.funcs.update(P.fns[i]['path'] for i in b.ip.analysed)
    files = [q for q, what, u, site in b.hk.created if q is not None and judge.path_in(q[1]) is None]
    if not files:
        r.undecide('the result file is not found (%s)' % b.why)
    by.clear()
    for q in files[:1]:
        q = X.norm_text(q)
        ss = [s for s in q[1] if s[0] == 'x']
        direct = len(ss) == 1 and ss[0][1][0] == 'codecname' and all(s[0] in ('s', 'x') for s in q[1])
        if direct:
            r.ok('the path of the result file is literal text around the name')
            continue
        bad = 0
        for n, lab, vals in conc:
            try:
                collide(X.evaltext(q, {'codecname': n}), lab, vals, 'result file')
            except (X.Unk, X.NoValue, KeyError):
                bad += 1
        if bad:
            r.undecide('the path of the result file is not in closed form')
        elif not any(w == 'result file' for w, _ in hit):
            r.undecide('the path of the result file is not literal text around the name; it does not collide for %d samples' % len(conc))
    r.count('sample configurations', len(conc))
