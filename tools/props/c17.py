"""C17: a codec specification is accepted only as a whole."""
import ana, drive, spec, terms as T
from absint import State

RULE = ('AnyCodec::from_str is interpreted abstractly for every arrangement of at most N punctuation marks ( ) , with arbitrary texts before, between and after them. On every path that accepts, each text of the '
        'specification must be pinned as a whole by a test that succeeded (equality, a regular expression anchored at both ends, a number parsed from all of it), and the marks that no such test pins must form '
        'a complete, balanced call. A text that is free, or an incomplete call, is reported only with a concrete specification, carrying foreign text, that takes the accepting path.')


def accepts(v):
    return v[0] == 'e' and len(v[1]) == 1 and v[1][0][0] == 0


def job(P, sh, found):
    hk, ip, outs, why = spec.run_shape(P, sh)
    lab = 'shape %r' % (sh if isinstance(sh, str) else sh[1][:12])
    res = [('fn', [P.fns[x]['path'] for x in ip.analysed])]
    bad = []
    n = 0
    for v, st in outs:
        if v[0] != 'e':
            bad.append('a result that is not followed')
            continue
        if not any(x[0] == 0 for x in v[1]):
            res.append(('count', 'rejecting paths', 1))
            continue
        if len(v[1]) > 1:
            bad.append('accepting and rejecting paths are merged')
            continue
        if not hk.words:
            continue
        skel, loose = spec.skeleton(hk, st)
        if not loose and spec.wellformed(skel):
            n += 1
            res.append(('ok', '%s: accepted as %s' % (lab, skel)))
            continue
        tests = ', '.join(sorted({'%s %r' % (t[0], t[1]) for t in st.g.get('!t', ()) if t[3]}))
        key = 'accepted %s' % (tests or skel)
        if key in found:
            continue
        w = None
        if not spec.wellformed(skel) and not loose:
            w = spec.witness(hk, st, what=key)
            how = 'incomplete'
        if w is None:
            w = spec.witness(hk, st, (), range(len(hk.words)) if not loose else loose, what=key)
            how = 'carries foreign text'
        if w is not None:
            found.add(key)
            res.append(('viol', key, 'the specification %r is accepted, though it %s (tests that succeed: %s)' % (w, 'is not a complete call' if how == 'incomplete' else how, tests)))
        else:
            bad.append('accepting path not shown to cover the text: %s' % skel)
    if why:
        bad.append(why)
    for u in sorted(set(hk.unknown)):
        bad.append('not followed: ' + u)
    for b in sorted(set(bad)):
        res.append(('und', lab, b))
    if not bad:
        res.append(('ok', '%s: %d paths, %d accepting' % (lab, len(outs), n)))
    res.append(('count', 'accepting paths', n))
    return res


def check(P, r):
    r.rule = RULE
    n = 7 if r.tier == 'thorough' else 5
    r.assume = ['specifications with at most %d punctuation marks' % n, 'the regex crate and the standard library behave as modelled in tools/spec.py and tools/models.py']
    jobs = list(spec.shapes(n))
    groups = list(range(32))

    def run(g):
        out, found = [], set()
        for sh in jobs[g::32]:
            out += job(P, sh, found)
        return out
    res = drive.pool(groups, run, 850 if r.tier == 'thorough' else 400)
    for g in groups:
        for x in res[g]:
            drive.apply(r, x)
    r.count('shapes', len(jobs))
    if not r.counts.get('accepting paths'):
        r.undecide('no accepting path was found')
