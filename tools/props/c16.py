"""C16: parsing a codec specification never panics."""
import ana, drive, spec, terms as T
import panics
from models import norm
from teval import Unknown

RULE = ('AnyCodec::from_str is interpreted abstractly for every arrangement of at most N punctuation marks ( ) , with arbitrary texts before, between and after them, so every byte offset is a sum of symbolic lengths. '
        'Every construct that can panic (index, slice, unwrap, assert, arithmetic check, explicit panic) reached on such a path must be unreachable there, and every slice of a text must be at a piece boundary. '
        'A construct that is not excluded is reported only with a concrete specification that reaches it.')


def site(kind, f, stack):
    u = drive.user_frame(stack)
    return '%s in %s' % (kind, u)


def job(P, sh, found):
    hk, ip, outs, why = spec.run_shape(P, sh)
    lab = 'shape %r' % (sh if isinstance(sh, str) else sh[1][:12])
    res = [('fn', [P.fns[x]['path'] for x in ip.analysed])]
    n = 0
    bad = []
    for e in list(ip.collector) + list(getattr(ip, 'first', [])):
        if e[0] != 'panic':
            continue
        _, kind, where, cond, decided, st, stack = e[:7]
        stack = [P.fns[i]['path'] for i in reversed(stack)]
        if cond is not None and st.decide(cond) is True:
            n += 1
            continue
        key = site(kind, where, stack)
        if key in found:
            continue
        ex = [] if cond is None or cond is False else [T.neg(cond)]
        w = spec.witness(hk, st, ex, what=key)
        if w is not None:
            found.add(key)
            res.append(('viol', key, '%s in %s is reached by the specification %r' % (kind, drive.user_frame(stack), w)))
        else:
            bad.append('%s in %s is not excluded' % (kind, drive.user_frame(stack)))
    for st, a, segs in hk.bnd:
        if 'cut' in found:
            break
        def final(words, st=st, a=a, segs=segs):
            try:
                t = spec.conc(segs, words).encode()
                x = spec.SEv(hk, words, spec.texts_of(st)).term(a)
            except (spec.Out, Unknown, KeyError):
                return False
            return x < 0 or x > len(t) or x < len(t) and t[x] & 0xC0 == 0x80
        w = spec.witness(hk, st, (), None, final, 'cut')
        if w is not None:
            found.add('cut')
            res.append(('viol', 'text cut inside a character', 'a slice of the text is not at a character boundary for the specification %r' % w))
        else:
            bad.append('a slice of the text at an offset that is not a piece boundary')
    if why:
        bad.append(why)
    for u in sorted(set(hk.unknown)):
        bad.append('not followed: ' + u)
    for b in sorted(set(bad)):
        res.append(('und', lab, b))
    if not bad:
        res.append(('ok', '%s: %d paths, %d results, no construct that can panic is reachable' % (lab, len(outs), len(outs))))
    for i in range(n):
        res.append(('ok', None))
    res.append(('count', 'paths', len(outs)))
    return res


def check(P, r):
    r.rule = RULE
    n = 7 if r.tier == 'thorough' else 5
    r.assume = ['specifications with at most %d punctuation marks, and the longer literal ones in tools/spec.py' % n, 'the regex crate and the standard library behave as modelled in tools/spec.py and tools/models.py']
    jobs = list(spec.shapes(n)) + [('lit', l) for l in spec.LITERALS]
    groups = list(range(32))

    def run(g):
        out, found = [], set()
        for sh in jobs[g::32]:
            out += job(P, sh, found)
        return out
    res = drive.pool(groups, run, 850 if r.tier == 'thorough' else 400)
    for g in groups:
        for x in res[g]:
            drive.apply(r, x)
    r.count('shapes', len(jobs))
