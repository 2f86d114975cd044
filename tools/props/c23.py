"""C23: a codec that claims to be lossless applies no lossy stage."""
import pairs, compose, terms as T

RULE = ('For every configuration for which is_lossless can return true, encode is interpreted under exactly that condition; no value derived through floating point (averaging) or through a colour table may reach the stream, '
        'and the closed form of every decoded pixel must be the pixel encode read.')


def lossy_terms(R, st):
    return pairs.averaged(R, st)


def judge(R):
    if not R.claims:
        return [('count', 'configurations that never claim to be lossless', 1), ('ok', '%s: never claims to be lossless' % R.label)]
    res = [('count', 'configurations that claim to be lossless', 1)]
    for s2, douts, bad in R.pairs:
        a = pairs.averaged(R, s2)
        if not a:
            res.append(('ok', '%s: only unchanged colours reach the stream' % R.label))
            continue
        hit = None
        for e in pairs.samples(R, s2.pc.full()):
            if e.flt != 0.0 or 'a colour replaced through a table' in a:
                hit = e
                break
        what = sorted(a)[0]
        if hit is not None:
            res.append(('viol', '%s: %s reaches the stream while is_lossless is true' % (R.label, what), '%s: %s reaches the stream while is_lossless is true, for %s%s' % (R.label, what, pairs.show(hit), ' and tolerance %s' % hit.flt if hit.flt else '')))
        else:
            res.append(('und', R.label, '%s reaches the stream on a path no sample takes' % what))
    comb = pairs.combines(R)
    for kind, val, st in pairs.paths(R):
        if kind != 'some' or comb:
            continue
        vs, us, d = pairs.check_path(R, kind, val, st)
        for i in range(d):
            res.append(('ok', None))
        for asp, key, msg in vs:
            if asp == 'value':
                res.append(('viol', '%s: %s although is_lossless is true' % (R.label, key), '%s: %s' % (R.label, msg)))
            else:
                res.append(('und', R.label, key))
        for u in us:
            res.append(('und', R.label, u))
    return res


def check(P, r):
    r.rule = RULE
    r.assume = ['pixels are taken one by one up to the bound', 'third-party functions behave as modelled in tools/models.py']
    pairs.run(P, r, judge, lossless=True, tier=r.tier)
