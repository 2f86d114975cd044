"""C07: difference coding is inverted exactly."""
import pairs, terms as T

RULE = ('For the configurations whose encoder writes items combining several pixels (differences), the closed form of every decoded channel must reduce to the channel encode read there, every decode of what was '
        'encoded must succeed, and no arithmetic check on either side may be reachable by pixel values.')


def judge(R):
    if not pairs.combines(R):
        return [('count', 'configurations without differences', 1)]
    res = [('count', 'configurations with differences', 1)]
    for kind, val, st in pairs.paths(R):
        vs, us, d = pairs.check_path(R, kind, val, st)
        for i in range(d):
            res.append(('ok', '%s: %d pixels restored channel by channel' % (R.label, len(pairs.stored(st))) if i == 0 else None))
        for asp, key, msg in vs:
            if asp in ('value', 'reject'):
                res.append(('viol', '%s: %s' % (R.label, key), '%s: %s, for %s' % (R.label, key, msg)))
            elif asp == 'place':
                res.append(('und', R.label, 'positions differ, so colours are not compared on this path'))
        for u in us:
            res.append(('und', R.label, u))
    for key, msg in pairs.panics(R):
        res.append(('viol', '%s: %s' % (R.label, key), '%s: %s is reached by %s' % (R.label, key, msg)))
    res.append(('ok', '%s: no arithmetic check fails for a sample image' % R.label))
    return res


def check(P, r):
    r.rule = RULE
    r.assume = ['pixels are taken one by one up to the bound', 'third-party functions behave as modelled in tools/models.py']
    pairs.run(P, r, judge, tier=r.tier)
    if not r.counts.get('configurations with differences'):
        r.undecide('no configuration writes differences')
