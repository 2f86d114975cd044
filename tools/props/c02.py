"""C02: no malformed byte stream makes decode panic."""
import re
import drive, panics
from run import Hooks

RULE = ('Abstract interpretation of Codec::decode for every codec configuration over an arbitrary byte stream. Every reachable panic site (explicit panic, failed '
        'unwrap/expect/assert, out-of-range index or slice, arithmetic overflow, division by zero) is an obligation discharged by the interval and linear domains. '
        'A site is a violation when its failing condition is a closed form over bytes of the stream (no loop-summarised quantity) that some bytes make false on the path '
        'leading to it; a condition that involves summarised quantities and cannot be discharged is recorded as undecided.')


class H(Hooks):
    peel = 2


def post(ip, lab, outs, why):
    res = [('fn', [ip.p.fns[x]['path'] for x in ip.analysed])]
    for (kind, u, fn), status, detail in panics.classify(ip, {'input', 'codec'}):
        at = u + ((' (in %s)' % fn) if fn else '')
        if status == 'viol':
            res.append(('viol', '%s in %s' % (kind, u), 'decode of %s can panic (%s) in %s: %s' % (lab, kind, at, detail)))
        else:
            res.append(('und', lab, '%s in %s: %s' % (kind, at, re.sub(r'#\d+', '', detail))))
    res.append(('count', 'panic sites discharged', ip.discharged))
    if why:
        res.append(('und', lab, why))
    else:
        res.append(('ok', '%s: %d panic obligations evaluated in %d functions' % (lab, ip.discharged, len(ip.analysed))))
    return res


def check(P, r):
    r.rule = RULE
    r.assume = ['third-party functions do not panic unless their model says so (image buffers, Vec/VecDeque/HashMap, slices, arithmetic are modelled)',
                'memory exhaustion by a huge declared size is out of scope']
    drive.all_configs(P, r, 'decode', H, post, steps=1200000)
