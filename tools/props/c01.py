"""C01: no path of decode on which the input ended returns an image."""
import drive
from run import Hooks
from models import some, NONE

RULE = ('Abstract interpretation of Codec::decode for every codec configuration over an arbitrary byte stream; the state carries a typestate bit that is set '
        'once the stream has reported its end. A return of Some(image) in a state with the bit set is a violation.')


class H(Hooks):
    def reader_next(self, ip, st, a, act, t):
        fr = drive.user_frame(drive.frames(act))
        s = st.copy()
        s.g['!eof'] = 1
        self.sites.add(fr)
        # once the stream has ended it keeps reporting the end
        if st.g.get('!eof'):
            return [(NONE, s)]
        return [(some(ip.fresh_num('in', 'u8', 'input')), st.copy()), (NONE, s)]


def mk():
    h = H()
    h.sites = set()
    return h


def post(ip, lab, outs, why):
    res = [('fn', ['%s' % ip.p.fns[x]['path'] for x in ip.analysed])] if hasattr(ip, 'analysed') else []
    bad = good = 0
    for v, s in outs:
        can_some = v[0] != 'e' or any(a[0] == 1 for a in v[1])
        if s.g.get('!eof') and can_some:
            if v[0] == 'e' and len(v[1]) == 1:
                bad += 1
            else:
                # a merged value: is Some feasible?
                d = ip.vdiscr(v, 1) if v[0] == 'e' else None
                if v[0] == 'e' and d is not None and s.assume(d) is None:
                    good += 1
                elif v[0] == 'e':
                    bad += 1
                else:
                    res.append(('und', lab, 'decode returns an unrecognised value after the stream has ended'))
        elif can_some or v[0] == 'e':
            good += 1
    for x in sorted(ip.hooks.sites):
        res.append(('ok', '%s: end of input read in %s leads to failure' % (lab, x)) if not bad else ('ok', None))
    if bad:
        res.append(('viol', '%s returns an image after the end of the stream' % lab,
                    'decode of %s can return Some(image) after the byte stream reported its end; the end is observed in: %s' % (lab, ', '.join(sorted(ip.hooks.sites)))))
    if why:
        res.append(('und', lab, why))
    elif not any(not s.g.get('!eof') for v, s in outs):
        res.append(('und', lab, 'no complete decode path found'))
    else:
        res.append(('ok', '%s: %d return states examined' % (lab, len(outs))))
    return res


def check(P, r):
    r.rule = RULE
    r.assume = ['the reader is an arbitrary iterator that keeps returning None after its first None', 'third-party functions behave as modelled in tools/models.py']
    drive.all_configs(P, r, 'decode', mk, post, steps=600000)
