"""Shared helpers: roots, codec configurations, running a root."""
import dump, absint, terms as T
from absint import Prog, Interp, State, Stuck, Budget
from terms import const

_P = None


def prog():
    global _P
    if _P is None:
        _P = Prog(dump.dump())
    return _P


def root(P, n):
    c = [i for i, f in enumerate(P.fns) if f['path'] == 'cniic::__vp::roots::' + n]
    if len(c) != 1:
        raise Exception('root %s not found' % n)
    return c[0]


def codec_ty(P):
    f = P.fns[root(P, 'is_lossless')]
    return P.pointee(f['body']['locals'][1])


def configs(ip, ty, depth=0):
    """Every value shape of the codec type: [(label, builder(st) -> value)].

    Enums are enumerated by variant (nested ones too); other data is symbolic."""
    P = ip.p
    t = P.types[ty]
    if t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'enum':
        out = []
        for i, v in enumerate(t['v']):
            subs = [('', [])]
            for _, fty in [(x[0], x[1]) for x in v['f']]:
                nxt = []
                for lab, bs in subs:
                    for l2, b2 in configs(ip, fty, depth + 1):
                        nxt.append((lab + l2, bs + [b2]))
                subs = nxt
            for lab, bs in subs:
                out.append((v['n'] + (('(%s)' % lab) if lab else ''), lambda st, i=i, bs=bs: ('e', ((i, tuple(b(st) for b in bs)),), None)))
        return out
    if t['k'] == 'adt' and t.get('crate') == 'cniic' and t['ak'] == 'struct':
        subs = [('', [])]
        for x in t['v'][0]['f']:
            nxt = []
            for lab, bs in subs:
                for l2, b2 in configs(ip, x[1], depth + 1):
                    nxt.append((lab + ('.' if lab and l2 else '') + l2, bs + [b2]))
            subs = nxt
        nm = t['name'].rsplit('::', 1)[-1]
        return [((l if l else nm) if depth else l or nm, lambda st, bs=bs: ('s', tuple(b(st) for b in bs))) for l, bs in subs]
    return [('', lambda st: deep(ip, ('t', ty, 'codec'), st))]


def deep(ip, v, st, d=0):
    """Fully materialise an unknown value so that copies stay related."""
    if v[0] == 't':
        v = ip.expand(v, st)
    if v[0] == 's' and d < 6:
        return ('s', tuple(deep(ip, x, st, d + 1) for x in v[1]))
    return v
