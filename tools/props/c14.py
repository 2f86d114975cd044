"""C14: every CSV column holds the quantity its header names."""
import judge, bench
import terms as T
from teval import Unknown
from props.c12 import prelude

RULE = ('The header and the closed form of every field of every record are extracted by abstract interpretation of the measuring function and of main\'s pixel dumps. Fields are matched to headers by position: name must be the path, '
        'compressed_size the number of bytes encode appended, compression_ratio that over 3*w*h (as a ratio or in percent), error the sum of squared channel differences over w*h, for all sampled sizes, lengths and differences; '
        'red, green and blue must be channels 0, 1 and 2 of the pixel.')
CH = {'red': 0, 'green': 1, 'blue': 2, 'alpha': 3}


class DEv(judge.PEv):
    def __init__(self):
        judge.PEv.__init__(self, px=lambda i, x, y, c: (x * 7 + y * 31 + 60 * c + 11) % 256)


def check(P, r):
    r.rule = RULE
    b = judge.get(P)
    r.funcs.update(P.fns[i]['path'] for i in b.ip.analysed)
    out, st = judge.verdicts(b)
    prelude(b, r, st)
    for (pid, key), msg in out.items():
        if pid == 'C14':
            r.violation(key, msg)
    for u in sorted(getattr(b, 'undec', ())):
        r.undecide(u)
    for c in sorted(getattr(b, 'cols', ())):
        r.ok('column %s' % c)
    need = {'name', 'compressed_size', 'compression_ratio', 'error'}
    hd = [h for _, h, _ in b.hk.headers]
    for h in hd:
        for n in sorted(need - set(h)):
            r.violation('no column ' + n, 'the header %r has no column %s' % (h, n))
    r.count('records judged', st['rows'])
    dumps(P, r)


def dumps(P, r):
    hk, ip, outs, why = bench.run_main(P)
    r.funcs.update(P.fns[i]['path'] for i in ip.analysed)
    if why:
        r.undecide('main: ' + why)
    for path, names, u in hk.headers:
        if tuple(names) != ('red', 'green', 'blue'):
            if not set(names) & set(CH):
                continue
            if not {'red', 'green', 'blue'} <= set(names):
                r.violation('dump header', 'the pixel dump of %s has the header %r' % (u, names))
    seen = 0
    for path, cols, hdr, u, st in hk.rows:
        if hdr is None:
            r.violation('dump without header', 'a pixel dump is written without header in %s' % u)
            continue
        if not set(hdr) & set(CH):
            continue
        if len(hdr) != len(cols):
            r.violation('dump width', 'a record of %d fields is written under a header of %d names %r in %s' % (len(cols), len(hdr), hdr, u))
            continue
        ids = [px_of(c) for c in cols]
        pos = [p for p in ids if p is not None]
        for n, c, p in zip(hdr, cols, ids):
            if n not in CH:
                continue
            if p is not None and p[3] == CH[n] and p[:3] == pos[0][:3]:
                seen += 1
                continue
            v = wrong(n, c, pos, st)
            if v is None:
                r.undecide('field %s of the pixel dump in %s is not in closed form' % (n, u))
            elif v:
                r.violation('dump ' + n, 'column %s of the pixel dump holds %s in %s' % (n, v, u))
            else:
                seen += 1
    r.count('pixel dump fields', seen)
    if seen:
        r.ok('pixel dump: red, green and blue are channels 0, 1 and 2 of one pixel')
    else:
        r.undecide('no pixel dump was seen')


def px_of(c):
    if c is None or c[0] != 'num':
        return None
    t = c[1]
    if t[0] == 0 and len(t[1]) == 1 and t[1][0][1] == 1:
        s = T.SYMS[t[1][0][0]]
        if s.kind == 'op' and s.data[0] == 'px':
            return tuple(s.data[1:])
    return None


def wrong(n, c, pos, st):
    """False: the right value at the samples; a description of what it holds instead; None: cannot tell."""
    if not pos or c is None or c[0] not in ('num', 'float'):
        return None
    p = px_of(c)
    if p is not None and p[:3] == pos[0][:3]:
        return 'channel %s' % (p[3],)
    if p is not None:
        return 'another pixel'
    vals = []
    for k in range(6):
        e = DEv()
        e.px = lambda i, x, y, ch: (k * 41 + 60 * (ch if isinstance(ch, int) else 0) + 11 * k * k) % 256
        e.v.update({})
        try:
            v = e.term(c[1]) if c[0] == 'num' else e.fl(c[1])
        except (Unknown, KeyError):
            return None
        w = (k * 41 + 60 * CH[n] + 11 * k * k) % 256
        if v != w:
            return '%r for a pixel whose channel is %r' % (v, w)
    return False
