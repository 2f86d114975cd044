"""C06: decoded images keep their dimensions, and every colour returns to the position it was read at."""
import pairs, terms as T
import compose

RULE = ('For every encode/decode path pair over an image of arbitrary width and height, the width and height of the decoded image must be, as terms, the ones encode read, and each pixel store of decode '
        'must carry the closed form of the colour encode read at that same position, with as many stores as the image has pixels. Positions are terms over width, height and the traversal index.')


def judge(R):
    res = []
    for kind, val, st in pairs.paths(R):
        if kind != 'some':
            continue
        vs, us, d = pairs.check_path(R, kind, val, st)
        for i in range(d):
            res.append(('ok', '%s: dimensions and %d stored positions' % (R.label, len(pairs.stored(st))) if i == 0 else None))
        for asp, key, msg in vs:
            if asp in ('dims', 'place'):
                res.append(('viol', '%s: %s' % (R.label, key), '%s: %s' % (R.label, msg)))
            else:
                res.append(('und', R.label, 'colours differ (%s), so positions are not compared on this path' % key))
        for u in us:
            res.append(('und', R.label, u))
    res += points(R)
    return res


def points(R):
    """Positions handed to the clustering: the coordinates stored beside a colour are those of the pixel."""
    res = []
    ip = R.ip
    for pts, st in R.h.points:
        for x in pts[1]:
            v = x[1]
            ls = compose.leafs(ip, st, v)
            if ls is None:
                continue
            pix = [t for t in ls if compose.px_leaves(t)]
            oth = [t for t in ls if not compose.px_leaves(t)]
            p = pairs.expected(tuple(pix)) if len(pix) == 3 else None
            if p is None or len(oth) != 2:
                continue
            if (oth[0], oth[1]) == (p[0], p[1]):
                res.append(('ok', '%s: clustered position is the pixel\'s' % R.label))
            elif sorted(oth) == sorted(p[:2]):
                res.append(('ok', '%s: clustered position is the pixel\'s' % R.label))
            else:
                w = pairs.elsewhere(st.pc.full(), p, (oth[0], oth[1]))
                if w:
                    res.append(('viol', '%s: a clustered point has another position than its colour' % R.label, w))
                else:
                    res.append(('und', R.label, 'the position beside a clustered colour is not shown equal'))
    return res


def check(P, r):
    r.rule = RULE
    r.assume = ['pixels are taken one by one up to the bound', 'the space-filling curve visits every pixel of a rectangle once (zhang_hilbert)', 'with as many clusters as points every point is a cluster of its own', 'third-party functions behave as modelled in tools/models.py']
    pairs.run(P, r, judge, tier=r.tier)
