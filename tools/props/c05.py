"""C05: decode reads the stream with the inverse of exactly the stages encode wrote it with."""
import pairs, terms as T

RULE = ('Encode is interpreted over an image of arbitrary size and pixels, and what it hands to the output, byte for byte and coding stage for coding stage (Huffman, dictionary, look-back), '
        'is the input of decode. At each place decode must open the stage encode wrote there, with items of the type encode wrote; it must not read past the end of a well-formed stream, nor reject it.')


def judge(R):
    res = []
    for s2, douts, bad in R.pairs:
        for kind, msg, st in bad:
            for e in pairs.samples(R, st.pc.full()):
                res.append(('viol', '%s: %s' % (R.label, msg), '%s: %s, for %s' % (R.label, msg, pairs.show(e))))
                break
            else:
                res.append(('und', R.label, msg + ' on a path no sample image takes'))
        if not bad:
            n = sum(1 for x in s2.g['!log'] if x[0] == 'stage')
            res.append(('ok', '%s: %d plain bytes and %s are read back as written' % (R.label, len(s2.g['!log']) - n, ', '.join('%s stage' % x[1] for x in s2.g['!log'] if x[0] == 'stage') or 'no stage')))
    comb = pairs.combines(R)
    for kind, val, st in pairs.paths(R):
        if kind != 'none':
            if kind == 'some':
                pos, n = st.g.get('!pos', 0), len(st.g['!log'])
                if pos < n and not st.g.get('!over'):
                    res.append(('und', R.label, 'decode leaves %d written bytes or stages unread' % (n - pos)) if not left(R, st) else ('viol', '%s: decode leaves what encode wrote unread' % R.label, left(R, st)))
                else:
                    res.append(('ok', None))
            continue
        vs, us, d = pairs.check_path(R, kind, val, st)
        for asp, key, msg in vs:
            if asp == 'reject' and comb:
                continue            # a difference that is not inverted: C07
            res.append(('viol', '%s: %s' % (R.label, key), '%s: %s, for %s' % (R.label, key, msg)))
        for u in us:
            res.append(('und', R.label, u))
    if not R.pairs:
        res.append(('und', R.label, 'encode has no successful path'))
    return res


def left(R, st):
    """A sample image for which a whole stage, or bytes holding pixels, stay unread."""
    rest = st.g['!log'][st.g.get('!pos', 0):]
    if not any(x[0] == 'stage' for x in rest):
        return None
    for e in pairs.samples(R, st.pc.full()):
        return '%s: decode never opens the %s stage, for %s' % (R.label, [x[1] for x in rest if x[0] == 'stage'][0], pairs.show(e))
    return None


def check(P, r):
    r.rule = RULE
    r.assume = ['pixels are taken one by one up to the bound; longer images repeat the same loop bodies', 'clustering returns one cluster per requested cluster', 'third-party functions behave as modelled in tools/models.py']
    pairs.run(P, r, judge, tier=r.tier)
