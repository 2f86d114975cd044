"""C13: a lossless codec's mismatch is an error and never a result row."""
import judge
from props.c12 import prelude

RULE = ('The measuring function is interpreted abstractly (see C12). On every path the test that decides whether the decoded image matches is a closed form over the pixels of both images, the sizes and is_lossless; '
        'evaluated for images that differ nowhere, in one channel of one pixel by 1, or by more, from 1 to 4 billion pixels: a lossless codec with any difference must reach no record and print a message of its own or return an error, '
        'and every other combination must reach its record.')


def check(P, r):
    r.rule = RULE
    r.assume += ['opening, encoding and decoding follow their contracts; the decoded image has the size of the original (C06)']
    b = judge.get(P)
    r.funcs.update(P.fns[i]['path'] for i in b.ip.analysed)
    out, st = judge.verdicts(b)
    prelude(b, r, st)
    for (pid, key), msg in out.items():
        if pid == 'C13':
            r.violation(key, msg)
    for key, msg in judge.panics(b):
        pass
    for run in b.runs:
        r.ok(None)
    r.count('sampled executions', st['judged'])
    r.count('samples', st['samples'])
    r.ok('%d executions of %d paths agree' % (st['judged'], st['runs']))
