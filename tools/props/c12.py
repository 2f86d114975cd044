"""C12: one header, one row per measured image, whatever the interleaving."""
import judge

RULE = ('The measuring function is interpreted abstractly on two images with arbitrary paths, every outcome of opening, encoding and decoding, every size and every difference of the decoded image; all paths are kept apart. '
        'A parallel loop is interpreted for one element from every value its lock-protected state can have (to a fixpoint); its atomic segments are extracted and all interleavings of three elements are explored over them. '
        'No reachable interleaving may write the header twice, late or never, no path may write a record for an image that failed, none or two for one that was measured, or stop the other images; the result file is created once and truncated.')


def check(P, r):
    r.rule = RULE
    r.assume += ['writing to the result file itself succeeds (a full disk is not modelled)', 'locks and atomics are sequentially consistent; three concurrent elements show every interleaving of identical elements up to the number of distinct shared values']
    b = judge.get(P)
    r.funcs.update(P.fns[i]['path'] for i in b.ip.analysed)
    out, st = judge.verdicts(b)
    prelude(b, r, st)
    for (pid, key), msg in out.items():
        if pid == 'C12':
            r.violation(key, msg)
    text = {'twice': 'the header is written twice', 'late': 'a header is written after records', 'headless': 'a record is written before any header'}
    seen = set()
    if b.hk.pars:
        for v in b.values:
            for c in judge.csvs(v):
                seen.add(c)
                for x in c[3]:
                    r.violation('header ' + x, '%s: some interleaving of the elements of the parallel loop ends with the result file in that state' % text[x])
        r.count('shared states reachable', len(b.values))
        r.count('atomic segments', sum(len(t[0]) for p in b.hk.pars for t in p[1]))
    for run in (b.seq if not b.hk.pars else []):
        hdr, rows = 0, 0
        for e in run.ev:
            if e[0] == 'hdr':
                hdr += 1
                if hdr > 1:
                    r.violation('header twice', text['twice'] + ' on one path of the measuring loop')
                if rows:
                    r.violation('header late', text['late'] + ' on one path of the measuring loop')
            if e[0] == 'row':
                rows += 1
                if not hdr:
                    r.violation('header headless', text['headless'] + ' on one path of the measuring loop')
    order = set()
    for run in b.runs + b.seq:
        for e in run.ev:
            if e[0] == 'append':
                r.violation('appends', 'the result file is opened without truncating it, so what an earlier run left in it stays before the header')
            if e[0] == 'deadlock':
                r.violation('deadlock', 'a lock is acquired again while it is held: the measurement never finishes')
            if e[0] == 'order':
                order.add(e[1:])
        for it in run.items.values():
            for e in it['create']:
                if e[2] in ('csv', 'OpenOptions::open', 'File::create') and e[1] is not None and judge.path_in(e[1][1]) is None and not [s for s in e[1][1] if s[0] == 'x' and s[1][0] == 'any']:
                    r.violation('result file created for each image', '%s creates the result file while an image is processed: records written before are lost' % e[3])
    for a, c in order:
        if (c, a) in order:
            r.violation('lock order', 'two locks are acquired in both orders: elements of the parallel loop can wait for each other for ever')
    for st0, u in b.hk.exits:
        if any(e[0] == 'open' for e in st0.g.get('!ev', ())) and not any(e[0] == 'iofail' for e in st0.g['!ev']):
            r.violation('exit in %s' % u, 'the process exits in %s while images are being measured: records of the others are never written' % u)
    for key, msg in judge.panics(b):
        r.violation(key, msg)
    r.count('paths of one element' if b.hk.pars else 'paths', st['runs'])
    r.count('paths no interleaving takes', b.infeasible)
    for run in b.runs:
        r.ok(None)
    if st['rows']:
        r.ok('every measured image has its record in %d of %d sampled executions' % (st['rows'], st['judged']))


def prelude(b, r, st):
    if b.why:
        r.undecide(b.why)
    if not st['rows']:
        r.undecide('no record was seen on any path')
    if st['unknown']:
        r.undecide('%d sampled executions have conditions that are not followed' % st['unknown'])
