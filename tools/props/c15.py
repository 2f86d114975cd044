"""C15: the program only creates files inside output/."""
import os
import ana, bench, judge, drive, names
import textmodel as X
from absint import Interp, State
from models import norm

RULE = ('Every call of a file-creating function reached from main (csv, image and std) is found in the call graph, and the text of its path argument is derived by abstract interpretation of the enclosing functions: '
        'it must be "output/" followed by pieces without a path separator (literals, file names, extensions, codec names whose own text is shown free of separators). A path that is not of that form is evaluated for sample image paths and names. '
        'No call removes, renames or starts another program.')
SAMPLES = ('a.png', 'photos/b.png', '/abs/dir/c.jpg', '../d.png', '.hidden', 'x', 'a.b/c.d.e', './e.png', 'output/f.png')
NAMES = ('codec', 'hilbert-rle-approx_1.5')


def inside(p, mkdir):
    n = os.path.normpath(p)
    if mkdir:
        return n == 'output'
    return os.path.dirname(n) == 'output'


def judge_path(r, q, what, u, slash):
    mk = what in bench.MKDIR
    if q is not None:
        q = X.norm_text(q)
    if q is None:
        r.undecide('the path given to %s in %s is not followed' % (what, u))
        return
    segs = q[1]
    if not mk and segs and segs[0][0] == 's' and segs[0][1].startswith('output/'):
        rest = ('q', ((('s', segs[0][1][7:]),) if segs[0][1][7:] else ()) + segs[1:])
        if X.slashfree(rest, slash) and X.nonempty(rest, slash) and (not X.is_lit(rest) or X.litval(rest) not in ('.', '..')):
            r.ok('%s in %s: output/ + one path component' % (what, u))
            return
    bad = und = None
    for p in SAMPLES:
        for n in NAMES:
            try:
                v = X.evaltext(q, {'path': lambda d: p, 'codecname': n, 'command': 'hilbert', 'arg0': 'cniic'})
            except X.NoValue:
                continue
            except (X.Unk, KeyError) as e:
                und = 'the path given to %s in %s is not in closed form (%s)' % (what, u, e)
                continue
            if not inside(v, mk):
                bad = bad or (p, v)
    if bad:
        r.violation('%s in %s' % (what, u), '%s in %s creates %r for the image %r: outside output/' % (what, u, bad[1], bad[0]))
    elif und:
        r.undecide(und)
    elif mk and X.is_lit(q):
        r.ok('%s in %s: output' % (what, u))
    else:
        r.undecide('the path given to %s in %s stays inside output/ for the samples only' % (what, u))


FS = set(bench.CREATE) | set(bench.CREATE2) | {'Writer::from_path', 'WriterBuilder::from_path', 'OpenOptions::open'} | set(bench.MKDIR)


def check(P, r):
    r.rule = RULE
    r.assume += ['csv, image and std create exactly the file whose path they are given; symbolic links inside output/ are not followed by the analysis']
    nm = names.collect(P)
    slash = bool(nm) and all(t is not None and X.slashfree(t) for _, _, t, _ in nm)
    if nm and not slash:
        for lab, b, t, st in nm:
            if t is None or not X.slashfree(t):
                hit = next((v for v, _ in names.concrete(lab, b, t, st) if '/' in v), None) if t is not None else None
                if hit:
                    r.violation('codec name of ' + lab, 'the name of %s can be %r: it is no single path component' % (lab, hit))
                else:
                    r.undecide('the name of %s is not shown to be free of path separators' % lab)
    b = judge.get(P)
    mk, mip, mo, mwhy = bench.run_main(P)
    for x in (b.ip, mip):
        r.funcs.update(P.fns[i]['path'] for i in x.analysed)
    if b.why:
        r.undecide('bench: ' + b.why)
    if mwhy:
        r.undecide('main: ' + mwhy)
    done = set()
    for h in (b.hk, mk):
        for q, what, u, site in h.created:
            k = (what, u, repr(q))
            if k not in done:
                done.add(k)
                judge_path(r, q, what, u, slash)
        for what, u, q in h.removed:
            r.violation('%s in %s' % (what, u), '%s is called in %s' % (what, u))
    # every other call of such a function in the call graph of main
    sites = set(s[0] for h in (b.hk, mk) for s in h.sites)
    calls = 0
    for i, f in enumerate(P.fns):
        if not f or f['crate'] != 'cniic' or '__vp' in f['path'] or not f.get('body'):
            continue
        for blk in f['body']['blocks']:
            t = blk['t']
            if t['k'] != 'call' or t['f'][0] != 'k' or 'fn' not in t['f'][1]:
                continue
            c = norm(P.fns[t['f'][1]['fn']]['path'])
            if c in bench.REMOVE or c in bench.SPAWN:
                calls += 1
                r.violation('%s in %s' % (c, f['path']), '%s is called in %s' % (c, f['path']))
            elif c in FS:
                calls += 1
                if f['path'] not in sites:
                    sites.add(f['path'])
                    apart(P, r, i, f, slash)
    r.count('calls of file-creating functions', calls)
    if not calls:
        r.undecide('no call of a file-creating function was found')


def apart(P, r, fid, f, slash):
    """A function that creates files and is not reached by the runs of the benchmark and main."""
    import terms as T
    hk = bench.Hk('any')
    T.reset()
    ip = Interp(P, hk, steps=200000)
    hk.ip = ip
    ip.bounded = 2
    st = State()
    st.g['!ev'] = ()
    args = [('t', f['body']['locals'][j + 1], 'arg%d' % j) for j in range(f['body']['nargs'])]
    outs, why = bench.guarded(ip, fid, args, st)
    done = set()
    n = 0
    for q, what, u, site in hk.created:
        n += 1
        k = (what, u, repr(q))
        if k not in done:
            done.add(k)
            judge_path(r, q, what, u, slash)
    if not n or why:
        r.undecide('the file created in %s is not followed (%s)' % (f['path'], why))
