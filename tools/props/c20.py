"""C20: decode is a function of its bytes and configuration (effect analysis over the call graph)."""
import re
import ana, cg
from models import norm

# Sources of values that are not a function of the arguments, and effects on files.
BAD = [
    (r'^rand(_core|_chacha)?::|as rand::|^<?rand::', 'consults a random number generator'),
    (r'std::time::|std::time::SystemTime|std::time::Instant|chrono', 'reads the clock'),
    (r'^std::env::(?!consts)|std::env::', 'reads the environment'),
    (r'std::fs::|std::fs::File|image::open|::save(_with_format|_buffer.*)?$|csv::Writer::.*from_path|csv::Reader::.*from_path|std::os::|std::process::|std::net::', 'uses the file system or another process'),
    (r'std::thread::(?!local)|std::thread::current|rayon', 'depends on thread scheduling'),
    (r'std::io::stdin|std::io::Stdin', 'reads standard input'),
]
HASH_ITER = r'(HashMap|HashSet|RawTable|RawIter|RawIntoIter|hash_map|hash_set|hashbrown)'
ITER_NAMES = {'iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'drain_filter',
              'union', 'intersection', 'difference', 'symmetric_difference'}
HASHERS = {'hash_one', 'finish', 'build_hasher', 'hasher'}
STATE_TYPES = re.compile(r'(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Atomic\w+|LocalKey)\b')
MUT_STATE = re.compile(r'(Mutex|RwLock|RefCell|\bCell|UnsafeCell|Atomic)')
# calls with which cniic code changes or reads shared state
STATE_CALLS = re.compile(r'(Atomic\w*(?:::<[^>]*>)?::(?!new)\w+|std::sync::(Mutex|RwLock|poison::mutex::Mutex|poison::rwlock::RwLock).*::(lock|try_lock|read|write|try_read|try_write)$|LocalKey)')
ONCE = re.compile(r"(OnceLock|OnceCell|LazyLock|LazyCell)")


def sites(P, g, par):
    for x in par:
        f = P.fns[x]
        if f['crate'] != 'cniic' or f['body'] is None:
            continue
        for y, l in g.callees(x):
            yield x, f, y, P.fns[y], l


def statics_in(P, f):
    """Names of statics a function touches."""
    out = []

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if isinstance(x.get('p'), list) and 'b' in x:
                for _, ai in x['p']:
                    a = P.allocs[ai]
                    if 'static' in a:
                        out.append((a['static'], x.get('ty')))
            for y in x.values():
                if isinstance(y, (list, dict)):
                    walk(y)
    for b in f['body']['blocks']:
        walk(b['s'])
        walk(b['t'])
    return out


def check(P, r):
    r.rule = ('Effect analysis over the monomorphised call graph of Codec::decode for every codec: each call made by program code is classified; '
              'calls to random, clock, environment, file, thread or hash-iteration-order sources and uses of mutable or lazily shared statics are violations.')
    r.assume = ['third-party callees without MIR (image, zhang_hilbert, std internals) are deterministic unless listed as a source', 'stdout/stderr output is not part of the decoded result']
    g = cg.CG(P)
    root = ana.root(P, 'decode')
    # the input iterator of the harness is not program code
    par = g.reach([root], stop=lambda f: f['path'].startswith('cniic::__vp::vp_'))
    stat = {n: P.tyname(t) for n, t in P.d['statics']}
    for x, f, y, c, l in sites(P, g, par):
        r.funcs.add(f['path'])
        if c['crate'] == 'cniic':
            continue
        r.count('external call sites')
        n = norm(c['path'])
        why = None
        for pat, w in BAD:
            if re.search(pat, c['path']) or re.search(pat, c['name'].split('::<')[0]):
                why = w
        last = n.rsplit('::', 1)[-1]
        if why is None and last in ITER_NAMES and re.search(r'(Hash(Map|Set)|hash_map|hash_set)', c['name'].split('>::')[0] if last == 'into_iter' else c['path']):
            if last != 'into_iter' or re.match(r"^<(&'?\w* ?(mut )?)?(std::collections::|hashbrown::)?\S*Hash(Map|Set)<", c['name']):
                why = 'iterates a hash table in its random order'
        if why is None and last in HASHERS and re.search(r'(RandomState|DefaultHasher|BuildHasher|SipHasher)', c['name']):
            why = 'uses a randomly seeded hash value'
        if why is None and STATE_CALLS.search(c['path']):
            why = 'uses shared mutable state'
        if why is None and ONCE.search(c['path']):
            if last in ('set', 'take', 'get_mut', 'try_insert', 'replace'):
                why = 'stores a value that later calls see'
            elif last in ('get_or_init', 'get_or_try_init', 'get_mut_or_init'):
                clo = [a for a in c['args'] if isinstance(a, int) and P.types[a]['k'] == 'closure']
                for a in clo:
                    up = P.types[a].get('up')
                    if up is not None and P.types[up]['k'] == 'tuple' and P.types[up]['a']:
                        why = 'keeps a value computed from the arguments of the first call for all later calls'
        if why:
            r.violation('%s -> %s' % (f['path'], n), 'decode reaches %s (%s): %s calls %s, which %s; path %s' % (c['path'], f.get('file'), f['path'], n, why, g.chain(par, x)))
        else:
            r.ok('%s -> %s' % (f['path'], n))
    # statics
    for x in par:
        f = P.fns[x]
        if f['crate'] != 'cniic' or f['body'] is None:
            continue
        for s, ty in statics_in(P, f):
            tn = ''
            for k, v in stat.items():
                if k.endswith(s) or s.endswith(k):
                    tn = v
            m = re.search(MUT_STATE, tn)
            mutptr = ty is not None and P.types[ty]['k'] == 'ptr' and P.types[ty].get('mut')
            if m or mutptr:
                r.violation('%s static %s' % (f['path'], s), 'decode reaches %s, which uses the shared mutable static %s: %s; path %s' % (f['path'], s, tn, g.chain(par, x)))
            else:
                r.ok('static %s: %s' % (s, tn))
    r.count('functions reachable from decode', len(par))
    # the codec itself must not carry mutable state
    seen = set()

    def tystate(ty):
        if ty in seen:
            return
        seen.add(ty)
        t = P.types[ty]
        if t['k'] == 'adt':
            if t['name'].rsplit('::', 1)[-1] in ('Cell', 'RefCell', 'UnsafeCell', 'Mutex', 'RwLock') or re.search(r'::Atomic\w+$', t['name']):
                r.violation('codec state ' + P.tyname(ty), 'the codec value holds interior-mutable state %s, so decode can depend on earlier calls' % P.tyname(ty))
                return
            if t.get('crate') == 'cniic':
                for v in t.get('v') or []:
                    for x in v['f']:
                        tystate(x[1])
            for x in t['args']:
                if isinstance(x, int):
                    tystate(x)
        elif t['k'] in ('tuple',):
            for x in t['a']:
                tystate(x)
        elif t['k'] in ('ref', 'array', 'slice'):
            tystate(t['e'])
    tystate(ana.codec_ty(P))
    r.ok('codec type carries no interior mutability')
    if r.counts.get('external call sites', 0) < 40:
        r.violation('anchor', 'only %d external call sites reachable from decode: the codec entry points were not found' % r.counts.get('external call sites', 0))
